// A stand-in for the parts of @metaplex-foundation/umi the JS client uses.
import { b58, publicKey as pk } from "./serializers";
export type PublicKey<T extends string = string> = T;
export type Pda = [string, number];
export type Signer = { publicKey: string; signMessage: unknown };
export type Context = any;
export type Option<T> = T | null;
export type OptionOrNullable<T> = T | null;
export type TransactionBuilder = any;
export type AccountMeta = { pubkey: string; isSigner: boolean; isWritable: boolean };
export type Account<T> = any;
export type Program = any;
export type ClusterFilter = any;
export type RpcAccount = any;
export type RpcGetAccountOptions = any;
export type RpcGetAccountsOptions = any;
export type UmiPlugin = any;

export const isPda = (v: any): boolean => Array.isArray(v) && v.length === 2 && typeof v[1] === 'number';
export const isSigner = (v: any): boolean => typeof v === 'object' && v !== null && 'publicKey' in v && 'signMessage' in v;
export function publicKey(v: any, _dedupe?: boolean): string {
  if (typeof v === 'string') return v;
  if (isPda(v)) return v[0];
  if (v && typeof v.publicKey === 'string') return v.publicKey;
  throw new Error('not a public key');
}
export const transactionBuilder = (items: any[] = []): any => ({
  items,
  add: (x: any) => transactionBuilder([...items, ...(Array.isArray(x) ? x : x.items ?? [x])]),
  append: (x: any) => transactionBuilder([...items, ...(Array.isArray(x) ? x : x.items ?? [x])]),
  prepend: (x: any) => transactionBuilder([...(Array.isArray(x) ? x : x.items ?? [x]), ...items]),
  getInstructions: () => items.map((i: any) => i.instruction),
});
export class ProgramError extends Error {
  constructor(message: string, readonly program?: any, readonly cause?: any) {
    super(message);
  }
}
export function assertAccountExists(a: any, _name?: string) {
  if (!a.exists) throw new Error('account not found');
}
export const deserializeAccount = (raw: any, s: any) => ({ publicKey: raw.publicKey, ...s.deserialize(raw.data)[0] });
export function gpaBuilder(_context: any, programId: string) {
  const b: any = { programId, fields: {}, de: null };
  b.registerFields = (f: any) => ((b.fields = f), b);
  b.deserializeUsing = (d: any) => ((b.de = d), b);
  return b;
}
// Other helpers of umi a client may come to import.
export type Some<T> = { __option: 'Some'; value: T };
export type None = { __option: 'None' };
export type Nullable<T> = T | null;
export type Instruction = any;
export type PublicKeyInput = any;
export type WrappedInstruction = any;
export type Amount = any;
export type SolAmount = any;
export type DateTime = any;
export type Umi = any;
export type SingleCluster = any;
export type Cluster = any;
export type Keypair = any;
export type MaybeRpcAccount = any;
export type GpaBuilder = any;
export type TransactionBuilderOptions = any;
export const some = (value: any) => ({ __option: 'Some', value });
export const none = () => ({ __option: 'None' });
export const isOption = (v: any): boolean => !!v && (v.__option === 'Some' || v.__option === 'None');
export const isSome = (v: any): boolean => v.__option === 'Some';
export const isNone = (v: any): boolean => v.__option === 'None';
export const unwrapOption = (v: any, f: () => any = () => null) => (isSome(v) ? v.value : f());
export const wrapNullable = (v: any) => (v == null ? none() : some(v));
export const isPublicKey = (v: any): boolean => typeof v === 'string' && /^[1-9A-HJ-NP-Za-km-z]{32,44}$/.test(v);
export const assertPublicKey = (v: any) => {
  if (!isPublicKey(v)) throw new Error('not a public key');
};
export const publicKeyBytes = (v: any): Uint8Array => pk().serialize(v);
export const publicKeyFromBytes = (b: Uint8Array): string => b58(b);
export const defaultPublicKey = (): string => '11111111111111111111111111111111';
export const samePublicKey = (a: any, b: any): boolean => publicKey(a) === publicKey(b);
export const uniquePublicKeys = (l: any[]): any[] => [...new Set(l)];
export const uniqueBy = (l: any[], same: (a: any, b: any) => boolean): any[] =>
  l.reduce((acc: any[], v) => (acc.some((a) => same(a, v)) ? acc : [...acc, v]), []);
export const chunk = (l: any[], n: number): any[] =>
  Array.from({ length: Math.ceil(l.length / n) }, (_, i) => l.slice(i * n, i * n + n));
export const zipMap = (a: any[], b: any[], f: (x: any, y: any) => any): any[] => a.map((x, i) => f(x, b[i] ?? null));
export const isFakePublicKey = (): boolean => false;
