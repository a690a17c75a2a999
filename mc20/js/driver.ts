// argv[2]: one JSON request per line; argv[3]: one JSON answer per line
import * as client from 'client';
import * as fs from 'fs';
const hex = (b: Uint8Array) => Buffer.from(b).toString('hex');
// the programs a user has registered; none unless given
const context = (payer: any, registered: any = {}) => ({
  programs: {
    getPublicKey: (n: string, d: string) => registered[n]?.publicKey ?? d,
    get: (n: string) => {
      if (!registered[n]) throw new Error('program not registered');
      return registered[n];
    },
  },
  payer,
  identity: payer,
});
const OTHER = 'SysvarC1ock11111111111111111111111111111111';
const ELSE = 'SysvarFees111111111111111111111111111111111';
const signer = (k: string) => ({ publicKey: k, signMessage: null });
const str = (v: any): any =>
  typeof v === 'bigint' ? v.toString() : Array.isArray(v) ? v.map(str) : typeof v === 'object' && v !== null ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, str(x)])) : v;
const c = client as any;
async function answer(q: any): Promise<any> {
  if (q.kind === 'ix') {
    const build = (form: string) => {
      const input: any = {};
      for (const [n, k, s] of q.accounts) input[n] = s ? signer(k) : form === 'pda' ? [k, 254] : k;
      for (const [n, t, v] of q.args) {
        const small = form === 'number' && v !== null && Number(v) <= Number.MAX_SAFE_INTEGER;
        if (t === 'u64') input[n] = small ? Number(v) : BigInt(v);
        else if (t === 'opt') {
          const x = v === null ? null : small ? Number(v) : BigInt(v);
          input[n] = form !== 'option' ? x : x === null ? { __option: 'None' } : { __option: 'Some', value: x };
        } else input[n] = t === 'period' ? c.LockupPeriod[v] : v;
      }
      const programs = form === 'registered' ? { mplxRewards: { publicKey: OTHER } } : {};
      // the user's default payer and identity matter only where the caller names no payer
      const payer = signer('payer' in input || !q.payer ? ELSE : q.payer);
      const b = c[q.fn]({ ...context(payer, programs), identity: signer(ELSE) }, input);
      if (b.items.length !== 1) throw new Error('not one instruction');
      const { instruction: i, signers } = b.items[0];
      const keys = i.keys.map((k: any) => [k.pubkey, k.isSigner, k.isWritable]);
      const signing = [...new Set(keys.filter((k: any) => k[1]).map((k: any) => k[0]))].sort();
      const given = [...new Set(signers.map((x: any) => x.publicKey))].sort();
      if (JSON.stringify(signing) !== JSON.stringify(given)) throw new Error('other signers than those of the instruction');
      return { program: i.programId, data: hex(i.data), keys };
    };
    const plain = build('');
    for (const form of ['pda', 'number', 'option'])
      if (JSON.stringify(build(form)) !== JSON.stringify(plain)) throw new Error('another instruction for arguments given as ' + form);
    const r = build('registered');
    if (JSON.stringify({ ...r, program: plain.program }) !== JSON.stringify(plain) || r.program !== OTHER)
      throw new Error('not addressed to the program registered as mplxRewards');
    return plain;
  }
  if (q.kind === 'account') {
    const raw = (k: string) => ({ publicKey: k, data: new Uint8Array(Buffer.from(q.data, 'hex')), exists: true });
    // an rpc that knows x and y only
    const get = (k: string) => (k === 'x' || k === 'y' ? raw(k) : { publicKey: k, exists: false });
    const rpc = { rpc: { getAccount: async (k: any) => get(k), getAccounts: async (ks: any[]) => ks.map(get) } };
    const t = q.type;
    const a = c['deserialize' + t](raw('x'));
    const missing = async (f: any) => {
      try {
        await f;
        return false;
      } catch (_e) {
        return true;
      }
    };
    const b = JSON.stringify(str({ ...a, publicKey: 'y' }));
    const x = JSON.stringify(str(a));
    const one = async (v: any) => JSON.stringify(str(await v));
    const wrong: string[] = [];
    const want = (n: string, ok: boolean) => ok || wrong.push(n);
    want('fetch', (await one(c['fetch' + t](rpc, 'x'))) === x && (await one(c['fetch' + t](rpc, ['y', 255]))) === b);
    want('fetch of a missing account', await missing(c['fetch' + t](rpc, 'z')));
    want('safeFetch', (await one(c['safeFetch' + t](rpc, 'x'))) === x && (await c['safeFetch' + t](rpc, 'z')) === null);
    want('fetchAll', (await one(c['fetchAll' + t](rpc, ['y', 'x']))) === `[${b},${x}]`);
    want('fetchAll with a missing account', await missing(c['fetchAll' + t](rpc, ['x', 'z'])));
    want('safeFetchAll', (await one(c['safeFetchAll' + t](rpc, ['z', 'y', 'z', 'x']))) === `[${b},${x}]`);
    want('found by a search', JSON.stringify(str(c['get' + t + 'GpaBuilder'](context(null)).de(raw('x')))) === x);
    want('serialized again', hex(c['get' + t + 'AccountDataSerializer']().serialize(a)) === q.data);
    return { ...str(a), wrong: wrong.join(', ') };
  }
  if (q.kind === 'gpa') {
    const g = c['get' + q.type + 'GpaBuilder'](context(null));
    const data = new Uint8Array(Buffer.from(q.data, 'hex'));
    const r: any = {};
    for (const [n, [o, s]] of Object.entries<any>(g.fields)) r[n] = str(s.deserialize(data, o)[0]);
    return { program: g.programId, fields: r, size: c['get' + q.type + 'Size']() };
  }
  if (q.kind === 'tags') {
    const z = c['get' + q.type + 'Serializer']();
    return Object.keys(c[q.type])
      .filter((k) => Number.isNaN(Number(k)))
      .map((n) => `${n} ${hex(z.serialize(c[q.type][n]))} ${z.deserialize(z.serialize(c[q.type][n]))[0] === c[q.type][n]}`);
  }
  if (q.kind === 'error') {
    const p = c.createMplxRewardsProgram();
    const e = c.getMplxRewardsErrorFromCode(q.code, p);
    const back = e ? c.getMplxRewardsErrorFromName(e.name, p) : null;
    return e ? { name: e.name, code: e.code, message: e.message, back: back ? back.code : null } : {};
  }
  if (q.kind === 'program') {
    const registered: any = {};
    c.Rewards().install({ programs: { add: (p: any) => (registered[p.name] = p) } });
    const ctx = context(null, registered);
    const none = context(null);
    return {
      ids: [
        c.MPLX_REWARDS_PROGRAM_ID,
        c.createMplxRewardsProgram().publicKey,
        registered.mplxRewards?.publicKey,
        c.getMplxRewardsProgram(ctx)?.publicKey,
        c.getMplxRewardsProgramId(ctx),
        c.getMplxRewardsProgramId(none),
      ],
      errors: q.codes.map((i: number) => registered.mplxRewards?.getErrorFromCode(i)?.name ?? null),
    };
  }
  throw new Error('bad request');
}
async function main() {
  const out: string[] = [];
  for (const l of fs.readFileSync(process.argv[2], 'utf8').split('\n')) {
    if (!l) continue;
    try {
      out.push(JSON.stringify(await answer(JSON.parse(l))));
    } catch (e: any) {
      out.push(JSON.stringify({ failed: String(e.message) }));
    }
  }
  fs.writeFileSync(process.argv[3], out.join('\n') + '\n');
}
main().catch((e) => {
  console.error(e);
  process.exit(1);
});
