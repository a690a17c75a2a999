// A stand-in for @metaplex-foundation/umi/serializers (little endian, as in umi).
export type Serializer<A = any, B = any> = {
  serialize: (v: any) => Uint8Array;
  deserialize: (b: Uint8Array, o?: number) => [any, number];
};
const ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
function unb58(s: string): Uint8Array {
  let n = 0n;
  for (const c of s) {
    const i = ALPHABET.indexOf(c);
    if (i < 0) throw new Error('bad base58');
    n = n * 58n + BigInt(i);
  }
  const out = new Uint8Array(32);
  for (let i = 31; i >= 0; i--) {
    out[i] = Number(n & 255n);
    n >>= 8n;
  }
  if (n !== 0n) throw new Error('not 32 bytes');
  return out;
}
export function b58(b: Uint8Array): string {
  let n = 0n;
  for (const x of b) n = (n << 8n) | BigInt(x);
  let s = '';
  while (n > 0n) {
    s = ALPHABET[Number(n % 58n)] + s;
    n /= 58n;
  }
  for (const x of b) {
    if (x !== 0) break;
    s = '1' + s;
  }
  return s;
}
const cat = (p: Uint8Array[]) => {
  const r = new Uint8Array(p.reduce((a, b) => a + b.length, 0));
  let o = 0;
  for (const x of p) {
    r.set(x, o);
    o += x.length;
  }
  return r;
};
function uint(size: number, big: boolean): Serializer {
  return {
    serialize(v: any) {
      let n = BigInt(v);
      if (n < 0n || n >= 1n << BigInt(8 * size)) throw new Error('out of range');
      const r = new Uint8Array(size);
      for (let i = 0; i < size; i++) {
        r[i] = Number(n & 255n);
        n >>= 8n;
      }
      return r;
    },
    deserialize(b: Uint8Array, o = 0) {
      if (b.length < o + size) throw new Error('too short');
      let n = 0n;
      for (let i = size - 1; i >= 0; i--) n = (n << 8n) | BigInt(b[o + i]);
      return [big ? n : Number(n), o + size];
    },
  };
}
export const u8 = () => uint(1, false);
export const u16 = () => uint(2, false);
export const u32 = () => uint(4, false);
export const u64 = () => uint(8, true);
export const u128 = () => uint(16, true);
export const bool = (): Serializer => ({
  serialize: (v) => new Uint8Array([v ? 1 : 0]),
  deserialize: (b, o = 0) => [b[o] === 1, o + 1],
});
export const publicKey = (): Serializer => ({
  serialize: (v) => unb58(typeof v === 'string' ? v : Array.isArray(v) ? v[0] : v.publicKey),
  deserialize: (b, o = 0) => {
    if (b.length < o + 32) throw new Error('too short');
    return [b58(b.slice(o, o + 32)), o + 32];
  },
});
export const struct = <T>(fields: [string, Serializer][], _o?: any): Serializer => ({
  serialize: (v) => cat(fields.map(([n, s]) => s.serialize(v[n]))),
  deserialize: (b, o = 0) => {
    const r: any = {};
    for (const [n, s] of fields) {
      const [v, e] = s.deserialize(b, o);
      r[n] = v;
      o = e;
    }
    return [r, o];
  },
});
export const mapSerializer = <A, B, C>(s: Serializer, un: (v: any) => any, map?: (v: any) => any): Serializer => ({
  serialize: (v) => s.serialize(un(v)),
  deserialize: (b, o = 0) => {
    const [v, e] = s.deserialize(b, o);
    return [map ? map(v) : v, e];
  },
});
export const option = (s: Serializer, o: any = {}): Serializer => {
  const prefix: Serializer = o.prefix ?? u8();
  return {
    serialize: (v) => {
      const some = v !== null && v !== undefined && v.__option !== 'None';
      const x = some && typeof v === 'object' && v.__option === 'Some' ? v.value : v;
      return some ? cat([prefix.serialize(1), s.serialize(x)]) : prefix.serialize(0);
    },
    deserialize: (b, o = 0) => {
      const [t, e] = prefix.deserialize(b, o);
      if (Number(t) === 0) return [null, e];
      return s.deserialize(b, e);
    },
  };
};
export const array = (s: Serializer, o: any = {}): Serializer => ({
  serialize: (v) => {
    const n = o.size;
    if (typeof n === 'number') {
      if (v.length !== n) throw new Error('wrong length');
      return cat(v.map((x: any) => s.serialize(x)));
    }
    return cat([u32().serialize(v.length), ...v.map((x: any) => s.serialize(x))]);
  },
  deserialize: (b, p = 0) => {
    let n = o.size;
    if (typeof n !== 'number') [n, p] = u32().deserialize(b, p);
    const r = [];
    for (let i = 0; i < n; i++) {
      const [v, e] = s.deserialize(b, p);
      r.push(v);
      p = e;
    }
    return [r, p];
  },
});
export const scalarEnum = <T>(e: any, o: any = {}): Serializer => {
  const size: Serializer = o.size ?? u8();
  const values = Object.keys(e).filter((k) => Number.isNaN(Number(k)));
  return {
    serialize: (v) => {
      const i = typeof v === 'number' ? v : values.indexOf(v);
      if (i < 0 || i >= values.length) throw new Error('bad variant');
      return size.serialize(i);
    },
    deserialize: (b, p = 0) => {
      const [i, n] = size.deserialize(b, p);
      if (Number(i) >= values.length) throw new Error('bad variant');
      return [Number(i), n];
    },
  };
};
// Other serializers of umi a client may come to import.
function int(size: number, big: boolean): Serializer {
  const u = uint(size, true);
  const bits = BigInt(8 * size);
  return {
    serialize(v: any) {
      const n = BigInt(v);
      if (n < -(1n << (bits - 1n)) || n >= 1n << (bits - 1n)) throw new Error('out of range');
      return u.serialize(BigInt.asUintN(8 * size, n));
    },
    deserialize(b: Uint8Array, o = 0) {
      const [n, e] = u.deserialize(b, o);
      const s = BigInt.asIntN(8 * size, n);
      return [big ? s : Number(s), e];
    },
  };
}
export const i8 = () => int(1, false);
export const i16 = () => int(2, false);
export const i32 = () => int(4, false);
export const i64 = () => int(8, true);
export const i128 = () => int(16, true);
export const unit = (): Serializer => ({ serialize: () => new Uint8Array(), deserialize: (_b, o = 0) => [undefined, o] });
export const tuple = (items: Serializer[], _o?: any): Serializer => ({
  serialize: (v) => cat(items.map((s, i) => s.serialize(v[i]))),
  deserialize: (b, o = 0) => {
    const r: any[] = [];
    for (const s of items) {
      const [v, e] = s.deserialize(b, o);
      r.push(v);
      o = e;
    }
    return [r, o];
  },
});
export const nullable = option;
export const bytes = (o: any = {}): Serializer => {
  const n = o.size;
  return {
    serialize: (v) => {
      if (typeof n === 'number') return cat([v.slice(0, n), new Uint8Array(Math.max(0, n - v.length))]);
      return n && n.serialize ? cat([n.serialize(v.length), v]) : v;
    },
    deserialize: (b, p = 0) => {
      if (typeof n === 'number') return [b.slice(p, p + n), p + n];
      if (!n || !n.serialize) return [b.slice(p), b.length];
      const [l, e] = n.deserialize(b, p);
      return [b.slice(e, e + Number(l)), e + Number(l)];
    },
  };
};
export const string = (o: any = {}): Serializer => {
  const inner = bytes({ size: 'size' in o ? o.size : u32() });
  return {
    serialize: (v) => inner.serialize(new TextEncoder().encode(v)),
    deserialize: (b, p = 0) => {
      const [v, e] = inner.deserialize(b, p);
      return [new TextDecoder().decode(v).replace(/\u0000/g, ''), e];
    },
  };
};
export const base58 = { serialize: unb58, deserialize: (b: Uint8Array, o = 0) => [b58(b.slice(o)), b.length] };
export const dataEnum = <T>(variants: [string, Serializer][], o: any = {}): Serializer => {
  const size: Serializer = o.size ?? u8();
  return {
    serialize: (v) => {
      const i = variants.findIndex(([n]) => n === v.__kind);
      if (i < 0) throw new Error('bad variant');
      return cat([size.serialize(i), variants[i][1].serialize(v)]);
    },
    deserialize: (b, p = 0) => {
      const [i, n] = size.deserialize(b, p);
      const x = variants[Number(i)];
      if (!x) throw new Error('bad variant');
      const [v, e] = x[1].deserialize(b, n);
      return [{ __kind: x[0], ...(v ?? {}) }, e];
    },
  };
};
