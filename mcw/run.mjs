// node run.mjs <wasm> <uint|field> <quick|thorough>: one JSON line per enumeration
import { readFileSync } from "node:fs";
const [, , file, part, tier] = process.argv;
const deep = tier === "thorough";
const mod = await WebAssembly.instantiate(readFileSync(file), {});
const x = mod.instance.exports;
const io = () => new BigUint64Array(x.memory.buffer, x.io(), 64);
const M = (1n << 64n) - 1n;
let buf = io();
const put = (at, n, v) => { for (let i = 0; i < n; i++) buf[at + i] = (v >> BigInt(64 * i)) & M; };
const get = (at, n) => { let v = 0n; for (let i = n - 1; i >= 0; i--) v = (v << 64n) | buf[at + i]; return v; };
const say = (o) => console.log(JSON.stringify(o));
function section(name, bounds, f) {
  let cases = 0;
  try {
    f((what, got, want) => {
      cases++;
      if (got !== want) throw new Error(`${what()}: 0x${got.toString(16)} instead of 0x${want.toString(16)}`);
    });
  } catch (e) {
    say({ name, violation: e.message });
    process.exit(0);
  }
  say({ name, bounds, cases });
}
const call = (what, f) => { try { const r = f(); if (buf.byteLength === 0) buf = io(); return r; } catch (e) { throw new Error(`${what()}: trapped (${e.message})`); } };
// limbs: all powers of two, their neighbours and complements
const edge = new Set([0n, 1n, M]);
for (let i = 0n; i < 64n; i++) for (const d of [-1n, 0n, 1n]) { const v = ((1n << i) + d) & M; edge.add(v); edge.add(M ^ v); }
const E = [...edge];
const C = [0n, 1n, 2n, 0xffffffffn, 0x100000000n, 0xffffffff00000000n, 0x8000000000000000n, 0x7fffffffffffffffn, M - 1n, M, 0xa5a5a5a5a5a5a5a5n];
function* words(al, n) { if (n === 0) { yield 0n; return; } for (const w of words(al, n - 1)) for (const a of al) yield (w << 64n) | a; }
function runs(n) { // carry chains: blocks of ones, single bits, their complements
  const s = new Set(); const all = (1n << BigInt(64 * n)) - 1n;
  const cuts = []; for (let i = 0; i <= 64 * n; i += (deep ? 8 : 32)) cuts.push(BigInt(i));
  for (const a of cuts) for (const b of cuts) if (a < b) for (const d of [-1n, 0n, 1n]) { const v = ((((1n << b) - (1n << a)) + d) & all); s.add(v); s.add(all ^ v); }
  return [...s];
}
if (part === "uint") {
  section("wasm: limb multiplication", "all pairs of powers of two, their neighbours and complements", (eq) => {
    for (const a of E) for (const b of E) {
      const w = () => `widening_mul(0x${a.toString(16)}, 0x${b.toString(16)})`;
      buf[0] = a; buf[1] = b; call(w, () => x.prim(0)); eq(w, get(0, 2), a * b);
    }
    for (let i = 0n; i < 256n; i++) for (let j = 0n; j < 256n; j++) {
      const a = i << 28n, b = j << 28n; const w = () => `widening_mul(0x${a.toString(16)}, 0x${b.toString(16)})`;
      buf[0] = a; buf[1] = b; call(w, () => x.prim(0)); eq(w, get(0, 2), a * b);
    }
  });
  section("wasm: limb primitives", "products of boundary limbs for mac, carrying_mac, adc, sbb", (eq) => {
    for (const a of C) for (const b of C) for (const c of C) {
      const w = (n) => () => `${n}(0x${a.toString(16)}, 0x${b.toString(16)}, 0x${c.toString(16)})`;
      const set = () => { buf[0] = a; buf[1] = b; buf[2] = c; };
      set(); call(w("mac"), () => x.prim(1)); eq(w("mac"), get(0, 2), a + b * c);
      for (const d of C) { set(); buf[3] = d; call(w("carrying_mac"), () => x.prim(2)); eq(w("carrying_mac"), get(0, 2), a + b * c + d); }
      set(); call(w("adc"), () => x.prim(3)); eq(w("adc"), get(0, 2), a + b + c);
    }
    for (const a of C) for (const b of C) for (const c of [0n, 1n]) {
      const w = () => `sbb(0x${a.toString(16)}, 0x${b.toString(16)}, 0x${c.toString(16)})`;
      buf[0] = a; buf[1] = b; buf[2] = c; call(w, () => x.prim(4));
      const d = a - b - c;
      eq(w, get(0, 1), d & M); eq(w, buf[1], d < 0n ? 1n : 0n);
    }
  });
  for (const n of [1, 2, 3, 4, 6]) {
    const top = (1n << BigInt(64 * n)), all = top - 1n;
    const al = n === 1 ? E : n === 2 ? [...words(C, 2)] : n === 3 ? [...words([0n, 1n, 0xffffffffn, 0x100000000n, M], 3)] : n === 4 ? [...words([0n, 1n, M], 4)] : [...words([1n, M], 6)];
    const vals = [...new Set([...al, ...runs(n).filter((_, i) => deep || i % (n > 3 ? 3 : 1) === 0)])];
    section(`wasm: ${n}-limb unary operations`, "doubling, halving, bit length, every bit, bytes", (eq) => {
      for (const a of vals) {
        const w = (o) => () => `${o} of 0x${a.toString(16)}`;
        put(0, n, a); let c = call(w("doubling"), () => x.uint(n, 5));
        eq(w("doubling"), get(0, n) + (c ? top : 0n), a * 2n); eq(w("halving"), get(n, n), a >> 1n);
        put(0, n, a); eq(w("bit length"), BigInt(call(w("bit length"), () => x.uint(n, 6))), a === 0n ? 0n : BigInt(a.toString(2).length));
        put(0, n, a); eq(w("bytes"), BigInt(call(w("bytes"), () => x.uint(n, 8))), 0n); eq(w("bytes"), get(0, n), a);
        for (let k = 0; k < 64 * n; k += 7) { put(0, n, a); buf[n] = BigInt(k); eq(w(`bit ${k}`), BigInt(call(w("bit"), () => x.uint(n, 7))), (a >> BigInt(k)) & 1n); }
      }
    });
    section(`wasm: ${n}-limb binary operations`, "all pairs of boundary values: product, sum, difference, comparison", (eq) => {
      for (const a of vals) for (const b of vals) {
        const w = (o) => () => `0x${a.toString(16)} ${o} 0x${b.toString(16)}`;
        const set = () => { put(0, n, a); put(n, n, b); };
        set(); call(w("*"), () => x.uint(n, 0)); eq(w("*"), get(0, 2 * n), a * b);
        set(); let c = call(w("+"), () => x.uint(n, 1)); eq(w("+"), get(0, n) + (c ? top : 0n), a + b);
        set(); c = call(w("-"), () => x.uint(n, 2)); eq(w("-"), get(0, n) - (c ? top : 0n), a - b);
        set(); c = call(w("?"), () => x.uint(n, 3));
        eq(w("?"), BigInt(c), BigInt((a >= b) | (a > b) << 1 | (a <= b) << 2 | (a < b) << 3 | (a === b) << 4 | (a < b) << 5));
      }
    });
    const few = vals.filter((_, i) => i % Math.ceil(vals.length / (deep ? 40 : 14)) === 0);
    section(`wasm: ${n}-limb remainders`, "boundary dividends of double width and divisors", (eq) => {
      for (const lo of few) for (const hi of few) for (const d of few) {
        if (d === 0n) continue;
        const v = (hi << BigInt(64 * n)) | lo; const w = () => `0x${v.toString(16)} % 0x${d.toString(16)}`;
        put(0, n, lo); put(n, n, hi); put(2 * n, n, d); call(w, () => x.uint(n, 4)); eq(w, get(0, n), v % d);
      }
    });
  }
} else {
  const F = [
    ["secp256k1 base", 4, 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2Fn],
    ["BLS12-381 base", 6, 0x1A0111EA397FE69A4B1BA7B6434BACD764774B84F38512BF6730D2A0F6B0F6241EABFFFEB153FFFFB9FEFFFFFFFFAAABn],
    ["2^64-59", 1, (1n << 64n) - 59n],
    ["Goldilocks", 1, 0xffffffff00000001n],
    ["BabyBear", 1, 2013265921n],
    ["BN256", 4, 21888242871839275222246405745257275088548364400416034343698204186575808495617n],
    ["BLS12-381 scalar", 4, 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001n],
    ["Pallas", 4, 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001n],
    ["Vesta", 4, 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001n],
  ];
  const pow = (a, e, p) => { let r = 1n; a %= p; while (e) { if (e & 1n) r = r * a % p; a = a * a % p; e >>= 1n; } return r; };
  F.forEach(([name, n, p], f) => {
    const s = new Set([0n, 1n, 2n, 3n, p - 1n, p - 2n, (p - 1n) / 2n, (p + 1n) / 2n, (1n << BigInt(64 * n)) % p]);
    const bits = p.toString(2).length;
    for (let i = 1; i < bits; i += deep ? 3 : (n > 1 ? 16 : 4)) for (const d of [-1n, 0n, 1n]) { s.add(((1n << BigInt(i)) + d) % p); s.add(p - ((1n << BigInt(i)) + d) % p); }
    s.delete(p);
    const vals = [...s];
    section(`wasm: ${name} field`, "boundary elements: negation, square, double, inverse, powers; all pairs: product, sum, difference", (eq) => {
      for (const a of vals) {
        const u = (o, nm, want) => { const w = () => `${nm} of 0x${a.toString(16)}`; put(0, n, a); put(n, n, 0n); const r = call(w, () => x.field(f, o)); eq(w, get(0, n), want); return r; };
        u(8, "round trip", a); u(3, "negation", (p - a) % p); u(4, "square", a * a % p); u(5, "double", 2n * a % p);
        const w = () => `inverse of 0x${a.toString(16)}`;
        put(0, n, a); put(n, n, 0n); const none = call(w, () => x.field(f, 6));
        eq(w, BigInt(none), a === 0n ? 1n : 0n); if (a !== 0n) eq(w, get(0, n) * a % p, 1n);
        for (const e of [0n, 1n, 2n, 3n, 7n, 0xffffffffn, M]) { const w = () => `0x${a.toString(16)} ** ${e}`; put(0, n, a); put(n, n, e); call(w, () => x.field(f, 7)); eq(w, get(0, n), pow(a, e, p)); }
        for (const b of vals) {
          const o = (k, nm, want) => { const w = () => `0x${a.toString(16)} ${nm} 0x${b.toString(16)}`; put(0, n, a); put(n, n, b); call(w, () => x.field(f, k)); eq(w, get(0, n), want); };
          o(0, "*", a * b % p); o(1, "+", (a + b) % p); o(2, "-", (a - b + p) % p);
        }
      }
    });
  });
}
