// Contract vocabulary, native side: the same contract bodies run on the real, uninstrumented code.
export class Violation extends Error { constructor(name, detail) { super(name); this.obligation = name; this.detail = detail; } }
export class Discard extends Error {}
export function rng(seed) { let a = seed >>> 0; return () => { a = (a + 0x6d2b79f5) | 0; let t = Math.imul(a ^ (a >>> 15), 1 | a); t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t; return ((t ^ (t >>> 14)) >>> 0) / 4294967296; }; }
const POOL = ["", "-", "--", "---", "a", "b", "-a", "-b", "-v", "-ab", "--a", "--foo", "--bar", "--foo=bar", "--foo=", "foo", "bar", "=", "a=b", "0", "1", "-1", "42", "007", "1.5", "true", "false", " ", "\t", "\n", "a b", "'", "\"", "\\", "$", "`", "%", ":", ".", "..", "é", "한", "😀", "\u0000", "\u0001", "\u001f", "\u200b", "constructor", "__proto__", "toString", "length", "help", "--help", "-h", "--version", "completion"];
const ALPHA = ["a", "b", "c", "A", "Z", "0", "1", "9", "-", "-", "=", ".", ":", "/", " ", "_", "\\", "'", "\"", "%", "\t", "\n", "é", "😀"];
export function mkVnat(mods, seed, witness) {
  const r = rng(seed); const names = new Map();
  const nm = (b) => { const n = (names.get(b) ?? 0) + 1; names.set(b, n); return n === 1 ? b : b + "!" + n; };
  const rec = {}; const covers = new Set(); let asserts = 0; let tok = 0;
  const draw = (name, gen) => { const n = nm(name); let v = witness && Object.hasOwn(witness, n) && witness[n] !== undefined ? witness[n] : gen(); rec[n] = v; return v; };
  const ri = (n) => Math.floor(r() * n);
  function genStr(o) {
    if (o.gen) return o.gen(r, ri);
    if (o.pool && r() < 0.6) return o.pool[ri(o.pool.length)];
    const x = r();
    if (o.re) { for (let k = 0; k < 200; k++) { const s = k < 60 && o.pool ? o.pool[ri(o.pool.length)] : rand(o.max ?? 6); if (o.re.test(s)) return s; } throw new Discard("string generator"); }
    return x < 0.55 ? POOL[ri(POOL.length)] : rand(o.max ?? 8);
  }
  const rand = (max) => { let s = ""; const n = ri(max + 1); for (let i = 0; i < n; i++) s += ALPHA[ri(ALPHA.length)]; return s; };
  const V = {
    symbolic: false, tier: process.env.VERIF_TIER ?? "quick", rng: r, ri,
    mod: (rel) => mods.get(rel),
    str(name, o = {}) { const s = draw(name, () => { let v = genStr(o); if (o.nonEmpty && v === "") v = "x"; return v; }); if (o.re && !o.re.test(s)) throw new Discard(); if (o.nonEmpty && s === "") throw new Discard(); return s; },
    bool(name) { return draw(name, () => r() < 0.5); },
    int(name, o = {}) { const lo = o.min ?? Number.MIN_SAFE_INTEGER, hi = o.max ?? Number.MAX_SAFE_INTEGER; return draw(name, () => { const x = r(); if (o.pool && x < 0.5) return o.pool[ri(o.pool.length)]; let v = x < 0.6 ? ri(20) - (lo < 0 ? 8 : 0) : x < 0.7 ? lo : x < 0.8 ? hi : lo + Math.floor(r() * Math.min(hi - lo, 2 ** 52)); if (v < lo) v = lo; if (v > hi) v = hi; return v; }); },
    num(name, o = {}) { return draw(name, () => { let v = r() < 0.5 ? ri(20) / 2 - 3 : (r() - 0.5) * 10 ** ri(8); if (o.min !== undefined && v < o.min) v = o.min; if (o.max !== undefined && v > o.max) v = o.max; return v; }); },
    big(name) { return draw(name, () => r() < 0.6 ? BigInt(ri(40) - 12) : BigInt(ri(2 ** 30)) * BigInt(ri(2 ** 30)) * (r() < 0.5 ? -1n : 1n)); },
    pick(name, n) { const v = draw(name, () => ri(n)); return v; },
    oneOf(name, list) { return list[V.pick(name, list.length)]; },
    flag(name) { return V.pick(name, 2) === 1; },
    opt(name, f) { return V.pick(name + "?", 2) === 0 ? undefined : f(); },
    strs(name, o = {}) { return draw(name, () => { const n = ri((o.max ?? 5) + 1); const a = []; for (let i = 0; i < n; i++) a.push(genStr(o)); return a; }).slice(); },
    opaque(name, props) { return Object.freeze({ [Symbol.for("opaque")]: nm("op." + name), ...props }); },
    token(name) { return Object.freeze({ tok: nm("op." + name) }); },
    array(name, lens, mk) { const n = typeof lens === "number" ? lens : V.oneOf(name + ".length", lens); const o = []; for (let i = 0; i < n; i++) o.push(mk(i)); return o; },
    assume(c) { if (!c) throw new Discard("assume"); },
    assert(name, c) { asserts++; if (!c) throw new Violation(name); },
    fail(name) { throw new Violation(name); },
    cover(name) { covers.add(name); },
    truthy: (c) => !!c,
    and: (...cs) => cs.every(Boolean), or: (...cs) => cs.some(Boolean), not: (c) => !c, implies: (a, b) => !a || !!b, iff: (a, b) => !!a === !!b,
    same: (a, b) => Object.is(a, b) || a === b,
    seqEq: (a, b) => a.length === b.length && a.every((x, i) => x === b[i]),
    suffixOf: (a, b) => a.length <= b.length && a.every((x, i) => x === b[b.length - a.length + i]),
    concat: (...as) => as.flat(),
    split(name, a) { const n = draw(name, () => ri(a.length + 1)); if (!(n <= a.length)) throw new Discard(); return [a.slice(0, n), a.slice(n)]; },
    matches: (s, re) => re.test(s), inLang: (s, _re, test) => test(s),
    index(name, lo, hi) { if (!(lo < hi)) throw new Discard(); return draw("idx." + name, () => lo + ri(hi - lo)); },
    isSymbolic: () => false, kind: (x) => typeof x,
    skip(why) { throw new Discard(why); }, nativeOnly() {},
    decodes(name, s, m, parts, alphabet = () => true) {
      asserts++; const want = parts.join(""); let q = m.start, got = "";
      for (const ch of s.split("")) { const r2 = m.step(q, ch); if (!r2) throw new Violation(name, "decoder stuck in state " + q + " at " + JSON.stringify(ch) + " of " + JSON.stringify(s)); q = r2[0]; got += r2[1] ?? ""; }
      if (!m.accept(q) || got !== want) throw new Violation(name, `decoded ${JSON.stringify(got)} for ${JSON.stringify(want)} from ${JSON.stringify(s)}`);
    },
    segments: (s) => [s],
    toInt: Number, note(k, v) { rec["note." + k] = v; },
  };
  return { V, rec, covers, get asserts() { return asserts; } };
}
