// Decision of regular constraints on one string term: emptiness of a Boolean combination of regular languages over UTF-16
// code units by Brzozowski derivatives.  Used before the SMT solvers; "empty" is exact, anything else falls back to them.
import * as T from "./term.mjs";
const MAXC = 0xffff;
const tab = new Map(); let ids = 0;
function hc(key, mk) { let x = tab.get(key); if (!x) { x = mk(); x.id = ids++; x.d = new Map(); tab.set(key, x); } return x; }
const NONE = hc("0", () => ({ k: "none", nul: false })), EPS = hc("e", () => ({ k: "eps", nul: true })), ALL = hc("A", () => ({ k: "all", nul: true }));
function cls(rs) {
  const o = []; for (const r of rs.map((x) => [...x]).sort((a, b) => a[0] - b[0])) { if (r[0] > r[1]) continue; const l = o[o.length - 1]; if (l && r[0] <= l[1] + 1) l[1] = Math.max(l[1], r[1]); else o.push(r); }
  if (!o.length) return NONE;
  return hc("c" + o.map((r) => r.join("-")).join(","), () => ({ k: "cls", r: o, nul: false }));
}
const ANY = cls([[0, MAXC]]);
function cat(a, b) {
  if (a === NONE || b === NONE) return NONE; if (a === EPS) return b; if (b === EPS) return a;
  if (a === ALL && b === ALL) return ALL;
  if (a.k === "cat") return cat(a.a, cat(a.b, b));
  if (a === ALL && b.k === "cat" && b.a === ALL) return b;
  return hc(`.${a.id},${b.id}`, () => ({ k: "cat", a, b, nul: a.nul && b.nul }));
}
function star(a) { if (a === NONE || a === EPS) return EPS; if (a === ANY || a === ALL) return ALL; if (a.k === "star") return a; return hc(`*${a.id}`, () => ({ k: "star", a, nul: true })); }
function comp(a) { if (a === NONE) return ALL; if (a === ALL) return NONE; if (a.k === "comp") return a.a; return hc(`~${a.id}`, () => ({ k: "comp", a, nul: !a.nul })); }
function nary(k, list) { // union / inter: associative, commutative, idempotent
  const unit = k === "or" ? NONE : ALL, zero = k === "or" ? ALL : NONE;
  const s = new Map(); const add = (x) => { if (x.k === k) x.a.forEach(add); else if (x !== unit) s.set(x.id, x); };
  list.forEach(add);
  let xs = [...s.values()];
  if (xs.includes(zero)) return zero;
  const cl = xs.filter((x) => x.k === "cls");
  if (cl.length > 1) { // merge classes
    const m = k === "or" ? cls(cl.flatMap((x) => x.r)) : cl.reduce((p, x) => cls(p.r === undefined ? [] : interR(p.r, x.r)));
    if (m === zero) return zero; xs = xs.filter((x) => x.k !== "cls"); if (m !== NONE || k === "and") xs.push(m); if (k === "and" && m === NONE) return NONE;
  }
  for (const x of xs) if (x.k === "comp" && s.has(x.a.id)) return zero;
  if (xs.length === 0) return unit; if (xs.length === 1) return xs[0];
  xs.sort((a, b) => a.id - b.id);
  return hc(k + xs.map((x) => x.id).join(","), () => ({ k, a: xs, nul: k === "or" ? xs.some((x) => x.nul) : xs.every((x) => x.nul) }));
}
const interR = (a, b) => { const o = []; for (const x of a) for (const y of b) { const l = Math.max(x[0], y[0]), h = Math.min(x[1], y[1]); if (l <= h) o.push([l, h]); } return o; };
const or = (...l) => nary("or", l), and = (...l) => nary("and", l);
function der(x, c) {
  const m = x.d.get(c); if (m) return m;
  let r;
  switch (x.k) {
    case "none": case "eps": r = NONE; break; case "all": r = ALL; break;
    case "cls": r = x.r.some(([a, b]) => a <= c && c <= b) ? EPS : NONE; break;
    case "cat": { const l = cat(der(x.a, c), x.b); r = x.a.nul ? or(l, der(x.b, c)) : l; break; }
    case "star": r = cat(der(x.a, c), x); break; case "comp": r = comp(der(x.a, c)); break;
    case "or": r = or(...x.a.map((y) => der(y, c))); break; case "and": r = and(...x.a.map((y) => der(y, c))); break;
  }
  x.d.set(c, r); return r;
}
function bounds(x, out, seen) { if (seen.has(x.id)) return; seen.add(x.id); if (x.k === "cls") for (const [a, b] of x.r) { out.add(a); out.add(b + 1); } if (Array.isArray(x.a)) x.a.forEach((y) => bounds(y, out, seen)); else if (x.a) bounds(x.a, out, seen); if (x.b) bounds(x.b, out, seen); }
function rder(x, c) { // the texts w such that w followed by c is in x
  const key = -1 - c, m = x.d.get(key); if (m) return m;
  let r;
  switch (x.k) {
    case "none": case "eps": r = NONE; break; case "all": r = ALL; break;
    case "cls": r = x.r.some(([a, b]) => a <= c && c <= b) ? EPS : NONE; break;
    case "cat": { const l = cat(x.a, rder(x.b, c)); r = x.b.nul ? or(l, rder(x.a, c)) : l; break; }
    case "star": r = cat(x, rder(x.a, c)); break; case "comp": r = comp(rder(x.a, c)); break;
    case "or": r = or(...x.a.map((y) => rder(y, c))); break; case "and": r = and(...x.a.map((y) => rder(y, c))); break;
  }
  x.d.set(key, r); return r;
}
// "empty" | a witness string | undefined (too big)
const memo = new Map();
export function search(x) {
  if (memo.has(x.id)) return memo.get(x.id);
  const bs = new Set([0]); bounds(x, bs, new Set()); const reps = [...bs].filter((c) => c <= MAXC).sort((a, b) => a - b);
  const pref = reps.map((c) => c === 0 && !bs.has(1) ? 97 < (reps[1] ?? 99999) ? 97 : 0 : c);
  let res;
  const seen = new Map([[x.id, ""]]); let q = [x];
  out: { if (x.nul) { res = { w: "" }; break out; }
    while (q.length) { const nq = [];
      for (const y of q) { const w = seen.get(y.id); for (const c of pref) { const z = der(y, c); if (z === NONE || seen.has(z.id)) continue; const wz = w + String.fromCharCode(c); if (z.nul) { res = { w: wz }; break out; } seen.set(z.id, wz); nq.push(z); if (seen.size > 4000 || ids > 3e6) { res = undefined; break out; } } }
      q = nq; }
    res = "empty"; }
  memo.set(x.id, res); return res;
}
// ---- from SMT-LIB regular expressions and terms
const rcache = new Map();
function parseRe(s) {
  let m = rcache.get(s); if (m) return m;
  let i = 0; const ws = () => { while (s[i] === " " || s[i] === "\n") i++; };
  const str = () => { i++; let o = ""; for (;;) { if (s[i] === '"') { if (s[i + 1] === '"') { o += '"'; i += 2; continue; } i++; return o; } if (s.startsWith("\\u{", i)) { const e = s.indexOf("}", i); o += String.fromCharCode(parseInt(s.slice(i + 3, e), 16)); i = e + 1; continue; } o += s[i++]; } };
  const lit = (t) => { let r = EPS; for (let j = t.length - 1; j >= 0; j--) r = cat(cls([[t.charCodeAt(j), t.charCodeAt(j)]]), r); return r; };
  function expr() {
    ws();
    if (s[i] !== "(") { let j = i; while (j < s.length && !/[\s()]/.test(s[j])) j++; const w = s.slice(i, j); i = j; return { "re.none": NONE, "re.all": ALL, "re.allchar": ANY }[w] ?? bad(w); }
    i++; ws();
    let op, nums = [];
    if (s[i] === "(") { const e = s.indexOf(")", i); const ps = s.slice(i + 1, e).trim().split(/\s+/); i = e + 1; op = ps[1]; nums = ps.slice(2).map(Number); } else { let j = i; while (!/[\s()]/.test(s[j])) j++; op = s.slice(i, j); i = j; }
    const args = []; for (;;) { ws(); if (s[i] === ")") { i++; break; } args.push(s[i] === '"' ? str() : expr()); }
    const rep = (x, n) => { let r = EPS; for (let k = 0; k < n; k++) r = cat(x, r); return r; };
    switch (op) {
      case "str.to_re": return lit(args[0]); case "re.range": return args[0].length === 1 && args[1].length === 1 ? cls([[args[0].charCodeAt(0), args[1].charCodeAt(0)]]) : NONE;
      case "re.++": return args.reduceRight((r, x) => cat(x, r), EPS); case "re.union": return or(...args); case "re.inter": return and(...args); case "re.comp": return comp(args[0]);
      case "re.*": return star(args[0]); case "re.+": return cat(args[0], star(args[0])); case "re.opt": return or(EPS, args[0]); case "re.diff": return and(args[0], comp(args[1]));
      case "re.^": return rep(args[0], nums[0]); case "re.loop": { let r = rep(args[0], nums[0]); let t = EPS; for (let k = nums[0]; k < nums[1]; k++) t = or(EPS, cat(args[0], t)); return nums[1] < nums[0] ? NONE : cat(r, t); }
      default: return bad(op);
    }
  }
  function bad(w) { throw new Error("regular expression " + w); }
  m = expr(); rcache.set(s, m); return m;
}
const word = (t) => cat0(t); function cat0(t) { let r = EPS; for (let j = t.length - 1; j >= 0; j--) r = cat(cls([[t.charCodeAt(j), t.charCodeAt(j)]]), r); return r; }
const exactly = (n) => { let r = EPS; for (let k = 0; k < n; k++) r = cat(ANY, r); return r; };
const shorter = (n) => { let x = NONE; for (let k = 0; k < n; k++) x = or(x, exactly(k)); return x; };
// { s, x } where s is built from one text by constant affixes and constant-offset parts: the same statement about that text
function pullBack(r) {
  for (let fuel = 0; fuel < 20; fuel++) {
    const t = r.s;
    if (t.op === "str.++") {
      const open = t.args.filter((a) => a.op !== "str"); if (open.length !== 1) return r;
      const i = t.args.indexOf(open[0]), pre = t.args.slice(0, i).map((a) => a.val).join(""), post = t.args.slice(i + 1).map((a) => a.val).join("");
      let x = r.x; for (let j = 0; j < pre.length; j++) x = der(x, pre.charCodeAt(j)); for (let j = post.length - 1; j >= 0; j--) x = rder(x, post.charCodeAt(j));
      r = { s: open[0], x };
    } else if (t.op === "str.at" && t.args[1].op === "int" && t.args[1].val >= 0n && t.args[1].val < 100n) {
      const k = Number(t.args[1].val); r = { s: t.args[0], x: or(cat(exactly(k), cat(and(r.x, ANY), ALL)), r.x.nul ? shorter(k + 1) : NONE) };
    } else if (t.op === "str.substr" && t.args[1].op === "int" && t.args[1].val >= 0n && t.args[1].val < 100n) {
      const k = Number(t.args[1].val), n = t.args[2], u = t.args[0];
      const isLen = (a) => a.op === "str.len" && a.args[0] === u;
      const tail = isLen(n) || n.op === "+" && n.args.length === 2 && n.args.some(isLen) && n.args.some((a) => a.op === "int" && a.val >= BigInt(-k));
      if (tail) r = { s: u, x: or(cat(exactly(k), r.x), r.x.nul ? shorter(k) : NONE) };
      else if (n.op === "int" && n.val >= 0n && n.val < 100n) { const m = Number(n.val); r = { s: u, x: or(cat(exactly(k), cat(and(r.x, exactly(m)), ALL)), cat(exactly(k), and(r.x, shorter(m))), r.x.nul ? shorter(k) : NONE) }; }
      else return r;
    } else return r;
  }
  return r;
}
// str.to_int: texts of digits whose value is below k
const DIG = cls([[48, 57]]), DIGS = cat(DIG, star(DIG)), digs = (n) => { let r = EPS; for (let k = 0; k < n; k++) r = cat(DIG, r); return r; };
function below(k) {
  if (k <= -1n) return NONE; if (k === 0n) return comp(DIGS);
  const d = k.toString(), L = d.length; let r = NONE;
  for (let i = L - 1; i >= 0; i--) { const c = d.charCodeAt(i); r = cat(cls([[c, c]]), r); if (c > 48) r = or(r, cat(cls([[48, c - 1]]), digs(L - 1 - i))); }
  let any = NONE; for (let n = 1; n < L; n++) any = or(any, digs(n));
  return or(comp(DIGS), cat(star(cls([[48, 48]])), or(r, any)));
}
// a formula that speaks about one string term only -> { s, x }
export function lang(t) {
  if (t.$lang !== undefined) return t.$lang;
  let r = null;
  try {
    switch (t.op) {
      case "str.in_re": r = typeof t.val === "string" ? { s: t.args[0], x: parseRe(t.val) } : null; break;
      case "not": { const a = lang(t.args[0]); r = a && { s: a.s, x: comp(a.x) }; break; }
      case "and": case "or": { const as = t.args.map(lang); if (as.every((a) => a && a.s === as[0].s)) r = { s: as[0].s, x: (t.op === "and" ? and : or)(...as.map((a) => a.x)) }; break; }
      case "=": { const [a, b] = t.args; const [u, v] = a.op === "str" ? [b, a] : [a, b];
        if (v.op === "str" && u.sort === "String") r = { s: u, x: word(v.val) };
        else { const [n, l] = a.op === "int" ? [a, b] : [b, a]; if (n.op === "int" && l.op === "str.len" && n.val >= 0n && n.val < 200n) r = { s: l.args[0], x: exactly(Number(n.val)) }; else if (n.op === "int" && l.op === "str.to_int" && n.val < 10n ** 30n) r = { s: l.args[0], x: n.val < -1n ? NONE : n.val === -1n ? comp(DIGS) : cat(star(cls([[48, 48]])), word(n.val.toString())) }; else if (a.sort === "Bool" && b.sort === "Bool") { const p = lang(a), q = lang(b); if (p && q && p.s === q.s) r = { s: p.s, x: or(and(p.x, q.x), and(comp(p.x), comp(q.x))) }; } }
        break; }
      case "str.prefixof": if (t.args[0].op === "str") r = { s: t.args[1], x: cat(word(t.args[0].val), ALL) }; break;
      case "str.suffixof": if (t.args[0].op === "str") r = { s: t.args[1], x: cat(ALL, word(t.args[0].val)) }; break;
      case "str.contains": if (t.args[1].op === "str") r = { s: t.args[0], x: cat(ALL, cat(word(t.args[1].val), ALL)) }; break;
      case "<": { const [a, b] = t.args; // a < b
        if (b.op === "int" && a.op === "str.to_int" && b.val < 10n ** 30n) r = { s: a.args[0], x: below(b.val) };
        else if (a.op === "int" && b.op === "str.to_int" && a.val < 10n ** 30n) r = { s: b.args[0], x: comp(below(a.val + 1n)) };
        else if (a.op === "int" && b.op === "str.len" && a.val < 200n) r = { s: b.args[0], x: a.val < 0n ? ALL : cat(exactly(Number(a.val) + 1), ALL) };
        else if (b.op === "int" && a.op === "str.len" && b.val < 200n) { let x = NONE; for (let k = 0; k < Number(b.val); k++) x = or(x, exactly(k)); r = { s: a.args[0], x }; } break; }
    }
  } catch { r = null; }
  if (r && r.s.op !== "var" && r.s.op !== "str") r = pullBack(r);
  if (r && r.s.op === "str") r = null;
  return t.$lang = r;
}
// Conjunction of formulas: "unsat" when the regular part alone is contradictory, "sat" when it is all there is and has a witness.
export function decide(conj, focus) {
  const by = new Map(); let rest = 0;
  for (const t of conj) { const l = lang(t); if (!l) { rest++; continue; } const g = by.get(l.s.id) ?? []; if (!by.has(l.s.id)) by.set(l.s.id, g); g.push(l); }
  let all = true;
  for (const [id, g] of by) { if (focus !== undefined && id !== focus) { all = false; continue; } const r = search(and(...g.map((l) => l.x))); if (r === "empty") return "unsat"; if (r === undefined || g[0].s.op !== "var") all = false; }
  return all && rest === 0 && by.size > 0 ? "sat" : undefined;
}
// Equivalent, smaller conjunction: regular constraints implied by the other regular constraints on the same term are dropped,
// and those decided inside disjunctions are replaced by their value.
const rmemo = new Map();
export function reduce(conj) {
  const by = new Map();
  for (const t of conj) { const l = lang(t); if (l) { const g = by.get(l.s.id) ?? []; if (!by.has(l.s.id)) by.set(l.s.id, g); g.push({ t, l }); } }
  if (by.size === 0) return conj;
  const drop = new Set(), ctx = new Map();
  for (const [id, g] of by) {
    if (g.length > 24) { ctx.set(id, and(...g.map((e) => e.l.x))); continue; }
    const key = g.map((e) => e.t.id).join(","); let m = rmemo.get(key);
    if (!m) {
      let live = g.slice().sort((a, b) => size(b) - size(a)); const gone = [];
      for (const e of live.slice()) { if (live.length === 1) break; const others = live.filter((o) => o !== e); if (search(and(...others.map((o) => o.l.x), comp(e.l.x))) === "empty") { live = others; gone.push(e.t.id); } }
      m = { gone, x: and(...live.map((e) => e.l.x)) }; rmemo.set(key, m); if (rmemo.size > 50000) rmemo.clear();
    }
    m.gone.forEach((i) => drop.add(i)); ctx.set(id, m.x);
  }
  const val = (t) => { const l = lang(t); if (!l || !ctx.has(l.s.id)) return undefined; const c = ctx.get(l.s.id); if (search(and(c, comp(l.x))) === "empty") return true; if (search(and(c, l.x)) === "empty") return false; return undefined; };
  const simp = (t, d) => { const v = val(t); if (v !== undefined) return v ? T.TRUE : T.FALSE; if (d > 0 && t.op === "or") return T.or(...t.args.map((a) => simp(a, d - 1))); if (d > 0 && t.op === "and") return T.and(...t.args.map((a) => simp(a, d - 1))); if (d > 0 && t.op === "not") return T.not(simp(t.args[0], d - 1)); if (d > 0 && t.op === "ite" && t.sort === "Bool") { const c = val(t.args[0]); return c === true ? simp(t.args[1], d - 1) : c === false ? simp(t.args[2], d - 1) : t; } return t; };
  const out = [];
  for (const t of conj) { if (drop.has(t.id)) continue; if (lang(t)) { out.push(t); continue; } const u = simp(t, 3); if (u !== T.TRUE) out.push(u); }
  return out;
}
const size = (e) => (e.$n ??= T.smt(e.t).length);

export const meet = (xs) => and(...xs);
// does a text belong to the language of a membership term?
export function member(t, w) { let x; try { x = parseRe(t.val); } catch { return undefined; } if (w.length > 200) return undefined; for (let i = 0; i < w.length; i++) x = der(x, w.charCodeAt(i)); return x.nul; }
