// Symbolic runtime behind the instrumented code ("$$").  One path at a time; forks are replayed from the start.
import * as T from "./term.mjs";
import * as RX from "./regex.mjs";
import { quickCheck, fullCheck } from "./solver.mjs";
import { decide, reduce } from "./relang.mjs";
import { mkEval, example } from "./concrete.mjs";

export class Control extends Error { constructor(kind, msg, data) { super(msg ?? kind); this.kind = kind; this.data = data; } }
const trap = new Proxy({}, {
  get(_t, k, r) {
    if (k === "then" || k === Symbol.toStringTag || k === "constructor" || k === "asymmetricMatch" || k === Symbol.for("nodejs.util.inspect.custom") || k === "$$typeof") return undefined;
    if (k === Symbol.iterator && r instanceof SArr) return () => iterate(r);
    leak("native access to ." + String(k) + " of a symbolic value");
  },
});
function leak(msg) { const c = new Control("unsupported", "leak: " + msg); if (P) P.abort(c); throw c; }
export function unsupported(msg) { const c = new Control("unsupported", msg); if (P && !P.spec) P.abort(c); throw P?.spec ? new Control("spec") : c; }
export class Sym { constructor(k, t) { this.k = k; this.t = t; } }
export class SArr { constructor(segs) { this.segs = segs; } }        // segs: {e: value} | {s: Seq-term}
export class Opaque { constructor(name, t, props) { this.$n = name; this.$t = t; this.$p = props ?? Object.create(null); } }
Object.setPrototypeOf(Sym.prototype, trap);
Object.setPrototypeOf(SArr.prototype, trap);
Object.setPrototypeOf(Opaque.prototype, trap);
export const isSym = (x) => typeof x === "object" && x !== null && x instanceof Sym;
// A native array that received symbolic elements becomes (same identity) a symbolic array.
export const isArr = (x) => Array.isArray(x) && !(x instanceof SArr);
function transmute(a) { const segs = a.map((e) => ({ e })); if (Object.isFrozen(a)) throw new TypeError("Cannot add property, object is not extensible"); a.length = 0; Object.setPrototypeOf(a, SArr.prototype); Object.defineProperty(a, "segs", { value: segs, writable: true, enumerable: false }); return a; }
export const isEngine = (x) => typeof x === "object" && x !== null && (x instanceof Sym || x instanceof SArr || x instanceof Opaque);

// ---------------------------------------------------------------- path state
export let P = null;
export const cfg = { quickMs: 300, fullMs: 8000, unrollLimit: 6, maxDecisions: 4000, loopFuel: 400 };
export class Path {
  constructor(trail, store) {
    this.trail = trail; this.pos = 0; this.pc = []; this.pcset = new Set(); this.alts = []; this.store = store;
    this.spec = 0; this.names = new Map(); this.aborted = null; this.memo = new Map(); this.cutDepth = 0; this.born = null; this.foralls = []; this.idx = [];
    this.inputs = []; this.results = []; this.covers = []; this.nforks = 0; this.called = store.called; this.lens = new Map(); this.unk = 0; this.exp = new Map(); this.defs = new Map(); this.exts = [];
  }
  abort(c) { if (!this.aborted) this.aborted = c; }
  get fresh() { return this.pos >= this.trail.length; }
  name(base) { const n = (this.names.get(base) ?? 0) + 1; this.names.set(base, n); return n === 1 ? base : base + "!" + n; }
}
export function newStore(cut) { return { cut: new Set(cut ?? []), kinds: new Map(), dead: new Set(), norm: new Map(), called: new Set() }; }
let idle = null;
export function setPath(p) { P = p ?? (idle ??= Object.assign(new Path([], newStore()), { idle: true })); }
function alive() { if (P.aborted) throw P.aborted; }
export function addPc(t) {
  if (t === T.TRUE) return;
  if (t.op === "and") { t.args.forEach(addPc); return; }
  if (P.pcset.has(t.id)) return;
  P.pcset.add(t.id); P.pc.push(t);
}
// relevance slice: the conjuncts of pc connected to the goal through shared symbols
export function slice(goalTerms, pc) {
  const vs = (t) => { if (!t.$vars) t.$vars = [...T.collect([t])]; return t.$vars; };
  const key = (t) => P.defs.get(t.id) ?? vs(t); // a definition matters only once the defined term is mentioned
  const want = new Set(goalTerms.flatMap((g) => vs(g)));
  const out = []; let left = pc.slice(); let changed = true;
  if (P.exts.length) { // definitional extensions nobody else mentions (pieces of a split, parts of a trim) can always be completed: they say nothing
    const gone = new Set(); for (let again = true; again;) { again = false; for (const x of P.exts) { if (gone.has(x) || x.vars.some((n) => want.has(n))) continue; if (left.some((t) => !x.own.has(t.id) && vs(t).some((n) => x.vars.includes(n)))) continue; gone.add(x); left = left.filter((t) => !x.own.has(t.id)); again = true; } }
  }
  while (changed) {
    changed = false;
    const rest = [];
    for (const t of left) { const v = key(t); if (v.length === 0 || v.some((x) => want.has(x))) { vs(t).forEach((x) => want.add(x)); out.push(t); changed = true; } else rest.push(t); }
    left = rest;
  }
  return out;
}
const evaluate = mkEval((name) => name.startsWith("js.hom:") ? (x) => applyHom(HOMS.get(name), x) : name === "js.toLowerCase" || name === "js.toUpperCase" ? (x) => T.str(x.val[name.slice(3)]()) : undefined);
const qcache = new Map();
export function feasible(extra) {
  const goal = [extra];
  const rel = slice(goal, P.pc);
  const key = [...rel.map((t) => t.id).sort((a, b) => a - b), "|", extra.id].join(",");
  let st = qcache.get(key);
  if (st === undefined) st = decide([...rel, extra]);
  if (st === undefined && example([...rel, extra], evaluate)) st = "sat";
  if (st === undefined) { const all = reduce([...rel, extra]); st = quickCheck(T.script(all), cfg.quickMs).status; if (st === "unknown") st = quickCheck(T.script(all, "", { re: true }), cfg.quickMs).status; }
  qcache.set(key, st); if (qcache.size > 200000) qcache.clear();
  if (st === "unknown") P.unk++;
  return st !== "unsat";
}
function known(t) { // truth value of t when it already follows from a conjunct of the path condition
  if (P.pcset.has(t.id)) return true; if (P.pcset.has(T.not(t).id)) return false;
  if (t.op === "not") { const k = known(t.args[0]); return k === undefined ? undefined : !k; }
  if (t.op === "and") { let all = true; for (const a of t.args) { const k = known(a); if (k === false) return false; if (k === undefined) all = false; } return all ? true : undefined; }
  if (t.op === "or") { let none = true; for (const a of t.args) { const k = known(a); if (k === true) return true; if (k === undefined) none = false; } return none ? false : undefined; }
}
export function choose(t) {
  alive();
  if (t === T.TRUE) return true; if (t === T.FALSE) return false;
  const nt = T.not(t);
  const k = known(t); if (k !== undefined) return k;
  if (P.spec) { if (P.proving) { if (provable(t)) return true; if (provable(nt)) return false; } throw new Control("spec"); }
  P.nforks++;
  if (P.pos < P.trail.length) { const d = P.trail[P.pos++]; addPc(d ? t : nt); return d; }
  if (P.trail.length > cfg.maxDecisions) { unsupported("too many decisions on one path"); }
  const can1 = feasible(t);
  const can0 = can1 ? feasible(nt) : true;
  let d;
  if (can1 && can0) { P.alts.push([...P.trail, false]); d = true; } else d = can1;
  P.trail.push(d); P.pos++;
  addPc(d ? t : nt);
  return d;
}
export function pick(n, label) { // demonic choice among n alternatives
  alive();
  if (n <= 1) return 0;
  if (P.spec) throw new Control("spec");
  P.nforks++;
  if (P.pos < P.trail.length) return P.trail[P.pos++];
  for (let i = n - 1; i >= 1; i--) P.alts.push([...P.trail, i]);
  P.trail.push(0); P.pos++;
  return 0;
}
export function prune(why) { const c = new Control("pruned", why); P.abort(c); throw c; }
export function assume(x) {
  alive();
  if (x === true) return; if (x === false) prune("assume");
  const t = x instanceof T.Term ? x : x.t;
  if (P.spec) { throw new Control("spec"); }
  if (t === T.FALSE) prune("assume");
  if (P.pcset.has(t.id)) return;
  const wasFresh = P.fresh;
  if (wasFresh && !feasible(t)) prune("assume");
  addPc(t);
}
export function fact(t) { if (t !== T.TRUE) addPc(t); } // definitional, holds on every path
export function fresh(base, sort) { return T.v(P.name(base), sort); }

// ---------------------------------------------------------------- value <-> term
export const mkStr = (t) => t.op === "str" ? t.val : new Sym("str", t);
export const mkBool = (t) => t === T.TRUE ? true : t === T.FALSE ? false : new Sym("bool", t);
export function mkNum(t) {
  if (t.op === "int" && t.val <= 9007199254740991n && t.val >= -9007199254740991n) return Number(t.val);
  if (t.op === "rat") { const x = Number(t.val.n) / Number(t.val.d); return x; }
  return new Sym("num", t);
}
export const mkBig = (t) => t.op === "int" ? t.val : new Sym("big", t);
const isStr = (x) => typeof x === "string" || (isSym(x) && x.k === "str");
const isNum = (x) => typeof x === "number" || (isSym(x) && x.k === "num");
const isBool = (x) => typeof x === "boolean" || (isSym(x) && x.k === "bool");
const isBig = (x) => typeof x === "bigint" || (isSym(x) && x.k === "big");
export const S = (x) => typeof x === "string" ? T.str(x) : x.t;
export const B = (x) => typeof x === "boolean" ? T.bool(x) : x.t;
export function N(x) { if (typeof x === "number") { if (!Number.isFinite(x)) unsupported("non-finite number in term"); return Number.isInteger(x) ? T.int(BigInt(x)) : T.realOf(x); } return x.t; }
export const BI = (x) => typeof x === "bigint" ? T.int(x) : x.t;
const nonfin = (x) => typeof x === "number" && !Number.isFinite(x);
export function kindOf(x) {
  if (x instanceof Sym) return { str: "string", num: "number", bool: "boolean", big: "bigint" }[x.k];
  if (x instanceof SArr || x instanceof Opaque) return "object";
  return typeof x;
}
const strLen = (t) => { const l = T.len(t); if (l.op !== "int") { if (!P.pcset.has(-l.id)) { P.pcset.add(-l.id); fact(T.ge(l, T.int(0))); P.lens.set(l.id, l); } } return l; };
// the numeral of a number that was read from a text: the text itself when it was canonical
function numeral(t) {
  if (t.op === "str.to_int") { const c = inReJs(t.args[0], "^(?:0|[1-9][0-9]*)$"); if (P.pcset.has(c.id)) return t.args[0]; const n = T.not(c); if (decide([...slice([n], P.pc), n]) === "unsat") return t.args[0]; }
  return T.fromInt(t);
}
export function numToStr(t) {
  if (t.sort === "Int") {
    if (T.natural(t)) return T.fromInt(t); // lengths and sums of lengths stay far below 10^21
    if (!choose(T.and(T.lt(t, T.int(10n ** 21n)), T.gt(t, T.int(-(10n ** 21n)))))) return T.app("js.numToStrBig", "String", t);
    const s = T.ite(T.lt(t, T.int(0)), T.concat(T.str("-"), T.fromInt(T.neg(t))), T.fromInt(t));
    return choose(T.lt(t, T.int(0))) ? T.concat(T.str("-"), T.fromInt(T.neg(t))) : numeral(t);
  }
  if (choose(T.isInt(t))) return numToStr(T.floor(t));
  return T.app("js.numToStr", "String", t);
}
export function toStr(x) {
  if (isSym(x)) {
    switch (x.k) {
      case "str": return x.t;
      case "bool": return T.ite(x.t, T.str("true"), T.str("false"));
      case "num": return numToStr(x.t);
      case "big": return choose(T.lt(x.t, T.int(0))) ? T.concat(T.str("-"), T.fromInt(T.neg(x.t))) : numeral(x.t);
    }
  }
  if (x instanceof SArr) return S(arrJoin(x, ","));
  if (x instanceof Opaque) { if (typeof x.$p.toString === "function") return S(x.$p.toString()); return T.app("js.toString", "String", x.$t); }
  if (typeof x === "object" && x !== null) {
    if (isArr(x)) return S(arrJoin(x, ","));
    if (typeof x[Symbol.toPrimitive] === "function") return S(x[Symbol.toPrimitive]("string"));
    const f = x.toString; const r = f.call(x); return S(r);
  }
  if (typeof x === "symbol") throw new TypeError("Cannot convert a Symbol value to a string");
  return T.str(String(x));
}

// ---------------------------------------------------------------- string models
const inReJs = (t, src, flags = "") => T.inRe(t, RX.testLang(src, flags), (s) => new RegExp(src, flags).test(s));
export const inLang = (t, src, flags = "") => inReJs(t, src, flags);
function idx(x, dflt) { if (x === undefined) return dflt; if (typeof x === "number") { if (Number.isNaN(x)) return T.int(0); if (x === Infinity) return null; if (x === -Infinity) return T.int(-(2n ** 60n)); return T.int(BigInt(Math.trunc(x))); } if (isSym(x) && x.k === "num") return x.t.sort === "Int" ? x.t : T.floor(x.t); unsupported("index kind"); }
function relIdx(i, L) { // clamp negative-relative index
  if (i === null) return L;
  if (i.op === "int") {
    if (i.val >= 0n) return L.op === "int" ? (i.val > L.val ? L : i) : i; // substr/extract clip at the end by themselves
    const r = T.add(L, i); return r.op === "int" ? (r.val < 0n ? T.int(0) : r) : T.ite(T.lt(r, T.int(0)), T.int(0), r);
  }
  if (i === L) return i;
  return T.ite(T.lt(i, T.int(0)), T.ite(T.lt(T.add(L, i), T.int(0)), T.int(0), T.add(L, i)), i);
}
function linear(t) { // t as a sum: atoms with coefficients, and a constant; undefined when it is not one
  const m = new Map(); let c = 0n;
  const go = (x, k) => { if (x.op === "int") { c += k * x.val; return true; } if (x.op === "+") return x.args.every((y) => go(y, k)); if (x.op === "-" && x.args.length === 2) return go(x.args[0], k) && go(x.args[1], -k); if (x.op === "neg") return go(x.args[0], -k); if (x.op === "ite") return false; m.set(x.id, (m.get(x.id) ?? 0n) + k); return true; };
  if (!go(t, 1n)) return undefined;
  for (const [i, k] of m) if (k === 0n) m.delete(i);
  return { m, c };
}
function boundary(s, i) { // where position i falls among the parts of a concatenation: [part, offset within a constant part]
  if (i === null) return undefined;
  const li = linear(i); if (!li) return undefined;
  let m = new Map(), c = 0n;
  const sameM = () => m.size === li.m.size && [...m].every(([k, v]) => li.m.get(k) === v);
  for (let k = 0; k <= s.args.length; k++) {
    const x = s.args[k];
    if (sameM() && li.c >= c) { const d = li.c - c; if (d === 0n) return [k, 0]; if (x?.op === "str" && d < BigInt(x.val.length)) return [k, Number(d)]; }
    if (!x) break;
    const lx = linear(T.len(x)); if (!lx) return undefined;
    for (const [id, v] of lx.m) m.set(id, (m.get(id) ?? 0n) + v); c += lx.c;
  }
}
function sliceStr(s, a, b) {
  const L = strLen(s);
  if (s.op === "str.++") {
    const lo = a === undefined ? [0, 0] : boundary(s, idx(a, T.int(0))), hi = b === undefined ? [s.args.length, 0] : boundary(s, idx(b, L));
    if (lo && hi) {
      if (lo[0] > hi[0] || lo[0] === hi[0] && lo[1] >= hi[1]) return T.str("");
      const out = []; for (let k = lo[0]; k < s.args.length && k <= hi[0]; k++) { const x = s.args[k]; const f = k === lo[0] ? lo[1] : 0; if (k === hi[0]) { if (hi[1] > 0) out.push(T.str(x.val.slice(f, hi[1]))); } else out.push(f ? T.str(x.val.slice(f)) : x); }
      return T.concat(...out);
    }
  }
  const st = relIdx(idx(a, T.int(0)), L); const en = b === undefined ? L : relIdx(idx(b, L), L);
  return T.substr(s, st, T.sub(en, st));
}
const lowerCache = new Map();
function preimage(fnName, c) { // regex class of code units mapped to the single code unit c
  if (!lowerCache.has(fnName)) {
    const m = new Map();
    for (let i = 0; i <= 0xffff; i++) { const r = String.fromCharCode(i)[fnName](); if (r.length === 1) { if (!m.has(r)) m.set(r, []); m.get(r).push(i); } }
    lowerCache.set(fnName, m);
  }
  return lowerCache.get(fnName).get(c) ?? [];
}
function lowerEq(fnName, s, c) { // lower(s) === c for constant ASCII c
  if (!/^[\x00-\x7f]*$/.test(c)) return null;
  if (c === "") return T.eq(s, T.str(""));
  // multi-unit expansions ("ß".toUpperCase() === "SS", ligatures): only for upper-casing
  if (fnName === "toUpperCase") return null;
  const u = (n) => "\\u" + n.toString(16).padStart(4, "0");
  const body = [...c].map((ch) => "[" + preimage(fnName, ch).map(u).join("") + "]").join("");
  if (s.op === "app" && s.val === "js.trim") return c.trim() === c ? inReJs(s.args[0], `^${WS}*${body}${WS}*$`) : T.bool(false);
  return inReJs(s, "^" + body + "$");
}
function caseMap(fnName, s) {
  if (s.op === "str") return s[fnName] ?? T.str(s.val[fnName]());
  const r = T.app("js." + fnName, "String", s);
  const other = fnName === "toLowerCase" ? "A-Z" : "a-z";
  const keep = fnName === "toLowerCase" ? "^[\\x00-@\\[-\\x7f]*$" : "^[\\x00-`{-\\x7f]*$";
  memoFact("case" + r.id, () => {
    fact(T.implies(inReJs(s, keep), T.eq(r, s)));
    fact(T.implies(inReJs(s, "^[\\x00-\\x7f]*$"), T.and(inReJs(r, keep), T.eq(T.len(r), T.len(s)))));
    fact(T.implies(T.eq(r, T.str("")), T.eq(s, T.str(""))));
  });
  return r;
}
function memoFact(key, f) { if (P.memo.has(key)) return; P.memo.set(key, true); f(); }
const WS = "[\\t-\\r \\u00a0\\u1680\\u2000-\\u200a\\u2028\\u2029\\u202f\\u205f\\u3000\\ufeff]";
const NWS = "[^\\t-\\r \\u00a0\\u1680\\u2000-\\u200a\\u2028\\u2029\\u202f\\u205f\\u3000\\ufeff]";
const ANY = "[\\u0000-\\uffff]";
const TRIMMED = `^(?:${NWS}|${NWS}${ANY}*${NWS})?$`;
function trimParts(s) {
  const key = "trim" + s.id;
  if (P.memo.has(key)) return P.memo.get(key);
  const a = T.app("js.trimL", "String", s), m = T.app("js.trim", "String", s), b = T.app("js.trimR", "String", s);
  let x = P.exts.find((e) => e.trim); if (!x) P.exts.push(x = { trim: true, vars: ["js.trimL", "js.trim", "js.trimR"], own: new Set() });
  for (const f of [T.eq(s, T.concat(a, m, b)), inReJs(a, `^${WS}*$`), inReJs(b, `^${WS}*$`), inReJs(m, TRIMMED), T.implies(T.eq(m, T.str("")), T.eq(b, T.str("")))]) { x.own.add(f.id); fact(f); }
  const r = [a, m, b]; P.memo.set(key, r); return r;
}
export function splitStr(s, sep, K = 9) {
  if (sep === "") unsupported("split on empty separator");
  if (s.op === "str") return s.val.split(sep);
  const key = "split" + s.id + "\u0000" + sep;
  if (P.memo.has(key)) return [...P.memo.get(key)];
  const parts = []; let rest = s; const sp = T.str(sep);
  for (let i = 0; i < K; i++) {
    if (!choose(T.contains(rest, sp))) { parts.push(mkStr(rest)); P.memo.set(key, parts); return [...parts]; }
    const nm = P.name("split");
    const a = T.v(nm + ".a", "String"), b = T.v(nm + ".r", "String");
    const def = T.eq(rest, T.concat(a, sp, b)); fact(def); if (rest.op === "var") P.exts.push({ vars: [rest.val], own: new Set([def.id, T.contains(rest, sp).id]) });
    fact(T.not(T.contains(sep.length === 1 ? a : T.concat(a, T.str(sep.slice(0, -1))), sp)));
    parts.push(mkStr(a)); rest = b;
  }
  // more pieces than K: the rest stays symbolic
  const tail = T.v(P.name("splittail"), T.SEQ);
  fact(T.ge(T.seqLen(tail), T.int(1)));
  P.tailSep = sep;
  const r = new SArr([...parts.map((e) => ({ e })), { s: tail }]);
  r.$noSep = true;
  return r;
}
function charAt(s, i) { // undefined outside
  const L = strLen(s); const it = idx(i);
  const inb = T.and(T.ge(it, T.int(0)), T.lt(it, L));
  if (!choose(inb)) return undefined;
  const c = T.at(s, it);
  return mkStr(c);
}
function codeAt(s, it) {
  const c = T.toCode(T.at(s, it));
  if (c.op !== "int") memoFact("code" + c.id, () => fact(T.and(T.ge(c, T.int(0)), T.le(c, T.int(0xffff)))));
  return c;
}
function isPatSym(x) { return isSym(x); }
// Replacing every occurrence of single code units is a homomorphism on strings: it is determined by its value on each of the
// 65,536 code units, distributes over concatenation and composes.  The table is obtained by running the real replacer on each unit.
let homNote; const HOMS = new Map(); let homSeq = 0;
export const homOf = (t) => t.op === "app" && t.val.startsWith("js.hom:") ? HOMS.get(t.val) : undefined;
function oneUnit(source, flags) {
  let ast; try { ast = RX.parseRegex(source, flags).ast ?? RX.parseRegex(source, flags); } catch { return false; }
  const uni = /[uv]/.test(flags), sur = (n) => n.r.some(([a, b]) => a <= 0xdfff && b >= 0xd800);
  const one = (n) => (n.t === "cls" && !(uni && sur(n))) || (n.t === "seq" && n.a.length === 1 && one(n.a[0])) || (n.t === "alt" && n.a.every(one)) || ((n.t === "grp" || n.t === "ncg") && one(n.x));
  return one(ast);
}
function homFrom(key, f, table) {
  let h = HOMS.get(key);
  if (!h) {
    if (!table) { table = new Map(); for (let c = 0; c <= 0xffff; c++) { const ch = String.fromCharCode(c), r = f(ch); if (typeof r !== "string") { homNote = r; return null; } if (r !== ch) table.set(c, r); } }
    let norm = [...table].map(([c, r]) => c + ":" + r).join("\u0000");
    for (const x of HOMS.values()) if (x.norm === norm) { HOMS.set(key, x); return x; }
    const name = "js.hom:" + ++homSeq;
    const dom = RX.norm([...table.keys()].map((c) => [c, c])), outs = [...new Set(table.values())];
    h = { name, table, norm, dom, outs }; HOMS.set(key, h); HOMS.set(name, h);
  }
  return h;
}
export function applyHom(h, s) {
  if (h.table.size === 0) return s;
  if (s.op === "str") { let o = ""; for (const ch of s.val.split("")) { const r = h.table.get(ch.charCodeAt(0)); o += r === undefined ? ch : r; } return T.str(o); }
  if (s.op === "str.++") return T.concat(...s.args.map((x) => applyHom(h, x)));
  if (s.op === "ite") return T.ite(s.args[0], applyHom(h, s.args[1]), applyHom(h, s.args[2]));
  const inner = homOf(s);
  if (inner) {
    const t = new Map();
    for (const c of new Set([...inner.table.keys(), ...h.table.keys()])) { const mid = inner.table.get(c) ?? String.fromCharCode(c); const out = applyHom(h, T.str(mid)).val; if (out !== String.fromCharCode(c)) t.set(c, out); }
    const g = homFrom(h.name + "*" + inner.name, null, t);
    return applyHom(g, s.args[0]);
  }
  const r = T.app(h.name, "String", s);
  memoFact("hom" + r.id, () => {
    const cls = (rs) => `(re.union ${rs.map(([x, y]) => `(re.range ${T.smtStr(String.fromCharCode(x))} ${T.smtStr(String.fromCharCode(y))})`).join(" ")} re.none)`;
    const keep = RX.comp(h.dom);
    if (h.dom.length <= 2000) {
      if (h.outs.length <= 400) fact(T.inRe(r, `(re.* (re.union ${keep.length ? cls(keep) : "re.none"} ${h.outs.map((o) => `(str.to_re ${T.smtStr(o)})`).join(" ")} re.none))`));
      fact(T.implies(T.inRe(s, `(re.* ${cls(keep)})`), T.eq(r, s)));
    }
    if (h.outs.every((o) => o !== "")) { fact(T.ge(T.len(r), T.len(s))); fact(T.implies(T.eq(r, T.str("")), T.eq(s, T.str("")))); }
    fact(T.implies(T.eq(s, T.str("")), T.eq(r, T.str(""))));
    if (h.outs.every((o) => o.length === 1)) fact(T.eq(T.len(r), T.len(s)));
    if (h.outs.every((o) => o.length <= 1)) fact(T.le(T.len(r), T.len(s)));
  });
  return r;
}
function regexReplace(s, re, rep) {
  if (s.op === "str" && typeof rep !== "object") return T.str(s.val.replace(re, rep));
  if (re.global && !re.sticky && (typeof rep === "string" || (typeof rep === "function" && rep.length <= 1))) {
    let src = re.source; if (rep === "" && /\+$/.test(src) && !/\\\+$/.test(src)) src = src.slice(0, -1);
    if (oneUnit(src, re.flags.replace(/[gy]/g, ""))) {
      const table = typeof rep === "string" ? null : 1;
      const h = homFrom(re + "=>" + (table ? "fn" + homFn(rep) : rep), (ch) => ch.replace(re, rep));
      if (h) return applyHom(h, s);
    }
  }
  const none = T.not(inReJs(s, re.source, re.flags.replace(/[gy]/g, "")));
  if (typeof rep === "string" || typeof rep === "function") {
    if (P.spec) throw new Control("spec");
    if ((s.op === "str.++" ? s.args : [s]).some((p) => homOf(p) || p.op === "app")) { // no match without one of these units
      let must = null; try { const r = RX.parseRegex(re.source, re.flags.replace(/[gy]/g, "")); must = mustHave(r.ast ?? r); } catch { must = null; }
      if (must && choose(T.not(containsUnit(s, must)))) return s;
    }
    if (choose(none)) return s;
    if (typeof rep === "string" && !re.global && !/[my]/.test(re.flags) && !rep.includes("$") && re.source[0] === "^" && oneUnit(re.source.slice(1), re.flags)) return T.concat(T.str(rep), T.substr(s, T.int(1), T.len(s)));
    if (typeof rep === "string" && !re.global && !/[my]/.test(re.flags) && !rep.includes("$") && /[^\\]\$$/.test(re.source) && oneUnit(re.source.slice(0, -1), re.flags)) return T.concat(T.substr(s, T.int(0), T.sub(T.len(s), T.int(1))), T.str(rep));
    if (typeof rep === "string") {
      const m = cfg.replaceModel?.(s, re, rep, P); if (m) return m;
      const r = T.app("js.replace:" + re + ":" + rep, "String", s);
      // deleting: the result contains no character of a deleted class
      return r;
    }
  }
  unsupported("regex replace with callback on symbolic string");
}
const homFns = new WeakMap(); let homFnSeq = 0;
/* structure of a string built from constants and homomorphic images of other strings */
export function homParts(t) {
  const parts = t.op === "str.++" ? t.args : [t];
  return parts.map((p) => p.op === "str" ? { text: p.val } : homOf(p) ? { of: p.args[0], table: homOf(p).table } : { of: p, table: new Map() });
}
function homFn(f) { let n = homFns.get(f); if (!n) homFns.set(f, n = ++homFnSeq); return n; }
/* "begins with this unit", put in terms of the texts a text was made from, when no image is empty */
function startsUnit(s, ch) {
  const parts = s.op === "str.++" ? s.args : [s]; if (!parts.some((p) => homOf(p))) return null;
  let acc = T.bool(false);
  for (const p of [...parts].reverse()) {
    if (p.op === "str") { acc = T.bool(p.val[0] === ch); continue; }
    const h = homOf(p), base = h ? p.args[0] : p; let cls;
    if (h) { if (h.outs.some((o) => o === "")) return null; cls = []; for (const [c, img] of h.table) if (img[0] === ch) cls.push([c, c]); if (!h.table.has(ch.charCodeAt(0))) cls.push([ch.charCodeAt(0), ch.charCodeAt(0)]); }
    else cls = [[ch.charCodeAt(0), ch.charCodeAt(0)]];
    const here = cls.length === 1 && cls[0][0] === cls[0][1] ? T.prefixof(T.str(String.fromCharCode(cls[0][0])), base) : cls.length ? T.inRe(base, `(re.++ (re.union ${cls.map(([x, y]) => `(re.range ${T.smtStr(String.fromCharCode(x))} ${T.smtStr(String.fromCharCode(y))})`).join(" ")} re.none) re.all)`) : T.bool(false);
    acc = T.or(here, T.and(T.eq(base, T.str("")), acc));
  }
  return acc;
}
/* Units one of which occurs in every match of a regular expression (null: none known). */
function mustHave(ast) {
  switch (ast.t) {
    case "cls": return ast.r;
    case "seq": { let best = null; for (const x of ast.a) { const r = mustHave(x); if (r && (!best || size(r) < size(best))) best = r; } return best; }
    case "alt": { const rs = ast.a.map(mustHave); return rs.some((r) => !r) ? null : RX.norm(rs.flat()); }
    case "grp": case "ncg": return mustHave(ast.x);
    case "rep": return ast.lo > 0 ? mustHave(ast.x) : null;
    default: return null;
  }
}
const size = (rs) => rs.reduce((n, [a, b]) => n + b - a + 1, 0);
const inRanges = (rs, c) => rs.some(([a, b]) => a <= c && c <= b);
/* "the text contains a unit of the class", put in terms of the texts it was made from */
function containsUnit(t, rs) {
  const cls = (r) => r.length ? `(re.union ${r.map(([x, y]) => `(re.range ${T.smtStr(String.fromCharCode(x))} ${T.smtStr(String.fromCharCode(y))})`).join(" ")} re.none)` : "re.none";
  const has = (x, r) => r.length ? T.inRe(x, `(re.++ re.all ${cls(r)} re.all)`) : T.bool(false);
  return T.or(...(t.op === "str.++" ? t.args : [t]).map((p) => {
    if (p.op === "str") return T.bool([...p.val.split("")].some((ch) => inRanges(rs, ch.charCodeAt(0))));
    const h = homOf(p);
    if (h) { const pre = []; for (const [c, img] of h.table) if (img.split("").some((ch) => inRanges(rs, ch.charCodeAt(0)))) pre.push([c, c]); for (const [a, b] of rs) { if (b - a > 2000) return has(p, rs); for (let c = a; c <= b; c++) if (!h.table.has(c)) pre.push([c, c]); } return has(p.args[0], RX.norm(pre)); }
    if (p.op === "app" && (p.val === "js.toUpperCase" || p.val === "js.toLowerCase") && rs.every(([a, b]) => b < 0x80) && !rs.some(([a, b]) => /[a-zA-Z]/.test(String.fromCharCode(...Array.from({ length: b - a + 1 }, (_, i) => a + i)))) && caseKeepsAscii()) return has(p.args[0], rs);
    return has(p, rs);
  }));
}
let caseOk; function caseKeepsAscii() { // no other code point's upper- or lower-casing contains an ASCII character that is not a letter
  if (caseOk === undefined) { caseOk = true; for (let c = 0; c <= 0x10ffff; c++) { const ch = String.fromCodePoint(c); for (const m of [ch.toUpperCase(), ch.toLowerCase()]) if (m !== ch && /[\0-@[-`{-\x7f]/.test(m)) caseOk = false; } }
  return caseOk;
}
/* A constant is found in a homomorphic image where it is found in the original text, when every unit of the constant comes from itself alone and every image is one unit long. */
function unhom(s, c) {
  if (c.op !== "str") return s;
  const parts = s.op === "str.++" ? s.args : [s]; if (!parts.some((p) => homOf(p))) return s;
  const units = new Set(c.val.split(""));
  const out = parts.map((p) => { const h = homOf(p); if (!h) return p; for (const [cc, img] of h.table) if (img.length !== 1 || units.has(img) || units.has(String.fromCharCode(cc))) return p; return p.args[0]; });
  return T.concat(...out);
}
/* The place of a one-unit constant in a concatenation whose other parts provably do not hold it. */
function place(s, c, last) {
  if (s.op !== "str.++" || c.op !== "str" || c.val.length !== 1) return undefined;
  const n = s.args.length, before = (k) => s.args.slice(0, k).map((x) => T.len(x)).reduce((x, y) => T.add(x, y), T.int(0));
  for (let j = 0; j < n; j++) {
    const k = last ? n - 1 - j : j, x = s.args[k];
    if (x.op === "str") { const i = last ? x.val.lastIndexOf(c.val) : x.val.indexOf(c.val); if (i >= 0) return T.add(before(k), T.int(BigInt(i))); continue; }
    if (!provable(T.not(T.contains(x, c)))) return undefined;
  }
  return T.int(-1n);
}
function strMethod(k, o, a) {
  const s = S(o);
  switch (k) {
    case "startsWith": if (a.length === 1) { const c = toStr(a[0]); if (c.op === "str" && c.val.length === 1) { const r = startsUnit(s, c.val); if (r) return mkBool(r); } } if (a.length > 1 && a[1] !== 0) { return mkBool(T.prefixof(S(a[0]), sliceStr(s, a[1]))); } { const c = toStr(a[0]); return mkBool(T.prefixof(c, unhom(s, c))); }
    case "endsWith": { const c = toStr(a[0]); return mkBool(T.suffixof(c, unhom(s, c))); }
    case "includes": if (a.length > 1) return mkBool(T.contains(sliceStr(s, a[1]), toStr(a[0]))); { const c = toStr(a[0]); return mkBool(T.contains(unhom(s, c), c)); }
    case "indexOf": { if (a.length === 1) { const r = place(s, toStr(a[0]), false); if (r) return mkNum(r); } let i = a.length > 1 ? idx(a[1], T.int(0)) : T.int(0); if (i.op === "int") { if (i.val < 0n) i = T.int(0); } else i = T.ite(T.lt(i, T.int(0)), T.int(0), i); return mkNum(T.indexof(s, toStr(a[0]), i)); }
    case "lastIndexOf": {
      if (a.length > 1) unsupported("lastIndexOf with position");
      const p = toStr(a[0]); const r = place(s, p, true); if (r) return mkNum(r);
      const i = T.app("js.lastIndexOf", "Int", s, p);
      memoFact("lio" + i.id, () => {
        fact(T.ge(i, T.int(-1)));
        fact(T.implies(T.lt(i, T.int(0)), T.not(T.contains(s, p))));
        fact(T.implies(T.ge(i, T.int(0)), T.and(T.eq(T.substr(s, i, T.len(p)), p), T.le(T.add(i, T.len(p)), T.len(s)), T.not(T.contains(T.substr(s, T.add(i, T.int(1)), T.len(s)), p)))));
      });
      return mkNum(i);
    }
    case "slice": return mkStr(sliceStr(s, a[0], a[1]));
    case "substring": {
      const L = strLen(s);
      let st = idx(a[0], T.int(0)), en = a[1] === undefined ? L : idx(a[1]);
      const clamp = (x) => x.op === "int" ? (x.val < 0n ? T.int(0) : x) : T.ite(T.lt(x, T.int(0)), T.int(0), x);
      st = clamp(st); en = clamp(en);
      if (!(st.op === "int" && st.val === 0n) && choose(T.lt(en, st))) [st, en] = [en, st];
      return mkStr(T.substr(s, st, T.sub(en, st)));
    }
    case "substr": { const L = strLen(s); const st = relIdx(idx(a[0], T.int(0)), L); return mkStr(T.substr(s, st, a[1] === undefined ? L : idx(a[1]))); }
    case "charAt": return mkStr(T.at(s, idx(a[0], T.int(0))));
    case "at": { let i = idx(a[0], T.int(0)); const L = strLen(s); if (choose(T.lt(i, T.int(0)))) i = T.add(L, i); return charAt(s, mkNum(i)); }
    case "charCodeAt": { const i = idx(a[0], T.int(0)); const L = strLen(s); if (!choose(T.and(T.ge(i, T.int(0)), T.lt(i, L)))) return NaN; return mkNum(codeAt(s, i)); }
    case "codePointAt": {
      const i = idx(a[0], T.int(0)); const L = strLen(s); if (!choose(T.and(T.ge(i, T.int(0)), T.lt(i, L)))) return undefined;
      const c = codeAt(s, i);
      if (!choose(T.and(T.ge(c, T.int(0xd800)), T.le(c, T.int(0xdbff)), T.lt(T.add(i, T.int(1)), L)))) return mkNum(c);
      const d = codeAt(s, T.add(i, T.int(1)));
      if (!choose(T.and(T.ge(d, T.int(0xdc00)), T.le(d, T.int(0xdfff))))) return mkNum(c);
      return mkNum(T.add(T.add(T.mul(T.sub(c, T.int(0xd800)), T.int(1024)), T.sub(d, T.int(0xdc00))), T.int(0x10000)));
    }
    case "toString": case "valueOf": return mkStr(s);
    case "trim": return s.op === "str" ? s.val.trim() : mkStr(trimParts(s)[1]);
    case "trimStart": { const [, m, b] = trimParts(s); return mkStr(T.concat(m, b)); }
    case "trimEnd": { const [x, m] = trimParts(s); return mkStr(T.ite(T.eq(m, T.str("")), T.str(""), T.concat(x, m))); }
    case "toLowerCase": case "toUpperCase": return mkStr(caseMap(k, s));
    case "toLocaleLowerCase": return mkStr(caseMap("toLowerCase", s));
    case "split": {
      if (a.length === 0) return [o];
      if (a[0] instanceof RegExp) { if (s.op === "str") return s.val.split(a[0], a[1]); unsupported("split by regex"); }
      if (isSym(a[0])) unsupported("split by symbolic separator");
      const r = splitStr(s, a[0], cfg.splitK ?? 9);
      if (a[1] !== undefined) return r.slice(0, a[1]);
      return r;
    }
    case "concat": return mkStr(T.concat(s, ...a.map(toStr)));
    case "repeat": {
      const n = a[0];
      if (typeof n === "number" && n <= 64) { if (n < 0) throw new RangeError("Invalid count value"); let r = T.str(""); for (let i = 0; i < n; i++) r = T.concat(r, s); return mkStr(r); }
      const nt = N(n); if (choose(T.lt(nt, T.int(0)))) throw new RangeError("Invalid count value");
      const r = T.app("js.repeat", "String", s, nt);
      memoFact("rep" + r.id, () => { fact(T.eq(T.len(r), T.mul(T.len(s), nt))); if (s.op === "str") fact(T.inRe(r, `(re.* (str.to_re ${T.smtStr(s.val)}))`)); });
      return mkStr(r);
    }
    case "padStart": case "padEnd": {
      const n = a[0]; const pad = a[1] ?? " ";
      if (typeof n !== "number" || typeof pad !== "string" || pad.length !== 1) unsupported("pad");
      const L = strLen(s);
      if (choose(T.ge(L, T.int(n)))) return mkStr(s);
      for (let l = 0; l < n; l++) if (choose(T.eq(L, T.int(l)))) { const p = T.str(pad.repeat(n - l)); return mkStr(k === "padStart" ? T.concat(p, s) : T.concat(s, p)); }
      prune("pad");
    }
    // falls through
    case "replace": case "replaceAll": {
      if (a[0] instanceof RegExp) return mkStr(regexReplace(s, a[0], a[1]));
      const p = toStr(a[0]);
      if (k === "replaceAll") { if (s.op === "str" && p.op === "str" && typeof a[1] === "string") return s.val.replaceAll(p.val, a[1]); if (p.op === "str" && p.val.length === 1 && typeof a[1] === "string") return mkStr(applyHom(homFrom("all:" + p.val + "=>" + a[1], (ch) => ch.replaceAll(p.val, a[1])), s)); if (!choose(T.contains(s, p))) return mkStr(s); if (p.op === "str" && typeof a[1] === "string") return mkStr(T.app("js.replaceAll:" + p.val + ":" + a[1], "String", s)); unsupported("replaceAll"); }
      if (!choose(T.contains(s, p))) return mkStr(s);
      let r = a[1];
      if (typeof r === "function") r = r(mkStr(p), mkNum(T.indexof(s, p, T.int(0))), mkStr(s));
      else if (typeof r !== "string" || r.includes("$")) { if (isSym(r)) { if (choose(T.contains(r.t, T.str("$")))) unsupported("replace with $ pattern"); } else unsupported("replace with $ pattern"); }
      return mkStr(T.replace1(s, p, toStr(r)));
    }
    case "match": if (a[0] instanceof RegExp && !a[0].global) return reExec(a[0], s); unsupported("match /g");
    // falls through
    case "search": unsupported("search");
    // falls through
    case "localeCompare": {
      const t = toStr(a[0]); const r = T.app("js.localeCompare", "Int", s, t);
      memoFact("lc" + r.id, () => { fact(T.implies(T.eq(s, t), T.eq(r, T.int(0)))); const r2 = T.app("js.localeCompare", "Int", t, s); fact(T.eq(T.lt(r, T.int(0)), T.gt(r2, T.int(0)))); fact(T.eq(T.gt(r, T.int(0)), T.lt(r2, T.int(0)))); });
      return mkNum(r);
    }
    case "normalize": return mkStr(T.app("js.normalize", "String", s));
    case Symbol.iterator: return iterate(mkStr(s));
    case "isWellFormed": return mkBool(T.app("js.isWellFormed", "Bool", s));
  }
  if (!(k in String.prototype)) throw new TypeError(`${String(k)} is not a function`);
  unsupported("String.prototype." + String(k));
}
export function reTest(re, s) {
  if (re.global || re.sticky) { if (re.lastIndex !== 0) unsupported("stateful regex"); if (s.op !== "str") { const t = inReJs(s, re.source, re.flags.replace(/[gy]/g, "")); if (!choose(t)) return false; unsupported("/g test on symbolic string"); } }
  if (s.op === "str") return re.test(s.val);
  return mkBool(inReJs(s, re.source, re.flags));
}
export function reExec(re, s) {
  if (s.op === "str") return re.exec(s.val);
  if (re.global || re.sticky) unsupported("exec with /g");
  const key = "exec" + re.source + "/" + re.flags + "#" + s.id;
  if (P.memo.has(key)) { const m = P.memo.get(key); return m === null ? null : Object.assign(m.slice(), { index: m.index, input: m.input, groups: m.groups }); }
  if (!choose(inReJs(s, re.source, re.flags))) { P.memo.set(key, null); return null; }
  const st = RX.structure(re.source, re.flags);
  let ai = 0;
  const altLang = (x) => { const body = { t: "seq", a: [...x.items, ...(x.eol ? [{ t: "eol" }] : [])] }; const l = RX.cps(body, RX.ANYSTAR); return x.bol ? l : `(re.++ ${RX.ANYSTAR} ${l})`; };
  if (st.alts.length > 1) {
    for (ai = 0; ai < st.alts.length - 1; ai++) if (choose(T.inRe(s, altLang(st.alts[ai])))) break;
  }
  const A = st.alts[ai]; const caps = new Array(st.ngroups + 1).fill(undefined);
  if (A.bol && A.eol && st.ngroups === 0) { const m = [mkStr(s)]; m.index = 0; m.input = mkStr(s); m.groups = undefined; P.memo.set(key, m); return Object.assign(m.slice(), { index: 0, input: m.input, groups: undefined }); }
  const nm = P.name("re"); let vn = 0;
  const piece = (lang) => { const v = T.v(nm + "." + vn++, "String"); if (lang) fact(T.inRe(v, lang)); return v; };
  function decompose(items) { // -> list of terms
    const out = []; let run = [];
    const flush = () => { if (run.length) { out.push(piece(RX.plain({ t: "seq", a: run }))); run = []; } };
    for (const it of items) {
      if (it.t === "la" || it.t === "eol" || it.t === "bol") { flush(); continue; }
      if (RX.hasZero(it)) { flush(); out.push(piece(null)); markCaps(it); continue; }
      if (!RX.hasGroup(it)) { run.push(it); continue; }
      flush(); out.push(...one(it));
    }
    flush();
    return out;
  }
  function one(it) {
    if (it.t === "grp") {
      const inner = it.x.t === "seq" ? it.x.a : [it.x];
      if (!RX.hasGroup(it.x)) { const v = piece(RX.plain(it.x)); caps[it.i] = mkStr(v); return [v]; }
      const ts = decompose(inner); caps[it.i] = mkStr(T.concat(...ts)); return ts;
    }
    if (it.t === "rep" && it.lo === 0 && it.hi === 1) { if (pick(2) === 0) return one(it.x.t === "seq" && it.x.a.length === 1 ? it.x.a[0] : it.x); return []; }
    if (it.t === "seq") return decompose(it.a);
    if (it.t === "alt") { const j = pick(it.a.length); return decompose(it.a[j].t === "seq" ? it.a[j].a : [it.a[j]]); }
    markCaps(it); return [piece(RX.plain(it))];
  }
  function markCaps(n) { if (n.t === "grp") { caps[n.i] = pick(2) === 0 ? mkStr(piece(null)) : undefined; } if (n.x) markCaps(n.x); if (isArr(n.a)) n.a.forEach(markCaps); }
  const mid = decompose(A.items);
  const pre = A.bol ? T.str("") : piece(null), post = A.eol ? T.str("") : piece(null);
  const m0 = T.concat(...mid);
  const def = T.eq(s, T.concat(pre, m0, post));
  if (P.fresh && !feasible(def)) prune("regex decomposition");
  addPc(def);
  caps[0] = mkStr(m0);
  const m = caps; m.index = mkNum(T.len(pre)); m.input = mkStr(s);
  if (Object.keys(st.names).length) { m.groups = Object.create(null); for (const [n, i] of Object.entries(st.names)) m.groups[n] = caps[i]; } else m.groups = undefined;
  P.memo.set(key, m);
  return Object.assign(m.slice(), { index: m.index, input: m.input, groups: m.groups });
}
export function strToNumber(s) {
  if (s.op === "str") return Number(s.val);
  const key = "Number" + s.id; if (P.memo.has(key)) return P.memo.get(key);
  const done = (v) => { P.memo.set(key, v); return v; };
  const big = (neg) => { // beyond 2^53: rounded, possibly infinite
    if (pick(2) === 1) { addPc(T.gt(T.len(s), T.int(300))); return neg ? -Infinity : Infinity; }
    const r = T.app("js.NumberBig", "Int", s);
    fact(neg ? T.le(r, T.int(-(2n ** 53n))) : T.ge(r, T.int(2n ** 53n)));
    return new Sym("num", r);
  };
  const digits = (t, neg) => {
    const i = T.toInt(t);
    memoFact("toint" + i.id, () => fact(T.ge(i, T.int(-1))));
    fact(T.ge(i, T.int(0)));
    if (choose(T.le(i, T.int(2n ** 53n)))) return mkNum(neg ? T.neg(i) : i);
    return big(neg);
  };
  if (choose(inReJs(s, "^[0-9]+$"))) return done(digits(s, false));
  if (choose(inReJs(s, "^[-][0-9]+$"))) return done(digits(T.substr(s, T.int(1), T.sub(T.len(s), T.int(1))), true));
  if (choose(inReJs(s, "^[+][0-9]+$"))) return done(digits(T.substr(s, T.int(1), T.sub(T.len(s), T.int(1))), false));
  if (choose(inReJs(s, `^${WS}*$`))) return done(0);
  if (choose(inReJs(s, `^${WS}*[-+]?(?:[0-9]+\\.?[0-9]*|\\.[0-9]+)(?:[eE][-+]?[0-9]+)?${WS}*$`))) {
    const w = pick(3); if (w === 1) return done(Infinity); if (w === 2) return done(-Infinity);
    return done(new Sym("num", T.app("js.NumberDec", "Real", s)));
  }
  if (choose(inReJs(s, `^${WS}*0(?:[xX][0-9a-fA-F]+|[oO][0-7]+|[bB][01]+)${WS}*$`))) {
    if (pick(2) === 1) return done(Infinity);
    const r = T.app("js.NumberHex", "Int", s); fact(T.ge(r, T.int(0))); return done(new Sym("num", r));
  }
  if (choose(inReJs(s, `^${WS}*[+]?Infinity${WS}*$`))) return done(Infinity);
  if (choose(inReJs(s, `^${WS}*-Infinity${WS}*$`))) return done(-Infinity);
  return done(NaN);
}

// ---------------------------------------------------------------- symbolic arrays (segments)
const seqTerm = (a) => { // string sequence term of an array, or null
  if (a instanceof SArr) { const ts = []; for (const g of exSegs(a.segs)) { if (g.s) ts.push(g.s); else { if (!isStr(g.e)) return null; ts.push(T.seqUnit(S(g.e))); } } return T.seqConcat(...ts); }
  if (isArr(a)) { if (!a.every(isStr)) return null; return T.seqConcat(...a.map((x) => T.seqUnit(S(x)))); }
  return null;
};
export { seqTerm };
// A symbolic sequence is taken apart at most once per path: s = h ++ t, s = a ++ b, or s = [].  The pieces are definitional
// extensions, so the equality is needed only where s itself is mentioned.
const seqVars = (t) => { if (!t.$vars) t.$vars = [...T.collect([t])]; return t.$vars; };
function define(s, parts) {
  P.exp.set(s.id, parts);
  const rhs = T.seqConcat(...parts);
  for (const f of [T.eq(s, rhs), ...(parts.length ? [T.eq(T.seqLen(s), T.seqLen(rhs))] : [])]) { if (f === T.TRUE) continue; for (const g of f.op === "and" ? f.args : [f]) { P.defs.set(g.id, seqVars(s)); fact(g); } }
}
export function expand(s) { const e = P.exp.get(s.id); return e === undefined ? [s] : e.flatMap(expand); }
export function exSegs(segs) { let any = false; for (const g of segs) if (g.s && P.exp.has(g.s.id)) { any = true; break; } return any ? normSegs(segs).segs : segs; }
function nonEmpty(s) { // decide whether s has an element; afterwards it is expanded either way
  if (!choose(T.gt(sLen(s), T.int(0)))) { define(s, []); return false; }
  const nm = P.name("sq"); const h = T.v(nm + ".h", "String"), t = T.v(nm + ".t", T.SEQ);
  sLen(t); define(s, [T.seqUnit(h), t]); return true;
}
export function splitSeq(a) { // an arbitrary division of a into a prefix and the rest
  const gs = exSegs(segsOf(a)); const n = gs.length; if (n === 0) return [mkArr([]), mkArr([])];
  // cut points: before each explicit element and at the very end, or inside a symbolic piece (either end included)
  const cuts = []; for (let i = 0; i < n; i++) { if (gs[i].s) cuts.push([i, true]); else { if (i === 0 || !gs[i - 1].s) cuts.push([i, false]); } }
  if (!gs[n - 1].s) cuts.push([n, false]);
  const [i, inside] = cuts[pick(cuts.length)];
  if (!inside) return [mkArr(gs.slice(0, i)), mkArr(gs.slice(i))];
  const nm = P.name("sp"); const x = T.v(nm + ".a", T.SEQ), y = T.v(nm + ".b", T.SEQ); sLen(x); sLen(y);
  define(gs[i].s, [x, y]);
  return [mkArr([...gs.slice(0, i), { s: x }]), mkArr([{ s: y }, ...gs.slice(i + 1)])];
}
export function normSegs(segs) {
  const out = [];
  for (const g of segs) {
    if (g.s) {
      if (g.s.op === "seq.empty") continue;
      if (g.s.op === "seq.unit") { out.push({ e: mkStr(g.s.args[0]) }); continue; }
      if (P.exp.has(g.s.id)) { out.push(...normSegs(expand(g.s).map((x) => ({ s: x }))).segs); continue; }
      if (g.s.op === "seq.++") { for (const x of g.s.args) { const y = normSegs([{ s: x }]); out.push(...y.segs ?? []); } continue; }
    }
    out.push(g);
  }
  return { segs: out };
}
export function mkArr(segs) {
  const n = normSegs(segs).segs;
  if (n.every((g) => !g.s)) return born(n.map((g) => g.e));
  return born(new SArr(n));
}
export function seqToArr(t) { return mkArr([{ s: t }]); }
const sLen = (t) => { const l = T.seqLen(t); if (l.op !== "int" && !P.pcset.has(-l.id)) { P.pcset.add(-l.id); fact(T.ge(l, T.int(0))); } return l; };
export function arrLen(a) { if (isArr(a)) return T.int(a.length); return exSegs(a.segs).map((g) => g.s ? sLen(g.s) : T.int(1)).reduce(T.add, T.int(0)); }
export function segsOf(a) { return a instanceof SArr ? exSegs(a.segs) : a.map((e) => ({ e })); }
export function arrGet(a, i) {
  if (typeof i === "number") {
    let k = i; if (!Number.isInteger(k) || k < 0) return undefined;
    for (let gs = [...exSegs(a.segs)]; gs.length;) {
      const g = gs.shift();
      if (!g.s) { if (k === 0) return g.e; k--; continue; }
      nonEmpty(g.s); gs = [...normSegs([g]).segs, ...gs];
    }
    return undefined;
  }
  if (isSym(i) && i.k === "num") {
    const t = seqTerm(a); if (!t) unsupported("symbolic index into mixed array");
    if (!choose(T.and(T.ge(i.t, T.int(0)), T.lt(i.t, T.seqLen(t))))) return undefined;
    return mkStr(T.seqNth(t, i.t));
  }
  unsupported("array index");
}
function arrSlice(a, x, y) {
  if (!(a instanceof SArr)) {
    const L = a.length;
    const cv = (v, d) => { if (v === undefined) return d; if (typeof v === "number") return v; // symbolic bound on a concrete array: enumerate
      for (let l = -L; l <= L; l++) if (choose(T.eq(N(v), T.int(l)))) return l; return choose(T.lt(N(v), T.int(0))) ? -L : L; };
    return born(a.slice(cv(x, 0), cv(y, L)));
  }
  const st = x === undefined ? 0 : x;
  if (typeof y === "number" && y < 0 && typeof st === "number" && st >= 0) { const gs = exSegs(a.segs); if (gs.length >= -y && gs.slice(y).every((g) => !g.s)) { const h = mkArr(gs.slice(0, y)); return st === 0 ? h : arrMethod("slice", h, [st]); } }
  if (typeof st === "number" && st >= 0 && (y === undefined)) {
    let k = st;
    for (let gs = [...exSegs(a.segs)]; gs.length;) {
      if (k === 0) return mkArr(gs);
      const g = gs.shift();
      if (!g.s) { k--; continue; }
      nonEmpty(g.s); gs = [...normSegs([g]).segs, ...gs];
    }
    return born([]);
  }
  if (typeof st === "number" && st >= 0 && typeof y === "number" && y >= 0) {
    const out = []; for (let i = st; i < y; i++) { const L = arrLen(a); if (!choose(T.gt(L, T.int(i)))) break; out.push(arrGet(a, i)); } return born(out);
  }
  const t = seqTerm(a); if (!t) unsupported("slice of mixed symbolic array");
  const L = T.seqLen(t); sLen(t);
  const s0 = relIdx(idx(st), L), e0 = y === undefined ? L : relIdx(idx(y), L);
  // seq.extract clips at the end; start beyond length yields empty
  return mkArr([{ s: T.seqExtract(t, s0, T.sub(e0, s0)) }]);
}
function* iterate(x) { // forking iteration with unrolling limit
  if (isSym(x)) { if (x.k === "str") { yield* iterStr(x.t, null); return; } throw new TypeError("not iterable"); }
  yield* iterArr(x, null);
}
function* iterArr(a, ctl) {
  let n = 0;
  for (let i = 0; ; i++) {
    const gs = exSegs(a.segs); let k = i; let g;
    for (g of gs) { if (g.s || k === 0) break; k--; }
    if (g !== undefined && g.s === undefined && k === 0 && gs.slice(0, i + 1).every((x) => !x.s)) { yield g.e; continue; }
    if (gs.length <= i && gs.every((x) => !x.s)) return;
    if (n++ >= cfg.unrollLimit) { const L = arrLen(a); if (!choose(T.gt(L, T.int(i)))) return; loopLimit(ctl?.id ?? "iteration"); }
    const L = arrLen(a);
    if (!choose(T.gt(L, T.int(i)))) return;
    yield arrGet(a, i);
  }
}
function* iterStr(s, ctl) {
  for (let i = 0, n = 0; ; n++) {
    const L = strLen(s);
    if (!choose(T.gt(L, T.int(i)))) return;
    if (n >= cfg.unrollLimit) loopLimit(ctl?.id ?? "string iteration");
    const cp = strMethod("codePointAt", new Sym("str", s), [i]);
    const two = isSym(cp) ? cp.t.op === "+" : cp > 0xffff;
    yield mkStr(T.substr(s, T.int(i), T.int(two ? 2 : 1)));
    i += two ? 2 : 1;
  }
}
function loopLimit(id) { const c = new Control("looplimit", "unrolling limit in " + id, id); P.abort(c); throw c; }
function concretizeArr(a) { return a instanceof SArr ? [...iterArr(a)] : a; }
function arrJoin(a, sep) {
  sep = sep === undefined ? "," : sep;
  if (a instanceof SArr) {
    const t = seqTerm(a); if (!t) unsupported("join of mixed array");
    // join distributes over concrete prefix/suffix elements
    const gs = a.segs; const parts = []; 
    const r = T.app("js.join", "String", t, S(sep)); return mkStr(r);
  }
  if (!a.some(isEngineDeep) && typeof sep === "string") return a.join(sep);
  let r = T.str("");
  a.forEach((x, i) => { if (i) r = T.concat(r, S(sep)); if (x !== undefined && x !== null) r = T.concat(r, toStr(x)); });
  return mkStr(r);
}
const isEngineDeep = (x) => isEngine(x) || (isArr(x) && x.some(isEngineDeep)) || (typeof x === "object" && x !== null && !isArr(x));
function frame(o) {
  if (P.cutDepth > 0 && typeof o === "object" && o !== null && !P.born.has(o)) {
    const c = new Control("unsupported", "loop under contract writes to an object that outlives the iteration"); P.abort(c); throw c;
  }
}
export function born(o) { if (P && P.cutDepth > 0 && typeof o === "object" && o !== null) P.born.add(o); return o; }
const MUT = new Set(["push", "pop", "shift", "unshift", "splice", "sort", "reverse", "fill", "copyWithin"]);
function ordCompare(cmp) {
  return (x, y) => { // is y < x ?  (strict)
    if (cmp) { const r = cmp(y, x); return truthy(bin("<", r, 0)); }
    return truthy(mkBool(T.strLt(toStr(y), toStr(x))));
  };
}
function arrMethod(k, a, args) {
  if (MUT.has(k)) frame(a);
  const f = args[0];
  if (a instanceof SArr) {
    switch (k) {
      case "slice": return arrSlice(a, args[0], args[1]);
      case "includes": { const t = seqTerm(a); if (t && isStr(f)) { let r = []; for (const g of exSegs(a.segs)) if (g.s) asked(g.s, S(f)); for (const g of exSegs(a.segs)) r.push(g.s ? T.seqContains(g.s, S(f)) : T.eq(S(g.e), S(f))); return mkBool(T.or(...r)); } unsupported("includes on mixed"); }
      // falls through
      case "concat": return mkArr([...exSegs(a.segs), ...args.flatMap((x) => isArr(x) || x instanceof SArr ? segsOf(x) : [{ e: x }])]);
      case "join": return arrJoin(a, args[0]);
      case "at": if (typeof f === "number" && f < 0) { const gs = exSegs(a.segs); const last = gs[gs.length + f]; if (last && gs.slice(f).every((g) => !g.s)) return last.e; const t = seqTerm(a); const i = T.add(T.seqLen(t), T.int(f)); if (!choose(T.ge(i, T.int(0)))) return undefined; return mkStr(T.seqNth(t, i)); } return arrGet(a, f);
      case "push": { a.segs = normSegs([...a.segs, ...args.map((e) => ({ e }))]).segs; return mkNum(arrLen(a)); }
      case "unshift": { a.segs = normSegs([...args.map((e) => ({ e })), ...a.segs]).segs; return mkNum(arrLen(a)); }
      case "shift": { if (!choose(T.gt(arrLen(a), T.int(0)))) return undefined; const x = arrGet(a, 0); const r = arrSlice(a, 1); a.segs = segsOf(r); return x; }
      case Symbol.iterator: case "values": return iterate(a);
      case "toString": return arrJoin(a, ",");
      case "indexOf": { const t = seqTerm(a); if (t && isStr(f) && args.length === 1) { const i = T.app("js.seqIndexOf", "Int", t, S(f)); asked(t, S(f)); memoFact("sio" + i.id, () => { fact(T.ge(i, T.int(-1))); fact(T.lt(i, T.seqLen(t))); fact(T.eq(T.ge(i, T.int(0)), T.seqContains(t, S(f)))); fact(T.implies(T.ge(i, T.int(0)), T.eq(T.seqNth(t, i), S(f)))); fact(T.implies(T.ge(i, T.int(0)), T.not(T.seqContains(T.seqExtract(t, T.int(0), i), S(f))))); }); return mkNum(i); } unsupported("indexOf"); }
      // falls through
      case "some": case "every": { const r = quantified(a, f, k === "every"); if (r !== null) return r; const c = [...iterArr(a)]; return arrMethod(k, c, args); }
      case "find": case "findIndex": case "filter": case "map": case "forEach": case "reduce": case "flatMap": case "findLast": case "entries": case "keys": case "reverse": case "sort": case "lastIndexOf": case "findLastIndex": case "flat": case "toSorted": case "toReversed": case "splice": case "pop": {
        const c = [...iterArr(a)]; // unroll (bounded by the unrolling limit; aborts beyond)
        if (MUT.has(k)) { const r = arrMethod(k, c, args); a.segs = c.map((e) => ({ e })); return k === "sort" || k === "reverse" ? a : r; }
        return arrMethod(k, c, args);
      }
    }
    if (!(k in Array.prototype)) throw new TypeError(`${String(k)} is not a function`);
    unsupported("Array method " + String(k) + " on symbolic array");
  }
  switch (k) {
    case "includes": case "indexOf": {
      if (!isEngine(f) && !a.some(isEngine)) return a[k](...args);
      const from = args[1] ?? 0;
      if (k === "includes") { let r = []; for (let i = from; i < a.length; i++) { const e = eq3(a[i], f); if (e === true) return true; r.push(B(e)); } return mkBool(T.or(...r)); }
      for (let i = from; i < a.length; i++) if (truthy(eq3(a[i], f))) return i;
      return -1;
    }
    case "lastIndexOf": { for (let i = a.length - 1; i >= 0; i--) if (truthy(eq3(a[i], f))) return i; return -1; }
    case "some": case "every": {
      const terms = []; const th = args[1];
      for (let i = 0; i < a.length; i++) {
        if (!(i in a)) continue;
        const r = callFn(f, th, [a[i], i, a]);
        if (isSym(r) && r.k === "bool") { if (choose(r.t) === (k === "some")) return k === "some"; continue; }
        if (truthy(r) === (k === "some")) return k === "some";
      }
      return k !== "some";
    }
    case "find": for (let i = 0; i < a.length; i++) if (truthy(callFn(f, args[1], [a[i], i, a]))) return a[i]; return undefined;
    case "findIndex": for (let i = 0; i < a.length; i++) if (truthy(callFn(f, args[1], [a[i], i, a]))) return i; return -1;
    case "findLast": for (let i = a.length - 1; i >= 0; i--) if (truthy(callFn(f, args[1], [a[i], i, a]))) return a[i]; return undefined;
    case "findLastIndex": for (let i = a.length - 1; i >= 0; i--) if (truthy(callFn(f, args[1], [a[i], i, a]))) return i; return -1;
    case "filter": { const o = []; for (let i = 0; i < a.length; i++) if (i in a && truthy(callFn(f, args[1], [a[i], i, a]))) o.push(a[i]); return born(o); }
    case "map": { const o = []; for (let i = 0; i < a.length; i++) o.push(callFn(f, args[1], [a[i], i, a])); return born(o); }
    case "flatMap": { const o = []; for (let i = 0; i < a.length; i++) { const r = callFn(f, args[1], [a[i], i, a]); if (r instanceof SArr) o.push(...iterArr(r)); else if (isArr(r)) o.push(...r); else o.push(r); } return born(o); }
    case "flat": if (a.some((x) => x instanceof SArr)) return mkArr(a.flatMap((x) => isArr(x) || x instanceof SArr ? segsOf(x) : [{ e: x }])); return born(a.flat(...args));
    case "sort": case "toSorted": {
      const t = k === "sort" ? a : a.slice();
      if (!f && !t.some(isEngineDeep)) return t.sort();
      const less = ordCompare(f); // stable insertion sort
      for (let i = 1; i < t.length; i++) { const x = t[i]; let j = i; while (j > 0 && t[j - 1] !== undefined && less(t[j - 1], x)) { t[j] = t[j - 1]; j--; } t[j] = x; }
      return born(t);
    }
    case "join": return arrJoin(a, args[0]);
    case "toString": return arrJoin(a, ",");
    case "concat": { const parts = [a, ...args]; if (parts.some((x) => x instanceof SArr)) return mkArr(parts.flatMap((x) => isArr(x) || x instanceof SArr ? segsOf(x) : [{ e: x }])); return born(a.concat(...args)); }
    case "slice": return arrSlice(a, args[0], args[1]);
    case "at": if (isSym(f)) { if (choose(T.lt(f.t, T.int(0)))) return get(a, bin("+", a.length, f)); return get(a, f); } return a.at(f);
    case "push": if (args.some((x) => x instanceof SpreadMark)) unsupported("push of symbolic spread onto native array"); return a.push(...args);
    case "splice": if (args.slice(0, 2).some(isSym)) unsupported("splice with symbolic index"); return born(a.splice(...args));
    case "fill": case "with": if (isSym(args[1]) && k === "fill") unsupported("fill"); return a[k](...args);
    case "reduce": { let i = 0; let acc; if (args.length > 1) acc = args[1]; else { if (!a.length) throw new TypeError("Reduce of empty array with no initial value"); acc = a[i++]; } for (; i < a.length; i++) acc = callFn(f, undefined, [acc, a[i], i, a]); return acc; }
    case "forEach": for (let i = 0; i < a.length; i++) if (i in a) callFn(f, args[1], [a[i], i, a]); return undefined;
  }
  const fn = a[k];
  if (typeof fn !== "function") throw new TypeError(`${String(k)} is not a function`);
  return born(fn.apply(a, args));
}
class SpreadMark { constructor(a) { this.a = a; } }

// ---------------------------------------------------------------- Map / Set with symbolic keys
function mapFind(m, key) { // -> actual key stored or a miss marker
  if (!isEngine(key)) {
    if (m.has(key)) return { k: key };
    if (typeof key === "object" || typeof key === "symbol" || typeof key === "function" || key === undefined || key === null) return null;
  } else if (m.has(key)) return { k: key };
  for (const k of m.keys()) { if (!isEngine(k) && !isEngine(key)) continue; if (truthy(eq3(k, key))) return { k }; }
  return null;
}
// new Set(texts) keeps its members as the sequence it was made from until something other than membership or spreading is
// asked of it.  Spreading gives a sequence with the same members, in which every text occurs once.
const lazySet = new WeakMap();
function forceSet(o) { const t = lazySet.get(o); if (t === undefined) return; lazySet.delete(o); for (const x of iterArr(mkArr([{ s: t }]))) collMethod("add", o, [x]); }
function dedup(t) {
  const d = T.app("js.dedup", T.SEQ, t);
  memoFact("dedup" + d.id, () => { fact(T.le(T.seqLen(d), T.seqLen(t))); fact(T.eq(T.eq(T.seqLen(d), T.int(0)), T.eq(T.seqLen(t), T.int(0)))); fact(T.implies(T.gt(T.seqLen(t), T.int(0)), T.eq(T.seqNth(d, T.int(0)), T.seqNth(t, T.int(0))))); });
  return d;
}
function asked(t, u) { if (t.op === "app" && t.val === "js.dedup") memoFact("ddc" + t.id + "/" + u.id, () => fact(T.eq(T.seqContains(t, u), T.seqContains(t.args[0], u)))); }
function collMethod(k, o, a) {
  if (lazySet.has(o)) { if (k === "has" && isStr(a[0])) return mkBool(T.seqContains(lazySet.get(o), S(a[0]))); forceSet(o); }
  const isMap = o instanceof Map;
  switch (k) {
    case "get": { const r = mapFind(o, a[0]); return r ? o.get(r.k) : undefined; }
    case "has": {
      if (!isEngine(a[0]) && o.has(a[0])) return true;
      const ts = []; for (const x of o.keys()) { if (!isEngine(x) && !isEngine(a[0])) continue; const e = eq3(x, a[0]); if (e === true) return true; if (e !== false) ts.push(e.t); }
      return mkBool(T.or(...ts));
    }
    case "set": { frame(o); const r = mapFind(o, a[0]); o.set(r ? r.k : a[0], a[1]); return o; }
    case "add": { frame(o); const r = mapFind(o, a[0]); if (!r) o.add(a[0]); return o; }
    case "delete": { frame(o); const r = mapFind(o, a[0]); return r ? o.delete(r.k) : false; }
    case "clear": frame(o); o.clear(); return undefined;
    case "forEach": for (const [x, y] of o.entries()) callFn(a[0], a[1], isMap ? [y, x, o] : [x, x, o]); return undefined;
  }
  return born(o[k](...a));
}

// ---------------------------------------------------------------- operators
export function eq3(a, b) {
  const ea = isEngine(a), eb = isEngine(b);
  if (!ea && !eb) { if (a !== b && typeof a === "object" && typeof b === "object" && a !== null && b !== null && (instd.has(a) || instd.has(b))) return pick(2) === 0; return a === b; }
  if (a === b) return true;
  if (isStr(a) && isStr(b)) {
    const x = S(a), y = S(b);
    for (const [u, v] of [[x, y], [y, x]]) if (v.op === "str" && u.op === "app" && (u.val === "js.toLowerCase" || u.val === "js.toUpperCase")) { const r = lowerEq(u.val.slice(3), u.args[0], v.val); if (r) return mkBool(r); }
    for (const [u, v] of [[x, y], [y, x]]) if (u.op === "str" && v.op === "app" && v.val === "js.trim") return u.val.trim() === u.val ? mkBool(inReJs(v.args[0], `^${WS}*${[...u.val].map((c) => "\\u" + c.charCodeAt(0).toString(16).padStart(4, "0")).join("")}${WS}*$`)) : false;
    for (const [u, v] of [[x, y], [y, x]]) if (v.op === "app" && v.val === "js.trim" && v.args[0] === u) return mkBool(inReJs(u, TRIMMED));
    return mkBool(T.eq(x, y));
  }
  if (isNum(a) && isNum(b)) { if (nonfin(a) || nonfin(b)) return false; return mkBool(T.eq(N(a), N(b))); }
  if (isBool(a) && isBool(b)) return mkBool(T.eq(B(a), B(b)));
  if (isBig(a) && isBig(b)) return mkBool(T.eq(BI(a), BI(b)));
  if (a instanceof Opaque && b instanceof Opaque) return mkBool(T.eq(a.$t, b.$t));
  return false;
}
export function truthy(x) {
  if (typeof x !== "object" || x === null) return !!x;
  if (x instanceof Sym) {
    switch (x.k) {
      case "bool": return choose(x.t);
      case "str": return choose(T.not(T.eq(x.t, T.str(""))));
      case "num": case "big": return choose(T.not(T.eq(x.t, T.int(0))));
    }
  }
  return true;
}
function cmp(op, a, b) {
  if (isStr(a) && isStr(b)) { const x = S(a), y = S(b); switch (op) { case "<": return mkBool(T.strLt(x, y)); case ">": return mkBool(T.strLt(y, x)); case "<=": return mkBool(T.not(T.strLt(y, x))); default: return mkBool(T.not(T.strLt(x, y))); } }
  const num = (x) => isNum(x) ? x : isBig(x) ? (typeof x === "bigint" ? new Sym("num", T.int(x)) : new Sym("num", x.t)) : isBool(x) ? mkNum(T.ite(B(x), T.int(1), T.int(0))) : isStr(x) ? strToNumber(S(x)) : x === undefined ? NaN : x === null ? 0 : unsupported("compare");
  a = num(a); b = num(b);
  if (nonfin(a) || nonfin(b)) {
    const av = typeof a === "number" ? a : 0, bv = typeof b === "number" ? b : 0; // a finite symbolic behaves like 0 against NaN/±Infinity
    switch (op) { case "<": return av < bv; case ">": return av > bv; case "<=": return av <= bv; default: return av >= bv; }
  }
  const x = N(a), y = N(b);
  switch (op) { case "<": return mkBool(T.lt(x, y)); case ">": return mkBool(T.gt(x, y)); case "<=": return mkBool(T.le(x, y)); default: return mkBool(T.ge(x, y)); }
}
export function bin(op, a, b) {
  if (!isEngine(a) && !isEngine(b)) {
    switch (op) {
      case "+": if ((typeof a === "object" && a !== null) || (typeof b === "object" && b !== null)) { return mkStr(T.concat(toStr(a), toStr(b))); } return a + b;
      case "-": return a - b; case "*": return a * b; case "/": return a / b; case "%": return a % b; case "**": return a ** b;
      case "<": return a < b; case ">": return a > b; case "<=": return a <= b; case ">=": return a >= b;
      case "==": return a == b; case "!=": return a != b; case "===": return typeof a === "object" && typeof b === "object" ? eq3(a, b) : a === b; case "!==": return typeof a === "object" && typeof b === "object" ? !eq3(a, b) : a !== b;
      case "<<": return a << b; case ">>": return a >> b; case ">>>": return a >>> b; case "&": return a & b; case "|": return a | b; case "^": return a ^ b;
      case "in": return a in b;
      case "instanceof": if (b === ErrorSym) b = Error; return a instanceof b;
    }
  }
  switch (op) {
    case "===": return eq3(a, b);
    case "!==": return not(eq3(a, b));
    case "==": if (a === null || a === undefined || b === null || b === undefined) return false; if (kindOf(a) === kindOf(b)) return eq3(a, b); unsupported("loose equality");
    // falls through
    case "!=": if (a === null || a === undefined || b === null || b === undefined) return true; if (kindOf(a) === kindOf(b)) return not(eq3(a, b)); unsupported("loose inequality");
    // falls through
    case "<": case ">": case "<=": case ">=": return cmp(op, a, b);
    case "instanceof": return isSym(a) ? false : a instanceof SArr ? b === Array || b === Object : a instanceof Opaque ? (a.$p.$instanceof ? a.$p.$instanceof(b) : b === Object) : unsupported("instanceof");
    case "in": {
      if (isSym(b)) throw new TypeError("in operator on primitive");
      if (b instanceof Opaque) { if (typeof a !== "object" && a in b.$p) return true; if (b.$p.$closed) return false; unsupported("in on opaque"); }
      if (b instanceof SArr) { if (typeof a === "symbol") return a in Array.prototype; unsupported("in on symbolic array"); }
      if (isSym(a) && a.k === "str") { const ks = []; for (let o = b; o; o = Object.getPrototypeOf(o)) ks.push(...Object.getOwnPropertyNames(o)); return mkBool(T.or(...ks.map((k) => T.eq(a.t, T.str(k))))); }
      unsupported("in");
    }
  }
  if (op === "+") {
    const strish = (x) => isStr(x) || (typeof x === "object" && x !== null && !(x instanceof Sym));
    if (strish(a) || strish(b)) return mkStr(T.concat(toStr(a), toStr(b)));
  }
  if (isBig(a) && isBig(b)) {
    const x = BI(a), y = BI(b);
    switch (op) { case "+": return mkBig(T.add(x, y)); case "-": return mkBig(T.sub(x, y)); case "*": return mkBig(T.mul(x, y)); case "%": case "/": if (y.op === "int" && y.val > 0n) { if (choose(T.ge(x, T.int(0)))) return mkBig(op === "%" ? T.imod(x, y) : T.idiv(x, y)); const n = T.neg(x); return mkBig(T.neg(op === "%" ? T.imod(n, y) : T.idiv(n, y))); } }
    unsupported("bigint " + op);
  }
  if (isBig(a) || isBig(b)) throw new TypeError("Cannot mix BigInt and other types, use explicit conversions");
  const num = (x) => isNum(x) ? x : isBool(x) ? mkNum(T.ite(B(x), T.int(1), T.int(0))) : x === undefined ? NaN : x === null ? 0 : isStr(x) ? strToNumber(S(x)) : unsupported("arith operand");
  a = num(a); b = num(b);
  if (!isEngine(a) && !isEngine(b)) return bin(op, a, b);
  if (nonfin(a) || nonfin(b)) {
    const x = typeof a === "number" ? a : b, other = typeof a === "number" ? b : a;
    if (Number.isNaN(x)) return NaN;
    if (op === "+") return x; if (op === "-") return typeof a === "number" ? x : -x;
    if (op === "/") return typeof a === "number" ? (choose(T.lt(N(b), T.int(0))) ? -x : x) : 0;
    if (op === "*") { if (choose(T.eq(N(other), T.int(0)))) return NaN; return choose(T.lt(N(other), T.int(0))) ? -x : x; }
    unsupported("non-finite arithmetic");
  }
  const x = N(a), y = N(b);
  switch (op) {
    case "+": return mkNum(T.add(x, y)); case "-": return mkNum(T.sub(x, y)); case "*": return mkNum(T.mul(x, y));
    case "/": if (choose(T.eq(y, T.int(0)))) { if (choose(T.eq(x, T.int(0)))) return NaN; return choose(T.lt(x, T.int(0))) ? -Infinity : Infinity; } return mkNum(T.rdiv(x, y));
    case "%": if (x.sort === "Int" && y.op === "int" && y.val > 0n) { if (choose(T.ge(x, T.int(0)))) return mkNum(T.imod(x, y)); return mkNum(T.neg(T.imod(T.neg(x), y))); } unsupported("%");
    // falls through
    case "**": if (typeof b === "number" && b >= 0 && b <= 4 && Number.isInteger(b)) { let r = T.int(1); for (let i = 0; i < b; i++) r = T.mul(r, x); return mkNum(r); } unsupported("**");
    // falls through
    case ">>": case ">>>": if (y.op === "int") { if (choose(T.and(T.ge(x, T.int(0)), T.lt(x, T.int(2n ** 31n))))) return mkNum(T.idiv(x, T.int(2n ** y.val))); } unsupported(op);
    // falls through
    case "<<": if (y.op === "int") { const r = T.mul(x, T.int(2n ** y.val)); if (choose(T.and(T.ge(x, T.int(0)), T.lt(r, T.int(2n ** 31n))))) return mkNum(r); } unsupported(op);
    // falls through
    case "&": { const [u, m] = y.op === "int" ? [x, y.val] : x.op === "int" ? [y, x.val] : [null, 0n]; if (u && m >= 0n && ((m + 1n) & m) === 0n && choose(T.ge(u, T.int(0)))) return mkNum(T.imod(u, T.int(m + 1n))); unsupported("&"); }
    // falls through
    case "|": if (y.op === "int" && y.val === 0n && choose(T.and(T.ge(x, T.int(-(2n ** 31n))), T.lt(x, T.int(2n ** 31n))))) return mkNum(T.floor(x)); unsupported("|");
  }
  unsupported("operator " + op);
}
export function not(a) { if (isSym(a)) return a.k === "bool" ? mkBool(T.not(a.t)) : a.k === "str" ? mkBool(T.eq(a.t, T.str(""))) : mkBool(T.eq(a.t, T.int(0))); return !a; }
function speculate(f) {
  if (P.cutDepth > 1e9) return null;
  P.spec++;
  try { return { v: f() }; } catch (e) { return null; } finally { P.spec--; }
}
let lastV, last2 = null, prevV;
const spreadMarkCheck = (x) => x;

// ---------------------------------------------------------------- native function models
const tableN = new Map();
const N_ = (f, h) => tableN.set(f, h);
const eng = (a) => a.some(isEngine);
N_(String, (t, a) => a.length === 0 ? "" : typeof a[0] === "symbol" ? String(a[0]) : mkStr(toStr(a[0])));
N_(Boolean, (t, a) => not(not(a[0])));
const toNumber = (x) => isStr(x) ? strToNumber(S(x)) : isNum(x) ? x : isBool(x) ? mkNum(T.ite(B(x), T.int(1), T.int(0))) : isBig(x) ? mkNum(BI(x)) : isEngine(x) ? unsupported("Number()") : Number(x);
N_(Number, (t, a) => a.length ? toNumber(a[0]) : 0);
N_(parseFloat, (t, a) => { if (!eng(a)) return parseFloat(...a); if (choose(inReJs(S(a[0]), "^-?[0-9]+(?:\\.[0-9]+)?$"))) return strToNumber(S(a[0])); unsupported("parseFloat"); });
const pInt = (t, a) => {
  if (!eng(a)) return parseInt(...a);
  if (a[1] !== undefined && a[1] !== 10) {
    const s0 = S(a[0]);
    if (a[1] === 16) {
      if (!choose(inReJs(s0, "^[0-9a-fA-F]+$"))) unsupported("parseInt hex");
      for (let n = 1; n <= 4; n++) if (choose(T.eq(T.len(s0), T.int(n)))) { let r = T.int(0); for (let i = 0; i < n; i++) { const c = codeAt(s0, T.int(i)); const d = T.ite(T.le(c, T.int(57)), T.sub(c, T.int(48)), T.ite(T.le(c, T.int(70)), T.sub(c, T.int(55)), T.sub(c, T.int(87)))); r = T.add(T.mul(r, T.int(16)), d); } return mkNum(r); }
    }
    unsupported("parseInt radix");
  }
  const s = isNum(a[0]) ? numToStr(N(a[0])) : toStr(a[0]);
  if (choose(inReJs(s, "^[-+]?[0-9]+$"))) return strToNumber(s);
  if (choose(inReJs(s, `^${WS}*[-+]?[0-9]`))) return strToNumber(S(reExec(new RegExp(`^${WS}*([-+]?[0-9]+)(?:[^0-9]${ANY}*)?$`), s)[1]));
  return NaN;
};
N_(parseInt, pInt); N_(Number.parseInt, pInt); N_(Number.parseFloat, tableN.get(parseFloat));
N_(Number.isInteger, (t, a) => isSym(a[0]) ? (a[0].k === "num" ? mkBool(T.isInt(a[0].t)) : false) : Number.isInteger(a[0]));
N_(Number.isSafeInteger, (t, a) => isSym(a[0]) ? (a[0].k === "num" ? mkBool(T.and(T.isInt(a[0].t), T.le(a[0].t, T.int(2n ** 53n - 1n)), T.ge(a[0].t, T.int(-(2n ** 53n) + 1n)))) : false) : Number.isSafeInteger(a[0]));
N_(Number.isNaN, (t, a) => isEngine(a[0]) ? false : Number.isNaN(a[0]));
N_(isNaN, (t, a) => isEngine(a[0]) ? (isNum(a[0]) ? false : Number.isNaN(toNumber(a[0]))) : isNaN(a[0]));
N_(Number.isFinite, (t, a) => isSym(a[0]) ? a[0].k === "num" : Number.isFinite(a[0]));
N_(isFinite, (t, a) => isSym(a[0]) ? (a[0].k === "num" ? true : unsupported("isFinite")) : isFinite(a[0]));
const mm = (name, op) => (t, a) => { if (!eng(a)) return Math[name](...a); let r = a[0]; for (const x of a.slice(1)) { if (r === Infinity || r === -Infinity || x === Infinity || x === -Infinity) { r = (name === "max") === (r === Infinity || x === Infinity) && (r === Infinity || x === Infinity) ? (name === "max" ? Infinity : (r === Infinity ? x : r)) : name === "max" ? (r === -Infinity ? x : r) : (r === Infinity ? x : x === Infinity ? r : -Infinity); continue; } r = mkNum(T.ite(B(bin(op, r, x)), N(r), N(x))); } return r; };
N_(Math.max, mm("max", ">=")); N_(Math.min, mm("min", "<="));
N_(Math.abs, (t, a) => isSym(a[0]) ? (choose(T.lt(a[0].t, T.int(0))) ? mkNum(T.neg(a[0].t)) : a[0]) : Math.abs(a[0]));
N_(Math.floor, (t, a) => isSym(a[0]) ? mkNum(T.floor(a[0].t)) : Math.floor(a[0]));
N_(Math.ceil, (t, a) => isSym(a[0]) ? mkNum(T.neg(T.floor(T.neg(a[0].t)))) : Math.ceil(a[0]));
N_(Math.trunc, (t, a) => isSym(a[0]) ? (choose(T.lt(a[0].t, T.int(0))) ? mkNum(T.neg(T.floor(T.neg(a[0].t)))) : mkNum(T.floor(a[0].t))) : Math.trunc(a[0]));
N_(Math.round, (t, a) => isSym(a[0]) ? mkNum(T.floor(T.add(a[0].t, T.rat(1n, 2n)))) : Math.round(a[0]));
N_(Array.isArray, (t, a) => a[0] instanceof SArr || Array.isArray(a[0]));
N_(Array.from, (t, a) => { let xs = a[0]; if (lazySet.has(xs)) forceSet(xs); if (isSym(xs) || xs instanceof SArr) xs = [...iterate(xs)]; else if (xs == null || typeof xs[Symbol.iterator] !== "function") xs = Array.from({ length: get(xs, "length") }, (_, i) => xs[i]); const o = []; let i = 0; for (const x of xs) o.push(a[1] ? callFn(a[1], a[2], [x, i++]) : x); return born(o); });
N_(Object.is, (t, a) => eng(a) ? eq3(a[0], a[1]) : Object.is(a[0], a[1]));
N_(Object.hasOwn, (t, a) => { if (a[0] instanceof Opaque) { if (!isEngine(a[1])) { if (a[1] in a[0].$p) return true; if (a[0].$p.$closed) return false; } unsupported("hasOwn on opaque"); } if (!eng(a)) return Object.hasOwn(a[0], a[1]); if (isSym(a[1]) && a[1].k === "str" && !isEngine(a[0])) return mkBool(T.or(...Object.getOwnPropertyNames(a[0]).map((k) => T.eq(a[1].t, T.str(k))))); unsupported("hasOwn"); });
N_(Object.prototype.hasOwnProperty, (t, a) => tableN.get(Object.hasOwn)(undefined, [t, a[0]]));
N_(BigInt, (t, a) => { if (!eng(a)) return BigInt(a[0]); const x = a[0]; if (isNum(x)) { if (!choose(T.isInt(x.t))) throw new RangeError("not an integer"); return mkBig(T.floor(x.t)); } if (isBig(x)) return x; const s = S(x); if (choose(inReJs(s, "^[0-9]+$"))) { fact(T.ge(T.toInt(s), T.int(0))); return mkBig(T.toInt(s)); } if (choose(inReJs(s, "^-[0-9]+$"))) { const m = T.substr(s, T.int(1), T.sub(T.len(s), T.int(1))); fact(T.ge(T.toInt(m), T.int(0))); return mkBig(T.neg(T.toInt(m))); } if (choose(inReJs(s, `^${WS}*$`))) return 0n; if (choose(inReJs(s, `^${WS}*([-+]?[0-9]+|0[xX][0-9a-fA-F]+|0[oO][0-7]+|0[bB][01]+)${WS}*$`))) return new Sym("big", T.app("js.BigIntOther", "Int", s)); throw new SyntaxError("Cannot convert to a BigInt"); });
N_(JSON.stringify, (t, a) => { if (isSym(a[0])) { if (a[0].k === "str") { const r = T.app("js.jsonStr", "String", a[0].t); memoFact("json" + r.id, () => { fact(T.implies(inReJs(a[0].t, "^[ !#-\\[\\]-~]*$"), T.eq(r, T.concat(T.str('"'), a[0].t, T.str('"'))))); fact(T.eq(T.app("js.unjson", "String", r), a[0].t)); }); return mkStr(r); } return mkStr(toStr(a[0])); } if (isEngine(a[0])) unsupported("JSON.stringify"); return JSON.stringify(...a); });
N_(String.fromCharCode, (t, a) => eng(a) ? mkStr(T.concat(...a.map((x) => T.fromCode(N(x))))) : String.fromCharCode(...a));
N_(String.fromCodePoint, (t, a) => eng(a) ? unsupported("fromCodePoint") : String.fromCodePoint(...a));
N_(encodeURIComponent, (t, a) => eng(a) ? unsupported("encodeURIComponent") : encodeURIComponent(...a));
for (const f of [Object.keys, Object.values, Object.entries, Object.getOwnPropertyNames, Object.getOwnPropertySymbols, Object.getPrototypeOf, Object.getOwnPropertyDescriptor, Object.getOwnPropertyDescriptors, Reflect.ownKeys, Reflect.get, Reflect.has])
  N_(f, (t, a) => {
    const o = a[0];
    if (o instanceof Opaque) {
      if (f === Object.getPrototypeOf) { return o.$p.$proto !== undefined ? o.$p.$proto : Object.prototype; }
      if (o.$p.$closed) { const c = Object.fromEntries(Reflect.ownKeys(o.$p).filter((k) => !(typeof k === "string" && k.startsWith("$"))).map((k) => [k, o.$p[k]])); return f(c, ...a.slice(1)); }
      if ((f === Object.getOwnPropertyDescriptor || f === Reflect.get || f === Reflect.has) && !isEngine(a[1]) && a[1] in o.$p) return f(o.$p, a[1]);
    }
    if (o instanceof SArr && f === Object.getPrototypeOf) return Array.prototype;
    if (isSym(o) && f === Object.getPrototypeOf) return Object(o.k === "str" ? "" : 0).__proto__;
    if (eng(a)) unsupported("reflection on symbolic value: " + f.name);
    return born(f(...a));
  });
const PARAMETRIC = new Set([Promise.resolve, Promise.reject, Object.assign, Object.freeze, Object.isFrozen, Object.defineProperty, Reflect.defineProperty, Array.of, WeakMap.prototype.set, WeakMap.prototype.get, WeakMap.prototype.has, WeakSet.prototype.add, WeakSet.prototype.has, Promise.prototype.then, Object.create, Reflect.set]);
const isNative = (f) => { let r = nativeCache.get(f); if (r === undefined) { r = Function.prototype.toString.call(f).includes("[native code]") && !f.name.startsWith("bound "); nativeCache.set(f, r); } return r; };
const nativeCache = new WeakMap();
export function callFn(f, th, args) {
  if (typeof f !== "function") { if (f instanceof Opaque && f.$p.$call) return f.$p.$call(args, th); throw new TypeError("value is not a function"); }
  const h = tableN.get(f);
  if (h) return h(th, args);
  if (isNative(f)) {
    for (const x of args) if (x instanceof SpreadMark) unsupported("symbolic spread into a native call");
    if ((eng(args) || isEngine(th)) && !PARAMETRIC.has(f)) {
      if (isArr(th) || th instanceof SArr) return arrMethod(f.name, th, args);
      if (th instanceof Map || th instanceof Set) return collMethod(f.name, th, args);
      if (isStr(th)) return strMethod(f.name, th, args);
      unsupported("native function " + f.name + " on symbolic arguments");
    }
    if (P && P.cutDepth > 0 && (f === Object.assign || f === Object.defineProperty)) frame(args[0]);
    return born(Reflect.apply(f, th, args));
  }
  return Reflect.apply(f, th, expandArgs(args));
}
function expandArgs(args) { if (!args.some((x) => x instanceof SpreadMark)) return args; return args.flatMap((x) => x instanceof SpreadMark ? [...iterArr(x.a)] : [x]); }
class ErrorSymBase extends Error {
  constructor(m, o) {
    if (isEngine(m)) { super("", o); Object.defineProperty(this, "message", { value: m, writable: true, configurable: true, enumerable: false }); } else super(m, o);
  }
}
const ErrorSym = ErrorSymBase;
const ERRORS = new Set([Error, TypeError, RangeError, SyntaxError, EvalError, ReferenceError]);

setPath(null);
// ---------------------------------------------------------------- property access
export function get(o, k) {
  if (typeof o === "object" && o !== null) {
    if (o instanceof Set && lazySet.has(o)) forceSet(o);
    if (o instanceof Sym) {
      if (o.k === "str") {
        if (k === "length") return mkNum(strLen(o.t));
        if (typeof k === "number") return charAt(o.t, k);
        if (isNum(k)) return charAt(o.t, k);
        if (k in String.prototype) return (...a) => strMethod(k, o, a);
        return undefined;
      }
      const proto = o.k === "num" ? Number.prototype : o.k === "bool" ? Boolean.prototype : BigInt.prototype;
      if (!isEngine(k) && k in proto) return (...a) => callm(o, k, a);
      return undefined;
    }
    if (o instanceof SArr) {
      if (k === "length") return mkNum(arrLen(o));
      if (isNum(k)) return arrGet(o, k);
      if (typeof k === "string" && /^\d+$/.test(k)) return arrGet(o, Number(k));
      if (k in Array.prototype) return (...a) => arrMethod(k, o, a);
      return undefined;
    }
    if (o instanceof Opaque) {
      if (isEngine(k)) unsupported("symbolic key into opaque");
      if (k in o.$p) return o.$p[k];
      if (o.$p.$closed) return k in Object.prototype ? Object.prototype[k] : undefined;
      if (o.$p.$lazy) return o.$p[k] = o.$p.$lazy(k);
      unsupported("property " + String(k) + " of opaque value " + o.$n);
    }
    if (isSym(k)) {
      if (isArr(o) && k.k === "num") { for (let i = 0; i < o.length; i++) if (choose(T.eq(k.t, T.int(i)))) return o[i]; return undefined; }
      if (k.k === "str") return getSymKey(o, k);
      unsupported("symbolic key");
    }
    return o[k];
  }
  if (isSym(k)) {
    if (typeof o === "string") { if (k.k === "num") return charAt(T.str(o), k); unsupported("string key"); }
    if (o == null) return o[""];
    if (typeof o === "function") return getSymKey(o, k);
    unsupported("symbolic key on primitive");
  }
  return o[k];
}
function getSymKey(o, k) {
  const own = Object.getOwnPropertyNames(o);
  for (const x of own) if (choose(T.eq(k.t, T.str(x)))) return o[x];
  const inh = new Set();
  for (let p = Object.getPrototypeOf(o); p; p = Object.getPrototypeOf(p)) for (const x of Object.getOwnPropertyNames(p)) if (!own.includes(x)) inh.add(x);
  if (inh.size) { const any = T.or(...[...inh].map((x) => T.eq(k.t, T.str(x)))); if (choose(any)) { for (const x of inh) if (choose(T.eq(k.t, T.str(x)))) return o[x]; prune("key"); } }
  return undefined;
}
export function set(o, k, v) {
  if (isEngine(o)) { if (o instanceof SArr && k === "length" && v === 0) { frame(o); o.segs = []; return v; } unsupported("assignment into symbolic value"); }
  if (P && P.cutDepth > 0) frame(o);
  if (isSym(k)) {
    if (isArr(o) && k.k === "num") { for (let i = 0; i < o.length; i++) if (choose(T.eq(k.t, T.int(i)))) { o[i] = v; return v; } if (choose(T.eq(k.t, T.int(o.length)))) { o[o.length] = v; return v; } unsupported("array store out of range"); }
    if (k.k === "str") { for (const x of Object.getOwnPropertyNames(o)) if (choose(T.eq(k.t, T.str(x)))) { o[x] = v; return v; } }
    unsupported("store under symbolic key");
  }
  o[k] = v;
  return v;
}
export function callm(o, k, args) {
  if (typeof o === "object" && o !== null) {
    if (o instanceof Sym) {
      if (args.some((x) => x instanceof SpreadMark)) args = expandArgs(args);
      if (o.k === "str") return strMethod(k, o, args);
      if (k === "toString") { if (args[0] !== undefined && args[0] !== 10) { if (o.k === "num" && args[0] === 16) unsupported("toString(16)"); unsupported("toString radix"); } return mkStr(toStr(o)); }
      if (k === "valueOf") return o;
      if (k === "toLocaleString" || k === "toFixed" || k === "toPrecision" || k === "toExponential") return mkStr(T.app("js.num." + k, "String", o.t));
      throw new TypeError(`${String(k)} is not a function`);
    }
    if (o instanceof SArr || isArr(o)) {
      if (args.some((x) => x instanceof SpreadMark)) {
        if (k === "push" && !(o instanceof SArr) && args.some((x) => x instanceof SpreadMark && x.a instanceof SArr && exSegs(x.a.segs).some((g) => g.s))) { frame(o); transmute(o); }
        if (k === "push" && o instanceof SArr) { frame(o); o.segs = normSegs([...o.segs, ...args.flatMap((x) => x instanceof SpreadMark ? segsOf(x.a) : [{ e: x }])]).segs; return mkNum(arrLen(o)); }
        args = expandArgs(args);
      }
      if (isSym(k)) return callFn(get(o, k), o, args);
      if (isArr(o) && Object.hasOwn(o, k)) return callFn(o[k], o, args);
      return arrMethod(k, o, args);
    }
    if (o instanceof Map || o instanceof Set) { if (typeof k !== "string" || !Object.hasOwn(o, k)) { if (o instanceof Map ? o[k] === Map.prototype[k] : o[k] === Set.prototype[k]) { if (typeof o[k] !== "function") throw new TypeError("not a function"); return collMethod(k, o, args); } } }
    if (o instanceof RegExp && eng(args)) { if (k === "test") return reTest(o, toStr(args[0])); if (k === "exec") return reExec(o, toStr(args[0])); unsupported("regex method"); }
    if (o instanceof Opaque) { const f = get(o, k); return callFn(f, o, args); }
    if (o instanceof WeakMap && isEngine(args[0]) && !(args[0] instanceof Opaque)) { if (k === "get") return undefined; if (k === "has") return false; unsupported("WeakMap with symbolic key"); }
  } else if (typeof o === "string") {
    if (args.some(isEngine) || args.some((x) => x instanceof SpreadMark)) return strMethod(k, o, expandArgs(args));
    if ((k === "replace" || k === "replaceAll") && typeof args[1] === "function") {
      // callbacks may return symbolic strings
      const parts = []; let pos = 0; const re = args[0]; let symb = false;
      o[k](re, (...m) => { const hasG = typeof m[m.length - 1] === "object"; const off = m[m.length - (hasG ? 3 : 2)]; parts.push(T.str(o.slice(pos, off))); const r = args[1](...m); parts.push(toStr(r)); pos = off + m[0].length; return ""; });
      parts.push(T.str(o.slice(pos))); return mkStr(T.concat(...parts));
    }
    return born(o[k](...args));
  } else if (typeof o === "function") {
    if (k === "call" && o.call === Function.prototype.call) return callFn(o, args[0], args.slice(1));
    if (k === "apply" && o.apply === Function.prototype.apply) { const l = args[1]; return callFn(o, args[0], l == null ? [] : l instanceof SArr ? [...iterArr(l)] : [...l]); }
    if (o === Array && k === "from") return callFn(Array.from, Array, args);
  }
  const f = isSym(k) ? get(o, k) : o[k];
  if (typeof f !== "function") { if (f instanceof Opaque) return callFn(f, o, args); throw new TypeError(`${String(k)} is not a function`); }
  return callFn(f, o, args);
}
export function construct(C, args) {
  args = expandArgs(args);
  if (C === Set || C === Map) {
    const src = args[0]; const o = born(new C());
    if (src == null) return o;
    if (src instanceof SArr && C === Set && seqTerm(src)) { lazySet.set(o, seqTerm(src)); return o; }
    if (src instanceof SArr && C === Set) { for (const x of iterArr(src)) collMethod("add", o, [x]); return o; }
    if (lazySet.has(src)) forceSet(src);
    for (const x of src) { if (C === Set) collMethod("add", o, [x]); else collMethod("set", o, [x[0], x[1]]); }
    return o;
  }
  if (eng(args)) {
    if (ERRORS.has(C)) { const e = new C("", isEngine(args[1]) ? undefined : args[1]); Object.defineProperty(e, "message", { value: args[0], writable: true, configurable: true, enumerable: false }); return born(e); }
    if (C === Array && args.length === 1 && isSym(args[0]) && args[0].k === "num") { for (let k = 0; k <= 16; k++) if (choose(T.eq(N(args[0]), T.int(k)))) return new Array(k); }
    if (C === URL || C === Date || C === RegExp || C === Array || (isNative(C) && C !== Promise && C !== Proxy)) unsupported("new " + C.name + " on symbolic arguments");
  }
  if (C.name === "ZodError" && Array.isArray(args[0])) { const e = Object.create(C.prototype); Object.defineProperty(e, "issues", { value: args[0], enumerable: false, configurable: true, writable: true }); return born(e); } // the library's own constructor writes its issues out as text
  return born(Reflect.construct(C, args));
}

// ---------------------------------------------------------------- loops
class LoopCtl {
  constructor(id, line, acc) { this.id = id; this.acc = acc; this.n = 0; this.sym = 0; this.f0 = 0; this.start = P.nforks; this.cut = P.store.cut.has(id); }
  head(acc) {
    if (acc) this.acc = acc;
    if (this.cut) return this.cutHead();
    this.f0 = P.nforks; return true;
  }
  enter() {
    if (this.cut) { if (this.st === 2) prune("loop exit branch"); this.inBody = true; return true; }
    this.n++;
    if (P.nforks !== this.f0) this.sym++;
    if (this.sym > cfg.unrollLimit || (this.n > cfg.loopFuel && P.nforks > this.start)) loopLimit(this.id);
    if (this.n > 200000) unsupported("loop fuel");
    return true;
  }
  exit() { if (this.cut && this.st === 1 && !this.broke) { /* left by a failing condition or by break */ if (!this.inBody) prune("loop iterate branch"); } if (this.cut) { this.leave(); } }
  leave() { if (this.in) { this.in = false; P.cutDepth--; P.born = this.savedBorn; } }
  done() { this.leave(); }
  headDo() { // do-while: the head is the start of the body
    if (this.cut) { this.cutHead(true); this.inBody = true; return; }
    this.n++;
    if (this.n > 1 && P.nforks !== this.f0) this.sym++;
    if (this.sym > cfg.unrollLimit || (this.n > cfg.loopFuel && P.nforks > this.start)) loopLimit(this.id);
    this.f0 = P.nforks;
  }
  cutHead(doWhile) {
    if (!this.st) {
      const key = this.id;
      this.vars = this.acc().map(([name, g, s]) => ({ name, g, s, init: g() }));
      const inst = P.store; 
      this.pcMark = P.pc.length;
      for (const v of this.vars) havoc(this, v);
      this.invs = candidates(this);
      for (const c of this.invs) { const t = c.term(); if (t !== T.TRUE) { addPc(t); } }
      this.inMark = P.pc.length; this.trailKey = key + "@" + P.trail.slice(0, P.pos).map((d) => d === true ? "t" : d === false ? "f" : d).join("");
      this.st = doWhile || pick(2) === 0 ? 1 : 2;
      if (this.st === 1) { P.cutDepth++; this.in = true; this.savedBorn = P.born; P.born = new WeakSet(); }
      else summary(this);
      this.inBody = false;
      return true;
    }
    // back edge: the loop state must be an instance of the template and the invariants preserved; then this path ends
    for (const v of this.vars) {
      const val = v.g(); const key = this.id + "/" + v.name;
      const tm = P.store.kinds.get(key);
      if (!covers(tm, val, v.init)) { if (process.env.VERIF_DEBUG_LOOP) console.error("loop shape", key, JSON.stringify(absT(val, v.init)), JSON.stringify(tm)); P.store.kinds.set(key, joinT(tm, absT(val, v.init))); const c = new Control("restart"); P.abort(c); throw c; }
    }
    for (const c of this.invs) {
      const t = c.termNow();
      if (t === T.TRUE) continue;
      if (t === null || !provable(t)) { P.store.dead.add(c.key); const r = new Control("restart"); P.abort(r); throw r; }
    }
    record(this);
    const c = new Control("cut"); P.abort(c); throw c;
  }
}
// structural templates for loop state (joined over the observed iterations until they cover the back edge)
const isPlain = (v) => { const p = Object.getPrototypeOf(v); return p === Object.prototype || p === null; };
const strArr = (v) => v instanceof SArr ? seqTerm(v) !== null : isArr(v) && v.every(isStr);
// "same" marks a component that is the very object the loop started with (identities do not survive from path to path).
function absT(v, init, depth = 0) {
  if (isSym(v)) return { t: "sym", k: v.k, sort: v.t.sort };
  if (v instanceof SArr) { if (seqTerm(v)) return { t: "seq" }; unsupported("mixed symbolic array as loop state"); }
  if (v instanceof Opaque) return { t: "opq", same: v === init, closed: v.$p.$closed === true };
  const same = v === init; const sub = (k) => typeof init === "object" && init !== null && !isEngine(init) && Object.hasOwn(init, k) && !Object.getOwnPropertyDescriptor(init, k).get ? init[k] : undefined;
  if (isArr(v) && depth < 5) return { t: "arr", same, a: v.map((x, i) => absT(x, sub(i), depth + 1)), str: strArr(v) };
  if (typeof v === "object" && v !== null && isPlain(v) && depth < 5) return { t: "obj", same, proto: Object.getPrototypeOf(v), f: new Map(Reflect.ownKeys(v).map((k) => [k, Object.getOwnPropertyDescriptor(v, k).get ? { t: "ref", same: true } : absT(v[k], sub(k), depth + 1)])) };
  if ((typeof v === "object" && v !== null) || typeof v === "function" || typeof v === "symbol") return { t: "ref", same, v: same ? undefined : typeof v === "symbol" ? v : undefined };
  return { t: "const", v };
}
const primKind = (n) => n.t === "sym" ? n.k : n.t === "const" ? ({ string: "str", number: "num", boolean: "bool", bigint: "big" })[typeof n.v] : null;
function joinT(a, b) {
  if (a.t === "union") { for (let i = 0; i < a.alts.length; i++) { const j = tryJoin(a.alts[i], b); if (j) { const alts = a.alts.slice(); alts[i] = j; return { t: "union", alts }; } } if (a.alts.length >= 5) unsupported("loop state has too many shapes"); return { t: "union", alts: [...a.alts, b] }; }
  if (b.t === "union") return b.alts.reduce(joinT, a);
  return tryJoin(a, b) ?? { t: "union", alts: [a, b] };
}
function tryJoin(a, b) {
  if (a.t === "union" || b.t === "union") return joinT(a, b);
  if (a.t === "const" && b.t === "const" && Object.is(a.v, b.v)) return a;
  const ka = primKind(a), kb = primKind(b);
  if (ka && ka === kb) {
    if (a.t === "const" && nonfin(a.v) || b.t === "const" && nonfin(b.v)) return null;
    const sort = ka === "str" ? "String" : ka === "bool" ? "Bool" : ka === "big" ? "Int" : [a, b].every((n) => n.t === "sym" ? n.sort === "Int" : Number.isInteger(n.v)) ? "Int" : "Real";
    return { t: "sym", k: ka, sort };
  }
  if (a.t === "opq" && b.t === "opq") return { t: "opq", same: a.same && b.same, closed: a.closed && b.closed };
  if (a.t === "ref" && b.t === "ref" && ((a.same && b.same) || (a.v !== undefined && a.v === b.v))) return a;
  const sa = a.t === "seq" || (a.t === "arr" && a.str), sb = b.t === "seq" || (b.t === "arr" && b.str);
  if (a.t === "arr" && b.t === "arr" && a.a.length === b.a.length) { const j = a.a.map((x, i) => joinT(x, b.a[i])); return { t: "arr", same: a.same && b.same, a: j, str: a.str && b.str }; }
  if (sa && sb) return { t: "seq" };
  if (a.t === "obj" && b.t === "obj" && a.proto === b.proto && a.f.size === b.f.size && [...a.f.keys()].every((k) => b.f.has(k))) {
    const f = new Map(); for (const [k, x] of a.f) f.set(k, joinT(x, b.f.get(k)));
    return { t: "obj", same: a.same && b.same, proto: a.proto, f };
  }
  return null;
}
function covers(n, v, init) {
  const sub = (k) => typeof init === "object" && init !== null && !isEngine(init) && Object.hasOwn(init, k) ? init[k] : undefined;
  switch (n.t) {
    case "union": return n.alts.some((x) => covers(x, v, init));
    case "const": return Object.is(n.v, v);
    case "ref": return n.same ? v === init : n.v !== undefined && v === n.v;
    case "sym": { const k = primKind(isSym(v) ? { t: "sym", k: v.k } : { t: "const", v }); if (k !== n.k) return false; if (k === "num") { if (nonfin(v)) return false; if (n.sort === "Int") return isSym(v) ? v.t.sort === "Int" : Number.isInteger(v); } return true; }
    case "seq": return (v instanceof SArr || isArr(v)) && strArr(v);
    case "opq": return v instanceof Opaque && (v === init || !n.same) && (!n.closed || v.$p.$closed === true);
    case "arr": return n.same ? v === init : isArr(v) && v.length === n.a.length && n.a.every((x, i) => covers(x, v[i], sub(i)));
    case "obj": return n.same ? v === init : typeof v === "object" && v !== null && !isEngine(v) && !isArr(v) && Object.getPrototypeOf(v) === n.proto && Reflect.ownKeys(v).length === n.f.size && Reflect.ownKeys(v).every((k) => n.f.has(k) && covers(n.f.get(k), v[k], sub(k)));
  }
}
function instT(n, nm, init) {
  const sub = (k) => typeof init === "object" && init !== null && !isEngine(init) && Object.hasOwn(init, k) ? init[k] : undefined;
  switch (n.t) {
    case "union": return instT(n.alts[pick(n.alts.length)], nm, init);
    case "const": return n.v;
    case "ref": return n.same ? init : n.v;
    case "sym": { const t = fresh(nm, n.sort); return new Sym(n.k, t); }
    case "seq": { const t = fresh(nm, T.SEQ); sLen(t); return mkArr([{ s: t }]); }
    case "opq": if (n.same) return init; { const x = P.name(nm); return new Opaque(x, T.v(x, "V"), n.closed ? Object.assign(Object.create(null), { $closed: true }) : undefined); }
    case "arr": if (n.same) return init; { const o = n.a.map((x, i) => instT(x, nm + "." + i, sub(i))); instd.add(o); return o; }
    case "obj": if (n.same) return init; { const o = Object.create(n.proto); for (const [k, x] of n.f) o[k] = instT(x, nm + "." + String(k), sub(k)); instd.add(o); return o; }
  }
}
const instd = new WeakSet();
function havoc(ctl, v) {
  const key = ctl.id + "/" + v.name;
  let tm = P.store.kinds.get(key); const it = absT(v.init, v.init);
  if (!tm) P.store.kinds.set(key, tm = it); else if (!covers(tm, v.init, v.init)) P.store.kinds.set(key, tm = joinT(tm, it));
  const val = instT(tm, "loop." + v.name, v.init);
  v.s(val); v.hv = val;
  if (isSym(val)) { v.h = val.t; v.kd = val.k === "num" ? (val.t.sort === "Int" ? "int" : "real") : val.k; } else { v.h = null; v.kd = null; }
}
const initKind = (x) => isSym(x) ? (x.k === "num" ? (x.t.sort === "Int" ? "int" : "real") : x.k) : typeof x === "number" ? (Number.isInteger(x) ? "int" : null) : ({ string: "str", boolean: "bool", bigint: "big" })[typeof x] ?? null;
function candidates(ctl) {
  const out = [];
  for (const v of ctl.vars) {
    const initK = initKind(v.init);
    if (v.kd === "int" && initK === "int") {
      const i0 = N(v.init);
      const mk = (key, f) => { const k = ctl.id + "/" + v.name + ":" + key; if (P.store.dead.has(k)) return; out.push({ key: k, term: () => f(v.h), termNow: () => { const x = v.g(); return isNum(x) && !nonfin(x) ? f(N(x)) : null; } }); };
      mk(">=init", (x) => T.ge(x, i0)); mk("<=init", (x) => T.le(x, i0));
      mk(">=0", (x) => T.ge(x, T.int(0)));
      let n = 0;
      for (const L of P.lens.values()) { if (n++ > 4) break; if (provable(T.le(i0, L))) mk("<=len" + n, (x) => T.le(x, L)); }
      if (!provable(T.ge(i0, T.int(0)))) P.store.dead.add(ctl.id + "/" + v.name + ":>=0");
    }
    if ((v.kd === "bool" && initK === "bool") || (v.kd === "str" && initK === "str")) {
      const k = ctl.id + "/" + v.name + ":=init"; const it = v.kd === "bool" ? B(v.init) : S(v.init);
      if (!P.store.dead.has(k)) out.push({ key: k, term: () => T.eq(v.h, it), termNow: () => { const x = v.g(); return initKind(x) === v.kd ? T.eq(v.kd === "bool" ? B(x) : S(x), it) : null; } });
    }
  }
  // equalities between sequence components of the loop state that hold on entry
  const leaves = [];
  for (const v of ctl.vars) walkLeaves(v.init, v.hv, [], (path, a, b) => leaves.push({ v, path, a, b }));
  for (let i = 0; i < leaves.length; i++) for (let j = i + 1; j < leaves.length; j++) {
    const x = leaves[i], y = leaves[j]; if (x.a !== y.a || x.b === y.b || x.a.sort !== y.a.sort) continue;
    const k = ctl.id + "/" + [x, y].map((l) => l.v.name + "." + l.path.map(String).join(".")).join("==");
    const at = (l) => { let o = l.v.g(); for (const p of l.path) { if (typeof o !== "object" || o === null || isEngine(o)) return null; o = o[p]; } return o instanceof SArr || isArr(o) ? seqTerm(o) : initKind(o) === "bool" ? B(o) : initKind(o) === "str" ? S(o) : null; };
    out.push({ key: k, term: () => T.eq(x.b, y.b), termNow: () => { const p = at(x), q = at(y); return p && q ? T.eq(p, q) : null; } });
  }
  return out.filter((c) => !P.store.dead.has(c.key));
}
function walkLeaves(a, b, path, f) {
  if (isSym(b) && (b.k === "bool" || b.k === "str") && initKind(a) === b.k) { f(path, b.k === "bool" ? B(a) : S(a), b.t); return; }
  if (b instanceof SArr) { const p = a instanceof SArr || isArr(a) ? seqTerm(a) : null, q = seqTerm(b); if (p && q) f(path, p, q); return; }
  if (path.length < 5 && typeof a === "object" && a !== null && !isEngine(a) && typeof b === "object" && b !== null && !isEngine(b) && a !== b) for (const k of Reflect.ownKeys(a)) { if (!Object.hasOwn(b, k) || Object.getOwnPropertyDescriptor(a, k).get) continue; walkLeaves(a[k], b[k], [...path, k], f); }
}
// What a callback says about an arbitrary element k of a, as a formula in k (null when it does not reduce to one).
function generic(a, f) {
  if (!(a instanceof SArr) || P.aborted) return null;
  const t = seqTerm(a); if (!t) return null;
  const k = T.v(P.name("ei"), "Int"); const n = P.pc.length; const saved = new Set(P.pcset);
  addPc(T.ge(k, T.int(0))); addPc(T.lt(k, T.seqLen(t)));
  P.spec++; P.proving = (P.proving ?? 0) + 1; const arm = P.cutDepth;
  try { const r = callFn(f, undefined, [mkStr(T.seqNth(t, k)), mkNum(k), a]); if (typeof r !== "boolean" && !(isSym(r) && r.k === "bool")) return null; return { k, t, phi: B(r) }; } catch { return null; } finally { P.spec--; P.proving--; P.pc.length = n; P.pcset = saved; }
}
function quantified(a, f, all) { // a.every(f) / a.some(f) over every element, whatever the length
  const g = generic(a, f); if (!g) return null;
  const phi = all ? g.phi : T.not(g.phi);
  // element-wise equality of two sequences
  if (phi.op === "=" && phi.args.every((x) => x.op === "seq.nth" && x.args[1] === g.k)) {
    const o = phi.args.map((x) => x.args[0]).find((x) => x !== g.t) ?? g.t;
    const r = provable(T.eq(T.seqLen(o), T.seqLen(g.t))) ? T.eq(o, g.t) : T.seqPrefixOf(g.t, o);
    return mkBool(all ? r : T.not(r));
  }
  if (phi === T.TRUE) return all; 
  const L = T.seqLen(g.t);
  const key = "q" + phi.id; let q = P.memo.get(key);
  if (!q) { q = T.v(P.name("every"), "Bool"); P.memo.set(key, q); }
  if (choose(q)) { P.foralls.push({ lo: T.int(0), hi: L, f: (j) => subst(phi, g.k, j) }); return all; }
  const w = T.v(P.name("wit"), "Int"); fact(T.and(T.ge(w, T.int(0)), T.lt(w, L))); P.idx.push(w);
  const bad = T.not(subst(phi, g.k, w)); if (P.fresh && !feasible(bad)) prune("no counterexample element"); addPc(bad);
  return !all;
}
export function provable(t) {
  if (t === T.TRUE) return true; if (t === T.FALSE) return false;
  if (P.pcset.has(t.id)) return true;
  const nt = T.not(t); const inst = instances();
  const rel = slice([nt], [...P.pc, ...inst]);
  const key = "P" + [...rel.map((x) => x.id).sort((a, b) => a - b), "|", nt.id].join(",");
  let st = qcache.get(key);
  if (st === undefined) st = decide([...rel, nt]);
  if (st === undefined) { const all = reduce([...rel, nt]); st = quickCheck(T.script(all), 500).status; if (st === "unknown") st = fullCheck(T.script(all), 3000, ["z3", "cvc5"], T.script(all, "", { re: true })).status; qcache.set(key, st); }
  return st === "unsat";
}
function record(ctl) { // remember under which condition an arbitrary iteration completes normally
  const idxv = ctl.vars.find((v) => v.kd === "int" && (() => { const x = v.g(); return isNum(x) && !nonfin(x) && N(x) === T.add(v.h, T.int(1)); })());
  const suffix = P.pc.slice(ctl.inMark);
  const others = new Set(ctl.vars.filter((v) => v !== idxv && v.h).map((v) => v.h.val));
  const e = { idx: idxv ? idxv.name : null, hv: idxv?.h, conj: suffix.filter((t) => { const n = T.collect([t]); for (const x of n) if (others.has(x) || ctl.freshNames?.has(x)) return false; return true; }), pre: new Set(T.collect(P.pc.slice(0, ctl.inMark))) };
  // conjuncts mentioning names introduced inside the iteration are dropped (weaker, sound)
  const allowed = new Set([...e.pre, e.hv ? e.hv.val : ""]);
  e.conj = e.conj.filter((t) => { for (const x of T.collect([t])) { const d = T.decls.get(x); if (d.args.length === 0 && !allowed.has(x) && /[!]|^(re|split|loop)\b/.test(x)) return false; } return true; });
  const l = P.store.norm.get(ctl.trailKey) ?? []; l.push(e); P.store.norm.set(ctl.trailKey, l);
}
function summary(ctl) {
  const l = P.store.norm.get(ctl.trailKey) ?? [];
  const iv = ctl.vars.find((v) => v.kd === "int" && l.length > 0 && l.every((e) => e.idx === v.name));
  if (!iv && l.length > 0) return;
  if (l.length === 0) return; // no iteration completes normally: the loop body always exits; nothing to add
  const lo = N(iv.init), hi = iv.h;
  const bodyOf = (j) => T.or(...l.map((e) => T.and(...e.conj.map((t) => subst(t, e.hv, j)))));
  P.foralls.push({ lo, hi, f: bodyOf });
}
export function subst(t, from, to, memo = new Map()) {
  if (t === from) return to;
  if (t.args.length === 0) return t;
  if (memo.has(t.id)) return memo.get(t.id);
  const as = t.args.map((x) => subst(x, from, to, memo));
  const r = as.every((x, i) => x === t.args[i]) ? t : T.rebuild(t, as);
  memo.set(t.id, r); return r;
}
export function instances() {
  const out = [];
  if (!P.foralls.length) return out;
  for (const fa of P.foralls) for (const j of P.idx) out.push(T.implies(T.and(T.le(fa.lo, j), T.lt(j, fa.hi)), fa.f(j)));
  return out.filter((t) => t !== T.TRUE);
}
function* cutIter(x, ctl) { // for-of over a symbolic array/string under a cut
  const seq = isSym(x) ? x.t : seqTerm(x);
  if (!seq) unsupported("cut loop over mixed array");
  const isS = isSym(x);
  let k = 0;
  const L = isS ? strLen(seq) : sLen(seq);
  const c = new LoopCtl(ctl.id, 0, null); c.cut = true;
  c.acc = () => [["$k", () => k, (v) => { k = v; }], ...ctl.acc()];
  try { for (;;) {
    c.head();
    const kt = N(k);
    const more = choose(T.lt(kt, L));
    if (c.st === 1 && !more) prune("loop iterate branch");
    if (c.st === 2 && more) prune("loop exit branch");
    if (!more) break;
    c.inBody = true;
    if (isS) {
      const cp = strMethod("codePointAt", x, [k]); const two = isSym(cp) ? cp.t.op === "+" : cp > 0xffff;
      if (two) unsupported("surrogate pair under a loop cut");
      yield mkStr(T.at(seq, kt));
    } else yield mkStr(T.seqNth(seq, kt));
    k = mkNum(T.add(N(k), T.int(1)));
  } } finally { c.leave(); }
}

// ---------------------------------------------------------------- the $$ object
export const $$ = {
  get, set, callm, bin, truthy, not, b: born,
  call(f, args) { return callFn(f, undefined, args); },
  call2([f, th], args) { return callFn(f, th, args); },
  new: construct,
  sp(x) { if (x instanceof SArr) return new SpreadMark(x); if (x instanceof Set && lazySet.has(x)) return new SpreadMark(mkArr([{ s: dedup(lazySet.get(x)) }])); if (isSym(x)) return { $s: [...iterate(x)] }; return { $s: x }; },
  arr(list) {
    const segs = [];
    for (const x of list) { if (x instanceof SpreadMark) segs.push(...segsOf(x.a)); else if (x !== null && typeof x === "object" && !isEngine(x) && Object.hasOwn(x, "$s")) { for (const y of x.$s) segs.push({ e: y }); } else segs.push({ e: x }); }
    return mkArr(segs);
  },
  spreadArgs(list) { const out = []; for (const x of list) { if (x !== null && typeof x === "object" && !isEngine(x) && !(x instanceof SpreadMark) && Object.hasOwn(x, "$s")) out.push(...x.$s); else out.push(x); } return out; },
  ospread(x) { if (x instanceof Opaque) { if (x.$p.$closed) return Object.fromEntries(Reflect.ownKeys(x.$p).filter((k) => !(typeof k === "string" && k.startsWith("$"))).map((k) => [k, x.$p[k]])); unsupported("spread of opaque " + x.$n); } if (isEngine(x)) { if (isSym(x) && x.k !== "str") return {}; unsupported("object spread of symbolic value"); } return x; },
  plainObj(x) { if (x instanceof Opaque) { if (x.$p.$closed) return x.$p; return x.$p; } if (isEngine(x)) unsupported("destructuring of symbolic value"); return x; },
  destr(x, n, rest) { if (x instanceof SArr || isSym(x)) { if (rest && x instanceof SArr) { return { [Symbol.iterator]: function* () { for (let i = 0; i < n - 1; i++) yield get(x, i); throw unsupported("array rest of symbolic array"); } }; } return { [Symbol.iterator]: function* () { for (let i = 0; i < n; i++) yield get(x, i); } }; } return x; },
  key(k) { if (isEngine(k)) unsupported("computed key"); return k; },
  tpl(parts) { let r = []; let sym = false; for (const p of parts) { if (typeof p === "string") r.push(T.str(p)); else if (typeof p === "symbol") throw new TypeError("Cannot convert a Symbol value to a string"); else r.push(toStr(p)); } return mkStr(T.concat(...r)); },
  tst(a) { const r = truthy(a); lastV = a; return r; },
  nn(a) { lastV = a; return a !== undefined && a !== null; },
  last() { const v = lastV; lastV = undefined; return v; },
  optm(o, k) { const f = get(o, k); if (f === undefined || f === null) return false; last2 = [f, o]; return true; },
  last2() { const v = last2; last2 = null; return v; },
  land(a, fb) {
    if (isSym(a) && a.k === "bool") { const r = speculate(fb); if (r && (typeof r.v === "boolean" || (isSym(r.v) && r.v.k === "bool"))) return mkBool(T.and(a.t, B(r.v))); return choose(a.t) ? fb() : false; }
    return truthy(a) ? fb() : (isSym(a) ? (a.k === "str" ? "" : a.k === "num" ? 0 : a.k === "big" ? 0n : false) : a);
  },
  lor(a, fb) {
    if (isSym(a) && a.k === "bool") { const r = speculate(fb); if (r && (typeof r.v === "boolean" || (isSym(r.v) && r.v.k === "bool"))) return mkBool(T.or(a.t, B(r.v))); return choose(a.t) ? true : fb(); }
    return truthy(a) ? a : fb();
  },
  ite(c, fa, fb) {
    if (isSym(c) && c.k === "bool") {
      const x = speculate(fa), y = x && speculate(fb);
      if (x && y) {
        const u = x.v, w = y.v;
        if (u === w) return u;
        if (isBool(u) && isBool(w)) return mkBool(T.ite(c.t, B(u), B(w)));
        if (isStr(u) && isStr(w) && (isSym(u) || isSym(w))) return mkStr(T.ite(c.t, S(u), S(w)));
        if (isNum(u) && isNum(w) && !nonfin(u) && !nonfin(w)) return mkNum(T.ite(c.t, N(u), N(w)));
      }
    }
    return truthy(c) ? fa() : fb();
  },
  un(op, a) {
    if (!isEngine(a)) { switch (op) { case "-": return -a; case "+": return +a; case "~": return ~a; } }
    if (op === "+") return toNumber(a);
    if (op === "-") { if (isBig(a)) return mkBig(T.neg(a.t)); const n = toNumber(a); return isSym(n) ? mkNum(T.neg(n.t)) : -n; }
    unsupported("unary " + op);
  },
  typeof(x) { return isEngine(x) ? (x instanceof Opaque && x.$p.$call ? "function" : kindOf(x)) : typeof x; },
  inc(x, d) { prevV = x; if (!isEngine(x)) return typeof x === "bigint" ? x + BigInt(d) : x + d; return isBig(x) ? mkBig(T.add(x.t, T.int(d))) : bin("+", x, d); },
  prev() { return prevV; },
  upd(o, k, d, prefix) { const old = get(o, k); const nv = $$.inc(old, d); set(o, k, nv); return prefix ? nv : old; },
  setop(o, k, op, v) { return set(o, k, bin(op, get(o, k), v)); },
  del(o, k) { frame(o); if (isEngine(o) || isEngine(k)) unsupported("delete"); return delete o[k]; },
  sw(x, cases) { for (let i = 0; i < cases.length; i++) if (truthy(eq3(x, cases[i]()))) return i; return -1; },
  iter(x, id, line, acc) {
    if (x instanceof Set && lazySet.has(x)) forceSet(x);
    if (x instanceof SArr || (isSym(x) && x.k === "str")) {
      if (id && P.store.cut.has(id)) return cutIter(x, { id, acc: acc ?? (() => []) });
      return x instanceof SArr ? iterArr(x, { id }) : iterStr(x.t, { id });
    }
    if (isEngine(x)) throw new TypeError("value is not iterable");
    return x;
  },
  loop(id, line, acc) { return new LoopCtl(id, line, acc); },
  caught(e) { if (P?.aborted) throw P.aborted; if (e instanceof Control) throw e; },
  enterN(name) { if (P) P.called.add(name); },
  enter(name, args) {
    if (!P) return null;
    P.called.add(name);
    const m = P.models?.get(name);
    if (m && !P.inModel.has(name)) { return { v: m(...args) }; }
    return null;
  },
};
globalThis.$$ = $$;
