// Hash-consed first-order terms with light simplification and SMT-LIB output.
const table = new Map();
let nextId = 1;
export const decls = new Map(); // name -> {args:[sorts], ret:sort}

export class Term {
  constructor(op, args, sort, val) {
    this.op = op; this.args = args; this.sort = sort; this.val = val; this.id = nextId++;
  }
}
function mk(op, args, sort, val) {
  let key = op + "|" + sort + "|";
  for (const a of args) key += a.id + ",";
  if (val !== undefined) key += "#" + (typeof val === "object" ? JSON.stringify(val, (k, v) => typeof v === "bigint" ? v + "n" : v) : typeof val + ":" + String(val));
  let t = table.get(key);
  if (!t) { t = new Term(op, args, sort, val); table.set(key, t); }
  return t;
}
export const TRUE = mk("true", [], "Bool");
export const FALSE = mk("false", [], "Bool");
export const bool = (b) => b ? TRUE : FALSE;
export function int(n) { return mk("int", [], "Int", BigInt(n)); }
function gcd(a, b) { a = a < 0n ? -a : a; b = b < 0n ? -b : b; while (b) [a, b] = [b, a % b]; return a; }
export function rat(n, d) {
  if (d < 0n) { n = -n; d = -d; }
  const g = gcd(n, d) || 1n;
  return mk("rat", [], "Real", { n: n / g, d: d / g });
}
export function realOf(x) { // finite double -> exact rational
  if (typeof x === "bigint") return rat(x, 1n);
  if (Number.isInteger(x)) return rat(BigInt(x), 1n);
  let d = 1n; let y = x;
  while (!Number.isInteger(y)) { y *= 2; d *= 2n; }
  return rat(BigInt(y), d);
}
export function str(s) { return mk("str", [], "String", s); }
export function v(name, sort) {
  const d = decls.get(name);
  if (!d) decls.set(name, { args: [], ret: sort });
  else if (d.ret !== sort) return v(name + "@" + sort.replace(/[^A-Za-z]/g, ""), sort); // one name per sort
  return mk("var", [], sort, name);
}
export function app(name, ret, ...args) {
  const d = decls.get(name);
  const sig = args.map((a) => a.sort);
  if (!d) decls.set(name, { args: sig, ret });
  else if (d.args.join() !== sig.join() || d.ret !== ret) throw new Error("UF sort clash " + name + ": " + sig + " vs " + d.args + " ret " + ret + "/" + d.ret);
  return mk("app", args, ret, name);
}
export const isConst = (t) => t.op === "int" || t.op === "rat" || t.op === "str" || t.op === "true" || t.op === "false";
const cmpRat = (a, b) => { const A = asRat(a), B = asRat(b); const l = A.n * B.d, r = B.n * A.d; return l < r ? -1 : l > r ? 1 : 0; };
function asRat(t) { return t.op === "int" ? { n: t.val, d: 1n } : t.val; }
const isNum = (t) => t.op === "int" || t.op === "rat";

export function not(a) {
  if (a === TRUE) return FALSE; if (a === FALSE) return TRUE;
  if (a.op === "not") return a.args[0];
  return mk("not", [a], "Bool");
}
export function and(...as) {
  const out = []; const seen = new Set();
  for (const a of as.flat()) {
    if (a === TRUE) continue; if (a === FALSE) return FALSE;
    const parts = a.op === "and" ? a.args : [a];
    for (const p of parts) { if (seen.has(p.id)) continue; seen.add(p.id); out.push(p); }
  }
  for (const p of out) if (seen.has(not(p).id)) return FALSE;
  if (out.length === 0) return TRUE; if (out.length === 1) return out[0];
  return mk("and", out, "Bool");
}
export function or(...as) {
  const out = []; const seen = new Set();
  for (const a of as.flat()) {
    if (a === FALSE) continue; if (a === TRUE) return TRUE;
    const parts = a.op === "or" ? a.args : [a];
    for (const p of parts) { if (seen.has(p.id)) continue; seen.add(p.id); out.push(p); }
  }
  for (const p of out) if (seen.has(not(p).id)) return TRUE;
  if (out.length === 0) return FALSE; if (out.length === 1) return out[0];
  return mk("or", out, "Bool");
}
export const implies = (a, b) => or(not(a), b);
export function ite(c, a, b) {
  if (c === TRUE) return a; if (c === FALSE) return b; if (a === b) return a;
  if (a.sort !== b.sort) [a, b] = unifyNum(a, b);
  if (a.sort === "Bool") {
    if (a === TRUE) return or(c, b); if (a === FALSE) return and(not(c), b);
    if (b === TRUE) return or(not(c), a); if (b === FALSE) return and(c, a);
  }
  return mk("ite", [c, a, b], a.sort);
}
export function toReal(a) {
  if (a.sort === "Real") return a;
  if (a.op === "int") return rat(a.val, 1n);
  return mk("to_real", [a], "Real");
}
export function unifyNum(a, b) {
  if (a.sort === b.sort) return [a, b];
  if ((a.sort === "Int" || a.sort === "Real") && (b.sort === "Int" || b.sort === "Real")) return [toReal(a), toReal(b)];
  throw new Error("sort mismatch " + a.sort + " " + b.sort);
}
export function eq(a, b) {
  if (a === b) return TRUE;
  if (a.sort !== b.sort) [a, b] = unifyNum(a, b);
  if (a === b) return TRUE;
  if (a.sort === "Bool") {
    if (a === TRUE) return b; if (b === TRUE) return a; if (a === FALSE) return not(b); if (b === FALSE) return not(a);
  }
  if (isConst(a) && isConst(b)) {
    if (isNum(a)) return bool(cmpRat(a, b) === 0);
    return FALSE;
  }
  if (a.sort === "String") {
    // quick disequality on concat with constant prefix/suffix
    const pa = constPrefix(a), pb = constPrefix(b);
    const m = Math.min(pa.length, pb.length);
    if (pa.slice(0, m) !== pb.slice(0, m)) return FALSE;
    const sa = constSuffix(a), sb = constSuffix(b);
    const k = Math.min(sa.length, sb.length);
    if (k > 0 && sa.slice(sa.length - k) !== sb.slice(sb.length - k)) return FALSE;
    if (b.op === "str" && minLen(a) > b.val.length) return FALSE;
    // a numeral of a natural number ends at the first non-digit
    const ca = constPrefix(a), cb = constPrefix(b);
    if (ca && cb && a.op === "str.++" && b.op === "str.++" && m > 0) { const strip = (t) => concat(str(t.args[0].val.slice(m)), ...t.args.slice(1)); return eq(strip(a), strip(b)); }
    const na = numeral(a), nb = numeral(b);
    if (na && nb) { // length-prefixed pieces: c1 A R1 = c2 B R2 with |A| = |B| and |c1| = |c2| falls apart
      const pa2 = prefixed(na), pb2 = prefixed(nb);
      if (pa2 && pb2 && pa2.off === pb2.off && pa2.head.length === pb2.head.length) return and(bool(pa2.head === pb2.head), eq(pa2.body, pb2.body), eq(pa2.rest, pb2.rest));
      if (pa2 && pb2 && pa2.off === pb2.off && pa2.head.slice(0, Math.min(pa2.head.length, pb2.head.length)) !== pb2.head.slice(0, Math.min(pa2.head.length, pb2.head.length))) return FALSE;
    }
    if (na && nb) return and(eqNat(na[0], nb[0]), eq(na[1], nb[1]));
    if (a.op === "str" && minLen(b) > a.val.length) return FALSE;
  }
  if (a.sort === SEQ) {
    let x = a.op === "seq.++" ? [...a.args] : a.op === "seq.empty" ? [] : [a], y = b.op === "seq.++" ? [...b.args] : b.op === "seq.empty" ? [] : [b];
    const eqs = []; const both = (p, q) => p.op === "seq.unit" && q.op === "seq.unit";
    while (x.length && y.length) {
      if (x[0] === y[0]) { x.shift(); y.shift(); } else if (both(x[0], y[0])) { eqs.push(eq(x.shift().args[0], y.shift().args[0])); }
      else if (x[x.length - 1] === y[y.length - 1]) { x.pop(); y.pop(); } else if (both(x[x.length - 1], y[y.length - 1])) { eqs.push(eq(x.pop().args[0], y.pop().args[0])); } else break;
    }
    if (!x.length && !y.length) return and(...eqs);
    if ((!x.length && y.some((t) => t.op === "seq.unit")) || (!y.length && x.some((t) => t.op === "seq.unit"))) return FALSE;
    const rest = (l) => seqConcat(...l); let u = rest(x), w = rest(y);
    if (u.id > w.id) [u, w] = [w, u];
    return and(...eqs, mk("=", [u, w], "Bool"));
  }
  if (a.id > b.id) [a, b] = [b, a];
  return mk("=", [a, b], "Bool");
}
const nat = (t) => t.op === "str.from_int";
export const natural = (t) => t.op === "str.len" || (t.op === "int" && t.val >= 0n) || (t.op === "+" && t.args.every(natural));
function numeral(t) { // [natural, rest] when t starts with the numeral of a natural number followed by a non-digit
  if (t.op === "str") { const m = /^(0|[1-9][0-9]*)(?![0-9])/.exec(t.val); return m ? [int(BigInt(m[1])), str(t.val.slice(m[1].length))] : null; }
  if (nat(t)) return [t.args[0], str("")];
  if (t.op !== "str.++") return null;
  if (nat(t.args[0])) { const n = t.args[1]; if (n.op === "str" && !/^[0-9]/.test(n.val)) return [t.args[0].args[0], concat(...t.args.slice(1))]; return null; }
  if (t.args[0].op === "str") { const m = /^(0|[1-9][0-9]*)(?=[^0-9])/.exec(t.args[0].val); if (m) return [int(BigInt(m[1])), concat(str(t.args[0].val.slice(m[1].length)), ...t.args.slice(1))]; }
  return null;
}
function prefixed([n, rest]) { // n = |A| + off, rest = head A R
  let off = 0n, l = null;
  for (const x of n.op === "+" ? n.args : [n]) { if (x.op === "int") off += x.val; else if (x.op === "str.len" && !l) l = x.args[0]; else return null; }
  if (!l || rest.op !== "str.++" || rest.args[0].op !== "str") return null;
  const body = l.op === "str.++" ? l.args : [l];
  if (!body.every((x, i) => rest.args[1 + i] === x)) return null;
  return { off, head: rest.args[0].val, body: l, rest: concat(...rest.args.slice(1 + body.length)) };
}
const eqNat = (x, y) => natural(x) || natural(y) ? eq(x, y) : or(eq(x, y), and(lt(x, int(0)), lt(y, int(0)))); // a negative number has no numeral
function constPrefix(t) { if (t.op === "str") return t.val; if (t.op === "str.++") return constPrefix(t.args[0]); return ""; }
function constSuffix(t) { if (t.op === "str") return t.val; if (t.op === "str.++") return constSuffix(t.args[t.args.length - 1]); return ""; }
function minLen(t) { if (t.op === "str") return t.val.length; if (t.op === "str.++") return t.args.reduce((s, x) => s + minLen(x), 0); return 0; }
export const neq = (a, b) => not(eq(a, b));
export function lt(a, b) {
  [a, b] = unifyNum(a, b);
  if (isNum(a) && isNum(b)) return bool(cmpRat(a, b) < 0);
  if (a === b) return FALSE;
  if (b.op === "int" && (a.op === "str.len" || a.op === "seq.len") && b.val <= 0n) return FALSE;
  if (a.op === "int" && b.sort === "Int") return not(lt(b, int(a.val + 1n))); // one spelling for comparisons with constants
  if (b.op === "int" && a.op === "+" && a.args[1].op === "int") return lt(a.args[0], int(b.val - a.args[1].val));
  return mk("<", [a, b], "Bool");
}
export function le(a, b) {
  [a, b] = unifyNum(a, b);
  if (isNum(a) && isNum(b)) return bool(cmpRat(a, b) <= 0);
  if (a === b) return TRUE;
  return not(lt(b, a));
}
export const gt = (a, b) => lt(b, a);
export const ge = (a, b) => le(b, a);
export function add(a, b) {
  [a, b] = unifyNum(a, b);
  if (isNum(a) && isNum(b)) { const A = asRat(a), B = asRat(b); return a.sort === "Int" ? int(A.n + B.n) : rat(A.n * B.d + B.n * A.d, A.d * B.d); }
  if (isNum(a) && asRat(a).n === 0n) return b; if (isNum(b) && asRat(b).n === 0n) return a;
  if (isNum(b) && a.op === "+" && isNum(a.args[1])) return add(a.args[0], add(a.args[1], b));
  if (isNum(a)) [a, b] = [b, a];
  return mk("+", [a, b], a.sort);
}
export function neg(a) { return a.op === "int" ? int(-a.val) : a.op === "rat" ? rat(-a.val.n, a.val.d) : mk("neg", [a], a.sort); }
export function sub(a, b) {
  [a, b] = unifyNum(a, b);
  if (a === b) return a.sort === "Int" ? int(0) : rat(0n, 1n);
  if (isNum(b)) return add(a, neg(b));
  return mk("-", [a, b], a.sort);
}
export function mul(a, b) {
  [a, b] = unifyNum(a, b);
  if (isNum(a) && isNum(b)) { const A = asRat(a), B = asRat(b); return a.sort === "Int" ? int(A.n * B.n) : rat(A.n * B.n, A.d * B.d); }
  return mk("*", [a, b], a.sort);
}
export function rdiv(a, b) {
  a = toReal(a); b = toReal(b);
  if (isNum(a) && isNum(b) && b.val.n !== 0n) return rat(a.val.n * b.val.d, a.val.d * b.val.n);
  return mk("/", [a, b], "Real");
}
export function idiv(a, b) { if (a.op === "int" && b.op === "int" && b.val > 0n && a.val >= 0n) return int(a.val / b.val); return mk("div", [a, b], "Int"); }
export function imod(a, b) { if (a.op === "int" && b.op === "int" && b.val > 0n && a.val >= 0n) return int(a.val % b.val); return mk("mod", [a, b], "Int"); }
export function floor(a) { // Real -> Int
  if (a.sort === "Int") return a;
  if (a.op === "rat") { const { n, d } = a.val; return int(n >= 0n ? n / d : -((-n + d - 1n) / d)); }
  if (a.op === "to_real") return a.args[0];
  return mk("to_int", [a], "Int");
}
export function isInt(a) { if (a.sort === "Int" || a.op === "to_real") return TRUE; if (a.op === "rat") return bool(a.val.d === 1n); return mk("is_int", [a], "Bool"); }
// ---- strings
export function concat(...as) {
  const out = [];
  for (const a of as) {
    const parts = a.op === "str.++" ? a.args : [a];
    for (const p of parts) {
      if (p.op === "str" && p.val === "") continue;
      const last = out[out.length - 1];
      if (p.op === "str" && last && last.op === "str") out[out.length - 1] = str(last.val + p.val);
      else out.push(p);
    }
  }
  if (out.length === 0) return str(""); if (out.length === 1) return out[0];
  return mk("str.++", out, "String");
}
export function len(a) {
  if (a.op === "str") return int(a.val.length);
  if (a.op === "str.++") return a.args.map(len).reduce(add);
  return mk("str.len", [a], "Int");
}
export function substr(s, i, n) {
  if (s.op === "str" && i.op === "int" && n.op === "int") {
    if (i.val < 0n || n.val <= 0n) return str("");
    return str(s.val.substr(Number(i.val), Number(n.val)));
  }
  if (i.op === "int" && i.val === 0n && n === len(s)) return s;
  if (s.op === "str.++" && i.op === "int" && s.args[0].op === "str" && i.val > 0n) {
    const k = BigInt(s.args[0].val.length);
    if (i.val >= k) return substr(concat(...s.args.slice(1)), int(i.val - k), n);
    // drop prefix chars
    return substr(concat(str(s.args[0].val.slice(Number(i.val))), ...s.args.slice(1)), int(0), n);
  }
  if (s.op === "str.++" && i.op === "int" && i.val === 0n && n.op === "int" && s.args[0].op === "str" && n.val <= BigInt(s.args[0].val.length)) return str(s.args[0].val.slice(0, Number(n.val)));
  if (i.op === "int" && i.val === 0n) { const l = len(s); if (l === n) return s; }
  return mk("str.substr", [s, i, n], "String");
}
export function at(s, i) { if (s.op === "str" && i.op === "int") return str(s.val[Number(i.val)] ?? ""); return mk("str.at", [s, i], "String"); }
export function prefixof(p, s) {
  if (p.op === "str") {
    if (p.val === "") return TRUE;
    if (s.op === "str") return bool(s.val.startsWith(p.val));
    const cp = constPrefix(s); if (cp.length >= p.val.length) return bool(cp.startsWith(p.val));
    if (cp && !p.val.startsWith(cp)) return FALSE;
  }
  if (p === s) return TRUE;
  return mk("str.prefixof", [p, s], "Bool");
}
export function suffixof(p, s) {
  if (p.op === "str") {
    if (p.val === "") return TRUE;
    if (s.op === "str") return bool(s.val.endsWith(p.val));
    const cs = constSuffix(s); if (cs.length >= p.val.length) return bool(cs.endsWith(p.val));
  }
  return mk("str.suffixof", [p, s], "Bool");
}
export function contains(s, p) {
  if (p.op === "str" && p.val === "") return TRUE;
  if (s.op === "str" && p.op === "str") return bool(s.val.includes(p.val));
  if (p.op === "str" && s.op === "str.++" && s.args.some((x) => x.op === "str" && x.val.includes(p.val))) return TRUE;
  return mk("str.contains", [s, p], "Bool");
}
export function indexof(s, p, i) {
  if (s.op === "str" && p.op === "str" && i.op === "int") return int(s.val.indexOf(p.val, Number(i.val)));
  return mk("str.indexof", [s, p, i], "Int");
}
export function replace1(s, p, r) {
  if (s.op === "str" && p.op === "str" && r.op === "str") return str(s.val.replace(p.val, () => r.val));
  return mk("str.replace", [s, p, r], "String");
}
export function toInt(s) { if (s.op === "str") return int(/^[0-9]+$/.test(s.val) ? BigInt(s.val) : -1n); return mk("str.to_int", [s], "Int"); }
export function fromInt(i) { if (i.op === "int") return str(i.val < 0n ? "" : i.val.toString()); return mk("str.from_int", [i], "String"); }
export function toCode(s) { if (s.op === "str") return int(s.val.length === 1 ? s.val.charCodeAt(0) : -1); return mk("str.to_code", [s], "Int"); }
export function fromCode(i) { if (i.op === "int") return str(String.fromCharCode(Number(i.val))); return mk("str.from_code", [i], "String"); }
export function strLt(a, b) { if (a.op === "str" && b.op === "str") return bool(a.val < b.val); return mk("str.<", [a, b], "Bool"); }
// re: val holds an SMT RegLan string
export function inRe(s, re, concreteTest) {
  if (s.op === "str" && concreteTest) return bool(concreteTest(s.val));
  return mk("str.in_re", [s], "Bool", re);
}
// ---- seq of strings
export const SEQ = "(Seq String)";
export const seqEmpty = mk("seq.empty", [], SEQ);
export function seqUnit(s) { return mk("seq.unit", [s], SEQ); }
export function seqConcat(...as) {
  const out = as.flatMap((a) => a.op === "seq.++" ? a.args : a.op === "seq.empty" ? [] : [a]);
  if (out.length === 0) return seqEmpty; if (out.length === 1) return out[0];
  return mk("seq.++", out, SEQ);
}
export function seqLen(a) {
  if (a.op === "seq.empty") return int(0); if (a.op === "seq.unit") return int(1);
  if (a.op === "seq.++") return a.args.map(seqLen).reduce(add);
  return mk("seq.len", [a], "Int");
}
export function seqNth(a, i) {
  if (i.op === "int") {
    if (a.op === "seq.unit" && i.val === 0n) return a.args[0];
    if (a.op === "seq.++") {
      const f = a.args[0];
      if (f.op === "seq.unit") return i.val === 0n ? f.args[0] : seqNth(seqConcat(...a.args.slice(1)), int(i.val - 1n));
    }
    if (a.op === "seq.extract" && a.args[1].op === "int" && i.val >= 0n) return seqNth(a.args[0], add(a.args[1], i));
  }
  return mk("seq.nth", [a, i], "String");
}
export function seqExtract(a, i, n) {
  if (i.op === "int" && i.val === 0n && n === seqLen(a)) return a;
  if (n.op === "int" && n.val <= 0n) return seqEmpty;
  if (a.op === "seq.empty") return seqEmpty;
  if (i.op === "int" && a.op === "seq.++" && a.args[0].op === "seq.unit") {
    if (i.val >= 1n) return seqExtract(seqConcat(...a.args.slice(1)), int(i.val - 1n), n);
    if (i.val === 0n && n.op === "int") return seqConcat(a.args[0], seqExtract(seqConcat(...a.args.slice(1)), int(0), int(n.val - 1n)));
    if (i.val === 0n && n.op === "+" ) { /* keep */ }
  }
  if (a.op === "seq.unit" && i.op === "int") {
    if (i.val >= 1n) return seqEmpty;
    if (i.val === 0n && n.op === "int" && n.val >= 1n) return a;
  }
  // extract(extract(b, j, len(b)-j), i, len(b)-j-i) normalisation for suffixes
  if (a.op === "seq.extract" && i.op === "int" && a.args[1].op === "int" && isSuffix(a) && n === sub(seqLen(a), i)) {
    return seqSuffix(a.args[0], int(a.args[1].val + i.val));
  }
  return mk("seq.extract", [a, i, n], SEQ);
}
function isSuffix(t) { return t.val === undefined && t.op === "seq.extract" && t.args[2] === sub(seqLen(t.args[0]), t.args[1]); }
export function seqSuffix(a, i) { // a.slice(i), 0<=i<=len
  if (i.op === "int" && i.val === 0n) return a;
  if (a.op === "seq.++" && i.op === "int") {
    let k = i.val; let args = a.args;
    while (k > 0n && args.length && args[0].op === "seq.unit") { args = args.slice(1); k--; }
    return seqSuffix(seqConcat(...args), int(k)) ;
  }
  if (a.op === "seq.extract" && isSuffix(a) && a.args[1].op === "int" && i.op === "int") return seqSuffix(a.args[0], int(a.args[1].val + i.val));
  return seqExtract(a, i, sub(seqLen(a), i));
}
export function seqContains(a, s) { if (a.op === "seq.empty") return FALSE; if (a.op === "seq.unit") return eq(a.args[0], s); if (a.op === "seq.++") return or(...a.args.map((x) => seqContains(x, s))); return mk("seq.contains", [a, seqUnit(s)], "Bool"); }
export function seqPrefixOf(a, b) { if (a === b || a.op === "seq.empty") return TRUE; return mk("seq.prefixof", [a, b], "Bool"); }
export function seqSuffixOf(a, b) { if (a === b || a.op === "seq.empty") return TRUE; return mk("seq.suffixof", [a, b], "Bool"); }
// ---- quantifiers
export function forall(vars, body) { if (body === TRUE) return TRUE; return mk("forall", [body], "Bool", vars.map((x) => x.val + ":" + x.sort).join(";")); }
export function exists(vars, body) { if (body === FALSE) return FALSE; return mk("exists", [body], "Bool", vars.map((x) => x.val + ":" + x.sort).join(";")); }

export function smtStr(s) {
  let o = '"';
  for (const ch of s.split("")) {
    const c = ch.charCodeAt(0);
    if (c === 34) o += '""';
    else if (c < 32 || c > 126 || c === 92) o += `\\u{${c.toString(16)}}`;
    else o += ch;
  }
  return o + '"';
}
const q = (n) => /^[A-Za-z_][A-Za-z0-9_.!]*$/.test(n) ? n : "|" + n.replace(/[|\\]/g, "_") + "|";
function numStr(n) { return n < 0n ? `(- ${-n})` : `${n}`; }
export function smt(t, opts = {}, memo = new Map()) {
  const c = memo.get(t.id); if (c) return c;
  const a = () => t.args.map((x) => smt(x, opts, memo)).join(" ");
  let r;
  switch (t.op) {
    case "true": case "false": r = t.op; break;
    case "int": r = numStr(t.val); break;
    case "rat": r = t.val.d === 1n ? (t.val.n < 0n ? `(- ${-t.val.n}.0)` : `${t.val.n}.0`) : t.val.n < 0n ? `(- (/ ${-t.val.n}.0 ${t.val.d}.0))` : `(/ ${t.val.n}.0 ${t.val.d}.0)`; break;
    case "str": r = smtStr(t.val); break;
    case "var": r = q(t.val); break;
    case "app": r = t.args.length ? `(${q(t.val)} ${a()})` : q(t.val); break;
    case "neg": r = `(- ${a()})`; break;
    case "str.prefixof": if (opts.re && t.args[0].op === "str") { r = `(str.in_re ${smt(t.args[1], opts, memo)} (re.++ (str.to_re ${smtStr(t.args[0].val)}) (re.* re.allchar)))`; break; } r = `(${t.op} ${a()})`; break;
    case "str.suffixof": if (opts.re && t.args[0].op === "str") { r = `(str.in_re ${smt(t.args[1], opts, memo)} (re.++ (re.* re.allchar) (str.to_re ${smtStr(t.args[0].val)})))`; break; } r = `(${t.op} ${a()})`; break;
    case "str.contains": if (opts.re && t.args[1].op === "str") { r = `(str.in_re ${smt(t.args[0], opts, memo)} (re.++ (re.* re.allchar) (str.to_re ${smtStr(t.args[1].val)}) (re.* re.allchar)))`; break; } r = `(${t.op} ${a()})`; break;
    case "str.in_re": r = `(str.in_re ${a()} ${t.val})`; break;
    case "seq.empty": r = `(as seq.empty (Seq String))`; break;
    case "forall": case "exists":
      r = `(${t.op} (${t.val.split(";").map((x) => { const i = x.lastIndexOf(":"); return `(${q(x.slice(0, i))} ${x.slice(i + 1)})`; }).join(" ")}) ${a()})`; break;
    default: r = `(${t.op} ${a()})`;
  }
  memo.set(t.id, r);
  return r;
}
export function collect(ts, names = new Set(), seen = new Set(), bound = new Set()) {
  const st = [...ts];
  while (st.length) {
    const t = st.pop();
    if (seen.has(t.id)) continue; seen.add(t.id);
    if (t.op === "var" || t.op === "app") names.add(t.val);
    if (t.op === "forall" || t.op === "exists") for (const x of t.val.split(";")) bound.add(x.slice(0, x.lastIndexOf(":")));
    for (const x of t.args) st.push(x);
  }
  return names;
}
export function script(assertions, extra = "", opts = {}) {
  const bound = new Set();
  const names = collect(assertions, new Set(), new Set(), bound);
  let o = "(declare-sort V 0)\n";
  for (const n of names) {
    if (bound.has(n)) continue;
    const d = decls.get(n);
    o += `(declare-fun ${q(n)} (${d.args.join(" ")}) ${d.ret})\n`;
  }
  const memo = new Map();
  for (const a of assertions) o += `(assert ${smt(a, opts, memo)})\n`;
  return o + extra;
}
// rebuild a term with new arguments through the simplifying constructors
export function rebuild(t, a) {
  switch (t.op) {
    case "not": return not(a[0]); case "and": return and(...a); case "or": return or(...a); case "ite": return ite(...a); case "=": return eq(...a);
    case "<": return lt(...a); case "+": return add(...a); case "-": return sub(...a); case "*": return mul(...a); case "neg": return neg(a[0]);
    case "str.++": return concat(...a); case "str.len": return len(a[0]); case "str.substr": return substr(...a); case "str.at": return at(...a);
    case "str.prefixof": return prefixof(...a); case "str.suffixof": return suffixof(...a); case "str.contains": return contains(...a); case "str.indexof": return indexof(...a);
    case "str.to_int": return toInt(a[0]); case "str.to_code": return toCode(a[0]); case "str.from_int": return fromInt(a[0]);
    case "seq.nth": return seqNth(...a); case "seq.len": return seqLen(a[0]);
    default: return mk(t.op, a, t.sort, t.val);
  }
}
