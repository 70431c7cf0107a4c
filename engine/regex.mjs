// JavaScript RegExp source -> AST -> SMT-LIB RegLan text (characters are UTF-16 code units).
export class ReUnsupported extends Error {}
const MAXC = 0xffff;
const WORD = [[48, 57], [65, 90], [95, 95], [97, 122]];
const DIGIT = [[48, 57]];
const SPACE = [[9, 13], [32, 32], [160, 160], [0x1680, 0x1680], [0x2000, 0x200a], [0x2028, 0x2029], [0x202f, 0x202f], [0x205f, 0x205f], [0x3000, 0x3000], [0xfeff, 0xfeff]];
const NL = [[10, 10], [13, 13], [0x2028, 0x2029]];
export function norm(rs) {
  rs = rs.map((r) => [...r]).sort((a, b) => a[0] - b[0]);
  const o = [];
  for (const r of rs) { const l = o[o.length - 1]; if (l && r[0] <= l[1] + 1) l[1] = Math.max(l[1], r[1]); else o.push(r); }
  return o;
}
export function comp(rs) {
  const o = []; let p = 0;
  for (const [a, b] of norm(rs)) { if (a > p) o.push([p, a - 1]); p = b + 1; }
  if (p <= MAXC) o.push([p, MAXC]);
  return o;
}
function fold(rs) {
  const extra = [];
  for (const [a, b] of rs) {
    for (let c = Math.max(a, 65); c <= Math.min(b, 90); c++) extra.push([c + 32, c + 32]);
    for (let c = Math.max(a, 97); c <= Math.min(b, 122); c++) extra.push([c - 32, c - 32]);
  }
  return norm([...rs, ...extra]);
}
const astCache = new Map(), propCache = new Map();
function astralAlt(e) { // code points above U+FFFF as surrogate pairs
  const hi = (c) => 0xd800 + ((c - 0x10000) >> 10), lo = (c) => 0xdc00 + ((c - 0x10000) & 0x3ff); const a = [{ t: "cls", r: norm(e.set) }]; const by = new Map();
  for (const [x, y] of e.astral) for (let c = x; c <= y;) { const h = hi(c), end = Math.min(y, ((h - 0xd800) << 10) + 0x10000 + 0x3ff); const k = by.get(h) ?? []; by.set(h, k); k.push([lo(c), lo(end)]); c = end + 1; }
  for (const [h, rs] of by) a.push({ t: "seq", a: [{ t: "cls", r: [[h, h]] }, { t: "cls", r: norm(rs) }] });
  return { t: "alt", a };
}
export function parseRegex(source, flags) {
  const key = flags + "/" + source;
  if (astCache.has(key)) return astCache.get(key);
  let i = 0; let ngroups = 0; const names = {};
  const u = flags.includes("u") || flags.includes("v"), ic = flags.includes("i"), dotAll = flags.includes("s");
  if (flags.includes("m")) { if (/[\^$]/.test(source.replace(/\\./g, "").replace(/\[[^\]]*\]/g, ""))) throw new ReUnsupported("multiline anchors"); }
  const cls = (rs) => ({ t: "cls", r: ic ? fold(norm(rs)) : norm(rs) });
  function alt() {
    const alts = [seq()];
    while (source[i] === "|") { i++; alts.push(seq()); }
    return alts.length === 1 ? alts[0] : { t: "alt", a: alts };
  }
  function seq() {
    const items = [];
    while (i < source.length && source[i] !== "|" && source[i] !== ")") items.push(quant(atom()));
    return { t: "seq", a: items };
  }
  function quant(x) {
    for (;;) {
      const c = source[i]; let m;
      let lo, hi;
      if (c === "*") { lo = 0; hi = Infinity; i++; }
      else if (c === "+") { lo = 1; hi = Infinity; i++; }
      else if (c === "?") { lo = 0; hi = 1; i++; }
      else if (c === "{" && (m = /^\{(\d+)(,(\d*))?\}/.exec(source.slice(i)))) { lo = +m[1]; hi = m[2] === undefined ? lo : m[3] === "" ? Infinity : +m[3]; i += m[0].length; }
      else return x;
      let lazy = false;
      if (source[i] === "?") { i++; lazy = true; }
      x = { t: "rep", x, lo, hi, lazy };
    }
  }
  function esc(inClass) {
    const c = source[i++];
    switch (c) {
      case "d": return { set: DIGIT }; case "D": return { set: comp(DIGIT) };
      case "w": return { set: WORD }; case "W": return { set: comp(WORD) };
      case "s": return { set: SPACE }; case "S": return { set: comp(SPACE) };
      case "n": return { ch: 10 }; case "r": return { ch: 13 }; case "t": return { ch: 9 }; case "v": return { ch: 11 }; case "f": return { ch: 12 };
      case "0": return { ch: 0 };
      case "x": { const h = source.slice(i, i + 2); i += 2; return { ch: parseInt(h, 16) }; }
      case "u": {
        if (source[i] === "{") { const e = source.indexOf("}", i); const h = parseInt(source.slice(i + 1, e), 16); i = e + 1; return { ch: h }; }
        const h = source.slice(i, i + 4); i += 4; return { ch: parseInt(h, 16) };
      }
      case "b": if (inClass) return { ch: 8 }; throw new ReUnsupported("\\b");
      case "p": case "P": {
        if (!u || source[i] !== "{") throw new ReUnsupported("\\p");
        const e = source.indexOf("}", i), name = source.slice(i, e + 1); i = e + 1;
        const k = c + name; let m = propCache.get(k);
        if (!m) {
          const re = new RegExp("^\\" + k + "$", "u"); const rs = []; const astral = [];
          for (let x = 0; x <= 0x10ffff; x++) { if (!re.test(String.fromCodePoint(x))) continue; const l = x > 0xffff ? astral : rs; const q = l[l.length - 1]; if (q && q[1] === x - 1) q[1] = x; else l.push([x, x]); }
          propCache.set(k, m = { rs, astral });
        }
        if (inClass && m.astral.length) throw new ReUnsupported("astral property in a class");
        return { set: m.rs, astral: m.astral };
      }
      case "B": case "k": throw new ReUnsupported("\\" + c);
      case "c": { const l = source[i++]; return { ch: l.charCodeAt(0) & 31 }; }
      default:
        if (/[1-9]/.test(c)) throw new ReUnsupported("backreference");
        return { ch: c.charCodeAt(0) };
    }
  }
  function lit(cp) {
    if (cp > 0xffff) { const s = String.fromCodePoint(cp); return { t: "seq", a: [{ t: "cls", r: [[s.charCodeAt(0), s.charCodeAt(0)]] }, { t: "cls", r: [[s.charCodeAt(1), s.charCodeAt(1)]] }] }; }
    return cls([[cp, cp]]);
  }
  function atom() {
    const c = source[i];
    if (c === "(") {
      i++;
      if (source.startsWith("?:", i)) { i += 2; const x = alt(); i++; return x; }
      if (source.startsWith("?=", i)) { i += 2; const x = alt(); i++; return { t: "la", neg: false, x }; }
      if (source.startsWith("?!", i)) { i += 2; const x = alt(); i++; return { t: "la", neg: true, x }; }
      if (source.startsWith("?<=", i) || source.startsWith("?<!", i)) throw new ReUnsupported("lookbehind");
      let name; const m = /^\?<([A-Za-z_$][\w$]*)>/.exec(source.slice(i));
      if (m) { name = m[1]; i += m[0].length; }
      const idx = ++ngroups; if (name) names[name] = idx;
      const x = alt(); i++;
      return { t: "grp", i: idx, x };
    }
    if (c === "^") { i++; return { t: "bol" }; }
    if (c === "$") { i++; return { t: "eol" }; }
    if (c === ".") { i++; return { t: "cls", r: dotAll ? [[0, MAXC]] : comp(NL) }; }
    if (c === "\\") { i++; const e = esc(false); return e.astral?.length ? astralAlt(e) : e.set ? cls(e.set) : lit(e.ch); }
    if (c === "[") {
      i++; let neg = false; if (source[i] === "^") { neg = true; i++; }
      let rs = [];
      while (source[i] !== "]") {
        let e;
        if (source[i] === "\\") { i++; e = esc(true); } else { const cp = u ? source.codePointAt(i) : source.charCodeAt(i); i += cp > 0xffff ? 2 : 1; e = { ch: cp }; }
        if (source[i] === "-" && source[i + 1] !== "]" && e.ch !== undefined) {
          i++; let f; if (source[i] === "\\") { i++; f = esc(true); } else { const cp = u ? source.codePointAt(i) : source.charCodeAt(i); i += cp > 0xffff ? 2 : 1; f = { ch: cp }; }
          if (f.ch === undefined) { rs.push([e.ch, e.ch], [45, 45], ...f.set); } else rs.push([e.ch, f.ch]);
        } else if (e.set) rs.push(...e.set); else rs.push([e.ch, e.ch]);
      }
      i++;
      rs = rs.filter(([a]) => a <= MAXC).map(([a, b]) => [a, Math.min(b, MAXC)]);
      if (ic) rs = fold(norm(rs));
      return { t: "cls", r: neg ? comp(rs) : norm(rs) };
    }
    const cp = u ? source.codePointAt(i) : source.charCodeAt(i); i += cp > 0xffff ? 2 : 1;
    return lit(cp);
  }
  const ast = alt();
  const r = { ast, ngroups, names };
  astCache.set(key, r);
  return r;
}
const ch = (c) => c === 34 ? '""""' : c < 33 || c > 126 || c === 92 ? `"\\u{${c.toString(16)}}"` : `"${String.fromCharCode(c)}"`;
export const ANYSTAR = `(re.* re.allchar)`;
export const EPS = `(str.to_re "")`;
function clsRe(r) {
  if (r.length === 0) return "re.none";
  if (r.length === 1 && r[0][0] === 0 && r[0][1] === MAXC) return "re.allchar";
  const parts = r.map(([a, b]) => a === b ? `(str.to_re ${ch(a)})` : `(re.range ${ch(a)} ${ch(b)})`);
  return parts.length === 1 ? parts[0] : `(re.union ${parts.join(" ")})`;
}
function cat(a, b) { if (a === EPS) return b; if (b === EPS) return a; if (a === "re.none" || b === "re.none") return "re.none"; return `(re.++ ${a} ${b})`; }
const hasZero = (n) => n.t === "bol" || n.t === "eol" || n.t === "la" || (n.x && hasZero(n.x)) || (Array.isArray(n.a) && n.a.some(hasZero));
// language of node followed by continuation K (K covers the rest of the string)
function cps(n, K) {
  switch (n.t) {
    case "cls": return cat(clsRe(n.r), K);
    case "seq": { let k = K; for (let j = n.a.length - 1; j >= 0; j--) k = cps(n.a[j], k); return k; }
    case "alt": if (!hasZero(n)) return cat(plain(n), K); return `(re.union ${n.a.map((x) => cps(x, K)).join(" ")})`;
    case "grp": return cps(n.x, K);
    case "rep": {
      if (!hasZero(n.x)) return cat(plain(n), K);
      if (n.hi !== Infinity && n.hi <= 4) { // expand
        let res = null; let parts = [];
        for (let c = n.lo; c <= n.hi; c++) { let k = K; for (let j = 0; j < c; j++) k = cps(n.x, k); parts.push(k); }
        return parts.length === 1 ? parts[0] : `(re.union ${parts.join(" ")})`;
      }
      // (?:(?!X)c)*  and the like: unsupported in general
      throw new ReUnsupported("zero-width assertion under repetition");
    }
    case "eol": return K === ANYSTAR || K === EPS ? EPS : `(re.inter ${K} ${EPS})`;
    case "la": { const x = cps(n.x, ANYSTAR); return n.neg ? `(re.inter (re.comp ${x}) ${K})` : `(re.inter ${x} ${K})`; }
    case "bol": throw new ReUnsupported("inner ^");
  }
}
export function plain(n) {
  switch (n.t) {
    case "cls": return clsRe(n.r);
    case "seq": return n.a.length === 0 ? EPS : n.a.length === 1 ? plain(n.a[0]) : `(re.++ ${n.a.map(plain).join(" ")})`;
    case "alt": return `(re.union ${n.a.map(plain).join(" ")})`;
    case "grp": return plain(n.x);
    case "rep": {
      const x = plain(n.x);
      if (n.lo === 0 && n.hi === Infinity) return `(re.* ${x})`;
      if (n.lo === 1 && n.hi === Infinity) return `(re.+ ${x})`;
      if (n.lo === 0 && n.hi === 1) return `(re.opt ${x})`;
      if (n.hi === Infinity) return `(re.++ ((_ re.^ ${n.lo}) ${x}) (re.* ${x}))`;
      if (n.lo === n.hi) return `((_ re.^ ${n.lo}) ${x})`;
      return `((_ re.loop ${n.lo} ${n.hi}) ${x})`;
    }
    default: throw new ReUnsupported("zero-width in plain");
  }
}
const alts = (ast) => ast.t === "alt" ? ast.a : ast.t === "seq" && ast.a.length === 1 && (ast.a[0].t === "alt") ? ast.a[0].a : [ast];
const firstIsBol = (n) => n.t === "bol" || (n.t === "seq" && n.a.length > 0 && firstIsBol(n.a[0]));
function dropBol(n) { return n.t === "bol" ? { t: "seq", a: [] } : { t: "seq", a: [dropBol(n.a[0]), ...n.a.slice(1)] }; }
// set of strings s on which re.test(s) (non-sticky) is true
export function testLang(source, flags) {
  const { ast } = parseRegex(source, flags);
  const parts = alts(ast).map((x) => firstIsBol(x) ? cps(dropBol(x), ANYSTAR) : cat(ANYSTAR, cps(x, ANYSTAR)));
  return parts.length === 1 ? parts[0] : `(re.union ${parts.join(" ")})`;
}
// top-level structure for capture extraction: alternatives of sequences
export function structure(source, flags) {
  const { ast, ngroups, names } = parseRegex(source, flags);
  return {
    ngroups, names,
    alts: alts(ast).map((x) => {
      let items = x.t === "seq" ? [...x.a] : [x];
      let bol = false, eol = false;
      if (items.length && items[0].t === "bol") { bol = true; items.shift(); }
      if (items.length && items[items.length - 1].t === "eol") { eol = true; items.pop(); }
      return { bol, eol, items };
    }),
  };
}
export const hasGroup = (n) => n.t === "grp" || (n.x && hasGroup(n.x)) || (Array.isArray(n.a) && n.a.some(hasGroup));
export { hasZero, cps };
