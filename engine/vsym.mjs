// Contract vocabulary, symbolic side.
import * as T from "./term.mjs";
import * as R from "./rt.mjs";
import { checkObligation } from "./explore.mjs";
import { quickCheck } from "./solver.mjs";
const carried = new Set(), tableIds = new WeakMap(); let tableSeq = 0; // decoder/table pairs already run through every code unit
const tableId = (t) => { if (t.size === 0) return 0; let n = tableIds.get(t); if (!n) tableIds.set(t, n = ++tableSeq); return n; };
export function mkVsym(mods) {
  return (P, contract) => {
    const input = (name, sort, kind) => { const n = P.name("in." + name); const t = T.v(n, sort); P.inputs.push({ name: n.slice(3), term: t, kind }); return t; };
    const B = (c) => typeof c === "boolean" ? c : R.isSym(c) ? (c.k === "bool" ? c.t : R.not(R.not(c)).t ?? R.not(R.not(c))) : !!c;
    const term = (c) => { const b = B(c); return typeof b === "boolean" ? T.bool(b) : b; };
    const V = {
      symbolic: true, tier: process.env.VERIF_TIER ?? "quick",
      mod: (rel) => mods.get(rel),
      str(name, o = {}) { const t = input(name, "String", "str"); if (o.re) R.assume(R.mkBool(R.inLang(t, o.re.source, o.re.flags))); if (o.nonEmpty) R.assume(R.mkBool(T.not(T.eq(t, T.str(""))))); return R.mkStr(t); },
      bool(name) { return R.mkBool(input(name, "Bool", "bool")); },
      int(name, o = {}) { const t = input(name, "Int", "num"); R.fact(T.ge(t, T.int(BigInt(o.min ?? Number.MIN_SAFE_INTEGER)))); R.fact(T.le(t, T.int(BigInt(o.max ?? Number.MAX_SAFE_INTEGER)))); return R.mkNum(t); },
      num(name, o = {}) { const t = input(name, "Real", "num"); if (o.min !== undefined) R.fact(T.ge(t, T.realOf(o.min))); if (o.max !== undefined) R.fact(T.le(t, T.realOf(o.max))); return R.mkNum(t); },
      big(name) { return R.mkBig(input(name, "Int", "big")); },
      pick(name, n) { const nm = P.name("in." + name).slice(3); const i = R.pick(n); P.inputs.push({ name: nm, value: i }); return i; },
      oneOf(name, list) { return list[V.pick(name, list.length)]; },
      flag(name) { return V.pick(name, 2) === 1; },
      opt(name, f) { return V.pick(name + "?", 2) === 0 ? undefined : f(); },
      strs(name) { return R.seqToArr(input(name, R.seqTerm ? T.SEQ : T.SEQ, "strs")); },
      opaque(name, props) { const n = P.name("op." + name); return new R.Opaque(n, T.v(n, "V"), props ? Object.assign(Object.create(null), props) : undefined); },
      token(name) { return V.opaque(name, { $closed: true }); },
      array(name, lens, mk) { const n = typeof lens === "number" ? lens : V.oneOf(name + ".length", lens); const o = []; for (let i = 0; i < n; i++) o.push(mk(i)); return o; },
      assume(c) { R.assume(typeof c === "boolean" ? c : R.mkBool(term(c))); },
      assert(name, c) { checkObligation(P, name, term(c)); },
      fail(name) { checkObligation(P, name, false); },
      cover(name) { const r = P.res.covers; if (r.get(name) !== "sat" && (P.res.coverTries ??= new Map(), P.res.coverTries.get(name) ?? 0) < 200) { P.res.coverTries.set(name, (P.res.coverTries.get(name) ?? 0) + 1); const st = quickCheck(T.script(P.pc), 2000).status; if (!r.has(name) || st === "sat" || r.get(name) === "unsat") r.set(name, st); } },
      truthy: (c) => R.truthy(c),
      and: (...cs) => R.mkBool(T.and(...cs.map(term))), or: (...cs) => R.mkBool(T.or(...cs.map(term))), not: (c) => R.not(c), implies: (a, b) => R.mkBool(T.implies(term(a), term(b))), iff: (a, b) => R.mkBool(T.eq(term(a), term(b))),
      same(a, b) { return R.eq3(a, b); },
      seqEq(a, b) { const x = R.seqTerm(a), y = R.seqTerm(b); if (x && y) return R.mkBool(T.eq(x, y)); if (!(a instanceof R.SArr) && !(b instanceof R.SArr)) { if (a.length !== b.length) return false; return R.mkBool(T.and(...a.map((e, i) => term(R.eq3(e, b[i]))))); } R.unsupported("seqEq on mixed arrays"); },
      suffixOf(a, b) { return R.mkBool(T.seqSuffixOf(R.seqTerm(a), R.seqTerm(b))); },
      concat(...as) { return R.mkArr(as.flatMap((a) => R.segsOf(a))); },
      split(name, a) { const r = R.splitSeq(a); P.inputs.push({ name: P.name("in." + name).slice(3), term: R.arrLen(r[0]), kind: "num" }); return r; },
      matches(s, re) { if (typeof s === "string") return re.test(s); return R.mkBool(R.inLang(s.t, re.source, re.flags)); },
      inLang(s, smtRe, test) { if (typeof s === "string") return test(s); return R.mkBool(T.inRe(s.t, smtRe)); },
      index(name, lo, hi) { const t = T.v(P.name("idx." + name), "Int"); P.idx.push(t); R.assume(R.mkBool(T.and(T.ge(t, R.N(lo)), T.lt(t, R.N(hi))))); return R.mkNum(t); },
      isSymbolic: R.isEngine, kind: R.kindOf,
      skip(why) { R.prune(why); },
      nativeOnly() { R.prune("native only"); },
      // decoded: running the decoder over s yields exactly the texts of parts, in order, and ends in an accepting state.
      // Discharged for all texts by induction over their length: every code unit of the alphabet is run through the decoder.
      decodes(name, s, m, parts, alphabet = () => true) {
        if (typeof s !== "string" && !R.isSym(s)) R.unsupported("decodes: not a string");
        const cases = (t) => t.op === "ite" ? cases(t.args[R.choose(t.args[0]) ? 1 : 2]) : t.op === "str.++" && t.args.some((a) => a.op === "ite") ? T.concat(...t.args.map(cases)) : t;
        const segs = R.homParts(cases(R.S(s))); const want = []; for (const p of parts) { const ts = R.homParts(R.S(p)); want.push(...ts); }
        const flat = (l) => l.flatMap((x) => x.text !== undefined ? x.text.split("").map((c) => ({ c })) : [{ v: x }]);
        const W = flat(want).map((x) => x.v ? { v: x.v.of.id, table: x.v.table } : x);
        let q = m.start; const got = []; let why = "", bad = false;
        const stepAll = (q0, text, out) => { let q1 = q0; for (const ch of text.split("")) { const r = m.step(q1, ch); if (!r) return undefined; q1 = r[0]; if (r[1]) out.push(...r[1].split("")); } return q1; };
        for (const g of segs) {
          if (g.text !== undefined) { const o = []; const q1 = stepAll(q, g.text, o); if (q1 === undefined) { why = "decoder stuck on " + JSON.stringify(g.text); break; } q = q1; o.forEach((c) => got.push({ c })); continue; }
          const tgt = W[got.length]; const wt = tgt?.v !== undefined ? tgt.table : undefined;
          if (!tgt || tgt.v !== g.of.id) { why = "text out of place"; break; }
          if (m.enter) { // where the first unit matters: the text is not empty and does not begin with a unit the decoder would take for its own
            const e = m.enter(q); if (e) { const img = R.S(e.avoid === undefined ? "" : e.avoid).val ?? ""; const firsts = [...img].flatMap((a) => { const o = [...g.table].filter(([, im]) => im[0] === a).map(([cc]) => String.fromCharCode(cc)); if (!g.table.has(a.charCodeAt(0))) o.push(a); return o; });
              checkObligation(P, name, T.and(T.not(T.eq(g.of, T.str(""))), ...firsts.map((f) => T.not(T.prefixof(T.str(f), g.of))))); if ([...g.table.values()].includes("")) R.unsupported("decodes: empty image at a decision point"); q = e.to; } }
          const states = m.loop ? m.loop(q) : [q];
          const ck = m.key && m.key + "|" + states.join(",") + "|" + tableId(g.table) + "|" + tableId(wt);
          if (ck && carried.has(ck)) { got.push({ v: g.of.id }); q = m.loopExit ? m.loopExit(q) : q; continue; }
          for (let c = 0; c <= 0xffff && !why; c++) { const ch = String.fromCharCode(c); if (!alphabet(ch)) continue; const want1 = wt.get(c) ?? ch;
            for (const q0 of states) { const o = []; const q1 = stepAll(q0, g.table.get(c) ?? ch, o); if (q1 === undefined || !states.includes(q1) || o.join("") !== want1) { why = `character U+${c.toString(16)} is not carried through: ${JSON.stringify(o.join(""))} in state ${q1}`; bad = T.not(T.eq(g.of, T.str(ch))); break; } } }
          if (why) break;
          if (ck) carried.add(ck);
          got.push({ v: g.of.id });
          q = m.loopExit ? m.loopExit(q) : q;
        }
        if (!why && !m.accept(q)) why = "decoder ends in state " + q;
        if (!why && (got.length !== W.length || got.some((x, i) => x.c !== W[i].c || x.v !== W[i].v))) why = "decoded text differs";
        if (process.env.VERIF_DEBUG_DECODE && why) console.error(name, why, segs.map((x) => x.text ?? "<" + x.of.op + ">"));
        if (!why) { checkObligation(P, name, true); return; }
        // no induction: fall back to refuting or proving nothing
        checkObligation(P, name, bad);
      },
      // an unknown but fixed function of its arguments (used by the contracts that stand for a callee)
      uf(name, kind, ...args) { const ts = args.map((a) => a === undefined ? T.str("undefined") : typeof a === "boolean" ? T.str(String(a)) : R.kindOf(a) === "string" ? R.S(a) : R.kindOf(a) === "bigint" ? T.app("uf.big", "String", R.BI(a)) : R.kindOf(a) === "number" ? T.app("uf.num" + (R.N(a).sort), "String", R.N(a)) : R.unsupported("uf argument"));
        const t = T.app("uf." + name + ts.length, { bool: "Bool", num: "Int", big: "Int", str: "String" }[kind], ...ts); return kind === "bool" ? R.mkBool(t) : kind === "num" ? R.mkNum(t) : kind === "big" ? R.mkBig(t) : R.mkStr(t); },
      // the constants and the unknown texts a string was put together from, in order
      segments(s) { return typeof s === "string" ? [s] : R.homParts(R.S(s)).map((g, i) => g.text !== undefined ? g.text : R.mkStr((R.S(s).op === "str.++" ? R.S(s).args : [R.S(s)])[i])); },
      toInt: (s) => typeof s === "string" ? Number(s) : R.mkNum(T.toInt(s.t)),
      note() {},
    };
    return V;
  };
}
