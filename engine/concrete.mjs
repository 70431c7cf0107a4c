// Satisfiability by example: the shortest text each regular constraint allows is put in for the unknown texts and everything else is computed by
// the real functions.  A conjunction that evaluates to true has a model; anything else is left to the solvers.
import * as T from "./term.mjs";
import { lang, search, member, meet } from "./relang.mjs";
class No extends Error {}
const no = new No("no");
export function mkEval(apps) {
  return function evaluate(t, env, memo) {
    const m = memo.get(t.id); if (m) return m;
    let r;
    switch (t.op) {
      case "str": case "int": case "rat": case "true": case "false": r = t; break;
      case "var": r = env.get(t.id); if (!r) throw no; break;
      case "and": r = T.TRUE; for (const a of t.args) if (evaluate(a, env, memo) === T.FALSE) { r = T.FALSE; break; } break;
      case "or": r = T.FALSE; for (const a of t.args) if (evaluate(a, env, memo) === T.TRUE) { r = T.TRUE; break; } break;
      case "ite": r = evaluate(t.args[evaluate(t.args[0], env, memo) === T.TRUE ? 1 : 2], env, memo); break;
      case "str.in_re": { const s = evaluate(t.args[0], env, memo); const b = member(t, s.val); if (b === undefined) throw no; r = T.bool(b); break; }
      case "app": { const f = apps(t.val), as = t.args.map((a) => evaluate(a, env, memo)); r = f ? f(...as) : env.unknown(t, as); break; }
      case "not": case "=": case "<": case "+": case "-": case "*": case "neg": case "str.++": case "str.len": case "str.substr": case "str.at": case "str.prefixof": case "str.suffixof": case "str.contains": case "str.indexof": case "str.to_int": case "str.to_code": case "str.from_int":
        r = T.rebuild(t, t.args.map((a) => evaluate(a, env, memo))); if (!T.isConst(r)) throw no; break;
      default: throw no;
    }
    memo.set(t.id, r); return r;
  };
}
const CAND = { Int: [0n, 1n, 3n, 100n], Bool: [0, 1] };
export function example(conj, evaluate) {
  const vars = new Map(), seen = new Set(); let ok = true, ufs = false;
  const walk = (t) => { if (seen.has(t.id)) return; seen.add(t.id); if (t.op === "var") { if (t.sort === "String" || t.sort === "Bool" || t.sort === "Int") vars.set(t.id, t); else ok = false; } if (t.op === "app" && t.sort !== "String" && !t.val.startsWith("js.")) ufs = true; t.args.forEach(walk); };
  conj.forEach(walk); if (!ok || vars.size > 40) return false;
  const env = new Map(), bools = [], ints = [];
  for (const v of vars.values()) {
    if (v.sort === "Bool") { bools.push(v); continue; }
    if (v.sort === "Int") { let lo, hi; for (const t of conj) { const n = t.op === "not", c = n ? t.args[0] : t; if (c.op === "<") { if (c.args[0] === v && c.args[1].op === "int") { const k = c.args[1].val; if (n) { if (lo === undefined || k > lo) lo = k; } else if (hi === undefined || k - 1n < hi) hi = k - 1n; } if (c.args[1] === v && c.args[0].op === "int") { const k = c.args[0].val; if (n) { if (hi === undefined || k < hi) hi = k; } else if (lo === undefined || k + 1n > lo) lo = k + 1n; } } else if (c.op === "=" && !n && c.args.includes(v)) { const k = c.args[0] === v ? c.args[1] : c.args[0]; if (k.op === "int") lo = hi = k.val; } } ints.push({ v, lo, hi }); continue; }
    const ls = conj.map(lang).filter((l) => l && l.s === v); const r = search(meet(ls.map((l) => l.x))); if (r === undefined || r === "empty") return false;
    env.set(v.id, T.str(r.w));
  }
  if (bools.length > 2) return false;
  const clamp = (x, { lo, hi }) => lo !== undefined && x < lo ? lo : hi !== undefined && x > hi ? hi : x;
  for (let k = 0; k < 1 << bools.length; k++) for (const n of ints.length ? CAND.Int : [0n]) for (const u of ufs ? [0n, 1n, 4n] : [0n]) {
    bools.forEach((b, i) => env.set(b.id, T.bool(k >> i & 1)));
    ints.forEach((i) => env.set(i.v.id, T.int(clamp(n, i))));
    env.unknown = (t) => t.sort === "Int" ? T.int(u) : t.sort === "Bool" ? T.bool(u !== 0n) : (() => { throw no; })(); // any function will do: a constant one is tried
    const memo = new Map();
    try { if (conj.every((t) => evaluate(t, env, memo) === T.TRUE)) return true; } catch (e) { if (e !== no) throw e; }
  }
  return false;
}
