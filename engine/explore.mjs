// Path exploration of one contract body: every branch of the real code it reaches is explored, each V.assert is an obligation.
import * as T from "./term.mjs";
import * as R from "./rt.mjs";
import { decide, reduce } from "./relang.mjs";
import { fullCheck, quickCheck } from "./solver.mjs";

export function parseModelValue(s) {
  let i = 0;
  const ws = () => { while (i < s.length && /\s/.test(s[i])) i++; };
  function tok() {
    ws();
    if (s[i] === "(") { i++; const l = []; for (;;) { ws(); if (s[i] === ")" || i >= s.length) { i++; break; } l.push(tok()); } return l; }
    if (s[i] === '"') { let o = ""; i++; for (;;) { if (s[i] === '"') { if (s[i + 1] === '"') { o += '"'; i += 2; continue; } i++; break; } o += s[i++]; } return { str: o.replace(/\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\x([0-9a-fA-F]{2})/g, (_, a, b, c) => { const n = parseInt(a ?? b ?? c, 16); return n > 0xffff ? String.fromCodePoint(n) : String.fromCharCode(n); }) }; }
    if (s[i] === "|") { const e = s.indexOf("|", i + 1); const r = s.slice(i, e + 1); i = e + 1; return r; }
    let j = i; while (j < s.length && !/[\s()]/.test(s[j])) j++; const r = s.slice(i, j); i = j; return r;
  }
  return tok();
}
function val(x) {
  if (x && x.str !== undefined) return x.str;
  if (x === "true") return true; if (x === "false") return false;
  if (typeof x === "string") { if (/^-?\d+$/.test(x)) return BigInt(x); if (/^-?\d+\.\d+$/.test(x)) return Number(x); if (x === "seq.empty") return []; return x; }
  if (Array.isArray(x)) {
    if (x[0] === "-") { const y = val(x[1]); return typeof y === "bigint" ? -y : -y; }
    if (x[0] === "/") return Number(val(x[1])) / Number(val(x[2]));
    if (x[0] === "seq.unit") return [val(x[1])];
    if (x[0] === "seq.++") return x.slice(1).flatMap(val);
    if (x[0] === "as") return x[1] === "seq.empty" ? [] : x;
  }
  return x;
}
export function modelOf(P, extra, ms = 8000) {
  const syms = P.inputs.filter((i) => i.term);
  const body0 = [...P.pc, ...R.instances(), ...extra];
  const w = {};
  for (const i of P.inputs) if (!i.term) w[i.name] = i.value;
  // sequences are given explicit elements: solvers print models of nested sequences unreliably
  const seqs = syms.filter((i) => i.kind === "strs");
  const attempt = (lens, limit) => {
    const elems = lens ? seqs.map((s, j) => Array.from({ length: lens[j] }, (_, k) => T.v(`${s.term.val}.el${k}`, "String"))) : [];
    const body = lens ? [...body0, ...seqs.map((s, j) => T.eq(s.term, T.seqConcat(...elems[j].map((e) => T.seqUnit(e)))))] : body0;
    const ask = []; // {i, k, term}
    for (const i of syms) if (lens && i.kind === "strs") { const j = seqs.indexOf(i); elems[j].forEach((e, k) => ask.push({ i, k, term: e })); } else ask.push({ i, term: i.term });
    const q = ask.length ? `(check-sat)\n(get-value (${ask.map((x) => T.smt(x.term)).join(" ")}))\n` : "(check-sat)\n";
    let decl = T.script(body);
    const bar = (n) => /^[A-Za-z_][A-Za-z0-9_.!]*$/.test(n) ? n : "|" + n + "|";
    for (const n of T.collect(ask.map((x) => x.term))) if (!decl.includes(`(declare-fun ${bar(n)} `)) { const d = T.decls.get(n); decl = decl.replace("(declare-sort V 0)\n", `(declare-sort V 0)\n(declare-fun ${bar(n)} (${d.args.join(" ")}) ${d.ret})\n`); }
    let alt = T.script(body, "", { re: true }); if (decl.indexOf("(assert") > 0) alt = decl.slice(0, decl.indexOf("(assert")) + alt.slice(alt.indexOf("(assert"));
    const script = "(set-option :produce-models true)\n" + decl + q;
    let r = fullCheck(script, limit, ["z3", "cvc5"], "(set-option :produce-models true)\n" + alt + q);
    if (process.env.VERIF_DEBUG_MODEL) console.error(script, r.out);
    if (r.status !== "sat") return { status: r.status, witness: null };
    const out = { ...w };
    if (lens) seqs.forEach((s, j) => { out[s.name] = new Array(lens[j]).fill(""); });
    const m = /^\s*sat\s*([\s\S]*)$/.exec(r.out);
    if (m && ask.length) try { parseModelValue(m[1]).forEach((pair, j) => { let v = val(pair[1]); const { i, k } = ask[j]; if (i.kind === "num" && typeof v === "bigint") v = Number(v); if (Array.isArray(v) && i.kind !== "strs") return; if (k !== undefined) out[i.name][k] = typeof v === "string" ? v : ""; else out[i.name] = v; }); } catch { /* no model */ }
    return { status: "sat", witness: out };
  };
  if (seqs.length === 0) return attempt(null, ms);
  const M = seqs.length === 1 ? 4 : 2; let combos = [[]];
  for (const _ of seqs) combos = combos.flatMap((c) => Array.from({ length: M + 1 }, (_, k) => [...c, k]));
  combos.sort((x, y) => x.reduce((a, b) => a + b, 0) - y.reduce((a, b) => a + b, 0));
  const t0 = performance.now();
  for (const c of combos.slice(0, 12)) { if (performance.now() - t0 > ms) break; const r = attempt(c, 1500); if (r.status === "sat") return r; }
  return attempt(null, ms);
}

export async function explore(contract, mkV, opts = {}) {
  const t0 = performance.now();
  const budget = opts.budgetMs ?? 120000;
  const store = { cut: new Set(contract.cut ?? []), kinds: new Map(), dead: new Set(), norm: new Map(), called: new Set() };
  let res;
  for (let round = 0; round < 60; round++) {
    store.norm.clear();
    res = { id: contract.id, paths: 0, pruned: 0, obligations: new Map(), covers: new Map(), failures: [], unsupported: [], exceptions: [], cuts: 0, forks: 0, unk: 0 };
    const work = [[]]; let restart = false;
    while (work.length) {
      if (performance.now() - t0 > budget) { res.unsupported.push({ msg: "time budget exhausted with " + work.length + " open paths" }); break; }
      if (opts.maxPaths && res.paths > opts.maxPaths) { res.unsupported.push({ msg: "path budget exhausted" }); break; }
      const trail = work.pop();
      const P = new R.Path(trail, store); P.models = contract.models ? new Map() : null; P.inModel = new Set(); P.res = res;
      P.deadline = t0 + budget;
      R.setPath(P);
      let exc = null;
      const V = mkV(P, contract);
      if (contract.models) for (const [k, f] of Object.entries(contract.models)) P.models.set(k, (...a) => { P.inModel.add(k); try { return f(V, ...a); } finally { P.inModel.delete(k); } });
      try { await contract.run(V); } catch (e) { exc = e; }
      res.forks += P.nforks; res.unk += P.unk;
      for (const a of P.alts) work.push(a);
      const ab = P.aborted;
      if (ab) {
        if (ab.kind === "pruned") { res.pruned++; R.setPath(null); continue; }
        if (ab.kind === "cut") { res.cuts++; R.setPath(null); continue; }
        if (ab.kind === "restart") { restart = true; R.setPath(null); break; }
        if (ab.kind === "looplimit") { if (typeof ab.data === "string" && ab.data.includes(":") && !store.cut.has(ab.data)) { store.cut.add(ab.data); restart = true; R.setPath(null); break; } res.unsupported.push({ msg: ab.message, stack: ab.stack?.split("\n").slice(1, 12).join("\n") }); R.setPath(null); if (opts.failFast && res.unsupported.length > 5) break; continue; }
        res.unsupported.push({ msg: ab.message, stack: ab.stack?.split("\n").slice(1, 9).join("\n") }); R.setPath(null);
        if (res.unsupported.length >= (opts.maxUnsupported ?? 5)) break;
        continue;
      }
      res.paths++;
      if (exc) {
        if (exc instanceof R.Control) { res.unsupported.push({ msg: "control: " + exc.message, stack: exc.stack }); R.setPath(null); continue; }
        const m = modelOf(P, []);
        if (m.status !== "unsat") { let msg; try { msg = exc?.message instanceof R.Sym ? "<symbolic message>" : String(exc?.stack ?? exc).slice(0, 1200); } catch { msg = "<exception>"; } res.failures.push({ name: "no-unexpected-exception", detail: msg, witness: m.witness }); }
      }
      R.setPath(null);
      if (res.failures.length >= (opts.maxFailures ?? 3)) break;
    }
    if (!restart) break;
    if (round === 59) res.unsupported.push({ msg: "loop invariant search did not converge" });
  }
  res.cutLoops = [...store.cut]; res.called = [...store.called]; res.ms = performance.now() - t0; res.loopInv = store.kinds.size;
  res.ok = res.failures.length === 0 && res.unsupported.length === 0;
  return res;
}
export function checkObligation(P, name, cond) {
  const res = P.res; let o = res.obligations.get(name);
  if (!o) res.obligations.set(name, o = { checked: 0, discharged: 0, by: {} });
  if (P.aborted) throw P.aborted;
  if (cond === true || cond === T.TRUE) { if (P.fresh) { o.checked++; o.discharged++; o.by.simplifier = (o.by.simplifier ?? 0) + 1; } return; }
  const t = cond === false ? T.FALSE : cond;
  if (!P.fresh) { if (t === T.FALSE) R.prune("failed assertion"); R.assume(t); return; }
  if (t !== T.FALSE && P.pcset.has(t.id)) { o.checked++; o.discharged++; o.by.simplifier = (o.by.simplifier ?? 0) + 1; return; }
  o.checked++;
  const nt = T.not(t);
  const inst = R.instances();
  const body0 = [...(t === T.FALSE ? [...P.pc, ...inst] : R.slice([nt], [...P.pc, ...inst])), nt], body = reduce(body0);
  const sc = T.script(body), alt = T.script(body, "", { re: true });
  if (decide(body0) === "unsat") { o.discharged++; o.by["regular languages"] = (o.by["regular languages"] ?? 0) + 1; if (t !== T.FALSE) R.addPc(t); else R.prune("unreachable"); return; }
  let r = quickCheck(sc, alt === sc ? 1500 : 300);
  if (r.status === "unknown" && alt !== sc) { r = quickCheck(alt, 1500); if (r.status === "unsat") r.solver = "z3re"; }
  if (r.status === "unknown") r = fullCheck(sc, R.cfg.fullMs, ["z3", "cvc5", "z3old"], alt);
  if (r.status !== "unsat" && t !== T.FALSE && body0.length < P.pc.length + inst.length + 1) { const all = [...P.pc, ...inst, nt]; r = fullCheck(T.script(all), R.cfg.fullMs, ["z3", "cvc5"], T.script(all, "", { re: true })); }
  if (r.status === "unsat") { o.discharged++; o.by[r.solver] = (o.by[r.solver] ?? 0) + 1; if (t !== T.FALSE) R.addPc(t); else R.prune("unreachable"); return; }
  const m = modelOf(P, [nt]);
  if (m.status === "unsat") { o.discharged++; o.by.z3 = (o.by.z3 ?? 0) + 1; if (t !== T.FALSE) R.addPc(t); else R.prune("unreachable"); return; }
  if (process.env.VERIF_DEBUG_FAIL) console.error("FAIL", name, P.inputs.map((i) => i.name + "=" + (i.term ? "?" : i.value)).join(" "), "\n", P.pc.map((x) => T.smt(x).slice(0, 300)).join("\n "));
  res.failures.push({ name, status: r.status === "sat" || m.status === "sat" ? "refuted" : "unknown", witness: m.witness, detail: T.smt(t).slice(0, 600), inputs: P.inputs.map((i) => i.name) });
  if (t === T.FALSE) R.prune("failed assertion");
  R.addPc(t); // continue under the asserted fact
}
