// node run.mjs <PROPERTY>            decide one property (exit 0 held, 1 violated, 2 error)
// node run.mjs --replay <file>       re-run a recorded witness against the real code
// node run.mjs --worker <contractFile> <index> <seed> <tier>   (internal)
import { spawn } from "node:child_process";
import { readFileSync, writeFileSync, mkdirSync, existsSync, readdirSync } from "node:fs";
import path from "node:path";
const DIR = path.dirname(new URL(import.meta.url).pathname);
process.removeAllListeners("warning"); process.on("warning", () => {});
const SEED = Number(process.env.VERIF_SEED ?? 1) || 1, TIER = process.env.VERIF_TIER === "thorough" ? "thorough" : "quick";
const NODE = [process.execPath, "--disable-warning=ExperimentalWarning", "--stack-size=4000", "--max-old-space-size=6000"];
const json = (x) => JSON.stringify(x, (k, v) => typeof v === "bigint" ? { $big: v.toString() } : v instanceof Map ? Object.fromEntries(v) : v, 1);
const unjson = (s) => JSON.parse(s, (k, v) => v && typeof v === "object" && "$big" in v ? BigInt(v.$big) : v);

const argv = process.argv.slice(2);
if (argv[0] === "--worker") await worker(argv[1], Number(argv[2]), Number(argv[3]), argv[4]);
else if (argv[0] === "--replay") await replay(argv[1]);
else await main(argv[0], argv.slice(1));

async function loadContracts(file) {
  const { loadModule } = await import("./engine/loader.mjs");
  const nat = (await loadModule(path.join(DIR, "contracts", file), false)).contracts;
  return { nat, loadModule };
}
async function natMods(c, loadModule, sym) { const m = new Map(); for (const f of c.use ?? []) m.set(f, await loadModule(f, sym)); return m; }

async function nativeRun(c, mods, seed, witness) {
  const { mkVnat, Violation, Discard } = await import("./engine/vnat.mjs");
  const h = mkVnat(mods, seed, witness);
  try { await c.run(h.V); return { kind: "ok", rec: h.rec, covers: h.covers, asserts: h.asserts }; } catch (e) {
    if (e instanceof Discard) return { kind: "discard" };
    if (e instanceof Violation) return { kind: "violation", obligation: e.obligation, rec: h.rec };
    return { kind: "violation", obligation: "no-unexpected-exception", detail: String(e?.stack ?? e).slice(0, 1500), rec: h.rec };
  }
}
async function worker(file, index, seed, tier) {
  await import("./engine/rt.mjs");
  const { nat, loadModule } = await loadContracts(file);
  const c = nat[index];
  const out = { id: c.id, file, index, targets: c.targets ?? [], bounded: c.bounded ?? null, trusted: c.trusted ?? [] };
  const mods = await natMods(c, loadModule, false);
  // 1. symbolic: discharge every obligation
  if (c.symbolic !== false) {
    const symC = (await loadModule(path.join(DIR, "contracts", file), true)).contracts[index];
    const smods = await natMods(c, loadModule, true);
    const { explore } = await import("./engine/explore.mjs"); const { mkVsym } = await import("./engine/vsym.mjs");
    const R = await import("./engine/rt.mjs"); Object.assign(R.cfg, c.cfg ?? {});
    const r = await explore(symC, mkVsym(smods), { budgetMs: (tier === "thorough" ? 3 : 1) * (c.budgetMs ?? 240000), maxFailures: 4 });
    const { stats, shutdown } = await import("./engine/solver.mjs");
    out.sym = { paths: r.paths, pruned: r.pruned, cuts: r.cuts, forks: r.forks, ms: Math.round(r.ms), obligations: Object.fromEntries(r.obligations), covers: Object.fromEntries(r.covers), unsupported: r.unsupported.slice(0, 5), failures: r.failures, cutLoops: r.cutLoops, called: r.called, solver: stats };
    const missing = (c.covers ?? []).filter((k) => r.covers.get(k) !== "sat" && r.covers.get(k) !== "unknown");
    if (missing.length && r.unsupported.length === 0 && r.failures.length === 0) out.sym.vacuous = missing;
    for (const f of r.failures) { // 2. replay counterexamples on the real code
      if (f.witness) { const n = await nativeRun(c, mods, seed, f.witness); f.replay = { kind: n.kind, obligation: n.obligation, detail: n.detail }; if (n.kind === "violation") { f.confirmed = true; f.rec = n.rec; } }
    }
    shutdown();
  }
  // 3. the same contract as a runtime assertion on real executions
  const needSearch = out.sym && (out.sym.failures.some((f) => !f.confirmed) || out.sym.unsupported.length > 0 || out.sym.vacuous);
  const runs = (c.native?.runs ?? 300) * (tier === "thorough" ? 20 : 1) * (needSearch ? 8 : 1);
  const limit = (c.native?.ms ?? 15000) * (tier === "thorough" ? 10 : 1) * (needSearch ? 3 : 1);
  out.native = { runs: 0, discarded: 0, asserts: 0, distinct: 0, violations: [], covers: {} };
  const seen = new Set(); const t0 = performance.now();
  if (c.native !== false) {
    for (let i = 0; i < runs && performance.now() - t0 < limit; i++) {
      const n = await nativeRun(c, mods, (seed * 1000003 + i * 7919) >>> 0, null);
      out.native.runs++;
      if (n.kind === "discard") { out.native.discarded++; continue; }
      const k = json(n.rec); if (seen.size < 100000) seen.add(k);
      if (n.kind === "violation") { out.native.violations.push({ obligation: n.obligation, detail: n.detail, rec: n.rec }); if (out.native.violations.length >= 3) break; continue; }
      out.native.asserts += n.asserts; for (const x of n.covers) out.native.covers[x] = (out.native.covers[x] ?? 0) + 1;
      if (out.native.sample === undefined && out.native.runs > 3) out.native.sample = n.rec;
    }
    out.native.distinct = seen.size; out.native.ms = Math.round(performance.now() - t0);
  }
  process.stdout.write("\n@@RESULT@@" + json(out) + "\n", () => process.exit(0));
}
function runWorker(file, index) {
  return new Promise((res) => {
    const p = spawn(NODE[0], [...NODE.slice(1), path.join(DIR, "run.mjs"), "--worker", file, String(index), String(SEED), TIER], { stdio: ["ignore", "pipe", "pipe"], env: process.env });
    let o = "", er = ""; p.stdout.on("data", (d) => o += d); p.stderr.on("data", (d) => er += d);
    const t = setTimeout(() => p.kill("SIGKILL"), TIER === "thorough" ? 3600000 : 800000);
    p.on("close", (code) => { clearTimeout(t); const i = o.lastIndexOf("@@RESULT@@"); if (i >= 0) try { return res(unjson(o.slice(i + 10))); } catch (e) { er += e.stack; } res({ id: `${file}#${index}`, file, index, crash: `worker exit ${code}: ${er.slice(-2000)} ${o.slice(-500)}` }); });
  });
}
async function replay(f) {
  await import("./engine/rt.mjs");
  const r = unjson(readFileSync(f, "utf8"));
  const { nat, loadModule } = await loadContracts(r.file);
  const c = nat.find((x) => x.id === r.contract);
  if (!r.witness) { console.log("no failing input recorded; obligation", r.obligation); console.log(json(r.verifier)); process.exit(3); }
  const n = await nativeRun(c, await natMods(c, loadModule, false), r.seed ?? SEED, r.witness);
  console.log(n.kind, n.obligation ?? "", n.detail ?? ""); console.log(json(n.rec ?? {}));
  process.exit(n.kind === "violation" ? 1 : 0);
}
async function main(prop, flags) {
  const t0 = performance.now();
  if (!prop) { console.error("usage: run.mjs <PROPERTY>"); process.exit(2); }
  await import("./engine/rt.mjs"); const { loadModule } = await import("./engine/loader.mjs");
  const only = flags.find((f) => f.startsWith("--only="))?.slice(7);
  const files = readdirSync(path.join(DIR, "contracts")).filter((f) => f.endsWith(".mjs") && !f.startsWith("_"));
  const jobs = []; let importError = null;
  for (const f of files) {
    let cs; try { cs = (await loadModule(path.join(DIR, "contracts", f), false)).contracts; } catch (e) { if (new RegExp("\\b" + prop + "\\b").test(readFileSync(path.join(DIR, "contracts", f), "utf8"))) importError = e; continue; }
    cs.forEach((c, i) => { const ps = [c.prop].flat(); if (ps.includes(prop) && (!only || c.id.includes(only))) jobs.push({ f, i, id: c.id, w: c.weight ?? 1 }); });
  }
  if (importError) { console.error("contract file does not load", importError.stack); process.exit(2); }
  if (jobs.length === 0) { console.error("no contracts for", prop); process.exit(2); }
  jobs.sort((a, b) => b.w - a.w);
  const results = []; let next = 0; const N = Number(process.env.VERIF_JOBS ?? 6);
  await Promise.all(Array.from({ length: Math.min(N, jobs.length) }, async () => { while (next < jobs.length) { const j = jobs[next++]; results.push(await runWorker(j.f, j.i)); } }));
  results.sort((a, b) => a.id < b.id ? -1 : 1);
  // ---- verdicts
  const known = existsSync(path.join(DIR, "known-findings.jsonl")) ? readFileSync(path.join(DIR, "known-findings.jsonl"), "utf8").split("\n").filter((l) => l.trim() && !l.startsWith("fixed:")).map((l) => { try { return JSON.parse(l); } catch { return null; } }).filter((k) => k && k.property === prop) : [];
  const viol = []; let crash = null;
  for (const r of results) {
    if (r.crash) { crash = r.crash; continue; }
    for (const f of r.sym?.failures ?? []) viol.push({ contract: r.id, file: r.file, obligation: f.name, status: f.status, witness: f.confirmed ? f.rec : null, detail: f.detail, replayed: f.replay, modelWitness: f.witness });
    for (const u of r.sym?.unsupported ?? []) viol.push({ contract: r.id, file: r.file, obligation: "translation-into-verification-conditions", status: "not discharged", witness: null, detail: u.msg, stack: u.stack });
    if (r.sym?.vacuous) viol.push({ contract: r.id, file: r.file, obligation: "cover:" + r.sym.vacuous.join(","), status: "precondition unreachable", witness: null });
    for (const v of r.native?.violations ?? []) viol.push({ contract: r.id, file: r.file, obligation: v.obligation, status: "runtime assertion", witness: v.rec, detail: v.detail });
  }
  const reported = [], knownHit = new Set();
  for (const v of viol) {
    const k = known.find((k) => k.contract === v.contract && k.obligation === v.obligation);
    if (k) { knownHit.add(k); continue; }
    reported.push(v);
  }
  mkdirSync(path.join(DIR, "replays"), { recursive: true });
  for (const k of known) console.log(`KNOWN-FINDING: property=${prop} ${k.what}`);
  // ---- evidence
  const sum = (f) => results.reduce((s, r) => s + (f(r) ?? 0), 0);
  const obl = results.flatMap((r) => Object.entries(r.sym?.obligations ?? {}).map(([n, o]) => ({ contract: r.id, name: n, ...o })));
  const by = {}; for (const o of obl) for (const [k, n] of Object.entries(o.by)) by[k] = (by[k] ?? 0) + n;
  const proofOnes = results.filter((r) => r.sym);
  const full = (r) => r.sym && !r.bounded;
  const cnt = (k, pred) => results.filter(pred).reduce((t, r) => t + Object.values(r.sym?.obligations ?? {}).reduce((s, o) => s + o[k], 0), 0);
  const checked = cnt("checked", full), disch = cnt("discharged", full), bChecked = cnt("checked", (r) => !full(r)), bDisch = cnt("discharged", (r) => !full(r));
  let level = "proof"; try { level = JSON.parse(readFileSync(path.join(DIR, "MANIFEST.json"), "utf8")).checks.find((c) => c.property === prop)?.level ?? level; } catch { /* manifest not there yet */ }
  const trusted = ["tsv verification-condition generator (/verif/engine) and its models of JavaScript built-ins", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2", "TypeScript parser and Node's type stripping", ...new Set(results.flatMap((r) => r.trusted ?? []))];
  const ev = {
    property: prop, tier: TIER, seed: SEED, level,
    coverage: {
      obligations: checked, discharged: disch, bounded_obligations: bChecked, bounded_obligations_discharged: bDisch, checker_cmd: `node /verif/run.mjs ${prop}`, trusted_base: trusted,
      obligations_by_back_end: by, contracts: results.map((r) => ({ id: r.id, targets: r.targets, kind: r.sym ? (r.bounded ? "discharged, bounded: " + r.bounded : "discharged for all inputs") : "bounded: runtime assertion only" + (r.bounded ? " (" + r.bounded + ")" : ""), paths: r.sym?.paths, cut_paths: r.sym?.cuts, loops_under_invariant: r.sym?.cutLoops, obligations: r.sym ? Object.fromEntries(Object.entries(r.sym.obligations).map(([k, o]) => [k, `${o.discharged}/${o.checked}`])) : undefined, reachability: r.sym?.covers, symbolic_ms: r.sym?.ms, runtime_executions: r.native?.runs })),
      functions_under_contract: [...new Set(results.filter(full).flatMap((r) => r.targets))], functions_under_bounded_check: [...new Set(results.filter((r) => !full(r)).flatMap((r) => r.targets))],
      functions_inlined: [...new Set(results.flatMap((r) => r.sym?.called ?? []))].filter((x) => !x.startsWith("/")).sort(),
      solver_ms: Math.round(sum((r) => (r.sym?.solver?.quickMs ?? 0) + (r.sym?.solver?.fullMs ?? 0))), solver_queries: sum((r) => (r.sym?.solver?.quick ?? 0) + (r.sym?.solver?.full ?? 0)),
      evaluations: sum((r) => r.native?.runs), distinct_nontrivial: sum((r) => r.native?.distinct), runtime_assertions_evaluated: sum((r) => r.native?.asserts),
      rule: "runtime executions of the same contracts on the uninstrumented code with inputs drawn from VERIF_SEED; non-trivial: not discarded by the contract's precondition, distinct by recorded inputs (bounded, never counted as discharged)",
      samples: results.map((r) => r.native?.sample ? { contract: r.id, input: r.native.sample } : null).filter(Boolean).slice(0, 4),
      explanation: "Symbolic execution with contracts of the real source: every V.assert reached is an obligation, discharged by SMT for all inputs; bounded stand-ins are labelled.",
      not_discharged: reported.map((v) => ({ contract: v.contract, obligation: v.obligation, detail: String(v.detail ?? "").slice(0, 300) })),
    },
    assumptions: [...new Set(["machine arithmetic on finite numbers treated as exact integer/real arithmetic (NaN, ±Infinity and rounding beyond 2^53 are separate cases)", "string characters are UTF-16 code units", "promise scheduling does not change results of the awaited code (single chain of awaits)", ...results.flatMap((r) => r.trusted ?? [])])],
    wall_s: (performance.now() - t0) / 1000, violations: reported.length,
  };
  mkdirSync(path.join(DIR, "evidence"), { recursive: true });
  if (!only) writeFileSync(path.join(DIR, "evidence", prop + ".json"), json(ev) + "\n");
  if (process.env.VERIF_VERBOSE || only) for (const r of results) console.log(`${r.id}: ${r.crash ? "CRASH " + r.crash : `${r.sym ? `sym ${r.sym.paths} paths (${r.sym.pruned} pruned, ${r.sym.cuts} cut) ${r.sym.ms} ms, ${Object.values(r.sym.obligations).map((o) => o.discharged + "/" + o.checked).join(" ")} covers ${JSON.stringify(r.sym.covers)}` : "native only"}; native ${r.native?.runs} runs (${r.native?.discarded} discarded) ${r.native?.violations.length} violations ${r.native?.ms} ms`}`);
  if (crash && reported.length === 0) { console.error("ERROR", crash); process.exit(2); }
  // one line per distinct (contract, obligation); confirmed ones first
  reported.sort((a, b) => (b.witness ? 1 : 0) - (a.witness ? 1 : 0));
  const confirmed = reported.filter((v) => v.witness);
  const show = confirmed.length ? confirmed : reported; const done = new Set();
  let n = 0;
  for (const v of show) {
    const key = v.contract + "/" + v.obligation; if (done.has(key)) continue; done.add(key);
    const f = path.join(DIR, "replays", `${prop}-${++n}.json`);
    writeFileSync(f, json({ property: prop, file: v.file, contract: v.contract, obligation: v.obligation, witness: v.witness, seed: SEED, verifier: { status: v.status, detail: v.detail, stack: v.stack, model: v.modelWitness, replay: v.replayed }, how: "node /verif/run.mjs --replay " + f }) + "\n");
    console.log(`failed obligation: ${v.contract} / ${v.obligation} (${v.status})${v.detail ? " " + String(v.detail).slice(0, 300).replace(/\n/g, " | ") : ""}`);
    console.log(`VIOLATION property=${prop} replay=${f}${v.witness ? "" : " no-failing-input-found"}`);
    if (n >= 8) break;
  }
  if (reported.length) process.exit(1);
  console.log(`OK property=${prop} contracts=${results.length} obligations=${disch}/${checked} bounded=${bDisch}/${bChecked} runtime-executions=${ev.coverage.evaluations} wall=${ev.wall_s.toFixed(1)}s`);
  process.exit(0);
}
