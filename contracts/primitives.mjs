import { PR, IP, errModels, errTrust, bufferOf, ctxOf, optName, valueParser, conserved, childParser } from "./_h.mjs";

const NAMES = ["-v", "--verbose", "/v", "+v", "-vv", "--v", "-n", "--name", "/name", "-\u00e9"];
function makeNames(V, n, label = "name") { const out = []; for (let i = 0; i < n; i++) out.push(V.str(label + i, { pool: NAMES })); return out; }
function build(V, f) { try { return f(); } catch (e) { if (e instanceof TypeError) V.skip("names rejected by the constructor"); throw e; } }

// what an option-like step must do, from the documented grammar alone
function isLong(n) { return n.startsWith("--") || n.startsWith("/") || (n.startsWith("-") && n.length > 2); }
function isShort(n) { return n.length === 2 && n.startsWith("-") && n.charAt(1) !== "-"; }

function common(V, c, r) {
  // Every step: failure reports a count within the buffer; success conserves tokens, never resurrects options
  if (!r.success) {
    V.assert("failure-count-in-range", V.and(r.consumed >= 0, r.consumed <= c.buffer.length));
    V.cover("failure");
    return;
  }
  V.assert("terminator-never-reset", V.implies(c.optionsTerminated, r.next.optionsTerminated));
  V.assert("usage-kept", r.next.usage === c.usage);
  V.assert("exec-kept", r.next.exec === c.exec);
}

function optionStep(V, kind, names, make) {
  const vp = kind === "value" ? valueParser(V) : undefined;
  const p = build(V, () => make(names, vp));
  const stateKind = V.pick("state", 3);
  const done = kind === "value" ? { success: true, value: "earlier" } : { success: true, value: true };
  const prior = stateKind === 0 ? p.initialState : stateKind === 1 ? done : (kind === "value" ? { success: false, error: [] } : undefined);
  const already = stateKind === 1 || (stateKind === 2 && kind === "value");
  const c = ctxOf(V, p, prior);
  const buf = c.buffer;
  const r = p.parse(c);
  common(V, c, r);
  // --- reference
  if (c.optionsTerminated) { V.assert("no-match-after-terminator", !r.success && r.consumed === 0); return; }
  if (V.truthy(buf.length === 0)) { V.assert("fails-at-end", !r.success && r.consumed === 0); return; }
  const tok = buf[0];
  if (V.truthy(tok === "--")) {
    V.cover("terminator");
    V.assert("terminator-consumed", r.success && r.next.optionsTerminated === true && r.next.state === c.state);
    if (r.success) V.assert("conserved", conserved(V, buf, r.consumed, r.next.buffer));
    V.assert("value-parser-not-called", !vp || vp.calls.length === 0);
    return;
  }
  let exact = false;
  for (const n of names) if (!exact && V.truthy(tok === n)) exact = true;
  if (exact) {
    if (already) { V.cover("duplicate"); V.assert("duplicate-rejected", !r.success && r.consumed >= 1 && (!vp || vp.calls.length === 0)); return; }
    if (!vp) {
      V.cover("matched");
      V.assert("matched", r.success); if (!r.success) return;
      V.assert("conserved", V.and(conserved(V, buf, r.consumed, r.next.buffer), r.consumed.length === 1));
      V.assert("value-true", r.next.state.success === true && r.next.state.value === true);
      V.assert("terminator-untouched", r.next.optionsTerminated === c.optionsTerminated);
      return;
    }
    if (V.truthy(buf.length === 1)) { V.assert("missing-value-rejected", !r.success && r.consumed >= 1 && vp.calls.length === 0); return; }
    V.cover("matched");
    V.assert("matched", r.success); if (!r.success) return;
    V.assert("conserved", V.and(conserved(V, buf, r.consumed, r.next.buffer), r.consumed.length === 2));
    V.assert("value-exact", vp.calls.length === 1 && V.truthy(V.same(vp.calls[0], buf[1])));
    V.assert("value-kept", r.next.state === vp.results[0]);
    V.assert("terminator-untouched", r.next.optionsTerminated === c.optionsTerminated);
    return;
  }
  for (const n of names) {
    if (!V.truthy(isLong(n))) continue;
    const sep = V.truthy(n.startsWith("/")) ? ":" : "=";
    if (!V.truthy(tok.startsWith(n + sep))) continue;
    if (!vp || already) { V.cover("joined-rejected"); V.assert("joined-rejected", !r.success && r.consumed >= 1 && (!vp || vp.calls.length === 0)); return; }
    V.cover("joined");
    V.assert("joined", r.success); if (!r.success) return;
    V.assert("conserved", V.and(conserved(V, buf, r.consumed, r.next.buffer), r.consumed.length === 1));
    V.assert("joined-value-exact", vp.calls.length === 1 && V.truthy(V.same(n + sep + vp.calls[0], tok)));
    V.assert("value-kept", r.next.state === vp.results[0]);
    return;
  }
  if (!vp) for (const n of names) {
    if (!V.truthy(isShort(n)) || !V.truthy(tok.startsWith(n))) continue;
    if (V.truthy(tok.charAt(2) === "-")) { V.assert("dash-is-no-bundled-flag", !r.success && r.consumed === 0); return; }
    if (already) { V.assert("bundled-duplicate-rejected", !r.success && r.consumed >= 1); return; }
    V.cover("bundled");
    V.assert("bundled", r.success); if (!r.success) return;
    V.assert("bundle-never-becomes-terminator-or-long-option", !V.truthy(r.next.buffer[0].startsWith("--")));
    V.assert("bundled-consumed", r.consumed.length === 1 && V.truthy(V.same(r.consumed[0], n)));
    V.assert("bundled-rest", V.and(V.same(n + r.next.buffer[0].slice(1), tok), r.next.buffer[0].startsWith("-"), V.seqEq(r.next.buffer.slice(1), buf.slice(1))));
    V.assert("value-true", r.next.state.success === true && r.next.state.value === true);
    return;
  }
  V.cover("no-match");
  V.assert("other-tokens-untouched", !r.success && r.consumed === 0 && (!vp || vp.calls.length === 0));
}

const step = (id, kind, n, fn, covers) => ({
  id, prop: ["C01", "C03", "C04"], use: [PR], targets: ["core/src/primitives.ts#" + fn, "core/src/validate.ts#validateOptionNames"], covers, models: errModels, trusted: [errTrust],
  bounded: n > 1 ? `${n} option names (every spelling)` : undefined,
  run(V) {
    const m = V.mod(PR);
    optionStep(V, kind, makeNames(V, n), (names, vp) => fn === "flag" ? m.flag(...names) : vp ? m.option(...names, vp) : m.option(...names));
  },
});

function negatableStep(V, np, nn) {
  const { negatableFlag } = V.mod(PR);
  const pos = makeNames(V, np, "pos"), neg = makeNames(V, nn, "neg");
  const p = build(V, () => negatableFlag({ positive: pos, negative: neg }));
  const prior = V.flag("already") ? { value: V.flag("earlier"), token: "--earlier" } : undefined;
  const c = ctxOf(V, p, prior), buf = c.buffer;
  const r = p.parse(c);
  common(V, c, r);
  if (c.optionsTerminated) { V.assert("no-match-after-terminator", !r.success && r.consumed === 0); return; }
  if (V.truthy(buf.length === 0)) { V.assert("fails-at-end", !r.success && r.consumed === 0); return; }
  const tok = buf[0];
  if (V.truthy(tok === "--")) {
    V.cover("terminator");
    V.assert("terminator-consumed", r.success && r.next.optionsTerminated === true && r.next.state === c.state);
    if (r.success) V.assert("conserved", conserved(V, buf, r.consumed, r.next.buffer));
    return;
  }
  const all = [...pos.map((n) => [n, true]), ...neg.map((n) => [n, false])];
  for (const [n, val] of all) if (V.truthy(tok === n)) {
    if (prior) { V.cover("second-use"); V.assert("second-use-rejected", !r.success && r.consumed >= 1); return; }
    V.cover("matched");
    V.assert("matched", r.success); if (!r.success) return;
    V.assert("conserved", V.and(conserved(V, buf, r.consumed, r.next.buffer), r.consumed.length === 1));
    V.assert("polarity", r.next.state.value === val);
    const done = p.complete(r.next.state);
    V.assert("completes-to-polarity", done.success && done.value === val);
    return;
  }
  for (const [n] of all) {
    if (!V.truthy(isLong(n)) && !V.truthy(n.startsWith("+"))) continue;
    if (!V.truthy(tok.startsWith(n + (V.truthy(n.startsWith("/")) ? ":" : "=")))) continue;
    V.assert("joined-rejected", !r.success && r.consumed >= 1);
    return;
  }
  for (const [n, val] of all) if (V.truthy(isShort(n)) && V.truthy(tok.startsWith(n))) {
    if (V.truthy(tok.charAt(2) === "-")) { V.assert("dash-is-no-bundled-flag", !r.success && r.consumed === 0); return; }
    if (prior) { V.assert("second-use-rejected", !r.success && r.consumed >= 1); return; }
    V.cover("bundled");
    V.assert("bundled", r.success); if (!r.success) return;
    V.assert("bundled-consumed", r.consumed.length === 1 && V.truthy(V.same(r.consumed[0], n)));
    V.assert("bundled-rest", V.and(V.same(n + r.next.buffer[0].slice(1), tok), r.next.buffer[0].startsWith("-"), V.seqEq(r.next.buffer.slice(1), buf.slice(1))));
    V.assert("bundle-never-becomes-terminator-or-long-option", !V.truthy(r.next.buffer[0].startsWith("--")));
    V.assert("polarity", r.next.state.value === val);
    return;
  }
  V.cover("no-match");
  V.assert("other-tokens-untouched", !r.success && r.consumed === 0);
}
async function argumentStep(V, isAsync) {
  const { argument } = V.mod(PR);
  const vp = valueParser(V, { async: isAsync });
  const p = argument(vp);
  const prior = V.flag("already") ? { success: V.flag("earlier-ok"), value: 1, error: [] } : undefined;
  const c = ctxOf(V, p, prior), buf = c.buffer;
  const r = isAsync ? await p.parse(c) : p.parse(c);
  common(V, c, r);
  if (V.truthy(buf.length === 0)) { V.assert("fails-at-end", !r.success && r.consumed === 0); return; }
  const term = !c.optionsTerminated && V.truthy(buf[0] === "--");
  const k = term ? 1 : 0;
  if (term && V.truthy(buf.length === 1)) { V.assert("fails-at-end", !r.success && r.consumed <= 1); return; }
  const tok = buf[k];
  if (!r.success) {
    V.assert("value-parser-not-called", vp.calls.length === 0);
    if (!prior && (term || c.optionsTerminated)) V.fail("argument-after-terminator-accepted");
    if (!prior) V.assert("plain-token-accepted", V.and(tok.startsWith("-"), tok.length > 1));
    if (prior) V.cover("second-use");
    return;
  }
  V.cover("matched");
  V.assert("second-use-rejected", prior === undefined);
  V.assert("value-exact", vp.calls.length === 1 && V.truthy(V.same(vp.calls[0], tok)));
  V.assert("conserved", V.and(conserved(V, buf, r.consumed, r.next.buffer), r.consumed.length === k + 1));
  V.assert("value-kept", r.next.state === vp.results[0]);
  V.assert("terminator", r.next.optionsTerminated === (c.optionsTerminated || term));
  if (!term && !c.optionsTerminated) V.assert("options-not-taken-as-arguments", V.not(V.matches(tok, /^--?[A-Za-z0-9][A-Za-z0-9-]*$/)));
  const done = isAsync ? await p.complete(r.next.state) : p.complete(r.next.state);
  V.assert("completes-to-value", done.success === vp.results[0].success && (!done.success || done.value === vp.results[0].value));
}
function argumentMissing(V) {
  const { argument, option, flag } = V.mod(PR);
  const vp = valueParser(V);
  V.assert("argument-missing-fails", argument(vp).complete(undefined).success === false);
  V.assert("option-missing-fails", option("--name", vp).complete(undefined).success === false);
  V.assert("flag-missing-fails", flag("--name").complete(undefined).success === false);
  const b = option("--name"); const d = b.complete(b.initialState);
  V.assert("boolean-option-missing-is-false", d.success && d.value === false);
  V.assert("no-value-parser-call", vp.calls.length === 0);
  const bad = { success: false, error: [{ type: "text", text: V.str("why") }] };
  V.assert("rejected-value-fails", option("--name", vp).complete(bad).success === false && argument(vp).complete(bad).success === false);
  const ok = { success: true, value: V.token("value") };
  const d1 = option("--name", vp).complete(ok), d2 = argument(vp).complete(ok);
  V.assert("value-unchanged", d1.success && d1.value === ok.value && d2.success && d2.value === ok.value);
}
function commandStep(V, aliases) {
  const { command } = V.mod(PR);
  const child = childParser(V);
  const names = makeNames2(V, 1 + aliases);
  const p = build(V, () => aliases ? command(names[0], child, { aliases: names.slice(1) }) : command(names[0], child));
  const st = V.pick("state", 3);
  const inner = V.token("inner");
  const prior = st === 0 ? undefined : st === 1 ? ["matched", names[0]] : ["parsing", inner];
  const c = ctxOf(V, p, prior), buf = c.buffer;
  const r = p.parse(c);
  if (st === 0) {
    V.assert("child-not-run", child.parses.length === 0);
    common(V, c, r);
    let hit = false;
    if (V.truthy(buf.length > 0)) for (const n of names) if (!hit && V.truthy(buf[0] === n)) hit = true;
    if (hit) {
      V.cover("matched");
      V.assert("matched", r.success); if (!r.success) return;
      V.assert("conserved", V.and(conserved(V, buf, r.consumed, r.next.buffer), r.consumed.length === 1));
      V.assert("terminator-untouched", r.next.optionsTerminated === c.optionsTerminated);
      V.assert("canonical-name", r.next.state[0] === "matched" && V.truthy(V.same(r.next.state[1], names[0])));
    } else { V.cover("no-match"); V.assert("other-tokens-untouched", !r.success && r.consumed === 0); }
    return;
  }
  V.assert("child-run-once", child.parses.length === 1);
  const call = child.parses[0];
  V.assert("child-gets-the-rest", call.ctx.buffer === buf && call.ctx.optionsTerminated === c.optionsTerminated && call.ctx.state === (st === 1 ? child.initialState : inner));
  V.assert("same-outcome", r.success === call.result.success);
  if (!r.success) { V.assert("child-error", r.error === call.result.error && V.truthy(V.same(r.consumed, call.result.consumed))); return; }
  V.cover("delegated");
  V.assert("child-step-kept", V.and(V.seqEq(r.consumed, call.result.consumed), V.seqEq(r.next.buffer, call.result.next.buffer)));
  V.assert("terminator", r.next.optionsTerminated === call.result.next.optionsTerminated);
  V.assert("child-state-kept", r.next.state[0] === "parsing" && r.next.state[1] === call.result.next.state);
}
function makeNames2(V, n) { const out = []; for (let i = 0; i < n; i++) out.push(V.str("cmd" + i, { pool: ["build", "b", "x", "help", "v", "--verbose", "-v"] })); return out; }
function passThroughStep(V) {
  const { passThrough } = V.mod(PR);
  const format = V.oneOf("format", ["equalsOnly", "nextToken", "greedy", undefined]);
  const p = passThrough(format ? { format } : {});
  const before = V.strs("collected");
  const c = ctxOf(V, p, before), buf = c.buffer;
  const r = p.parse(c);
  common(V, c, r);
  if (V.truthy(buf.length === 0)) { V.assert("fails-at-end", !r.success); return; }
  if (format !== "greedy" && c.optionsTerminated) { V.assert("no-option-captured-after-terminator", !r.success && r.consumed === 0); return; }
  const tok = buf[0];
  if (!r.success) { V.cover("rejected"); V.assert("untouched", r.consumed === 0); if (format === "greedy") V.fail("greedy-takes-everything"); return; }
  V.cover("captured");
  V.assert("conserved", conserved(V, buf, r.consumed, r.next.buffer));
  V.assert("progress", r.consumed.length > 0);
  V.assert("appended-in-order", V.seqEq(r.next.state, V.concat(before, r.consumed)));
  V.assert("terminator-untouched", r.next.optionsTerminated === c.optionsTerminated);
  if (format === "greedy") V.assert("all-taken", r.next.buffer.length === 0);
  else V.assert("only-options-captured", tok.startsWith("-"));
  if (format !== "greedy" && format !== "nextToken") V.assert("only-joined-options-captured", V.and(tok.startsWith("--"), tok.includes("="), r.consumed.length === 1));
}
function trivial(V) {
  const { constant, fail } = V.mod(PR);
  const v = V.token("value");
  const p = constant(v), c = ctxOf(V, p, p.initialState);
  const r = p.parse(c);
  V.assert("constant-consumes-nothing", r.success && V.truthy(V.seqEq(r.next.buffer, c.buffer)) && r.consumed.length === 0 && r.next.optionsTerminated === c.optionsTerminated);
  const d = p.complete(r.next.state);
  V.assert("constant-value", d.success && d.value === v);
  const f = fail(), cf = ctxOf(V, f, undefined), rf = f.parse(cf);
  V.assert("fail-consumes-nothing", !rf.success && rf.consumed === 0);
  V.assert("fail-never-completes", f.complete(undefined).success === false);
}
const one = (id, prop, fn, run, covers, o = {}) => ({ id, prop, use: [PR], targets: [`core/src/primitives.ts#${fn}`], covers, models: errModels, trusted: [errTrust], run, ...o });
export const contracts = [
  step("flag.parse/1", "flag", 1, "flag", ["failure", "terminator", "duplicate", "matched", "joined-rejected", "bundled", "no-match"]),
  step("flag.parse/2", "flag", 2, "flag", ["failure", "terminator", "duplicate", "matched", "joined-rejected", "bundled", "no-match"]),
  step("option-boolean.parse/1", "flag", 1, "option", ["failure", "terminator", "duplicate", "matched", "joined-rejected", "bundled", "no-match"]),
  step("option-boolean.parse/2", "flag", 2, "option", ["failure", "terminator", "duplicate", "matched", "joined-rejected", "bundled", "no-match"]),
  step("option-value.parse/1", "value", 1, "option", ["failure", "terminator", "duplicate", "matched", "joined", "joined-rejected", "no-match"]),
  step("option-value.parse/2", "value", 2, "option", ["failure", "terminator", "duplicate", "matched", "joined", "joined-rejected", "no-match"]),
  one("negatableFlag.parse/1+1", ["C01", "C03", "C04"], "negatableFlag", (V) => negatableStep(V, 1, 1), ["terminator", "second-use", "matched", "bundled", "no-match"], { bounded: "one positive and one negative name (every spelling)", weight: 5 }),
  one("argument.parse", ["C01", "C03", "C04"], "argument", (V) => argumentStep(V, false), ["failure", "matched", "second-use"]),
  one("argument.parse/async", ["C01", "C03", "C04", "C20"], "argument", (V) => argumentStep(V, true), ["failure", "matched", "second-use"]),
  one("primitives.complete", ["C04"], "option,flag,argument", argumentMissing, []),
  one("command.parse/0", ["C01", "C03"], "command", (V) => commandStep(V, 0), ["matched", "no-match", "delegated"]),
  one("command.parse/1", ["C01", "C03"], "command", (V) => commandStep(V, 1), ["matched", "no-match", "delegated"], { bounded: "one alias (every spelling)" }),
  one("passThrough.parse", ["C01", "C03"], "passThrough", passThroughStep, ["rejected", "captured"]),
  one("constant-and-fail", ["C01"], "constant,fail", trivial, []),
];
