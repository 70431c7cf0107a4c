// The parse driver: parseSync / parseAsync / suggestSync against an arbitrary parser obeying the step contract.
import { IP, TOKENS } from "./_h.mjs";

// The parser carries what is left in its state, so that the driver's loop invariant has to relate state and buffer.
function ghostParser(V, args, { async = false, mutate = false } = {}) {
  const seen = { completes: 0, result: undefined, failed: 0, error: undefined };
  const wrap = (x) => async ? Promise.resolve(x) : x;
  const err = [{ type: "text", text: "step failed" }], cerr = [{ type: "text", text: "incomplete" }];
  const value = V.token("value");
  const p = {
    $valueType: [], $stateType: [], mode: async ? "async" : "sync", priority: 1, usage: [], leadingNames: new Set(), acceptingAnyToken: true,
    initialState: { left: args, terminated: false },
    parse(ctx) {
      V.assert("state-travels-with-its-buffer", V.seqEq(ctx.state.left, ctx.buffer));
      V.assert("terminator-flag-carried", V.iff(ctx.state.terminated, ctx.optionsTerminated));
      if (V.pick("outcome", 2) === 0) { return wrap({ success: false, consumed: 0, error: err }); }
      const [taken, rest] = V.split("taken", ctx.buffer);
      const t = V.or(ctx.optionsTerminated, V.bool("terminates"));
      return wrap({ success: true, consumed: taken, next: { ...ctx, buffer: rest, state: { left: rest, terminated: t }, optionsTerminated: t } });
    },
    complete(state, exec) {
      seen.completes++; seen.exec = exec;
      V.assert("completes-only-when-everything-is-consumed", state.left.length === 0);
      const ok = V.flag("completes");
      seen.result = ok ? { success: true, value } : { success: false, error: cerr };
      if (ok && V.flag("deferred")) seen.result.deferred = true;
      return wrap(seen.result);
    },
    *suggest(ctx, prefix) { V.assert("suggest-state-matches-buffer", V.seqEq(ctx.state.left, ctx.buffer)); yield { kind: "literal", text: "candidate", prefix, phase: ctx.exec.phase }; },
    getDocFragments() { return { fragments: [] }; },
  };
  return { p, seen, err, cerr, value };
}
async function driver(V, async, entry) {
  const m = V.mod(IP);
  const args = V.strs("args", { pool: TOKENS, max: 4 });
  const g = ghostParser(V, args, { async });
  const r = async ? await m[entry](g.p, args) : m[entry](g.p, args);
  if (!r.success) {
    V.cover("failure");
    V.assert("no-value-on-failure", !("value" in r));
    V.assert("failure-has-a-reason", Array.isArray(r.error) && r.error.length > 0);
    if (g.seen.completes === 1) V.assert("completion-error-kept", r.error === g.cerr);
    return;
  }
  V.cover("success");
  V.assert("completed-once", g.seen.completes === 1 && g.seen.result.success);
  V.assert("completed-value", r.value === g.value);
  V.assert("deferred-kept", (r.deferred === true) === (g.seen.result.deferred === true));
  V.assert("complete-phase", g.seen.exec.phase === "complete");
}
// A step that leaves the buffer as it was ends the parse with a failure, whatever it claims to have consumed;
// any other step, bundles included, is followed by another one as long as tokens are left.
async function stall(V, async) {
  const m = V.mod(IP);
  const args = V.strs("args", { pool: TOKENS, max: 4 });
  const wrap = (x) => async ? Promise.resolve(x) : x;
  const n = { steps: 0 };
  const first = V.flag("progress-first") ? V.strs("after-first", { pool: TOKENS, max: 4 }) : undefined;
  if (first) V.assume(V.and(V.not(V.seqEq(first, args)), first.length > 0));
  const next1 = {};
  const p = {
    mode: async ? "async" : "sync", usage: [], initialState: 0,
    parse(ctx) {
      n.steps++;
      V.assert("no-step-after-a-stalled-step", n.steps <= (first ? 2 : 1));
      const claimed = V.strs("claimed", { pool: TOKENS, max: 2 });
      if (first && n.steps === 1) { next1.ctx = { ...ctx, buffer: first, state: 1 }; return wrap({ success: true, consumed: claimed, next: next1.ctx }); }
      if (first) V.assert("next-step-sees-what-was-left", ctx === next1.ctx);
      return wrap({ success: true, consumed: claimed, next: { ...ctx, state: 2, optionsTerminated: V.bool("t") } });
    },
    complete() { V.assert("completes-only-when-empty", first ? false : args.length === 0); return wrap({ success: true, value: 1 }); },
  };
  const r = async ? await m.parseAsync(p, args) : m.parseSync(p, args);
  V.assert("every-progress-is-followed-by-a-step", n.steps === (first ? 2 : 1));
  V.assert("stalled-input-rejected", V.iff(r.success, first ? false : args.length === 0));
  V.cover("stalled");
}
// Two consecutive steps: the driver hands the second step exactly what the first one left, trace and terminator included.
async function steps(V, async) {
  const m = V.mod(IP);
  const args = V.strs("args", { pool: TOKENS, max: 4 });
  const log = [];
  const wrap = (x) => async ? Promise.resolve(x) : x;
  const p = {
    mode: async ? "async" : "sync", usage: [], initialState: V.token("s0"),
    parse(ctx) {
      V.assert("step-input", log.length === 0 ? ctx.buffer === args && ctx.state === p.initialState && ctx.optionsTerminated === false : ctx === log[log.length - 1].next);
      if (log.length > 0) V.assert("strict-progress", V.not(V.and(V.seqEq(ctx.buffer, log[log.length - 1].from))));
      if (log.length >= 3) V.skip("three steps explored");
      if (V.pick("outcome", 2) === 0) return wrap({ success: false, consumed: 0, error: [{ type: "text", text: "no" }] });
      const [taken, rest] = V.split("taken", ctx.buffer);
      const next = { ...ctx, buffer: rest, state: V.token("s"), optionsTerminated: V.flag("term") };
      log.push({ next, from: ctx.buffer, taken });
      return wrap({ success: true, consumed: taken, next });
    },
    complete(state, exec) { V.assert("completed-state-is-the-last", state === log[log.length - 1].next.state); V.assert("all-consumed-in-order", V.seqEq(V.concat(...log.map((l) => l.taken)), args)); return wrap({ success: true, value: state }); },
  };
  const r = async ? await m.parseAsync(p, args) : m.parseSync(p, args);
  if (r.success) { V.cover("success"); V.assert("value", r.value === log[log.length - 1].next.state); }
}
function suggestRun(V) {
  const m = V.mod(IP);
  const head = V.strs("args", { pool: TOKENS, max: 3 }), prefix = V.str("prefix", { pool: TOKENS });
  const g = ghostParser(V, head);
  const out = m.suggestSync(g.p, V.concat(head, [prefix]));
  if (out.length > 0) { V.cover("suggested"); V.assert("prefix-exact", V.same(out[0].prefix, prefix)); V.assert("candidates-passed-on", out.length === 1 && out[0].text === "candidate"); V.assert("suggest-phase", out[0].phase === "suggest"); }
  else V.cover("stalled");
  V.assert("never-completes", g.seen.completes === 0);
}
const t = (n) => [`core/src/internal/parser.ts#${n}`, "core/src/internal/parser.ts#isBufferUnchanged", "core/src/internal/parser.ts#createParserContext"];
const inv = "parsers run by the driver are arbitrary objects obeying the step contract (proved per parser under C01)";
export const contracts = [
  { id: "parseSync", prop: ["C01", "C02"], use: [IP], targets: t("parseSync"), covers: ["failure", "success"], trusted: [inv], run: (V) => driver(V, false, "parseSync") },
  { id: "parse", prop: ["C02"], use: [IP], targets: t("parse"), covers: ["failure", "success"], trusted: [inv], run: (V) => driver(V, false, "parse") },
  { id: "parseAsync", prop: ["C01", "C02", "C20"], use: [IP], targets: t("parseAsync"), covers: ["failure", "success"], trusted: [inv], run: (V) => driver(V, true, "parseAsync") },
  { id: "parseSync/stall", prop: ["C02"], use: [IP], targets: t("parseSync"), covers: ["stalled"], run: (V) => stall(V, false) },
  { id: "parseAsync/stall", prop: ["C02", "C20"], use: [IP], targets: t("parseAsync"), covers: ["stalled"], run: (V) => stall(V, true) },
  { id: "parseSync/steps", prop: ["C01", "C02"], use: [IP], targets: t("parseSync"), covers: ["success"], bounded: "first three steps of the loop (any tokens)", run: (V) => steps(V, false) },
  { id: "parseAsync/steps", prop: ["C01", "C02", "C20"], use: [IP], targets: t("parseAsync"), covers: ["success"], bounded: "first three steps of the loop (any tokens)", run: (V) => steps(V, true) },
  { id: "suggestSync", prop: ["C01"], use: [IP], targets: t("suggestSync"), covers: ["suggested", "stalled"], trusted: [inv], run: suggestRun },
];
