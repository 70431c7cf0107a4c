// Modifiers: optional, withDefault, map, multiple, nonEmpty over an arbitrary child parser.
import { MO, PR, IP, TOKENS, bufferOf, ctxOf, childParser, valueParser, errModels, errTrust } from "./_h.mjs";
const NE = "core/src/nonempty.ts";
const wait = (a, f) => a ? f() : f();

const ABSENT = ["optional", "withDefault", "withDefault-thunk"];
function wrap(V, kind, child, dflt, thunkFails) {
  const m = V.mod(MO); const calls = [];
  if (kind === "optional") return [m.optional(child), calls];
  if (kind === "withDefault") return [m.withDefault(child, dflt), calls];
  return [m.withDefault(child, () => { calls.push(1); if (thunkFails) throw new Error("default failed"); return dflt; }), calls];
}
async function absentParse(V, async) {
  const child = childParser(V, { async, maybeNothing: true });
  const kind = V.oneOf("kind", ABSENT);
  const [p, calls] = wrap(V, kind, child, V.token("default"), false);
  const inner = V.token("inner");
  const state = V.flag("started") ? [inner] : undefined;
  const c = ctxOf(V, p, state);
  const r = async ? await p.parse(c) : p.parse(c);
  V.assert("child-run-once", child.parses.length === 1);
  const call = child.parses[0];
  V.assert("child-sees-the-same-input", call.ctx.buffer === c.buffer && call.ctx.optionsTerminated === c.optionsTerminated && call.ctx.state === (state ? inner : child.initialState) && call.ctx.usage === c.usage);
  V.assert("default-not-evaluated-while-parsing", calls.length === 0);
  const cr = call.result;
  if (!cr.success) {
    if (V.truthy(cr.consumed === 0)) { V.cover("absent"); V.assert("absent-is-not-a-failure", r.success && r.consumed.length === 0 && r.next.buffer === c.buffer && r.next.state === state && r.next.optionsTerminated === c.optionsTerminated); return; }
    V.cover("partial-failure");
    V.assert("failure-after-consuming-is-kept", !r.success && V.truthy(V.same(r.consumed, cr.consumed)) && r.error === cr.error);
    return;
  }
  V.cover("matched");
  V.assert("match-kept", r.success && V.truthy(V.seqEq(r.consumed, cr.consumed)) && V.truthy(V.seqEq(r.next.buffer, cr.next.buffer)));
  V.assert("terminator-kept", V.iff(r.next.optionsTerminated, cr.next.optionsTerminated));
  if (cr.next.state !== (state ? inner : child.initialState)) V.assert("state-kept", Array.isArray(r.next.state) && r.next.state.length === 1 && r.next.state[0] === cr.next.state);
}
async function absentComplete(V, async) {
  const child = childParser(V, { async, maybeNothing: true });
  const kind = V.oneOf("kind", ABSENT), dflt = V.token("default"), thunkFails = kind === "withDefault-thunk" && V.flag("thunk-fails");
  const [p, calls] = wrap(V, kind, child, dflt, thunkFails);
  const ik = V.pick("inner-state", 5), tok = V.token("inner");
  const inner = ik === 0 ? tok : ik === 1 ? [tok] : ik === 2 ? { success: true, value: tok } : ik === 3 ? [] : { a: tok, b: [tok] };
  const present = V.flag("present");
  const exec = V.token("exec");
  const r = async ? await p.complete(present ? [inner] : undefined, exec) : p.complete(present ? [inner] : undefined, exec);
  if (present) {
    V.cover("present");
    V.assert("completed-by-the-child", child.completes.length === 1 && child.completes[0].state === inner && child.completes[0].exec === exec);
    const cr = child.completes[0].result;
    V.assert("result-unchanged", r.success === cr.success && (r.success ? r.value === cr.value : r.error === cr.error));
    V.assert("default-not-evaluated", calls.length === 0);
    return;
  }
  V.cover("absent");
  V.assert("child-not-completed", child.completes.length === 0);
  if (kind === "optional") V.assert("absent-is-undefined", r.success && r.value === undefined);
  else if (thunkFails) V.assert("failing-default-is-an-error", !r.success && calls.length === 1);
  else V.assert("absent-is-the-default", r.success && r.value === dflt && calls.length === (kind === "withDefault" ? 0 : 1));
}
async function mapped(V, async) {
  const { map } = V.mod(MO);
  const child = childParser(V, { async, maybeNothing: true }); const calls = [];
  const out = V.token("mapped");
  const fails = V.flag("transform-throws");
  const p = map(child, (v) => { calls.push(v); if (fails) throw new RangeError("transform"); return out; });
  const c = ctxOf(V, p, V.token("state"));
  const r = async ? await p.parse(c) : p.parse(c);
  V.assert("parsing-untouched", child.parses.length === 1 && child.parses[0].ctx === c && r === child.parses[0].result && calls.length === 0);
  const st = V.token("final"); let d, thrown = false;
  try { d = async ? await p.complete(st) : p.complete(st); } catch (e) { if (!(e instanceof RangeError)) throw e; thrown = true; }
  const cr = child.completes[0].result;
  V.assert("child-completed-once", child.completes.length === 1 && child.completes[0].state === st);
  if (!cr.success) { V.cover("failure"); V.assert("failure-passes-through", !d.success && d.error === cr.error && calls.length === 0); return; }
  V.cover("success");
  V.assert("transform-called-once-on-the-value", calls.length === 1 && calls[0] === cr.value);
  if (fails) V.assert("transform-error-propagates", thrown); else V.assert("mapped-value", d.success && d.value === out && !("deferred" in d));
}
// map(map(p, f), g) is map(p, g after f); map(p, identity) is p
function mapLaws(V) {
  const { map } = V.mod(MO);
  const child = childParser(V, {});
  const calls = []; const f = (v) => { calls.push(["f", v]); return ["f", v]; }, g = (v) => { calls.push(["g", v]); return ["g", v]; };
  const st = V.token("s");
  const a = map(map(child, f), g).complete(st);
  const cr = child.completes[0].result;
  if (cr.success) { V.cover("composed"); V.assert("composition", a.success && a.value[0] === "g" && a.value[1][0] === "f" && a.value[1][1] === cr.value && calls.length === 2 && calls[0][0] === "f"); }
  else V.assert("failure", !a.success && a.error === cr.error);
  const b = map(child, (x) => x).complete(st), br = child.completes[1].result;
  V.assert("identity", b.success === br.success && (b.success ? b.value === br.value : b.error === br.error));
}
// multiple: one step
async function multipleParse(V, async) {
  const { multiple } = V.mod(MO);
  const child = childParser(V, { async, noStall: false, state: (n) => V.flag(n + ".done") ? { success: true, value: V.token(n) } : V.token(n) });
  const min = V.int("min", { min: 0, max: 1000 }), max = V.int("max", { min: 0, max: 1000 });
  V.assume(min <= max);
  const p = multiple(child, { min, max });
  const n = V.pick("items", 4); const items = []; for (let i = 0; i < n; i++) items.push({ success: true, value: V.token("item" + i) });
  const c = ctxOf(V, p, items);
  const r = async ? await p.parse(c) : p.parse(c);
  if (V.truthy(n >= max)) {
    V.cover("full");
    V.assert("no-more-than-max", child.parses.length === 0 && r.success && r.consumed.length === 0 && r.next.state.length === n && r.next.buffer === c.buffer);
    return;
  }
  V.assert("fresh-item", child.parses.length === 1 && child.parses[0].ctx.buffer === c.buffer && child.parses[0].ctx.state === child.initialState && child.parses[0].ctx.optionsTerminated === c.optionsTerminated);
  const cr = child.parses[0].result;
  if (!r.success) { V.cover("failure"); V.assert("failure-is-the-child's", !cr.success && r.error === cr.error && V.truthy(V.same(r.consumed, cr.consumed))); return; }
  if (!cr.success) { V.cover("end-of-input"); V.assert("absorbed-only-at-the-end", V.and(c.buffer.length === 0, min === 0, cr.consumed === 0)); V.assert("nothing-changed", r.consumed.length === 0 && r.next.state === items && r.next.buffer === c.buffer); return; }
  V.cover("collected");
  V.assert("step-kept", V.and(V.seqEq(r.consumed, cr.consumed), V.seqEq(r.next.buffer, cr.next.buffer), V.iff(r.next.optionsTerminated, cr.next.optionsTerminated)));
  V.assert("earlier-items-kept", r.next.state.length >= n && items.every((x, i) => r.next.state[i] === x));
  V.assert("at-most-one-new-item", r.next.state.length <= n + 1);
  if (r.next.state.length > n) V.assert("new-item-is-the-child's", r.next.state[n] === cr.next.state);
  else V.assert("unmatched-child-adds-nothing", V.or(cr.consumed.length === 0, cr.next.state === child.initialState));
  if (V.truthy(cr.consumed.length > 0) && cr.next.state !== child.initialState) V.assert("consumed-input-becomes-an-item", r.next.state.length === n + 1);
}
// The last item may still want input: it is offered the input first, and a fresh item is opened only when it declines.
async function multipleExtend(V, async) {
  const { multiple } = V.mod(MO);
  const skips = V.oneOf("canSkip", ["no-method", true, false, undefined]), seen = [];
  const child = childParser(V, { async, extra: skips === "no-method" ? {} : { canSkip: (st) => { seen.push(st); return skips; } } });
  const min = V.int("min", { min: 0, max: 1000 }), max = V.int("max", { min: 1, max: 1000 });
  V.assume(min <= max);
  const p = multiple(child, { min, max });
  const n = V.pick("items", 3) + 1; const items = []; for (let i = 0; i < n; i++) items.push(i < n - 1 ? { success: true, value: V.token("item" + i) } : V.token("open"));
  V.assume(n <= max);
  const c = ctxOf(V, p, items);
  const r = async ? await p.parse(c) : p.parse(c), calls = child.parses, open = items[n - 1];
  V.assert("asked-about-the-open-item", seen.every((x) => x === open));
  const same = (k) => k.ctx.buffer === c.buffer && k.ctx.optionsTerminated === c.optionsTerminated;
  if (skips === true) { if (V.truthy(n >= max)) { V.cover("full"); V.assert("no-more-than-max", calls.length === 0 && r.success && r.consumed.length === 0 && r.next.buffer === c.buffer && r.next.state === items); return; } V.assert("finished-item-left-alone", calls.length === 1 && same(calls[0]) && calls[0].ctx.state === child.initialState); }
  else V.assert("open-item-first", calls.length >= 1 && same(calls[0]) && calls[0].ctx.state === open);
  const last = calls[calls.length - 1], cr = last.result, retried = calls.length === 2;
  if (calls.length > 1) { V.cover("retried"); V.assert("fresh-item-only-after-a-clean-refusal", retried && !calls[0].result.success && V.truthy(calls[0].result.consumed === 0) && same(last) && last.ctx.state === child.initialState && V.truthy(n < max)); }
  else if (!cr.success && skips !== true && V.truthy(cr.consumed === 0)) V.assert("retried-when-there-is-room", V.not(n < max));
  if (!r.success) { V.cover("failure"); V.assert("failure-is-the-child's", !cr.success && r.error === cr.error && V.truthy(V.same(r.consumed, cr.consumed))); return; }
  if (!cr.success) { V.assert("absorbed-only-at-the-end", V.and(c.buffer.length === 0, min === 0, cr.consumed === 0)); V.assert("nothing-changed", r.consumed.length === 0 && r.next.state === items && r.next.buffer === c.buffer); return; }
  const fresh = retried || skips === true;
  if (fresh) V.assume(cr.next.state !== open); // an item's state is not another item's very object
  V.cover(fresh ? "opened" : "extended");
  V.assert("step-kept", V.and(V.seqEq(r.consumed, cr.consumed), V.seqEq(r.next.buffer, cr.next.buffer), V.iff(r.next.optionsTerminated, cr.next.optionsTerminated)));
  V.assert("finished-items-kept", r.next.state.length >= n && items.every((x, i) => (i === n - 1 && !fresh) || r.next.state[i] === x));
  if (!fresh) V.assert("open-item-advanced", r.next.state.length === n && r.next.state[n - 1] === cr.next.state);
  else if (r.next.state.length > n) V.assert("new-item-is-the-child's", r.next.state.length === n + 1 && r.next.state[n] === cr.next.state);
  else V.assert("unmatched-child-adds-nothing", V.or(cr.consumed.length === 0, cr.next.state === child.initialState));
}
async function multipleComplete(V, async) {
  const { multiple } = V.mod(MO);
  const child = childParser(V, { async, maybeNothing: true });
  const min = V.int("min", { min: 0, max: 1000 }), max = V.int("max", { min: 0, max: 1000 });
  V.assume(min <= max);
  const bounds = V.pick("given", 4);
  const p = multiple(child, bounds === 0 ? {} : bounds === 1 ? { min } : bounds === 2 ? { max } : { min, max });
  const n = V.pick("items", 4); const items = []; for (let i = 0; i < n; i++) items.push(V.token("item" + i));
  const r = async ? await p.complete(items) : p.complete(items);
  const done = child.completes;
  V.assert("items-completed-in-order", done.length <= n && done.every((d, i) => d.state === items[i]));
  const bad = done.find((d) => !d.result.success);
  if (bad) { V.cover("item-failure"); V.assert("first-failure-reported", !r.success && r.error === bad.result.error && bad === done[done.length - 1]); return; }
  V.assert("every-item-completed", done.length === n);
  const lo = bounds === 1 || bounds === 3 ? min : 0, hi = bounds >= 2 ? max : 1e9;
  const inRange = V.and(n >= lo, n <= hi);
  V.assert("succeeds-exactly-within-bounds", V.iff(r.success, inRange));
  if (r.success) { V.cover("collected"); V.assert("values-in-order", r.value.length === n && done.every((d, i) => r.value[i] === d.result.value)); } else V.cover("out-of-bounds");
}
// whole parses: every occurrence in order
function multipleParseAll(V) {
  const { multiple } = V.mod(MO), { argument, option } = V.mod(PR), { parseSync } = V.mod(IP);
  const vp = valueParser(V);
  const useOption = V.flag("option");
  const min = V.int("min", { min: 0, max: 4 }), max = V.int("max", { min: 0, max: 4 }); V.assume(min <= max);
  const n = V.pick("count", 4); const vals = [];
  for (let i = 0; i < n; i++) { const s = V.str("value" + i, { pool: TOKENS }); if (!useOption) V.assume(V.not(s.startsWith("-"))); vals.push(s); }
  const args = useOption ? vals.flatMap((v) => ["--item", v]) : vals;
  const p = multiple(useOption ? option("--item", vp) : argument(vp), { min, max });
  const r = parseSync(p, args);
  V.assert("text-exact-in-order", vp.calls.length <= n && V.truthy(V.and(...vp.calls.map((s, i) => V.same(s, vals[i])))));
  const allOk = vp.results.every((x) => x.success);
  if (r.success) {
    V.cover("parsed");
    V.assert("within-bounds", V.and(n >= min, n <= max));
    V.assert("values-in-order", r.value.length === n && allOk && r.value.every((v, i) => v === vp.results[i].value));
  } else { V.cover("rejected"); V.assert("rejected-for-a-reason", V.or(!allOk, n < min, n > max)); }
}
async function nonEmptyStep(V, async) {
  const { nonEmpty } = V.mod(MO);
  const child = childParser(V, { async, provisional: true });
  const p = nonEmpty(child);
  const c = ctxOf(V, p, V.token("state"));
  const r = async ? await p.parse(c) : p.parse(c);
  V.assert("child-run-once", child.parses.length === 1 && child.parses[0].ctx.buffer === c.buffer && child.parses[0].ctx.state === c.state);
  const cr = child.parses[0].result;
  if (!cr.success) { V.assert("failure-kept", !r.success && r.error === cr.error); return; }
  if (V.truthy(cr.consumed.length === 0)) { V.cover("empty"); V.assert("empty-match-rejected", !r.success && r.consumed === 0); return; }
  V.cover("matched");
  V.assert("match-kept", r.success && V.truthy(V.and(V.seqEq(r.consumed, cr.consumed), V.seqEq(r.next.buffer, cr.next.buffer), r.next.state === cr.next.state)));
  const st = V.token("final"), d = async ? await p.complete(st) : p.complete(st);
  const k = child.completes[0];
  V.assert("completed-by-the-child", child.completes.length === 1 && k.state === st && d.success === k.result.success && (d.success ? d.value === k.result.value : d.error === k.result.error));
}
const mk = (id, prop, fns, run, covers, o = {}) => ({ id, prop, use: [MO, PR, IP], targets: fns.split(",").map((f) => "core/src/modifiers.ts#" + f), covers, models: errModels, trusted: [errTrust, "the wrapped parser is an arbitrary object obeying the step contract"], run, ...o });
const both = (id, prop, fns, run, covers, o = {}) => [mk(id, prop, fns, (V) => run(V, false), covers, o), mk(id + "/async", [...prop, "C20"], fns, (V) => run(V, true), covers, o)];
export const contracts = [
  ...both("optional-like.parse", ["C01", "C09"], "optional,withDefault,parseOptionalStyleSync,parseOptionalStyleAsync,processOptionalStyleResult", absentParse, ["absent", "partial-failure", "matched"]),
  ...both("optional-like.complete", ["C09", "C22"], "optional,withDefault,completeOptionalLikeSync,completeOptionalLikeAsync", absentComplete, ["present", "absent"]),
  ...both("map", ["C22", "C01"], "map", mapped, ["failure", "success"]),
  mk("map/laws", ["C22"], "map", mapLaws, ["composed"]),
  ...both("multiple.parse", ["C08", "C01"], "multiple", multipleParse, ["full", "failure", "end-of-input", "collected"], { bounded: "up to three items collected before the step" }),
  ...both("multiple.parse/open-item", ["C08", "C01"], "multiple", multipleExtend, ["full", "failure", "retried", "opened", "extended"], { bounded: "up to three items collected before the step" }),
  ...both("multiple.complete", ["C08"], "multiple", multipleComplete, ["item-failure", "collected", "out-of-bounds"], { bounded: "up to three collected items" }),
  mk("multiple/whole-parse", ["C08", "C04"], "multiple", multipleParseAll, ["parsed", "rejected"], { bounded: "up to three occurrences" }),
  ...both("nonEmpty", ["C22", "C01"], "nonEmpty", nonEmptyStep, ["empty", "matched"]),
];
