// conditional(): one discriminator, one branch. The branch named by the discriminator gets the rest of the input, nobody else does.
import { CO, bufferOf, childParser, errModels, errTrust } from "./_h.mjs";
import { execFor } from "./exclusive.mjs";
import { pathIs } from "./structured.mjs";
const NAMES = ["one", "two"], POOL = ["one", "two", "three", "constructor", "__proto__", "toString", ""];
function setup(V, o) {
  const log = [], clog = [];
  const kid = (name, async, extra = {}) => childParser(V, { name, who: name, log, clog, async, failMax: 1, noKeep: true, ...extra });
  const disc = kid("disc", o.async === "disc" || o.async === "deferred");
  disc.complete = (state, exec) => {
    const result = V.flag("disc.completes") ? { success: true, value: V.str("disc.value", { pool: POOL }) } : { success: false, error: [{ type: "text", text: "disc incomplete" }] };
    clog.push({ who: "disc", state, exec, result }); return disc.mode === "async" ? Promise.resolve(result) : result;
  };
  const one = kid("one", false, { provisional: o.provisional }), two = kid("two", o.async === "branch");
  const withDefault = V.flag("default-branch"); const dflt = withDefault ? kid("default", false, { provisional: o.provisional }) : undefined;
  const { conditional } = V.mod(CO);
  const p = conditional(disc, { one, two }, ...(withDefault ? [dflt] : []));
  const kids = { disc, one, two, default: dflt };
  V.assert("mode", p.mode === (o.async ? "async" : "sync"));
  return { log, clog, p, kids };
}
const only = (V, log, ...who) => V.assert("nobody-else-is-asked", log.every((e) => who.includes(e.who)));
function sees(V, e, c, state, term, buf, seg) {
  V.assert("sees-the-remaining-input", V.and(V.seqEq(e.ctx.buffer, buf), V.iff(e.ctx.optionsTerminated, term)));
  V.assert("sees-its-own-state", e.ctx.state === state);
  V.assert("path", pathIs(e.ctx.exec, c.exec, seg));
}
const sameStep = (V, r, q) => V.and(V.seqEq(r.consumed, q.consumed), V.seqEq(r.next.buffer, q.next.buffer), V.iff(r.next.optionsTerminated, q.next.optionsTerminated));
async function parseIdle(V, o) { // nothing selected yet
  const { log, clog, p, kids } = setup(V, o);
  const started = V.flag("started"); const ds = started ? V.token("disc.state") : kids.disc.initialState, bs = undefined;
  V.assert("initial-state", p.initialState.discriminatorState === kids.disc.initialState && p.initialState.selectedBranch === undefined);
  const state = started ? { ...p.initialState, discriminatorState: ds } : p.initialState;
  const c = { buffer: bufferOf(V), state, optionsTerminated: V.flag("terminated"), usage: p.usage, exec: execFor(V) };
  const r = o.async ? await p.parse(c) : p.parse(c);
  const calls = (w) => log.filter((e) => e.who === w);
  V.assert("discriminator-asked-first-and-once", log[0].who === "disc" && calls("disc").length === 1);
  sees(V, log[0], c, ds, c.optionsTerminated, c.buffer, "_discriminator");
  const d = log[0].result;
  if (o.async === "deferred" && d.success && V.truthy(V.same(d.consumed.length, 0))) return speculative(V, { log, clog, kids, c, d, r });
  V.assert("only-the-discriminator-completed", clog.every((e) => e.who === "disc") && clog.length === (d.success ? 1 : 0));
  const done = d.success ? clog[0].result : undefined; if (d.success) V.assert("completed-from-the-new-state", clog[0].state === d.next.state && pathIs(clog[0].exec, c.exec, "_discriminator"));
  const named = done?.success ? NAMES.find((n) => V.truthy(V.same(done.value, n))) : undefined;
  if (named) {
    only(V, log, "disc", named); V.assert("branch-asked-once", calls(named).length === 1);
    const e = calls(named)[0], b = e.result; sees(V, e, c, kids[named].initialState, d.next.optionsTerminated, d.next.buffer, "_branch");
    if (b.success) {
      V.cover("branch"); V.assert("succeeds-with-the-branch", r.success);
      V.assert("consumed-is-both", V.and(V.seqEq(r.consumed, V.concat(d.consumed, b.consumed)), V.seqEq(r.next.buffer, b.next.buffer), V.iff(r.next.optionsTerminated, b.next.optionsTerminated), V.seqEq(V.concat(r.consumed, r.next.buffer), c.buffer)));
      V.assert("branch-selected", r.next.state.selectedBranch?.kind === "branch" && V.same(r.next.state.selectedBranch.key, named) && r.next.state.branchState === b.next.state && r.next.state.discriminatorState === d.next.state && V.same(r.next.state.discriminatorValue, named));
      const tentative = V.or(b.provisional === true, V.and(V.same(d.consumed.length, 0), V.same(b.consumed.length, 0)));
      V.assert("tentative-only-if-nothing-is-settled", V.iff(r.provisional === true, tentative));
    } else if (V.truthy(d.consumed.length > 0)) {
      V.cover("commit"); V.assert("commits-to-the-named-branch", r.success && r.next.state.selectedBranch?.kind === "branch" && V.same(r.next.state.selectedBranch.key, named) && r.next.state.branchState === kids[named].initialState && r.next.state.discriminatorState === d.next.state && V.same(r.next.state.discriminatorValue, named));
      V.assert("consumed-is-the-discriminator's", V.and(sameStep(V, r, d), !r.provisional));
    } else { V.cover("branch-fails"); V.assert("branch-failure-reported", !r.success && r.error === b.error && V.same(r.consumed, b.consumed)); }
    return;
  }
  if (d.success && V.truthy(d.consumed.length > 0)) {
    V.cover("unknown-value"); only(V, log, "disc");
    V.assert("consumed-but-useless-discriminator-fails", !r.success && V.same(r.consumed, d.consumed.length) && (done.success || r.error === done.error));
    return;
  }
  only(V, log, "disc", "default");
  const df = calls("default")[0]?.result;
  if (kids.default) { V.assert("default-asked-once", calls("default").length === 1); sees(V, calls("default")[0], c, kids.default.initialState, c.optionsTerminated, c.buffer, "_branch"); }
  const quiet = d.success || V.truthy(V.same(d.consumed, 0));
  const accepted = df?.success && (V.truthy(df.consumed.length > 0) || quiet && V.truthy(V.same(c.buffer.length, 0)));
  if (accepted) { V.cover("default"); V.assert("default-selected", r.success && r.next.state.selectedBranch?.kind === "default" && r.next.state.branchState === df.next.state); V.assert("step-is-the-default's", sameStep(V, r, df)); V.assert("as-tentative-as-the-default", (r.provisional === true) === (df.provisional === true)); }
  else if (df && !df.success && V.truthy(df.consumed > 0)) V.assert("default-failure-reported", !r.success && r.error === df.error && V.same(r.consumed, df.consumed));
  else { V.cover("no-match"); V.assert("no-match-is-a-failure", !r.success && V.same(r.consumed, 0)); }
}
// The discriminator's answer comes later: a branch may be tried, but only an unambiguous one, and only tentatively.
function speculative(V, { log, clog, kids, c, d, r }) {
  V.assert("deferred-discriminator-not-completed", clog.length === 0);
  const first = (w) => log.find((e) => e.who === w)?.result;
  for (const e of log.slice(1)) sees(V, e, c, kids[e.who].initialState, d.next.optionsTerminated, d.next.buffer, "_branch");
  const took = (q) => q !== undefined && q.success && V.truthy(q.consumed.length > 0);
  const a = first("one"), b = first("two"); const hits = [["one", a], ["two", b]].filter(([, q]) => took(q));
  const sure = hits.filter(([, q]) => !q.provisional);
  if (a !== undefined && b === undefined) V.fail("every-branch-considered");
  if (!r.success) { const fs = log.slice(1).map((e) => e.result).filter((q) => !q.success); V.assert("only-a-consuming-failure-is-reported", V.or(...fs.map((q) => r.error === q.error ? V.and(q.consumed > 0, V.same(r.consumed, q.consumed)) : false))); V.assert("no-failure-over-a-match", hits.length === 0); return; }
  const sel = r.next.state.selectedBranch;
  if (sel?.kind === "branch") {
    V.cover("speculates"); const hit = hits.find(([n]) => V.truthy(V.same(sel.key, n)));
    V.assert("speculates-only-on-the-one-match", hits.length === 1 && hit !== undefined);
    V.assert("speculation-is-tentative", r.provisional === true && r.next.state.speculative === true && r.next.state.discriminatorValue === undefined);
    V.assert("step-is-the-branch's", V.and(sameStep(V, r, hit[1]), r.next.state.branchState === hit[1].next.state, r.next.state.discriminatorState === d.next.state));
  } else if (sel?.kind === "default") {
    V.cover("speculative-default"); const df = first("default");
    V.assert("default-only-without-a-match", hits.length === 0 && took(df));
    V.assert("step-is-the-default's", V.and(sameStep(V, r, df), r.next.state.branchState === df.next.state)); V.assert("as-tentative-as-the-default", (r.provisional === true) === (df.provisional === true));
  } else {
    V.cover("waits"); V.assert("waiting-consumes-nothing", V.and(sameStep(V, r, d), r.provisional === true, r.next.state.discriminatorState === d.next.state));
    V.assert("waits-only-without-one-match", hits.length !== 1);
  }
}
async function parseSelected(V, o) {
  const { log, clog, p, kids } = setup(V, o);
  const which = kids.default && V.flag("default-selected") ? "default" : NAMES[V.pick("selected", 2)];
  const spec = o.async && which !== "default" && V.flag("speculative");
  const state = { ...p.initialState, discriminatorState: V.token("disc.state"), branchState: V.token("branch.state"), selectedBranch: which === "default" ? { kind: "default" } : { kind: "branch", key: which }, ...(which === "default" || spec ? {} : { discriminatorValue: which }), ...(spec ? { speculative: true } : {}) };
  const c = { buffer: bufferOf(V), state, optionsTerminated: V.flag("terminated"), usage: p.usage, exec: execFor(V) };
  const r = o.async ? await p.parse(c) : p.parse(c);
  only(V, log, which); V.assert("asked-once", log.length === 1 && clog.length === 0);
  sees(V, log[0], c, state.branchState, c.optionsTerminated, c.buffer, "_branch");
  const b = log[0].result;
  if (!b.success) { V.cover("failure"); V.assert("branch-failure-reported", !r.success && r.error === b.error && V.same(r.consumed, b.consumed)); return; }
  V.cover("success"); V.assert("succeeds", r.success); V.assert("step-is-the-branch's", sameStep(V, r, b));
  const s = r.next.state; V.assert("selection-kept", s.selectedBranch?.kind === state.selectedBranch.kind && (which === "default" || V.truthy(V.same(s.selectedBranch.key, which))) && s.discriminatorState === state.discriminatorState && s.branchState === b.next.state && s.discriminatorValue === state.discriminatorValue && s.speculative === state.speculative);
  V.assert("tentative-while-unverified", !spec || r.provisional === true);
}
async function completes(V, o) {
  const { log, clog, p, kids } = setup(V, o);
  const sel = V.pick("selection", kids.default ? 3 : 2); // nothing, a branch, the default
  const which = sel === 1 ? NAMES[V.pick("selected", 2)] : "default"; const spec = sel === 1 && o.async === "deferred" && V.flag("speculative");
  const ds = V.token("disc.state"), bs = sel === 0 ? undefined : V.token("branch.state");
  const state = { ...p.initialState, discriminatorState: ds, branchState: bs, ...(sel ? { selectedBranch: sel === 1 ? { kind: "branch", key: which } : { kind: "default" } } : {}), ...(sel === 1 && !spec ? { discriminatorValue: which } : {}), ...(spec ? { speculative: true } : {}) };
  const exec = V.flag("exec") ? { usage: [], phase: "complete", path: ["outer"], trace: undefined } : undefined;
  const r = o.async ? await p.complete(state, exec) : p.complete(state, exec);
  const dc = clog.filter((e) => e.who === "disc"); for (const e of dc) V.assert("discriminator-completed-from-its-own-state", e.state === ds && (exec === undefined || pathIs(e.exec, exec, "_discriminator")));
  V.assert("discriminator-completed-at-most-once", dc.length <= 1);
  const at = (w) => clog.filter((e) => e.who === w); const done = dc[0]?.result;
  const finish = (w, value, state) => {
    const e = at(w); V.assert("only-that-branch-completed", e.length === 1 && clog.every((x) => x.who === w || x.who === "disc")); V.assert("branch-completed-from-its-own-state", e[0].state === state && (exec === undefined || pathIs(e[0].exec, exec, "_branch")));
    if (!e[0].result.success) { V.cover("branch-incomplete"); V.assert("branch-failure-reported", !r.success && r.error === e[0].result.error); return; }
    V.cover(w === "default" ? "default" : "branch"); V.assert("pairs-the-value-with-its-branch", r.success && r.value.length === 2 && (value === undefined ? r.value[0] === undefined : V.truthy(V.same(r.value[0], value))) && r.value[1] === e[0].result.value && !("deferred" in r));
  };
  if (sel === 1 && !spec) { V.assert("value-already-known", dc.length === 0 && log.length === 0); return finish(which, which, bs); }
  if (sel === 2) { V.assert("no-discriminator-for-the-default", dc.length === 0 && log.length === 0); return finish("default", undefined, bs); }
  V.assert("discriminator-completed", dc.length === 1);
  const named = done.success ? NAMES.find((n) => V.truthy(V.same(done.value, n))) : undefined;
  if (spec) {
    V.cover("verify");
    if (!done.success) { V.assert("discriminator-failure-reported", !r.success && r.error === done.error); return; }
    if (named !== which) { V.cover("mismatch"); V.assert("wrong-guess-never-succeeds", !r.success); return; }
    const e = at(which); if (e.length && !e[0].result.success) { V.assert("branch-failure-reported", !r.success && r.error === e[0].result.error); return; }
    return finish(which, which, bs);
  }
  if (named) { V.cover("late"); only(V, log, named); const q = log[0]?.result; if (log.length) V.assert("replayed-on-nothing", V.same(log[0].ctx.buffer.length, 0) && log.length === 1 && log[0].ctx.state === kids[named].initialState); return finish(named, named, q?.success ? q.next.state : kids[named].initialState); }
  V.assert("nothing-replayed", log.length === 0);
  if (kids.default) return finish("default", undefined, kids.default.initialState);
  V.cover("nothing"); V.assert("fails-without-a-branch", !r.success && (done.success || r.error === done.error));
}
const mk = (id, run, o, covers, extra = {}) => ({ id, prop: ["C29", "C01", ...(o.async ? ["C20"] : [])], use: [CO], targets: ["core/src/constructs.ts#conditional"], covers, models: errModels, trusted: [errTrust, "discriminator and branches are arbitrary objects obeying the step contract"], bounded: "two named branches and an optional default branch", run: (V) => run(V, o), ...extra });
export const contracts = [
  mk("conditional.parse/unselected", parseIdle, { provisional: true }, ["branch", "commit", "branch-fails", "unknown-value", "default", "no-match"]),
  mk("conditional.parse/unselected/async-branch", parseIdle, { async: "branch", provisional: true }, ["branch", "commit", "branch-fails", "unknown-value", "default", "no-match"]),
  mk("conditional.parse/unselected/async-discriminator", parseIdle, { async: "deferred", provisional: true }, ["branch", "commit", "unknown-value", "default", "no-match", "speculates", "speculative-default", "waits"]),
  mk("conditional.parse/selected", parseSelected, {}, ["failure", "success"]),
  mk("conditional.parse/selected/async", parseSelected, { async: "disc" }, ["failure", "success"]),
  mk("conditional.complete", completes, {}, ["branch", "default", "late", "nothing", "branch-incomplete"]),
  mk("conditional.complete/async-branch", completes, { async: "branch" }, ["branch", "default", "late", "nothing", "branch-incomplete"]),
  mk("conditional.complete/async-discriminator", completes, { async: "deferred" }, ["branch", "default", "late", "nothing", "branch-incomplete", "verify", "mismatch"]),
];
