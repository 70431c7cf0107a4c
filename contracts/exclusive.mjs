// or(), longestMatch(): one branch, and the right one.  Branches are arbitrary parsers obeying the step contract.
import { CO, bufferOf, childParser, errModels, errTrust } from "./_h.mjs";
const TRACE = { $trace: true };
// an execution context as drivers hand it down, or none
export function execFor(V, name = "exec") { return V.flag(name) ? { usage: [], phase: "parse", path: ["outer"], trace: undefined, commandPath: ["cmd"] } : undefined; }
export function child(V, name, o = {}) {
  const p = childParser(V, { name, noStall: o.noStall, provisional: o.provisional, async: o.async, initialState: V.token(name + ".initial"), failMax: 2, whole: true });
  if (o.silent) { p.leadingNames = new Set(); p.acceptingAnyToken = false; }
  return p;
}
const onOriginal = (p, c) => p.parses.filter((x) => x.ctx.buffer === c.buffer);
const pathOk = (x, c, i) => c.exec === undefined ? x.ctx.exec === undefined : x.ctx.exec.path.length === 2 && x.ctx.exec.path[0] === "outer" && x.ctx.exec.path[1] === i && x.ctx.exec.commandPath === c.exec.commandPath;
const sees = (V, x, c, i, st) => x.ctx.state === st && x.ctx.optionsTerminated === c.optionsTerminated && x.ctx.usage === c.usage && pathOk(x, c, i);
function activeOf(V, n, kinds) {
  const k = V.pick("active", kinds.length), kind = kinds[k];
  if (kind === "none") return [undefined, -1];
  const i = V.pick("active-branch", n), st = V.token("active.state");
  const consumed = kind === "idle" ? [] : Array.from({ length: (kind === "used" ? 1 : 0) + V.pick("active.consumed", kind === "used" ? 2 : 3) }, (_, k) => V.str("active.consumed" + k, { pool: ["--a", "x", "-v"] }));
  return [[i, { success: true, consumed, next: { buffer: [], state: st, optionsTerminated: false, usage: [] } }], i, st, consumed];
}
function stepOf(V, r, c, i, from, extra = {}) { // r is branch i's result `from`, handed on
  const f = from.result;
  return V.and(r.success && V.truthy(V.seqEq(r.consumed, f.consumed)), V.seqEq(r.next.buffer, f.next.buffer), V.iff(r.next.optionsTerminated, f.next.optionsTerminated), r.next.usage === c.usage,
    Array.isArray(r.next.state) && r.next.state.length === 2 && r.next.state[0] === i && r.next.state[1].success && r.next.state[1].next.state === f.next.state && !!r.provisional === !!extra.provisional);
}
// What a branch was asked after its first step: to take the earlier input from its own initial state, step by step, and then the input at hand on top of it.
function replays(V, kid, c, prev) {
  const more = kid.parses.slice(1), replay = more.find((x) => x.ctx.buffer === c.buffer), checks = more.filter((x) => x !== replay), last = checks[checks.length - 1], steps = checks.every((x) => x.result.success && V.truthy(x.result.consumed.length > 0));
  const all = checks.reduce((a, x) => x.result.success ? V.concat(a, x.result.consumed) : a, []);
  return { more, replay, last, shared: checks.length > 0 && steps && V.truthy(V.seqEq(all, prev)),
    sound: checks.length > 0 && (replay === undefined || more[more.length - 1] === replay) && checks.every((x, k) => k === 0 ? V.truthy(V.seqEq(x.ctx.buffer, prev)) && x.ctx.state === kid.initialState : checks[k - 1].result.success && x.ctx.buffer === checks[k - 1].result.next.buffer && x.ctx.state === checks[k - 1].result.next.state) };
}
async function orStep(V, o) {
  const { or } = V.mod(CO);
  const n = o.n, kids = [];
  for (let i = 0; i < n; i++) kids.push(child(V, "branch" + i, { async: o.async && (i === o.asyncAt || o.asyncAt === undefined), provisional: o.provisional, noStall: o.noStall, silent: o.silent?.includes(i) }));
  const p = or(...kids);
  V.assert("mode", p.mode === (o.async ? "async" : "sync"));
  const [state, ai, ast, prev] = activeOf(V, n, o.active);
  const c = { buffer: o.sized ? Array.from({ length: V.pick("tokens", o.sized + 1) }, (_, k) => V.str("token" + k, { pool: ["--a", "x", "-v", "--"] })) : bufferOf(V), state, optionsTerminated: V.flag("terminated"), usage: p.usage, exec: o.exec ? execFor(V) : undefined };
  const r = o.async ? await p.parse(c) : p.parse(c);
  V.assert("step-conserves-input", r.success ? V.seqEq(V.concat(r.consumed, r.next.buffer), c.buffer) : true);
  const order = ai < 0 ? kids.map((_, i) => i) : [ai, ...kids.map((_, i) => i).filter((i) => i !== ai)];
  const first = kids.map((k) => k.parses[0]);
  for (const i of order) if (first[i]) V.assert("branch-sees-the-input-and-its-own-state", first[i].ctx.buffer === c.buffer && V.truthy(sees(V, first[i], c, i, i === ai ? ast : kids[i].initialState)));
  const consumes = (i) => first[i] !== undefined && first[i].result.success && first[i].kind === 1;
  const definitive = order.filter((i) => consumes(i) && !first[i].result.provisional);
  const tentative = order.filter((i) => consumes(i) && first[i].result.provisional);
  const tried = order.filter((i) => first[i]);
  V.assert("branches-tried-in-order", tried.every((i, k) => order[k] === i));
  const failed = tried.filter((i) => !first[i].result.success);
  const deepest = () => failed.map((i) => first[i].result);
  const ownError = () => V.and(...deepest().map((f) => r.consumed >= f.consumed), V.or(V.same(r.consumed, 0), ...deepest().map((f) => r.error === f.error ? V.same(r.consumed, f.consumed) : false)));
  const locked = ai >= 0 && V.truthy(prev.length > 0);
  let w = definitive[0];
  const asTentative = w === undefined && tentative.length > 0;
  if (w !== undefined) V.assert("nothing-tried-after-the-winner", tried[tried.length - 1] === w);
  else {
    V.assert("every-branch-tried", tried.length === n);
    if (asTentative) w = locked && tentative.includes(ai) ? ai : tentative.length === 1 ? tentative[0] : undefined;
  }
  if (w !== undefined && (!locked || w === ai)) {
    V.cover(asTentative ? "tentative" : ai >= 0 && w !== ai ? "switched-freely" : "consumed");
    V.assert("result-is-the-first-consuming-branch's", stepOf(V, r, c, w, first[w], { provisional: asTentative }));
    V.assert("no-branch-run-twice", kids.every((k) => k.parses.length <= 1));
    V.assert("stored-input-is-everything-so-far", V.seqEq(r.next.state[1].consumed, locked ? V.concat(prev, r.consumed) : r.consumed));
    return;
  }
  if (w !== undefined) { // another branch than the committed one
    const { shared, last, replay, sound } = replays(V, kids[w], c, prev);
    V.assert("switch-only-after-replaying-earlier-input", sound);
    if (!shared) { V.cover("conflict"); V.assert("conflicting-branches-rejected", V.and(!r.success, replay === undefined)); if (!r.success && !asTentative) V.assert("conflict-depth", V.same(r.consumed, c.buffer.length - first[w].result.next.buffer.length)); return; }
    V.assert("replayed-on-top-of-the-earlier-input", replay !== undefined && replay.ctx.state === last.result.next.state && V.truthy(V.iff(replay.ctx.optionsTerminated, c.optionsTerminated)));
    if (!replay.result.success) { V.cover("replay-failed"); V.assert("replay-failure-kept", !r.success && r.error === replay.result.error); return; }
    V.cover("switched");
    V.assert("switched-result-is-the-replay's", stepOf(V, r, c, w, replay, { provisional: asTentative }));
    V.assert("stored-input-is-everything-so-far", V.seqEq(r.next.state[1].consumed, V.concat(prev, r.consumed)));
    return;
  }
  // no branch consumed anything (or several tentatively)
  V.assert("no-branch-run-twice", kids.every((k) => k.parses.length <= 1));
  const idle = order.filter((i) => first[i].result.success && first[i].kind !== 1 && !first[i].result.provisional && o.silent?.includes(i));
  const clean = V.truthy(V.and(c.buffer.length === 0, ...deepest().map((f) => V.same(f.consumed, 0))));
  if (tentative.length === 0 && idle.length === 1 && clean) { V.cover("idle-branch"); V.assert("the-only-idle-branch-is-kept", r.success && r.consumed.length === 0 && r.next.buffer === c.buffer && r.next.state[0] === idle[0] && r.next.state[1].next.state === first[idle[0]].result.next.state && V.truthy(V.iff(r.next.optionsTerminated, c.optionsTerminated))); return; }
  if (tentative.length > 0) V.cover("ambiguous");
  V.cover("no-match");
  V.assert("nothing-guessed", !r.success);
  V.assert("deepest-failure-reported", ownError());
}
async function longestStep(V, o) {
  const { longestMatch } = V.mod(CO);
  const n = o.n, kids = [];
  for (let i = 0; i < n; i++) kids.push(child(V, "branch" + i, { async: o.async, provisional: o.provisional, noStall: o.noStall }));
  const p = longestMatch(...kids);
  V.assert("mode", p.mode === (o.async ? "async" : "sync"));
  const [state, ai, ast, prev] = activeOf(V, n, o.active), locked = ai >= 0 && V.truthy(prev.length > 0);
  const c = { buffer: o.sized ? Array.from({ length: V.pick("tokens", o.sized + 1) }, (_, k) => V.str("token" + k, { pool: ["--a", "x", "-v", "--"] })) : bufferOf(V), state, optionsTerminated: V.flag("terminated"), usage: p.usage, exec: o.exec ? execFor(V) : undefined };
  const r = o.async ? await p.parse(c) : p.parse(c);
  V.assert("every-branch-run", kids.every((k) => k.parses.length >= 1));
  kids.forEach((k, i) => V.assert("branch-sees-the-input-and-its-own-state", k.parses[0].ctx.buffer === c.buffer && V.truthy(sees(V, k.parses[0], c, i, i === ai ? ast : k.initialState))));
  // once a branch has consumed input, another one can only follow if it consumes that input too
  let conflict = false;
  const res = kids.map((k, i) => {
    const f = k.parses[0].result;
    if (!locked || i === ai || !f.success || k.parses[0].kind !== 1) { V.assert("branches-run-again-only-to-take-over", k.parses.length === 1); return locked && i !== ai && f.success ? undefined : f; }
    const q = replays(V, k, c, prev);
    V.assert("taking-over-means-replaying-the-earlier-input", q.sound);
    if (!q.shared) { V.assert("nothing-more-of-it", q.replay === undefined); conflict = true; return undefined; }
    V.assert("replayed-on-top-of-the-earlier-input", q.replay !== undefined && q.replay.ctx.state === q.last.result.next.state && V.truthy(V.iff(q.replay.ctx.optionsTerminated, c.optionsTerminated)));
    return q.replay.result.success && V.truthy(q.replay.result.consumed.length < 1) ? undefined : q.replay.result;
  });
  const won = res.map((x) => x?.success === true), fails = res.filter((x) => x?.success === false);
  if (!won.some((x) => x)) {
    V.cover("no-match");
    V.assert("fails-when-every-branch-fails", !r.success);
    if (conflict) { V.cover("conflict"); return; }
    V.assert("deepest-failure-reported", V.and(...fails.map((f) => r.consumed >= f.consumed), V.or(V.same(r.consumed, 0), ...fails.map((f) => r.error === f.error ? V.same(r.consumed, f.consumed) : false))));
    return;
  }
  V.cover("matched");
  V.assert("succeeds-when-a-branch-does", r.success);
  const w = r.next.state[0];
  if (locked && w !== ai) V.cover("switched");
  V.assert("result-is-that-branch's", V.and(won[w], V.seqEq(r.consumed, res[w].consumed), V.seqEq(r.next.buffer, res[w].next.buffer), V.iff(r.next.optionsTerminated, res[w].next.optionsTerminated), r.next.state[1].next.state === res[w].next.state, r.next.usage === c.usage));
  V.assert("stored-input-is-everything-so-far", V.seqEq(r.next.state[1].consumed, locked ? V.concat(prev, r.consumed) : r.consumed));
  const ok = res.map((x, i) => [x, i]).filter(([, i]) => won[i]);
  V.assert("no-branch-consumed-more", V.and(...ok.map(([x]) => x.consumed.length <= res[w].consumed.length)));
  V.assert("first-among-equals", V.and(...ok.map(([x, i]) => !!x.provisional !== !!res[w].provisional ? true : i < w ? x.consumed.length < res[w].consumed.length : true)));
  V.assert("definitive-before-tentative", V.and(...ok.map(([x]) => x.provisional || !res[w].provisional ? true : x.consumed.length < res[w].consumed.length)));
}
async function complete(V, kind, o) {
  const n = o.n, kids = []; const m = V.mod(CO);
  for (let i = 0; i < n; i++) kids.push(child(V, "branch" + i, { async: o.async, silent: o.silent?.includes(i), provisional: o.provisional }));
  const p = kind === "or" ? m.or(...kids) : m.longestMatch(...kids);
  const [state, ai, ast] = activeOf(V, n, ["none", "idle", "any"]);
  const exec = V.flag("exec") ? { usage: [], phase: "complete", path: ["outer"], trace: undefined } : undefined;
  const r = o.async ? await p.complete(state, exec) : p.complete(state, exec);
  const done = kids.flatMap((k, i) => k.completes.map((x) => ({ ...x, i })));
  V.assert("at-most-one-branch-completed", done.length <= 1);
  if (ai >= 0) {
    V.cover("committed");
    V.assert("committed-branch-completed", done.length === 1 && done[0].i === ai && done[0].state === ast);
    V.assert("nothing-parsed-again", kids.every((k) => k.parses.length === 0));
  } else {
    for (const k of kids) for (const x of k.parses) V.assert("only-idle-branches-tried", o.silent?.includes(kids.indexOf(k)) && x.ctx.buffer.length === 0 && x.ctx.state === k.initialState);
    const ok = kids.map((k, i) => i).filter((i) => kids[i].parses.length > 0 && kids[i].parses[0].result.success && !kids[i].parses[0].result.provisional);
    const tries = (o.silent ?? []).filter((i) => kids[i].parses.length > 0);
    if (ok.length !== 1) { V.cover("no-branch"); V.assert("ambiguous-or-absent-is-an-error", !r.success && done.length === 0); if (ok.length === 0) V.assert("every-idle-branch-tried", tries.length === (o.silent ?? []).length); return; }
    V.cover("idle-branch");
    V.assert("every-idle-branch-tried", tries.length === (o.silent ?? []).length);
    V.assert("the-only-idle-branch-completed", done.length === 1 && done[0].i === ok[0] && done[0].state === kids[ok[0]].parses[0].result.next.state);
  }
  const d = done[0];
  V.assert("path", exec === undefined ? d.exec === undefined : d.exec.path.length === 2 && d.exec.path[0] === "outer" && d.exec.path[1] === d.i);
  V.assert("result-is-that-branch's", r.success === d.result.success && (r.success ? r.value === d.result.value : r.error === d.result.error));
}
const models = { ...errModels, "core/src/constructs.ts#createUnexpectedInputErrorWithScopedSuggestions": (V, base) => base };
const mk = (id, prop, fns, run, covers, o = {}) => ({ id, prop, use: [CO], targets: fns.map((f) => "core/src/constructs.ts#" + f), covers, models, trusted: [errTrust, "each branch is an arbitrary object obeying the step contract"], run, ...o });
const both = (id, prop, fns, run, o0, covers, o = {}) => [mk(id, prop, fns, (V) => run(V, o0), covers, o), mk(id + "/async", [...prop, "C20"], fns, (V) => run(V, { ...o0, async: true }), covers, o)];
export const contracts = [
  ...both("or.parse/fresh", ["C29", "C01"], ["or"], orStep, { n: 3, active: ["none"], exec: true }, ["consumed", "no-match"], { bounded: "three alternatives" }),
  ...both("or.parse/committed", ["C29", "C01"], ["or"], orStep, { n: 2, active: ["idle", "used"], noStall: true, sized: 3 }, ["consumed", "conflict", "switched", "switched-freely", "replay-failed", "no-match"], { bounded: "two alternatives, two tokens at hand and two taken earlier (their text arbitrary)" }),
  ...both("or.parse/tentative", ["C29", "C01"], ["or"], orStep, { n: 2, active: ["none", "used"], provisional: true, noStall: true, sized: 3 }, ["tentative", "ambiguous", "conflict", "switched"], { bounded: "two alternatives, two tokens at hand and two taken earlier (their text arbitrary)" }),
  ...both("or.parse/idle", ["C29", "C01"], ["or"], orStep, { n: 3, active: ["none"], silent: [0, 2] }, ["idle-branch", "consumed", "no-match"], { bounded: "three alternatives" }),
  ...both("longestMatch.parse", ["C29", "C01"], ["longestMatch"], longestStep, { n: 2, active: ["none", "any"], provisional: true, exec: true, sized: 2 }, ["matched", "no-match", "conflict", "switched"], { bounded: "two alternatives, two tokens at hand and two taken earlier (their text arbitrary)" }),
  ...both("longestMatch.parse/3", ["C29", "C01"], ["longestMatch"], longestStep, { n: 3, active: ["none"] }, ["matched", "no-match"], { bounded: "three alternatives" }),
  ...both("or.complete", ["C29"], ["or", "createExclusiveComplete"], (V, o) => complete(V, "or", o), { n: 3, silent: [0, 2], provisional: true }, ["committed", "no-branch", "idle-branch"], { bounded: "three alternatives" }),
  ...both("longestMatch.complete", ["C29"], ["longestMatch", "createExclusiveComplete"], (V, o) => complete(V, "longest", o), { n: 3, silent: [0, 2] }, ["committed", "no-branch", "idle-branch"], { bounded: "three alternatives" }),
];
