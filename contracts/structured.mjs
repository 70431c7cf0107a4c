// object(), tuple(), merge(), concat(), group(): every token to one field, every value in its own place.
// Fields are arbitrary parsers obeying the step contract.
import { CO, bufferOf, childParser, errModels, errTrust } from "./_h.mjs";
import { execFor } from "./exclusive.mjs";
const SYM = Symbol("s");
const KEYS = [["a", "b"], ["b", "a"], [SYM, "a"], ["__x", "0"]];
export function field(V, name, who, o) {
  const p = childParser(V, { name, who, async: o.async, log: o.log, clog: o.clog, budget: o.budget, never: o.silent, noStall: o.noStall, noTerminate: o.noTerminate, failMax: o.failMax ?? 1, initialState: V.token(name + ".initial"), alwaysCompletes: o.alwaysCompletes, pure: o.pure });
  if (o.silent) { p.leadingNames = new Set(); p.acceptingAnyToken = false; }
  p.priority = o.priority ?? 10;
  return p;
}
export const pathIs = (exec, base, seg) => base === undefined ? true : exec !== undefined && exec.path.length === base.path.length + 1 && exec.path[exec.path.length - 1] === seg && base.path.every((x, i) => exec.path[i] === x);
// Follow the field calls in time order; every call sees exactly what is left and its own field's state.
export function follow(V, log, c, states, order, base, segOf = (k) => k) {
  let buf = c.buffer, term = c.optionsTerminated; const st = { ...states }; let taken = []; let any = false;
  const declined = new Map(); let deepest = [];
  for (const e of log) {
    const r = e.result;
    V.assert("field-sees-the-remaining-input", e.ctx.buffer === buf || V.truthy(V.seqEq(e.ctx.buffer, buf)));
    V.assert("field-sees-its-own-state", e.ctx.state === st[e.who]);
    V.assert("field-sees-the-terminator", V.iff(e.ctx.optionsTerminated, term));
    V.assert("field-path", pathIs(e.ctx.exec, base, segOf(e.who)));
    if (r.success && e.kind === 1) {
      const mine = order.indexOf(e.who);
      V.assert("input-offered-in-priority-order", order.slice(0, mine).every((k) => declined.get(k)));
      taken = V.concat(taken, r.consumed); buf = r.next.buffer; term = r.next.optionsTerminated; st[e.who] = r.next.state; any = true; declined.clear();
    } else { declined.set(e.who, true); if (!r.success && !e.silent) deepest.push(r); e.idle = r.success; if (r.success && e.silent) st[e.who] = r.next.state; }
  }
  return { buf, term, st, taken, any, declined, deepest };
}
async function objectParse(V, o) {
  const { object } = V.mod(CO);
  const keys = o.n === 1 ? ["only"] : KEYS[V.pick("keys", o.keys ?? 1)], n = keys.length;
  const log = [], clog = [], budget = { left: o.steps };
  const parsers = {}; const prio = V.flag("second-first");
  keys.forEach((k, i) => { parsers[k] = field(V, "field" + i, k, { ...o, log, clog, budget, silent: o.silent?.includes(i), priority: prio && i === 1 ? 20 : 10 }); });
  const p = object(parsers);
  V.assert("mode", p.mode === (o.async ? "async" : "sync"));
  const order = prio && n > 1 ? [keys[1], keys[0]] : keys;
  const started = V.flag("started"); const states = {}, init = {};
  for (const k of keys) init[k] = states[k] = started ? V.token("state") : parsers[k].initialState;
  const c = { buffer: bufferOf(V), state: started ? { ...init } : p.initialState, optionsTerminated: V.flag("terminated"), usage: p.usage, exec: o.exec ? execFor(V) : undefined };
  for (const k of keys) V.assert("initial-state-is-the-field's", started || c.state[k] === parsers[k].initialState);
  const r = o.async ? await p.parse(c) : p.parse(c);
  // the last pass gives fields that can never match a token a chance to settle
  let greedy = log.length; const consumedFields = new Set(log.filter((e) => e.result.success && e.kind === 1).map((e) => e.who));
  for (const e of log) e.silent = false;
  if (o.silent) { const quiet = keys.filter((k, i) => o.silent.includes(i) && !consumedFields.has(k)); greedy -= quiet.length; log.slice(greedy).forEach((e) => { e.silent = true; V.assert("settling-only-for-quiet-fields", quiet.includes(e.who)); }); }
  const f = follow(V, log, c, states, order, c.exec);
  V.assert("caller's-state-untouched", keys.every((k) => (started ? c.state[k] : parsers[k].initialState) === (started ? init[k] : parsers[k].initialState)));
  const nothingLeft = V.truthy(f.buf.length === 0);
  if (!nothingLeft) { const last = new Map(); for (const e of log.slice(0, greedy)) if (e.kind === 1 && e.result.success) last.clear(); else last.set(e.who, true); V.assert("stops-only-when-every-field-declines", keys.every((k) => last.get(k))); }
  const kept = () => r.success && V.truthy(V.and(V.seqEq(r.consumed, f.taken), V.seqEq(r.next.buffer, f.buf), V.iff(r.next.optionsTerminated, f.term), r.next.usage === c.usage)) && keys.every((k) => r.next.state[k] === f.st[k]) && Reflect.ownKeys(r.next.state).length === n;
  if (f.any) { V.cover("consumed"); V.assert("step-is-exactly-what-the-fields-did", kept()); V.assert("nothing-completed", clog.length === 0); return; }
  if (nothingLeft) {
    for (const e of clog) V.assert("probe-sees-the-field's-state", e.state === f.st[e.who] && (c.exec === undefined || pathIs(e.exec, c.exec, e.who)) && e.exec.phase === "parse");
    const bad = clog.filter((e) => !e.result.success);
    if (bad.length === 0) { V.cover("all-can-complete"); V.assert("every-field-probed", keys.every((k) => clog.some((e) => e.who === k))); V.assert("empty-step-keeps-everything", kept()); }
    else { V.cover("cannot-complete"); V.assert("incomplete-field-is-an-error", !r.success); }
    return;
  }
  V.cover("no-match");
  V.assert("fails-when-no-field-matches", !r.success && clog.length === 0);
  V.assert("deepest-failure-reported", V.and(...f.deepest.map((x) => r.consumed >= x.consumed), V.or(V.same(r.consumed, 0), ...f.deepest.map((x) => r.error === x.error ? V.same(r.consumed, x.consumed) : false))));
}
async function objectComplete(V, o) {
  const { object } = V.mod(CO);
  const keys = [...KEYS[V.pick("keys", KEYS.length)], "c"]; const clog = [], log = [];
  const parsers = {}; keys.forEach((k, i) => { parsers[k] = field(V, "field" + i, k, { async: o.async && i !== 1, clog, log, priority: 10 + (i === 1 ? 5 : 0) }); });
  const p = object(parsers);
  const state = {}; for (const k of keys) state[k] = V.token("state");
  const missing = V.flag("untouched-field"); if (missing) delete state[keys[0]];
  const exec = V.flag("exec") ? { usage: [], phase: "complete", path: ["outer"], trace: undefined } : undefined;
  const r = o.async ? await p.complete(state, exec) : p.complete(state, exec);
  V.assert("nothing-parsed", log.length === 0);
  for (const k of keys) V.assert("each-field-completed-at-most-once", clog.filter((e) => e.who === k).length <= 1);
  for (const e of clog) V.assert("field-completed-from-its-own-state", e.state === (missing && e.who === keys[0] ? parsers[e.who].initialState : state[e.who]) && pathIs(e.exec, exec, e.who));
  const own = Reflect.ownKeys(parsers);
  const done = own.map((k) => clog.find((e) => e.who === k));
  const bad = done.find((e) => e !== undefined && !e.result.success);
  if (bad) { V.cover("failure"); V.assert("failing-field-reported", !r.success && r.error === bad.result.error); return; }
  V.cover("complete");
  V.assert("succeeds-when-every-field-does", r.success && done.every((e) => e !== undefined));
  V.assert("every-value-in-its-own-place", own.every((k, i) => r.value[k] === done[i].result.value));
  V.assert("fields-in-declaration-order-and-no-others", Reflect.ownKeys(r.value).length === own.length && Reflect.ownKeys(r.value).every((k, i) => k === own[i]));
  V.assert("not-deferred", !("deferred" in r));
}

// ---- tuple() and concat(): positions instead of names. Each position takes input at most once; the reference is a fold over
// the children's own answers.
const asyncOf = (o, i) => o.async === true && i !== 1;
function positions(V, o, n) {
  const log = [], clog = [], parsers = [];
  const prio = V.flag("second-first");
  for (let i = 0; i < n; i++) { const p = field(V, "item" + i, i, { log, clog, async: asyncOf(o, i), pure: true, priority: prio && i === 1 ? 20 : 10, failMax: 1 }); parsers.push(p); }
  return { log, clog, parsers, order: prio && n > 1 ? [1, ...parsers.keys()].filter((x, k, a) => a.indexOf(x) === k) : [...parsers.keys()] };
}
const ask = async (p, ctx) => await p.parse(ctx);
async function positionsParse(V, o) {
  const make = V.mod(CO)[o.fn]; const n = o.n ?? 2;
  const { log, clog, parsers, order } = positions(V, o, n);
  const p = o.fn !== "tuple" ? make(...parsers) : make(parsers);
  V.assert("mode", p.mode === (o.async ? "async" : "sync"));
  V.assert("initial-state-is-each-item's", p.initialState.length === n && parsers.every((q, i) => p.initialState[i] === q.initialState));
  const started = V.flag("started"); const st = parsers.map((q) => started ? V.token("state") : q.initialState);
  const given = started ? [...st] : p.initialState;
  const c = { buffer: bufferOf(V), state: given, optionsTerminated: V.flag("terminated"), usage: p.usage, exec: execFor(V) };
  const r = o.async ? await p.parse(c) : p.parse(c);
  V.assert("nothing-completed", clog.length === 0);
  V.assert("caller's-state-untouched", given.length === n && given.every((x, i) => x === (started ? st[i] : parsers[i].initialState)));
  for (const e of log) V.assert("item-path", pathIs(e.ctx.exec, c.exec, e.who));
  // the reference
  let buf = c.buffer, term = c.optionsTerminated, taken = [], left = [...order], error = null; const cur = [...st];
  const view = (i) => ({ ...c, buffer: buf, optionsTerminated: term, state: cur[i] });
  while (left.length) {
    let hit = -1, deepest = { consumed: 0, error: undefined };
    for (const i of left) { const q = await ask(parsers[i], view(i)); if (q.success && V.truthy(q.consumed.length > 0)) { hit = i; taken = V.concat(taken, q.consumed); buf = q.next.buffer; term = q.next.optionsTerminated; cur[i] = q.next.state; break; } else if (!q.success && V.truthy(q.consumed > deepest.consumed)) deepest = q; }
    if (hit < 0) for (const i of left) { const q = await ask(parsers[i], view(i)); if (q.success) { cur[i] = q.next.state; hit = i; break; } if (V.truthy(V.same(q.consumed, 0))) { hit = i; break; } }
    if (hit < 0) { error = deepest; break; }
    left = left.filter((i) => i !== hit);
  }
  if (error) { V.cover("stuck"); V.assert("deepest-failure-reported", !r.success && V.same(r.consumed, error.consumed) && r.error === error.error); return; }
  V.cover("through");
  V.assert("succeeds-when-every-item-had-its-turn", r.success);
  V.assert("consumed-is-exactly-what-the-items-took", V.and(V.seqEq(r.consumed, taken), V.seqEq(r.next.buffer, buf), V.seqEq(V.concat(r.consumed, r.next.buffer), c.buffer)));
  V.assert("terminator-as-the-items-left-it", V.iff(r.next.optionsTerminated, term));
  V.assert("every-state-in-its-own-position", r.next.state.length === n && cur.every((x, i) => r.next.state[i] === x));
}
async function positionsComplete(V, o) {
  const make = V.mod(CO)[o.fn]; const n = 3;
  const { log, clog, parsers } = positions(V, o, n);
  const arrays = o.fn === "concat" ? parsers.map((q, i) => V.flag("array-valued") ? 2 : -1) : null;
  if (arrays) parsers.forEach((q, i) => { const was = q.complete; q.complete = (s, e) => { const fix = (x) => x.success && arrays[i] >= 0 ? { ...x, value: [V.token("value"), V.token("value")] } : x; const x = was.call(q, s, e); const y = x instanceof Promise ? x.then((z) => { const f = fix(z); clog.find((k) => k.who === i).result = f; return f; }) : fix(x); if (!(y instanceof Promise)) clog.find((k) => k.who === i).result = y; return y; }; });
  const p = o.fn !== "tuple" ? make(...parsers) : make(parsers);
  const items = parsers.map(() => V.token("state")), st = items;
  const exec = V.flag("exec") ? { usage: [], phase: "complete", path: ["outer"], trace: undefined } : undefined;
  const r = o.async ? await p.complete(o.fn === "seq" ? { index: n, states: items } : items, exec) : p.complete(o.fn === "seq" ? { index: n, states: items } : items, exec);
  V.assert("nothing-parsed", log.length === 0);
  for (const e of clog) V.assert("item-completed-from-its-own-state", e.state === st[e.who] && (exec === undefined || pathIs(e.exec, exec, e.who)));
  const done = parsers.map((_, i) => clog.filter((e) => e.who === i));
  V.assert("each-item-completed-at-most-once", done.every((d) => d.length <= 1));
  const bad = done.find((d) => d.length === 1 && !d[0].result.success);
  if (bad) { V.cover("failure"); V.assert("first-failure-reported", !r.success && r.error === bad[0].result.error); return; }
  V.cover("complete");
  V.assert("succeeds-when-every-item-does", r.success && done.every((d) => d.length === 1));
  const want = done.flatMap((d) => arrays && Array.isArray(d[0].result.value) ? d[0].result.value : [d[0].result.value]);
  V.assert("every-value-in-its-own-position", r.value.length === want.length && want.every((x, i) => r.value[i] === x));
  V.assert("not-deferred", !("deferred" in r));
}

// ---- merge(): a whole history of steps. Every child keeps its own state, whatever its siblings (or nested merges) do.
const RESULTKEYS = [["x", "y", "z"], [SYM, "y", "z"], ["x", "x", "z"]];
function mergeChild(V, i, kind, key, o) {
  const own = (nm) => kind === "plain" ? V.token(nm) : { [key]: V.token(nm) };
  const p = childParser(V, { name: "part" + i, who: i, async: asyncOf(o, i), log: o.log, clog: o.clog, budget: o.budget, state: own, failMax: o.lean ? 0 : 1, noKeep: o.lean, noTerminate: o.noTerminate, initialState: own("part" + i + ".initial") });
  if (kind === "plain") p.initialState = undefined;
  p.complete = (state, exec) => {
    const r = o.lean || V.flag("part" + i + ".completes") ? { success: true, value: { [key]: V.token("value") } } : { success: false, error: [{ type: "text", text: "incomplete" }] };
    o.clog.push({ who: i, state, exec, result: r });
    return asyncOf(o, i) ? Promise.resolve(r) : r;
  };
  return p;
}
const SHAPES = { flat2: [2, (m, c) => m(...c)], flat3: [3, (m, c) => m(...c)], right: [3, (m, c) => m(c[0], m(c[1], c[2]))], left: [3, (m, c) => m(m(c[0], c[1]), c[2])] };
async function mergeHistory(V, o) {
  const { merge } = V.mod(CO);
  const log = [], clog = []; const [n, build] = SHAPES[o.shape]; const keys = RESULTKEYS[o.keys ?? V.pick("keys", 2)];
  const kinds = Array.from({ length: n }, (_, i) => o.kinds?.[i] ?? (V.flag("undefined-initial-state") ? "plain" : "fields"));
  const budget = { left: o.progress ?? 9 };
  const kids = kinds.map((k, i) => mergeChild(V, i, k, keys[i], { ...o, log, clog, budget }));
  if (V.flag("last-first")) kids[n - 1].priority = 20;
  const p = build(merge, kids);
  V.assert("mode", p.mode === (o.async ? "async" : "sync"));
  const st = kids.map((k) => k.initialState);
  const mine = (i, state) => kinds[i] === "plain" ? state === st[i] : state !== null && typeof state === "object" && Reflect.ownKeys(st[i]).every((k) => state[k] === st[i][k]);
  let c = { buffer: bufferOf(V), state: p.initialState, optionsTerminated: o.lean ? false : V.flag("terminated"), usage: p.usage, exec: o.lean ? { usage: [], phase: "parse", path: [], trace: undefined } : execFor(V) };
  const paths = new Map();
  const where = (e) => { if (e.ctx === undefined ? e.exec === undefined : e.ctx.exec === undefined) return; const path = (e.exec ?? e.ctx.exec).path.join("/"); if (paths.has(e.who)) V.assert("child-keeps-its-path", paths.get(e.who) === path); else { V.assert("no-two-children-share-a-path", ![...paths.values()].includes(path)); paths.set(e.who, path); } };
  for (let step = 0; step < o.steps; step++) {
    const from = log.length;
    const r = o.async ? await p.parse(c) : p.parse(c);
    const calls = log.slice(from); let term = c.optionsTerminated, decided = null;
    for (const e of calls) {
      where(e);
      V.assert("nothing-asked-after-the-decision", decided === null);
      V.assert("child-asked-once-per-step", calls.filter((x) => x.who === e.who).length === 1);
      V.assert("child-sees-the-input", V.seqEq(e.ctx.buffer, c.buffer));
      V.assert("child-sees-the-terminator", V.iff(e.ctx.optionsTerminated, term));
      V.assert("child-sees-its-own-state", mine(e.who, e.ctx.state));
      const q = e.result;
      if (q.success) { st[e.who] = q.next.state; term = q.next.optionsTerminated; if (e.kind === 1) decided = e; } else if (V.truthy(q.consumed > 0)) decided = e;
    }
    if (decided === null) V.assert("every-child-asked-before-giving-up", kids.every((_, i) => calls.some((e) => e.who === i)));
    const idle = calls.some((e) => e.result.success);
    if (decided === null && !idle) { V.cover("no-match"); V.assert("no-match-is-a-failure", !r.success && V.same(r.consumed, 0)); return; }
    if (decided !== null && !decided.result.success) { V.cover("hard-failure"); V.assert("failing-child-reported", !r.success && r.error === decided.result.error && V.same(r.consumed, decided.result.consumed)); return; }
    V.assert("succeeds", r.success);
    V.assert("consumed-is-the-child's", V.and(V.seqEq(r.consumed, decided ? decided.result.consumed : []), V.seqEq(r.next.buffer, decided ? decided.result.next.buffer : c.buffer), V.iff(r.next.optionsTerminated, term)));
    V.assert("nothing-completed-while-parsing", clog.length === 0);
    if (step === 1) V.cover("second-step");
    c = r.next;
  }
  const from = log.length; const exec = c.exec && { ...c.exec, phase: "complete" };
  const r = o.async ? await p.complete(c.state, exec) : p.complete(c.state, exec);
  V.assert("nothing-parsed-while-completing", log.length === from);
  for (const e of clog) { V.assert("child-completed-from-its-own-state", mine(e.who, e.state)); where(e); }
  V.assert("each-child-completed-at-most-once", kids.every((_, i) => clog.filter((e) => e.who === i).length <= 1));
  const bad = clog.find((e) => !e.result.success);
  if (bad) { V.cover("incomplete"); V.assert("failing-child-reported-at-completion", !r.success && r.error === bad.result.error); return; }
  V.cover("complete");
  V.assert("succeeds-when-every-child-does", r.success && clog.length === n);
  const want = new Map(); for (const e of clog) for (const k of Reflect.ownKeys(e.result.value)) want.set(k, e.result.value[k]);
  V.assert("every-field-from-its-own-child", [...want].every(([k, v]) => r.value[k] === v) && Reflect.ownKeys(r.value).length === want.size);
}

// ---- seq(): a cursor that only moves forward; only the first "--" is a terminator, and only a skippable item may be passed over.
const SEQNAMES = ["--alpha", "--beta", "gamma"];
async function seqParse(V, o) {
  const { seq } = V.mod(CO); const n = o.n ?? 2; const log = [], clog = [], budget = { left: o.progress ?? 2 };
  const skips = new Map();
  const parsers = Array.from({ length: n }, (_, i) => {
    const q = childParser(V, { name: "item" + i, who: i, async: asyncOf(o, i), log, clog, budget, failMax: 1, noTerminate: o.noTerminate });
    const name = SEQNAMES[i], cmd = !name.startsWith("-");
    q.usage = [cmd ? { type: "command", name } : { type: "option", names: [name], metavar: "X" }]; q.leadingNames = new Set([name]); q.acceptingAnyToken = false;
    q.canSkip = (state) => { for (const e of skips.get(i) ?? []) if (e.state === state) return e.b; const b = V.flag("item" + i + ".canSkip"); skips.set(i, [...(skips.get(i) ?? []), { state, b }]); return b; };
    return q;
  });
  const p = seq(...parsers);
  V.assert("mode", p.mode === (o.async ? "async" : "sync"));
  V.assert("initial-state", p.initialState.index === 0 && parsers.every((q, i) => p.initialState.states[i] === q.initialState));
  const start = V.pick("cursor", 2); const st = parsers.map((q) => start ? V.token("state") : q.initialState);
  const state = start ? { index: start - 0, states: [...st] } : p.initialState;
  const c = { buffer: bufferOf(V), state, optionsTerminated: V.flag("terminated"), usage: p.usage, exec: execFor(V) };
  const r = o.async ? await p.parse(c) : p.parse(c);
  V.assert("nothing-completed", clog.length === 0);
  let buf = c.buffer, term = c.optionsTerminated, cur = start, taken = [], asked = null;
  const later = (k) => { const names = []; for (let j = k + 1; j < n; j++) { names.push(SEQNAMES[j]); if (!parsers[j].canSkip(parsers[j].initialState)) break; } return names; };
  const pass = () => { // the cursor moves past `cur`
    if (asked && asked.who === cur) { const q = asked.result; V.assert("left-only-after-an-idle-answer", q.success ? asked.kind !== 1 : V.and(V.same(q.consumed, 0), parsers[cur].canSkip(asked.ctx.state))); }
    else {
      V.assert("passed-over-only-if-skippable", parsers[cur].canSkip(st[cur]));
      V.assert("passed-over-only-with-input-left", buf.length > 0);
      const t = buf[0];
      if (V.truthy(V.and(V.same(t, "--"), V.not(term)))) { taken = V.concat(taken, ["--"]); buf = buf.slice(1); term = true; }
      else V.assert("passed-over-only-for-a-later-name", V.or(...later(cur).map((name) => name.startsWith("-") ? V.and(V.not(term), V.or(V.same(t, name), t.startsWith(name + "="))) : V.same(t, name))));
    }
    cur++; asked = null;
  };
  for (const e of log) {
    V.assert("cursor-never-moves-back", e.who >= cur);
    if (asked && asked.who === cur && !(asked.result.success && asked.kind === 1)) pass(); // an idle answer moves on
    else asked = null;
    while (cur < e.who) pass();
    V.assert("item-sees-the-remaining-input", V.seqEq(e.ctx.buffer, buf));
    V.assert("item-sees-the-terminator", V.iff(e.ctx.optionsTerminated, term));
    V.assert("item-sees-its-own-state", e.ctx.state === st[cur]);
    V.assert("item-path", pathIs(e.ctx.exec, c.exec, cur));
    asked = e;
    if (e.result.success) { st[cur] = e.result.next.state; taken = V.concat(taken, e.result.consumed); buf = e.result.next.buffer; term = e.result.next.optionsTerminated; if (e.kind === 1) { asked = null; } }
  }
  const last = log[log.length - 1];
  if (!r.success) {
    V.cover("failure");
    V.assert("only-an-item's-failure-fails", last !== undefined && !last.result.success && r.error === last.result.error);
    V.assert("failure-counts-what-was-consumed", V.same(r.consumed, taken.length + last.result.consumed));
    V.assert("skippable-item-does-not-fail-idle", V.or(last.result.consumed > 0, V.not(parsers[cur].canSkip(last.ctx.state))));
    return;
  }
  V.cover("success");
  if (asked && last === asked && !(asked.result.success && asked.kind === 1)) pass();
  while (cur < r.next.state.index) pass();
  V.assert("cursor-as-followed", r.next.state.index === cur);
  V.assert("consumed-in-order-and-nothing-lost", V.and(V.seqEq(r.consumed, taken), V.seqEq(r.next.buffer, buf), V.seqEq(V.concat(r.consumed, r.next.buffer), c.buffer), V.iff(r.next.optionsTerminated, term)));
  V.assert("stops-only-at-the-end", V.or(cur === n, V.same(buf.length, 0)));
  V.assert("every-state-in-its-own-position", r.next.state.states.length === n && st.every((x, i) => r.next.state.states[i] === x));
  if (cur === n && V.truthy(buf.length > 0)) V.cover("input-left");
}
const mk = (id, prop, fns, run, covers, o = {}) => ({ id, prop, use: [CO], targets: fns.map((f) => "core/src/constructs.ts#" + f), covers, models: errModels, trusted: [errTrust, "each field is an arbitrary object obeying the step contract"], run, ...o });
const both = (id, prop, fns, run, o0, covers, o = {}) => [mk(id, prop, fns, (V) => run(V, o0), covers, o), mk(id + "/async", [...prop, "C20"], fns, (V) => run(V, { ...o0, async: true }), covers, o)];
export const contracts = [
  ...both("object.parse", ["C30", "C01"], ["object"], objectParse, { n: 2, steps: 2, noStall: true, exec: true }, ["consumed", "no-match", "all-can-complete", "cannot-complete"], { bounded: "two fields, two steps of the greedy loop" }),
  ...both("object.parse/idle", ["C30", "C01"], ["object"], objectParse, { n: 2, steps: 1, silent: [1] }, ["consumed", "no-match", "all-can-complete", "cannot-complete"], { bounded: "two fields, one step" }),
  ...both("object.parse/long", ["C30", "C01"], ["object"], objectParse, { n: 1, steps: 3, noStall: true }, ["consumed", "no-match"], { bounded: "one field, three steps of the greedy loop" }),
  ...both("object.complete", ["C30", "C20"], ["object"], objectComplete, {}, ["failure", "complete"], { bounded: "three fields" }),
  ...["tuple", "concat"].flatMap((fn) => [
    ...both(fn + ".parse", ["C30", "C01"], [fn], positionsParse, { fn, n: 3 }, ["stuck", "through"], { bounded: "two positions" }),
    ...both(fn + ".complete", ["C30"], [fn], positionsComplete, { fn }, ["failure", "complete"], { bounded: "three positions" }),
  ]),
  ...["flat2", "flat3"].flatMap((shape) => both("merge/" + shape, ["C30", "C01"], ["merge"], mergeHistory, { shape, steps: shape === "flat2" ? 2 : 1 }, ["no-match", "hard-failure", "complete", "incomplete"], { bounded: shape === "flat2" ? "two children, two steps" : "three children, one step" })),
  ...["left", "right"].flatMap((shape) => both("merge/nested-" + shape, ["C30", "C01"], ["merge"], mergeHistory, { shape, steps: 2, progress: 2, keys: 0, noTerminate: true, lean: true }, ["complete"], { bounded: "three children in two nested merges, two steps" })),
  ...both("seq.parse", ["C30", "C01", "C03"], ["seq"], seqParse, { n: 2 }, ["failure", "success", "input-left"], { bounded: "two positions, two steps of progress" }),
  ...both("seq.parse/3", ["C30", "C01", "C03"], ["seq"], seqParse, { n: 3, progress: 1, noTerminate: true }, ["failure", "success", "input-left"], { bounded: "three positions, one step of progress" }),
  ...both("seq.complete", ["C30"], ["seq"], positionsComplete, { fn: "seq" }, ["failure", "complete"], { bounded: "three positions" }),
];
