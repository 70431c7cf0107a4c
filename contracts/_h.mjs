// Shared vocabulary of the contracts.
export const PR = "core/src/primitives.ts", IP = "core/src/internal/parser.ts", CO = "core/src/constructs.ts", MO = "core/src/modifiers.ts",
  SU = "core/src/suggestion.ts", VA = "core/src/validate.ts", VP = "core/src/valueparser.ts", MSG = "core/src/message.ts", TR = "core/src/input-trace.ts";

// Contracts of the error-text helpers as their callers may use them: they return some message / some names, and touch nothing.
export const errModels = {
  "core/src/suggestion.ts#findSimilar": (V) => V.strs("similar"),
  "core/src/suggestion.ts#createErrorWithSuggestions": (V, base) => base,
  "core/src/suggestion.ts#expandCommandAliasSuggestions": (V, _u, s) => s,
  "core/src/suggestion.ts#createSuggestionMessage": (V, s) => V.flag("hasSuggestion") ? [{ type: "text", text: V.str("suggestion") }] : [],
  "core/src/validate.ts#escapeControlChars": (V) => V.str("escaped"),
};
export const errTrust = "suggestion helpers and control-character escaping used through contracts (result unconstrained, no side effects); checked separately under C17";

export const TOKENS = ["--", "-", "-v", "-vx", "-vv", "-v-", "-x", "--verbose", "--verbose=", "--verbose=1", "--verb", "/v", "/v:1", "+v", "v", "x", "1", "-1", "", "a b", "--no-verbose", "build", "b", "--name", "--name=", "--name=--", "--name=a=b", "-n", "-n=1", "-nx", "--output=x", "-o", "help"];
export function bufferOf(V, name = "buf") { return V.strs(name, { pool: TOKENS, max: 4 }); }
// An execution context as the driver provides it: absent, or with an input trace.
export function execOf(V) { return undefined; }
export function ctxOf(V, p, state, o = {}) {
  return { buffer: o.buffer ?? bufferOf(V), state, optionsTerminated: o.terminated ?? V.flag("terminated"), usage: p.usage };
}
// names: concrete alternatives are easy to read; the symbolic one stands for every name the constructor accepts
export function optName(V, name, pool) { return V.str(name, { pool }); }

// An arbitrary (synchronous) value parser: accepts or rejects each string as it likes.
export function valueParser(V, o = {}) {
  const calls = [];
  const vp = {
    mode: o.async ? "async" : "sync", metavar: "VALUE", placeholder: null, calls, results: [],
    parse(s) {
      const r = V.flag("vp.accepts") ? { success: true, value: V.token("vp.value") } : { success: false, error: [{ type: "text", text: "rejected" }] };
      calls.push(s); vp.results.push(r);
      return o.async ? Promise.resolve(r) : r;
    },
    format() { return "formatted"; },
    *suggest() {},
  };
  return vp;
}
// The relation between what was in the buffer, what a step reports as consumed, and what it leaves.
export function conserved(V, before, consumed, after) { return V.seqEq(V.concat(consumed, after), before); }
// A bundled group "-vx…" gives its first flag away and leaves "-x…".
export function bundled(V, before, consumed, after) {
  if (!V.truthy(before.length > 0) || consumed.length !== 1) return false;
  const c = consumed[0], rest = after[0];
  return V.and(c.length === 2, c.startsWith("-"), rest !== undefined && rest.startsWith("-"), rest !== undefined && V.same(c + rest.slice(1), before[0]), V.seqEq(after.slice(1), before.slice(1)));
}
export function tail(a, n) { return a.slice(n); }

// An arbitrary child parser: every step it takes satisfies the step contract (C01), anything else about it is unknown.
export function childParser(V, o = {}) {
  const name = o.name ?? "child";
  const p = {
    $valueType: [], $stateType: [], mode: o.async ? "async" : "sync", priority: o.priority ?? 10, usage: [{ type: "argument", metavar: name.toUpperCase() }],
    leadingNames: new Set(), acceptingAnyToken: true, initialState: "initialState" in o ? o.initialState : V.token(name + ".initial"), parses: [], completes: [],
    parse(ctx) {
      let result;
      if (o.pure) { // a function of the input, its state and the terminator: asked again, it answers the same
        for (const e of p.parses) if ((o.sameState ? o.sameState(e.ctx.state, ctx.state) : e.ctx.state === ctx.state) && V.truthy(V.and(V.seqEq(e.ctx.buffer, ctx.buffer), V.iff(e.ctx.optionsTerminated, ctx.optionsTerminated)))) { if (o.log) o.log.push({ who: o.who ?? name, ctx, result: e.result, kind: e.kind, again: true }); return o.async ? Promise.resolve(e.result) : e.result; }
      }
      const spent = o.budget !== undefined && o.budget.left <= 0;
      const quiet = spent || o.only !== undefined && !o.only(ctx) || o.maxProgress !== undefined && p.parses.filter((x) => x.result.success && x.kind === 1).length >= o.maxProgress;
      const k = o.never ? 2 * V.pick(name + ".settles", 2) : quiet ? 0 : V.pick(name + ".outcome", o.noStall ? 2 : 3); // 0 fails, 1 makes progress, 2 succeeds without progress
      if (k === 0) { const n = quiet ? 0 : V.int(name + ".failed", { min: 0, max: o.failMax ?? 2 }); V.assume(n <= ctx.buffer.length); result = { success: false, consumed: n, error: [{ type: "text", text: name + " failed" }] }; }
      else {
        let taken = [], rest = ctx.buffer;
        if (k === 1) { if (o.whole && !V.isSymbolic(ctx.buffer.length)) { if (ctx.buffer.length === 0) V.assume(false); const n = 1 + V.pick(name + ".takes", ctx.buffer.length); taken = ctx.buffer.slice(0, n); rest = ctx.buffer.slice(n); } else { [taken, rest] = V.split(name + ".took", ctx.buffer); V.assume(taken.length > 0); } if (o.budget) o.budget.left--; }
        const terminates = o.noTerminate ? false : V.bool(name + ".terminates");
        result = { success: true, consumed: taken, next: { ...ctx, buffer: rest, state: k === 2 && !o.noKeep && V.flag(name + ".keeps") ? ctx.state : (o.state ?? ((nm) => V.token(nm)))(name + ".state"), optionsTerminated: V.or(ctx.optionsTerminated, terminates) } };
        if (o.provisional && V.flag(name + ".provisional")) result.provisional = true;
      }
      p.parses.push({ ctx, result, kind: k });
      if (o.log) o.log.push({ who: o.who ?? name, ctx, result, kind: k });
      return o.async ? Promise.resolve(result) : result;
    },
    complete(state, exec) {
      const result = o.alwaysCompletes || V.flag(name + ".completes") ? { success: true, value: o.maybeNothing && V.flag(name + ".completesWithUndefined") ? undefined : V.token(name + ".value") } : { success: false, error: [{ type: "text", text: name + " incomplete" }] };
      p.completes.push({ state, exec, result });
      if (o.clog) o.clog.push({ who: o.who ?? name, state, exec, result });
      return o.async ? Promise.resolve(result) : result;
    },
    *suggest() {},
    getDocFragments() { return { fragments: [] }; },
    ...(o.extra ?? {}),
  };
  return p;
}
