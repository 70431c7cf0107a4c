// Values bound to several sources: precedence (C10), constraints on fallback values (C11), exact lookup and decoding (C12).
import { PR, CO, MO, VP, IP, valueParser, childParser, ctxOf, conserved, errModels, errTrust } from "./_h.mjs";
const ENV = "env/src/index.ts", CFG = "config/src/index.ts", DER = "derived-defaults/src/index.ts", EX = "core/src/extension.ts", AN = "core/src/annotations.ts";
const HISTORY = "histories of three and more steps: what a binding remembers after a step (whether something was taken, the inner parser's state) is arbitrary already after two";
const KEYS = ["host", "a.b", 0, Symbol("key")];
// ---- one binding over an arbitrary child ----
// A binding of the given kind: the annotations its context supplies, and what its source then answers.
function binding(V, kind, child) {
  const X = V.mod(EX), b = { asked: [], keyCalls: [], kind, parser: undefined };
  b.presence = V.oneOf("context", ["no annotations", "other contexts only", "registered"]);
  b.default = V.flag("default") ? V.token("default") : undefined;
  const dflt = b.default === undefined ? {} : { default: b.default };
  if (kind === "env") {
    const E = V.mod(ENV), prefix = child.mode === "async" || V.flag("prefix") ? V.str("prefix") : undefined, key = V.str("key"), shape = V.oneOf("variable", ["unset", "text", "not text"]);
    b.raw = shape === "unset" ? undefined : shape === "text" ? V.str("text", { pool: ["", "x", " true "] }) : child.mode === "async" ? null : V.oneOf("junk", [null, 5, ["x"]]); b.name = (prefix ?? "") + key;
    b.parser = valueParser(V, { async: child.mode === "async" && V.flag("envParser.async") });
    const context = E.createEnvContext({ ...(prefix === undefined ? {} : { prefix }), source: (k) => { b.asked.push(k); return b.raw; } });
    b.id = context.id; b.data = context.getAnnotations()[context.id]; b.bound = E.bindEnv(child, { context, key, parser: b.parser, ...dflt });
    b.value = shape === "unset" ? undefined : { shape };
  } else if (kind === "config") {
    const E = V.mod(CFG), context = { id: Symbol("config") }, fn = V.flag("keyFunction"), key = fn ? undefined : V.oneOf("key", KEYS), shape = V.oneOf("config", ["none", "absent", "present", "null"]);
    const value = shape === "present" ? V.token("configured") : shape === "null" ? null : undefined; const meta = V.token("meta"), data = shape === "none" ? undefined : fn ? { anything: V.token("data") } : { ...(shape === "absent" ? {} : { [key]: value }), decoy: V.token("decoy") };
    b.id = context.id; b.data = shape === "none" && V.flag("noAnnotationValue") ? undefined : { data, meta };
    b.bound = E.bindConfig(child, { context, key: fn ? (d, m) => { b.keyCalls.push([d, m]); V.assert("the-key-function-sees-the-configuration", d === data && V.truthy(V.same(m, meta))); return value; } : key, ...dflt });
    b.value = value === undefined ? undefined : { value };
  } else {
    const E = V.mod(DER), context = { id: Symbol("derived") }, key = V.oneOf("key", KEYS), shape = V.oneOf("derived", ["none", "absent", "present", "null"]);
    const value = shape === "present" ? V.token("derived") : shape === "null" ? null : undefined;
    b.id = context.id; b.data = shape === "none" ? undefined : { values: { ...(value === undefined ? {} : { [key]: value }), decoy: V.token("decoy") } };
    b.bound = E.bindDerivedDefault(child, { context, key, ...dflt });
    b.value = value === undefined ? undefined : { value };
  }
  if (b.presence !== "registered") b.value = undefined;
  b.annotations = b.presence === "no annotations" ? undefined : { [Symbol.for("another")]: V.token("another"), ...(b.presence === "registered" ? { [b.id]: b.data } : {}) };
  b.initial = b.annotations === undefined ? b.bound.initialState : X.injectAnnotations(b.bound.initialState, b.annotations);
  return b;
}
function boundChild(V, o) {
  const checks = [], skips = [], asks = V.flag("child.validates");
  const child = childParser(V, { noTerminate: true, provisional: o.provisional, failMax: 1, async: o.async, initialState: V.oneOf("child.initialState", o.states ?? [undefined, { a: 1 }]), state: o.states ? undefined : (nm) => V.flag(nm + ".object") ? { b: V.token(nm) } : V.token(nm) });
  if (asks) child.validateValue = (value) => { const result = V.flag("validated") ? { success: true, value: V.token("validated.value") } : { success: false, error: [{ type: "text", text: "violates a constraint" }] }; checks.push({ value, result }); return o.async ? Promise.resolve(result) : result; };
  const trait = o.traits ? V.oneOf("child.trait", ["none", "inherits", "completes"]) : "none"; if (trait !== "none") V.mod(EX).defineTraits(child, trait === "inherits" ? { inheritsAnnotations: true } : { completesFromSource: true });
  child.canSkip = () => { const r = V.flag("child.canSkip"); skips.push(r); return r; };
  return { child, checks, skips, asks, trait };
}
const sameResult = (V, a, b) => V.and(a.success === b.success, a.success ? b.success && V.same(a.value, b.value) : !b.success && a.error === b.error);
function precedence(kind, async, steps) {
  return async (V) => {
    const X = V.mod(EX), A = V.mod(AN), { child, checks, skips, asks, trait } = boundChild(V, { async, traits: kind === "env" }), b = binding(V, kind, child), n = V.pick("steps", steps + 1);
    let state = b.initial, taken = false, last; // last: the state the child reached with the value it took
    const ann = (s) => A.getAnnotations(s);
    for (let i = 0; i < n; i++) {
      const ctx = ctxOf(V, b.bound, state), before = ctx.buffer, r = async ? await b.bound.parse(ctx) : b.bound.parse(ctx), c = child.parses[i];
      V.assert("step/the-child-is-asked-once", child.parses.length === i + 1 && V.seqEq(c.ctx.buffer, before) && V.iff(c.ctx.optionsTerminated, ctx.optionsTerminated));
      if (taken) V.assert("step/the-child-continues-where-it-was", c.ctx.state === last);
      if (!c.result.success && V.truthy(c.result.consumed > 0)) { V.cover("failure after consuming"); V.assert("step/a-failure-after-consuming-stays", r === c.result); return; }
      V.assert("step/succeeds", r.success); if (!r.success) return;
      if (c.result.success) {
        V.assert("step/takes-what-the-child-takes", V.and(V.seqEq(r.consumed, c.result.consumed), V.seqEq(r.next.buffer, c.result.next.buffer), V.iff(r.next.optionsTerminated, c.result.next.optionsTerminated)));
        V.assert("step/provisional-like-the-child", (r.provisional === true) === (c.result.provisional === true));
        if (c.result.consumed.length > 0 || taken) { taken = true; last = c.result.next.state; }
      } else { V.cover("nothing to take"); V.assert("step/takes-nothing", V.and(r.consumed.length === 0, V.seqEq(r.next.buffer, before), V.iff(r.next.optionsTerminated, ctx.optionsTerminated))); }
      state = r.next.state;
      V.assert("step/annotations-stay", ann(state) === ann(ctx.state));
    }
    const r = async ? await b.bound.complete(state) : b.bound.complete(state), done = child.completes;
    const askedNothing = () => b.asked.length === 0 && b.keyCalls.length === 0 && (b.parser?.calls.length ?? 0) === 0;
    if (taken) {
      V.cover("command line"); V.assert("command-line/wins", done.length === 1 && done[0].state === last && sameResult(V, r, done[0].result));
      V.assert("command-line/no-other-source-is-consulted", askedNothing()); V.assert("command-line/not-validated-again", checks.length === 0); return;
    }
    if (kind === "env") V.assert("lookup/exactly-the-configured-variable", b.asked.length === (b.presence === "registered" ? 1 : 0) && b.asked.every((k) => V.truthy(V.same(k, b.name))));
    if (b.value !== undefined) {
      V.assert("source/nothing-below-is-consulted", done.length === 0);
      let value = b.value.value;
      if (kind === "env") {
        if (b.value.shape === "not text") { V.cover("not text"); V.assert("source/not-text-is-an-error", !r.success && b.parser.calls.length === 0); return; }
        V.assert("source/decoded-from-the-exact-text", b.parser.calls.length === 1 && V.same(b.parser.calls[0], b.raw)); const p = b.parser.results[0];
        if (!p.success) { V.cover("rejected text"); V.assert("source/an-invalid-value-is-an-error", sameResult(V, r, p) && checks.length === 0); return; }
        value = p.value;
      }
      V.cover("source"); V.assert("source/its-value", asks ? checks.length === 1 && V.and(V.same(checks[0].value, value), sameResult(V, r, checks[0].result)) : r.success && V.same(r.value, value));
      return;
    }
    V.assert("no-value/nothing-is-decoded", (b.parser?.calls.length ?? 0) === 0);
    if (b.default !== undefined) { V.cover("default"); V.assert("default/used", done.length === 0 && (asks ? checks.length === 1 && V.and(V.same(checks[0].value, b.default), sameResult(V, r, checks[0].result)) : r.success && V.same(r.value, b.default))); return; }
    V.assert("no-value/nothing-validated", checks.length === 0);
    const inner = kind === "env" || kind === "derived" && skips[0] === true;
    if (!inner) { V.cover("missing"); V.assert("missing/is-a-failure", !r.success && done.length === 0); return; }
    V.cover("the child decides"); const one = done.length === 1; V.assert("inner/asked-once", one); if (!one) return;
    V.assert("inner/decides", done[0].result.success ? sameResult(V, r, done[0].result) : !r.success);
    if (b.annotations !== undefined && !(n > 0 && child.parses[n - 1].result.success) && (kind === "derived" || trait !== "none" && child.initialState == null)) { V.cover("annotations below"); V.assert("inner/sees-the-annotations", ann(done[0].state) !== undefined && V.same(ann(done[0].state)[Symbol.for("another")], b.annotations[Symbol.for("another")])); }
    const left = n > 0 && child.parses[n - 1].result.success ? child.parses[n - 1].result.next.state : undefined;
    if (left !== undefined) V.assert("inner/from-the-state-it-left", done[0].state === left);
    else V.assert("inner/from-its-initial-state", V.same(X.unwrapInjectedAnnotationState(done[0].state)?.a, child.initialState?.a));
  };
}
// The same value, as dependents of a bound dependency source see it, and whether the binding can be left out of the command line.
function asSource(kind, async) {
  return async (V) => {
    const { child, checks, skips, asks } = boundChild(V, { async }), extracts = [], preserves = V.oneOf("preserves", [true, false]);
    const extracted = V.flag("extracts") ? { success: true, value: V.token("extracted") } : undefined;
    child.dependencyMetadata = { source: { kind: "source", sourceId: Symbol("source"), preservesSourceValue: preserves, extractSourceValue: (st) => { extracts.push(st); return async ? Promise.resolve(extracted) : extracted; } } };
    const b = binding(V, kind, child); let state = b.initial, taken = false, last;
    if (V.flag("step")) { const ctx = ctxOf(V, b.bound, state), r = async ? await b.bound.parse(ctx) : b.bound.parse(ctx); if (!r.success) return; state = r.next.state; const c = child.parses[0].result; if (c.success && V.truthy(c.consumed.length > 0)) { taken = true; last = c.next.state; } }
    if (V.flag("asked whether it can be skipped")) {
      const r = b.bound.canSkip(state); V.cover("skippable?");
      if (!taken && (b.value !== undefined || b.default !== undefined)) V.assert("skippable/a-fallback-suffices", r === true); else V.assert("skippable/as-the-child", r === skips[0]);
      return;
    }
    const src = b.bound.dependencyMetadata?.source; V.assert("stays-a-source", src !== undefined && src.sourceId === child.dependencyMetadata.source.sourceId); if (!src) return;
    const r = await src.extractSourceValue(state), fromChild = () => extracts.length === 1 && (r === undefined ? extracted === undefined : extracted !== undefined && r.success && V.same(r.value, extracted.value));
    if (taken) { V.cover("command line"); V.assert("command-line/wins", fromChild() && extracts[0] === last && checks.length === 0 && b.asked.length === 0); return; }
    if (!preserves) { V.cover("does not preserve"); V.assert("another-value/left-to-the-child", fromChild()); return; }
    let value = b.value?.value;
    if (kind === "env" && b.value !== undefined) {
      if (b.value.shape === "not text") { V.assert("source/not-text-is-an-error", r !== undefined && !r.success && extracts.length === 0); return; }
      V.assert("source/decoded-from-the-exact-text", b.parser.calls.length === 1 && V.same(b.parser.calls[0], b.raw)); const p = b.parser.results[0];
      if (!p.success) { V.assert("source/an-invalid-value-is-an-error", r !== undefined && sameResult(V, r, p)); return; } value = p.value;
    }
    if (kind === "env") V.assert("lookup/exactly-the-configured-variable", b.asked.length === (b.presence === "registered" ? 1 : 0) && b.asked.every((k) => V.truthy(V.same(k, b.name))));
    if (b.value === undefined && b.default === undefined) { V.cover("the child decides"); V.assert("inner/decides", fromChild() && checks.length === 0); return; }
    V.cover(b.value === undefined ? "default" : "source"); if (b.value === undefined) value = b.default;
    V.assert("source/its-value", r !== undefined && extracts.length === 0 && (asks ? checks.length === 1 && V.and(V.same(checks[0].value, value), sameResult(V, r, checks[0].result)) : r.success && V.same(r.value, value)));
  };
}
// ---- the enclosing constructors bring a bound parser its annotations, and keep what it took from the command line ----
const WRAP = {
  bare: (V, b) => [b, (v) => v], map: (V, b) => [V.mod(MO).map(b, (v) => ({ mapped: v })), (v) => v.mapped], group: (V, b) => [V.mod(CO).group("g", b), (v) => v],
  object: (V, b) => [V.mod(CO).object({ k: b }), (v) => v.k], tuple: (V, b) => [V.mod(CO).tuple([b]), (v) => v[0]], concat: (V, b, o) => [V.mod(CO).concat(V.mod(CO).tuple([b]), V.mod(CO).tuple([o])), (v) => v[0]],
  seq: (V, b, o) => [V.mod(CO).seq(b, o), (v) => v[0]], merge: (V, b, o) => [V.mod(CO).merge(V.mod(CO).object({ k: b }), V.mod(CO).object({ z: o })), (v) => v.k], nonEmpty: (V, b) => [V.mod(MO).nonEmpty(b), (v) => v],
};
const ENCLOSED = [["bare"], ["map"], ["group"], ["object"], ["tuple"], ["concat"], ["seq"], ["merge"], ["map", "group"], ["group", "map"], ["object", "map"], ["object", "group"], ["tuple", "group"], ["tuple", "map"], ["map", "tuple"], ["group", "object"]];
function delivered(kind, shape) {
  return (V) => {
    const X = V.mod(EX), norm = (s) => { const u = X.unwrapInjectedAnnotationState(s); return u?.a ?? u; }, child = childParser(V, { noTerminate: true, noKeep: true, failMax: 1, only: (ctx) => ctx.buffer.length > 0 && ctx.buffer[0] === "-a", pure: true, sameState: (a, b) => norm(a) === norm(b), maxProgress: 1, alwaysCompletes: true, initialState: V.oneOf("child.initialState", [undefined, { a: 1 }]) });
    child.canSkip = () => false;
    const id = Symbol("ctx"), value = V.token("configured"); let asked = 0;
    const bound = kind === "env" ? V.mod(ENV).bindEnv(child, { context: { id, prefix: "" }, key: "K", parser: { mode: "sync", metavar: "V", placeholder: null, parse: () => ({ success: true, value }), format: () => "", suggest: function* () {} } }) : kind === "config" ? V.mod(CFG).bindConfig(child, { context: { id }, key: "k" }) : V.mod(DER).bindDerivedDefault(child, { context: { id }, key: "k" });
    const data = kind === "env" ? { prefix: "", source: () => (asked++, "text") } : kind === "config" ? { data: { k: value } } : { values: { k: value } };
    const accepts = () => ({ mode: "sync", metavar: "V", placeholder: null, parse: (x) => ({ success: true, value: x }), format: () => "", *suggest() {} }), other = () => V.mod(MO).optional(V.mod(PR).option("-z", accepts()));
    let p = bound, at = (v) => v; for (const w of shape) { const [q, get] = WRAP[w](V, p, other()), inner = at; p = q; at = (v) => inner(get(v)); }
    const outer = V.mod(CO).object({ res: p, q: V.mod(MO).optional(V.mod(PR).option("-q", accepts())) });
    let state = X.injectAnnotations(outer.initialState, { [id]: data });
    for (let i = V.pick("steps", 3); i > 0; i--) { const r = outer.parse({ buffer: V.array("tokens", [0, 1, 2], (j) => V.oneOf("t" + j, ["-a", "-q", "-z"])), state, optionsTerminated: false, usage: outer.usage }); if (!r.success) return; state = r.next.state; }
    asked = 0; const r = outer.complete(state), took = child.parses.some((x) => x.kind === 1);
    if (process.env.DBG) console.error(JSON.stringify(r), child.parses.map((x) => [x.kind, x.result.consumed, x.ctx.buffer, x.ctx.state, norm(x.ctx.state)]), child.completes);
    if (!took) { V.cover("from the source"); V.assert("source/reaches-the-bound-parser", r.success && V.same(at(r.value.res), value)); return; }
    V.cover("from the command line"); V.assert("command-line/survives", r.success && child.completes.length > 0 && child.completes.some((c) => V.truthy(V.same(at(r.value.res), c.result.value)))); V.assert("command-line/no-source-consulted", asked === 0);
  };
}
// A bound object merged with other fields: what one of its fields took from the command line stays, and the source still fills it otherwise.
function mergedBinding(kind) {
  return (V) => {
    const X = V.mod(EX), C = V.mod(CO), norm = (s) => { const u = X.unwrapInjectedAnnotationState(s); return u?.a ?? u; };
    const child = childParser(V, { noTerminate: true, noKeep: true, failMax: 1, only: (ctx) => ctx.buffer.length > 0 && ctx.buffer[0] === "-a", pure: true, sameState: (a, b) => norm(a) === norm(b), maxProgress: 1, alwaysCompletes: true, initialState: undefined, state: (nm) => ({ a: V.token(nm) }) });
    child.canSkip = () => false;
    const id = Symbol("ctx"), value = { k: V.token("configured") }, inner = C.object({ k: child }), accepts = () => ({ mode: "sync", metavar: "V", placeholder: null, parse: (x) => ({ success: true, value: x }), format: () => "", *suggest() {} });
    const bound = kind === "env" ? V.mod(ENV).bindEnv(inner, { context: { id, prefix: "" }, key: "K", parser: { mode: "sync", metavar: "V", placeholder: null, parse: () => ({ success: true, value }), format: () => "", suggest: function* () {} } }) : kind === "config" ? V.mod(CFG).bindConfig(inner, { context: { id }, key: "k" }) : V.mod(DER).bindDerivedDefault(inner, { context: { id }, key: "k" });
    const data = kind === "env" ? { prefix: "", source: () => "text" } : kind === "config" ? { data: { k: value } } : { values: { k: value } };
    const rest = C.object({ q: V.mod(MO).optional(V.mod(PR).option("-q", accepts())) }), outer = V.flag("boundFirst") ? C.merge(bound, rest) : C.merge(rest, bound);
    let state = X.injectAnnotations(outer.initialState, { [id]: data }), q;
    for (let i = V.pick("steps", 3); i > 0; i--) { const r = outer.parse({ buffer: V.array("tokens", [0, 1, 2], (j) => V.oneOf("t" + j, ["-a", "-q"])), state, optionsTerminated: false, usage: outer.usage }); if (!r.success) return; state = r.next.state; if (r.consumed[0] === "-q") q = r.consumed[1]; }
    const r = outer.complete(state), took = child.parses.some((x) => x.kind === 1);
    V.cover(took ? "from the command line" : "from the source"); V.assert("completes", r.success); if (!r.success) return;
    V.assert(took ? "command-line/survives" : "source/fills-it", took ? child.completes.some((c) => V.truthy(V.same(r.value.k, c.result.value))) : V.same(r.value.k, value.k)); V.assert("other-fields-stay", V.same(r.value.q, q));
  };
}
// ---- the constraints a fallback value must meet: validateValue of every parser that keeps the value's type (C11) ----
const junk = (V, name) => V.oneOf(name, [undefined, null, 5, "true", {}, [true]]);
// Through an option's or argument's value parser: its own check if it has one, otherwise what reading the value's text back yields.
function primitive(what, async) {
  return async (V) => {
    const P = V.mod(PR), vp = valueParser(V, { async }), value = V.token("fallback"), own = V.flag("own check"), checks = [], formats = [];
    if (own) vp.validate = (v) => { const r = V.flag("own.accepts") ? { success: true, value: V.token("own.value") } : { success: false, error: [{ type: "text", text: "own check failed" }] }; checks.push([v, r]); return r; };
    const form = V.oneOf("format", ["text", "throws", "not text"]), text = V.str("text");
    vp.format = (v) => { formats.push(v); if (form === "throws") throw new TypeError("not a value of this parser"); return form === "text" ? text : 5; };
    const p = what === "option" ? P.option("--name", vp) : P.argument(vp), r = await p.validateValue(value);
    if (own) { V.cover("own check"); V.assert("own-check/decides", checks.length === 1 && V.and(V.same(checks[0][0], value), checks[0][1].success ? r.success && V.same(r.value, checks[0][1].value) : !r.success)); return; }
    V.assert("formatted-once", formats.length === 1 && V.same(formats[0], value));
    if (form !== "text") { V.cover("no text form"); V.assert("a-value-without-text-form-is-kept", r.success && V.same(r.value, value) && vp.calls.length === 0); return; }
    V.cover(vp.results[0]?.success ? "accepted" : "rejected");
    V.assert("read-back-from-its-text", vp.calls.length === 1 && V.same(vp.calls[0], text)); const got = vp.results[0];
    V.assert("accepted-exactly-when-typed-text-is", V.and(r.success === got.success, got.success ? r.success && V.same(r.value, got.value) : !r.success));
  };
}
function booleans(V) {
  const P = V.mod(PR), what = V.oneOf("what", ["option", "negatable"]), p = what === "option" ? P.option("--flag") : P.negatableFlag({ positive: "--color", negative: "--no-color" });
  if (V.flag("boolean")) { const v = V.flag("value"), r = p.validateValue(v); V.cover("boolean"); V.assert("a-boolean-is-accepted", r.success && r.value === v); } else { V.cover("other"); V.assert("anything-else-is-rejected", !p.validateValue(junk(V, "junk")).success); }
}
const KEEPS = ["optional", "withDefault", "nonEmpty", "group", "command", "bindEnv", "bindConfig", "bindDerivedDefault"];
function forwards(async) {
  return async (V) => {
    const which = V.oneOf("wrapper", KEEPS), M = V.mod(MO), C = V.mod(CO), checks = [], has = V.flag("child.validates"), child = childParser(V, { async, initialState: undefined });
    if (has) child.validateValue = function (value) { V.assert("called-on-the-child", this === child); const result = V.flag("validated") ? { success: true, value: V.token("validated.value") } : { success: false, error: [{ type: "text", text: "violates" }] }; checks.push({ value, result }); return async ? Promise.resolve(result) : result; };
    const dflt = V.flag("default") ? { default: V.token("default") } : {}, context = { id: Symbol("ctx"), prefix: "" };
    const wrap = (w, p) => w === "optional" ? M.optional(p) : w === "withDefault" ? M.withDefault(p, V.token("dflt")) : w === "nonEmpty" ? M.nonEmpty(p) : w === "group" ? C.group("g", p) : w === "command" ? V.mod(PR).command("cmd", p) : w === "bindEnv" ? V.mod(ENV).bindEnv(p, { context, key: "K", parser: valueParser(V), ...dflt }) : w === "bindConfig" ? V.mod(CFG).bindConfig(p, { context, key: "k", ...dflt }) : V.mod(DER).bindDerivedDefault(p, { context, key: "k", ...dflt });
    let p = wrap(which, child); if (V.flag("twice")) p = wrap(V.oneOf("outer", KEEPS), p);
    if (!has) { V.cover("nothing to check"); V.assert("no-check-appears", p.validateValue === undefined); return; }
    V.assert("the-check-is-kept", typeof p.validateValue === "function");
    const value = V.token("fallback"), r = await p.validateValue(value); V.cover(checks[0]?.result.success ? "accepted" : "rejected");
    V.assert("the-child-checks-the-value", checks.length === 1 && V.and(V.same(checks[0].value, value), sameResult(V, r, checks[0].result)));
  };
}
function several(async) {
  return async (V) => {
    const M = V.mod(MO), checks = [], has = V.flag("child.validates"), child = childParser(V, { async, initialState: undefined });
    if (has) child.validateValue = (value) => { const result = V.flag("validated") ? { success: true, value: V.flag("changed") ? V.token("validated.value") : value } : { success: false, error: [{ type: "text", text: "violates" }] }; checks.push({ value, result }); return async ? Promise.resolve(result) : result; };
    const min = V.int("min", { min: 0, max: 1e9 }), max = V.int("max", { min: 0, max: 1e9 }); V.assume(min <= max);
    const p = M.multiple(child, { min, max });
    if (V.flag("not an array")) { V.cover("not an array"); const r = await p.validateValue(V.oneOf("junk", [undefined, null, 5, "xs", { length: 1 }])); V.assert("not-an-array-is-rejected", !r.success && checks.length === 0); return; }
    const values = V.array("values", [0, 1, 2, 3, 4], (i) => V.token("v" + i)), before = [...values], r = await p.validateValue(values), n = before.length;
    V.assert("the-values-are-not-modified", values.length === n && V.and(...before.map((v, i) => V.same(values[i], v))));
    if (V.truthy(V.or(n < min, n > max))) { V.cover("arity"); V.assert("arity-is-enforced", !r.success); return; }
    if (!has) { V.cover("nothing to check"); V.assert("values-as-given", r.success && r.value === values); return; }
    V.assert("each-value-is-checked-in-order", V.and(...checks.map((c, i) => V.same(c.value, before[i]))));
    const bad = checks.find((c) => !c.result.success); V.cover(bad ? "rejected" : "accepted");
    if (bad) V.assert("a-bad-element-rejects-the-whole", !r.success && r.error === bad.result.error); else V.assert("every-element-as-checked", checks.length === n && r.success && r.value.length === n && V.and(...checks.map((c, i) => V.same(r.value[i], c.result.value))));
  };
}
// ---- boolean text (C12) ----
function booleanText(V) {
  const B = V.mod(ENV).bool(), s = V.str("text", { pool: ["TRUE", " on\t", "0", "No", "oN", "", "2", "\uff11", "\uff54\uff52\uff55\uff45", "\u24c3\u24c4", "truе", "\u212a"] }), r = B.parse(s);
  const bare = s.trim(), yes = V.matches(bare, /^(?:true|1|yes|on)$/i), no = V.matches(bare, /^(?:false|0|no|off)$/i);
  if (V.truthy(yes)) { V.cover("true"); V.assert("true-spellings", r.success && r.value === true); } else if (V.truthy(no)) { V.cover("false"); V.assert("false-spellings", r.success && r.value === false); } else { V.cover("rejected"); V.assert("everything-else-is-rejected", !r.success); }
}
export const contracts = [
  ...["env", "config", "derived"].map((kind) => ({ id: `delivery/${kind}-object-merged`, prop: ["C10"], use: [ENV, CFG, DER, EX, AN, CO, MO, PR, VP, IP], targets: ["merge"], covers: ["from the source", "from the command line"], bounded: 'command lines of at most four tokens of two kinds', models: errModels, trusted: [errTrust], run: mergedBinding(kind) })),
  ...["option", "argument"].flatMap((w) => [false, true].map((async) => ({ id: `validate/${w}-${async ? "async" : "sync"}`, prop: ["C11"], use: [PR, IP], targets: [w], covers: ["own check", "no text form", "accepted", "rejected"], models: errModels, trusted: [errTrust], run: primitive(w, async) }))),
  { id: "validate/booleans", prop: ["C11"], use: [PR, IP], targets: ["option", "negatableFlag"], covers: ["boolean", "other"], models: errModels, trusted: [errTrust], run: booleans },
  ...[false, true].map((async) => ({ id: `validate/kept-by-wrappers-${async ? "async" : "sync"}`, prop: ["C11"], use: [ENV, CFG, DER, EX, AN, CO, MO, PR, VP, IP], targets: KEEPS, covers: ["nothing to check", "accepted", "rejected"], models: errModels, trusted: [errTrust], run: forwards(async) })),
  ...[false, true].map((async) => ({ id: `validate/multiple-${async ? "async" : "sync"}`, prop: ["C11"], use: [MO, IP], targets: ["multiple"], covers: ["not an array", "arity", "nothing to check", "accepted", "rejected"], bounded: "arrays of at most 4 elements", models: errModels, trusted: [errTrust], run: several(async) })),
  { id: "decode/bool", prop: ["C12"], use: [ENV], targets: ["bool"], covers: ["true", "false", "rejected"], models: errModels, trusted: [errTrust], run: booleanText },
  ...["env", "config", "derived"].flatMap((kind) => ENCLOSED.map((shape) => ({ id: `delivery/${kind}-in-${shape.join("-")}`, prop: ["C10"], use: [ENV, CFG, DER, EX, AN, CO, MO, PR, VP, IP], targets: [shape[shape.length - 1] === "bare" ? "object" : shape[shape.length - 1]], covers: ["from the source", "from the command line"], bounded: 'command lines of at most four tokens of three kinds', models: errModels, trusted: [errTrust], run: delivered(kind, shape) }))),
  ...["env", "config", "derived"].flatMap((kind) => [false, true].map((async) => ({ id: `sources/${kind}-${async ? "async" : "sync"}`, prop: ["C10", "C11", "C12"], use: [ENV, CFG, DER, EX, AN, CO, MO, PR, VP, IP], targets: [{ env: "bindEnv", config: "bindConfig", derived: "bindDerivedDefault" }[kind]], covers: ["command line", "source", "default", "failure after consuming", "nothing to take"], models: errModels, trusted: [errTrust, HISTORY], budgetMs: 600000, weight: 60, run: precedence(kind, async, 2) }))),
  ...["env", "config", "derived"].flatMap((kind) => [false, true].map((async) => ({ id: `sources/${kind}-as-source-${async ? "async" : "sync"}`, prop: ["C10", "C11", "C12"], use: [ENV, CFG, DER, EX, AN, CO, MO, PR, VP, IP], targets: [{ env: "bindEnv", config: "bindConfig", derived: "bindDerivedDefault" }[kind]], covers: ["skippable?", "command line", "does not preserve", "the child decides", "default", "source"], models: errModels, trusted: [errTrust], run: asSource(kind, async) }))),
];
