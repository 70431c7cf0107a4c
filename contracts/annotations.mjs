// Run-time annotations: merging over contexts (C23); attaching, detaching and never leaking (C24).
import { PR, CO, MO, IP } from "./_h.mjs";
const FA = "core/src/facade.ts", PA = "core/src/parser.ts", AN = "core/src/internal/annotations.ts", AS = "core/src/annotation-state.ts";
const K = [Symbol("first"), Symbol("second")];
// ---- C23 ----
const DOING = ["single-pass", "two-pass"];
let undefinedFrom = () => false; // whose values are undefined: a key with the value undefined is provided all the same
function annotations(V, who, mask) { const o = {}; for (let k = 0; k < K.length; k++) if (mask >> k & 1) o[K[k]] = undefinedFrom(who) ? undefined : V.token(who + ".k" + k); return o; }
function context(V, i, full, async) {
  const c = { id: Symbol("ctx" + i), phase: DOING[V.pick("ctx" + i + ".phase", 2)], given: {}, calls: [], extra: {} };
  const make = (ph, req) => { const o = annotations(V, `ctx${i}.${ph}`, V.pick(`ctx${i}.${ph}.keys`, 4)); c.given[ph] = o; c.calls.push(req); c.copy ??= {}; c.copy[ph] = { ...o }; return async && V.flag(`ctx${i}.${ph}.async`) ? Promise.resolve(o) : o; };
  c.getAnnotations = (req, opts) => { c.opts = opts; return make(req.phase, req); };
  const internal = full ? V.pick("ctx" + i + ".internal", 4) : 0; // absent, nothing, the first key, the second key
  if (internal > 0) c.getInternalAnnotations = (req, given) => { V.assert("the-context-sees-its-own-annotations", given === c.given[req.phase]); if (internal === 1) return undefined; const o = { [K[internal - 2]]: V.token(`ctx${i}.${req.phase}.internal`) }; c.extra[req.phase] = o; return o; };
  return c;
}
// What one context contributes for key k in a phase: the values it may supply (none if it does not provide the key).
function offers(c, ph, k) { const o = []; for (const src of [c.given[ph], c.extra[ph]]) if (src && Object.hasOwn(src, K[k])) o.push(src[K[k]]); return o; }
function expect(V, label, seen, cs, phaseOf) {
  for (let k = 0; k < K.length; k++) {
    let from; for (const c of cs) { const o = offers(c, phaseOf(c), k); if (o.length) { from = o; break; } }
    if (from) { V.assert(label + "/provided-by-the-first-context", seen !== undefined && Object.hasOwn(seen, K[k]) && V.or(...from.map((x) => V.same(seen[K[k]], x)))); }
    else V.assert(label + "/nothing-nobody-provides", seen === undefined || !(K[k] in seen));
  }
}
function probe(V, states, async) {
  const { getAnnotations } = V.mod("core/src/annotations.ts"), { unwrapInjectedAnnotationState } = V.mod("core/src/extension.ts"), initial = V.oneOf("initial", states), seen = [], value = V.token("parsed");
  const p = { $valueType: [], $stateType: [], mode: async ? "async" : "sync", priority: 1, usage: [], leadingNames: new Set(), acceptingAnyToken: false, initialState: initial, seen, value,
    parse(ctx) { const r = ctx.buffer.length > 0 ? { success: true, consumed: ctx.buffer, next: { ...ctx, buffer: [] } } : { success: true, consumed: [], next: ctx }; return async ? Promise.resolve(r) : r; },
    complete(state) { const a = getAnnotations(state); seen.push(a === undefined ? undefined : Object.fromEntries(Reflect.ownKeys(a).map((k) => [k, a[k]]))); V.assert("the-state-itself-is-intact", typeof initial === "object" && initial !== null ? state.a === initial.a : unwrapInjectedAnnotationState(state) === initial); const r = { success: true, value }; return async ? Promise.resolve(r) : r; },
    *suggest() {}, getDocFragments() { return { fragments: [] }; } };
  return p;
}
function merged(async, full, sizes, blank) {
  return async (V) => {
    undefinedFrom = blank ? (() => { const i = V.oneOf("undefinedFrom", ["ctx0.", "ctx1.", "ctx"]); return (who) => who.startsWith(i); })() : () => false;
    const F = V.mod(FA), n = V.oneOf("contexts", sizes), cs = Array.from({ length: n }, (_, i) => context(V, i, full, async));
    const p = probe(V, n > 1 && full ? [undefined] : [undefined, { a: 1 }], async && V.flag("asyncParser"));
    const args = ["x"], r = async ? await F.runWith(p, "prog", cs, { args }) : F.runWithSync(p, "prog", cs, { args });
    V.assert("the-parsed-value", V.same(r, p.value));
    const two = cs.some((c) => c.phase === "two-pass");
    V.assert("every-context-is-asked", cs.every((c) => c.calls.length === (c.phase === "two-pass" ? 2 : 1)));
    expect(V, "final", p.seen[p.seen.length - 1], cs, (c) => c.phase === "two-pass" ? "phase2" : "phase1");
    if (two) { V.cover("two-pass"); expect(V, "first-pass", p.seen[0], cs, () => "phase1"); for (const c of cs) if (c.phase === "two-pass") V.assert("told-the-first-result", V.same(c.calls[1].parsed, p.value)); } else V.cover("single-pass");
    for (const c of cs) for (const ph of Object.keys(c.copy ?? {})) { const now = Reflect.ownKeys(c.given[ph]), was = Reflect.ownKeys(c.copy[ph]); V.assert("data-of-a-context-is-not-modified", now.length === was.length && was.every((k) => Object.hasOwn(c.given[ph], k) && V.truthy(V.same(c.given[ph][k], c.copy[ph][k])))); }
    if (n > 1) V.cover("several");
  };
}
function passThrough(async) {
  return async (V) => {
    undefinedFrom = V.flag("undefinedValues") ? () => true : () => false;
    const P = V.mod(PA), p = probe(V, [undefined, null, "s", { a: 1 }, [1]], async), mask = V.pick("keys", 4), given = annotations(V, "given", mask), copy = { ...given };
    if (Array.isArray(p.initialState)) p.initialState.a = undefined;
    const r = async ? await P.parseAsync(p, ["x"], { annotations: given }) : P.parseSync(p, ["x"], { annotations: given });
    V.assert("the-parsed-value", r.success && V.same(r.value, p.value));
    for (let k = 0; k < 2; k++) V.assert("passes-through-unchanged", mask >> k & 1 ? p.seen[0] !== undefined && V.same(p.seen[0][K[k]], copy[K[k]]) : p.seen[0] === undefined || !(K[k] in p.seen[0]));
    V.assert("not-modified", Reflect.ownKeys(given).length === Reflect.ownKeys(copy).length);
    V.cover(mask ? "given" : "empty");
  };
}
// ---- C24 ----
class Point { constructor(x) { this.x = x; } get twice() { return this.x * 2; } }
function getterObject(x) { return Object.defineProperties({}, { seen: { value: x, enumerable: true, writable: true, configurable: true }, hidden: { value: x, enumerable: false, writable: true, configurable: true }, [K[0]]: { value: x, enumerable: true, writable: true, configurable: true }, computed: { get() { return this.seen; }, enumerable: true, configurable: true } }); }
const PRIMITIVE = ["undefined", "null", "boolean", "string", "int", "bigint", "symbol", "function"];
const OBJECT = ["array", "object", "null-prototype", "accessors", "date", "map", "set", "regexp", "instance"];
function state(V, kind, name) {
  const x = () => V.token(name + ".content");
  switch (kind) {
    case "undefined": return undefined; case "null": return null; case "boolean": return V.bool(name); case "string": return V.str(name); case "int": return V.int(name); case "bigint": return 5n; case "symbol": return K[1]; case "function": return () => 1;
    case "array": { const a = []; for (let i = V.pick(name + ".length", 3); i > 0; i--) a.push(x()); return a; }
    case "object": return V.flag(name + ".empty") ? {} : { a: x(), b: undefined };
    case "null-prototype": return Object.assign(Object.create(null), { a: x() });
    case "accessors": return getterObject(x());
    case "date": return new Date(12345); case "map": return new Map([[x(), x()], ["k", undefined]]); case "set": return new Set([x(), "k"]);
    case "regexp": { const r = /x(y)/giu; r.lastIndex = 3; return r; } case "instance": return new Point(x());
  }
}
// Everything an application can see of a state, apart from the annotations themselves.
const shown = (V, s, hide) => {
  if (s === null || typeof s !== "object") return [s];
  const out = [Object.getPrototypeOf(s), Array.isArray(s)];
  for (const k of Reflect.ownKeys(s)) { if (k === hide) continue; const d = Object.getOwnPropertyDescriptor(s, k); out.push(k, d.enumerable, "value" in d ? d.value : d.get); }
  if (s instanceof Date) out.push(s.getTime()); if (s instanceof Map) for (const [k, v] of s) out.push(k, v); if (s instanceof Set) out.push(...s); if (s instanceof RegExp) out.push(s.source, s.flags, s.lastIndex);
  return out;
};
const alike = (V, a, b) => a.length === b.length && a.every((x, i) => V.truthy(V.same(x, b[i])));
function attach(V) {
  const A = V.mod(AN), kind = V.oneOf("kind", [...PRIMITIVE, ...OBJECT]), s = state(V, kind, "state"), before = shown(V, s), key = A.annotationKey;
  const mask = V.pick("keys", 4), ann = annotations(V, "given", mask), how = V.oneOf("how", ["inject", "inherit"]);
  const carrier = A.injectAnnotations({}, ann), out = how === "inject" ? A.injectAnnotations(s, ann) : A.inheritAnnotations(carrier, s);
  if (how === "inject" && V.flag("none")) { V.assert("nothing-to-attach", A.injectAnnotations(s, V.flag("null") ? null : undefined) === s); }
  V.assert("the-original-is-untouched", alike(V, shown(V, s), before));
  if (mask === 0) { V.assert("no-annotations-changes-nothing", out === s); V.cover("none"); return; }
  if (how === "inherit" && kind === "instance") { V.assert("instances-are-left-alone", out === s); V.cover("instance"); return; }
  V.assert("carries-the-annotations", A.getAnnotations(out) === ann);
  if (PRIMITIVE.includes(kind)) { V.cover("primitive"); V.assert("recognised", A.isInjectedAnnotationState(out)); V.assert("detaching-gives-the-original", V.same(A.unwrapInjectedAnnotationState(out), s)); }
  else {
    V.cover("object"); V.assert("a-copy", out !== s); V.assert("same-contents", alike(V, shown(V, out, key), before)); V.assert("not-a-wrapper", !A.isInjectedAnnotationState(out) && A.unwrapInjectedAnnotationState(out) === out);
    if (kind === "instance" || kind === "accessors") V.assert("behaves-alike", kind === "accessors" ? V.same(out.computed, s.computed) : out instanceof Point);
  }
  // once more, with others
  const other = annotations(V, "other", 1 + V.pick("others", 2)), again = V.flag("again") ? A.injectAnnotations(out, other) : A.inheritAnnotations(A.injectAnnotations([], other), out);
  if (how === "inherit" && kind === "instance" || kind === "instance" && A.getAnnotations(again) !== other) return;
  V.assert("the-latest-annotations", A.getAnnotations(again) === other); V.assert("the-earlier-copy-is-untouched", A.getAnnotations(out) === ann);
  if (PRIMITIVE.includes(kind)) V.assert("detaching-twice-attached-gives-the-original", V.same(A.unwrapInjectedAnnotationState(again), s));
  else V.assert("same-contents-again", alike(V, shown(V, again, key), before));
  if (typeof s === "object" && s !== null) V.assert("unannotated-values-are-left-alone", A.unwrapInjectedAnnotationState(s) === s && !A.isInjectedAnnotationState(s));
}
class Guarded { #x; constructor(x) { this.#x = x; } get x() { return this.#x; } get() { return this.#x; } }
function delegate(V) {
  const A = V.mod(AN), D = V.mod(AS), kind = V.oneOf("kind", [...PRIMITIVE, ...OBJECT, "guarded"]), content = V.token("guarded"), s = kind === "guarded" ? new Guarded(content) : state(V, kind, "state"), before = shown(V, s);
  const ann = annotations(V, "given", 1), parent = V.oneOf("parent", [0, 1]) ? A.injectAnnotations(undefined, ann) : A.injectAnnotations({ p: 1 }, ann);
  let out = D.getDelegatedAnnotationState(parent, s);
  V.assert("the-original-is-untouched", alike(V, shown(V, s), before));
  V.assert("carries-the-annotations", A.getAnnotations(out) === ann); V.assert("recognised", D.hasDelegatedAnnotationCarrier(out));
  V.assert("detaching-gives-the-original", V.same(D.normalizeDelegatedAnnotationState(out), s));
  if (kind === "guarded") { V.cover("guarded"); V.assert("private-state-works", V.same(out.x, content) && V.same(out.get(), content)); }
  else if (typeof s === "object" && s !== null) V.assert("same-contents", alike(V, shown(V, out, A.annotationKey), before));
  const other = annotations(V, "other", 2), how = V.pick("again", 2);
  out = D.getDelegatedAnnotationState(A.injectAnnotations([], how ? other : ann), out);
  V.assert("the-latest-annotations", how ? A.getAnnotations(out) === other : V.same(A.getAnnotations(out)[K[0]], ann[K[0]]));
  V.assert("detaching-gives-the-original-again", V.same(D.normalizeDelegatedAnnotationState(out), s));
  V.assert("no-annotations-no-carrier", D.getDelegatedAnnotationState(V.oneOf("bare", [undefined, {}, []]), s) === s);
  V.assert("unannotated-values-are-left-alone", V.same(D.normalizeDelegatedAnnotationState(s), s) && !D.hasDelegatedAnnotationCarrier(s));
  V.cover(PRIMITIVE.includes(kind) ? "primitive" : "object");
}
// A structure of up to two levels with carriers anywhere in it; `plain` is the same structure without them.
function structure(V, wrap, name, depth) {
  const kind = V.oneOf(name + ".kind", depth === 0 ? ["string", "guarded", "date"] : ["array", "object", "map", "set", "null-prototype", "instance"]);
  const carried = V.flag(name + ".carried");
  let x, plain;
  if (depth === 0) { x = plain = kind === "guarded" ? new Guarded(1) : state(V, kind, name); }
  else {
    const kids = Array.from({ length: depth === 2 ? 1 : 2 }, (_, i) => structure(V, wrap, name + i, depth - 1)), xs = kids.map((k) => k.x), ps = kids.map((k) => k.plain);
    const mk = (a) => kind === "array" ? a : kind === "object" ? Object.fromEntries(a.map((v, i) => ["k" + i, v])) : kind === "null-prototype" ? Object.assign(Object.create(null), Object.fromEntries(a.map((v, i) => ["k" + i, v]))) : kind === "map" ? new Map(a.map((v, i) => i % 2 ? [v, "key"] : ["key" + i, v])) : kind === "set" ? new Set(a) : new Point(a[0]);
    x = mk(xs); plain = kind === "instance" ? x : mk(ps);
    if (kind === "instance") { x = new Point("plain"); plain = x; }
  }
  return { x: carried ? wrap(x) : x, plain, carried };
}
function same(V, a, b) {
  if (a === null || typeof a !== "object" || b === null || typeof b !== "object") return V.truthy(V.same(a, b));
  if (a === b) return true;
  if (a instanceof Date || a instanceof Guarded || a instanceof Point) return a === b;
  return alike2(V, shown(V, a), shown(V, b));
}
const alike2 = (V, a, b) => a.length === b.length && a.every((x, i) => same(V, x, b[i]));
function nested(depth) {
  return (V) => {
    const A = V.mod(AN), D = V.mod(AS), ann = annotations(V, "given", 1), parent = A.injectAnnotations({}, ann);
    const t = structure(V, (x) => D.getDelegatedAnnotationState(parent, x), "root", depth), before = typeof t.x === "object" ? shown(V, t.x) : [t.x];
    const out = D.normalizeNestedDelegatedAnnotationState(t.x);
    V.assert("the-structure-without-carriers", same(V, out, t.plain));
    V.assert("the-original-is-untouched", typeof t.x !== "object" || alike(V, shown(V, t.x), before));
    V.assert("nothing-left-to-detach", D.normalizeNestedDelegatedAnnotationState(out) === out);
    V.cover(t.carried ? "carried" : "bare");
  };
}
function cyclic(V) {
  const A = V.mod(AN), D = V.mod(AS), ann = annotations(V, "given", 1), parent = A.injectAnnotations({}, ann), w = (x) => D.getDelegatedAnnotationState(parent, x);
  const leaf = V.flag("carried") ? w(V.str("leaf")) : "leaf", kind = V.oneOf("kind", ["object", "array", "map", "set"]);
  const o = kind === "object" ? { leaf } : kind === "array" ? [leaf] : kind === "map" ? new Map([["leaf", leaf]]) : new Set([leaf]);
  const me = V.flag("through") ? { back: o } : o;
  if (kind === "object") o.me = me; else if (kind === "array") o.push(me); else if (kind === "map") o.set("me", me); else o.add(me);
  const out = D.normalizeNestedDelegatedAnnotationState(o), items = kind === "object" ? [out.leaf, out.me] : kind === "array" ? out : kind === "map" ? [out.get("leaf"), out.get("me")] : [...out];
  V.assert("leaf-is-plain", !D.hasDelegatedAnnotationCarrier(items[0])); V.assert("the-cycle-is-kept", me === o ? items[1] === out : items[1].back === out); V.cover(leaf === "leaf" ? "bare" : "carried");
}
// Whole parsers: running with annotations gives what running without gives, and nobody outside sees a carrier.
const carries = (V, v, AK, seen = new Set()) => {
  if (v === null || typeof v !== "object" || seen.has(v)) return false;
  seen.add(v); if (AK in v) return true;
  for (const k of Reflect.ownKeys(v)) { const d = Object.getOwnPropertyDescriptor(v, k); if ("value" in d && carries(V, d.value, AK, seen)) return true; }
  if (v instanceof Map) for (const [a, b] of v) if (carries(V, a, AK, seen) || carries(V, b, AK, seen)) return true;
  if (v instanceof Set) for (const a of v) if (carries(V, a, AK, seen)) return true;
  return false;
};
const deep = (a, b) => { if (Object.is(a, b)) return true; if (a === null || b === null || typeof a !== "object" || typeof b !== "object" || Object.getPrototypeOf(a) !== Object.getPrototypeOf(b)) return false; const s = [undefined].concat(...[a].map((x) => flat(x))), t = [undefined].concat(...[b].map((x) => flat(x))); return s.length === t.length && s.every((x, i) => deep(x, t[i])); };
const flat = (s) => { const out = []; for (const k of Reflect.ownKeys(s)) { const d = Object.getOwnPropertyDescriptor(s, k); out.push(k, "value" in d ? d.value : d.get); } if (s instanceof Date) out.push(s.getTime()); if (s instanceof Map) for (const [k, v] of s) out.push(k, v); if (s instanceof Set) out.push(...s); return out; };
const VALUES = { object: () => ({ a: 1 }), text: () => "s", undefined: () => undefined, null: () => null, date: () => new Date(0), map: () => new Map([[1, 2]]), array: () => [1, [2]], instance: () => new Guarded(7) };
const LEAVES = ["constant", "option", "argument", "switch", "flag", "command", "passThrough"];
const WRAPS = ["id", "optional", "withDefault", "lazyDefault", "multiple", "nonEmpty", "object", "tuple", "group", "or", "longestMatch", "merge", "concat", "command", "conditional", "seq"];
const ARGV = [[], ["-x"], ["-x", "q"], ["x"], ["w", "x"], ["w", "-x", "q"], ["-m", "p", "-x", "q"], ["a", "b"], ["x", "b"], ["--", "x"]];
function leaf(V, kind, v) {
  const P = V.mod(PR), vp = { mode: "sync", metavar: "X", placeholder: v, parse: () => ({ success: true, value: v }), format: () => "v" };
  return kind === "constant" ? P.constant(v) : kind === "option" ? P.option("-x", vp) : kind === "argument" ? P.argument(vp) : kind === "switch" ? P.option("-x") : kind === "flag" ? P.flag("-x") : kind === "command" ? P.command("x", P.constant(v)) : P.passThrough();
}
function wrapped(V, kind, p, v) {
  const P = V.mod(PR), C = V.mod(CO), M = V.mod(MO), S = V.mod(VPF);
  const other = () => P.command("zz", P.constant(1));
  switch (kind) {
    case "id": return p; case "optional": return M.optional(p); case "withDefault": return M.withDefault(p, v); case "lazyDefault": return M.withDefault(p, () => v); case "multiple": return M.multiple(p); case "nonEmpty": return M.nonEmpty(p);
    case "object": return C.object({ k: p }); case "tuple": return C.tuple([p]); case "group": return C.group("g", p); case "or": return C.or(p, other()); case "longestMatch": return C.longestMatch(p, other());
    case "merge": return C.merge(C.object({ k: p }), C.object({ q: M.optional(P.option("-q", S.string())) })); case "concat": return C.concat(C.tuple([p]), C.tuple([P.constant(1)])); case "command": return P.command("w", p);
    case "conditional": return C.conditional(P.option("-m", S.choice(["p"])), { p }, p); case "seq": return C.seq(p, M.optional(P.argument(S.string())));
  }
}
const VPF = "core/src/valueparser.ts";
function whole(async) {
  return async (V) => {
    const AK = V.mod(AN).annotationKey, { parseSync, parseAsync, suggestSync } = V.mod(PA), M = V.mod(MO);
    const kind = V.oneOf("value", Object.keys(VALUES)), v = VALUES[kind](), l = V.oneOf("leaf", LEAVES), w1 = V.oneOf("inner", WRAPS), w2 = V.oneOf("outer", WRAPS);
    if (w2 === "multiple" && w1 !== "id" && l === "constant") { V.cover("parsed"); return; } // repeating a parser that never consumes anything is out of scope
    let log = []; const spy = (p) => M.map(p, (x) => { log.push(x); return x; });
    let p; try { p = spy(wrapped(V, w2, spy(wrapped(V, w1, spy(leaf(V, l, v)), v)), v)); } catch (e) { if (e instanceof TypeError || e instanceof Error && e.name.includes("Error")) { V.cover("rejected"); return; } throw e; }
    const before = v !== null && typeof v === "object" ? Reflect.ownKeys(v).length : 0;
    for (const argv of ARGV) {
      const go = async (o) => { log = []; let r; try { r = async ? await parseAsync(p, argv, o) : parseSync(p, argv, o); } catch (e) { r = { success: false, thrown: String(e) }; } return { r, log }; };
      const plain = await go(undefined), ann = await go({ annotations: { [K[0]]: { secret: 1 } } });
      V.assert("same-outcome", plain.r.success === ann.r.success && plain.r.thrown === ann.r.thrown);
      if (ann.r.success) { V.assert("no-annotations-in-the-result", !carries(V, ann.r.value, AK)); V.assert("same-result", deep(plain.r.value, ann.r.value)); V.cover("parsed"); }
      V.assert("callbacks-see-plain-values", ann.log.every((x) => !carries(V, x, AK)) && deep(plain.log, ann.log));
    }
    V.assert("the-application's-objects-are-untouched", (v !== null && typeof v === "object" ? Reflect.ownKeys(v).length : 0) === before);
  };
}
const c23 = (id, targets, run, covers, o = {}) => ({ id: "contexts/" + id, prop: "C23", use: [FA, PA, AN, AS, IP, "core/src/annotations.ts", "core/src/extension.ts"], targets, covers, models: {}, trusted: [], run, ...o });
const c24 = (id, targets, run, covers, o = {}) => ({ id: "annotations/" + id, prop: "C24", use: [AN, AS, PA, IP], targets, covers, models: {}, trusted: [], run, ...o });
export const contracts = [
  c23("merge", [FA + "#mergeAnnotations", FA + "#collectPhase1AnnotationsSync", FA + "#collectFinalAnnotationsSync", FA + "#runWithSync"], merged(false, true, [1, 2]), ["single-pass", "two-pass", "several"], { bounded: "up to two contexts, two keys, with internal annotations" }),
  c23("merge/undefined", [FA + "#mergeAnnotations", FA + "#collectPhase1AnnotationsSync", FA + "#collectFinalAnnotationsSync", FA + "#runWithSync"], merged(false, false, [1, 2], true), ["single-pass", "two-pass", "several"], { bounded: "up to two contexts, two keys, values undefined" }),
  c23("merge/three", [FA + "#mergeAnnotations", FA + "#collectPhase1AnnotationsSync", FA + "#collectFinalAnnotationsSync"], merged(false, false, [3]), ["single-pass", "two-pass", "several"], { bounded: "three contexts, two keys" }),
  c23("merge/async", [FA + "#collectPhase1Annotations", FA + "#collectFinalAnnotations", FA + "#runWith"], merged(true, true, [1, 2]), ["single-pass", "two-pass", "several"], { bounded: "up to two contexts, two keys, with internal annotations" }),
  c23("pass-through", [PA + "#parseSync"], passThrough(false), ["given", "empty"]),
  c23("pass-through/async", [PA + "#parseAsync"], passThrough(true), ["given", "empty"]),
  c24("attach", [AN + "#injectAnnotations", AN + "#inheritAnnotations", AN + "#unwrapInjectedAnnotationWrapper", AN + "#isInjectedAnnotationWrapper"], attach, ["none", "primitive", "object", "instance"]),
  c24("delegate", [AS + "#getDelegatedAnnotationState", AS + "#normalizeDelegatedAnnotationState", AS + "#withAnnotationView"], delegate, ["primitive", "object", "guarded"]),
  c24("nested/1", [AS + "#normalizeNestedDelegatedAnnotationState"], nested(1), ["carried", "bare"], { bounded: "one level of two items" }),
  c24("nested/2", [AS + "#normalizeNestedDelegatedAnnotationState"], nested(2), ["carried", "bare"], { bounded: "two levels of two items" }),
  c24("nested/cyclic", [AS + "#normalizeNestedDelegatedAnnotationState"], cyclic, ["carried", "bare"], { bounded: "cycles of up to two objects" }),
  c24("whole", [PA + "#parseSync", PR + "#constant", MO + "#map"], whole(false), ["parsed", "rejected"], { bounded: "every pair of combinators over every primitive, ten command lines", use: [AN, AS, PA, IP, PR, CO, MO] }),
  c24("whole/async", [PA + "#parseAsync"], whole(true), ["parsed", "rejected"], { bounded: "every pair of combinators over every primitive, ten command lines", use: [AN, AS, PA, IP, PR, CO, MO] }),
];
