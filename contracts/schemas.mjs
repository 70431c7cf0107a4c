// Value parsers built from validation schemas and calendar types (C31): they accept what the library accepts, and return what it returns.
import { createRequire } from "node:module";
import { MSG } from "./_h.mjs";
const STD = "standard-schema/src/index.ts", ZOD = "zod/src/index.ts", VAL = "valibot/src/index.ts", TMP = "temporal/src/index.ts";
const POOL = ["", "a", "true", "TRUE", " yes ", "off", "0", "1", "2020-01-23", "x\ty", "no", "maybe"];
const arr = (V, ok) => { V.assert("error-is-a-message", Array.isArray(ok) && ok.length > 0); };
// What the library answers to one text: a function of the text, otherwise arbitrary.
function library(V, kinds, shape) {
  const calls = [];
  return { calls, answer(input) { const k = V.oneOf("answer", kinds), value = V.token("value"), msg = V.str("issue"), issues = k === "no-issue" ? [] : [{ message: msg }]; calls.push({ input, k, value, msg, issues }); if (k === "throws") throw new Error("library failed"); return shape(k === "accepts", value, issues); } };
}
const CUSTOM = ["none", "message", "function"];
function custom(V, key) { const how = V.oneOf("custom-error", CUSTOM), told = [], fixed = [{ type: "text", text: "custom" }]; return { how, told, fixed, errors: how === "none" ? undefined : { [key]: how === "message" ? fixed : (...a) => { told.push(a); return fixed; } } }; }
// A parse settled: outcome is {r} or {thrown}.
async function settle(f, async) { try { const r = f(); return { r: async ? await r : r }; } catch (e) { return { thrown: e }; } }
function verdict(V, out, call, cus, input, issuesOf) {
  if (call.k === "throws") { V.assert("exception-is-never-acceptance", out.thrown !== undefined || !out.r.success); V.cover("exception"); return; }
  V.assert("answers-without-throwing", out.thrown === undefined); if (out.thrown) return;
  if (call.k === "accepts") { V.cover("accepted"); V.assert("accepted-with-the-library's-value", out.r.success === true && out.r.value === call.value); return; }
  V.cover("rejected");
  V.assert("rejected-when-the-library-rejects", out.r.success === false);
  arr(V, out.r.error);
  if (cus.how !== "none") { V.assert("configured-error", out.r.error === cus.fixed); if (cus.how === "function") V.assert("told-what-was-wrong", cus.told.length === 1 && issuesOf(cus.told[0][0]) === call.issues && V.truthy(V.same(cus.told[0][1], input))); }
  else if (call.issues.length) V.assert("says-what-was-wrong", V.or(...out.r.error.map((t) => V.same(t.text ?? t.value ?? t.message, call.msg))));
}
function std(async) {
  return async (V) => {
    const m = V.mod(STD), input = V.str("input", { pool: POOL }), late = V.flag("late"), cus = custom(V, "schemaError");
    const lib = library(V, ["accepts", "rejects", "no-issue", "throws"], (ok, value, issues) => ok ? { value } : { issues });
    const schema = { "~standard": { version: 1, vendor: "x", validate(x) { if (!late) return lib.answer(x); let r; try { r = lib.answer(x); } catch (e) { return Promise.reject(e); } return Promise.resolve(r); } } };
    const options = { placeholder: V.token("placeholder"), ...(cus.errors ? { errors: cus.errors } : {}) };
    const p = async ? m.standardSchemaAsync(schema, options) : m.standardSchema(schema, options);
    const out = await settle(() => p.parse(input), async);
    V.assert("asked-once-with-exactly-the-text", lib.calls.length === 1 && V.truthy(V.same(lib.calls[0].input, input)));
    if (late && !async) { V.cover("refused"); V.assert("asynchronous-validation-is-refused", out.thrown instanceof TypeError); return; }
    if (async) V.cover("refused");
    verdict(V, out, lib.calls[0], cus, input, (x) => x);
  };
}
// Boolean spellings as documented, in any case, surrounding blanks ignored
const YES = /^\s*([tT][rR][uU][eE]|1|[yY][eE][sS]|[oO][nN])\s*$/, NO = /^\s*([fF][aA][lL][sS][eE]|0|[nN][oO]|[oO][fF][fF])\s*$/;
const BOOLS = { boolean: (d) => d, "boolean3": (d) => ({ ...d, typeName: "ZodBoolean", type: undefined }), optional: (d) => ({ type: "optional", innerType: { _def: d } }), nullable: (d) => ({ typeName: "ZodNullable", innerType: { _def: d } }), default: (d) => ({ type: "default", innerType: { _def: d } }), refined: (d) => ({ typeName: "ZodEffects", effect: { type: "refinement" }, schema: { _def: d } }), catch: (d) => ({ type: "catch", innerType: { _def: d } }), piped: (d) => ({ type: "pipe", in: { _def: d }, out: { _def: { type: "string" } } }), lazy: (d) => ({ type: "lazy", getter: () => ({ _def: d }) }), readonly: (d) => ({ type: "readonly", innerType: { _def: d } }) };
const OTHERS = { string: { type: "string", checks: [] }, number: { typeName: "ZodNumber", checks: [{ kind: "int" }] }, enum: { type: "enum", entries: { a: "a", b: "b" } }, literal: { type: "literal", values: ["true"] }, union: { type: "union", options: [{ _def: { type: "boolean" } }, { _def: { type: "string" } }] }, preprocess: { typeName: "ZodEffects", effect: { type: "preprocess" }, schema: { _def: { type: "boolean" } } }, "preprocess4": { type: "pipe", in: { _def: { type: "transform" } }, out: { _def: { type: "boolean" } } }, unknown: undefined };
function zodSchema(V, def, lib, async) {
  const ask = (x) => lib.answer(x);
  return { _def: def, safeParse: ask, safeParseAsync: async (x) => ask(x) };
}
const zodLib = (V) => library(V, ["accepts", "rejects", "no-issue", "throws"], (ok, value, issues) => ok ? { success: true, data: value } : { success: false, error: { issues } });
function zodText(async) {
  return async (V) => {
    const m = V.mod(ZOD), input = V.str("input", { pool: POOL }), cus = custom(V, "zodError"), lib = zodLib(V), def = OTHERS[V.oneOf("schema", Object.keys(OTHERS))];
    const p = (async ? m.zodAsync : m.zod)(zodSchema(V, def, lib, async), { placeholder: "", ...(cus.errors ? { errors: cus.errors } : {}) });
    const out = await settle(() => p.parse(input), async);
    V.assert("asked-once-with-exactly-the-text", lib.calls.length === 1 && V.truthy(V.same(lib.calls[0].input, input)));
    verdict(V, out, lib.calls[0], cus, input, (e) => e.issues);
  };
}
function zodBoolean(async) {
  return async (V) => {
    const m = V.mod(ZOD), input = V.str("input", { pool: POOL }), cus = custom(V, "zodError"), lib = zodLib(V), coerce = V.flag("coerce"), def = BOOLS[V.oneOf("schema", Object.keys(BOOLS))]({ type: "boolean", checks: [], coerce });
    const p = (async ? m.zodAsync : m.zod)(zodSchema(V, def, lib, async), { placeholder: false, ...(cus.errors ? { errors: cus.errors } : {}) });
    const out = await settle(() => p.parse(input), async);
    const yes = V.truthy(V.matches(input, YES)), no = !yes && V.truthy(V.matches(input, NO));
    if (!yes && !no && coerce) { // every text is truthy to a coercing schema: only the documented spellings count
      V.cover("no such spelling"); V.assert("only-documented-spellings", out.thrown === undefined && !out.r.success && lib.calls.length === 0); if (cus.how === "message") V.assert("configured-error", out.r.error === cus.fixed); return;
    }
    V.assert("asked-once", lib.calls.length === 1);
    V.assert("asked-with-the-Boolean-spelled-or-the-text", yes || no ? lib.calls[0].input === yes : V.truthy(V.same(lib.calls[0].input, input)));
    if (yes) V.cover("yes"); if (no) V.cover("no");
    verdict(V, out, lib.calls[0], cus, input, (e) => e.issues);
  };
}
function asyncError(V) {
  const m = V.mod(ZOD), which = V.oneOf("error", ["v4", "v3", "other"]); class $ZodAsyncError extends Error {}
  const p = m.zod({ _def: { type: "string" }, safeParse() { throw which === "v4" ? new $ZodAsyncError("x") : new Error(which === "v3" ? "Synchronous parse encountered promise." : "mine"); } }, { placeholder: "" });
  let e; try { p.parse(V.str("input")); } catch (x) { e = x; }
  V.assert("refused", which === "other" ? e instanceof Error : e instanceof TypeError); V.cover("refused");
}
const VDEFS = [{ type: "string", pipe: [] }, { type: "number" }, { type: "picklist", options: ["a", "b"] }, { type: "literal", literal: "true" }, { type: "optional", wrapped: { type: "string" } }, { type: "union", options: [{ type: "literal", literal: "x" }, { type: "literal", literal: "y" }] }, { type: "boolean" }];
function valibotText(async) {
  return async (V) => {
    const m = V.mod(VAL), input = V.str("input", { pool: POOL }), cus = custom(V, "valibotError"), kinds = ["accepts", "rejects", "throws"], lib = library(V, kinds, (ok, value, issues) => ok ? { typed: true, value } : { typed: V.flag("typed"), value, issues });
    const schema = { kind: "schema", async: false, ...VDEFS[V.pick("schema", VDEFS.length)], "~run": (ds) => { const r = lib.answer(ds.value); return async && V.flag("late") ? Promise.resolve(r) : r; } };
    const p = (async ? m.valibotAsync : m.valibot)(schema, { placeholder: "", ...(cus.errors ? { errors: cus.errors } : {}) });
    const out = await settle(() => p.parse(input), async);
    V.assert("asked-once-with-exactly-the-text", lib.calls.length === 1 && V.truthy(V.same(lib.calls[0].input, input)));
    verdict(V, out, lib.calls[0], cus, input, (x) => x);
  };
}
function valibotAsyncRefused(V) {
  const m = V.mod(VAL), inner = { kind: "schema", type: "string", async: true, "~run": () => Promise.resolve({ typed: true, value: 1 }) };
  const how = V.oneOf("hidden-in", ["itself", "optional", "pipe", "union", "lazy"]);
  const schema = how === "itself" ? inner : how === "optional" ? { kind: "schema", type: "optional", async: false, wrapped: inner, "~run": inner["~run"] } : how === "pipe" ? { kind: "schema", type: "string", async: false, pipe: [{ kind: "schema", type: "string", async: false }, { kind: "validation", async: true }], "~run": inner["~run"] } : how === "union" ? { kind: "schema", type: "union", async: false, options: [inner], "~run": inner["~run"] } : { kind: "schema", type: "lazy", async: false, getter: () => inner, "~run": inner["~run"] };
  let e; try { m.valibot(schema, { placeholder: "" }).parse(V.str("input")); } catch (x) { e = x; }
  V.assert("asynchronous-validation-is-refused", e instanceof TypeError); V.cover("refused");
}
// ---- calendar types ----
const Y = "(?:[+-]\\d{6}|\\d{4})", CAL = "(?:\\[!?u-ca=[A-Za-z0-9-]+\\])", DATE = `(?:${Y}-\\d{2}-\\d{2}|${Y}\\d{4})`, TIME = "(?:\\d{2}:\\d{2}(?::\\d{2}(?:[.,]\\d+)?)?|\\d{2}(?:\\d{2}(?:\\d{2}(?:[.,]\\d+)?)?)?)";
const FORMS = { plainDate: `^${DATE}${CAL}?$`, plainTime: `^[Tt]?${TIME}${CAL}?$`, plainDateTime: `^${DATE}[Tt ]${TIME}${CAL}?$`, plainYearMonth: `^(?:${Y}-\\d{2}${CAL}?|${Y}\\d{2}${CAL}?|${DATE}${CAL})$`, plainMonthDay: `^(?:(?:--)?\\d{2}-?\\d{2}${CAL}?|${DATE}${CAL})$` };
const TYPES = { instant: "Instant", duration: "Duration", zonedDateTime: "ZonedDateTime", plainDate: "PlainDate", plainTime: "PlainTime", plainDateTime: "PlainDateTime", plainYearMonth: "PlainYearMonth", plainMonthDay: "PlainMonthDay" };
const DATES = ["2020-01-23", "20200123", "+002020-01-23", "2020-01-23T10:00", "2020-01-23 10", "10:00", "T1000", "2020-01", "202001", "01-23", "--0123", "2020-01-23[u-ca=hebrew]", "PT1H", "2020-01-23T10:00Z", "2020-01-23T10:00+09:00[Asia/Seoul]", "", "x"];
function withTemporal(types, f) { const was = Object.getOwnPropertyDescriptor(globalThis, "Temporal"); Object.defineProperty(globalThis, "Temporal", { value: types, configurable: true, writable: true }); try { return f(); } finally { if (was) Object.defineProperty(globalThis, "Temporal", was); else delete globalThis.Temporal; } }
function calendar(name) {
  return (V) => {
    const m = V.mod(TMP), input = V.str("input", { pool: DATES }), cus = custom(V, "invalidFormat"), form = FORMS[name] && new RegExp(FORMS[name]);
    const calls = [], type = { from(x) { const c = { x, k: V.oneOf("answer", ["accepts", "throws"]), value: V.token("value") }; calls.push(c); if (c.k === "throws") throw new RangeError("no"); return c.value; } };
    const p = m[name](cus.errors ? { errors: cus.errors } : {});
    const out = withTemporal({ [TYPES[name]]: type }, () => { try { return { r: p.parse(input) }; } catch (e) { return { thrown: e }; } });
    V.assert("never-throws", out.thrown === undefined); if (out.thrown) return;
    const own = form ? V.truthy(V.matches(input, form)) : true;
    if (!own) { V.cover("another form"); V.assert("only-texts-of-its-own-form", !out.r.success); }
    else { V.assert("asked-once-with-exactly-the-text", calls.length === 1 && V.truthy(V.same(calls[0].x, input))); V.assert("accepted-exactly-when-the-library-does", out.r.success === (calls[0].k === "accepts")); if (out.r.success) { V.cover("accepted"); V.assert("the-library's-value", out.r.value === calls[0].value); } }
    if (!out.r.success) { V.cover("rejected"); arr(V, out.r.error); if (cus.how !== "none") V.assert("configured-error", out.r.error === cus.fixed && (cus.how === "message" || cus.told.length === 1 && V.truthy(V.same(cus.told[0][0], input)))); }
  };
}
function zone(V) {
  const m = V.mod(TMP), input = V.str("input", { pool: ["UTC", "utc", "Asia/Seoul", "Factory", "", "gmt+0", "PRC", "prc", "Etc/GMT", "/"] }), cus = custom(V, "invalidFormat"), calls = [];
  const type = { from(x) { const c = { x, k: V.oneOf("answer", ["accepts", "throws"]) }; calls.push(c); if (c.k === "throws") throw new RangeError("no"); return V.token("zdt"); } };
  const p = m.timeZone(cus.errors ? { errors: cus.errors } : {});
  const out = withTemporal({ ZonedDateTime: type }, () => { try { return { r: p.parse(input) }; } catch (e) { return { thrown: e }; } });
  V.assert("never-throws", out.thrown === undefined); if (out.thrown) return;
  const area = V.truthy(input.includes("/"));
  if (area) { V.cover("area"); V.assert("asked-about-exactly-this-zone", calls.length === 1 && V.truthy(V.same(calls[0].x.timeZone, input))); V.assert("accepted-exactly-when-the-library-does", out.r.success === (calls[0].k === "accepts")); if (out.r.success) V.assert("the-zone-as-given", V.same(out.r.value, input)); }
  else { V.cover("single word");
    const listed = V.truthy(V.matches(input, /^([uU][tT][cC]|[gG][mM][tT]|[pP][rR][cC]|[nN][zZ]-[cC][hH][aA][tT])$/)); if (listed) V.assert("documented-names-in-any-case", out.r.success);
    if (out.r.success) V.assert("the-listed-spelling-of-it", V.same(out.r.value.toLowerCase(), input.toLowerCase())); else V.assert("names-with-blanks-or-nothing-are-no-zones", V.not(listed)); }
  if (!out.r.success) { arr(V, out.r.error); if (cus.how !== "none") V.assert("configured-error", out.r.error === cus.fixed); }
}
// ---- the real libraries, on samples ----
const SAMPLES = ["", "a", "b", "abc", "1", "0", "true", "TRUE", "off", "no", " yes ", "maybe", "a@b.co", "3.5", "-7", "1e3", "2020-01-23", "x y", "null", "undefined", "null ", "é"];
function real(V) {
  const repo = process.env.VERIF_REPO ?? "/repo", { z } = createRequire(repo + "/packages/zod/package.json")("zod"), v = createRequire(repo + "/packages/valibot/package.json")("valibot");
  const isB = (t) => YES.test(t) ? true : NO.test(t) ? false : undefined;
  const zs = [[z.string(), 0], [z.string().email(), 0], [z.coerce.number().int(), 0], [z.enum(["a", "b"]), 0], [z.literal("abc"), 0], [z.union([z.literal("a"), z.literal("1")]), 0], [z.boolean(), 1], [z.boolean().optional(), 1], [z.boolean().refine((b) => b), 1], [z.boolean().catch(false), 1], [z.coerce.boolean(), 2], [z.coerce.boolean().refine((b) => !b), 2], [z.preprocess((s) => s === "a", z.boolean()), 0], [z.string().transform((s) => s.length), 0], [z.boolean().transform((b) => b ? "Y" : "N"), 1], [z.boolean().default(true), 1], [z.string().optional(), 0], [z.number(), 0]];
  for (const [s, kind] of zs) { const p = V.mod(ZOD).zod(s, { placeholder: undefined });
    for (const t of SAMPLES) { const b = kind ? isB(t) : undefined, r = p.parse(t);
      if (kind === 2 && b === undefined) { V.assert("zod-coerced-Boolean-spellings", !r.success); continue; }
      const w = s.safeParse(b ?? t); V.assert("zod-agrees", r.success === w.success && (!r.success || Object.is(r.value, w.data))); } }
  const vs = [v.string(), v.pipe(v.string(), v.email()), v.picklist(["a", "b"]), v.literal("abc"), v.union([v.literal("a"), v.literal("1")]), v.pipe(v.string(), v.transform(Number), v.number(), v.integer()), v.optional(v.string()), v.fallback(v.pipe(v.string(), v.minLength(3)), "fell back"), v.number()];
  for (const s of vs) { const p = V.mod(VAL).valibot(s, { placeholder: undefined }); for (const t of SAMPLES) { const r = p.parse(t), w = v.safeParse(s, t); V.assert("valibot-agrees", r.success === w.success && (!r.success || Object.is(r.value, w.output))); const q = V.mod(STD).standardSchema(s, { placeholder: undefined }).parse(t); V.assert("standard-schema-agrees", q.success === w.success && (!q.success || Object.is(q.value, w.output))); } }
  V.cover("compared");
}
const T = (f, ...n) => n.map((x) => f + "#" + x);
const c = (id, use, targets, run, covers, o = {}) => ({ id: "schemas/" + id, prop: "C31", use, targets, covers, models: {}, trusted: [], run, ...o });
const BOTH = [false, true], nm = (a) => a ? "/async" : "";
const LIB = "the schema library is a parameter: any answer to any text (accept with any value, reject with any issue, throw)";
export const contracts = [
  ...BOTH.map((a) => c("standard" + nm(a), [STD, MSG], T(STD, a ? "standardSchemaAsync" : "standardSchema"), std(a), ["accepted", "rejected", "exception", "refused"], { trusted: [LIB] })),
  ...BOTH.map((a) => c("zod" + nm(a), [ZOD, MSG], T(ZOD, a ? "zodAsync" : "zod"), zodText(a), ["accepted", "rejected", "exception"], { trusted: [LIB] })),
  ...BOTH.map((a) => c("zod-boolean" + nm(a), [ZOD, MSG], T(ZOD, a ? "zodAsync" : "zod"), zodBoolean(a), ["accepted", "rejected", "exception", "yes", "no", "no such spelling"], { trusted: [LIB, "new ZodError(issues) carries the issues"] })),
  c("zod-async-refused", [ZOD], T(ZOD, "zod"), asyncError, ["refused"]),
  ...BOTH.map((a) => c("valibot" + nm(a), [VAL, MSG], T(VAL, a ? "valibotAsync" : "valibot"), valibotText(a), ["accepted", "rejected", "exception"], { trusted: [LIB, "valibot's safeParse is run as it is"] })),
  c("valibot-async-refused", [VAL], T(VAL, "valibot"), valibotAsyncRefused, ["refused"]),
  ...Object.keys(TYPES).map((t) => c("temporal/" + t, [TMP, MSG], T(TMP, t), calendar(t), ["accepted", "rejected", ...(FORMS[t] ? ["another form"] : [])], { trusted: ["the calendar library is a parameter: accepts with any value or throws"] })),
  c("temporal/timeZone", [TMP, MSG], T(TMP, "timeZone"), zone, ["area", "single word"], { trusted: ["the calendar library is a parameter: accepts or throws"] }),
  c("real-libraries", [ZOD, VAL, STD], [...T(ZOD, "zod"), ...T(VAL, "valibot"), ...T(STD, "standardSchema")], real, ["compared"], { symbolic: false, native: { runs: 1 }, bounded: "27 schemas of the installed zod and valibot on 22 texts" }),
];
