// Log levels, verbosity, debug switches.
import { childParser, MO } from "./_h.mjs";
const LV = "logtape/src/loglevel.ts", VB = "logtape/src/verbosity.ts", DB = "logtape/src/debug.ts", PS = "logtape/src/preset.ts", PA = "core/src/parser.ts";
const ORDER = ["fatal", "error", "warning", "info", "debug", "trace"]; // from the least to the most detailed
const POOL = [...ORDER, "INFO", "Warning", "warn", "", " info", "info ", "ınfo", "debuG", "TRACE", "constructor", "-d", "--debug", "-v", "--verbose", "-vv", "-dd", "--debug=1", "--", "-x"];
const lower = (V, s) => s.toLowerCase();
const isLevel = (V, s) => V.or(...ORDER.map((l) => V.same(s, l)));
function level(V) {
  const p = V.mod(LV).logLevel(), s = V.str("text", { pool: POOL }), r = p.parse(s);
  V.assert("accepts-exactly-the-level-names", V.iff(r.success, isLevel(V, lower(V, s))));
  if (r.success) { V.cover("accepted"); V.assert("the-level-named", V.same(r.value, lower(V, s))); V.assert("prints-back", V.same(p.format(r.value), r.value)); const again = p.parse(p.format(r.value)); V.assert("what-it-prints-is-accepted-again", V.and(again.success, again.success ? V.same(again.value, r.value) : false)); }
  else V.cover("rejected");
}
function definition(V) {
  const s = V.str("level", { pool: POOL }), k = V.pick("definition", 4); let ok = true;
  try { [() => V.mod(VB).verbosity({ baseLevel: s }), () => V.mod(DB).debug({ debugLevel: s }), () => V.mod(DB).debug({ normalLevel: s }), () => V.mod(PS).loggingOptions({ level: "option", default: s })][k](); } catch (e) { if (!(e instanceof TypeError)) throw e; ok = false; }
  V.assert("defined-exactly-for-known-levels", V.iff(ok, isLevel(V, s))); V.cover(ok ? "accepted" : "rejected");
}
// Any number of flags: multiple() stands for a parser that collected that many.
const N_STUB = { n: undefined };
const counted = { "core/src/modifiers.ts#multiple": (V) => { const c = childParser(V, { name: "flags" }); c.complete = () => { const fs = V.strs("flags"); N_STUB.n = fs.length; return { success: true, value: fs }; }; return c; } };
function exact(V) {
  const base = V.pick("base", ORDER.length), { verbosity } = V.mod(VB);
  let r, n;
  if (V.symbolic) { const p = verbosity({ baseLevel: ORDER[base] }); r = p.complete(p.initialState); n = N_STUB.n; }
  else { n = V.pick("count", 12); r = V.mod(PA).parseSync(verbosity({ baseLevel: ORDER[base] }), Array.from({ length: n }, (_, i) => V.flag("long" + i) ? "--verbose" : "-v")); }
  V.assert("succeeds", r.success);
  for (let k = base; k < 5; k++) V.assert("one-step-per-flag", V.implies(n === k - base, V.same(r.value, ORDER[k])));
  V.assert("saturates-at-the-most-detailed-level", V.implies(n >= 5 - base, V.same(r.value, "trace")));
  V.cover("counted");
}
function spelled(V) {
  const base = V.pick("base", ORDER.length), n = V.pick("tokens", 4), argv = []; let count = 0;
  for (let i = 0; i < n; i++) { const t = V.oneOf("t" + i, ["-v", "--verbose", "-vv", "-vvv"]); argv.push(t); count += t === "--verbose" ? 1 : t.length - 1; }
  const r = V.mod(PA).parseSync(V.mod(VB).verbosity({ baseLevel: ORDER[base] }), argv);
  V.assert("one-step-per-flag-saturating", r.success && r.value === ORDER[Math.min(base + count, 5)]);
  V.cover("counted");
}
function debugSwitch(V) {
  const d = V.pick("debugLevel", ORDER.length), nrm = V.pick("normalLevel", ORDER.length), o = V.flag("explicit") ? { debugLevel: ORDER[d], normalLevel: ORDER[nrm] } : {};
  const on = o.debugLevel ?? "debug", off = o.normalLevel ?? "info", p = V.mod(DB).debug(o), { parseSync } = V.mod(PA);
  const none = parseSync(p, []); V.assert("absent-gives-the-normal-level", none.success && none.value === off);
  const t = V.str("token", { pool: POOL }), r = parseSync(p, [t]), is = V.or(V.same(t, "-d"), V.same(t, "--debug"));
  if (r.success) { V.cover("accepted"); V.assert("present-gives-the-debug-level", V.or(V.and(is, r.value === on), V.and(V.same(t, "--"), r.value === off))); } else { V.cover("rejected"); V.assert("the-switch-is-accepted", V.not(is)); }
}
function preset(V) {
  const k = V.pick("level", 3), { loggingOptions } = V.mod(PS), { parseSync } = V.mod(PA), base = V.pick("base", ORDER.length);
  if (k === 0) {
    const s = V.str("text", { pool: POOL }), p = loggingOptions({ level: "option", default: ORDER[base] });
    const r = parseSync(p, [V.oneOf("name", ["--log-level", "-l"]), s]);
    V.assert("accepts-exactly-the-level-names", V.iff(r.success, isLevel(V, lower(V, s)))); if (r.success) V.assert("the-level-named", V.same(r.value.logLevel, lower(V, s)));
    const none = parseSync(p, []); V.assert("default", none.success && none.value.logLevel === ORDER[base]); V.cover("option");
  } else if (k === 1) {
    const p = loggingOptions({ level: "verbosity", baseLevel: ORDER[base] }), n = V.pick("count", 4), r = parseSync(p, Array.from({ length: n }, () => "-v"));
    V.assert("one-step-per-flag-saturating", r.success && r.value.logLevel === ORDER[Math.min(base + n, 5)]); V.cover("verbosity");
  } else {
    const p = loggingOptions({ level: "debug", debugLevel: ORDER[base], normalLevel: "error" }), on = V.flag("on"), r = parseSync(p, on ? ["-d"] : []);
    V.assert("exactly-two-levels", r.success && r.value.logLevel === (on ? ORDER[base] : "error")); V.cover("debug");
  }
}
function output(V) {
  const s = V.str("text", { pool: ["-", "", " ", "\t", "a.log", "--", "-x", " -"] }), p = V.mod(PS).loggingOptions({ level: "debug" });
  const r = V.mod(PA).parseSync(p, ["--log-output", s]);
  V.assert("blank-is-rejected", V.iff(r.success, V.not(V.matches(s, /^\s*$/))));
  if (r.success) { const o = r.value.logOutput; V.assert("destination-exactly-as-given", V.or(V.and(V.same(s, "-"), o.type === "console"), V.and(V.not(V.same(s, "-")), o.type === "file", o.type === "file" ? V.same(o.path, s) : false))); V.cover("accepted"); } else V.cover("rejected");
}
const sugg = { "core/src/suggestion.ts#findSimilar": (V) => V.strs("similar"), "core/src/suggestion.ts#createErrorWithSuggestions": (V, base) => base, "core/src/validate.ts#escapeControlChars": (V) => V.str("escaped"), "core/src/suggestion.ts#appendValueHint": (V, base) => base };
const c = (id, targets, run, covers, o = {}) => ({ id: "logging/" + id, prop: "C21", use: [LV, VB, DB, PS, PA, MO], targets, covers, models: { ...sugg, ...(o.models ?? {}) }, trusted: ["error-text helpers through 'returns some message'", ...(o.trusted ?? [])], run, ...Object.fromEntries(Object.entries(o).filter(([k]) => !["models", "trusted"].includes(k))) });
export const contracts = [
  c("logLevel", [LV + "#logLevel"], level, ["accepted", "rejected"]),
  c("definition", [LV + "#validateLogLevel"], definition, ["accepted", "rejected"]),
  c("verbosity", [VB + "#verbosity"], exact, ["counted"], { models: counted, trusted: ["multiple() through its contract (C08): completes with one value per occurrence"] }),
  c("verbosity/spellings", [VB + "#verbosity"], spelled, ["counted"], { bounded: "up to three tokens, nine flags" }),
  c("debug", [DB + "#debug"], debugSwitch, ["accepted", "rejected"]),
  c("loggingOptions", [PS + "#loggingOptions"], preset, ["option", "verbosity", "debug"], { bounded: "up to three verbosity flags" }),
  c("logOutput", ["logtape/src/output.ts#logOutput"], output, ["accepted", "rejected"]),
];
