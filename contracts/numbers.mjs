// Numeric value parsers: exact spelling, exact value, inclusive bounds, nothing thrown.
import { VP } from "./_h.mjs";
const INTS = ["0", "-0", "1", "-1", "007", "42", "65535", "65536", "1023", "1024", "+1", " 1", "1 ", "", "-", "--1", "1.0", "1e3", "0x10", "9007199254740991", "9007199254740992", "-9007199254740991", "-9007199254740992", "9007199254740993", "123456789012345678901234567890", "\u0661", "1_000", "1n", "\n1", "1\n", "Infinity", "NaN"];
const safe = 2 ** 53 - 1;
const run = (V, p, s) => { try { return p.parse(s); } catch (e) { if (V.isSymbolic(e)) throw e; return undefined; } };
// A bound as an application may give it: absent or any number.
const bound = (V, name, mk) => V.pick(name + "?", 2) === 0 ? undefined : mk(name);
const digitsOf = (V, s) => V.matches(s, /^-?[0-9]+$/);
const valueOf = (V, s) => BigInt(s); // the mathematical value of a decimal integer spelling
function settle(V, r, name, fits, value, same) {
  V.assert(name + "-does-not-throw", r !== undefined);
  V.assert(name + "-accepts-exactly-the-values-in-range", V.iff(r.success, fits));
  if (r.success) { V.cover("accepted"); V.assert(name + "-value-is-exact", same(r.value, value())); }
  else { V.cover("rejected"); V.assert(name + "-says-why", Array.isArray(r.error) && r.error.length > 0); V.assert(name + "-no-value", !("value" in r)); }
}
function make(V, f) { try { return f(); } catch (e) { if (e instanceof RangeError || e instanceof TypeError) V.skip("configuration rejected"); throw e; } }
function integerNumber(V, realBounds) {
  const { integer } = V.mod(VP);
  const b = (n) => realBounds ? V.num(n) : V.int(n, { pool: [0, 1, -1, 10, safe] });
  const min = bound(V, "min", b), max = bound(V, "max", b);
  const p = make(V, () => integer({ ...(min === undefined ? {} : { min }), ...(max === undefined ? {} : { max }) }));
  const s = V.str("text", { pool: INTS });
  const r = run(V, p, s);
  if (!V.truthy(digitsOf(V, s))) { settle(V, r, "integer", false); V.cover("not-an-integer"); return; }
  const n = valueOf(V, s);
  const fits = V.and(n >= -9007199254740991n, n <= 9007199254740991n, min === undefined ? true : n >= min, max === undefined ? true : n <= max);
  settle(V, r, "integer", fits, () => n, (a, b2) => BigInt(a) === b2);
  if (r.success) V.assert("integer-is-a-number", V.kind(r.value) === "number");
}
function integerBigint(V) {
  const { integer } = V.mod(VP);
  const min = bound(V, "min", (n) => V.big(n)), max = bound(V, "max", (n) => V.big(n));
  const p = make(V, () => integer({ type: "bigint", ...(min === undefined ? {} : { min }), ...(max === undefined ? {} : { max }) }));
  const s = V.str("text", { pool: INTS });
  const r = run(V, p, s);
  if (!V.truthy(digitsOf(V, s))) { settle(V, r, "bigint", false); V.cover("not-an-integer"); return; }
  const n = valueOf(V, s);
  settle(V, r, "bigint", V.and(min === undefined ? true : n >= min, max === undefined ? true : n <= max), () => n, (a, b) => a === b);
}
function portNumber(V, big) {
  const { port } = V.mod(VP);
  const min = bound(V, "min", (n) => big ? V.big(n) : V.int(n, { min: -10, max: 100000, pool: [1, 0, 1024, 1000, 8080] })), max = bound(V, "max", (n) => big ? V.big(n) : V.int(n, { min: -10, max: 100000, pool: [65535, 1023, 1024, 70000] }));
  const wk = V.opt("disallowWellKnown", () => V.flag("well-known"));
  const p = make(V, () => port({ ...(big ? { type: "bigint" } : {}), ...(min === undefined ? {} : { min }), ...(max === undefined ? {} : { max }), ...(wk === undefined ? {} : { disallowWellKnown: wk }) }));
  const s = V.str("text", { pool: INTS });
  const r = run(V, p, s);
  if (!V.truthy(digitsOf(V, s))) { settle(V, r, "port", false); V.cover("not-an-integer"); return; }
  const n = valueOf(V, s);
  const fits = V.and(n >= (min ?? 1n), n <= (max ?? 65535n), wk ? V.not(V.and(n >= 1n, n <= 1023n)) : true);
  settle(V, r, "port", fits, () => n, (a, b) => BigInt(a) === b);
  if (r.success) V.assert("port-type", V.kind(r.value) === (big ? "bigint" : "number"));
}
// port() as portRange may use it: some deterministic acceptance of texts, some number for each.
const RANGES = ["1-2", "2-1", "80-80", "80", "-1-2", "1--2", "1-2-3", " 1-2 ", "1 - 2", "0-1", "65535-65536", "-", "", "1-", "-2", "1:2", "1..2", "1023-1024", "1000-2000"];
// While portRange is under proof, port() stands for its contract: some fixed function of its options and the text.
const portModel = { "core/src/valueparser.ts#port": (V, o) => ({ mode: "sync", metavar: "PORT", placeholder: 1,
  parse(s) { const key = [o?.type === "bigint" ? "b" : "n", o?.min, o?.max, o?.disallowWellKnown ? "w" : "", s]; if (!V.truthy(V.uf("port.accepts", "bool", ...key))) return { success: false, error: [{ type: "text", text: "no port" }] }; return { success: true, value: V.uf("port.value", o?.type === "bigint" ? "big" : "num", s) }; },
  format: (v) => String(v) }) };
function portRange(V, big, mkSep) {
  const { portRange, port } = V.mod(VP);
  const sep = mkSep?.(V);
  const single = V.opt("allowSingle", () => V.flag("single"));
  const type = big ? { type: "bigint" } : sep === undefined && V.flag("typed") ? { type: "number" } : {};
  const lim = sep === undefined ? bound : () => undefined; // the limits are passed on whatever the separator
  const min = lim(V, "min", (n) => big ? V.big(n) : V.int(n, { min: 1, max: 65535, pool: [1, 1000] })), max = lim(V, "max", (n) => big ? V.big(n) : V.int(n, { min: 1, max: 65535, pool: [65535, 1000] }));
  const limits = { ...(min === undefined ? {} : { min }), ...(max === undefined ? {} : { max }), ...(sep === undefined && V.flag("well-known") ? { disallowWellKnown: true } : {}) };
  const p = make(V, () => portRange({ ...type, ...limits, ...(sep === undefined ? {} : { separator: sep }), ...(single === undefined ? {} : { allowSingle: single }) }));
  const one = port({ type: big ? "bigint" : "number", ...limits });
  const s = V.str("text", { pool: RANGES });
  const r = run(V, p, s);
  const t = s.trim(), d = sep ?? "-";
  const at = t.indexOf(d);
  if (!V.truthy(at >= 0)) {
    V.cover("single");
    const w = single === true ? one.parse(t) : { success: false };
    settle(V, r, "port-range", w.success, () => w.value, (a, b) => V.and(a.start === b, a.end === b));
    return;
  }
  const from = one.parse(t.slice(0, at)), to = one.parse(t.slice(at + d.length));
  const fits = from.success && to.success && V.truthy(from.value <= to.value);
  settle(V, r, "port-range", fits, () => undefined, (a) => V.and(a.start === from.value, a.end === to.value));
}
const FLOATS = [...INTS, "1.5", ".5", "5.", ".", "1e3", "1E-3", "1e", "e1", "1e+400", "-1e400", "nan", "NAN", "infinity", "+Infinity", "-INFINITY", "inf", "0x1p3", "1,5", "\u0130nfinity", "1.5 ", "-0.0", "+.5e1", "1e400", "0b1", "1.2.3"];
function floatNumber(V) {
  const { float } = V.mod(VP);
  const min = bound(V, "min", (n) => V.num(n)), max = bound(V, "max", (n) => V.num(n));
  const nan = V.opt("allowNaN", () => V.flag("nan")), inf = V.opt("allowInfinity", () => V.flag("infinity"));
  const p = make(V, () => float({ ...(min === undefined ? {} : { min }), ...(max === undefined ? {} : { max }), ...(nan === undefined ? {} : { allowNaN: nan }), ...(inf === undefined ? {} : { allowInfinity: inf }) }));
  const s = V.str("text", { pool: FLOATS });
  const r = run(V, p, s);
  const word = (re, v) => V.truthy(V.matches(s, re)) ? v : undefined;
  let v = word(/^[nN][aA][nN]$/, NaN) ?? word(/^\+?[iI][nN][fF][iI][nN][iI][tT][yY]$/, Infinity) ?? word(/^-[iI][nN][fF][iI][nN][iI][tT][yY]$/, -Infinity);
  if (v !== undefined) {
    V.cover("word");
    const allowed = Number.isNaN(v) ? nan === true : inf === true;
    const fits = allowed && (Number.isNaN(v) || ((v > 0 || min === undefined) && (v < 0 || max === undefined)));
    settle(V, r, "float", fits, () => v, (a, b) => Object.is(a, b));
    return;
  }
  if (!V.truthy(V.matches(s, /^[-+]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[eE][-+]?[0-9]+)?$/))) { V.assert("float-rejects-other-spellings", r !== undefined && !r.success); V.cover("not-a-number"); return; }
  v = Number(s);
  const infinite = v === Infinity || v === -Infinity;
  const fits = V.and(!infinite || inf === true, min === undefined ? true : v >= min, max === undefined ? true : v <= max);
  settle(V, r, "float", fits, () => v, (a, b) => a === b);
}
const X = "core/src/valueparser.ts#";
const c = (id, fn, run, covers = ["accepted", "rejected", "not-an-integer"], o = {}) => ({ id, prop: "C05", use: [VP], targets: [X + fn], covers, run, native: { runs: 1500 }, ...o });
const M = { models: portModel, trusted: ["port() used through a contract (a fixed function of its options and the text) while portRange is under proof; proved on its own"] };
export const contracts = [
  c("integer/number", "integer", (V) => integerNumber(V, false)),
  c("integer/number-fractional-bounds", "integer", (V) => integerNumber(V, true)),
  c("integer/bigint", "integer", integerBigint),
  c("port/number", "port", (V) => portNumber(V, false)),
  c("port/bigint", "port", (V) => portNumber(V, true)),
  c("portRange/number", "portRange", (V) => portRange(V, false), ["accepted", "rejected", "single"], M),
  c("portRange/bigint", "portRange", (V) => portRange(V, true), ["accepted", "rejected", "single"], M),
  c("portRange/any-separator", "portRange", (V) => portRange(V, false, (V) => V.str("separator", { pool: ["-", ":", "..", " to ", "--"], nonEmpty: true })), ["accepted", "rejected", "single"], M),
  c("float", "float", floatNumber, ["accepted", "rejected", "word", "not-a-number"], { cfg: { quickMs: 80 }, weight: 9 }),
];
