// choice(): exactly the configured values.
import { VP, errModels, errTrust } from "./_h.mjs";
const POOL = ["a", "A", "b", "B", "ab", "Ab", "AB", "debug", "Debug", "\u0130", "i\u0307", "\u00df", "SS", "ss", "\u212a", "k", "K", "", " a", "a ", "constructor", "__proto__", "1", "01"];
const noise = { ...errModels, "core/src/valueparser.ts#formatStringChoiceError": () => [{ type: "text", text: "not a choice" }], "core/src/valueparser.ts#formatNumberChoiceError": () => [{ type: "text", text: "not a choice" }] };
const trust = "error texts of choice() used through the contract 'returns some message'";
function strings(V, n, casing) {
  const { choice } = V.mod(VP);
  const cs = []; for (let i = 0; i < n; i++) cs.push(V.str("choice" + i, { pool: POOL }));
  const ci = casing === "any" ? V.opt("caseInsensitive", () => V.flag("ci")) : casing;
  const key = (s) => ci === true ? s.toLowerCase() : s;
  const ambiguous = []; for (let i = 0; i < n; i++) for (let j = 0; j < i; j++) ambiguous.push(V.and(V.not(V.same(cs[i], cs[j])), V.same(key(cs[i]), key(cs[j]))));
  const bad = V.or(...cs.map((c) => V.same(c, "")), ...ambiguous);
  let p; try { p = choice(cs, ci === undefined ? {} : { caseInsensitive: ci }); } catch (e) { if (!(e instanceof TypeError)) throw e; V.cover("configuration-rejected"); V.assert("only-unusable-configurations-rejected", bad); return; }
  V.assert("unusable-configurations-rejected", V.not(bad));
  const s = V.str("text", { pool: POOL });
  const r = p.parse(s);
  const hits = cs.map((c) => V.same(key(c), key(s)));
  V.assert("accepts-exactly-the-choices", V.iff(r.success, V.or(...hits)));
  if (!r.success) { V.cover("rejected"); V.assert("no-value", !("value" in r)); return; }
  V.cover("accepted");
  V.assert("returns-the-configured-choice", V.and(V.same(key(r.value), key(s)), V.or(...cs.map((c) => V.same(c, r.value)))));
  V.assert("every-choice-is-reachable", cs.every((c) => { const q = p.parse(c); return q.success && V.truthy(V.same(q.value, c)); }));
  V.assert("prints-what-it-accepts", V.same(p.format(r.value), r.value));
}
// any number of choices, exact spelling
function manyStrings(V) {
  const { choice } = V.mod(VP);
  const cs = V.strs("choices", { pool: POOL.filter((x) => x !== ""), max: 5 });
  let p; try { p = choice(cs); } catch (e) { if (!(e instanceof TypeError)) throw e; V.skip("configuration rejected"); }
  const s = V.str("text", { pool: POOL });
  const r = p.parse(s);
  if (r.success) { V.cover("accepted"); V.assert("returns-the-text-itself", V.same(r.value, s)); V.assert("only-configured-choices-accepted", cs.includes(s)); }
  else { V.cover("rejected"); V.assert("no-configured-choice-is-rejected", V.not(cs.includes(s))); }
}
// numbers: reference decimal arithmetic on digit strings
const NUMS = [0, -0, 1, 8, 10, -1, 0.1, 0.5, 1.5, -2.25, 1e21, 1e-7, 123456789, 9007199254740993, 2 ** 53, 5e-324, 1.7976931348623157e308, 100, 1e300, 0.30000000000000004];
const exact = (t) => { // value of a decimal spelling as [sign, digits, exponent], exactly; undefined when it is none
  const m = /^([+-]?)(\d*)(?:\.(\d*))?(?:[eE]([+-]?\d+))?$/.exec(t); if (!m || (m[2] === "" && (m[3] ?? "") === "")) return undefined;
  let d = m[2] + (m[3] ?? ""), e = Number(m[4] ?? 0) - (m[3] ?? "").length; d = d.replace(/^0+/, ""); while (d.endsWith("0")) { d = d.slice(0, -1); e++; }
  return d === "" ? "0" : (m[1] === "-" ? "-" : "") + d + "e" + e;
};
function numbers(V) {
  const { choice } = V.mod(VP);
  const n = 1 + V.pick("count", 4), cs = []; for (let i = 0; i < n; i++) cs.push(NUMS[V.pick("choice" + i, NUMS.length)]);
  const p = choice(cs);
  const base = cs[V.pick("base", n)], spell = V.pick("spelling", 12);
  const canon = Object.is(base, -0) ? "-0" : String(base);
  const plain = (x) => { const m = /^(-?)(\d)(?:\.(\d+))?e([+-]\d+)$/.exec(String(x)); if (!m) return String(x); const e = Number(m[4]), d = m[2] + (m[3] ?? ""); return m[1] + (e >= 0 ? d.padEnd(e + 1, "0") : "0." + "0".repeat(-e - 1) + d); };
  const s = [canon, plain(base), "+" + canon, canon + ".0", "0" + canon, canon + "0", canon + "e0", canon.replace("+", ""), V.str("text", { pool: [...NUMS.map(String), "", " 1", "0x1", "1e0", "10e-1", "NaN", "Infinity", "1_0", "1n", ".5", "5.", "-.5", ".", "00.10", "-0.0", "+0", "0.1000000000000000055511151231257827", "0.10000000000000001", "9007199254740992", "9007199254740993", "1000000000000000000000", "1E21", "1e+21", "0.0000001"] }), canon.replace("e+", "E"), plain(base) + "1", canon.replace(/^(-?)0\./, "$1.")][spell];
  const r = p.parse(s);
  if (!r.success) V.assert("no-value", !("value" in r));
  else V.assert("returns-a-configured-choice", cs.some((c) => Object.is(c, r.value)));
  const isPlain = /^[+-]?(\d+\.?\d*|\.\d+)$/.test(s);
  const v = exact(s);
  const den = (c) => exact(plain(c));
  const same = cs.some((c) => v !== undefined && den(c) === v);
  if (r.success) { V.cover("accepted"); V.assert("value-denoted-by-the-text", v !== undefined && den(r.value) === v); V.assert("plain-decimal-or-the-number's-own-spelling", isPlain || /e/.test(String(r.value))); }
  else V.cover("rejected");
  if (cs.some((c) => s === (Object.is(c, -0) ? "-0" : String(c)))) V.assert("own-spelling-accepted", r.success);
  // zero keeps its sign when the list tells the two apart
  if (isPlain && same && v !== "0") V.assert("plain-spelling-accepted", r.success);
  if (isPlain && v === "0" && cs.some((c) => Object.is(c, 0)) && !cs.some((c) => Object.is(c, -0))) V.assert("zero-accepted", r.success);
  for (const c of cs) { const q = p.parse(p.format(c)); V.assert("prints-what-it-parses", q.success && Object.is(q.value, c)); }
}
// numeric choices on any text at all: whatever is accepted is a configured number
function numbersAnyText(V) {
  const { choice } = V.mod(VP);
  const cs = V.oneOf("choices", [[8, 10], [1, 2, 3], [0], [-1, 0.5]]);
  const p = choice(cs);
  const s = V.str("text", { pool: ["8", "10", "8.0", "010", "1e1", "0x8", "", " 8", "+8", ".5", "-1", "-0"] });
  const own = V.or(...cs.map((c) => V.same(s, String(c))));
  V.assume(V.or(own, V.not(V.matches(s, /^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$/))));
  const r = p.parse(s);
  V.assert("accepts-exactly-the-configured-spellings", V.iff(r.success, own));
  if (r.success) { V.cover("accepted"); V.assert("returns-that-number", V.and(cs.includes(r.value), V.same(String(r.value), s))); } else V.cover("rejected");
}
const T = ["core/src/valueparser.ts#choice"];
const c = (id, run, covers, o = {}) => ({ id, prop: "C06", use: [VP], targets: T, models: noise, trusted: [errTrust, trust], covers, run, native: { runs: 1500 }, ...o });
export const contracts = [
  c("choice/1", (V) => strings(V, 1, "any"), ["accepted", "rejected", "configuration-rejected"]),
  c("choice/2", (V) => strings(V, 2, "any"), ["accepted", "rejected", "configuration-rejected"]),
  c("choice/3", (V) => strings(V, 3, "any"), ["accepted", "rejected", "configuration-rejected"], { bounded: "three choices (any text)" }),
  c("choice/any-number", manyStrings, ["accepted", "rejected"]),
  c("choice/numbers", numbers, [], { symbolic: false, bounded: "lists of up to four numbers, generated spellings", native: { runs: 6000 } }),
  c("choice/numbers-other-text", numbersAnyText, ["accepted", "rejected"], { bounded: "four configured lists (any text that is no decimal spelling)" }),
];
