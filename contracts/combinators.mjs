// Combinators of value parsers: firstOf, keyValue, transform, biject (C22, C11).
import { VP, errModels, errTrust } from "./_h.mjs";
const no = (t) => [{ type: "text", text: t }];
const POOL = ["", "=", "==", "a=b", "a=", "=b", "a=b=c", "a", "a==b", "x:y", "::", "a:::b", "a::b::c", "k=1", "K=v", "k=01", "k=-0", "auto", "1", "01", "constructor=1", "__proto__=x", "a=>b", "=>"];
const once = (V, name, value, o = {}) => {
  const known = [];
  return { mode: o.async ? "async" : "sync", metavar: name.toUpperCase(), placeholder: { placeholder: name }, asked: known,
    parse(t) { const r = V.flag(name + ".accepts") ? { success: true, value: value(t) } : { success: false, error: no(name) }; known.push({ t, r }); return o.async ? Promise.resolve(r) : r; },
    format: (v) => o.format ? o.format(v) : "formatted" };
};
// firstOf: the answer of the first alternative that accepts the very text; no later one is consulted.
function firstOfParse(V) {
  const { firstOf } = V.mod(VP);
  const n = 2 + V.pick("alternatives", 3), ps = []; for (let i = 0; i < n; i++) ps.push(once(V, "p" + i, () => ({ from: i })));
  const custom = V.oneOf("noMatch", ["none", "message", "function"]), M = no("custom"), seen = [];
  const opts = custom === "none" ? undefined : { errors: { noMatch: custom === "message" ? M : (t, errs) => { seen.push([t, errs]); return M; } } };
  const form = V.oneOf("written", ["arguments", "array", "nested"]);
  const p = form === "arguments" ? opts ? firstOf(...ps, opts) : firstOf(...ps) : form === "array" ? firstOf(ps, opts) : firstOf(ps[0], ps.length > 2 ? firstOf(ps.slice(1)) : ps[1], opts);
  const t = V.str("text", { pool: POOL }), r = p.parse(t);
  const hit = ps.findIndex((q) => q.asked.some((a) => a.r.success));
  V.assert("each-asked-with-the-text", ps.every((q) => q.asked.every((a) => V.truthy(V.same(a.t, t)))));
  V.assert("asked-in-order-until-one-accepts", ps.every((q, i) => q.asked.length === (hit < 0 || i <= hit ? 1 : 0)));
  V.assert("accepts-iff-one-accepts", r.success === (hit >= 0));
  if (!r.success) { V.cover("none"); V.assert("an-error", Array.isArray(r.error) && r.error.length > 0 && !("value" in r)); if (custom !== "none" && form !== "nested") V.assert("configured-error", r.error === M && (custom !== "function" || seen.length === 1 && V.truthy(V.same(seen[0][0], t)) && seen[0][1].length === n && seen[0][1].every((e, i) => e === ps[i].asked[0].r.error))); return; }
  V.cover(hit === 0 ? "first" : "later");
  V.assert("the-result-of-the-first-that-accepts", r.value === ps[hit].asked[0].r.value);
}
// Printing: the text of a value some alternative produced is read back as that value (alternatives with disjoint values).
function firstOfPrints(V) {
  const { firstOf } = V.mod(VP);
  const owns = V.flag("later alternatives throw on foreign values"), hooks = V.flag("have validate");
  const vals = [["a0", { v: 0 }], ["a1", "text"], ["a2", 7]];
  const ps = vals.map(([t, v], i) => ({ mode: "sync", metavar: "P" + i, placeholder: v, parse: (s) => s === t ? { success: true, value: v } : { success: false, error: no("no") },
    format: (x) => { if (x !== v) { if (owns) throw new TypeError("foreign"); return V.flag("a clash") ? undefined : "foreign"; } return t; },
    ...(hooks ? { validate: (x) => { if (x !== v && owns) throw new TypeError("foreign"); return x === v ? { success: true, value: v } : { success: false, error: no("no") }; } } : {}) }));
  const perm = V.oneOf("order", [[0, 1, 2], [2, 1, 0], [1, 2, 0], [1, 0, 2]]), p = firstOf(perm.map((i) => ps[i])), i = V.pick("value of", 3), [t, v] = vals[i];
  const r = p.parse(t); V.assert("parsed", r.success && r.value === v);
  V.cover("printed"); V.assert("prints-back", p.format(v) === t);
  const w = p.validate(v); V.assert("accepts-its-own-value", w.success && w.value === v);
  V.assert("refuses-a-foreign-value", !p.validate({ foreign: true }).success);
}
// keyValue with its default children: every text.
const noSep = { "=": "[^=]*", ":": "[^:]*", "\t": "[^\\t]*" };
function textPairs(V) {
  const { keyValue } = V.mod(VP);
  const sep = V.oneOf("separator", ["=", ":", "\t"]), last = V.flag("split last"), ek = V.flag("allowEmptyKey"), ev = V.oneOf("allowEmptyValue", [undefined, true, false]);
  const p = keyValue({ ...(sep === "=" && !last ? {} : { separator: sep }), ...(last ? { split: "last" } : {}), ...(ek ? { allowEmptyKey: true } : {}), ...(ev === undefined ? {} : { allowEmptyValue: ev }) });
  if (V.flag("no separator")) {
    const t = V.str("text", { re: new RegExp(`^${noSep[sep]}$`), pool: POOL.filter((x) => !x.includes(sep)) });
    V.cover("no separator"); V.assert("needs-the-separator", !p.parse(t).success); return;
  }
  const plain = (n) => V.str(n, { re: new RegExp(`^${noSep[sep]}$`), pool: ["", "a", "k", " ", "constructor", "-x", "a b"] }), any = (n) => V.str(n, { pool: [...POOL, "k", "a b"] });
  const k = last ? any("key") : plain("key"), v = last ? plain("value") : any("value");
  const r = p.parse(k + sep + v), bad = V.or(V.and(!ek, V.same(k, "")), V.and(ev === false, V.same(v, "")));
  V.assert("accepted-unless-an-empty-part-is-forbidden", V.iff(r.success, V.not(bad)));
  if (!r.success) { V.cover("rejected"); V.assert("no-value", !("value" in r)); return; }
  V.cover("accepted");
  V.assert("split-at-the-separator", r.value.length === 2 && V.and(V.same(r.value[0], k), V.same(r.value[1], v)));
  V.assert("prints-back", V.same(p.format(r.value), k + sep + v));
  const w = p.validate(r.value); V.assert("accepts-its-own-value", w.success && V.and(V.same(w.value[0], k), V.same(w.value[1], v)));
}
// separators of several characters, over short texts: complete enumeration
const SEPS = ["=>", "::", "==", "aa", "aba", "--"];
function longSeparators(V) {
  const { keyValue } = V.mod(VP), sep = V.oneOf("separator", SEPS), last = V.flag("split last"), ek = V.flag("allowEmptyKey");
  const p = keyValue({ separator: sep, split: last ? "last" : "first", allowEmptyKey: ek }), n = 1 + V.pick("length", 6), abc = [...new Set([...sep, "x"])];
  let t = ""; for (let i = 0; i < n; i++) t += V.oneOf("c" + i, abc);
  const at = last ? t.lastIndexOf(sep) : t.indexOf(sep), k = t.slice(0, at), v = t.slice(at + sep.length), r = p.parse(t);
  if (at < 0 || !ek && k === "") { V.cover("rejected"); V.assert("rejected", !r.success); return; }
  V.cover("accepted");
  V.assert("split-at-the-separator", r.success && r.value.length === 2 && r.value[0] === k && r.value[1] === v);
  V.assert("prints-back", p.format(r.value) === t);
  const w = p.validate(r.value); V.assert("accepts-its-own-value", w.success && w.value[0] === k && w.value[1] === v);
}
// keyValue over arbitrary children: each part goes to its own child, exactly; the pair of their values or a failure.
function pairsOf(V) {
  const { keyValue } = V.mod(VP), sep = "=", K = { k: 1 }, W = { v: 1 };
  const kp = once(V, "key", () => K, { format: () => "fk" }), vp = once(V, "value", () => W, { format: () => "fv=x" });
  const errors = V.flag("custom errors") ? { invalidKey: () => no("K"), invalidValue: () => no("V") } : undefined;
  const p = keyValue({ key: kp, value: vp, allowEmptyKey: true, ...(errors ? { errors } : {}) });
  const k = V.str("key text", { re: /^[^=]*$/, pool: ["", "a", "constructor"] }), v = V.str("value text", { pool: POOL }), r = p.parse(k + sep + v);
  V.assert("key-part", kp.asked.length === 1 && V.same(kp.asked[0].t, k));
  const kok = kp.asked[0].r.success;
  V.assert("value-part", kok ? vp.asked.length === 1 && V.same(vp.asked[0].t, v) : vp.asked.length <= 1);
  const ok = kok && vp.asked[0].r.success;
  V.assert("accepts-iff-both-accept", r.success === ok);
  if (!ok) { V.cover(kok ? "bad value" : "bad key"); V.assert("no-value", !("value" in r)); return; }
  V.cover("pair"); V.assert("the-pair-of-their-values", r.value.length === 2 && r.value[0] === K && r.value[1] === W);
  V.assert("prints-both", p.format(r.value) === "fk=fv=x");
}
// transform: map once per accepted value; rejections untouched; printing and checking go through unmap.
const T0 = "inner";
const transformed = (async) => async (V) => {
  const { transform } = V.mod(VP);
  const inner = { value: 1 }, inner2 = { value: 2 }, outer = { outer: 1 }, log = [];
  const boom = V.flag("map throws"), hook = V.oneOf("inner has", ["validate", "round trip"]);
  const q = once(V, "inner", () => inner, { async, format: (x) => { log.push(["format", x]); return T0; } });
  if (hook === "validate") q.validate = (x) => { log.push(["validate", x]); return V.flag("valid") ? { success: true, value: inner2 } : { success: false, error: no("invalid") }; };
  const p = transform(q, { map: (x) => { log.push(["map", x]); if (boom) throw new Error("boom"); return outer; }, unmap: (y) => { log.push(["unmap", y]); return inner; } });
  V.assert("mode", p.mode === (async ? "async" : "sync"));
  const t = V.str("text", { pool: POOL }); log.length = 0;
  const what = V.oneOf("what", async ? ["parse", "format"] : ["parse", "format", "validate"]);
  if (what === "format") { V.cover("format"); V.assert("prints-through-unmap", p.format(outer) === T0 && JSON.stringify(log) === JSON.stringify([["unmap", outer], ["format", inner]])); return; }
  if (what === "validate") {
    const r = p.validate(outer);
    const checked = hook === "validate" ? log.find((l) => l[0] === "validate") : q.asked[0];
    V.assert("checked-after-unmap", log[0][0] === "unmap" && log[0][1] === outer && (hook === "validate" ? checked[1] === inner : checked !== undefined && checked.t === T0));
    const ok = hook === "validate" ? log.some((l) => l[0] === "map") : q.asked[0].r.success;
    V.cover(ok ? "valid" : "invalid");
    V.assert("valid-iff-the-inner-one-is", r.success === (ok && !boom)); if (r.success) V.assert("mapped-again", r.value === outer && log.filter((l) => l[0] === "map").length === 1 && log.find((l) => l[0] === "map")[1] === (hook === "validate" ? inner2 : inner));
    return;
  }
  let r, threw; try { r = await p.parse(t); } catch (e) { threw = e; }
  V.assert("asked-with-the-text", q.asked.length === 1 && V.same(q.asked[0].t, t));
  V.assert("no-exception", threw === undefined);
  const a = q.asked[0].r, maps = log.filter((l) => l[0] === "map");
  if (!a.success) { V.cover("rejected"); V.assert("rejection-untouched", !r.success && r.error === a.error && maps.length === 0); return; }
  V.assert("mapped-once", maps.length === 1 && maps[0][1] === inner);
  V.cover(boom ? "throws" : "mapped"); V.assert("the-mapped-value", boom ? !r.success : r.success && r.value === outer);
};
// biject: any keys, any text
function bijection(V) {
  const { biject } = V.mod(VP);
  const n = 1 + V.pick("entries", 3), keys = ["k0", "k1", "k2"].slice(0, n).map((k, i) => V.isSymbolic ? V.oneOf("key" + i, [["alpha", "Alpha", "a b"], ["beta", "constructor", "0"], ["gamma", "toString", "__proto__x"]][i]) : k), vals = [{ v: 0 }, "alpha", NaN].slice(0, n);
  const p = biject(Object.fromEntries(keys.map((k, i) => [k, vals[i]])));
  const t = V.str("text", { pool: [...keys, "Alpha", "", "toString", "valueOf", "__proto__"] }), r = p.parse(t), hits = keys.map((k) => V.same(k, t));
  V.assert("accepts-exactly-the-keys", V.iff(r.success, V.or(...hits)));
  if (!r.success) { V.cover("rejected"); return; }
  V.cover("accepted");
  const i = keys.findIndex((k) => V.truthy(V.same(k, t)));
  V.assert("the-mapped-value", Object.is(r.value, vals[i]));
  V.assert("prints-back", p.format(r.value) === keys[i]);
  const w = p.validate(r.value); V.assert("accepts-its-own-value", w.success && Object.is(w.value, vals[i]));
  V.assert("refuses-a-foreign-value", !p.validate({ foreign: true }).success && !p.validate("beta?").success);
}
// The printing law on real constituents: what is accepted is printed to a text that is read as an equal value.
const CHILD = (m) => ({
  integer: m.integer({}), big: m.integer({ type: "bigint" }), float: m.float({}), text: m.string(), word: m.string({ pattern: /^[a-z]+$/ }), mode: m.choice(["auto", "Never"], { caseInsensitive: true }), port: m.port({}), uuid: m.uuid({}), bool: m.biject({ yes: true, no: false }),
  pair: m.keyValue({ separator: ":" }), cents: m.transform(m.integer({}), { map: (x) => x * 100, unmap: (x) => { if (typeof x !== "number") throw new TypeError("foreign"); return x / 100; } }), size: m.fileSize({}),
});
const TEXTS = ["auto", "NEVER", "never", "yes", "no", "1", "01", "-1", "-0", "0", "1.5", "1e3", "007", "a", "abc", "A", "", "x:y", "x:", ":y", "a:b:c", "80", "1k", "1KB", "1.5MiB", "10MB", "1024", "123e4567-e89b-12d3-a456-426614174000", "99999999999999999999", " 1", "=", "constructor"];
const equal = (a, b) => Array.isArray(a) ? Array.isArray(b) && a.length === b.length && a.every((x, i) => equal(x, b[i])) : Object.is(a, b) || a === b;
function prints(V) {
  const m = V.mod(VP), C = CHILD(m), names = Object.keys(C), kind = V.oneOf("kind", ["firstOf", "keyValue", "keyValue last", "keyValue in firstOf"]);
  const a = V.oneOf("a", names), b = V.oneOf("b", names);
  const p = kind === "firstOf" ? m.firstOf(C[a], C[b]) : kind === "keyValue in firstOf" ? m.firstOf(m.keyValue({ key: C[a], value: C[b] }), m.choice(["none"])) : m.keyValue({ key: C[a], value: C[b], ...(kind === "keyValue last" ? { split: "last" } : {}) });
  for (const x of TEXTS) for (const y of kind === "firstOf" ? [""] : TEXTS) {
    const t = kind === "firstOf" ? x : x + "=" + y, r = p.parse(t);
    if (kind === "firstOf") { const ra = C[a].parse(x), rb = C[b].parse(x), want = ra.success ? ra : rb; if (r.success !== want.success || r.success && !equal(r.value, want.value)) { V.note?.(t); V.fail("the-result-of-the-first-that-accepts"); } if (r.success && !ra.success && C[a].parse(C[b].format(r.value)).success) continue; }
    else { const ki = kind === "keyValue last" ? t.lastIndexOf("=") : t.indexOf("="), ra = C[a].parse(t.slice(0, ki)), rb = C[b].parse(t.slice(ki + 1)); if (r.success && !(ra.success && rb.success && equal(r.value, [ra.value, rb.value]))) { V.note?.(t); V.fail("the-pair-of-their-values"); } if (!r.success && ki > 0 && ra.success && rb.success && !(C[a].format(ra.value).includes("=") || C[b].format(rb.value).includes("="))) { V.note?.(t); V.fail("accepts-what-both-accept"); } }
    if (!r.success) { V.cover("rejected"); continue; }
    V.cover("accepted");
    const f = p.format(r.value), again = p.parse(f);
    if (!(again.success && equal(again.value, r.value))) { V.note?.(t); V.fail("prints-back"); }
    const w = p.validate(r.value); if (!(w.success && equal(w.value, r.value))) { V.note?.(t); V.fail("accepts-its-own-value"); }
  }
}
const c = (id, targets, run, covers, o = {}) => ({ id: "combinators/" + id, prop: "C22", use: [VP], targets: ["packages/core/src/valueparser.ts " + targets], models: errModels, trusted: [errTrust], covers, run, ...o });
export const contracts = [
  c("firstOf", "firstOf", firstOfParse, ["none", "first", "later"]),
  c("firstOf/prints", "firstOf (format, validate)", firstOfPrints, ["printed"], { prop: ["C22", "C11"] }),
  c("keyValue/text", "keyValue", textPairs, ["no separator", "rejected", "accepted"], { prop: ["C22", "C11"], weight: 3 }),
  c("keyValue/long-separators", "keyValue", longSeparators, ["rejected", "accepted"], { bounded: "texts of up to six characters over the separator's characters and one other" }),
  c("keyValue/children", "keyValue", pairsOf, ["bad key", "bad value", "pair"]),
  c("transform", "transform, transformValueParserResult", transformed(false), ["format", "valid", "invalid", "rejected", "throws", "mapped"], { prop: ["C22", "C11"] }),
  c("transform/async", "transform, transformValueParserResult", transformed(true), ["format", "rejected", "throws", "mapped"], { prop: ["C22", "C11"] }),
  c("biject", "biject", bijection, ["rejected", "accepted"]),
  c("real", "firstOf, keyValue, transform, biject over integer, float, string, choice, port, uuid, fileSize", prints, ["rejected", "accepted"], { bounded: "listed constituents and texts", models: undefined, trusted: [] }),
];
