// Definition-time validation of names: options, commands, labels, program names, built-in meta names.
import { VA, PR } from "./_h.mjs";
const CTRL = /[\u0000-\u001f\u007f-\u009f\u2028\u2029]/, WS = /\s/, BLANK = /^\s+$/, PREFIX = /^[-/+]/;
const POOL = ["", "-", "--", "-a", "--a", "/a", "+a", "a", "--a b", "--a\n", "-\u0085", "--\u2028x", "--\u00a0", " ", "\t", "\u3000", "help", "--help", "--help=", "--help=x", "---", "a b", "-\u007f", "\u0000", "x\u009fy", "--\ufeff", "a\u2029"];
const noise = { "core/src/validate.ts#escapeControlChars": (V) => V.str("escaped") };
const escTrust = "escapeControlChars only shapes the error text: used through the contract 'returns some string' (checked on its own below)";
function attempt(V, f) { try { f(); return true; } catch (e) { if (!(e instanceof TypeError)) throw e; return false; } }
const okOption = (V, n) => V.and(V.not(V.same(n, "")), V.not(V.matches(n, CTRL)), V.not(V.matches(n, WS)), V.matches(n, PREFIX), V.not(V.same(n, "--")));
const okCommand = (V, n) => V.and(V.not(V.same(n, "")), V.not(V.matches(n, CTRL)), V.not(V.matches(n, WS)));
const okLabel = (V, n) => V.and(V.not(V.same(n, "")), V.not(V.matches(n, BLANK)), V.not(V.matches(n, CTRL)));
function list(fn, ok) {
  return (V) => {
    const m = V.mod(VA); const n = V.pick("count", 4), names = [];
    for (let i = 0; i < n; i++) names.push(V.str("name" + i, { pool: POOL }));
    const accepted = attempt(V, () => m[fn](names, "Option"));
    if (accepted) V.cover("accepted"); else V.cover("rejected");
    V.assert("accepted-exactly-when-every-name-is-usable", V.iff(accepted, V.and(n > 0, ...names.map((x) => ok(V, x)))));
  };
}
function single(fn, ok) {
  return (V) => {
    const m = V.mod(VA), s = V.str("name", { pool: POOL });
    const accepted = attempt(V, () => m[fn](s));
    if (accepted) V.cover("accepted"); else V.cover("rejected");
    V.assert("accepted-exactly-when-usable", V.iff(accepted, ok(V, s)));
    for (const bad of [undefined, null, 1, {}, ["x"]]) V.assert("non-strings-rejected", !attempt(V, () => m[fn](bad)));
  };
}
// Every name the list contract accepts is usable, however many names there are.
function anyLength(fn, ok) {
  return (V) => {
    const m = V.mod(VA), names = V.strs("names", { pool: POOL, max: 4 });
    const x = names[V.index("i", 0, names.length)];
    const accepted = attempt(V, () => m[fn](names, "Option"));
    if (accepted) { V.cover("accepted"); V.assert("no-unusable-name-gets-through", ok(V, x)); } else V.cover("rejected");
  };
}
function definition(V) {
  const m = V.mod(PR), s = V.str("name", { pool: POOL });
  const k = V.pick("definition", 6); let called = false;
  const vp = { mode: "sync", metavar: "X", placeholder: "", parse() { called = true; return { success: true, value: 1 }; }, format: () => "" };
  const f = [() => m.option(s), () => m.option(s, vp), () => m.flag(s), () => m.negatableFlag({ positive: s, negative: "--no-such" }), () => m.negatableFlag({ positive: "--yes", negative: [s, "--zz"] }), () => m.command(s, m.constant(1))][k];
  const other = k === 3 ? "--no-such" : k === 4 ? "--yes" : undefined;
  const fine = k === 5 ? okCommand(V, s) : okOption(V, s);
  const dup = k === 3 ? V.same(s, "--no-such") : k === 4 ? V.or(V.same(s, "--yes"), V.same(s, "--zz")) : false;
  const accepted = attempt(V, f);
  V.assert("definition-accepted-exactly-for-usable-names", V.iff(accepted, V.and(fine, V.not(dup))));
  V.assert("nothing-parsed-while-defining", !called);
  V.cover(accepted ? "accepted" : "rejected"); void other;
}
// Built-in names: any two equal names, or a name hidden behind the prefix form of another, are rejected; everything else is accepted.
function meta(V) {
  const m = V.mod(VA);
  const shape = V.oneOf("shape", [[1, 1], [2, 1], [1, 2], [1, 1, 1], [2], [2, 2]]);
  const entries = shape.map((n, i) => { const names = []; for (let j = 0; j < n; j++) names.push(V.str(`n${i}${j}`, { pool: POOL })); return [["option", "command"][V.pick("kind", 2)], "entry " + i, names, V.pick("prefix", 3) === 0 ? undefined : V.flag("prefixed")]; });
  const flat = entries.flatMap(([, , ns, pm]) => ns.map((n) => ({ n, pm: pm === true })));
  const clash = [];
  flat.forEach((a, i) => flat.forEach((b, j) => { if (i < j) clash.push(V.same(a.n, b.n)); if (i !== j && a.pm) clash.push(b.n.startsWith(a.n + "=")); }));
  const accepted = attempt(V, () => m.validateMetaNameCollisions(entries));
  V.cover(accepted ? "accepted" : "rejected");
  V.assert("accepted-exactly-when-no-names-collide", V.iff(accepted, V.not(V.or(...clash))));
}
function contextIds(V) {
  const m = V.mod(VA), ids = [Symbol("a"), Symbol("a"), Symbol.for("a"), Symbol.for("b")];
  const n = V.pick("count", 5), cs = []; for (let i = 0; i < n; i++) cs.push({ id: ids[V.pick("id" + i, 4)] });
  const accepted = attempt(V, () => m.validateContextIds(cs));
  V.cover(accepted ? "accepted" : "rejected");
  V.assert("accepted-exactly-when-distinct", accepted === (new Set(cs.map((c) => c.id)).size === n));
}
function escaping(V) {
  const m = V.mod(VA), s = V.str("text", { pool: POOL });
  const e = m.escapeControlChars(s);
  V.assert("no-control-character-survives", V.not(V.matches(e, CTRL)));
  V.assert("other-text-unchanged", V.implies(V.not(V.matches(s, CTRL)), V.same(e, s)));
  V.cover("escaped");
}
const T = (...n) => n.map((x) => "core/src/validate.ts#" + x);
const c = (id, targets, run, covers, o = {}) => ({ id, prop: "C19", use: [VA, PR], targets, covers, models: noise, trusted: [escTrust], run, ...o });
export const contracts = [
  c("validateOptionNames", T("validateOptionNames"), list("validateOptionNames", okOption), ["accepted", "rejected"], { bounded: "lists of up to three names (any text)" }),
  c("validateOptionNames/any-length", T("validateOptionNames"), anyLength("validateOptionNames", okOption), ["accepted", "rejected"]),
  c("validateCommandNames", T("validateCommandNames"), list("validateCommandNames", okCommand), ["accepted", "rejected"], { bounded: "lists of up to three names (any text)" }),
  c("validateCommandNames/any-length", T("validateCommandNames"), anyLength("validateCommandNames", okCommand), ["accepted", "rejected"]),
  c("validateProgramName", T("validateProgramName"), single("validateProgramName", okLabel), ["accepted", "rejected"]),
  c("validateLabel", T("validateLabel"), single("validateLabel", okLabel), ["accepted", "rejected"]),
  c("definition", ["core/src/primitives.ts#option", "core/src/primitives.ts#flag", "core/src/primitives.ts#negatableFlag", "core/src/primitives.ts#command"], definition, ["accepted", "rejected"]),
  c("validateMetaNameCollisions", T("validateMetaNameCollisions"), meta, ["accepted", "rejected"], { bounded: "up to three entries and four names in all (any text)", native: { runs: 2000 } }),
  c("validateContextIds", T("validateContextIds"), contextIds, ["accepted", "rejected"], { bounded: "up to four contexts" }),
  c("escapeControlChars", T("escapeControlChars"), escaping, ["escaped"], { models: {}, trusted: [] }),
];
