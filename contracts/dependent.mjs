// Values whose parser depends on the values of other options (C25).
import { CO, MO, PR } from "./_h.mjs";
const DE = "core/src/internal/dependency.ts", PA = "core/src/parser.ts", RT = "core/src/dependency-runtime.ts";
const USE = [DE, PA, PR, CO, MO, RT, "core/src/dependency.ts", "core/src/facade.ts", "core/src/fluent.ts"];
const no = (text) => ({ success: false, error: [{ type: "text", text }] });
// An arbitrary value parser: what it says about a text is decided once.
function arbitrary(V, name, async, seen = []) {
  const known = new Map();
  return { mode: async ? "async" : "sync", metavar: "VALUE", placeholder: undefined, seen, known,
    parse(t) { seen.push(t); if (!known.has(t)) known.set(t, V.flag(name + ".accepts " + t) ? { success: true, value: { of: name, text: t } } : no(name)); const r = known.get(t); return async ? Promise.resolve(r) : r; },
    format: (v) => v?.text ?? "formatted", validate: undefined, ...(async ? { async *suggest() {} } : { *suggest() {} }) };
}
// The dependent parser made for some values of the sources.
function family(V, name, async, throws) {
  const made = new Map();
  return { made, name, asked: [], make(...vs) {
    const key = [...made.keys()].find((k) => k.length === vs.length && k.every((x, i) => x === vs[i]));
    if (key) return made.get(key);
    if (throws && V.flag(name + ".factory throws " + made.size)) { const e = new Error("factory"); made.set(vs, { throws: e }); return made.get(vs); }
    const p = arbitrary(V, name + made.size, async); p.of = vs; made.set(vs, p); return p;
  } };
}
const SHAPES = {
  object: (m, s, d) => [m.object({ ...s, level: d, v: m.option("-v") }), (x) => x],
  "object, dependent first": (m, s, d) => [m.object({ level: d, v: m.option("-v"), ...s }), (x) => x],
  "nested objects": (m, s, d) => [m.object({ a: m.object({ ...s }), b: m.object({ level: d }), v: m.option("-v") }), (x) => ({ ...x.a, ...x.b, v: x.v })],
  tuple: (m, s, d) => [m.tuple([...Object.values(s), d, m.option("-v")]), (x) => Object.fromEntries([...Object.keys(s), "level", "v"].map((k, i) => [k, x[i]]))],
  merge: (m, s, d) => [m.merge(m.object({ ...s }), m.object({ level: d, v: m.option("-v") })), (x) => x],
  "merge, dependent first": (m, s, d) => [m.merge(m.object({ level: d, v: m.option("-v") }), m.object({ ...s })), (x) => x],
  concat: (m, s, d) => [m.concat(m.tuple([...Object.values(s)]), m.tuple([d, m.option("-v")])), (x) => Object.fromEntries([...Object.keys(s), "level", "v"].map((k, i) => [k, x[i]]))],
  "concat, dependent first": (m, s, d) => [m.concat(m.tuple([d, m.option("-v")]), m.tuple([...Object.values(s)])), (x) => Object.fromEntries(["level", "v", ...Object.keys(s)].map((k, i) => [k, x[i]]))],
  command: (m, s, d) => [m.command("go", m.object({ ...s, level: d, v: m.option("-v") })), (x) => x, ["go"]],
  alternative: (m, s, d) => [m.or(m.command("other", m.object({ w: m.option("-w") })), m.command("go", m.object({ ...s, level: d, v: m.option("-v") }))), (x) => x, ["go"]],
  "inside group": (m, s, d) => [m.group("G", m.object({ ...s, level: d, v: m.option("-v") })), (x) => x],
  "behind map": (m, s, d) => [m.map(m.object({ ...s, level: d, v: m.option("-v") }), (x) => ({ wrapped: x })), (x) => x.wrapped],
};
// Known finding: a dependent resolved before the container holding its source.
const LATER = {
  concat: SHAPES["concat, dependent first"],
  "nested objects": (m, s, d) => [m.object({ b: m.object({ level: d }), a: m.object({ ...s }), v: m.option("-v") }), (x) => ({ ...x.a, ...x.b, v: x.v })],
};
delete SHAPES["concat, dependent first"];
const KEEP = ["plain", "optional", "default", "lazy default"];
const wrap = (m, kind, p, D) => kind === "optional" ? m.optional(p) : kind === "default" ? m.withDefault(p, D) : kind === "lazy default" ? m.withDefault(p, () => D) : p;
const run = (o) => async (V) => {
  const m = { ...V.mod(PR), ...V.mod(CO), ...V.mod(MO) }, { dependency, deriveFrom, deriveFromSync, deriveFromAsync } = V.mod(DE), { parseSync, parseAsync } = V.mod(PA);
  const sources = o.sources.map((n) => ({ n, vp: arbitrary(V, n, o.async === "source" || o.async === "both"), D: { default: n }, guess: { guess: n } }));
  const deps = sources.map((s) => dependency(s.vp)), fam = family(V, "level", o.async === "factory" || o.async === "both", o.throws);
  const shared = { metavar: "LEVEL", mode: o.async === "factory" || o.async === "both" ? "async" : "sync", factory: (...vs) => { const p = fam.make(...vs); if (p.throws) throw p.throws; return p; } };
  const how = sources.length === 1 ? V.oneOf("how", o.how ?? ["derive", "mode", "deriveFrom"]) : V.oneOf("how", o.how ?? ["deriveFrom", "mode"]), asyncF = shared.mode === "async";
  const derived = how === "derive" ? deps[0].derive({ ...shared, defaultValue: () => sources[0].guess }) : how === "mode" && deps.length === 1 ? deps[0][asyncF ? "deriveAsync" : "deriveSync"]({ ...shared, defaultValue: () => sources[0].guess })
    : (how === "mode" ? asyncF ? deriveFromAsync : deriveFromSync : deriveFrom)({ ...shared, dependencies: deps, defaultValues: () => sources.map((s) => s.guess) });
  const kinds = sources.map((s) => V.oneOf(s.n + " is", o.kinds ?? KEEP)), dk = V.oneOf("dependent is", o.dkinds ?? ["plain", "optional", "default"]), X = { fallback: true };
  const fields = Object.fromEntries(sources.map((s, i) => [s.n, wrap(m, kinds[i], o.positional ? m.argument(deps[i]) : m.option("--" + s.n, deps[i]), s.D)]));
  const [parser, read, pre = []] = (o.later ? LATER : SHAPES)[V.oneOf("shape", o.shapes ?? Object.keys(o.later ? LATER : SHAPES))](m, fields, wrap(m, dk, m.option("--level", derived), X));
  // the command line: sources and dependent in any order
  const given = sources.map((s) => V.flag(s.n + " given")), dgiven = V.flag("dependent given"), joined = o.small ? true : V.flag("joined"), form = (n, t) => joined ? [`--${n}=${t}`] : ["--" + n, t];
  const items = [...sources.flatMap((s, i) => given[i] ? [o.positional ? ["t-" + s.n] : form(s.n, "t-" + s.n)] : []), ...(dgiven ? [form("level", "t-level")] : [])];
  const order = items.length > 1 && !o.small ? V.pick("first", items.length) : 0, rot = o.small ? V.flag("dependent first") ? [...items].reverse() : items : [...items.slice(order), ...items.slice(0, order)], line = [...rot];
  if (!o.small && V.flag("unrelated")) line.splice(V.pick("unrelated at", line.length + 1), 0, ["-v"]);
  const args = [...pre, ...line.flat()];
  const anyAsync = o.async !== undefined, call = () => anyAsync ? parseAsync(parser, args) : parseSync(parser, args);
  let r, threw; try { r = await call(); } catch (e) { threw = e; }
  V.assert("no-exception", threw === undefined);
  // what the values finally are
  const finals = sources.map((s, i) => given[i] ? s.vp.known.get("t-" + s.n) : kinds[i] === "plain" ? no("missing") : { success: true, value: kinds[i] === "optional" ? undefined : s.D, none: kinds[i] === "optional" });
  if (finals.some((f) => f === undefined || !f.success)) { V.cover("source fails"); V.assert("fails-with-a-failed-or-missing-source", !r.success); return; }
  let want;
  if (!dgiven) want = dk === "plain" ? no("missing") : { success: true, value: dk === "optional" ? undefined : X };
  else {
    const vs = finals.map((f, i) => f.none ? sources[i].guess : f.value), p = fam.make(...vs);
    V.assert("asked-of-the-right-parser", p.throws !== undefined || p.known.has("t-level"));
    want = p.throws ? no("factory") : p.known.get("t-level");
    V.cover(finals.some((f) => f.none) ? "guessed" : "given");
  }
  if (!want.success) { V.cover("rejected"); V.assert("rejected-for-the-values-actually-given", !r.success); return; }
  V.cover("accepted");
  V.assert("accepted-for-the-values-actually-given", r.success);
  const got = read(r.value);
  V.assert("the-values", got.level === want.value && sources.every((s, i) => got[s.n] === finals[i].value));
};
const c = (id, targets, run, covers, o = {}) => ({ id: "dependent/" + id, prop: "C25", use: USE, targets, covers, run, bounded: "listed program shapes; the parsers and factories are arbitrary", ...o });
const T = ["packages/core/src/internal/dependency.ts dependency, derive, deriveFrom", "packages/core/src/dependency-runtime.ts", "packages/core/src/constructs.ts object, tuple, merge, concat (dependency resolution)"];
const ALL = ["source fails", "guessed", "given", "rejected", "accepted"];
export const contracts = [
  c("one", T, run({ sources: ["mode"] }), ALL),
  c("one/async-factory", T, run({ sources: ["mode"], async: "factory", shapes: ["object", "object, dependent first", "tuple", "merge", "command"] }), ALL),
  c("one/async-source", T, run({ sources: ["mode"], async: "source", shapes: ["object", "object, dependent first", "tuple", "merge", "command"] }), ALL),
  c("one/async-both", T, run({ sources: ["mode"], async: "both", shapes: ["object", "object, dependent first", "merge", "command"] }), ALL),
  c("two", T, run({ sources: ["mode", "region"], small: true, how: ["deriveFrom"], kinds: ["plain", "optional", "default"], dkinds: ["plain", "optional"], shapes: ["object, dependent first", "tuple", "merge", "concat"] }), ALL),
  c("two/async", T, run({ sources: ["mode", "region"], small: true, kinds: ["plain", "default"], dkinds: ["plain"], async: "both", shapes: ["object, dependent first", "merge"] }), ALL.filter((x) => x !== "guessed")),
  c("throwing", T, run({ sources: ["mode"], throws: true, small: true, shapes: ["object", "object, dependent first", "tuple", "merge"] }), ALL),
  c("source-in-a-later-container", T, run({ sources: ["mode"], later: true, small: true, kinds: ["plain"], dkinds: ["plain"], how: ["derive"] }), ["given"]),
  c("positional", T, run({ sources: ["mode"], positional: true, shapes: ["object", "object, dependent first", "tuple", "merge", "command"] }), ALL),
];
