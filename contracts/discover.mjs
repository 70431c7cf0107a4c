// Programs assembled from command modules (C27) and the hooks around their handlers (C32).
import { CO, MO, PR, VP, errModels, errTrust } from "./_h.mjs";
import fs from "node:fs"; import os from "node:os"; import path from "node:path";
const DI = "discover/src/index.ts", GE = "discover/src/generator.ts", DC = "discover/src/command.ts", PA = "core/src/parser.ts", RU = "run/src/run.ts";
const USE = [DI, DC, PA, PR, CO, MO, VP, RU, "core/src/facade.ts", "core/src/fluent.ts", "core/src/extension.ts", "core/src/usage.ts"];
const thrown = (f) => { try { f(); } catch (e) { return e; } };
const thrownBy = async (f) => { try { await f(); } catch (e) { return e; } };
const samePath = (a, b) => a.length === b.length && a.every((s, i) => s === b[i]);
const command = (V, o = {}) => V.mod(DC).defineCommand({ parser: V.mod(CO).object({ v: V.mod(PR).option("-v") }), handler() {}, ...o });

// Locations are put together from their parts, so what they stand for is known by construction.
const EXTS = [[".ts", ".js"], [".cmd.ts", ".ts"], [".ts", ".cmd.ts", ".ts"], [".mjs"]];
const NAMES = ["add", "index", "main", "re.move", "a b"], DIRS = [[], ["stash"], ["stash", "index"], ["..x"], ["add"]];
const SUFFIX = ["", ".test", ".spec", ".d"], TEST = [".test", ".spec"];
// A declaration file is one whose name ends in .d.ts (.d.mts, .d.cts); a test file one whose name, the extension removed, ends in .test or .spec.
function meaning(V, spec, exts, entry) {
  const file = spec.name + spec.suffix + spec.ext, ext = [...new Set(exts)].filter((e) => file.endsWith(e)).sort((a, b) => b.length - a.length)[0];
  if (ext === undefined) return undefined;
  if (spec.suffix === ".d" && spec.ext === ".ts") return undefined;
  if (TEST.includes(spec.suffix) && ext === spec.ext) return undefined;
  const last = file.slice(0, file.length - ext.length), e = entry === undefined ? "index" : entry;
  return e !== false && last === e ? [...spec.dir] : [...spec.dir, last];
}
function location(V, k, exts, few) {
  return { dir: V.oneOf("dir" + k, few ? DIRS.slice(0, 3) : DIRS), name: V.oneOf("name" + k, few ? NAMES.slice(0, 2) : NAMES), suffix: V.oneOf("suffix" + k, few ? SUFFIX.slice(0, 1) : SUFFIX), ext: V.oneOf("ext" + k, few ? [".ts", ".js"] : [".ts", ".js", ".cmd.ts", ".mjs", ".md"]) };
}
// Writings of the same module key and of the base it lies under.
const BASES = [
  { base: undefined, pre: ["./", "", ".//", "x/../", ".\\"] },
  { base: "./commands", pre: ["./commands/", "commands/", "./commands//", "./x/../commands/", ".\\commands\\"] },
  { base: "./commands/", pre: ["./commands/", "commands/"] },
  { base: "/src/commands", pre: ["/src/commands/", "/src/./commands/", "\\src\\commands\\"] },
  { base: "..", pre: ["../"] },
];
function keyOf(pre, spec) { const s = pre.includes("\\") ? "\\" : "/"; return pre + [...spec.dir, spec.name + spec.suffix + spec.ext].join(s); }
const FORMS = ["command", "module", "nested", "nothing", "declared", "misdeclared"];
function exported(V, form, p) {
  const def = command(V, form === "declared" ? { path: p } : form === "misdeclared" ? { path: [...p, "other"] } : {});
  return { def, value: form === "module" ? { default: def } : form === "nested" ? { default: { default: def } } : form === "nothing" ? { default: { parser: 1 } } : def };
}
function single(V) {
  const { commandsFromModules } = V.mod(DI), exts = V.oneOf("extensions", EXTS), entry = V.oneOf("entryFileName", [undefined, "index", "main", false]), spec = location(V, 0, exts), vary = V.flag("variedForm"), form = vary ? V.oneOf("exports", FORMS) : "module", b = vary ? BASES[0] : V.oneOf("base", BASES), pre = vary ? b.pre[0] : V.oneOf("written", b.pre);
  const key = keyOf(pre, spec), want = meaning(V, spec, exts, entry), { def, value } = exported(V, form, want ?? ["x"]);
  let r; const e = thrown(() => { r = commandsFromModules({ [key]: value }, { extensions: exts, ...(b.base === undefined ? {} : { base: b.base }), ...(entry === undefined ? {} : { entryFileName: entry }) }); });
  if (want === undefined) { V.cover("skipped"); V.assert("other-files-are-no-commands", e instanceof TypeError); return; }
  if (form === "nothing" || form === "misdeclared") { V.cover("rejected"); V.assert("modules-without-that-command-are-errors", e instanceof TypeError); return; }
  V.cover("command");
  V.assert("one-command-at-its-location", e === undefined && r.length === 1 && samePath(r[0].path, want) && r[0].modulePath === key && r[0].command === def);
}
function several(V) {
  const { commandsFromModules } = V.mod(DI), exts = [".ts", ".js"], n = V.oneOf("modules", [2, 3]), specs = Array.from({ length: n }, (_, k) => location(V, k, exts, true)), mods = {}, wants = [];
  for (const s of specs) { const k = keyOf("./", s); if (k in mods) V.skip?.(); V.assume(!(k in mods)); const w = meaning(V, s, exts, undefined), d = command(V); mods[k] = { default: d }; wants.push({ k, w, d }); }
  const clash = wants.some((x, i) => wants.some((y, j) => i < j && samePath(x.w, y.w)));
  let r; const e = thrown(() => { r = commandsFromModules(mods, { extensions: exts }); });
  if (clash) { V.cover("clash"); V.assert("two-modules-of-one-path-are-an-error", e instanceof TypeError); return; }
  V.cover("distinct");
  V.assert("every-module-becomes-exactly-one-command", e === undefined && r.length === n && wants.every((x) => r.filter((y) => samePath(x.w, y.path) && y.command === x.d && y.modulePath === x.k).length === 1));
}
function outside(V) {
  const { commandsFromModules } = V.mod(DI), [base, key] = V.oneOf("pair", [["./commands", "./other/add.ts"], ["./commands", "./commands2/add.ts"], ["./commands", "./commands/../add.ts"], ["/src/commands", "/src/add.ts"], ["./a/b", "./a/add.ts"], ["./commands", "../commands/add.ts"]]);
  const bad = V.oneOf("bad", ["base", "no modules", "no extensions", "extension", "entry"]);
  let e;
  if (bad === "base") e = thrown(() => commandsFromModules({ [key]: command(V) }, { base, extensions: [".ts"] }));
  else if (bad === "no modules") e = thrown(() => commandsFromModules({}, { extensions: [".ts"] }));
  else if (bad === "no extensions") e = thrown(() => commandsFromModules({ "./a.ts": command(V) }, { extensions: [] }));
  else if (bad === "extension") e = thrown(() => commandsFromModules({ "./a.ts": command(V) }, { extensions: [V.oneOf("ext", ["ts", ".", ""])] }));
  else e = thrown(() => commandsFromModules({ "./a.ts": command(V) }, { extensions: [".ts"], entryFileName: V.oneOf("entryName", ["", "a/b", "a\\b"]) }));
  V.cover("rejected"); V.assert("modules-outside-the-base-and-bad-options-are-errors", e instanceof TypeError);
}
// Directory trees on disk, in a scratch directory of this run.
let scratch = 0;
async function files(V) {
  const { discoverCommands } = V.mod(DI), exts = [".mjs", ".cjs", ".cmd.mjs"], entry = V.oneOf("entryFileName", [undefined, "main", false]), n = V.oneOf("files", [0, 1, 2, 3, 4]);
  const root = fs.mkdtempSync(path.join(os.tmpdir(), "vp-discover-")), wants = [], seen = new Set();
  globalThis.__vpCommands ??= [];
  try {
    let rejected = false, links = 0;
    for (let k = 0; k < n; k++) {
      const spec = { dir: V.oneOf("dir" + k, [[], ["stash"], ["stash", "deep"], ["add"]]), name: V.oneOf("name" + k, ["add", "index", "main", "re.move"]), suffix: V.oneOf("suffix" + k, ["", "", "", ".test", ".spec"]), ext: V.oneOf("ext" + k, [".mjs", ".mjs", ".cmd.mjs", ".md"]) };
      const file = path.join(root, ...spec.dir, spec.name + spec.suffix + spec.ext); if (seen.has(file)) continue; seen.add(file);
      const w = meaning(V, spec, exts, entry), form = V.oneOf("exports" + k, ["command", "command", "command", "nothing", "declared", "misdeclared"]), { def, value } = exported(V, form, w ?? ["x"]), id = globalThis.__vpCommands.push(value) - 1;
      fs.mkdirSync(path.dirname(file), { recursive: true }); fs.writeFileSync(file, `export default globalThis.__vpCommands[${id}];\n`);
      if (w === undefined) continue;
      if (form === "nothing" || form === "misdeclared") rejected = true;
      wants.push({ file, w, def });
    }
    if (V.flag("link") && wants.length) { const d = path.join(root, "stash"); if (fs.existsSync(d)) { fs.symlinkSync(root, path.join(d, "loop")); links++; } }
    const clash = wants.some((x, i) => wants.some((y, j) => i < j && samePath(x.w, y.w)));
    let r; const e = await thrownBy(async () => { r = await discoverCommands({ dir: V.flag("asUrl") ? new URL("file://" + root) : root, extensions: exts, ...(entry === undefined ? {} : { entryFileName: entry }) }); });
    await generated(V, root, exts, entry, wants, clash);
    if (wants.length === 0 || rejected || clash) { V.cover("rejected"); V.assert("no-clashing-or-broken-command-files", e instanceof TypeError); return; }
    V.cover("command");
    V.assert("every-file-becomes-exactly-one-command", e === undefined && r.length === wants.length && wants.every((x) => r.filter((y) => samePath(x.w, y.path) && y.filePath === x.file && y.command === x.def).length === 1));
  } finally { fs.rmSync(root, { recursive: true, force: true }); }
}

// The module written for bundlers lists the same files under the same paths.
async function generated(V, root, exts, entry, wants, clash) {
  const { generateCommandsModule } = V.mod(GE), { commandsFromModules } = V.mod(DI), place = V.oneOf("output", [["out.ts"], ["..", path.basename(root) + "-out", "deep", "out.ts"], ["stash", "out.mjs"]]), outputFile = path.join(root, ...place), base = V.oneOf("base", [undefined, undefined, "./commands", "."]);
  let r; const e = await thrownBy(async () => { r = await generateCommandsModule({ dir: root, outputFile, extensions: V.flag("reversedExtensions") ? [...exts].reverse() : exts, ...(base === undefined ? {} : { base }), ...(entry === undefined ? {} : { entryFileName: entry }) }); });
  if (wants.length === 0 || clash) { V.assert("generated/no-clashing-command-files", e instanceof TypeError); return; }
  V.assert("generated/every-file-is-listed-once", e === undefined && r.files.length === wants.length && wants.every((x) => r.files.filter((f) => f.filePath === x.file).length === 1) && new Set(r.files.map((f) => f.identifier)).size === wants.length);
  const imports = [...r.code.matchAll(/^import \* as (\w+) from (".*");$/gm)].map((m) => [m[1], JSON.parse(m[2])]), entries = [...r.code.matchAll(/^    (".*"): (cmd\d+),$/gm)].map((m) => [JSON.parse(m[1]), m[2]]), opts = new Map([...r.code.matchAll(/^    (base|extensions|entryFileName): (.*),$/gm)].map((m) => [m[1], JSON.parse(m[2])]));
  V.assert("generated/code-imports-the-files", imports.length === wants.length && r.files.every((f) => imports.some(([id, spec]) => id === f.identifier && /^\.\.?\//.test(spec) && path.resolve(path.dirname(outputFile), decodeURIComponent(spec)) === f.filePath)));
  V.assert("generated/code-maps-the-files", entries.length === wants.length && r.files.every((f) => entries.some(([key, id]) => id === f.identifier && key === f.modulePath)));
  const defs = new Map(r.files.map((f) => [f.identifier, command(V)])), made = commandsFromModules(Object.fromEntries(entries.map(([k, id]) => [k, { default: defs.get(id) }])), Object.fromEntries(opts));
  V.assert("generated/under-the-same-paths", made.length === wants.length && r.files.every((f) => { const w = wants.find((x) => x.file === f.filePath); return made.filter((m) => samePath(m.path, w.w) && m.command === defs.get(f.identifier)).length === 1; }));
}

// Which command an argument list is for: the command tree is walked along the names it starts with.
const UNIVERSE = [[], ["a"], ["b"], ["a", "b"], ["a", "c"], ["a", "b", "c"]];
function commands(V, mask, o) {
  const PRm = V.mod(PR), { object } = V.mod(CO), { optional } = V.mod(MO), { string } = V.mod(VP), all = UNIVERSE.filter((_, i) => mask >> i & 1);
  const text = string(), vp = o.async ? { ...text, $mode: "async", mode: "async", parse: (s) => Promise.resolve(text.parse(s)), async *suggest() {} } : text;
  return all.map((p) => {
    const inner = all.some((q) => q.length > p.length && p.every((s, i) => q[i] === s));
    const parser = inner ? object({ v: PRm.option("-v"), ...(o.async ? { w: optional(PRm.option("-w", vp)) } : {}) }) : object({ v: PRm.option("-v"), x: optional(PRm.argument(vp)) });
    const handler = () => {}, meta = o.alias && samePath(p, ["a"]) ? { aliases: ["al"], hidden: true } : undefined;
    return { path: p, inner, handler, command: V.mod(DC).defineCommand({ parser, handler, ...(meta ? { metadata: meta } : {}) }) };
  });
}
function target(V, list, args, o) {
  let at = [], i = 0; const isNode = (p) => list.some((c) => p.length <= c.path.length && p.every((s, k) => c.path[k] === s));
  for (; i < args.length; i++) { const hit = ["a", "b", "c"].find((n) => isNode([...at, n]) && V.truthy(V.same(args[i], n))) ?? (o.alias && at.length === 0 && list.some((c) => samePath(c.path, ["a"])) && V.truthy(V.same(args[i], "al")) ? "a" : undefined); if (hit === undefined) break; at = [...at, hit]; }
  const c = list.find((x) => samePath(x.path, at)); if (!c) return undefined;
  let v = false, x, ended = false;
  for (const t of args.slice(i)) {
    if (!ended && V.truthy(V.same(t, "--"))) { ended = true; continue; }
    if (!ended && V.truthy(V.same(t, "-v"))) { if (v) return undefined; v = true; continue; }
    if (!ended && V.truthy(t.startsWith("-"))) return undefined;
    if (c.inner || x !== undefined) return undefined;
    x = t;
  }
  return { c, v, x };
}
const dispatch = (async, sizes, alias) => async (V) => {
  const { createProgramParser } = V.mod(DI), { parseSync, parseAsync } = V.mod(PA), mask = 1 + V.pick("commands", 63), o = { async, alias }, list = commands(V, mask, o), order = V.flag("reversed") ? [...list].reverse() : list;
  const args = Array.from({ length: V.oneOf("tokens", sizes) }, (_, k) => V.oneOf("token" + k, alias ? ["a", "b", "al", "-v", "x"] : ["a", "b", "c", "-v", "x", "--"]));
  const p = createProgramParser(order), r = async ? await parseAsync(p, args) : parseSync(p, args), want = target(V, list, args, o);
  V.assert("mode", p.mode === (async ? "async" : "sync"));
  if (want === undefined) { V.cover("none"); V.assert("no-command-is-run-for-it", !r.success); return; }
  V.cover("command");
  V.assert("the-command-at-that-path-and-no-other", r.success && samePath(r.value.path, want.c.path) && r.value.command === want.c.command && r.value.handler === want.c.handler);
  V.assert("with-its-own-value", r.value.value.v === want.v && (want.c.inner || r.value.value.x === want.x));
};
function symbolic(V) { // names and arguments are arbitrary strings
  const { createProgramParser } = V.mod(DI), { parseSync } = V.mod(PA), PRm = V.mod(PR), { object } = V.mod(CO), { optional } = V.mod(MO), { string } = V.mod(VP), shape = V.oneOf("shape", [[["a"], ["b"]], [["a", "b"], ["b"]], [["a"], ["a", "b"]], [[], ["a"]]]);
  const list = shape.map((p) => { const inner = shape.some((q) => q !== p && p.every((s, i) => q[i] === s)), handler = () => {}; return { path: p, inner, handler, command: V.mod(DC).defineCommand({ parser: inner ? object({ v: PRm.option("-v") }) : object({ v: PRm.option("-v"), x: optional(PRm.argument(string())) }), handler }) }; });
  const args = Array.from({ length: V.pick("tokens", 3) }, (_, k) => V.str("token" + k, { pool: ["a", "b", "-v", "--", "x", "-", "-vv"] }));
  V.assume(args.every((t) => !V.truthy(t.startsWith("-")) || V.truthy(V.same(t, "-v")) || V.truthy(V.same(t, "--"))));
  const p = createProgramParser(list), r = parseSync(p, args), want = target(V, list, args, {});
  if (want === undefined) { V.cover("none"); V.assert("no-command-is-run-for-it", !r.success); return; }
  V.cover("command");
  V.assert("the-command-at-that-path-and-no-other", r.success && samePath(r.value.path, want.c.path) && r.value.command === want.c.command && r.value.handler === want.c.handler);
  V.assert("with-its-own-value", r.value.value.v === want.v && (want.c.inner || (want.x === undefined ? r.value.value.x === undefined : V.same(r.value.value.x, want.x))));
}
function duplicates(V) {
  const { createProgramParser } = V.mod(DI), i = V.pick("first", 6), j = V.pick("second", 6), k = V.pick("third", 7), ps = [UNIVERSE[i], UNIVERSE[j], ...(k < 6 ? [UNIVERSE[k]] : [])], twice = new Set(ps.map((p) => p.join("/"))).size < ps.length;
  const e = thrown(() => createProgramParser(ps.map((p) => ({ path: [...p], command: command(V) }))));
  V.cover(twice ? "twice" : "once"); V.assert("a-path-claimed-twice-is-an-error", twice ? e instanceof TypeError : e === undefined);
  V.assert("no-commands-is-an-error", thrown(() => createProgramParser([])) instanceof TypeError);
}

// runProgram: requests and hooks.
async function defaults(V) {
  const { runProgram } = V.mod(DI), asked = V.oneOf("asked", ["help", "version", "completion", "command"]), form = V.oneOf("form", ["option", "command"]), set = V.oneOf("configured", [undefined, false, "option", "command"]), versioned = V.flag("versioned"), named = V.flag("named"), ran = [], out = [], err = [], codes = [], EXIT = { tag: "exit" };
  const cmd = V.mod(DC).defineCommand({ path: ["build"], parser: V.mod(CO).object({ v: V.mod(PR).option("-v") }), handler(x) { ran.push(x); } });
  const word = form === "option" ? "--" + asked : asked, args = asked === "command" ? ["build", "-v"] : asked === "completion" ? [word, "bash"] : [word];
  const opt = set === undefined ? {} : asked === "version" ? { version: set === false ? false : { value: "9.9", [set]: true } } : asked === "command" ? {} : { [asked]: set };
  const on = asked === "command" ? false : set === false ? false : set !== undefined ? set === form : asked === "version" ? versioned && form === "option" : true;
  const e = await thrownBy(() => runProgram({ commands: [cmd], metadata: { name: "prog", ...(versioned ? { version: "1.2.3" } : {}) }, ...(named ? { programName: "other" } : {}), ...opt, args, colors: false, maxWidth: 80, stdout: (s) => out.push(s), stderr: (s) => err.push(s), onExit(c) { codes.push(c); throw EXIT; } }));
  if (asked === "command") { V.cover("command"); V.assert("the-handler-runs-once", e === undefined && codes.length === 0 && out.length === 0 && err.length === 0 && ran.length === 1 && ran[0].v === true); return; }
  V.assert("no-handler-runs", ran.length === 0);
  if (!on) { V.cover("off"); V.assert("what-is-disabled-is-not-reachable", e === EXIT && codes.length === 1 && codes[0] === 1 && out.length === 0); return; }
  V.cover(asked);
  V.assert("requests-are-reachable", e === EXIT && codes.length === 1 && codes[0] === 0 && out.length === 1 && (asked === "version" ? out[0] === (set ? "9.9" : "1.2.3") : out[0].includes(named ? "other" : "prog")));
}
const hooks = (async, quick) => async (V) => {
  const { runProgram } = V.mod(DI), log = [], value = { tag: "value" }, result = { tag: "result" }, undef = { tag: "none" };
  const errs = { pb: new Error("pb"), cb: new Error("cb"), h: V.oneOf("handlerThrows", [undef, new Error("h"), undefined]), ca: new Error("ca"), pa: new Error("pa") }, ctx = { p: { tag: "program" }, c: { tag: "command" } };
  const give = (x) => async ? Promise.resolve(x) : x, fail = (x) => { if (async) return Promise.reject(x); throw x; };
  const scope = (k) => {
    const before = V.oneOf(k + ".beforeEach", ["absent", "context", "nothing", "throws"]), after = V.oneOf(k + ".afterEach", ["absent", "ok", "throws"]), error = V.oneOf(k + ".onError", ["absent", "ok", "throws"]), h = {};
    if (before !== "absent") h.beforeEach = (inv) => { log.push([k + "b", inv]); return before === "throws" ? fail(errs[k + "b"]) : give(before === "context" ? ctx[k] : undefined); };
    if (after !== "absent") h.afterEach = (...a) => { log.push([k + "a", ...a]); return after === "throws" ? fail(errs[k + "a"]) : give(undefined); };
    if (error !== "absent") h.onError = (...a) => { log.push([k + "e", ...a]); return error === "throws" ? fail(new Error("other")) : give(undefined); };
    return { before, after, error, h };
  };
  const P = scope("p"), C = scope("c");
  const parser = { $valueType: [], $stateType: [], mode: "sync", priority: 1, usage: [], leadingNames: new Set(), acceptingAnyToken: false, initialState: undefined, parse: (c) => ({ success: true, consumed: [], next: c }), complete: () => ({ success: true, value }), *suggest() {}, getDocFragments: () => ({ fragments: [] }) };
  const cmd = V.mod(DC).defineCommand({ path: [], parser, handler(...a) { log.push(["h", ...a]); return errs.h === undef ? give(result) : fail(errs.h); }, ...(Object.keys(C.h).length ? { hooks: C.h } : {}) });
  let threw = undef; try { await runProgram({ commands: [cmd], metadata: { name: "prog" }, help: false, completion: false, args: [], colors: false, stdout() {}, stderr() {}, ...(Object.keys(P.h).length ? { hooks: P.h } : {}) }); } catch (e) { threw = e; }
  // what the documentation says happens
  const want = []; let failed = undef, in1 = 0; // in1: 1 the program's scope, 2 the command's scope
  const empty = (x) => x !== null && typeof x === "object" && Object.keys(x).length === 0, is = (x) => (y) => y === x, ofValue = (i) => i.value === value && i.command === cmd && samePath(i.path, []);
  const pctx = P.before === "context" ? is(ctx.p) : empty, cctx = C.before === "context" ? is(ctx.c) : C.before === "absent" ? pctx : empty;
  const steps = [
    [1, () => { if (P.before === "absent") return undef; want.push(["pb", ofValue]); return P.before === "throws" ? errs.pb : undef; }],
    [2, () => { if (C.before === "absent") return undef; want.push(["cb", ofValue]); return C.before === "throws" ? errs.cb : undef; }],
    [2, () => { want.push(C.before !== "absent" ? ["h", is(value), cctx] : P.before !== "absent" ? ["h", is(value), pctx] : ["h", is(value)]); return errs.h; }],
    [2, () => { if (C.after === "absent") return undef; want.push(["ca", cctx, is(result)]); return C.after === "throws" ? errs.ca : undef; }],
    [1, () => { if (P.after === "absent") return undef; want.push(["pa", pctx, is(result)]); return P.after === "throws" ? errs.pa : undef; }],
  ];
  for (const [s, f] of steps) { failed = f(); if (failed !== undef) { in1 = s; break; } }
  if (failed !== undef) { if (in1 === 2 && C.error !== "absent") want.push(["ce", cctx, is(failed)]); if (P.error !== "absent") want.push(["pe", pctx, is(failed)]); }
  V.cover(failed === undef ? "success" : "failure");
  V.assert("hooks-and-handler-in-order-each-once", log.length === want.length && log.every((l, i) => l[0] === want[i][0]));
  V.assert("with-their-own-arguments", log.every((l, i) => l.length === want[i].length && l.slice(1).every((x, k) => want[i][k + 1](x))));
  V.assert("the-original-failure-is-rethrown", threw === failed);
};
async function notRun(V) { // a command line that is not accepted, or a request, runs nothing
  const { runProgram } = V.mod(DI), log = [], h = (k) => ({ beforeEach() { log.push(k); }, afterEach() { log.push(k); }, onError() { log.push(k); } }), EXIT = { tag: "exit" }, args = V.oneOf("args", [[], ["build", "-x"], ["other"], ["--help"], ["build", "--help"], ["--version"], ["help"], ["completion", "bash"], ["build"]]), async = V.flag("async");
  const opt = V.mod(PR).option("-v"), parser = V.mod(CO).object({ v: opt }), cmd = V.mod(DC).defineCommand({ path: ["build"], parser, handler() { log.push("handler"); }, hooks: h("command") });
  const e = await thrownBy(() => runProgram({ commands: [cmd], metadata: { name: "prog", version: "1.2.3" }, args, colors: false, maxWidth: 80, stdout() {}, stderr() {}, onExit() { throw EXIT; }, hooks: h("program") }));
  if (samePath(args, ["build"])) { V.cover("runs"); V.assert("handler-once", e === undefined && log.join() === "program,command,handler,command,program"); }
  else { V.cover("does-not"); V.assert("no-handler-and-no-hook-runs", e === EXIT && log.length === 0); }
}
async function phases(V) { // program contexts see the parsed value of the command, not the invocation around it
  const { runProgram } = V.mod(DI), seen = [], value = { tag: "value" }, phase = V.oneOf("phase", ["single-pass", "two-pass"]), disposed = [], internal = V.flag("internal"), dispose = V.oneOf("dispose", ["none", "sync", "async"]), handled = [];
  const parser = { $valueType: [], $stateType: [], mode: "sync", priority: 1, usage: [], leadingNames: new Set(), acceptingAnyToken: false, initialState: undefined, parse: (c) => ({ success: true, consumed: [], next: c }), complete: () => ({ success: true, value }), *suggest() {}, getDocFragments: () => ({ fragments: [] }) };
  const cmd = V.mod(DC).defineCommand({ path: [], parser, handler(v) { handled.push(v); } }), self = { id: Symbol("ctx"), phase, getAnnotations(req) { seen.push([this === self, req]); return {}; }, ...(internal ? { getInternalAnnotations(req) { seen.push([this === self, req]); return undefined; } } : {}), ...(dispose === "sync" ? { [Symbol.dispose]() { disposed.push(this === self); } } : dispose === "async" ? { async [Symbol.asyncDispose]() { disposed.push(this === self); } } : {}) };
  const e = await thrownBy(() => runProgram({ commands: [cmd], metadata: { name: "prog" }, args: [], colors: false, stdout() {}, stderr() {}, contexts: [self] }));
  V.cover(phase);
  V.assert("the-command-ran", e === undefined && handled.length === 1 && handled[0] === value);
  V.assert("contexts-are-called-as-themselves", seen.length > 0 && seen.every(([t]) => t === true));
  V.assert("parsed-values-are-the-command's", seen.every(([, r]) => r === undefined || r.phase !== "phase2" || r.parsed === value));
  V.assert("disposed-once", disposed.length === (dispose === "none" ? 0 : 1) && disposed.every((t) => t));
}
const c = (id, prop, targets, run, covers, o = {}) => ({ id: "discover/" + id, prop, use: o.use ?? USE, targets: targets.map((t) => "packages/discover/src/index.ts " + t), covers, run, ...o });
export const contracts = [
  c("modules/one", "C27", ["commandsFromModules, commandPathFromModulePath, relativeModulePath, stripCommandExtension, isDeclarationFile, isTestFile"], single, ["skipped", "rejected", "command"], { bounded: "names, extensions, bases and writings of keys out of lists", weight: 3 }),
  c("modules/several", "C27", ["commandsFromModules"], several, ["clash", "distinct"], { bounded: "two or three modules, names out of lists", weight: 2 }),
  c("modules/rejected", "C27", ["normalizeExtensions, normalizeEntryFileName, relativeModulePath"], outside, ["rejected"], { bounded: "listed keys and options" }),
  c("files", "C27", ["discoverCommands, collectCommandFiles", "(generator.ts) generateCommandsModule, collectCommandFiles, isTestFile, rejectDuplicateCommandPaths"], files, ["rejected", "command"], { use: [...USE, GE], symbolic: false, bounded: "random trees of at most four files", native: { runs: 250, ms: 25000 } }),
  c("dispatch/strings", "C27", ["createProgramParser, buildCommandTree, buildNodeParser, createExecutableNodeParser, createLeafParser"], symbolic, ["command", "none"], { weight: 4, models: { ...errModels, "core/src/constructs.ts#createUnexpectedInputErrorWithScopedSuggestions": (V, base) => base }, trusted: [errTrust] }),
  c("dispatch/sync", "C27", ["createProgramParser, buildNodeParser, createExecutableNodeParser"], dispatch(false, [0, 1, 2, 3], false), ["command", "none"], { bounded: "63 sets of commands, at most three tokens", weight: 5 }),
  c("dispatch/alias", "C27", ["createNamespaceCommandParser, namespaceCommandMetadata"], dispatch(false, [1, 2], true), ["command", "none"], { bounded: "63 sets of commands, at most two tokens", weight: 3 }),
  c("dispatch/async", "C27", ["createExecutableNodeParser"], dispatch(true, [0, 1, 2], false), ["command", "none"], { bounded: "63 sets of commands, at most two tokens", weight: 4 }),
  c("dispatch/duplicates", "C27", ["createProgramParser, rejectDuplicatePaths"], duplicates, ["twice", "once"], { bounded: "up to three paths out of six" }),
  c("requests", "C27", ["runProgram, buildRunOptions"], defaults, ["help", "version", "completion", "off", "command"], { bounded: "listed requests and configurations" }),
  c("hooks/sync", "C32", ["runProgram, dispatchInvocation, runHookScope"], hooks(false), ["success", "failure"], { weight: 4 }),
  c("hooks/async", "C32", ["runProgram, dispatchInvocation, runHookScope"], hooks(true), ["success", "failure"], { weight: 4 }),
  c("hooks/not-run", "C32", ["runProgram"], notRun, ["runs", "does-not"], { bounded: "listed command lines" }),
  c("contexts", "C32", ["wrapProgramContext, unwrapProgramContextRequest"], phases, ["single-pass", "two-pass"], {}),
];
