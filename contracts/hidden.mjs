// Visibility of items (C26): what each level hides where, how levels combine, and that hiding never changes parsing.
import { PR, CO, MO, IP, SU, VP, errModels, errTrust, bufferOf, ctxOf, childParser, valueParser } from "./_h.mjs";
const US = "core/src/usage.ts", DOC = "core/src/doc.ts", PA = "core/src/parser.ts", FA = "core/src/facade.ts", MAN = "man/src/man.ts", NE = "core/src/nonempty.ts", IM = "core/src/usage-internals.ts";
const LEVELS = [undefined, false, true, "usage", "doc", "help"];
// The documented meaning of each level.
const hides = { usage: (h) => h === true || h === "usage" || h === "help", doc: (h) => h === true || h === "doc" || h === "help", suggestion: (h) => h === true };
const either = (place, ...hs) => hs.some(hides[place]);

function levels(V) {
  const U = V.mod(US), a = V.oneOf("a", LEVELS), b = V.oneOf("b", LEVELS);
  V.assert("usage", U.isUsageHidden(a) === hides.usage(a));
  V.assert("doc", U.isDocHidden(a) === hides.doc(a));
  V.assert("suggestion", U.isSuggestionHidden(a) === hides.suggestion(a));
  const m = U.mergeHidden(a, b);
  V.assert("combined-is-a-level", LEVELS.includes(m));
  for (const place of ["usage", "doc", "suggestion"]) V.assert("combined-hides-when-either-does", hides[place](m) === either(place, a, b));
  V.cover(m ? "hidden" : "shown");
}
// ---- every kind of item, in every surrounding, under every wrapper ----
const opt = (h) => h === undefined ? {} : { hidden: h };
const desc = (t) => [{ type: "text", text: t }];
const choice = (V, list) => V.mod(VP).choice(list, { metavar: "CH" });
const KINDS = {
  option: { show: "--item", docs: ["--item"], names: ["--item", "ival"], make: (V, h) => V.mod(PR).option("--item", choice(V, ["ival"]), { description: desc("DITEM"), ...opt(h) }), line: ["--item", "ival"] },
  boolean: { show: "--item", docs: ["--item"], names: ["--item"], make: (V, h) => V.mod(PR).option("--item", { description: desc("DITEM"), ...opt(h) }), line: ["--item"] },
  flag: { show: "--item", docs: ["--item"], names: ["--item"], make: (V, h) => V.mod(PR).flag("--item", { description: desc("DITEM"), ...opt(h) }), line: ["--item"] },
  negatable: { show: "--item", docs: ["--item", "--no-item"], names: ["--item", "--no-item"], make: (V, h) => V.mod(PR).negatableFlag({ positive: "--item", negative: "--no-item" }, { description: desc("DITEM"), ...opt(h) }), line: ["--no-item"] },
  argument: { show: "ITEM", docs: ["ITEM"], names: ["ival"], make: (V, h) => V.mod(PR).argument(V.mod(VP).choice(["ival"], { metavar: "ITEM" }), { description: desc("DITEM"), ...opt(h) }), line: ["ival"] },
  command: { show: "itemcmd", docs: ["itemcmd"], names: ["itemcmd"], make: (V, h) => V.mod(PR).command("itemcmd", V.mod(PR).constant(1), { description: desc("DITEM"), ...opt(h) }), line: ["itemcmd"] },
  passThrough: { show: "[...]", docs: ["[...]"], names: [], make: (V, h) => V.mod(PR).passThrough({ format: "greedy", description: desc("DITEM"), ...opt(h) }), line: [] },
};
const other = (V) => V.mod(PR).option("--other", choice(V, ["oval"]), { description: desc("DOTHER") });
// shapes: the item on its own or next to a visible neighbour; what is shown of the neighbour does not depend on the item
const SHAPES = {
  alone: (V, x) => x, optional: (V, x) => V.mod(MO).optional(x), multiple: (V, x) => V.mod(MO).multiple(x), withDefault: (V, x) => V.mod(MO).withDefault(x, 1), map: (V, x) => V.mod(MO).map(x, (v) => v),
  or: (V, x) => V.mod(CO).or(x, other(V)), longestMatch: (V, x) => V.mod(CO).longestMatch(other(V), x), object: (V, x) => V.mod(CO).object({ x, y: other(V) }), tuple: (V, x) => V.mod(CO).tuple([V.mod(MO).optional(other(V)), x]), group: (V, x) => V.mod(CO).group("GRP", x),
  "optional-in-object": (V, x) => V.mod(CO).object("LBL", { x: V.mod(MO).optional(x), y: V.mod(MO).optional(other(V)) }), "object-in-or": (V, x) => V.mod(CO).or(V.mod(CO).object({ x }), V.mod(CO).object({ y: other(V) })),
};
const NEIGHBOUR = new Set(["or", "longestMatch", "object", "tuple", "optional-in-object", "object-in-or"]);
const OBJECTS = ["group", "object", "merge"];
function wrap(V, kind, x, h) {
  const C = V.mod(CO), o = opt(h);
  if (kind === "none") return x;
  if (kind === "group") return C.group("WRP", x, o);
  if (kind === "object") return C.object({ inner: x }, o);
  return C.merge(C.object({ inner: x }), C.object({ extra: V.mod(MO).optional(V.mod(PR).option("--extra")) }), o);
}
const text = (m) => m === undefined ? "" : m.map((t) => t.text ?? "").join("");
const shows = (s, w) => s.split(/(?:[\s|()\[\]/:"]|\.\.\.)+/).includes(w) || w === "[...]" && s.includes("[...]");
function everyPlace(kind) {
  return (V) => {
    const K = KINDS[kind], shape = V.oneOf("shape", Object.keys(SHAPES)), wrapper = V.oneOf("wrapper", ["none", ...OBJECTS]);
    const k = V.oneOf("item.hidden", LEVELS), h = wrapper === "none" ? undefined : V.oneOf("wrapper.hidden", LEVELS);
    const build = (k, h) => { try { return wrap(V, wrapper, SHAPES[shape](V, K.make(V, k)), h); } catch (e) { if (e instanceof TypeError || e?.name === "DuplicateOptionError") V.skip("not a combination the constructors accept"); throw e; } };
    const p = build(k, h), plain = build(undefined, undefined), U = V.mod(US);
    // usage lines
    const usage = U.formatUsage("prog", p.usage), full = U.formatUsage("prog", plain.usage);
    V.assert("in-usage-unless-hidden-there", shows(usage, K.show) === (shows(full, K.show) && !either("usage", k, h)));
    if (NEIGHBOUR.has(shape)) V.assert("neighbour-in-usage", shows(usage, "--other") === !either("usage", h));
    if (!either("usage", k, h)) V.assert("usage-otherwise-unchanged", usage === full);
    // documentation
    const docs = (q) => V.mod(PA).getDocPage(q), entries = (pg) => pg === undefined ? [] : pg.sections.flatMap((s) => s.entries), named = (e) => U.formatUsageTerm({ ...e.term, hidden: undefined }, { context: "doc", optionsSeparator: " " });
    const page = docs(p), fullPage = docs(plain), has = (pg, w) => entries(pg).some((e) => shows(named(e), w));
    for (const w of K.docs) V.assert("in-documentation-unless-hidden-there", has(page, w) === (has(fullPage, w) && !either("doc", k, h)));
    if (NEIGHBOUR.has(shape)) V.assert("neighbour-in-documentation", has(page, "--other") === !either("doc", h));
    if (!either("doc", k, h)) V.assert("documentation-otherwise-unchanged", entries(page).length === entries(fullPage).length && entries(page).every((e, i) => named(e) === named(entries(fullPage)[i]) && text(e.description) === text(entries(fullPage)[i].description)));
    const rendered = page === undefined ? "" : V.mod(DOC).formatDocPage("prog", { ...page, brief: undefined, description: undefined }, { showUsage: false });
    V.assert("rendered-documentation-agrees", shows(rendered, "DITEM") === has(page, K.docs[0]));
    // completion and hints
    for (const prefix of ["", "-", "--", "--i", "i"]) {
      const s = V.mod(PA).suggestSync(p, [prefix]).map((x) => x.text), all = V.mod(PA).suggestSync(plain, [prefix]).map((x) => x.text);
      const gone = (t) => K.names.includes(t) && either("suggestion", k, h) || (t === "--other" || t === "oval" || t === "--extra") && either("suggestion", h);
      V.assert("suggested-unless-hidden-there", s.join(" ") === all.filter((t) => !gone(t)).join(" "));
      if (s.length) V.cover("suggestions");
    }
    const hints = [...U.extractOptionNames(p.usage), ...U.extractCommandNames(p.usage), ...U.extractArgumentMetavars(p.usage)], hintable = [...U.extractOptionNames(plain.usage), ...U.extractCommandNames(plain.usage), ...U.extractArgumentMetavars(plain.usage)];
    V.assert("hinted-unless-hidden-there", hints.join(" ") === hintable.filter((t) => t === "--other" || t === "--extra" ? !either("suggestion", h) : !either("suggestion", k, h)).join(" "));
    V.assert("hidden-names-are-still-reserved", [...U.extractOptionNames(p.usage, true)].join(" ") === [...U.extractOptionNames(plain.usage, true)].join(" ") && [...U.extractCommandNames(p.usage, true)].join(" ") === [...U.extractCommandNames(plain.usage, true)].join(" "));
    // parsing
    for (const args of [K.line, [], ["--other", "oval"], [...K.line, "--other", "oval"], ["--other=oval", ...K.line]]) {
      const r = V.mod(PA).parseSync(p, args), r0 = V.mod(PA).parseSync(plain, args);
      V.assert("parsed-all-the-same", r.success === r0.success && (!r.success || JSON.stringify(r.value) === JSON.stringify(r0.value)));
      if (r.success) V.cover("parsed");
    }
    V.cover(either("usage", k, h) ? "hidden" : "shown");
  };
}
// ---- parsing steps, for every input ----
const PRIMS = {
  option: (V, vp, o) => V.mod(PR).option("-i", "--item", vp, o), boolean: (V, vp, o) => V.mod(PR).option("-i", "--item", o), flag: (V, vp, o) => V.mod(PR).flag("-i", "--item", o), negatable: (V, vp, o) => V.mod(PR).negatableFlag({ positive: "--item", negative: "--no-item" }, o),
  argument: (V, vp, o) => V.mod(PR).argument(vp, o), passThrough: (V, vp, o) => V.mod(PR).passThrough({ format: V.oneOf("format", ["equalsOnly", "nextToken", "greedy"]), ...o }),
};
function fixedParser(V) { const vp = valueParser(V), memo = []; const ask = vp.parse; vp.parse = (s) => { for (const [t, r] of memo) if (V.truthy(V.same(t, s))) return r; const r = ask(s); memo.push([s, r]); return r; }; return vp; }
function sameStep(V, a, b, state = (x, y) => x === y) {
  V.assert("same-outcome", a.success === b.success);
  if (!a.success) { V.assert("same-count", V.truthy(V.same(a.consumed, b.consumed))); V.cover("failure"); return; }
  V.assert("same-tokens", V.and(V.seqEq(a.consumed, b.consumed), V.seqEq(a.next.buffer, b.next.buffer), V.iff(a.next.optionsTerminated, b.next.optionsTerminated)));
  V.assert("same-state", state(a.next.state, b.next.state)); V.cover("success");
}
function step(kind) {
  return (V) => {
    const vp = fixedParser(V), h = V.oneOf("hidden", [true, "usage", "doc", "help", false]);
    let fmt; const pick = V.oneOf; const once = { ...V, oneOf: (n, l) => n === "format" ? fmt ??= pick(n, l) : pick(n, l) };
    const p = PRIMS[kind](once, vp, { hidden: h }), q = PRIMS[kind](once, vp, {});
    const done = V.flag("done"), prior = kind === "passThrough" ? (done ? ["--earlier=1"] : []) : done ? { success: true, value: true } : undefined;
    const c = ctxOf(V, p, prior), a = p.parse(c), b = q.parse({ ...c, usage: q.usage });
    sameStep(V, a, b, (x, y) => kind === "passThrough" ? V.seqEq(x, y) : x === y || x !== undefined && y !== undefined && x.success === y.success && (x.value === y.value || typeof x.value === "boolean" && V.truthy(V.same(x.value, y.value))));
    V.assert("same-start", p.initialState === q.initialState || Array.isArray(p.initialState) && p.initialState.length === q.initialState.length || p.initialState?.success === true && q.initialState?.success === true && p.initialState.value === q.initialState.value);
    V.assert("same-names-and-priority", p.priority === q.priority && [...p.leadingNames].join(" ") === [...q.leadingNames].join(" ") && p.acceptingAnyToken === q.acceptingAnyToken);
  };
}
function wrapperStep(kind) {
  return (V) => {
    const child = childParser(V, { name: "child", pure: true, alwaysCompletes: true, ...(kind === "object" ? { budget: { left: 2 } } : {}) }), h = V.oneOf("hidden", [true, "usage", "doc", "help", false]), C = V.mod(CO);
    const make = (o) => kind === "group" ? C.group("G", child, o) : kind === "object" ? C.object({ f: child }, o) : V.mod(PR).command("go", child, o);
    const p = make({ hidden: h }), q = make({}), started = V.flag("started"), inner = V.token("inner");
    const state = kind === "group" ? inner : kind === "object" ? (started ? { f: inner } : p.initialState) : started ? ["parsing", inner] : undefined;
    const c = ctxOf(V, p, state), a = p.parse(c), b = q.parse({ ...c, usage: q.usage });
    sameStep(V, a, b, (x, y) => kind === "group" ? x === y : kind === "object" ? x.f === y.f : x === y || Array.isArray(x) && Array.isArray(y) && x.length === y.length && x.every((e, i) => e === y[i]));
    V.assert("same-names-and-priority", p.priority === q.priority && [...p.leadingNames].join(" ") === [...q.leadingNames].join(" ") && p.acceptingAnyToken === q.acceptingAnyToken);
  };
}
// ---- usage trees ----
const LEAF = (V, i) => {
  const k = V.pick("leaf" + i, 4), hidden = V.oneOf("leaf" + i + ".hidden", [undefined, true, "usage", "doc", "help"]), w = "n" + i;
  return { word: k === 3 ? undefined : (k === 0 ? "--" : "") + w, hidden, t: { ...(k === 0 ? { type: "option", names: ["--" + w] } : k === 1 ? { type: "argument", metavar: w } : k === 2 ? { type: "command", name: w } : { type: "passthrough" }), ...opt(hidden) } };
};
const place = (V) => V.oneOf("place", ["usage", "doc"]);
// the tree without the items hidden in that place; an alternative that starts with a hidden command goes with it
function pruned(u, where) {
  const out = [];
  for (const t of u) {
    if ("hidden" in t && hides[where](t.hidden)) continue;
    if (t.type === "exclusive") { const bs = t.terms.filter((b) => !(b[0]?.type === "command" && hides[where](b[0].hidden))).map((b) => pruned(b, where)).filter((b) => b.length > 0); if (bs.length) out.push({ ...t, terms: bs }); }
    else if (t.terms) { const ts = pruned(t.terms, where); if (ts.length) out.push({ ...t, terms: ts }); }
    else out.push(t);
  }
  return out;
}
function tree(V) {
  const a = LEAF(V, 0), b = LEAF(V, 1), form = V.oneOf("form", ["flat", "optional", "multiple", "multiple0", "sequence", "exclusive", "exclusive-pairs", "optional-in-exclusive", "exclusive-in-optional"]);
  const A = a.t, B = b.t, lit = { type: "literal", value: "lit" };
  const u = { flat: [A, B], optional: [{ type: "optional", terms: [A, B] }], multiple: [{ type: "multiple", min: 2, terms: [A] }, B], multiple0: [{ type: "multiple", min: 0, terms: [A, B] }], sequence: [{ type: "sequence", terms: [A, lit] }, B], exclusive: [{ type: "exclusive", terms: [[A], [B]] }], "exclusive-pairs": [{ type: "exclusive", terms: [[A, lit], [B]] }], "optional-in-exclusive": [{ type: "exclusive", terms: [[{ type: "optional", terms: [A] }], [B, lit]] }], "exclusive-in-optional": [{ type: "optional", terms: [{ type: "exclusive", terms: [[A], [B], [lit]] }] }] }[form];
  return { u, leaves: [a, b], form };
}
function usageTree(V) {
  const U = V.mod(US), { u, leaves, form } = tree(V), options = V.oneOf("options", [{}, { expandCommands: true }, { colors: true, maxWidth: 12 }]);
  const out = U.formatUsage("prog", u, options), plain = out.replace(/\x1b\[\d+m/g, "");
  V.assert("as-if-hidden-items-were-not-there", out === U.formatUsage("prog", pruned(u, "usage"), options));
  for (const x of leaves) if (x.word) {
    const swallowed = form === "exclusive-pairs" && false;
    V.assert("shown-exactly-unless-hidden", shows(plain, x.word) === (!hides.usage(x.hidden) && !swallowed));
  }
  V.cover(shows(plain, "n0") ? "shown" : "hidden");
}
function termIn(V) {
  const U = V.mod(US), { u, leaves } = tree(V), context = place(V);
  const out = u.map((t) => U.formatUsageTerm(t, { context })).filter((s) => s !== ""), want = pruned(u, context).map((t) => U.formatUsageTerm({ ...t }, { context }));
  V.assert("as-if-hidden-items-were-not-there", out.length === want.length && out.every((s, i) => s === want[i]));
  for (const x of leaves) if (x.word) V.assert("shown-exactly-unless-hidden-there", out.some((s) => shows(s, x.word)) === !hides[context](x.hidden));
  V.cover(out.length ? "shown" : "nothing");
}
// ---- documentation pages ----
function entryOf(V, i) { const k = V.pick("entry" + i, 3), h = V.oneOf("entry" + i + ".hidden", LEVELS), n = V.oneOf("entry" + i + ".name", ["aa", "bb"]); return { term: { ...(k === 0 ? { type: "option", names: ["--" + n] } : k === 1 ? { type: "argument", metavar: n } : { type: "command", name: n }), ...opt(h) }, description: desc("D" + i) }; }
const keyOf = (e) => e.term.type + ":" + (e.term.names?.[0] ?? e.term.metavar ?? e.term.name);
// visible entries in order, each surface form once (positional arguments are told apart by position)
function keep(list) { const seen = new Set(); return list.filter((e) => { if (hides.doc(e.term.hidden)) return false; if (e.term.type === "argument") return true; if (seen.has(keyOf(e))) return false; seen.add(keyOf(e)); return true; }); }
function dedupe(V) {
  const D = V.mod(DOC), es = [entryOf(V, 0), entryOf(V, 1), entryOf(V, 2)];
  const out = D.deduplicateDocEntries(es), want = keep(es);
  V.assert("visible-entries-once-in-order", out.length === want.length && out.every((e, i) => e === want[i]));
  const split = V.pick("fragments", 4), [a, b, c] = es;
  const frags = split === 0 ? es.map((e) => ({ type: "entry", ...e })) : split === 1 ? [{ type: "section", entries: [a, b] }, { type: "entry", ...c }] : split === 2 ? [{ type: "section", title: "T", entries: [a] }, { type: "entry", ...b }, { type: "section", title: "T", entries: [c] }] : [{ type: "section", title: "T", entries: [a] }, { type: "section", title: "U", entries: [b, c] }];
  const fr = D.deduplicateDocFragments(frags), flat = fr.flatMap((f) => f.type === "entry" ? [["", f]] : f.entries.map((e) => [f.title ?? "", e])), id = (e) => text(e.description);
  const groups = split < 2 ? [["", [a, b, c]]] : split === 2 ? [["T", [a, c]], ["", [b]]] : [["T", [a]], ["U", [b, c]]];
  for (const [title, list] of groups) V.assert("fragments-keep-visible-entries", flat.filter(([t]) => t === title).map(([, e]) => id(e)).join() === keep(list).map(id).join());
  V.assert("no-empty-section", fr.every((f) => f.type === "entry" || f.entries.length > 0));
  V.cover(want.length ? "kept" : "nothing");
}
function rendered(V) {
  const es = [entryOf(V, 0), entryOf(V, 1)], titled = V.flag("titled"), page = { sections: [{ ...(titled ? { title: "SECT" } : {}), entries: es }], usage: [es[0].term, es[1].term] }, man = V.flag("man");
  const out = man ? V.mod(MAN).formatDocPageAsMan(page, { name: "prog", section: 1 }) : V.mod(DOC).formatDocPage("prog", page, { showUsage: false });
  es.forEach((e, i) => V.assert("entry-shown-exactly-unless-hidden", shows(out, "D" + i) === !hides.doc(e.term.hidden)));
  if (titled) V.assert("no-heading-over-nothing", shows(out, "SECT") === es.some((e) => !hides.doc(e.term.hidden)));
  if (!man) { const line = V.mod(DOC).formatDocPage("prog", { sections: [], usage: page.usage }); const vis = es.filter((e) => !hides.usage(e.term.hidden)).map((e) => keyOf(e).split(":")[1]); V.assert("usage-line-agrees", line.replace(/\s+/g, " ").trim().split(" ").sort().join(" ") === ["Usage:", "prog", ...vis].sort().join(" ")); }
  V.cover(man ? "man" : "text");
}
// ---- the requests a runner adds ----
function metaRequests(V) {
  const h = V.oneOf("hidden", LEVELS), as = V.oneOf("as", ["option", "command"]), P = V.mod(PR), C = V.mod(CO);
  const prog = C.or(C.object({ act: P.command("run", P.constant(1), { description: desc("DRUN") }) }), C.object({ w: P.flag("--warp") }));
  const ask = (args) => { let out = "", err = ""; const end = {}; const r = (() => { try { return V.mod(FA).runParser(prog, "prog", args, { help: { [as]: { names: as === "option" ? ["--help"] : ["help"] }, onShow: () => end, ...{} }, version: { value: "1.0", [as]: { names: as === "option" ? ["--version"] : ["version", "ver"], hidden: h }, onShow: () => end }, completion: { command: true, onShow: () => end }, stdout: (s) => { out += s + "\n"; }, stderr: (s) => { err += s + "\n"; }, onError: () => end }); } catch (e) { V.fail("does-not-throw"); } })(); return { out, err, end: r === end }; };
  const name = as === "option" ? "--version" : "version", help = ask([as === "option" ? "--help" : "help"]);
  V.assert("help-shown", help.end && shows(help.out, "prog"));
  const usage = help.out.split("\n").filter((l) => /^(Usage:)?\s+prog/.test(l) || l.startsWith("Usage")).join("\n"), body = help.out.split("\n").filter((l) => l.includes("Show version")).join("\n");
  V.assert("in-usage-unless-hidden-there", shows(usage, name) === !hides.usage(h));
  V.assert("in-documentation-unless-hidden-there", (body !== "") === !hides.doc(h));
  V.assert("hidden-aliases-never-shown", !/\bver\b/.test(help.out));
  const comp = ask(["completion", "bash", as === "option" ? "--" : ""]);
  V.assert("suggested-unless-hidden-there", shows(comp.out, name) === (as === "option" && !hides.suggestion(h)));
  V.assert("hidden-aliases-never-suggested", !/\bver\b/.test(comp.out));
  for (const w of as === "option" ? ["--version"] : ["version", "ver"]) V.assert("still-recognised", ask([w]).out === "1.0\n");
  V.cover("asked");
}
const T = (f, ...n) => n.map((x) => f + "#" + x);
const c = (id, use, targets, run, covers, o = {}) => ({ id: "hidden/" + id, prop: "C26", use, targets, covers, models: {}, trusted: [], run, ...o });
const WHOLE = [US, DOC, PA, PR, CO, MO, VP];
export const contracts = [
  c("levels", [US], T(US, "isUsageHidden", "isDocHidden", "isSuggestionHidden", "mergeHidden"), levels, ["hidden", "shown"]),
  ...Object.keys(PRIMS).map((k) => c("step/" + k, [PR], T(PR, k === "negatable" ? "negatableFlag" : k === "boolean" ? "option" : k), step(k), ["success", "failure"], { models: errModels, trusted: [errTrust] })),
  ...["group", "object", "command"].map((k) => c("step/" + k, [PR, CO], T(k === "command" ? PR : CO, k), wrapperStep(k), ["success", "failure"], { models: errModels, trusted: [errTrust], ...(k === "object" ? { bounded: "one field, two steps" } : {}) })),
  ...Object.keys(KINDS).map((k) => c("everywhere/" + k, WHOLE, [...T(US, "formatUsage", "formatUsageTerm", "extractOptionNames", "extractCommandNames"), ...T(PA, "getDocPage", "suggestSync", "parseSync"), ...T(CO, "group", "object", "merge")], everyPlace(k), ["hidden", "shown", "parsed", ...(k === "passThrough" ? [] : ["suggestions"])], { bounded: "every pair of levels; one item of each kind in twelve surroundings under four wrappers; fixed names and command lines", budgetMs: 400000, native: { runs: 400 } })),
  c("usage-tree", [US], T(US, "formatUsage"), usageTree, ["shown", "hidden"], { bounded: "two items in nine forms of usage, every level" }),
  c("term", [US], T(US, "formatUsageTerm"), termIn, ["shown", "nothing"], { bounded: "two items in nine forms of usage, every level" }),
  c("entries", [DOC], T(DOC, "deduplicateDocEntries", "deduplicateDocFragments", "isDocEntryHidden"), dedupe, ["kept", "nothing"], { bounded: "three entries", budgetMs: 400000 }),
  c("pages", [DOC, MAN], [...T(DOC, "formatDocPage"), ...T(MAN, "formatDocPageAsMan")], rendered, ["man", "text"], { bounded: "two entries in one section" }),
  c("requests", [FA, PR, CO], T(FA, "runParser"), metaRequests, ["asked"], { bounded: "one program, the version request under every level" }),
];
