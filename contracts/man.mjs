// Man pages: whatever text goes in, a formatter reading the page shows exactly that text.
const RO = "man/src/roff.ts", MA = "man/src/man.ts";
const POOL = ["a", ".TH x", "'br", "\\", "\\fB", "\\&", "-", "--foo", "a\"b", "\"", "a b", "\\n", ".", "'", "é", "\\-", "\\(dq", "a\\", "[x]", "...", " .x", "C:\\new"];
const LINE = { re: /^[^\n\r]+$/, pool: POOL }, LINE0 = { re: /^[^\n\r]*$/, pool: ["", ...POOL] };
// What a formatter makes of a page: the control character at the start of a line becomes REQ, an argument's quotation marks QUO, everything else is
// the text shown (an escape the generator uses stands for its character, one it does not use is an error).
const REQ = "\u0002", QUO = "\u0003";
const machine = (start = "bol") => ({ key: "roff", start, accept: (q) => q === "bol" || q === "txt" || q === "req", loop: (q) => [q],
  enter: (q) => q === "bol" ? { to: "txt", avoid: ".'" } : undefined,
  step(q, ch) {
    const [m, e] = q.split(":"), back = m;
    if (e === undefined) {
      if (ch === "\\") return [(m === "bol" ? "txt" : m) + ":\\", ""];
      if (ch === "\n") return ["bol", "\n"];
      if (m === "bol") return ch === "." ? ["req", REQ] : ch === "'" ? undefined : ["txt", ch];
      if (m === "req" && ch === "\"") return ["req", QUO];
      return [m, ch];
    }
    if (e === "\\") {
      if (ch === "\\") return m === "req" ? undefined : [back, "\\"]; // a request's argument is read twice
      if (ch === "&") return [back, ""]; if (ch === "-") return [back, "-"]; if (ch === "e") return m === "req" ? undefined : [back, "\\"];
      if (ch === "f") return [m + ":f", ""]; if (ch === "(") return [m + ":(", ""]; return undefined;
    }
    if (e === "f") return "BIRP".includes(ch) ? [back, ""] : undefined;
    if (e === "(") return [m + ":(" + ch, ""];
    const g = e.slice(1) + ch; return g === "dq" ? [back, "\""] : g === "rs" ? [back, "\\"] : g === "aq" ? [back, "'"] : undefined;
  } });
const shows = (V, name, out, parts) => V.decodes(name, out, machine(), parts, (c) => c !== "\n" && c !== "\r");
const ro = (V) => V.mod(RO), ma = (V) => V.mod(MA);
// ---- the escaping functions
function escapers(V) {
  const s = V.str("text", LINE0), w = V.oneOf("which", ["text", "text hyphens", "quoted", "argument", "argument hyphens"]), m = ro(V);
  const hy = (x) => w.endsWith("hyphens") ? m.escapeHyphens(x) : x;
  if (w.startsWith("text")) { const none = V.truthy(V.same(s, "")); shows(V, "shown-literally", hy(m.escapeRoff(s)), none ? [] : [s]); }
  else if (w === "quoted") { const out = m.escapeQuotedValue(s); shows(V, "shown-literally", "\"" + out + "\"", ["\"", s, "\""]); V.decodes("no-quotation-mark-left", out, { ...machine("txt"), key: "roff-unquoted", enter: undefined, step: (q, ch) => ch === "\"" ? undefined : machine().step(q, ch) }, [s], (c) => c !== "\n" && c !== "\r"); }
  else shows(V, "shown-literally", ".SH \"" + hy(m.escapeRequestArg(s)) + "\"", [REQ + "SH " + QUO, s, QUO]);
  V.cover(w.split(" ")[0]);
}
// ---- messages
const URLS = ["https://example.com/a-b.c", "http://x.org/\\foo", "https://e.com/?a='b'"];
function term(V, n, o = {}) {
  const S = (k) => V.str(k + n, LINE), list = (k) => { const c = V.pick(k + ".count" + n, 3), r = []; for (let i = 0; i < c; i++) r.push(V.str(`${k}${n}_${i}`, LINE)); return r; };
  const inter = (l, sep) => l.flatMap((x, i) => i > 0 ? [sep, x] : [x]);
  switch (o.only ?? V.oneOf("kind" + n, ["text", "optionName", "optionNames", "metavar", "value", "values", "envVar", "commandLine", "url"])) {
    case "text": { const x = S("text"); return [{ type: "text", text: x }, [x]]; }
    case "optionName": { const x = S("optionName"); return [{ type: "optionName", optionName: x }, [x]]; }
    case "optionNames": { const x = list("optionNames"); return [{ type: "optionNames", optionNames: x }, inter(x, ", ")]; }
    case "metavar": { const x = S("metavar"); return [{ type: "metavar", metavar: x }, [x]]; }
    case "value": { const x = S("value"); return [{ type: "value", value: x }, o.quotes === false ? [x] : ["\"", x, "\""]]; }
    case "values": { const x = list("values"); return [{ type: "values", values: x }, inter(x.map((v) => o.quotes === false ? [v] : ["\"", v, "\""]), [" "]).flat()]; }
    case "envVar": { const x = S("envVar"); return [{ type: "envVar", envVar: x }, [x]]; }
    case "commandLine": { const x = S("commandLine"); return [{ type: "commandLine", commandLine: x }, [x]]; }
    default: { const u = new URL(V.oneOf("url" + n, URLS)); return [{ type: "url", url: u }, [u.href]]; }
  }
}
function messages(V) {
  const n = V.pick("terms", 3), quotes = V.oneOf("quotes", [undefined, true, false]), ts = [], parts = [];
  for (let i = 0; i < n; i++) { const [t, p] = term(V, i, { quotes }); ts.push(t); parts.push(...p); }
  const out = ro(V).formatMessageAsRoff(ts, quotes === undefined ? undefined : { quotes });
  shows(V, "shown-literally", out, parts); V.cover(n > 0 ? "terms" : "empty");
}
// Texts with line breaks, on the real code: all short texts over the characters that mean something to a formatter.
function run(m, s) { let q = m.start, out = ""; for (const ch of s.split("")) { const r = m.step(q, ch); if (!r) return undefined; q = r[0]; out += r[1]; } return m.accept(q) ? out : undefined; }
const paras = (s) => s.replace(/\n\n+/g, `\n${REQ}PP\n`);
const CH = ["a", ".", "'", "\\", "\n", "-", "\"", "&", " "];
function breaks(V) {
  const m = ro(V), bad = (what, s) => { V.note("text", s); V.note("what", what); V.fail("shown-literally"); };
  const each = (len, f) => { const g = (p, k) => { f(p); if (k > 0) for (const c of CH) g(p + c, k - 1); }; g("", len); };
  let count = 0;
  each(5, (s) => {
    count++;
    const t = (x) => ({ type: "text", text: x }), L = { type: "lineBreak" };
    if (run(machine(), m.formatMessageAsRoff([t(s)])) !== paras(s)) bad("text", s);
    if (run(machine(), m.formatMessageAsRoff([t("x"), L, t(s)])) !== paras("x\n" + s)) bad("lineBreak", s);
    if (run(machine(), m.escapeRoff(s)) !== s) bad("escapeRoff", s);
    if (run(machine(), m.formatMessageAsRoff([{ type: "value", value: s }])) !== paras(`"${s}"`)) bad("value", s);
    if (run(machine(), m.formatMessageAsRoff([{ type: "commandLine", commandLine: s }, t("."), { type: "metavar", metavar: s }])) !== paras(`${s}.${s}`)) bad("commandLine", s);
    if (run(machine(), `.SH "${m.escapeRequestArg(s.replace(/&/g, "\r"))}"`) !== `${REQ}SH ${QUO}${s.replace(/&/g, "\r").replace(/\r\n|\r|\n/g, " ")}${QUO}`) bad("argument", s);
  });
  V.note("texts", count); V.cover("texts");
}
// ---- usage
const name = (V, n) => V.str(n, { re: /^[^\s\0]+$/, pool: ["--foo", "-f", "/x", "+x", "--a\\b", "--it's", ".x", "'y"] });
function usage(V, d, n, depth = 1) {
  const metavar = (k) => V.str(k + n, { re: /^[^\n\r]+$/, pool: POOL });
  switch (V.oneOf("term" + n, depth > 0 ? ["argument", "option", "command", "literal", "passthrough", "ellipsis", "optional", "multiple", "exclusive", "sequence"] : ["argument", "command", "literal"])) {
    case "argument": { const m = metavar("metavar"); return [{ type: "argument", metavar: m }, [m]]; }
    case "option": { const k = V.pick("names" + n, 2) + 1, ns = []; for (let i = 0; i < k; i++) ns.push(name(V, `name${n}_${i}`)); const m = V.opt("value" + n, () => metavar("metavar")); const inner = [...ns.flatMap((x, i) => i > 0 ? [d.names, x] : [x]), ...(m !== undefined ? [" ", m] : [])]; return [{ type: "option", names: ns, ...(m !== undefined ? { metavar: m } : {}) }, d.bare ? inner : ["[", ...inner, "]"]]; }
    case "command": { const x = name(V, "command" + n); return [{ type: "command", name: x }, [x]]; }
    case "literal": { const x = V.str("literal" + n, LINE); return [{ type: "literal", value: x }, [x]]; }
    case "passthrough": return [{ type: "passthrough" }, ["[...]"]];
    case "ellipsis": return [{ type: "ellipsis" }, ["..."]];
    case "optional": { const [t, p] = usage(V, d, n + "o", depth - 1); return [{ type: "optional", terms: [t] }, ["[", ...p, "]"]]; }
    case "multiple": { const [t, p] = usage(V, d, n + "m", depth - 1), min = V.pick("min" + n, 2); return [{ type: "multiple", min, terms: [t] }, min < 1 ? ["[", ...p, " ...]"] : [...p, " ..."]]; }
    case "exclusive": { const [t, p] = usage(V, d, n + "x", depth - 1), [u, r] = usage(V, d, n + "y", depth - 1); return [{ type: "exclusive", terms: [[t], [u]] }, ["(", ...p, " | ", ...r, ")"]]; }
    default: { const [t, p] = usage(V, d, n + "s", depth - 1), [u, r] = usage(V, d, n + "t", depth - 1); return [{ type: "sequence", terms: [t, u] }, [...p, " ", ...r]]; }
  }
}
function usages(V) { const [t, p] = usage(V, { names: " | " }, ""); shows(V, "shown-literally", "x " + ma(V).formatUsageTermAsRoff(t), ["x ", ...p]); V.cover(t.type); }
function synopsis(V) { const [t, p] = usage(V, { names: " | " }, ""); shows(V, "shown-literally", page(V, { usage: [t] }, {}), [...head("app", "APP"), "\n" + REQ + "SH SYNOPSIS\n" + REQ + "B " + QUO + "app" + QUO + "\n", ...p]); V.cover(t.type); }
// ---- pages
const text = (V, n, o = LINE) => V.str(n, o), msg = (x) => [{ type: "text", text: x }];
function page(V, p, o) { return ma(V).formatDocPageAsMan({ sections: [], ...p }, { name: "app", section: 1, ...o }); }
const head = (n, up) => [REQ + "TH " + QUO, up, QUO + " 1\n" + REQ + "SH NAME\n", n];
function header(V) {
  const n = text(V, "name"), date = V.opt("date", () => text(V, "date", LINE0)), version = V.opt("version", () => text(V, "version", LINE0)), manual = V.opt("manual", () => text(V, "manual", LINE0)), section = V.pick("section", 8) + 1;
  const out = page(V, {}, { name: n, section, date, version, manual });
  const on = (x) => x !== undefined && !V.truthy(V.same(x, "")), d = on(date), v = on(version), m = on(manual);
  const th = [REQ + "TH " + QUO, n.toUpperCase(), QUO + " " + section];
  if (d) th.push(" " + QUO, date, QUO); else if (v || m) th.push(" " + QUO + QUO);
  if (v) th.push(" " + QUO, n, " ", version, QUO); else if (m) th.push(" " + QUO + QUO);
  if (m) th.push(" " + QUO, manual, QUO);
  shows(V, "title-line", out, [...th, "\n" + REQ + "SH NAME\n", n]);
  V.cover(m ? "manual" : "short");
}
function front(V) {
  const n = text(V, "name"), where = V.oneOf("where", ["page", "options", "both"]), brief = V.opt("brief", () => text(V, "brief")), desc = V.opt("description", () => text(V, "description")), lit = V.opt("usage", () => text(V, "usage"));
  const own = (k, x) => x === undefined ? {} : { [k]: msg(x) }, other = (k) => ({ [k]: msg("other") });
  const pg = where === "page" ? { ...own("brief", brief), ...own("description", desc) } : where === "both" ? { ...other("brief"), ...other("description") } : {};
  const op = where === "page" ? {} : { ...own("brief", brief), ...own("description", desc) };
  const b = where === "both" && brief === undefined ? "other" : brief, d = where === "both" && desc === undefined ? "other" : desc;
  const out = page(V, { ...pg, ...(lit !== undefined ? { usage: [{ type: "literal", value: lit }] } : {}) }, { name: n, ...op });
  shows(V, "front-matter", out, [...head(n, n.toUpperCase()), ...(b !== undefined ? [" - ", b] : []), ...(lit !== undefined ? ["\n" + REQ + "SH SYNOPSIS\n" + REQ + "B " + QUO, n, QUO + "\n", lit] : []), ...(d !== undefined ? ["\n" + REQ + "SH DESCRIPTION\n", d] : [])]);
  V.cover(lit !== undefined ? "synopsis" : "none");
}
function entry(V, n, o = {}) {
  const [t, tp] = o.term ?? usage(V, { names: ", ", bare: true }, n), desc = V.opt("description" + n, () => text(V, "description" + n)), def = V.opt("default" + n, () => text(V, "default" + n)), ch = V.opt("choices" + n, () => text(V, "choice" + n));
  const e = { term: t, ...(desc !== undefined ? { description: msg(desc) } : {}), ...(def !== undefined ? { default: [{ type: "value", value: def }] } : {}), ...(ch !== undefined ? { choices: [{ type: "value", value: ch }] } : {}) };
  const tail = []; if (desc !== undefined) tail.push(desc); if (def !== undefined) tail.push((tail.length ? " " : "") + "[\"", def, "\"]"); if (ch !== undefined) tail.push((tail.length ? " " : "") + "(choices: ", ch, ")");
  return [e, [REQ + "TP\n", ...tp, ...(tail.length ? ["\n", ...tail] : [])]];
}
// An entry's term brackets its parts when it is a compound, except that an option standing alone as an entry has none.
function docTerm(V, n) {
  const k = V.oneOf("entry", ["plain", "compound"]);
  if (k === "plain") { for (;;) { const [t, p] = usage(V, { names: ", ", bare: true }, n); if (["optional", "multiple", "exclusive", "sequence"].includes(t.type)) V.skip("compound"); return [t, p]; } }
  const [t, p] = usage(V, { names: ", " }, n); if (!["optional", "multiple", "exclusive", "sequence"].includes(t.type)) V.skip("plain"); return [t, p];
}
function sections(V) {
  const title = V.opt("title", () => text(V, "title")), t = docTerm(V, "0"), [e, p] = entry(V, "0", { term: t }), n = V.oneOf("where", ["sections", "environment", "files", "exitStatus"]);
  if (n !== "sections" && t[0].type !== "literal") V.skip("one term kind elsewhere");
  const s = { ...(title !== undefined ? { title } : {}), entries: [e] };
  const out = n === "sections" ? page(V, { sections: [s] }, {}) : page(V, {}, { [n]: s });
  const heading = n === "sections" ? [REQ + "SH " + QUO, title !== undefined ? title.toUpperCase() : t[0].type === "command" ? "COMMANDS" : t[0].type === "argument" ? "ARGUMENTS" : "OPTIONS", QUO + "\n"] : [REQ + "SH " + { environment: "ENVIRONMENT", files: "FILES", exitStatus: "EXIT STATUS" }[n] + "\n"];
  shows(V, "entries", out, [...head("app", "APP"), "\n", ...heading, ...p]); V.cover(n);
}
function several(V) {
  const es = [], ps = []; for (let i = 0; i < 2; i++) { const l = text(V, "literal" + i), hidden = V.oneOf("hidden" + i, [undefined, true, "doc", "usage"]), [e, p] = entry(V, String(i), { term: [{ type: "argument", metavar: l, ...(hidden ? { hidden } : {}) }, [l]] }); es.push(e); if (hidden !== true && hidden !== "doc") ps.push(p); }
  const out = page(V, { sections: [{ entries: [] }, { title: "One", entries: es }] }, {});
  const body = ps.flatMap((p, i) => i > 0 ? ["\n", ...p] : p);
  shows(V, "entries-in-order", out, [...head("app", "APP"), ...(ps.length ? ["\n" + REQ + "SH " + QUO + "ONE" + QUO + "\n", ...body] : [])]); V.cover("shown" + ps.length);
}
function back(V) {
  const ks = ["examples", "bugs", "author", "footer"], pg = {}, op = {}, parts = [], see = V.pick("seeAlso", 3), refs = [];
  for (let i = 0; i < see; i++) refs.push({ name: text(V, "ref" + i), section: 1 + i });
  for (const k of ks) {
    const w = V.oneOf("where." + k, ["none", "page", "options"]), x = w === "none" ? undefined : text(V, k);
    if (w === "page") pg[k] = msg(x); if (w === "options") { op[k] = msg(x); pg[k] = msg("other"); }
    if (k === "author" && see) { parts.push("\n" + REQ + "SH SEE ALSO"); refs.forEach((r, i) => parts.push("\n" + REQ + "BR " + QUO, r.name, QUO + ` (${r.section})` + (i < see - 1 ? "," : ""))); }
    if (w !== "none") parts.push("\n" + REQ + { examples: "SH EXAMPLES", bugs: "SH BUGS", author: "SH AUTHOR", footer: "PP" }[k] + "\n", x);
  }
  shows(V, "back-matter", page(V, pg, { ...op, ...(see || V.flag("emptySee") ? { seeAlso: refs } : {}) }), [...head("app", "APP"), ...parts]); V.cover("see" + see);
}
const trust = ["what a roff formatter shows, as stated by the reader in contracts/man.mjs (\\\\, \\&, \\-, \\(dq, \\(rs, \\fX; '.' and ''' at the start of a line; an argument of a request is read twice)", "upper-casing a text introduces no line break (the reader's alphabet excludes line breaks)"];
const c = (id, run, covers, targets, o = {}) => ({ id: "man/" + id, prop: "C15", use: [RO, MA], targets, covers, trusted: trust, run, ...o });
const PG = [`${MA}#formatDocPageAsMan`, `${MA}#formatDocSectionEntries`, `${MA}#formatDocEntryTerm`, `${MA}#formatDocUsageTermAsRoff`];
export const contracts = [
  c("escapers", escapers, ["text", "quoted", "argument"], ["escapeRoff", "escapeQuotedValue", "escapeRequestArg", "escapeHyphens"].map((x) => `${RO}#${x}`)),
  c("message", messages, ["terms", "empty"], [`${RO}#formatMessageAsRoff`], { bounded: "messages of up to two terms of any text without line breaks" }),
  c("line-breaks", breaks, ["texts"], [`${RO}#formatMessageAsRoff`, `${RO}#escapeRoff`, `${RO}#escapeRequestArg`], { symbolic: false, native: { runs: 1, ms: 60000 }, bounded: "every text of up to five characters over nine" }),
  c("usage", usages, ["argument", "option", "command", "literal", "passthrough", "ellipsis", "optional", "multiple", "exclusive", "sequence"], [`${MA}#formatUsageTermAsRoff`], { bounded: "usage terms nested once" }),
  c("synopsis", synopsis, ["argument", "option", "command", "literal", "passthrough", "ellipsis", "optional", "multiple", "exclusive", "sequence"], PG, { bounded: "usage terms nested once" }),
  c("title", header, ["manual", "short"], PG),
  c("front", front, ["synopsis", "none"], PG),
  c("sections", sections, ["sections", "environment", "files", "exitStatus"], PG, { bounded: "one entry, its term nested once" }),
  c("entries", several, ["shown0", "shown1", "shown2"], PG, { bounded: "two entries" }),
  c("back", back, ["see0", "see1", "see2"], PG, { bounded: "up to two cross references" }),
];
