// Shell completion: records of suggestions, and scripts that call the program back.
const CM = "core/src/completion.ts", SHELLS = ["bash", "zsh", "fish", "nu", "pwsh"];
const POOL = ["--verbose", "a b", "it's", "\\", "\\'", "'\\''", "''", "", "a\tb", "a\nb", "a\rb", "x\u0000y", "src/*.ts", "a:b", "%3A", "%25", "%", "C:\\x", "$(id)", "`id`", "\"", "\u2018x\u2019", "\u201b", "a,b", ".ts", "..", "é", "--"];
const widths = { "core/src/displaywidth.ts#getDisplayWidth": (V, s) => { const w = V.uf("width", "num", s); V.assume(w >= 0); return w; } };
// ---- records
// How each shell's script takes a record apart (read from the scripts): separator of fields, fields of a literal and of a file record.
const SEP = { bash: "", zsh: "\u0000", fish: "\t", nu: "\t", pwsh: "\t" };
const blank = (s) => s.replace(/[\t\n\r\0]/g, " ");
function join(parts) { let s = ""; for (const p of parts) s = s + p; return s; }
// reads one record: field texts, then a field mark after each field
function reader(shell, fields) {
  const sep = SEP[shell];
  return { start: 0, accept: (q) => shell === "zsh" ? q === fields : q === fields - 1,
    step(q, ch) {
      if (ch === "\n" || ch === "\r") return undefined; // would end the record for the script
      if (sep !== "" && ch === sep) return q + 1 <= fields ? [q + 1, "\u0001"] : undefined;
      if (sep !== "" && ch === "\u0000") return undefined;
      return q < fields ? [q, ch] : undefined;
    } };
}
// a file record's directive: colon-separated, pattern and extensions percent-encoded
function directive(V, shell, fields) {
  const sep = SEP[shell];
  // state: colons seen so far; "p<n>…" while a percent sign is pending
  return { start: "0", accept: (q) => q === (sep === "" ? "4" : shell === "zsh" ? "f" + fields : "f" + (fields - 1)),
    loop: (q) => [q], loopExit: (q) => q,
    step(q, ch) {
      if (ch === "\n" || ch === "\r") return undefined;
      if (q[0] === "f") { const n = Number(q.slice(1)); if (ch === sep) return n + 1 <= fields ? ["f" + (n + 1), "\u0001"] : undefined; return n < fields ? [q, ch] : undefined; }
      if (q[0] === "p") { const k = q[1], seen = q.slice(2) + ch; if (seen === "25") return [k, "%"]; if (seen === "3A") return [k, ":"]; if (k === "2" && seen === "2C") return [k, ","]; return seen.length < 2 ? ["p" + k + seen, ""] : undefined; }
      if (sep !== "" && ch === sep) return q === "4" ? ["f1", "\u0001"] : undefined;
      if (ch === "\u0000" || ch === "\t") return undefined;
      if (ch === ":") return q < "4" ? [String(Number(q) + 1), "\u0002"] : undefined;
      if (ch === "%") return q === "2" || q === "3" ? ["p" + q, ""] : undefined;
      return [q, ch];
    } };
}
const notNul = (c) => true;
function chunks(V, shell, list) { return [...V.mod(CM)[shell].encodeSuggestions(list)]; }
const markerless = (V, s) => V.not(V.matches(s, /^__FILE__:/));
function literal(V) {
  const shell = V.oneOf("shell", SHELLS), text = V.str("text", { pool: POOL }), d0 = V.opt("described", () => V.str("description", { pool: POOL })), d = d0 === undefined ? undefined : [{ type: "metavar", metavar: d0 }];
  V.assume(markerless(V, text));
  const out = chunks(V, shell, [{ kind: "literal", text, ...(d ? { description: d } : {}) }]);
  V.assert("one-chunk-per-suggestion", out.length === 1);
  const fields = shell === "bash" ? 1 : shell === "pwsh" ? 3 : 2;
  const desc = d ? "`" + d0 + "`" : "";
  const t = blank(text), parts = shell === "bash" ? [t] : shell === "zsh" ? [t, "\u0001", blank(desc), "\u0001"] : shell === "pwsh" ? [t, "\u0001", t, "\u0001", blank(desc)] : [t, "\u0001", blank(desc)];
  V.decodes("one-record-with-its-fields", out[0], reader(shell, fields), parts, notNul);
  V.assert("never-taken-for-a-file-directive", V.not(out[0].startsWith("__FILE__:")));
  V.cover(shell);
}
function file(V) {
  const shell = V.oneOf("shell", SHELLS), type = V.oneOf("type", ["file", "directory", "any"]), hidden = V.oneOf("hidden", [undefined, false, true]);
  const n = V.pick("extensions", 3), exts = []; for (let i = 0; i < n; i++) exts.push(V.str("ext" + i, { re: /^[^.]/, pool: POOL }));
  const pattern = V.opt("pattern", () => V.str("pattern", { pool: POOL })), d0 = V.opt("described", () => V.str("description", { pool: POOL })), d = d0 === undefined ? undefined : [{ type: "metavar", metavar: d0 }];
  const out = chunks(V, shell, [{ kind: "file", type, ...(n > 0 || V.flag("noext") ? { extensions: exts } : {}), ...(pattern !== undefined ? { pattern } : {}), ...(hidden !== undefined ? { includeHidden: hidden } : {}), ...(d ? { description: d } : {}) }]);
  V.assert("one-chunk-per-suggestion", out.length === 1);
  const fields = shell === "bash" ? 1 : shell === "pwsh" ? 3 : 2, desc = d ? "`" + d0 + "`" : "";
  const ep = []; exts.forEach((e, i) => { if (i > 0) ep.push(","); ep.push(blank(e)); });
  const dir = ["__FILE__", "\u0002", type, "\u0002", ...ep, "\u0002", blank(pattern ?? ""), "\u0002", hidden ? "1" : "0"];
  const parts = shell === "bash" ? dir : shell === "zsh" ? [...dir, "\u0001", blank(desc), "\u0001"] : shell === "pwsh" ? [...dir, "\u0001", "[file]", "\u0001", blank(desc)] : [...dir, "\u0001", blank(desc)];
  V.decodes("one-directive-with-its-fields", out[0], directive(V, shell, fields), parts, notNul);
  V.cover(shell);
}
// A leading dot of an extension is not part of it.
function dots(V) {
  const shell = V.oneOf("shell", SHELLS), e = V.str("ext", { re: /^[^.]/, pool: [".ts", "ts", "a:b", ".", "tar.gz"] });
  const enc = (x) => chunks(V, shell, [{ kind: "file", type: "file", extensions: [x] }])[0];
  V.assert("leading-dot-ignored", V.same(enc("." + e), enc(e))); V.cover("dotted");
}
// Several suggestions: as many records as suggestions, in order, whether the chunks are joined or each is written on a line of its own.
function several(V) {
  const shell = V.oneOf("shell", SHELLS), n = V.pick("count", 4), list = [];
  for (let i = 0; i < n; i++) list.push(V.flag("file" + i) ? { kind: "file", type: "file", pattern: "p" + i } : { kind: "literal", text: V.str("t" + i, { nonEmpty: true, pool: POOL }) });
  for (const s of list) if (s.kind === "literal") V.assume(markerless(V, s.text));
  const each = list.map((s) => join(chunks(V, shell, [s]))), all = chunks(V, shell, list);
  V.assert("records-apart", V.same(join(all), join(shell === "zsh" ? each : each.flatMap((r, i) => i > 0 ? ["\n", r] : [r]))));
  const lines = all.filter((c) => !(V.isSymbolic(c) ? false : c === "\n"));
  V.assert("one-chunk-per-record", lines.length === n && V.and(...lines.map((c, i) => V.same(c, each[i]))));
  V.cover("count" + n);
}
// A literal whose text is that of a directive (recorded as a known finding).
function marker(V) {
  const shell = V.oneOf("shell", SHELLS), rest = V.str("rest", { pool: ["file::x:0", "", "any:::1"] });
  const out = chunks(V, shell, [{ kind: "literal", text: "__FILE__:" + rest }]);
  V.assert("never-taken-for-a-file-directive", V.not(out[0].startsWith("__FILE__:"))); V.cover("marker");
}
// ---- scripts
const SAFE = /^[a-zA-Z0-9_][a-zA-Z0-9_.\-]*$/;
function program(V) {
  const shell = V.oneOf("shell", SHELLS), s = V.str("program", { pool: [...POOL, "app", "my-app", "my.app", "-x", "_a", "a\n", "app;id", "app b"] });
  let ok = true, script; try { script = V.mod(CM)[shell].generateScript(s); } catch (e) { ok = false; if (!(e instanceof Error)) throw e; }
  V.assert("only-plain-names-get-into-a-script", V.iff(ok, V.matches(s, SAFE)));
  if (ok) { V.assert("names-the-program", V.truthy(script.includes(s))); V.cover("accepted"); } else V.cover("rejected");
}
// How each shell reads its words: the words of the call that follow the program's name.
const sh = { start: "gap", accept: (q) => q === "word" || q === "gap", step(q, ch) { // POSIX single quotes (bash, zsh)
  if (q === "quote") return ch === "'" ? ["word", ""] : ["quote", ch];
  if (q === "esc") return ["word", ch];
  if (ch === "'") return ["quote", ""]; if (ch === "\\") return ["esc", ""];
  if (ch === " ") return q === "word" ? ["gap", "\u0001"] : undefined;
  return undefined; }, loop: (q) => ["quote"] };
const fishM = { start: "gap", accept: (q) => q === "word" || q === "gap", step(q, ch) { // inside single quotes \' and \\ are escapes, any other backslash is itself
  if (q === "quote") return ch === "'" ? ["word", ""] : ch === "\\" ? ["bs", ""] : ["quote", ch];
  if (q === "bs") return ch === "'" || ch === "\\" ? ["quote", ch] : undefined;
  if (ch === "'") return ["quote", ""]; if (ch === " ") return q === "word" ? ["gap", "\u0001"] : undefined; return undefined; }, loop: (q) => ["quote"] };
const doubling = (isQuote, sep) => ({ start: "gap", accept: (q) => q === "end" || q === "gap", step(q, ch) { // a doubled quote stands for itself; any of the quote characters ends the string
  if (q === "quote") return isQuote(ch) ? ["end:" + ch, ""] : ["quote", ch];
  if (q.startsWith("end:")) { if (isQuote(ch)) return ["quote", q.slice(4)]; q = "end"; }
  if (q === "gap") return ch === "'" ? ["quote", ""] : undefined;
  if (ch === sep[0]) return sep.length > 1 ? ["comma", ""] : ["gap", "\u0001"];
  if (q === "comma" && ch === " ") return ["gap", "\u0001"];
  return undefined; }, loop: (q) => ["quote"] });
const MACHINE = { bash: sh, zsh: sh, fish: fishM, nu: doubling((c) => c === "'", " "), pwsh: doubling((c) => c === "'" || (c >= "\u2018" && c <= "\u201b"), ", ") };
for (const k of ["nu", "pwsh"]) MACHINE[k].accept = (q) => q === "gap" || q.startsWith("end");
function args(V) {
  const shell = V.oneOf("shell", SHELLS), n = V.pick("count", 2) + 1, as = [], m = V.mod(CM);
  for (let i = 0; i < n; i++) as.push(V.str("arg" + i, { pool: POOL }));
  for (const a of as) V.assume(V.not(V.matches(a, /\0/))); // no program can be given such an argument
  const MARK = "PLACEHOLDER", frame = m[shell].generateScript("app", [MARK]).split(`'${MARK}'`);
  V.assert("arguments-appear", frame.length > 1 && frame.every((f) => !f.includes(MARK)));
  const script = m[shell].generateScript("app", as), segs = V.segments(script);
  // what stands between the first two pieces of the frame
  let body = "", on = false, off = false;
  V.assert("rest-of-the-script-unchanged", V.truthy(script.startsWith(frame[0])));
  for (let i = 0; i < segs.length && !off; i++) {
    let g = segs[i];
    if (V.isSymbolic(g)) { if (on) body = body + g; continue; }
    if (!on) { if (!g.startsWith(frame[0])) break; on = true; g = g.slice(frame[0].length); }
    const k = g.indexOf(frame[1]); if (k >= 0) { off = true; g = g.slice(0, k); } body = body + g;
  }
  let whole = frame[0]; for (let i = 1; i < frame.length; i++) whole = whole + body + frame[i];
  V.assert("rest-of-the-script-unchanged", V.same(script, whole));
  const parts = []; as.forEach((a, i) => { if (i > 0) parts.push("\u0001"); parts.push(a); });
  V.decodes("the-shell-reads-exactly-the-arguments", body, MACHINE[shell], parts, (c) => c !== "\u0000");
  V.cover(shell);
}
const noArgs = (V) => { const shell = V.oneOf("shell", SHELLS), m = V.mod(CM); V.assert("no-arguments-no-words", m[shell].generateScript("app") === m[shell].generateScript("app", [])); V.cover(shell); };
const c = (prop, id, run, covers, o = {}) => ({ id: "completion/" + id, prop, use: [CM], targets: SHELLS.map((s) => `${CM}#${s}.${prop === "C13" ? "encodeSuggestions" : "generateScript"}`), covers, models: widths, trusted: prop === "C13" ? ["the record reader in contracts/completion.mjs was written from the shell scripts' own parsing code"] : ["the quoting rules of each shell as stated by the readers in contracts/completion.mjs; Nushell reads a doubled single quote as one, as the repository's tests have it"], run, ...o });
export const contracts = [
  c("C13", "literal", literal, SHELLS),
  c("C13", "file", file, SHELLS, { bounded: "up to two extensions of any text" }),
  c("C13", "extension-dots", dots, ["dotted"]),
  c("C13", "several", several, ["count0", "count1", "count2", "count3"], { bounded: "up to three suggestions of any text" }),
  c("C13", "marker", marker, ["marker"]),
  c("C14", "program", program, ["accepted", "rejected"]),
  c("C14", "arguments", args, SHELLS, { bounded: "up to two arguments of any text" }),
  c("C14", "no-arguments", noArgs, SHELLS),
];
