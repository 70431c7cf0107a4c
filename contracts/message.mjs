// Formatting messages: every term's text in order, styles closed, wrapping only moves line breaks.
import { MSG, VA } from "./_h.mjs";
const widths = { "core/src/displaywidth.ts#getDisplayWidth": (V, s) => { const w = V.uf("width", "num", s); V.assume(w >= 0); return w; } };
const trustW = "getDisplayWidth through the contract 'a non-negative number that depends on the text alone' (it only decides where lines may break)";
const ESC = "\u001b", WPOOL = ["a", "--foo", "FOO", "a b", "", "한글", "x\"y", "\\", "it's", "`", "long-long-long-value"];
const noEsc = { re: /^[^\u001b]*$/, pool: WPOOL };
const RE = /^[^\u001b]*$/;
function term(V, i, nl, most = 3) {
  const S = (n) => V.str(n + i, noEsc), list = (n) => { const k = V.pick(n + ".count" + i, most + 1), o = []; for (let j = 0; j < k; j++) o.push(V.str(`${n}${i}_${j}`, noEsc)); return o; };
  const k = V.pick("term" + i, nl ? 9 : 8);
  switch (k) {
    case 0: { const t = V.oneOf("text" + i, ["plain words here", " x", "y ", " "]); return { t: { type: "text", text: t }, texts: [t] }; }
    case 1: { const s = S("optionName"); return { t: { type: "optionName", optionName: s }, texts: [s] }; }
    case 2: { const s = list("optionNames"); return { t: { type: "optionNames", optionNames: s }, texts: s, sep: "/" }; }
    case 3: { const s = S("metavar"); return { t: { type: "metavar", metavar: s }, texts: [s] }; }
    case 4: { const s = S("value"); return { t: { type: "value", value: s }, texts: [s], json: true }; }
    case 5: { const s = list("values"); return { t: { type: "values", values: s }, texts: s, sep: " ", json: true }; }
    case 6: { const s = S("envVar"); return { t: { type: "envVar", envVar: s }, texts: [s] }; }
    case 7: { const s = S("commandLine"); return { t: { type: "commandLine", commandLine: s }, texts: [s] }; }
    default: return { t: { type: "lineBreak" }, texts: ["\n"] };
  }
}
function messageOf(V, max, nl = true, most = 3) { const n = V.pick("terms", max + 1), ts = []; for (let i = 0; i < n; i++) ts.push(term(V, i, nl, most)); return ts; }
// A terminal: text without its styling, whether a style is on at the end, and what directly follows each reset.
function terminal(V, out) {
  let plain = "", mode = "text", seq = "", style = false, link = false, unknown = false; const opened = [];
  const trail = []; // text segments after which styling was still on etc. are of no interest: only the end is
  for (const g of V.segments(out)) {
    if (V.isSymbolic(g)) { if (mode === "text") { plain = plain + g; continue; } if (mode === "osc") { seq = seq + g; continue; } unknown = true; continue; }
    for (const ch of g) {
      if (mode === "text") { if (ch === ESC) { mode = "esc"; } else plain = plain + ch; }
      else if (mode === "esc") { if (ch === "[") { mode = "csi"; seq = ""; } else if (ch === "]") { mode = "osc"; seq = ""; } else unknown = true; }
      else if (mode === "csi") { if (ch === "m") { mode = "text"; if (seq === "0" || seq === "") style = false; else style = true; opened.push(seq); } else if ((ch >= "0" && ch <= "9") || ch === ";") seq += ch; else unknown = true; }
      else if (mode === "osc") { if (ch === ESC) mode = "st"; else if (ch === "\u0007") { mode = "text"; link = !V.truthy(V.same(seq, "8;;")); } else seq = seq + ch; }
      else if (mode === "st") { if (ch === "\\") { mode = "text"; link = !V.truthy(V.same(seq, "8;;")); } else unknown = true; }
    }
  }
  void trail;
  return { plain, style, link, clean: !unknown && mode === "text", opened };
}
const fmt = (V, terms, o) => V.mod(MSG).formatMessage(terms.map((x) => x.t), o);
function colours(V) {
  const wrapped = V.flag("wrapped"), ts = messageOf(V, wrapped ? 1 : 2), quotes = V.flag("quotes"), maxWidth = wrapped ? V.int("maxWidth", { min: 1, max: 200 }) : undefined;
  const o = maxWidth === undefined ? { quotes } : { quotes, maxWidth };
  const plain = fmt(V, ts, { ...o, colors: false });
  const t = terminal(V, fmt(V, ts, { ...o, colors: true }));
  V.assert("styling-sequences-well-formed", t.clean);
  V.assert("without-its-styling-the-same-text", V.same(t.plain, plain));
  V.assert("every-style-is-closed", !t.style && !t.link);
  const p = terminal(V, plain);
  V.assert("no-styling-without-colors", p.opened.length === 0 && !p.style && !p.link);
  V.cover(t.opened.length > 0 ? "styled" : "unstyled");
}
// One term after another: a reset suffix follows every reset, so the surrounding style is restored.
function suffix(V) {
  const ts = messageOf(V, 2), quotes = V.flag("quotes");
  const plain = fmt(V, ts, { quotes, colors: false });
  const t = terminal(V, fmt(V, ts, { quotes, colors: { resetSuffix: ESC + "[2m" } }));
  V.assert("styling-sequences-well-formed", t.clean);
  V.assert("without-its-styling-the-same-text", V.same(t.plain, plain));
  let bad = false; t.opened.forEach((s, i) => { if (s === "0" && t.opened[i + 1] !== "2") bad = true; });
  V.assert("suffix-follows-every-reset", !bad);
  V.assert("ends-in-the-surrounding-style", t.opened.length === 0 || t.opened[t.opened.length - 1] === "2");
  V.cover(t.opened.length > 0 ? "styled" : "unstyled");
}
function text(V) {
  const ts = messageOf(V, V.tier === "thorough" ? 3 : 2), quotes = V.flag("quotes");
  const out = fmt(V, ts, { quotes });
  // every text, in order, each found after the one before it
  let want = "";
  for (const x of ts) x.texts.forEach((s, j) => { if (j > 0) want = want + (x.sep ?? ""); want = want + (!quotes || x.t.type === "text" || x.t.type === "lineBreak" ? s : x.json ? JSON.stringify(s) : "`" + s + "`"); });
  V.assert("every-term-shown-in-order", V.same(out, want));
  V.cover(quotes ? "quoted" : "bare");
}
// Wrapping: the pieces of the unwrapped text, with line breaks put between some of them.
function wrap(V) {
  const ts = messageOf(V, 2, false, V.tier === "thorough" ? 3 : 2), quotes = false, colors = V.flag("colors"), maxWidth = V.int("maxWidth", { min: 0, max: 10000 }), startWidth = V.flag("indented") ? V.int("startWidth", { min: 0, max: 10000 }) : 0;
  const flat = fmt(V, ts, { quotes, colors });
  const out = fmt(V, ts, { quotes, colors, maxWidth, startWidth });
  let joined = "", breaks = 0;
  for (const g of V.segments(out)) { if (V.isSymbolic(g)) { joined = joined + g; continue; } for (const part of g.split("\n")) joined = joined + part; breaks += g.split("\n").length - 1; }
  let same = ""; for (const g of V.segments(flat)) { if (V.isSymbolic(g)) { same = same + g; continue; } for (const part of g.split("\n")) same = same + part; }
  V.assert("only-line-breaks-added", V.same(joined, same));
  V.cover(breaks > 0 ? "wrapped" : "one-line");
}
// Text terms, every text over a small alphabet up to a length: no visible character lost, added or moved.
const ALPHA = ["a", "b", " ", "\n", "\t", "한"];
function texts(V) {
  const m = V.mod(MSG), len = V.tier === "thorough" ? 7 : 6;
  const bare = (s) => s.replace(/\s/g, ""); let bad;
  const all = function* (k) { if (k === 0) { yield ""; return; } for (const p of all(k - 1)) for (const c of ALPHA) yield p + c; };
  for (let k = 0; k <= len && !bad; k++) for (const s of all(k)) {
    for (const [before, o] of [[[], {}], [[{ type: "lineBreak" }], {}], [[], { maxWidth: 3 }], [[{ type: "optionName", optionName: "-o" }], { colors: true, maxWidth: 4 }]]) {
      const out = m.formatMessage([...before, { type: "text", text: s }, { type: "metavar", metavar: "X" }], { quotes: false, ...o });
      const pre = before.map((t) => t.type === "lineBreak" ? "\n" : "-o").join("");
      const plain = out.replace(/\u001b\[[0-9;]*m/g, "");
      if (bare(plain) !== bare(pre + s + "X")) bad = JSON.stringify([s, before, o, out]);
      // words stay apart: a blank between two visible characters never disappears
      const gap = (t) => t.trim().split(/\s+/).filter(Boolean).join("|");
      if (!bad && before.length === 0 && /\S/.test(s) && gap(plain.slice(0, plain.lastIndexOf("X"))) !== gap(s)) bad = JSON.stringify(["words", s, o, out]);
    }
    if (bad) break;
  }
  V.note("text", bad);
  V.assert("no-visible-character-lost-added-or-moved", bad === undefined);
  V.cover("enumerated");
}
function links(V) {
  const ts = [term(V, 0, true), { t: { type: "url", url: new URL(V.oneOf("url", ["https://example.com/", "https://example.com/a?b=c#d", "mailto:x@example.com"])) }, texts: [] }, term(V, 1, true)];
  const quotes = V.flag("quotes"), o = { quotes };
  const plain = fmt(V, ts, { ...o, colors: false }), t = terminal(V, fmt(V, ts, { ...o, colors: true }));
  V.assert("styling-sequences-well-formed", t.clean);
  V.assert("without-its-styling-the-same-text", V.same(t.plain, plain));
  V.assert("every-style-and-link-is-closed", !t.style && !t.link);
  V.assert("address-shown", V.truthy(plain.includes(ts[1].t.url.href)));
  V.cover("linked");
}
function unknownTerm(V) {
  const k = V.pick("colors", 2); let threw = false;
  try { V.mod(MSG).formatMessage([{ type: V.str("type", { re: /^[0-9]+$/, pool: ["1", "42"] }) }], { colors: k === 1 }); } catch (e) { threw = e instanceof TypeError; }
  V.assert("unknown-terms-are-reported-not-dropped", threw); V.cover("reported");
}
// message`…`: the literal pieces and the interpolated values, in order, nothing lost.
function template(V) {
  const { message, formatMessage } = V.mod(MSG);
  const lit = V.oneOf("literals", [["a ", " b ", " c"], ["", "", ""], ["x", "", "y"]]); const strings = Object.assign([...lit], { raw: lit });
  const vals = [], want = [];
  for (let i = 0; i < 2; i++) {
    const s = V.str("v" + i, noEsc); want.push({ type: "text", text: lit[i] });
    switch (V.pick("kind" + i, 4)) {
      case 0: vals.push(s); want.push({ type: "value", value: s }); break;
      case 1: vals.push({ type: "optionName", optionName: s }); want.push({ type: "optionName", optionName: s }); break;
      case 2: { const l = [{ type: "metavar", metavar: s }, { type: "value", value: s }]; vals.push(l); want.push(...l); break; }
      default: vals.push([]); break;
    }
  }
  want.push({ type: "text", text: lit[2] });
  const m = message(strings, ...vals);
  const flat = (l) => { let out = ""; for (const t of l) out = out + (t.type === "text" ? t.text : t.type === "value" ? t.value : t.type === "metavar" ? t.metavar : t.optionName); return out; };
  V.assert("pieces-and-values-in-order", V.same(flat(m), flat(want)));
  const kinds = (l) => l.filter((t) => t.type !== "text").map((t) => t.type).join();
  V.assert("terms-keep-their-kind", kinds(m) === kinds(want));
  V.assert("shown-in-order", V.same(formatMessage(m, { quotes: false }), formatMessage(want, { quotes: false })));
  V.cover("built");
}
const FM = ["core/src/message.ts#formatMessage"];
const c = (id, run, covers, o = {}) => ({ id: "message/" + id, prop: "C16", use: [MSG], targets: FM, covers, models: widths, trusted: [trustW], run, ...o });
const b2 = "messages of up to two terms, lists of up to three names or values (any text in each)", b3 = b2.replace("two terms", "two terms (three when thorough)");
export const contracts = [
  c("colours", colours, ["styled", "unstyled"], { bounded: b2, native: { runs: 3000 } }),
  c("reset-suffix", suffix, ["styled", "unstyled"], { bounded: b2, native: { runs: 2000 } }),
  c("text", text, ["quoted", "bare"], { bounded: b3, native: { runs: 2000 } }),
  c("wrap", wrap, ["wrapped", "one-line"], { bounded: b2, native: { runs: 3000 } }),
  c("links", links, ["linked"], { bounded: "three terms, three addresses" }),
  c("unknown-term", unknownTerm, ["reported"]),
  c("template", template, ["built"], { targets: ["core/src/message.ts#message"], bounded: "two interpolations of any text" }),
  c("texts", texts, ["enumerated"], { symbolic: false, native: { runs: 1 }, bounded: "every text of up to six characters over six characters (seven when thorough)" }),
];
