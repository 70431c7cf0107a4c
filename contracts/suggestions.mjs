// Did-you-mean suggestions.
import { SU } from "./_h.mjs";
const POOL = ["--verbose", "--verbos", "--Verbose", "build", "biuld", "b", "", "--help", "help", "--version", "--ver", "--verify", "É", "ab", "ba", "abc", "abcd"];
// The edit distance, by its recursive definition.
function distance(V, a, b) {
  const memo = new Map();
  const d = (i, j) => {
    if (i === 0) return j; if (j === 0) return i;
    const k = i * 100 + j; if (memo.has(k)) return memo.get(k);
    const r = Math.min(d(i - 1, j) + 1, d(i, j - 1) + 1, d(i - 1, j - 1) + (V.truthy(V.same(a[i - 1], b[j - 1])) ? 0 : 1));
    memo.set(k, r); return r;
  };
  return d(a.length, b.length);
}
const ch = { re: /^[^]$/, pool: ["a", "b", "c"] };
function levenshtein(V) {
  const m = V.mod(SU), la = V.pick("la", 4), lb = V.pick("lb", 4);
  const a = [], b = []; for (let i = 0; i < la; i++) a.push(V.str("a" + i, ch)); for (let i = 0; i < lb; i++) b.push(V.str("b" + i, ch));
  for (const x of [...a, ...b]) V.assume(x.length === 1);
  let sa = "", sb = ""; for (const x of a) sa = sa + x; for (const x of b) sb = sb + x;
  V.assert("true-minimum", V.same(m.levenshteinDistance(sa, sb), distance(V, a, b)));
  V.cover("computed");
}
// Only equality of characters matters, so every pair of texts up to a length is one of these patterns (restricted growth).
function levenshteinAll(V) {
  const m = V.mod(SU), N = V.tier === "thorough" ? 6 : 5; let bad; let n = 0;
  for (let la = 0; la <= N; la++) for (let lb = 0; lb <= N; lb++) {
    const L = la + lb, w = new Array(L).fill(0);
    const go = (i, mx) => {
      if (bad) return;
      if (i === L) { n++; const s = String.fromCharCode(...w.map((x) => 97 + x)), a = s.slice(0, la), b = s.slice(la); if (m.levenshteinDistance(a, b) !== ref(a, b)) bad = JSON.stringify([a, b]); return; }
      for (let c = 0; c <= mx; c++) { w[i] = c; go(i + 1, Math.max(mx, c + 1)); }
    };
    go(0, 0);
  }
  V.note("pair", bad); V.assert("true-minimum", bad === undefined); if (n > 1000) V.cover("enumerated");
}
const row = new Uint8Array(64);
function ref(a, b) { // Ukkonen-free textbook recurrence over one row
  for (let j = 0; j <= b.length; j++) row[j] = j;
  for (let i = 1; i <= a.length; i++) { let diag = row[0]; row[0] = i; for (let j = 1; j <= b.length; j++) { const up = row[j]; let v = diag + (a.charCodeAt(i - 1) === b.charCodeAt(j - 1) ? 0 : 1); if (up + 1 < v) v = up + 1; if (row[j - 1] + 1 < v) v = row[j - 1] + 1; row[j] = v; diag = up; } }
  return row[b.length];
}
const levModel = { "core/src/suggestion.ts#levenshteinDistance": (V, a, b) => { const d = V.uf("lev", "num", a, b); V.assume(d >= 0); V.assume(V.iff(d === 0, V.same(a, b))); return d; } };
const levTrust = "levenshteinDistance through the contract 'a number that depends on the two texts alone, never negative, zero exactly for equal texts' (its value is checked on its own)";
function similar(V) {
  const m = V.mod(SU), n = V.pick("candidates", 4), cand = [];
  const input = V.str("input", { pool: POOL });
  for (let i = 0; i < n; i++) cand.push(V.str("c" + i, { pool: POOL }));
  const caseSensitive = V.flag("caseSensitive"), maxDistance = V.int("maxDistance", { min: 0, max: 50 }), half = V.flag("ratio"), maxSuggestions = n === 3 ? 2 : V.pick("maxSuggestions", 4);
  if (n === 3 && !caseSensitive) V.skip("three candidates only with case respected");
  const o = { maxDistance, maxSuggestions, caseSensitive, maxDistanceRatio: half ? 0.5 : 1 };
  const out = m.findSimilar(input, cand, o);
  const norm = (s) => caseSensitive ? s : s.toLowerCase();
  const dist = (c) => m.levenshteinDistance(norm(input), norm(c));
  const near = (c) => { const d = dist(c); return V.and(d <= maxDistance, half ? d * 2 <= input.length : d <= input.length); };
  V.assert("at-most-the-configured-number", out.length <= maxSuggestions);
  out.forEach((s, i) => {
    V.assert("only-available-names", V.or(...cand.map((c) => V.same(c, s))));
    V.assert("within-the-limits", near(s));
    if (i > 0) V.assert("nearest-first", dist(out[i - 1]) <= dist(s));
    for (let j = 0; j < i; j++) V.assert("no-repetition", V.not(V.same(out[j], s)));
  });
  // nothing nearer was left out: an omitted near name is no closer than any that was listed, and is only omitted when the list is full or an exact match was found
  const exact = out.length === 1 ? dist(out[0]) === 0 : false;
  for (const c of cand) {
    const listed = V.or(...out.map((s) => V.same(s, c)));
    V.assert("nothing-nearer-left-out", V.implies(V.and(near(c), V.not(listed), V.not(V.same(input, ""))), V.or(exact, V.and(out.length === maxSuggestions, ...out.map((s) => dist(s) <= dist(c))))));
  }
  V.cover(out.length > 0 ? "suggested" : "none"); if (out.length > 1) V.cover("several");
}
// The hint added to an error names exactly the suggestions, and the original error stays in front of it.
function hint(V) {
  const m = V.mod(SU), n = V.pick("suggestions", 4), ss = []; for (let i = 0; i < n; i++) ss.push(V.str("s" + i, { pool: POOL }));
  const base = V.flag("base") ? [{ type: "text", text: "No such thing." }] : [], k = V.pick("form", 2);
  const out = k === 0 ? [...base, ...m.createSuggestionMessage(ss)] : m.appendValueSuggestions(base, ss);
  base.forEach((t, i) => V.assert("error-kept-in-front", out[i] === t));
  const shown = out.slice(base.length).filter((t) => t.type !== "text" && t.type !== "lineBreak");
  V.assert("every-suggestion-named-once-in-order", shown.length === ss.length && V.and(...shown.map((t, i) => V.same(t.type === "optionName" ? t.optionName : t.value, ss[i]))));
  if (n === 0) V.assert("no-hint-without-suggestions", out.length === base.length);
  V.cover(n > 0 ? "hinted" : "plain");
}
// Candidates come from the usage: shown names only, of the requested kind; aliases point at their command.
function node(V, i, depth) {
  const k = V.pick("node" + i, depth > 0 ? 5 : 2), hidden = V.oneOf("hidden" + i, [undefined, true, "doc", "usage", "help"]);
  const nm = (x) => V.str(x + i, { pool: POOL });
  if (k === 0) { const names = [nm("opt"), nm("alt")]; return { t: { type: "option", names, hidden }, options: hidden === true ? [] : names, commands: [] }; }
  if (k === 1) { const name = nm("cmd"), aliases = V.flag("alias" + i) ? [nm("alias")] : undefined; return { t: { type: "command", name, hidden, ...(aliases ? { aliases, hiddenAliases: [nm("secret")] } : {}) }, options: [], commands: hidden === true ? [] : [name, ...(aliases ?? [])] }; }
  const inner = node(V, i + "_0", depth - 1);
  if (k === 2) return { ...inner, t: { type: "optional", terms: [inner.t] } };
  if (k === 3) return { ...inner, t: { type: "multiple", terms: [inner.t], min: 0 } };
  const other = node(V, i + "_1", depth - 1);
  return { t: { type: "exclusive", terms: [[inner.t], [{ type: "argument", metavar: "X" }, other.t]] }, options: [...inner.options, ...other.options], commands: [...inner.commands, ...other.commands] };
}
function fromUsage(V) {
  const m = V.mod(SU), n = V.pick("terms", V.tier === "thorough" ? 3 : 2) + 1, ts = []; for (let i = 0; i < n; i++) ts.push(node(V, "" + i, n > 1 ? 0 : 1));
  const usage = ts.map((x) => x.t), type = V.oneOf("type", ["option", "command", "both"]), input = V.str("input", { pool: POOL });
  const allowed = ts.flatMap((x) => [...(type !== "command" ? x.options : []), ...(type !== "option" ? x.commands : [])]);
  let shown; const base = [{ type: "text", text: "No such thing." }];
  const out = m.createErrorWithSuggestions(base, input, usage, type, (l) => { shown = l; return l.length > 0 ? [{ type: "text", text: "hint" }] : []; });
  V.assert("error-kept-in-front", out[0] === base[0]);
  for (const s of shown) V.assert("only-shown-names-of-the-kind", V.or(...allowed.map((c) => V.same(c, s))));
  for (const [i, s] of shown.entries()) for (let j = 0; j < i; j++) V.assert("no-repetition", V.not(V.same(shown[j], s)));
  V.assert("hint-only-with-suggestions", out.length === (shown.length > 0 ? 3 : 1));
  V.cover(shown.length > 0 ? "suggested" : "none");
}
const T = (...n) => n.map((x) => "core/src/suggestion.ts#" + x);
// the nearest names, as findSimilar's contract has it: some of the candidates, each once
const simModel = { "core/src/suggestion.ts#findSimilar": (V, _input, cands) => { const out = []; for (const c of cands) if (V.flag("near")) out.push(c); return V.flag("swap") ? out.reverse() : out; } };
const c = (id, targets, run, covers, o = {}) => ({ id: "suggest/" + id, prop: "C17", use: [SU], targets: T(...targets), covers, models: {}, trusted: [], run, ...o });
export const contracts = [
  c("levenshtein", ["levenshteinDistance"], levenshtein, ["computed"], { bounded: "texts of up to three characters each, every character" }),
  c("levenshtein-enumerated", ["levenshteinDistance"], levenshteinAll, ["enumerated"], { symbolic: false, native: { runs: 1 }, bounded: "every equality pattern of two texts of up to five characters each (six when thorough)" }),
  c("findSimilar", ["findSimilar"], similar, ["suggested", "none", "several"], { models: levModel, trusted: [levTrust], bounded: "up to three candidates of any text (two when case is ignored)", native: { runs: 6000 } }),
  c("hint", ["createSuggestionMessage", "appendValueSuggestions"], hint, ["hinted", "plain"], { bounded: "up to three suggestions of any text" }),
  c("from-usage", ["createErrorWithSuggestions", "expandCommandAliasSuggestions"], fromUsage, ["suggested", "none"], { models: simModel, trusted: ["findSimilar through its own contract: some of the candidates, each at most once"], bounded: "usage trees of one term nested once, or two flat terms (any names)", native: { runs: 3000 } }),
];
