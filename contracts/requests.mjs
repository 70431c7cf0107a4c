// Help, version and completion requests (C28).
import { CO, MO, PR, VP, errModels, errTrust } from "./_h.mjs";
const FA = "core/src/facade.ts", PA = "core/src/parser.ts";
const POOL = ["--help", "-h", "--version", "-V", "--completion", "--completion=stub", "--completion=", "help", "version", "completion", "stub", "bash", "--", "sub", "-x", "", "--helpx", "helpx"];
const THIRD = ["--help", "--version", "--completion", "--completion=stub", "--", "sub", "stub"];
const NAMES = {
  option: { help: [undefined, ["-h", "--assist"]], version: [undefined, ["-V"]], completion: [undefined, ["--shell", "--shell-completion"]] },
  command: { help: [undefined, ["assist", "h"]], version: [undefined, ["about"]], completion: [undefined, ["shell", "complete"]] },
};
const KINDS = ["help", "version", "completion"];
// Which requests are configured, and under which names.
function configure(V, which, plain) {
  const cfg = {}, names = { option: {}, command: {} }, custom = !plain && V.flag("custom");
  for (const kind of KINDS) {
    const forms = which ? which[kind] : V.pick(kind, 4); // neither, the option, the command, both
    if (!forms) { names.option[kind] = []; names.command[kind] = []; continue; }
    const sub = (form, on) => { if (!on) { names[form][kind] = []; return undefined; } const n = NAMES[form][kind][custom ? 1 : 0]; names[form][kind] = n ?? [form === "option" ? "--" + kind : kind]; return n ? { names: n } : true; };
    const o = sub("option", forms & 1), c = sub("command", forms & 2);
    cfg[kind] = { ...(o ? { option: o } : {}), ...(c ? { command: c } : {}) };
  }
  return { cfg, names };
}
const isOne = (V, t, names) => t !== undefined && names.some((n) => V.truthy(V.same(t, n)));
// What the documentation asks for, given the tokens the program's parser did not claim.
function request(V, names, rest, claimed, terminated, path) {
  if (rest.length === 0) return { what: "error" };
  if (claimed === 0) {
    if (isOne(V, rest[0], names.command.completion)) return isOne(V, rest[1], names.option.help) ? { what: "help", commands: [rest[0]] } : { what: "completion", source: "command", shell: rest[1] ?? "", args: rest.slice(2) };
  }
  const scan = []; if (!terminated) for (const t of rest) { if (V.truthy(V.same(t, "--"))) break; scan.push(t); }
  let last, comp;
  for (let i = 0; i < scan.length && !comp; i++) {
    const t = scan[i];
    if (isOne(V, t, names.option.help)) last = { what: "help", i }; else if (isOne(V, t, names.option.version)) last = { what: "version", i };
    const eq = names.option.completion.find((n) => V.truthy(t.startsWith(n + "=")));
    if (eq) comp = { what: "completion", source: "option", i, shell: t.slice(eq.length + 1), args: [...path, ...rest.slice(i + 1)] };
    else if (isOne(V, t, names.option.completion)) { const sh = scan[i + 1] ?? ""; comp = { what: "completion", source: "option", i, shell: sh, args: V.truthy(V.same(sh, "")) ? [...path] : [...path, ...rest.slice(i + 2)] }; }
  }
  if (claimed === 0 && isOne(V, rest[0], names.command.version)) {
    if (isOne(V, rest[1], names.option.help)) return { what: "help", commands: [rest[0]] };
    if (rest.length === 1 || comp?.i === 1 || last?.what === "version" && last.i === 1) return { what: "version" };
    return { what: "error" };
  }
  if (!last && claimed === 0 && isOne(V, rest[0], names.command.help)) return { what: "help", commands: rest.slice(1), command: true };
  if (last?.what === "version") return last;
  if (last) { const commands = [...path]; for (let i = 0; i < last.i; i++) if (!V.truthy(rest[i].startsWith("-"))) commands.push(rest[i]); return { what: "help", commands }; }
  return comp ?? { what: "error" };
}
// The program's own parser: claims some tokens, then fails, stalls, fails to complete or succeeds.
function own(V, tokens, async) {
  const claim = V.pick("claims", Math.min(tokens.length, 2) + 1), end = V.oneOf("ends", claim === tokens.length ? ["succeeds", "incomplete"] : ["fails", "stalls"]), inFailure = end === "fails" && claim > 0 && V.flag("claimedByTheFailingStep"), terminated = V.flag("terminated") && claim > 0 && !inFailure, path = claim > 0 && !inFailure && V.flag("inCommand") ? ["sub"] : [], value = V.token("value"), state = { tag: "initial" };
  const p = { $valueType: [], $stateType: [], mode: async ? "async" : "sync", priority: 1, usage: [], leadingNames: new Set(), acceptingAnyToken: false, initialState: state, trying: true, valid: undefined, claim, end, terminated, path, value, suggested: [],
    parse(ctx) {
      let r;
      if (!p.trying) { p.valid ??= V.flag("commandsAreValid"); r = p.valid ? { success: true, consumed: ctx.buffer, next: { ...ctx, buffer: [] } } : { success: false, consumed: 0, error: [{ type: "text", text: "no such command" }] }; }
      else if (ctx.state === state && claim > 0 && !inFailure) r = { success: true, consumed: tokens.slice(0, claim), next: { ...ctx, buffer: tokens.slice(claim), state: { tag: "claimed" }, optionsTerminated: terminated, exec: { ...ctx.exec, commandPath: path } } };
      else if (end === "fails") r = { success: false, consumed: inFailure ? claim : 0, error: [{ type: "text", text: "own error" }] };
      else r = { success: true, consumed: [], next: ctx };
      return async ? Promise.resolve(r) : r;
    },
    complete() { p.trying = false; const r = end === "succeeds" ? { success: true, value } : { success: false, error: [{ type: "text", text: "own error" }] }; return async ? Promise.resolve(r) : r; },
    *suggest() {}, getDocFragments() { return { fragments: [] }; } };
  if (async) p.suggest = async function* () {};
  return p;
}
const DOC = { sections: [] };
const models = { ...errModels, "core/src/parser.ts#getDocPage": (V, p) => p?.mode === "async" ? Promise.resolve(DOC) : DOC, "core/src/doc.ts#formatDocPage": () => "HELP PAGE", "core/src/usage.ts#formatUsage": () => "USAGE", "core/src/message.ts#formatMessage": () => "MESSAGE" };
function classify(async, sizes, which, plain) {
  return async (V) => {
    const { runParser } = V.mod(FA), tokens = Array.from({ length: V.oneOf("tokens", sizes) }, (_, i) => i === 2 ? V.oneOf("token2", THIRD) : V.str("token" + i, { pool: POOL })), bundles = V.assume(tokens.every((t) => !V.truthy(V.matches(t, /^-[Vh][Vh]/)))), { cfg, names } = configure(V, which ? V.oneOf("configured", which) : undefined, plain), p = own(V, tokens, async);
    const calls = [], out = [], err = [], scripts = [], say = (what) => (code) => { calls.push([what, code]); return what; };
    if (cfg.help) cfg.help.onShow = say("help"); if (cfg.version) { cfg.version.onShow = say("version"); cfg.version.value = "1.2.3"; }
    if (cfg.completion) { cfg.completion.onShow = say("completion"); cfg.completion.shells = { stub: { name: "stub", generateScript(prog, a) { scripts.push([prog, ...(a ?? [])]); return "SCRIPT"; }, *encodeSuggestions(s) { scripts.push("suggestions"); yield "SUGGESTIONS"; } } }; }
    const orig = p.parse; let steps = 0; p.parse = (ctx) => { if (p.trying && steps++ > (p.claim > 0 ? 1 : 0) + 0 && p.end !== "succeeds") p.trying = false; const r = orig(ctx); if (p.trying && (r.success === false)) p.trying = false; return r; };
    if (p.end === "stalls") { let n = 0; p.parse = (ctx) => { const r = orig(ctx); if (p.trying && ctx.buffer.length === tokens.length - p.claim) p.trying = false; return r; }; }
    const before = [...tokens], r = await runParser(p, "prog", tokens, { ...cfg, onError: say("error"), stdout: (s) => out.push(s), stderr: (s) => err.push(s) });
    V.assert("the-command-line-is-not-modified", tokens.length === before.length);
    if (p.end === "succeeds") { V.cover("claimed"); V.assert("what-the-parser-claims-goes-to-the-parser", V.same(r, p.value) && calls.length === 0 && out.length === 0 && err.length === 0); return; }
    const rest = p.end === "incomplete" ? [] : tokens.slice(p.claim), q = request(V, names, rest, p.claim, p.terminated, p.path);
    V.assert("one-outcome", calls.length === 1 && r === calls[0][0]);
    const [what, code] = calls[0];
    V.assert("the-exit-status", code === (what === "error" ? 1 : 0));
    V.cover(q.what);
    switch (q.what) {
      case "error": V.assert("everything-else-is-a-parse-error", what === "error" && out.length === 0); break;
      case "version": V.assert("version-is-shown-when-asked-for", what === "version" && out.length === 1 && out[0] === "1.2.3" && err.length === 0); break;
      case "help": {
        const meta = isOne(V, q.commands[0], [...names.command.help, ...names.command.version, ...names.command.completion]);
        const mayFail = q.commands.length > 0 && (p.valid === false || meta && q.commands.length > 1 || meta && p.path.length > 0);
        V.assert("help-is-shown-when-asked-for", what === "help" && out.length === 1 && (!V.symbolic || out[0] === "HELP PAGE") && err.length === 0 || mayFail && what === "error" && out.length === 0); break;
      }
      case "completion": {
        const known = ["stub", "bash", "zsh", "fish", "pwsh", "nu"].some((s) => V.truthy(V.same(q.shell, s))), stub = V.truthy(V.same(q.shell, "stub"));
        if (!known) V.assert("unknown-shells-are-errors", what === "error" && out.length === 0 && scripts.length === 0);
        else {
          V.assert("completion-is-answered-when-asked-for", what === "completion" && err.length === 0);
          if (stub) V.assert(q.args.length ? "suggestions" : "script", out.length === 1 && out[0] === (q.args.length ? "SUGGESTIONS" : "SCRIPT") && scripts.length === 1 && (q.args.length ? scripts[0] === "suggestions" : scripts[0][0] === "prog" && scripts[0][2] === "stub" && scripts[0][1] === (q.source === "option" ? names.option : names.command).completion[0]));
        }
      }
    }
  };
}
// @optique/run: shorthands, exit codes and outputs reach the dispatcher, whichever entry point and with or without contexts.
const RU = "run/src/run.ts", CMD = { help: ["help", "--help"], version: ["version", "--version"], completion: ["completion", "--completion"] };
async function exits(V) {
  const { run, runSync, runAsync } = V.mod(RU), entry = V.oneOf("entry", ["run", "runSync", "runAsync"]), contextual = V.flag("contexts"), asProgram = V.flag("program");
  const want = V.oneOf("asked", ["help", "version", "completion", "error", "nothing"]), form = V.oneOf("form", ["command", "option"]), value = V.token("value"), exit = V.flag("customExit") ? V.int("errorExitCode") : undefined;
  const cfg = {}, set = (k, alts) => { const i = V.pick(k, alts.length); if (alts[i] !== undefined) cfg[k] = alts[i]; };
  if (want === "help") set("help", ["command", "option", "both", { command: true, option: true }, undefined]);
  if (want === "version") set("version", ["1.2.3", { value: "1.2.3", command: true }, { value: "1.2.3", option: true }, undefined]);
  if (want === "completion") set("completion", ["command", "option", "both", { command: true, option: true }, undefined]);
  const c0 = cfg[want], on = c0 === undefined ? false : want === "version" ? (typeof c0 === "string" ? form === "option" : c0[form] === true) : typeof c0 === "string" ? c0 === form || c0 === "both" : true;
  const args = want in CMD ? want === "completion" ? [CMD[want][form === "command" ? 0 : 1], "bash"] : [CMD[want][form === "command" ? 0 : 1]] : want === "error" ? ["unwanted"] : [];
  const p = { $valueType: [], $stateType: [], mode: "sync", priority: 1, usage: [], leadingNames: new Set(), acceptingAnyToken: false, initialState: "initial", parse: (ctx) => ctx.buffer.length ? { success: false, consumed: 0, error: [{ type: "text", text: "own error" }] } : { success: true, consumed: [], next: ctx }, complete: () => ({ success: true, value }), *suggest() {}, getDocFragments: () => ({ fragments: [] }) };
  const codes = [], out = [], err = [], EXIT = { tag: "exit" };
  const o = { ...cfg, programName: "prog", args, colors: false, stdout: (s) => out.push(s), stderr: (s) => err.push(s), onExit(code) { codes.push(code); throw EXIT; }, ...(V.isSymbolic(exit) || exit !== undefined ? { errorExitCode: exit } : {}), ...(contextual ? { contexts: [{ id: Symbol("c"), phase: "single-pass", getAnnotations: () => ({}) }] } : {}) };
  const input = asProgram ? { parser: p, metadata: { name: "prog" } } : p;
  let r, thrown; try { r = await (entry === "run" ? run : entry === "runSync" ? runSync : runAsync)(input, o); } catch (e) { thrown = e; }
  if (want === "nothing") { V.cover("value"); V.assert("the-value-is-returned-and-nothing-exits", thrown === undefined && codes.length === 0 && out.length === 0 && err.length === 0 && V.same(r, value)); return; }
  V.assert("one-exit", thrown === EXIT && codes.length === 1);
  if (on) { V.cover(want); V.assert("requested-output-exits-with-zero", codes[0] === 0 && out.length === 1 && err.length === 0); if (want === "version") V.assert("the-version", out[0] === "1.2.3"); }
  else { V.cover("error"); V.assert("errors-exit-with-the-configured-code", V.and(V.same(codes[0], exit === undefined ? 1 : exit), out.length === 0, err.length > 0)); }
}
const c = (id, targets, run, covers, o = {}) => ({ id: "requests/" + id, prop: "C28", use: [FA, PA, CO, MO, PR, VP], targets, covers, models, trusted: [errTrust, "page and message formatting through 'returns some text' (C15, C16)"], run, ...o });
const T = [FA + "#runParser"], ALL = ["error", "version", "help", "completion", "claimed"];
const SETS = [{ help: 3, version: 3, completion: 3 }, { help: 1, version: 1, completion: 1 }, { help: 2, version: 2, completion: 2 }, { help: 1, version: 0, completion: 2 }, { help: 0, version: 1, completion: 1 }];
export const contracts = [
  c("classify/1", T, classify(false, [0, 1]), ALL, { bounded: "up to one token of any text but bundles of `-h` and `-V`; every configuration" }),
  c("classify/2", T, classify(false, [2], SETS.slice(0, 3)), ALL, { budgetMs: 480000, weight: 10, bounded: "two tokens of any text but bundles of `-h` and `-V`; three configurations, two name sets" }),
  c("classify/2/partial", T, classify(false, [2], SETS.slice(3)), ALL, { bounded: "two tokens of any text but bundles of `-h` and `-V`; two configurations, two name sets" }),
  c("classify/2/async", T, classify(true, [2], SETS.slice(0, 1), true), ALL, { bounded: "two tokens of any text but bundles of `-h` and `-V`; every request configured" }),
  c("classify/3", T, classify(false, [3], SETS.slice(0, 1), true), ALL.slice(0, 4), { budgetMs: 480000, weight: 5, bounded: "three tokens: two of any text but bundles of `-h` and `-V`, the third one of seven; every request configured" }),
  { id: "requests/exit", prop: "C28", use: [RU, FA, PA, CO, MO, PR, VP], targets: [RU + "#run", RU + "#runSync", RU + "#runAsync", FA + "#runWith", FA + "#runWithSync"], covers: ["help", "version", "completion", "error", "value"], trusted: [errTrust, "page and message formatting through 'returns some text' (C15, C16)"], models, run: exits },
];
