// Nothing to build: the sources are read on every run. Checks that the tools the engine needs are there.
import { execFileSync } from "node:child_process";
import "../engine/rt.mjs";
for (const [c, a] of [["z3-new", ["--version"]], ["cvc5", ["--version"]], ["/usr/bin/z3", ["--version"]]]) console.log(String(execFileSync(c, a)).split("\n")[0]);
const { loadModule } = await import("../engine/loader.mjs");
const m = await loadModule("core/src/index.ts", true);
console.log("instrumented core loads:", Object.keys(m).length, "exports");
process.exit(0);
