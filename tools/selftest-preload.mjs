// Runs the repository's own tests against the *instrumented* sources (concretely): validates the mechanical translation.
import { registerHooks } from "node:module";
import "../engine/rt.mjs";
import { REPO } from "../engine/loader.mjs";
import { pathToFileURL } from "node:url";
registerHooks({
  resolve(spec, ctx, next) {
    if (spec.startsWith("#src/") && ctx.parentURL) {
      const m = /^file:\/\/(.*\/packages\/[^/]+)\//.exec(ctx.parentURL);
      if (m) return { url: pathToFileURL(`${m[1]}/src/${spec.slice(5)}`).href + "?sym", shortCircuit: true, format: "module" };
    }
    if (spec.startsWith("@optique/") && /\.test\.ts$/.test(ctx.parentURL ?? "")) return next(spec + "?sym", ctx);
    return next(spec, ctx);
  },
});
