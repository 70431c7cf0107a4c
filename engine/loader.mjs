// Module hooks: /repo's TypeScript sources are loaded from the working tree, either as they are (types stripped)
// or instrumented for symbolic execution (URL query ?sym).
import { registerHooks } from "node:module";
import { readFileSync, existsSync } from "node:fs";
import { fileURLToPath, pathToFileURL } from "node:url";
import path from "node:path";
import { instrument, strip } from "./instrument.mjs";

export const REPO = process.env.VERIF_REPO ?? "/repo";
const PK = REPO + "/packages/";
const exportsCache = new Map();
function resolveOptique(spec) {
  const m = /^@optique\/([\w-]+)(\/.*)?$/.exec(spec); if (!m) return null;
  const dir = PK + m[1];
  if (!exportsCache.has(dir)) { try { exportsCache.set(dir, JSON.parse(readFileSync(dir + "/package.json", "utf8")).exports ?? {}); } catch { exportsCache.set(dir, {}); } }
  const ex = exportsCache.get(dir)["." + (m[2] ?? "")];
  const imp = typeof ex === "string" ? ex : ex?.import?.default ?? ex?.import ?? ex?.default;
  let f = typeof imp === "string" ? imp.replace(/^\.\/dist\//, "./src/").replace(/\.(m?js)$/, ".ts") : "./src/" + (m[2] ? m[2].slice(1) : "index") + ".ts";
  return path.join(dir, f);
}
export const sources = new Map(); // rel -> instrumented source (for evidence)
registerHooks({
  resolve(spec, ctx, next) {
    const sym = ctx.parentURL?.includes("?sym") || spec.endsWith("?sym");
    const bare = spec.replace(/\?sym$/, "");
    if (bare.startsWith("@optique/")) {
      const f = resolveOptique(bare);
      if (f && existsSync(f)) return { url: pathToFileURL(f).href + (sym ? "?sym" : ""), shortCircuit: true, format: "module" };
    }
    if ((bare.startsWith("./") || bare.startsWith("../")) && ctx.parentURL?.startsWith("file:")) {
      const parent = fileURLToPath(ctx.parentURL.split("?")[0]);
      const f = path.resolve(path.dirname(parent), bare);
      if ((f.startsWith(PK) || f.startsWith("/verif/contracts/")) && !f.includes("/node_modules/")) return { url: pathToFileURL(f).href + (sym ? "?sym" : ""), shortCircuit: true, format: "module" };
    }
    if ((bare.startsWith("/") || bare.startsWith("file:")) && /^(file:\/\/)?(\/verif\/|\/repo\/packages\/)/.test(bare) && !bare.includes("/node_modules/") && /\.(ts|mjs)$/.test(bare)) {
      const u = bare.startsWith("/") ? pathToFileURL(bare).href : bare;
      return { url: u + (sym ? "?sym" : ""), shortCircuit: true, format: "module" };
    }
    return next(spec, ctx);
  },
  load(url, ctx, next) {
    if (!url.startsWith("file:")) return next(url, ctx);
    const sym = url.endsWith("?sym");
    const f = fileURLToPath(url.split("?")[0]);
    if (f.startsWith(PK) && f.endsWith(".ts") || f.startsWith("/verif/contracts/")) {
      const src = readFileSync(f, "utf8");
      const rel = f.startsWith(PK) ? f.slice(PK.length) : f;
      const out = sym ? instrument(src, rel) : f.endsWith(".ts") ? strip(src, f) : src;
      return { format: "module", source: out, shortCircuit: true };
    }
    return next(url, ctx);
  },
});
const cache = new Map();
export async function loadModule(rel, sym) { // rel: "core/src/primitives.ts" or absolute
  const f = rel.startsWith("/") ? rel : PK + rel;
  const key = f + sym;
  if (!cache.has(key)) cache.set(key, await import(pathToFileURL(f).href + (sym ? "?sym" : "")));
  return cache.get(key);
}
