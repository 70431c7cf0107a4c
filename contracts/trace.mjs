// Input trace: persistent map from field paths to entries.
import { TR } from "./_h.mjs";
const POOL = ["", "a", "1", "0", "s1", "1:s", "2:sa", "n1", "y0", "a2:sb", ":", "10:", "r", "-1", "1.5", "caf\u00e9", "cafe\u0301", "A"];
const S1 = Symbol("a"), S2 = Symbol("a"), S3 = Symbol.for("a"), S4 = Symbol.for("y0"), S5 = Symbol();
const SYMS = [S1, S2, S3, S4, S5];
function key(V, name) {
  const k = V.pick(name + ".kind", 3);
  return k === 0 ? V.str(name, { pool: POOL }) : k === 1 ? V.int(name, { min: 0, max: 100000 }) : SYMS[V.pick(name, SYMS.length)];
}
const sameKey = (V, a, b) => {
  const ka = V.kind(a), kb = V.kind(b);
  return ka !== kb ? false : V.same(a, b);
};
const samePath = (V, p, q) => p.length !== q.length ? false : V.and(...p.map((a, i) => sameKey(V, a, q[i])));
const path = (V, name, n) => { const o = []; for (let i = 0; i < n; i++) o.push(key(V, name + i)); return o; };
// Whatever was recorded before, one more record changes exactly one path, and only in the new copy.
function setOne(V, n, k) {
  const { createInputTrace } = V.mod(TR);
  const p = path(V, "p", n), q = path(V, "q", k);
  const e0 = V.token("earlier"), e1 = V.token("entry");
  const before = V.flag("had-q") ? createInputTrace().set(q, e0) : createInputTrace();
  const had = before.get(q);
  const after = before.set(p, e1);
  V.cover("recorded");
  V.assert("last-entry-found", after.get(p) === e1);
  V.assert("earlier-copy-unchanged", before.get(q) === had);
  const same = samePath(V, p, q);
  if (V.truthy(same)) { V.cover("same-path"); V.assert("replaced", after.get(q) === e1); }
  else { V.cover("other-path"); V.assert("other-field-unchanged", after.get(q) === had); V.assert("not-in-the-earlier-copy", before.get(p) === undefined); }
  const gone = after.delete(p);
  V.assert("deleted-only-in-the-copy", gone.get(p) === undefined && after.get(p) === e1);
  if (!V.truthy(same)) V.assert("deletion-touches-one-field", gone.get(q) === had);
}
// Any sequence of records: looking up returns the last one for exactly that field; every copy keeps answering as it did when made.
function history(V) {
  const { createInputTrace } = V.mod(TR);
  const paths = [[], ["a"], ["a", "b"], ["a1:b"], ["ab"], [0], ["0"], [S1], [S2], [S3], ["a", S1], [1, "0"], ["10"], ["1:sa"], [S1, "x"], [-1], ["-1"], ["sa2", "sb"], ["a2:sb"], [1.5], ["1.5"]];
  let t = createInputTrace(); const copies = [[t, new Map()]];
  const steps = 1 + V.pick("steps", 12);
  for (let i = 0; i < steps; i++) {
    const [from, model] = copies[V.pick("from", copies.length)];
    const j = V.pick("path", paths.length), e = { n: i }; const m2 = new Map(model);
    if (V.pick("op", 4) === 0) { t = from.delete(paths[j].slice()); m2.delete(j); } else { t = from.set(paths[j].slice(), e); m2.set(j, e); }
    copies.push([t, m2]);
  }
  for (const [c, m] of copies) paths.forEach((p, j) => V.assert("lookup-matches-the-record", c.get(p.slice()) === m.get(j)));
  V.cover("checked");
}
const T = ["core/src/input-trace.ts#createInputTrace", "core/src/input-trace.ts#serializePath", "core/src/input-trace.ts#serializeKey", "core/src/input-trace.ts#InputTraceImpl"];
const c = (n, k, o = {}) => ({ id: `trace/${n}-${k}`, prop: "C18", use: [TR], targets: T, covers: n === k ? ["same-path", "other-path"] : ["other-path"], run: (V) => setOne(V, n, k), ...o });
const B = "paths of the stated number of segments (any text, number or symbol in each)";
export const contracts = [
  c(1, 1), c(1, 2, { bounded: B }), c(2, 2, { bounded: B, budgetMs: 400000 }), c(0, 1), 
  { id: "trace/history", prop: "C18", use: [TR], targets: T, symbolic: false, bounded: "histories of up to twelve records over 21 confusable paths", native: { runs: 4000 }, covers: ["checked"], run: history },
];
