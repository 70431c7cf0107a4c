// Synchronous SMT solving through a worker thread that owns the solver processes.
import { Worker, MessageChannel, receiveMessageOnPort, isMainThread, parentPort, workerData } from "node:worker_threads";
import { spawn } from "node:child_process";
import { fileURLToPath } from "node:url";

const SOLVERS = {
  z3: ["z3-new", ["-in", "-smt2", "encoding=bmp"]],
  z3re: ["z3-new", ["-in", "-smt2", "encoding=bmp"]],
  z3old: ["/usr/bin/z3", ["-in", "-smt2"]],
  cvc5: ["cvc5", ["--lang=smt2", "--strings-exp", "--strings-alpha-card=65536", "--produce-models", "--quiet"]],
};
if (!isMainThread && workerData?.solverWorker) {
  const flag = new Int32Array(workerData.flag);
  let persistent = null;
  const kill = (p) => { try { p.kill("SIGKILL"); } catch {} };
  const done = (res) => { workerData.port.postMessage(res); Atomics.store(flag, 0, 1); Atomics.notify(flag, 0); };
  const runFresh = (name, script, ms, cb) => {
    const [cmd, args] = SOLVERS[name];
    const extra = name === "cvc5" ? [`--tlimit=${ms}`] : [`-T:${Math.ceil(ms / 1000) + 1}`, "-memory:3000"];
    const p = spawn(cmd, [...args, ...extra], { stdio: ["pipe", "pipe", "ignore"] });
    let out = "";
    p.stdout.on("data", (d) => out += d);
    p.stdin.on("error", () => {});
    p.on("error", () => cb(name, "unknown (spawn)"));
    p.on("close", () => { clearTimeout(t); cb(name, out); });
    const t = setTimeout(() => kill(p), ms + 200);
    p.stdin.end(script);
    return p;
  };
  const quick = (script, ms) => {
    // persistent z3 with (reset)
    if (!persistent || persistent.dead) {
      const [cmd, args] = SOLVERS.z3;
      const p = spawn(cmd, [...args, "-memory:3000"], { stdio: ["pipe", "pipe", "ignore"] });
      persistent = { p, buf: "", cb: null, dead: false };
      const me = persistent;
      p.stdin.on("error", () => {});
      p.stdout.on("data", (d) => { me.buf += d; if (me.buf.includes("<<END>>")) { const r = me.buf.split("<<END>>")[0]; me.buf = ""; const cb = me.cb; me.cb = null; cb && cb(r); } });
      p.on("close", () => { me.dead = true; const cb = me.cb; me.cb = null; cb && cb("unknown"); });
      p.on("error", () => { me.dead = true; const cb = me.cb; me.cb = null; cb && cb("unknown"); });
    }
    const me = persistent;
    const t = setTimeout(() => { me.dead = true; const cb = me.cb; me.cb = null; kill(me.p); cb && cb("unknown"); }, ms * 2 + 300);
    me.cb = (r) => { clearTimeout(t); done({ status: /^\(error(?!.*(model|timeout|cancel))/m.test(r) ? "unknown" : firstWord(r), out: r, solver: "z3" }); };
    me.p.stdin.write(`(reset)\n(set-option :timeout ${ms})\n${script}\n(check-sat)\n(echo "<<END>>")\n`);
  };
  const firstWord = (o) => { const m = /^\s*(sat|unsat|unknown|timeout)\b/m.exec(o); return m ? (m[1] === "timeout" ? "unknown" : m[1]) : "unknown"; };
  const portfolio = (script, ms, names, alt) => {
    let finished = false; let left = names.length; const procs = []; const outs = [];
    for (const n of names) {
      const opts = n === "cvc5" ? "(set-logic ALL)\n" : "";
      procs.push(runFresh(n, opts + (n === "z3re" ? alt : script), ms, (name, out) => {
        left--; outs.push([name, out]);
        if (finished) return;
        const st = firstWord(out);
        const err = /\(error/.exec(out.split("\n")[0] ?? "");
        if ((st === "sat" || st === "unsat") && !err) { finished = true; procs.forEach(kill); done({ status: st, out, solver: name }); }
        else if (left === 0) { finished = true; done({ status: "unknown", out: outs.map(([n, o]) => n + ": " + o.slice(0, 300)).join("\n"), solver: "-" }); }
      }));
    }
  };
  workerData.port.on("message", (m) => {
    if (m.kind === "quick") quick(m.script, m.ms);
    else if (m.kind === "portfolio") portfolio(m.script, m.ms, m.names, m.alt);
    else if (m.kind === "exit") { persistent && kill(persistent.p); process.exit(0); }
  });
}

let worker, port, flag;
export const stats = { quick: 0, quickMs: 0, full: 0, fullMs: 0, bySolver: {} };
function ensure() {
  if (worker) return;
  const sab = new SharedArrayBuffer(4); flag = new Int32Array(sab);
  const ch = new MessageChannel(); port = ch.port1;
  worker = new Worker(fileURLToPath(import.meta.url), { workerData: { solverWorker: true, flag: sab, port: ch.port2 }, transferList: [ch.port2] });
  worker.unref(); port.unref?.();
}
function request(m) {
  ensure();
  Atomics.store(flag, 0, 0);
  port.postMessage(m);
  Atomics.wait(flag, 0, 0, m.ms * 3 + 20000);
  const r = receiveMessageOnPort(port);
  return r ? r.message : { status: "unknown", out: "no reply", solver: "-" };
}
export function quickCheck(script, ms = 400) {
  const t = performance.now(); const r = request({ kind: "quick", script, ms });
  stats.quick++; stats.quickMs += performance.now() - t; { const k = "q:" + r.status; stats.by ??= {}; (stats.by[k] ??= [0, 0])[0]++; stats.by[k][1] += performance.now() - t; } if (process.env.VERIF_SLOW && performance.now() - t > Number(process.env.VERIF_SLOW)) console.error(`quick ${Math.round(performance.now() - t)} ms ${r.status}\n${script}`); return r;
}
export function fullCheck(script, ms = 10000, names = ["z3", "cvc5"], alt = undefined) {
  const t = performance.now(); const r = request({ kind: "portfolio", script, ms, names: alt && alt !== script ? [...names, "z3re"] : names, alt });
  stats.full++; stats.fullMs += performance.now() - t; { const k = "f:" + r.status; stats.by ??= {}; (stats.by[k] ??= [0, 0])[0]++; stats.by[k][1] += performance.now() - t; } stats.bySolver[r.solver] = (stats.bySolver[r.solver] ?? 0) + 1; if (process.env.VERIF_SLOW && performance.now() - t > Number(process.env.VERIF_SLOW)) console.error(`full ${Math.round(performance.now() - t)} ms ${r.status} ${r.solver}\n${script}`); return r;
}
export function shutdown() { if (worker) { try { port.postMessage({ kind: "exit" }); } catch {} worker = undefined; } }
