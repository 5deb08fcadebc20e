// node main.mjs <worker|page> <seed> <directory of the scripts> <start> <stride> <end> <budget seconds>
import { writeSync } from "node:fs";
const [mode, seed, dir, start, stride, end, budget] = process.argv.slice(2);
const { runCase } = await import(mode === "worker" ? "./worker.mjs" : "./page.mjs");
const counters = {};
const count = (k, n = 1) => { counters[k] = (counters[k] ?? 0) + n; };
const out = s => writeSync(1, s + "\n");
globalThis.console = { ...console, log() { }, info() { }, warn() { }, error() { }, debug() { } };
process.on("unhandledRejection", e => { globalThis.__env?.rejections.push(e); });
const t0 = Date.now();
for (let k = Number(start); k < Number(end) && Date.now() - t0 < Number(budget) * 1000; k += Number(stride)) {
    out(`B ${k}`);
    const r = await runCase(k, Number(seed), "file://" + dir, count);
    for (const v of r.viols) out(`V ${k} ${v.replaceAll("\n", " ")}`);
    out(`D ${k} ${r.evals} 1 ${r.sig.toString(16).padStart(8, "0")} ${r.desc}`);
}
for (const [k, n] of Object.entries(counters)) out(`C ${k} ${n}`);
out("END");
process.exit(0);
