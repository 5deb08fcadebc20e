// The worker script by itself: histories of requests (several in flight), against a model of the answers.
import { Rng, Env, model, fnv, installWorkerGlobals } from "./env.mjs";

export function image(rng, special = true) {
    const w = rng.range(1, 9), h = rng.range(1, 9);
    const data = new Uint8ClampedArray(w * h * 4);
    for (let i = 0; i < data.length; i++) data[i] = rng.below(250);
    if (special && rng.bool(1, 10)) data[0] = 254;
    if (special && rng.bool(1, 10)) data[2] = 252;
    if (special && rng.bool(1, 14)) data[1] = 253;
    return { w, h, data };
}

const eq = (a, b) => JSON.stringify(a) === JSON.stringify(b);

export async function runCase(k, seed, dir, count) {
    const rng = new Rng(seed * 1000003 + k);
    const env = new Env(rng);
    installWorkerGlobals(env);
    await import(`${dir}/webworker.js?c=${k}-${seed}`);
    let evals = 0, desc = [], sig = 17;
    const check = (ok, msg) => { evals++; if (!ok) env.viol(msg); };
    const weights = [], decomposed = [];  // what the client knows
    const n = rng.range(4, 30);
    const send = (method, args, transfer, handle, expectError, traps = false) => {
        count(`request_${method}`);
        desc.push(method);
        const before = env.nextId;
        env.request({ method, args }, transfer).then(
            r => {
                count("answers");
                if (expectError) env.viol(`${method} gives a result instead of an error: ${JSON.stringify(r)?.slice(0, 100)}`);
                else handle(r);
            },
            e => {
                count("errors");
                if (!expectError) env.viol(`${method} gives an error: ${e}`);
                else evals++;
            });
    };
    const blobIs = (b, w, h, rgba, what) => {
        check(b && b.width === w && b.height === h && b.w === w && b.h === h, `${what}: a blob of ${b?.width}x${b?.height} instead of ${w}x${h}`);
        check(b && eq(b.data, rgba), `${what}: wrong pixels`);
    };
    for (let i = 0; i < n; i++) {
        const kind = rng.below(10);
        if (kind < 2 || weights.length === 0) {
            const img = image(rng);
            const rgb = model.rgb(img.data);
            sig = fnv(rgb, sig);
            const copy = [...img.data];
            const bad = model.traps(rgb) || !model.hasWeights(rgb);
            send("createImageWeights", [img.data, img.w, img.h], [img.data.buffer], r => {
                check(Array.isArray(r) && r.length === 2, "createImageWeights' answer");
                check(eq([...r[1]], copy), "createImageWeights doesn't give the pixels back");
                const h = env.lib.handles.get(r[0]);
                check(h && h.kind === "weights" && h.w === img.w && h.h === img.h && eq(h.rgb, rgb), "the weights are those of another image");
                weights.push({ ptr: r[0], rgb, w: img.w, h: img.h, users: 0 });
            }, bad, model.traps(rgb));
        } else if (kind < 4) {
            const img = image(rng);
            const rgb = model.rgb(img.data);
            sig = fnv(rgb, sig);
            const copy = [...img.data];
            const min = rng.range(4, 12), max = rng.pick([4, 10, 60, 255]), bound = rng.pick([0, 0.5, 2 / 255]);
            send("computePalette", [img.data, img.w, img.h, min, max, bound], [img.data.buffer], r => {
                check(Array.isArray(r) && r.length === 2, "computePalette's answer");
                check(eq(r[0], model.palette(rgb, img.w, img.h, min, max, bound)), "computePalette gives another palette");
                check(eq([...r[1]], copy), "computePalette doesn't give the pixels back");
            }, model.traps(rgb) || !model.hasPalette(rgb), model.traps(rgb));
        } else if (kind < 6) {
            const iw = rng.pick(weights);
            const pal = [...Array(rng.range(3, 12)).keys()].map(() => [rng.below(256), rng.below(256), rng.below(256)]);
            if (rng.bool(1, 4)) pal[1] = [...pal[0]];
            sig = fnv(pal.flat(), sig);
            iw.users++;
            send("createDecomposedImage", [iw.ptr, pal], [], r => {
                iw.users--;
                const h = env.lib.handles.get(r);
                check(h && h.kind === "decomposed" && eq(h.pal, pal) && eq(h.rgb, iw.rgb), "the decomposed image is another one");
                decomposed.push({ ptr: r, rgb: iw.rgb, w: iw.w, h: iw.h, pal, users: 0 });
            }, !model.validPalette(pal));
            if (!model.validPalette(pal)) iw.users--;
        } else if (kind < 8 && decomposed.length > 0) {
            const d = rng.pick(decomposed);
            const c = rng.bool(1, 12) ? 77 : rng.bool(1, 6) ? d.pal.length + rng.below(3) : rng.below(d.pal.length);
            d.users++;
            send("grayscaleImageChannel", [d.ptr, c], [], r => {
                d.users--;
                blobIs(r, d.w, d.h, model.rgbaOfGray(model.gray(d.rgb, d.pal, c)), "grayscaleImageChannel");
            }, c >= d.pal.length, c === 77);
            if (c >= d.pal.length) d.users--;
        } else if (kind < 9 && decomposed.length > 0) {
            const d = rng.pick(decomposed);
            const q = d.pal.map(() => [rng.below(250), rng.below(256), rng.below(256)]);
            if (rng.bool(1, 8)) q[0][0] = rng.pick([250, 251]);
            const wrong = rng.bool(1, 8);
            if (wrong) {
                const n = rng.pick([1, q.length - 1, q.length + 1, q.length + 9].filter(n => n !== q.length));
                while (q.length > n) q.pop();
                while (q.length < n) q.push([rng.below(250), rng.below(256), rng.below(256)]);
                count("wrong_palette_sizes");
            }
            sig = fnv(q.flat(), sig);
            d.users++;
            send("reconstructImage", [d.ptr, q], [], r => {
                d.users--;
                blobIs(r, d.w, d.h, model.rgbaOfRgb(model.recolor(d.rgb, d.pal, q)), "reconstructImage");
            }, wrong || q[0][0] >= 250, q[0][0] === 251);
            if (wrong || q[0][0] >= 250) d.users--;
        } else if (rng.bool(1, 8)) {
            send("noSuchMethod", [], [], () => { }, true);
        } else {
            const [list, method] = rng.bool(1, 2) ? [weights, "freeImageWeights"] : [decomposed, "freeDecomposedImage"];
            const j = list.findIndex(x => x.users === 0);
            if (j >= 0) {
                const [x] = list.splice(j, 1);
                send(method, [x.ptr], [], () => check(!env.lib.handles.get(x.ptr).alive, `${method} doesn't free it`), false);
            }
        }
        // let some of it happen
        const steps = rng.below(7);
        for (let s = 0; s < steps && await env.step(); s++);
        if (weights.length === 0) await env.run();
        if (env.viols.length) break;
    }
    await env.run();
    check(env.unanswered() === 0, `${env.unanswered()} requests are never answered`);
    const left = env.lib.buffersLeft();
    check(left.length === 0, `buffers are leaked: ${left.map(a => `${a.kind} of ${a.size} bytes`).join(", ")}`);
    check(env.lib.aliveHandles("weights").length === weights.length, "weights are leaked or lost");
    check(env.lib.aliveHandles("decomposed").length === decomposed.length, "decomposed images are leaked or lost");
    count("events", env.events);
    count("library_calls", env.lib.stats.calls);
    count("buffers", env.lib.stats.allocs);
    count("memory_growths", env.lib.stats.grown);
    if (env.maxInFlight > 1) count("overlapping_histories");
    return { viols: env.viols, evals, sig: (sig ^ env.interleaving) >>> 0, desc: `${n} requests, ${env.events} events, up to ${env.maxInFlight} in flight: ${desc.slice(0, 6).join(" ")}...` };
}
