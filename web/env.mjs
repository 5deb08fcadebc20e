// A simulated browser around the real page and worker scripts: a deterministic event loop that interleaves
// everything asynchronous at random, and a wasm library that watches its memory.

export class Rng {
    constructor(seed) { this.s = BigInt.asUintN(64, BigInt(seed) * 0x9E3779B97F4A7C15n + 0x1234567n); }
    next() {
        this.s = BigInt.asUintN(64, this.s + 0x9E3779B97F4A7C15n);
        let z = this.s;
        z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xBF58476D1CE4E5B9n);
        z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94D049BB133111EBn);
        return Number((z ^ (z >> 31n)) >> 11n);
    }
    below(n) { return this.next() % n; }
    range(a, b) { return a + this.below(b - a + 1); }
    bool(n, d) { return this.below(d) < n; }
    pick(a) { return a[this.below(a.length)]; }
}

export function fnv(bytes, h = 0x811c9dc5) {
    for (const b of bytes) h = Math.imul(h ^ b, 0x01000193) >>> 0;
    return h;
}

/// What the library computes, as far as the scripts are concerned: any function of its input will do, as
/// long as every byte of the input matters.
export const model = {
    rgb(rgba) {
        const out = [];
        for (let i = 0; i < rgba.length; i += 4) out.push(rgba[i], rgba[i + 1], rgba[i + 2]);
        return out;
    },
    hasWeights: rgb => rgb.length > 0 && rgb[0] !== 254,
    traps: rgb => rgb[1] === 253,
    hasPalette: rgb => rgb[2] !== 252,
    palette(rgb, w, h, min, max, bound) {
        const lo = Math.max(4, min), hi = Math.max(lo, max);
        const n = Math.min(255, lo + fnv(rgb, w * 7 + h) % (hi - lo + 1));
        const seed = fnv([w & 255, h & 255, Math.round(bound * 1000) & 255], fnv(rgb));
        return [...Array(n).keys()].map(i => [i, (seed >>> 3) + 7 * i & 255, (seed >>> 11) + i * i & 255]);
    },
    validPalette: p => p.length >= 4 && new Set(p.map(c => c.join())).size === p.length,
    gray(rgb, pal, c) {
        const out = [], k = fnv(pal.flat()) + c * 29;
        for (let i = 0; i < rgb.length; i += 3) out.push(rgb[i] + rgb[i + 1] * 3 + rgb[i + 2] * 5 + k & 255);
        return out;
    },
    recolor(rgb, pal, q) {
        const k = fnv(q.flat(), fnv(pal.flat()));
        return rgb.map((v, i) => v * 3 + k + i & 255);
    },
    rgbaOfGray: g => g.flatMap(v => [v, v, v, 255]),
    rgbaOfRgb: p => { const o = []; for (let i = 0; i < p.length; i += 3) o.push(p[i], p[i + 1], p[i + 2], 255); return o; },
};

const GUARD = 24;

export class Library {
    constructor(env) {
        this.env = env;
        this.memory = new WebAssembly.Memory({ initial: 1, maximum: 2000 });
        this.live = new Map();     // pointer -> {size, kind}
        this.handles = new Map();  // pointer -> object
        this.dead = new Map();
        this.top = 1024;
        this.stats = { allocs: 0, frees: 0, grown: 0, calls: 0 };
        const wrap = o => Object.fromEntries(Object.entries(o).map(([k, f]) => [k, (...a) => this.call(k, f, a)]));
        this.exports = {
            memory: this.memory,
            ...wrap({
                create_image_buffer: size => this.alloc(size, "buffer"),
                free_image_buffer: (size, ptr) => this.free(ptr, size, "buffer"),
                create_image_weights: (w, h, ptr) => {
                    const rgb = this.read(ptr, 3 * w * h, "image");
                    if (model.traps(rgb)) throw new WebAssembly.RuntimeError("unreachable");
                    return model.hasWeights(rgb) ? this.handle("weights", { w, h, rgb }) : 0;
                },
                free_image_weights: ptr => this.release(ptr, "weights"),
                compute_palette: (w, h, ptr, min, max, bound, out) => {
                    const rgb = this.read(ptr, 3 * w * h, "image");
                    if (out >= ptr && out < ptr + 3 * w * h) this.bad("the palette's size overwrites the image");
                    if (min !== (min & 255) || max !== (max & 255) || typeof bound !== "number") this.bad(`palette parameters ${min}, ${max}, ${bound}`);
                    if (model.traps(rgb)) throw new WebAssembly.RuntimeError("unreachable");
                    if (!model.hasPalette(rgb)) return 0;
                    const p = model.palette(rgb, w, h, min, max, bound).flat();
                    const q = this.alloc(p.length, "palette");
                    this.write(q, p, "palette");
                    this.write(out, [p.length / 3], "palette size");
                    return q;
                },
                free_computed_palette: (ptr, n) => this.free(ptr, 3 * n, "palette"),
                create_decomposed_image: (weights, n, ptr) => {
                    const b = this.read(ptr, 3 * n, "palette");
                    const pal = [...Array(n).keys()].map(i => b.slice(3 * i, 3 * i + 3));
                    const iw = this.use(weights, "weights");
                    if (!iw || !model.validPalette(pal)) return 0;
                    return this.handle("decomposed", { w: iw.w, h: iw.h, rgb: iw.rgb, pal });
                },
                free_decomposed_image: ptr => this.release(ptr, "decomposed"),
                get_decomposed_image_width: ptr => this.use(ptr, "decomposed")?.w ?? 0,
                get_decomposed_image_height: ptr => this.use(ptr, "decomposed")?.h ?? 0,
                get_decomposed_image_num_channels: ptr => this.use(ptr, "decomposed")?.pal.length ?? 0,
                reconstruct_image: (ptr, pal, out) => {
                    const d = this.use(ptr, "decomposed");
                    if (!d) return 0;
                    const b = this.read(pal, 3 * d.pal.length, "palette");
                    if (b[0] === 251) throw new WebAssembly.RuntimeError("unreachable");
                    if (b[0] === 250) return 0;
                    const q = d.pal.map((_, i) => b.slice(3 * i, 3 * i + 3));
                    this.write(out, model.recolor(d.rgb, d.pal, q), "image");
                    return 1;
                },
                grayscale_image_channel: (ptr, c, out) => {
                    const d = this.use(ptr, "decomposed");
                    if (!d) return 0;
                    if (c === 77) throw new WebAssembly.RuntimeError("unreachable");
                    if (!(c >= 0 && c < d.pal.length)) return 0;
                    this.write(out, model.gray(d.rgb, d.pal, c), "image");
                    return 1;
                },
            }),
        };
    }
    bad(msg) { this.env.viol(msg); }
    call(name, f, args) {
        this.stats.calls++;
        if (args.some(a => a === undefined || (typeof a === "number" && Number.isNaN(a) && name !== "compute_palette"))) this.bad(`${name} is called with ${args}`);
        const r = f(...args.map(a => a === undefined ? 0 : a));
        // The library allocates for itself: memory grows, and all views of it are detached.
        if (this.env.rng.bool(1, 2)) { this.memory.grow(1); this.stats.grown++; }
        return r;
    }
    bytes() { return new Uint8Array(this.memory.buffer); }
    alloc(size, kind) {
        if (!(Number.isInteger(size) && size >= 0)) { this.bad(`a buffer of ${size} bytes is allocated`); size = 0; }
        const ptr = this.top + GUARD;
        this.top = ptr + size + GUARD + this.env.rng.below(40);
        while (this.top + 100 > this.memory.buffer.byteLength) { this.memory.grow(1); this.stats.grown++; }
        this.bytes().fill(0xA7, ptr - GUARD, ptr + size + GUARD);
        this.live.set(ptr, { size, kind });
        this.stats.allocs++;
        return ptr;
    }
    free(ptr, size, kind) {
        const a = this.live.get(ptr);
        if (!a || a.kind !== kind) {
            this.bad(`${ptr} is freed as a ${kind} of ${size} bytes, but ${a ? `is a ${a.kind}` : this.dead.has(ptr) ? "was freed already" : "isn't one"}`);
            return;
        }
        if (a.size !== size) this.bad(`a ${kind} of ${a.size} bytes is freed with a size of ${size}`);
        this.guards(ptr, a);
        this.live.delete(ptr);
        this.dead.set(ptr, a);
        this.bytes().fill(0xDD, ptr, ptr + a.size);
        this.stats.frees++;
    }
    guards(ptr, a) {
        const m = this.bytes();
        for (let i = 1; i <= GUARD; i++) {
            if (m[ptr - i] !== 0xA7 || m[ptr + a.size + i - 1] !== 0xA7) { this.bad(`written outside of a ${a.kind} of ${a.size} bytes`); return; }
        }
    }
    within(ptr, n, what) {
        for (const [p, a] of this.live) if (ptr >= p && ptr + n <= p + a.size) return true;
        this.bad(`the ${what} (${n} bytes at ${ptr}) isn't inside of a live buffer`);
        return false;
    }
    read(ptr, n, what) {
        this.within(ptr, n, what);
        return [...this.bytes().subarray(ptr, ptr + n)];
    }
    write(ptr, data, what) {
        if (this.within(ptr, data.length, what)) this.bytes().set(data, ptr);
    }
    handle(kind, obj) {
        const ptr = this.top + 8;
        this.top = ptr + 16;
        while (this.top + 100 > this.memory.buffer.byteLength) this.memory.grow(1);
        this.handles.set(ptr, { kind, alive: true, ...obj });
        return ptr;
    }
    use(ptr, kind) {
        const h = this.handles.get(ptr);
        if (!h || h.kind !== kind) { this.bad(`${ptr} is used as ${kind}, but is ${h ? h.kind : "nothing"}`); return null; }
        if (!h.alive) { this.bad(`${kind} ${ptr} is used after it was freed`); return null; }
        return h;
    }
    release(ptr, kind) {
        const h = this.handles.get(ptr);
        if (!h || h.kind !== kind) { this.bad(`${ptr} is freed as ${kind}, but is ${h ? h.kind : "nothing"}`); return; }
        if (!h.alive) { this.bad(`${kind} ${ptr} is freed twice`); return; }
        h.alive = false;
        this.stats.frees++;
    }
    aliveHandles(kind) { return [...this.handles.values()].filter(h => h.kind === kind && h.alive); }
    buffersLeft() { return [...this.live.values()]; }
}

/// A browser: tasks become runnable, and run one at a time in random order (in order within a channel).
export class Env {
    constructor(rng) {
        this.rng = rng;
        this.viols = [];
        this.channels = new Map();
        this.lib = new Library(this);
        this.nextId = 1;
        this.pending = new Map();
        this.events = 0;
        this.rejections = [];
        this.inFlight = 0;
        this.maxInFlight = 0;
        this.interleaving = 2166136261;
        this.log = [];
    }
    viol(msg) { if (this.viols.length < 4 && !this.viols.includes(msg)) this.viols.push(msg); }
    post(channel, f) {
        if (!this.channels.has(channel)) this.channels.set(channel, []);
        this.channels.get(channel).push(f);
    }
    /// something that may finish in any order
    later(f, what = "task") { this.post(`${what}${this.events}-${Math.random()}`, f); }
    runnable() { return [...this.channels.keys()].filter(k => this.channels.get(k).length > 0); }
    async settle() { for (let i = 0; i < 3; i++) await new Promise(r => realSetImmediate(r)); }
    async step() {
        const r = this.runnable();
        if (r.length === 0) return false;
        const c = r[this.rng.below(r.length)];
        const q = this.channels.get(c), f = q.shift();
        if (q.length === 0) this.channels.delete(c);
        this.events++;
        this.interleaving = Math.imul(this.interleaving ^ (c.length * 31 + r.length), 16777619) >>> 0;
        f();
        await this.settle();
        return true;
    }
    async run(limit = 20000) {
        let n = 0;
        await this.settle();
        while (await this.step()) if (++n > limit) throw new Error("the simulation doesn't come to an end");
    }
    // --- messages between the page and the worker
    attachWorker(w) { this.worker = w; for (const m of this.early ?? []) this.deliver(m); this.early = null; }
    attachThread() { }
    deliver({ id, payload }) {
        if (!this.worker) { (this.early ??= []).push({ id, payload }); return; }
        this.handling = id;
        let p;
        try { p = Promise.resolve(this.worker.onRequest(id, payload)); } catch (e) { p = Promise.reject(e); }
        p.catch(e => {
            if (!(e instanceof WebAssembly.RuntimeError)) this.viol(`the worker fails: ${e}`);
            this.respond(id, String(e), [], true, true);
        });
    }
    request(payload, transfer) {
        const id = this.nextId++;
        const data = structuredClone(payload, { transfer });
        this.inFlight++;
        this.maxInFlight = Math.max(this.maxInFlight, this.inFlight);
        return new Promise((resolve, reject) => {
            this.pending.set(id, { resolve, reject, answers: 0 });
            this.post("to worker", () => this.deliver({ id, payload: data }));
        });
    }
    respond(id, payload, transfer, isError, thrown = false) {
        const p = this.pending.get(id);
        if (!p) { this.viol(`an answer to request ${id} which wasn't made`); return; }
        p.answers++;
        if (p.answers > 1) { if (!thrown) this.viol("a request is answered twice"); return; }
        this.inFlight--;
        const data = structuredClone(payload, { transfer });
        this.post("to page", () => isError ? p.reject(data) : p.resolve(data));
    }
    unanswered() { return [...this.pending.values()].filter(p => p.answers === 0).length; }
}

export const realSetImmediate = globalThis.setImmediate;

export class ImageDataMock {
    constructor(array, width, height) {
        if (!(array instanceof Uint8ClampedArray)) throw new TypeError("not a Uint8ClampedArray");
        if (array.length !== width * height * 4 || array.length === 0) throw new Error("InvalidStateError: ImageData's size");
        this.data = array; this.width = width; this.height = height;
    }
}

export function installWorkerGlobals(env) {
    globalThis.__env = env;
    globalThis.self = globalThis;
    globalThis.ImageData = ImageDataMock;
    globalThis.OffscreenCanvas = class {
        constructor(width, height) { this.width = width; this.height = height; }
        getContext() {
            const canvas = this;
            return {
                drawImage(img) { canvas.pixels = img.pixels(); },
                putImageData(d, x, y) { canvas.pixels = { w: d.width, h: d.height, data: [...d.data] }; },
                getImageData(x, y, w, h) {
                    if (w === 0 || h === 0) throw new Error("IndexSizeError");
                    return new ImageDataMock(new Uint8ClampedArray(canvas.pixels.data), w, h);
                },
            };
        }
        convertToBlob() {
            // takes its time; the pixels are the ones from now
            const p = { ...this.pixels, blob: true, width: this.width, height: this.height };
            return new Promise(resolve => env.later(() => resolve(p), "blob"));
        }
    };
    const instance = { exports: env.lib.exports };
    WebAssembly.compileStreaming = async r => { await r; return {}; };
    WebAssembly.instantiate = async () => new Promise(resolve => env.later(() => resolve(instance), "wasm"));
    WebAssembly.instantiateStreaming = async r => { await r; return { module: {}, instance }; };
    globalThis.fetch = url => new Promise(resolve => env.later(() => resolve(env.fetched(String(url))), "fetch"));
    env.fetched ??= () => ({});
}
