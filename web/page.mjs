// The page and the worker together, in a simulated browser, under random user actions.
import { readFileSync } from "node:fs";
import { fileURLToPath } from "node:url";
import { Rng, Env, model, fnv, installWorkerGlobals } from "./env.mjs";

const VOID = new Set(["img", "input", "br", "link", "meta", "hr"]);

class Element {
    constructor(env, tag, attrs) {
        this.env = env; this.tagName = tag.toUpperCase(); this.attrs = attrs; this.kids = []; this.parent = null;
        this.style = { visibility: /visibility:\s*hidden/.test(attrs.style ?? "") ? "hidden" : "visible" };
        this.listeners = {}; this.disabled = "disabled" in attrs; this._src = ""; this.files = [];
        this._value = attrs.value ?? (tag === "input" && attrs.type === "color" ? "#000000" : "");
        this.onchange = null; this.oninput = null; this.onclick = null; this.onload = null;
    }
    get id() { return this.attrs.id ?? ""; }
    get name() { return this.attrs.name ?? ""; }
    get type() { return this.attrs.type ?? ""; }
    get value() { return this._value; }
    set value(v) {
        v = String(v);
        // what browsers do with a colour field
        if (this.type === "color") { this._value = /^#[0-9a-fA-F]{6}$/.test(v) ? v.toLowerCase() : "#000000"; return; }
        this._value = v;
    }
    get children() {
        // live, like an HTMLCollection
        const named = (t, n) => t.find(k => k.id === n || k.name === n);
        return new Proxy(this.kids, {
            get(t, p) { if (p === "item") return i => t[i] ?? null; if (p === "namedItem") return n => named(t, n) ?? null; return p in t ? Reflect.get(t, p) : named(t, p); },
        });
    }
    get childElementCount() { return this.kids.length; }
    get firstElementChild() { return this.kids[0] ?? null; }
    get lastElementChild() { return this.kids.at(-1) ?? null; }
    sibling(d) { const l = this.parent?.kids ?? []; return l[l.indexOf(this) + d] ?? null; }
    get nextElementSibling() { return this.sibling(1); }
    get previousElementSibling() { return this.sibling(-1); }
    get parentElement() { return this.parent; }
    appendChild(c) { c.parent?.removeChild(c); this.kids.push(c); c.parent = this; return c; }
    append(...c) { for (const x of c) this.appendChild(x); }
    removeChild(c) { const i = this.kids.indexOf(c); if (i < 0) throw new Error("NotFoundError"); this.kids.splice(i, 1); c.parent = null; return c; }
    remove() { this.parent?.removeChild(this); }
    replaceChildren(...c) { while (this.kids.length) this.removeChild(this.kids[0]); this.append(...c); }
    cloneNode(deep) {
        const c = new Element(this.env, this.tagName.toLowerCase(), { ...this.attrs });
        c._value = this._value;
        if (deep) for (const k of this.kids) c.appendChild(k.cloneNode(true));
        return c;
    }
    walk(f) { if (f(this)) return this; for (const k of this.kids) { const r = k.walk(f); if (r) return r; } return null; }
    walkAll(f, out = []) { if (f(this)) out.push(this); for (const k of this.kids) k.walkAll(f, out); return out; }
    matches(sel) {
        const m = /^([a-z0-9]*)(#[\w-]+)?(\.[\w-]+)?(?:\[(\w+)=["']?([\w-]+)["']?\])?$/i.exec(sel.trim());
        if (!m) throw new Error(`selector ${sel}`);
        return (!m[1] || this.tagName === m[1].toUpperCase()) && (!m[2] || this.id === m[2].slice(1)) &&
            (!m[3] || (this.attrs.class ?? "").split(" ").includes(m[3].slice(1))) && (!m[4] || this.attrs[m[4]] === m[5]);
    }
    querySelector(s) { return this.walk(e => e !== this && e.matches(s)); }
    querySelectorAll(s) { return this.walkAll(e => e !== this && e.matches(s)); }
    setAttribute(k, v) { this.attrs[k] = v; if (k === "disabled") this.disabled = true; }
    getAttribute(k) { return this.attrs[k] ?? null; }
    removeAttribute(k) { delete this.attrs[k]; if (k === "disabled") this.disabled = false; }
    insertBefore(c, ref) { c.parent?.removeChild(c); const i = ref ? this.kids.indexOf(ref) : this.kids.length; this.kids.splice(i, 0, c); c.parent = this; return c; }
    prepend(c) { this.insertBefore(c, this.kids[0] ?? null); }
    get childNodes() { return this.children; }
    get firstChild() { return this.firstElementChild; }
    get lastChild() { return this.lastElementChild; }
    get nextSibling() { return this.nextElementSibling; }
    get previousSibling() { return this.previousElementSibling; }
    get parentNode() { return this.parent; }
    get classList() {
        const l = () => (this.attrs.class ?? "").split(" ").filter(Boolean), set = x => { this.attrs.class = x.join(" "); };
        return { add: c => set([...new Set([...l(), c])]), remove: c => set(l().filter(x => x !== c)), contains: c => l().includes(c), toggle: (c, on = !l().includes(c)) => set(on ? [...new Set([...l(), c])] : l().filter(x => x !== c)) };
    }
    get dataset() { return this._data ??= {}; }
    focus() { } blur() { } click() { if (!this.disabled) this.fire("click"); }
    addEventListener(t, f, o) {
        const g = o?.once ? (...a) => { this.removeEventListener(t, g); return f(...a); } : f;
        (this.listeners[t] ??= []).push(g);
    }
    removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] ?? []).filter(g => g !== f); }
    fire(type) {
        const ev = { target: this, currentTarget: this, type, preventDefault() { }, stopPropagation() { } };
        for (const f of [this["on" + type], ...this.listeners[type] ?? []]) {
            if (typeof f !== "function") continue;
            try { f.call(this, ev); } catch (e) { this.env.viol(`the page fails: ${e?.stack ?? e}`); }
        }
    }
    get src() { return this._src; }
    set src(v) {
        this._src = String(v);
        this.shown = this.env.urlData(this._src);
        if (this.tagName === "IMG") {
            const url = this._src;
            this.env.later(() => { if (this._src === url && url) this.fire(this.shown?.broken ? "error" : "load"); }, "load");
        }
    }
    get width() { return this.shown?.broken ? 0 : this.shown?.width ?? 0; }
    get height() { return this.shown?.broken ? 0 : this.shown?.height ?? 0; }
    get naturalWidth() { return this.width; }
    get naturalHeight() { return this.height; }
    get complete() { return true; }
    async decode() { }
    pixels() { return { w: this.width, h: this.height, data: [...(this.shown?.data ?? [])] }; }
}

function parse(env, html) {
    const root = new Element(env, "document", {});
    const stack = [root];
    for (const m of html.replace(/<!--[^]*?-->/g, "").matchAll(/<(\/?)([a-zA-Z0-9]+)((?:\s+[\w-]+(?:=(?:"[^"]*"|'[^']*'))?)*)\s*\/?>/g)) {
        const tag = m[2].toLowerCase();
        if (m[1]) { while (!VOID.has(tag) && stack.length > 1 && stack.pop().tagName !== tag.toUpperCase()); continue; }
        const attrs = {};
        for (const a of m[3].matchAll(/([\w-]+)(?:=(?:"([^"]*)"|'([^']*)'))?/g)) attrs[a[1]] = a[2] ?? a[3] ?? "";
        const e = new Element(env, tag, attrs);
        stack.at(-1).appendChild(e);
        if (!VOID.has(tag)) stack.push(e);
    }
    return root;
}

let fileCount = 0;
function makeImage(rng) {
    const w = rng.range(1, 7), h = rng.range(1, 7);
    const data = [];
    for (let i = 0; i < w * h; i++) data.push(rng.below(250), rng.below(250), rng.below(250), 255);
    return { width: w, height: h, w, h, data, blob: true, file: ++fileCount };
}

// pictures that the library refuses, traps at, or has no palette for
function makeUnusable(rng) {
    const f = makeImage(rng);
    f.unusable = rng.pick(["refused", "trap", "no palette"]);
    const i = ["refused", "trap", "no palette"].indexOf(f.unusable);
    f.data[i] = 254 - i;
    return f;
}

export async function runCase(k, seed, dir, count) {
    const rng = new Rng(seed * 7000009 + k);
    const env = new Env(rng);
    const urls = new Map();
    let evals = 0, sig = 17;
    const check = (ok, msg) => { evals++; if (!ok) env.viol(msg); return ok; };
    env.urlData = u => {
        if (u === "") return null;
        const b = urls.get(u);
        if (!b) { env.viol(`an image shows ${u}, which was ${u in env.revoked ? "revoked" : "never created"}`); return null; }
        return b;
    };
    env.revoked = {};
    const example = makeImage(rng);
    env.fetched = url => ({ ok: true, blob: async () => example, arrayBuffer: async () => new ArrayBuffer(8) });
    installWorkerGlobals(env);
    const doc = parse(env, readFileSync(fileURLToPath(`${dir}/../html/index.html`), "utf8"));
    const windowListeners = {};
    globalThis.document = Object.assign(doc, {
        getElementById: id => doc.walk(e => e.id === id), createElement: t => new Element(env, t, {}), body: doc.walk(e => e.tagName === "BODY"),
    });
    globalThis.setTimeout = (f, t, ...a) => { env.later(() => f(...a), "timer"); return 1; };
    globalThis.clearTimeout = () => { };
    globalThis.requestAnimationFrame = f => { env.later(() => f(0), "frame"); return 1; };
    globalThis.location = { href: "http://localhost/", search: "", hash: "" };
    globalThis.alert = () => { };
    globalThis.window = { addEventListener: (t, f) => (windowListeners[t] ??= []).push(f) };
    globalThis.Image = class extends Element { constructor() { super(env, "img", {}); } };
    globalThis.FileReader = class { readAsDataURL(b) { this.result = "data:"; env.later(() => this.onload?.({}), "reader"); } };
    let urlN = 0;
    URL.createObjectURL = b => {
        if (!b || !b.blob) throw new TypeError(`an URL is made from ${b}`);
        const u = `blob:${++urlN}`;
        urls.set(u, b ?? {});
        return u;
    };
    URL.revokeObjectURL = u => {
        if (!urls.has(u)) env.viol(`${u} is revoked ${u in env.revoked ? "twice" : "but was never created"}`);
        urls.delete(u);
        env.revoked[u] = 1;
    };
    await import(`${dir}/webworker.js?c=${k}-${seed}`);
    await import(`${dir}/index.js?c=${k}-${seed}`);
    const $ = id => doc.getElementById(id);
    const wrapper = $("palette-wrapper");
    doc.fire("DOMContentLoaded");
    for (const f of windowListeners.DOMContentLoaded ?? []) f({});
    for (const f of windowListeners.load ?? []) f({});
    window.onload?.({});

    let current = example, pickedNew = null, errors = 0, expectErrors = 0;
    const steps = async n => { for (let s = 0; s < n && await env.step(); s++); };
    const busy = () => env.runnable().length > 0;
    const field = (i, name) => wrapper.kids[i].children[name];
    const hexOf = c => "#" + c.map(v => v.toString(16).padStart(2, "0")).join("");
    const rgbOf = v => [1, 3, 5].map(i => parseInt(v.slice(i, i + 2), 16));
    const bounds = () => [$("min-palette-cnt"), $("max-palette-cnt"), $("palette-err-limit")].map(e => Number(e.value));

    // what the page has to show when nothing is going on any more
    const quiescent = (what, pal, expectPalette) => {
        const left = env.lib.buffersLeft();
        check(left.length === 0, `${what}: buffers are leaked: ${left.map(a => `${a.kind} of ${a.size} bytes`).join(", ")}`);
        check(env.unanswered() === 0, `${what}: requests are never answered`);
        const iw = env.lib.aliveHandles("weights"), d = env.lib.aliveHandles("decomposed");
        const rgb = model.rgb(current.data);
        if (!check(iw.length === 1, `${what}: ${iw.length} images' weights are kept`)) return false;
        if (!check(JSON.stringify(iw[0].rgb) === JSON.stringify(rgb), `${what}: the weights are those of another image`)) return false;
        const src = wrapper.kids.map((_, i) => rgbOf(field(i, "palette-src-color").value));
        const dst = wrapper.kids.map((_, i) => rgbOf(field(i, "palette-dst-color").value));
        if (expectPalette) {
            if (!check(JSON.stringify(src) === JSON.stringify(expectPalette), `${what}: the palette shown isn't the one that was computed`)) return false;
            check(JSON.stringify(dst) === JSON.stringify(expectPalette), `${what}: the colours to recolour with aren't reset to the palette`);
            for (let i = 0; i < src.length; i++) for (const f of ["palette-src-color", "palette-dst-color"]) {
                check(field(i, f + "-txt").value.toLowerCase() === field(i, f).value, `${what}: the text next to a colour is ${field(i, f + "-txt").value} instead of ${field(i, f).value}`);
            }
        }
        if (!model.validPalette(src)) { check(d.length === 0, `${what}: a decomposed image is kept for an invalid palette`); count("invalid_palettes"); return true; }
        if (!check(d.length === 1, `${what}: ${d.length} decomposed images are kept`)) return false;
        check(JSON.stringify([d[0].rgb, d[0].pal]) === JSON.stringify([rgb, src]), `${what}: the image is decomposed for something else`);
        for (let i = 0; i < src.length; i++) {
            const img = field(i, "palette-img");
            check(img.shown && JSON.stringify(img.shown.data) === JSON.stringify(model.rgbaOfGray(model.gray(rgb, src, i))), `${what}: channel ${i}'s preview is wrong`);
            check(urls.has(img.src), `${what}: channel ${i}'s preview was revoked`);
        }
        const out = $("dst-img").shown;
        check(out && JSON.stringify(out.data) === JSON.stringify(model.rgbaOfRgb(model.recolor(rgb, src, dst))), `${what}: the recoloured image is wrong`);
        check(out && out.width === current.width && out.height === current.height, `${what}: the recoloured image's size`);
        check(urls.size === 2 + src.length, `${what}: ${urls.size} object URLs are alive for ${2 + src.length} images`);
        check($("dst-spinner").style.visibility === "hidden", `${what}: the spinner is still visible`);
        for (const id of ["recompute-output-button", "recompute-palette-button", "src-img-picker"]) check(!$(id).disabled, `${what}: ${id} is still disabled`);
        count("pictures_checked", 1 + src.length);
        return true;
    };
    // ... and when the current picture can't be decomposed
    const unusable = what => {
        const left = env.lib.buffersLeft();
        check(left.length === 0, `${what}: buffers are leaked: ${left.map(a => `${a.kind} of ${a.size} bytes`).join(", ")}`);
        check(env.unanswered() === 0, `${what}: requests are never answered`);
        const iw = env.lib.aliveHandles("weights"), d = env.lib.aliveHandles("decomposed");
        const rgb = JSON.stringify(model.rgb(current.data));
        check(iw.length <= (current.unusable === "no palette" ? 1 : 0) && iw.every(h => JSON.stringify(h.rgb) === rgb), `${what}: weights of another picture are kept`);
        check(d.length <= iw.length && d.every(h => JSON.stringify(h.rgb) === rgb), `${what}: a decomposition of another picture is kept`);
        check(urls.size <= 2 + wrapper.kids.length, `${what}: ${urls.size} object URLs are alive`);
        check(!$("src-img-picker").disabled, `${what}: no other picture can be chosen`);
        count("unusable_checked");
        return env.viols.length === 0;
    };
    const computed = () => model.palette(model.rgb(current.data), current.width, current.height, ...bounds());

    if (rng.bool(1, 3)) {
        // impatient: something happens before the first picture is there
        await steps(rng.below(30));
        const b = $("recompute-palette-button");
        if (!b.disabled && env.lib.aliveHandles("weights").length === 1) { b.fire("click"); count("impatient"); }
    }
    await env.run();
    quiescent("at the start", null, computed());
    const n = rng.range(2, 7);
    const done = [];
    for (let a = 0; a < n && env.viols.length === 0; a++) {
        const burst = rng.bool(1, 2) ? 1 : rng.range(2, 4);
        let paletteReset = false, lastOp = "";
        for (let b = 0; b < burst; b++) {
            const kind = rng.below(10);
            if (kind < 2) {
                const p = $("src-img-picker");
                // (two pictures at once are a matter of the browser's file dialog)
                if (p.disabled || paletteReset) continue;
                const what = rng.below(8);
                if (what === 0) {
                    // the dialog is closed without choosing anything
                    p.files = [];
                    p.fire("change");
                    count("cancelled_picks");
                    continue;
                }
                if (what === 1) {
                    // a file that isn't a picture
                    p.files = [{ blob: true, broken: true, file: ++fileCount }];
                    p.fire("change");
                    count("broken_picks");
                    lastOp = lastOp || "broken";
                } else {
                    const f = what < 4 ? makeUnusable(rng) : makeImage(rng);
                    p.files = [f];
                    current = f;
                    p.fire("change");
                    paletteReset = true;
                    sig = fnv(f.data, sig);
                    lastOp = f.unusable ?? "pick";
                    if (f.unusable) count("unusable_picks");
                }
            } else if (kind < 4) {
                if ($("recompute-palette-button").disabled) continue;
                $("min-palette-cnt").value = rng.range(4, 7);
                $("max-palette-cnt").value = rng.range(7, 12);
                $("palette-err-limit").value = rng.pick([0, 0.5, 0.01]);
                $("recompute-palette-button").fire("click");
                paletteReset = true;
                lastOp = "palette";
            } else if (kind < 7) {
                if (wrapper.kids.length === 0) continue;
                const i = rng.below(wrapper.kids.length), f = rng.pick(["palette-src-color", "palette-dst-color"]);
                const c = [rng.below(250), rng.below(256), rng.below(256)];
                const bad = rng.bool(1, 5) && f === "palette-src-color";
                const v = hexOf(bad ? rgbOf(field((i + 1) % wrapper.kids.length, f).value) : c);
                const e = field(i, f), t = field(i, f + "-txt");
                if (rng.bool(1, 2)) {
                    e.value = v;
                    e.fire("change");
                    check(t.value.toLowerCase() === v, `the text field doesn't follow the colour: ${t.value} instead of ${v}`);
                } else {
                    const before = e.value;
                    let text = v, valid = true;
                    switch (rng.below(7)) {
                        case 0: text = v.toUpperCase(); break;
                        case 1: text = v.slice(0, rng.below(7)); valid = false; break;
                        case 2: text = v + rng.pick(["0", " ", "f"]); valid = false; break;
                        case 3: { const at = rng.range(1, 6); text = v.slice(0, at) + rng.pick(["g", "G", "-", " ", "+", ".", "x", "#", "é", "／", ":", "@", "`"]) + v.slice(at + 1); valid = false; break; }
                        case 4: text = v.slice(1) + "0"; valid = false; break;
                    }
                    t.value = text;
                    t.fire("input");
                    check(e.value === (valid ? v : before), `the text ${text} changes the colour from ${before} to ${e.value}`);
                    count(valid ? "valid_texts" : "invalid_texts");
                }
                count("edits");
            } else if (kind < 9) {
                if ($("recompute-output-button").disabled) continue;
                $("recompute-output-button").fire("click");
                count("output_clicks");
                lastOp = lastOp || "output";
            } else continue;
            done.push(lastOp || "edit");
            await steps(rng.below(rng.bool(1, 2) ? 4 : 40));
        }
        if (burst > 1) count("bursts");
        await env.run();
        if (env.viols.length) break;
        if (current.unusable) {
            if (!unusable("after a picture that can't be used")) break;
            // whatever can be clicked does no harm
            for (const id of rng.bool(1, 2) ? ["recompute-output-button", "recompute-palette-button"] : []) if (!$(id).disabled && rng.bool(1, 2)) $(id).fire("click");
            await env.run();
            if (env.viols.length || !unusable("after clicks for a picture that can't be used")) break;
            const f = makeImage(rng);
            $("src-img-picker").files = [f];
            current = f;
            $("src-img-picker").fire("change");
            await env.run();
            if (!quiescent("after a picture that can't be used and another one", null, computed())) break;
            continue;
        }
        // whatever happened, the output is up to date after asking for it
        if (paletteReset && burst === 1) quiescent("after a new palette", null, computed());
        if ($("recompute-output-button").disabled) { env.viol("the controls stay disabled"); break; }
        $("recompute-output-button").fire("click");
        await env.run();
        if (!quiescent("after recomputing the output", null, null)) break;
    }
    for (const e of env.rejections) {
        if (typeof e !== "string") check(false, `the page fails: ${e?.stack ?? e}`);
        else count("errors_reported");
    }
    count("events", env.events);
    count("library_calls", env.lib.stats.calls);
    count("memory_growths", env.lib.stats.grown);
    return { viols: env.viols, evals, sig: (sig ^ env.interleaving) >>> 0, desc: `${done.length} actions, ${env.events} events, up to ${env.maxInFlight} requests in flight: ${done.join(" ")}` };
}
