// Runs the page of the playground, with the real program behind it, through histories of user input.
// usage: node driver.js WASM_EXEC PLAYGROUND_WASM INDEX_HTML <jobs >answers   (both one JSON text per line)
'use strict';
const fs = require('fs');
const vm = require('vm');
const [wasmExec, wasm, index] = process.argv.slice(2);
// As in a browser, there is no file system: the support file puts in its own.
require(wasmExec);

function unescape(s) {
    const named = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'" };
    return s.replace(/&(#x[0-9a-fA-F]+|#[0-9]+|[a-z]+);/g, (all, e) => {
        if (e[0] === '#') return String.fromCodePoint(e[1] === 'x' ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10));
        return e in named ? named[e] : all;
    });
}

const html = fs.readFileSync(index, 'utf8');
const scripts = [];
for (const m of html.matchAll(/<script\b([^>]*)>([\s\S]*?)<\/script>/g)) {
    if (!/\bsrc\s*=/.test(m[1])) scripts.push(m[2]);
}
const body = html.replace(/<script\b[\s\S]*?<\/script>/g, '').replace(/<style\b[\s\S]*?<\/style>/g, '').replace(/<!--[\s\S]*?-->/g, '');

class Elem {
    constructor(tag, text) {
        this.tag = tag;
        this.listeners = {};
        this.text = text;
        this.parentElement = null;
        if (tag === 'textarea') this.val = text.replace(/^\r?\n/, '');
    }
    get textContent() { return this.text; }
    set textContent(s) { this.text = s === null ? '' : String(s); }
    get innerText() { return this.textContent; }
    set innerText(s) { this.textContent = s; }
    get value() { return this.val; }
    set value(s) { this.val = s === null ? '' : String(s).replace(/\r\n?/g, '\n'); }
    addEventListener(type, f) { (this.listeners[type] = this.listeners[type] || []).push(f); }
    fire(type) { for (const f of this.listeners[type] || []) f.call(this, { type, target: this, currentTarget: this }); if (typeof this['on' + type] === 'function') this['on' + type]({ type, target: this }); }
}

const tick = () => new Promise((r) => setImmediate(r));
async function settle() { for (let i = 0; i < 3; i++) await tick(); }

// A page, as it is loaded anew.
class Page {
    constructor(service) {
        this.calls = [];
        this.complaints = [];
        const elems = this.elems = {};
        for (const m of body.matchAll(/<([a-z0-9]+)\b([^>]*)\bid\s*=\s*["']([^"']+)["'][^>]*>([^<]*)/g)) {
            const e = new Elem(m[1], unescape(m[4]));
            e.parentElement = new Elem('div', '');
            elems[m[3]] = e;
        }
        const page = this;
        const doc = this.doc = new Elem('#document', '');
        doc.getElementById = (id) => elems[id] || null;
        doc.querySelector = (q) => q[0] === '#' && elems[q.slice(1)] || null;
        this.served = null;
        this.serve = () => this.win['xtoproto-service-available']((...args) => {
            const call = { args, answer: null };
            page.calls.push(call);
            call.answer = service(...args);
            return call.answer;
        });
        const log = (...a) => { page.complaints.push(a.map((x) => x && x.stack || String(x)).join(' ')); };
        const win = this.win = {
            document: doc, console: { log() { }, info() { }, debug() { }, warn: log, error: log },
            atob, btoa, TextDecoder, TextEncoder, Uint8Array, setTimeout, clearTimeout, queueMicrotask,
            addEventListener(type, f) { doc.addEventListener(type, f); },
            fetch: (url) => Promise.resolve({ url: String(url) }),
            WebAssembly: {
                instantiateStreaming: (resp) => Promise.resolve(resp).then((r) => {
                    if (r.url !== 'playground.wasm') throw new Error('no such file: ' + r.url);
                    return { instance: { page: true }, module: {} };
                }),
            },
            Go: function () {
                this.importObject = {};
                this.run = (inst) => { page.ran = inst && inst.page === true; return new Promise(() => { }); };
            },
        };
        win.window = win.self = win.globalThis = win;
        vm.createContext(win);
        for (const s of scripts) vm.runInContext(s, win);
    }
    state() {
        const e = this.elems, t = (id) => e[id] ? e[id].textContent : null, v = (id) => e[id] ? e[id].value : null;
        return {
            infer: v('infer-request'), gen: v('gen-request'), csv: v('csv'), error: t('errors'),
            proto: t('code-proto'), protoName: t('code-proto-filename'), go: t('code-go'), goName: t('code-go-filename'),
            calls: this.calls.splice(0),
        };
    }
}

async function play(service, steps) {
    const page = new Page(service);
    const states = [];
    for (const s of steps) {
        if (s.do === 'load') page.doc.fire('DOMContentLoaded');
        else if (s.do === 'serve') page.serve();
        else {
            page.elems[s.id].value = s.value;
            page.elems[s.id].fire('input');
        }
        if (!s.quick) await settle();
        states.push(page.state());
    }
    return { states, ran: page.ran === true };
}

async function main() {
    let give;
    const ready = new Promise((r) => { give = r; });
    let exited = false;
    globalThis['xtoproto-service-available'] = (s) => give(s);
    const go = new Go();
    go.exit = (code) => { exited = true; };
    const { instance } = await WebAssembly.instantiate(fs.readFileSync(wasm), go.importObject);
    go.run(instance).then(() => { exited = true; });
    const service = await ready;
    const rl = require('readline').createInterface({ input: process.stdin });
    for await (const l of rl) {
        let r;
        try { r = exited ? { crash: 'the program has ended' } : await play(service, JSON.parse(l)); } catch (err) { r = { crash: String(err && err.stack || err) }; }
        if (exited) r = { crash: r.crash || 'the program ended' };
        process.stdout.write(JSON.stringify(r) + '\n');
    }
    process.exit(0);
}
main().catch((err) => { console.error(err); process.exit(3); });
