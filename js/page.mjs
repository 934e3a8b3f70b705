// The simulated browser tab: the real page scripts and the real React, in a
// context of their own, with the document, the clock, the history and the network
// under the simulator's control.
import vm from 'node:vm';
import fs from 'node:fs';
import { createRequire } from 'node:module';
import { makeDom, makeEvent, Budget, Hang } from './dom.mjs';

const require = createRequire('/opt/veriftools/node/node_modules/');

// bundle compiles a page's script with everything it imports, except for the
// network library, and the merging of objects, which are stand-ins.
export function bundle(assets, name) {
    const esbuild = require('esbuild');
    const stub = {
        reqwest: 'var r = globalThis.__reqwest; module.exports = r; module.exports.default = r;',
        'merge-anything': `function plain(x) { return Object.prototype.toString.call(x) === "[object Object]"; }
            function merge2(a, b) { var r = {}, k; for (k in a) r[k] = a[k]; for (k in b) r[k] = plain(a[k]) && plain(b[k]) ? merge2(a[k], b[k]) : b[k]; return r; }
            function merge() { var r = arguments[0]; for (var i = 1; i < arguments.length; i++) r = merge2(r, arguments[i]); return r; }
            exports.merge = merge;`,
    };
    // the plugin interface needs the asynchronous build; alias files do as well
    const dir = fs.mkdtempSync('/tmp/houndjs-');
    try {
        const alias = {};
        for (const k in stub) {
            alias[k] = dir + '/' + k + '.js';
            fs.writeFileSync(alias[k], stub[k]);
        }
        const r = esbuild.buildSync({
            entryPoints: [assets + '/js/' + name], bundle: true, write: false, format: 'iife', loader: { '.js': 'jsx' },
            jsx: 'transform', target: 'es2020', alias, logLevel: 'silent', absWorkingDir: assets,
        });
        return r.outputFiles[0].text;
    } finally {
        fs.rmSync(dir, { recursive: true });
    }
}

export function loadSources(assets) {
    const react = fs.readdirSync(assets + '/js').filter(f => /^react-.*\.min\.js$/.test(f)).sort().pop();
    return {
        react: new vm.Script(fs.readFileSync(assets + '/js/' + react, 'utf8'), { filename: react }),
        hound: new vm.Script(bundle(assets, 'hound.js'), { filename: 'hound.js' }),
        excluded: new vm.Script(bundle(assets, 'excluded_files.js'), { filename: 'excluded_files.js' }),
    };
}

// World is what outlives a page: the address bar, the history, the clock, the
// requests that are under way.
export class World {
    constructor() {
        this.now = 1.6e12;
        this.history = ['/'];
        this.at = 0;
        this.requests = [];
        this.page = null;
        this.log = [];
    }
    note(s) { this.log.push(s); }
}

const call = new vm.Script('__fn()', { filename: 'event' });

export class Page {
    constructor(world, sources, script, url, html, modelData, rand) {
        this.world = world;
        this.closed = false;
        this.errors = [];
        this.timers = [];
        this.timerSeq = 0;
        this.budget = new Budget(2e6);
        const { Document } = makeDom(this.budget);
        const doc = this.doc = new Document();
        doc.body.innerHTML = html;
        const page = this;
        const g = this.global = vm.createContext({});
        const win = g;
        win.window = win.self = win.top = win.parent = win;
        win.document = doc;
        win._listeners = [];
        win.addEventListener = function (t, f, c) { win._listeners.push({ t, f, capture: !!c }); };
        win.removeEventListener = function (t, f) { win._listeners = win._listeners.filter(l => l.t !== t || l.f !== f); };
        doc.defaultView = win;
        win.navigator = { userAgent: 'Mozilla/5.0 (simulated) Chrome/100', platform: 'Linux', language: 'en' };
        win.screen = { width: 1000, height: 1000 };
        win.getSelection = () => ({ rangeCount: 0, removeAllRanges() { }, addRange() { } });
        win.scrollTo = win.scroll = () => { };
        win.pageXOffset = win.pageYOffset = 0;
        win.innerWidth = win.innerHeight = 1000;
        win.matchMedia = () => ({ matches: false, addListener() { }, addEventListener() { } });
        win.getComputedStyle = e => e.style;
        for (const k of ['log', 'warn', 'error', 'info', 'debug']) (win.console = win.console || {})[k] = (...a) => { if (k === 'error') world.note('console.error ' + a.map(String).join(' ').slice(0, 200)); };
        const loc = win.location = {
            get href() { return 'http://hound' + world.history[world.at]; },
            protocol: 'http:', host: 'hound', hostname: 'hound', port: '', origin: 'http://hound', hash: '',
            get search() { const u = world.history[world.at], i = u.indexOf('?'), h = u.indexOf('#'); return i < 0 ? '' : u.slice(i, h > i ? h : undefined); },
            get pathname() { return world.history[world.at].split(/[?#]/)[0]; },
            reload() { world.wantReload = true; }, assign() { }, replace() { },
            toString() { return this.href; },
        };
        doc.location = loc;
        const abs = u => { u = String(u); return u.startsWith('?') ? loc.pathname + u : u.startsWith('http://hound') ? u.slice(12) : u; };
        win.history = {
            state: null,
            get length() { return world.history.length; },
            pushState(s, t, u) { world.history.splice(world.at + 1); world.history.push(abs(u)); world.at++; },
            replaceState(s, t, u) { if (u !== undefined) world.history[world.at] = abs(u); },
            back() { world.wantBack = true; }, forward() { },
        };
        // time
        vm.runInContext(`(function (now) { var D = Date; function V(a, b, c, d, e, f, h) {
            if (!(this instanceof V)) return new D(now()).toString();
            return arguments.length === 0 ? new D(now()) : arguments.length === 1 ? new D(a) : new D(a, b, c || 1, d || 0, e || 0, f || 0, h || 0); }
            V.now = now; V.parse = D.parse; V.UTC = D.UTC; V.prototype = D.prototype; Date = V; })`, g)(() => world.now);
        vm.runInContext('(function (r) { Math.random = r; })', g)(rand);
        const timer = (f, d, every, args) => {
            const id = ++page.timerSeq;
            page.timers.push({ id, at: world.now + Math.max(0, +d || 0), f: () => typeof f === 'function' && f(...args), every: every ? Math.max(1, +d || 0) : 0 });
            return id;
        };
        win.setTimeout = (f, d, ...a) => timer(f, d, false, a);
        win.setInterval = (f, d, ...a) => timer(f, d, true, a);
        win.clearTimeout = win.clearInterval = id => { page.timers = page.timers.filter(t => t.id !== id); };
        win.requestAnimationFrame = f => timer(f, 16, false, [world.now]);
        win.cancelAnimationFrame = win.clearTimeout;
        win.performance = { now: () => world.now };
        // network
        const request = (url, data, ok, bad) => {
            let u = String(url), q = {};
            const i = u.indexOf('?');
            if (i >= 0) { for (const [k, v] of new URLSearchParams(u.slice(i))) q[k] = v; u = u.slice(0, i); }
            for (const k in data || {}) if (data[k] !== undefined) q[k] = data[k] === null ? '' : String(data[k]);
            const r = { id: world.requests.length, page, url: u.replace(/^(http:\/\/hound)?\/?/, ''), q, ok, bad, served: null, done: false, how: null };
            world.requests.push(r);
            world.note(`request ${r.id} ${r.url} ${JSON.stringify(q)}`);
            return r;
        };
        win.__reqwest = (o, fn) => {
            if (typeof o === 'string') o = { url: o, success: fn };
            const h = { then: [], fail: [], always: [] };
            const r = request(o.url, typeof o.data === 'string' ? Object.fromEntries(new URLSearchParams(o.data)) : o.data,
                body => {
                    let v;
                    try { v = page.parse(body); } catch (e) { r.bad(200, 'Could not parse JSON in response', body); return; }
                    if (o.success) o.success(v);
                    for (const f of h.then) f(v);
                    if (o.complete) o.complete(v);
                    for (const f of h.always) f(v);
                },
                (status, msg, body) => {
                    const x = { status, responseText: body || '' };
                    if (o.error) o.error(x, msg, undefined);
                    for (const f of h.fail) f(x, msg, undefined);
                    if (o.complete) o.complete(x);
                    for (const f of h.always) f(x);
                });
            const api = {
                request: {}, abort() { r.done = r.aborted = true; },
                then(s, f) { if (s) h.then.push(s); if (f) h.fail.push(f); return api; },
                fail(f) { h.fail.push(f); return api; }, catch(f) { h.fail.push(f); return api; }, always(f) { h.always.push(f); return api; },
            };
            return api;
        };
        const P = vm.runInContext('Promise', g);
        win.URLSearchParams = URLSearchParams;
        win.URL = URL;
        win.queueMicrotask = f => { P.resolve().then(() => page.guard(f)); };
        win.alert = () => { };
        win.Node = { ELEMENT_NODE: 1, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_NODE: 9 };
        win.AbortController = class { constructor() { const l = []; this.signal = { aborted: false, addEventListener(t, f) { l.push(f); } }; this._l = l; } abort() { this.signal.aborted = true; for (const f of this._l) f(); } };
        win.fetch = (url, o) => new P((res, rej) => {
            const r = request(url, null, body => res({ ok: true, status: 200, text: () => P.resolve(body), json: () => new P((a, b) => { try { a(page.parse(body)); } catch (e) { b(e); } }) }),
                (status, msg, body) => status ? res({ ok: false, status, text: () => P.resolve(body || ''), json: () => P.reject(new Error('json')) }) : rej(new TypeError('Failed to fetch')));
            if (o && o.signal) o.signal.addEventListener('abort', () => { r.done = r.aborted = true; rej(new Error('AbortError')); });
        });
        win.XMLHttpRequest = class {
            open(m, u) { this.m = m; this.u = u; this.readyState = 1; }
            setRequestHeader() { } getResponseHeader() { return null; } getAllResponseHeaders() { return ''; }
            abort() { if (this.r) this.r.done = this.r.aborted = true; }
            send(b) {
                const end = (status, body) => {
                    this.readyState = 4; this.status = status; this.responseText = this.response = body;
                    if (this.onreadystatechange) this.onreadystatechange();
                    if (status) { if (this.onload) this.onload(); } else if (this.onerror) this.onerror();
                    if (this.onloadend) this.onloadend();
                };
                this.r = request(this.u, b ? Object.fromEntries(new URLSearchParams(b)) : null, body => end(200, body), (s, m, body) => end(s, body || ''));
            }
        };
        this.parseIn = vm.runInContext('(function (s) { return JSON.parse(s); })', g);
        if (modelData !== undefined) win.ModelData = modelData;
        world.page = this;
        this.guard(() => {
            sources.react.runInContext(g, { timeout: 20000 });
            script.runInContext(g, { timeout: 20000 });
        });
    }
    parse(s) { return this.parseIn(s); }
    // guard runs something of the page's, and keeps what it throws.
    guard(f) {
        if (this.closed || this.hung) return;
        this.budget.reset();
        this.budget.hit = false;
        let err = null;
        this.global.__fn = () => { try { f(); } catch (e) { err = e; } };
        try {
            call.runInContext(this.global, { timeout: 20000 });
        } catch (e) {
            err = e;
            this.budget.hit = this.budget.hit || /timed out/.test(String(e && e.message));
        }
        if (this.budget.hit) {
            this.hung = true;
            this.errors.push('hang');
            return;
        }
        if (err) this.errors.push(String(err && err.message || err).slice(0, 300));
    }
    // fire lets the timers up to now run.
    fire() {
        for (let n = 0; n < 1000; n++) {
            const due = this.timers.filter(t => t.at <= this.world.now).sort((a, b) => a.at - b.at || a.id - b.id)[0];
            if (!due || this.closed || this.hung) return;
            if (due.every) due.at += due.every; else this.timers = this.timers.filter(t => t !== due);
            this.guard(due.f);
        }
    }
    event(el, type, props) { this.guard(() => el.dispatchEvent(makeEvent(type, props || {}))); }
    winEvent(type, props) {
        const ev = makeEvent(type, props || {});
        this.guard(() => { for (const l of [...this.global._listeners]) if (l.t === type) l.f.call(this.global, ev); if (this.global['on' + type]) this.global['on' + type](ev); });
    }
    $(sel) { return this.doc.querySelector(sel); }
    $$(sel) { return this.doc.querySelectorAll(sel); }
}
export { Hang };
