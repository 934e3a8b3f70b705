// A small document object model: what React 0.12 and the pages of hound use.
// Everything a page does to it is counted, so that a page that never comes to an
// end is stopped at the same point every time.

const VOID = new Set(['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'wbr']);
const RAW = new Set(['script', 'style', 'textarea', 'title']);

export class Hang extends Error {}

export class Budget {
    constructor(n) { this.max = n; this.left = n; }
    reset() { this.left = this.max; }
    tick(n = 1) {
        this.left -= n;
        if (this.left < 0) {
            this.left = 1000; // let it clean up
            this.hit = true;
            throw new Hang('the page does not come to an end');
        }
    }
}

const NAMED = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0', ldquo: '\u201c', rdquo: '\u201d' };

function decode(s) {
    if (s.indexOf('&') < 0) return s;
    return s.replace(/&(#x[0-9a-fA-F]+|#[0-9]+|[a-zA-Z]+);?/g, (all, e) => {
        if (e[0] === '#') {
            const n = e[1] === 'x' || e[1] === 'X' ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10);
            return n > 0x10ffff ? '\ufffd' : String.fromCodePoint(n);
        }
        return all.endsWith(';') && NAMED[e] !== undefined ? NAMED[e] : ['amp', 'lt', 'gt', 'quot'].includes(e) ? NAMED[e] : all;
    });
}

const escText = s => s.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
const escAttr = s => s.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/"/g, '&quot;');

export function makeDom(budget) {
    class Node {
        constructor(doc, type) {
            this.ownerDocument = doc;
            this.nodeType = type;
            this.parentNode = null;
            this.childNodes = [];
            this._listeners = null;
        }
        get firstChild() { return this.childNodes[0] || null; }
        get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
        get nextSibling() {
            if (!this.parentNode) return null;
            const c = this.parentNode.childNodes;
            return c[c.indexOf(this) + 1] || null;
        }
        get previousSibling() {
            if (!this.parentNode) return null;
            const c = this.parentNode.childNodes;
            return c[c.indexOf(this) - 1] || null;
        }
        get parentElement() { return this.parentNode && this.parentNode.nodeType === 1 ? this.parentNode : null; }
        hasChildNodes() { return this.childNodes.length > 0; }
        _detach(n) {
            if (n.parentNode) {
                const c = n.parentNode.childNodes, i = c.indexOf(n);
                if (i >= 0) c.splice(i, 1);
                n.parentNode = null;
            }
        }
        appendChild(n) { return this.insertBefore(n, null); }
        insertBefore(n, ref) {
            budget.tick();
            if (n.nodeType === 11) {
                for (const c of [...n.childNodes]) this.insertBefore(c, ref);
                return n;
            }
            for (let p = this; p; p = p.parentNode) if (p === n) throw new Error('HierarchyRequestError');
            this._detach(n);
            let i = this.childNodes.length;
            if (ref) {
                i = this.childNodes.indexOf(ref);
                if (i < 0) throw new Error('NotFoundError');
            }
            this.childNodes.splice(i, 0, n);
            n.parentNode = this;
            return n;
        }
        removeChild(n) {
            budget.tick();
            if (n.parentNode !== this) throw new Error('NotFoundError');
            this._detach(n);
            return n;
        }
        replaceChild(n, old) {
            this.insertBefore(n, old);
            return this.removeChild(old);
        }
        contains(n) {
            for (; n; n = n.parentNode) if (n === this) return true;
            return false;
        }
        _nodes(l) { return l.map(n => n && n.nodeType ? n : this.ownerDocument.createTextNode(n)); }
        append(...l) { for (const n of this._nodes(l)) this.appendChild(n); }
        prepend(...l) { const f = this.firstChild; for (const n of this._nodes(l)) this.insertBefore(n, f); }
        before(...l) { if (this.parentNode) for (const n of this._nodes(l)) this.parentNode.insertBefore(n, this); }
        after(...l) { const f = this.nextSibling; if (this.parentNode) for (const n of this._nodes(l)) this.parentNode.insertBefore(n, f); }
        remove() { if (this.parentNode) this.parentNode.removeChild(this); }
        replaceWith(...l) { if (this.parentNode) { this.before(...l); this.remove(); } }
        replaceChildren(...l) { this.textContent = ''; this.append(...l); }
        get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n.nodeType === 9; }
        compareDocumentPosition(o) {
            if (o === this) return 0;
            if (this.contains(o)) return 20;
            if (o.contains(this)) return 10;
            return 4;
        }
        get textContent() {
            if (this.nodeType === 3) return this.data;
            return this.childNodes.map(c => c.nodeType === 8 ? '' : c.textContent).join('');
        }
        set textContent(s) {
            budget.tick();
            s = s === null || s === undefined ? '' : String(s);
            if (this.nodeType === 3) { this.data = s; return; }
            for (const c of this.childNodes) c.parentNode = null;
            this.childNodes = [];
            if (s !== '') this.appendChild(this.ownerDocument.createTextNode(s));
        }
        addEventListener(t, f, capture) {
            if (!this._listeners) this._listeners = [];
            this._listeners.push({ t, f, capture: !!capture });
        }
        removeEventListener(t, f, capture) {
            if (this._listeners) this._listeners = this._listeners.filter(l => l.t !== t || l.f !== f);
        }
        dispatchEvent(ev) {
            ev.target = ev.srcElement = this;
            const path = [];
            for (let n = this; n; n = n.parentNode) path.push(n);
            const win = this.ownerDocument ? this.ownerDocument.defaultView : this.defaultView;
            if (win && path[path.length - 1].nodeType === 9) path.push(win);
            const call = (n, cap) => {
                for (const l of [...(n._listeners || [])]) {
                    if (l.t !== ev.type || (n !== this && l.capture !== cap)) continue;
                    ev.currentTarget = n;
                    if (typeof l.f === 'function') l.f.call(n, ev); else l.f.handleEvent(ev);
                }
            };
            for (let i = path.length - 1; i > 0 && !ev._stop; i--) call(path[i], true);
            if (!ev._stop) call(this, false);
            if (ev.bubbles) for (let i = 1; i < path.length && !ev._stop; i++) call(path[i], false);
            return !ev.defaultPrevented;
        }
    }
    class Text extends Node {
        constructor(doc, s) { super(doc, 3); this.data = String(s); }
        get nodeName() { return '#text'; }
        get nodeValue() { return this.data; }
        set nodeValue(s) { this.data = String(s); }
        get length() { return this.data.length; }
        get _html() { return escText(this.data); }
        cloneNode() { return new Text(this.ownerDocument, this.data); }
    }
    class Comment extends Node {
        constructor(doc, s) { super(doc, 8); this.data = s; }
        get nodeName() { return '#comment'; }
        get _html() { return '<!--' + this.data + '-->'; }
    }
    class Style {
        setProperty(n, v) { this[n] = v; }
        removeProperty(n) { delete this[n]; }
        getPropertyValue(n) { return this[n] || ''; }
    }
    class Element extends Node {
        constructor(doc, tag) {
            super(doc, 1);
            this.localName = tag.toLowerCase();
            this.attrs = new Map();
            this.style = new Style();
            this._value = undefined;
            this._checked = undefined;
            this._selected = undefined;
        }
        get tagName() { return this.localName.toUpperCase(); }
        get nodeName() { return this.tagName; }
        get attributes() { return [...this.attrs].map(([name, value]) => ({ name, value })); }
        getAttribute(n) { n = n.toLowerCase(); return this.attrs.has(n) ? this.attrs.get(n) : null; }
        getAttributeNode(n) { n = n.toLowerCase(); return this.attrs.has(n) ? { name: n, value: this.attrs.get(n) } : null; }
        hasAttribute(n) { return this.attrs.has(n.toLowerCase()); }
        setAttribute(n, v) { budget.tick(); this.attrs.set(n.toLowerCase(), String(v)); }
        removeAttribute(n) { this.attrs.delete(n.toLowerCase()); }
        get id() { return this.getAttribute('id') || ''; }
        set id(v) { this.setAttribute('id', v); }
        get className() { return this.getAttribute('class') || ''; }
        set className(v) { this.setAttribute('class', v); }
        get classList() {
            const e = this, cur = () => e.className.split(/\s+/).filter(x => x);
            return {
                contains: c => cur().includes(c),
                add: (...l) => { for (const c of l) if (!cur().includes(c)) e.className = [...cur(), c].join(' '); },
                remove: (...l) => { if (cur().some(x => l.includes(x))) e.className = cur().filter(x => !l.includes(x)).join(' '); },
                toggle: (c, f) => {
                    const on = f === undefined ? !cur().includes(c) : !!f;
                    if (on !== cur().includes(c)) e.className = on ? [...cur(), c].join(' ') : cur().filter(x => x !== c).join(' ');
                    return on;
                },
                replace: (c, d) => { e.className = cur().map(x => x === c ? d : x).join(' '); },
                item: i => cur()[i] || null,
                get length() { return cur().length; },
                toString: () => e.className,
            };
        }
        get title() { return this.getAttribute('title') || ''; }
        set title(v) { this.setAttribute('title', v); }
        get href() { return this.getAttribute('href') || ''; }
        set href(v) { this.setAttribute('href', v); }
        get type() { return this.getAttribute('type') || (this.localName === 'input' ? 'text' : ''); }
        set type(v) { this.setAttribute('type', v); }
        get children() { return this.childNodes.filter(c => c.nodeType === 1); }
        get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
        get nextElementSibling() { let n = this.nextSibling; while (n && n.nodeType !== 1) n = n.nextSibling; return n; }
        get previousElementSibling() { let n = this.previousSibling; while (n && n.nodeType !== 1) n = n.previousSibling; return n; }
        get childElementCount() { return this.children.length; }
        get innerText() { return this.textContent; }
        set innerText(s) { this.textContent = s; }
        get hidden() { return this.hasAttribute('hidden'); }
        set hidden(v) { this.toggleAttribute('hidden', !!v); }
        get disabled() { return this.hasAttribute('disabled'); }
        set disabled(v) { this.toggleAttribute('disabled', !!v); }
        toggleAttribute(n, f) { const on = f === undefined ? !this.hasAttribute(n) : !!f; if (on) this.setAttribute(n, ''); else this.removeAttribute(n); return on; }
        get dataset() {
            const e = this, at = k => 'data-' + String(k).replace(/[A-Z]/g, c => '-' + c.toLowerCase());
            return new Proxy({}, { get: (_, k) => typeof k === 'string' && e.hasAttribute(at(k)) ? e.getAttribute(at(k)) : undefined, set: (_, k, v) => { e.setAttribute(at(k), v); return true; }, has: (_, k) => e.hasAttribute(at(k)), deleteProperty: (_, k) => { e.removeAttribute(at(k)); return true; } });
        }
        get firstElementChild() { return this.children[0] || null; }
        get innerHTML() { return this.childNodes.map(c => c._html).join(''); }
        set innerHTML(s) {
            for (const c of this.childNodes) c.parentNode = null;
            this.childNodes = [];
            parse(this.ownerDocument, this, String(s));
        }
        get _html() {
            let s = '<' + this.localName;
            for (const [n, v] of this.attrs) s += ' ' + n + '="' + escAttr(v) + '"';
            s += '>';
            if (VOID.has(this.localName)) return s;
            if (this.localName === 'script' || this.localName === 'style') return s + this.textContent + '</' + this.localName + '>';
            return s + this.innerHTML + '</' + this.localName + '>';
        }
        get outerHTML() { return this._html; }
        // form controls
        get options() { return this.getElementsByTagName('option'); }
        get multiple() { return this.hasAttribute('multiple'); }
        set multiple(v) { if (v) this.setAttribute('multiple', ''); else this.removeAttribute('multiple'); }
        get selected() { return this._selected !== undefined ? this._selected : this.hasAttribute('selected'); }
        set selected(v) { this._selected = !!v; }
        get selectedOptions() { return this.options.filter(o => o.selected); }
        get checked() { return this._checked !== undefined ? this._checked : this.hasAttribute('checked'); }
        set checked(v) { this._checked = !!v; }
        get defaultValue() { return this.getAttribute('value') || ''; }
        get value() {
            if (this.localName === 'select') {
                const o = this.options.find(o => o.selected);
                return o ? o.value : '';
            }
            if (this.localName === 'option') return this.hasAttribute('value') ? this.getAttribute('value') : this.textContent;
            return this._value !== undefined ? this._value : this.getAttribute('value') || '';
        }
        set value(v) {
            if (this.localName === 'select') { for (const o of this.options) o.selected = o.value === String(v); return; }
            if (this.localName === 'option') { this.setAttribute('value', v); return; }
            this._value = v === null ? '' : String(v);
        }
        get selectionStart() { return this.value.length; }
        get selectionEnd() { return this.value.length; }
        setSelectionRange() { }
        select() { }
        focus() {
            const d = this.ownerDocument;
            if (d.activeElement === this) return;
            d.activeElement = this;
            this.dispatchEvent(makeEvent('focus', { bubbles: false }));
        }
        blur() { if (this.ownerDocument.activeElement === this) this.ownerDocument.activeElement = this.ownerDocument.body; }
        click() { this.dispatchEvent(makeEvent('click', { bubbles: true })); }
        getBoundingClientRect() { return { left: 0, top: 0, right: 0, bottom: 0, width: 0, height: 0 }; }
        scrollIntoView() { }
        getElementsByTagName(t) {
            const r = [], walk = n => { for (const c of n.childNodes) if (c.nodeType === 1) { if (t === '*' || c.localName === t.toLowerCase()) r.push(c); walk(c); } };
            walk(this);
            return r;
        }
        getElementsByClassName(c) { return this.getElementsByTagName('*').filter(e => e.classList.contains(c)); }
        querySelectorAll(sel) { return this.getElementsByTagName('*').filter(e => matches(e, sel)); }
        querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
        matches(sel) { return matches(this, sel); }
        closest(sel) { for (let e = this; e && e.nodeType === 1; e = e.parentNode) if (matches(e, sel)) return e; return null; }
        insertAdjacentHTML(where, s) {
            const t = new Element(this.ownerDocument, 'div');
            t.innerHTML = s;
            for (const c of [...t.childNodes]) {
                if (where === 'beforeend') this.appendChild(c);
                else if (where === 'beforebegin') this.parentNode.insertBefore(c, this);
                else throw new Error('insertAdjacentHTML ' + where);
            }
        }
        cloneNode(deep) {
            const e = new Element(this.ownerDocument, this.localName);
            for (const [n, v] of this.attrs) e.attrs.set(n, v);
            if (deep) for (const c of this.childNodes) e.appendChild(c.cloneNode(true));
            return e;
        }
    }
    // matches understands lists of compound selectors with descendants.
    function matches(e, sel) {
        return sel.split(',').some(s => {
            const parts = s.trim().split(/\s+/);
            let n = e;
            for (let i = parts.length - 1; i >= 0; i--) {
                if (i === parts.length - 1) { if (!one(n, parts[i])) return false; n = n.parentNode; continue; }
                while (n && n.nodeType === 1 && !one(n, parts[i])) n = n.parentNode;
                if (!n || n.nodeType !== 1) return false;
                n = n.parentNode;
            }
            return true;
        });
    }
    function one(e, s) {
        const m = s.match(/[.#]?[\w-]+|\*|\[[^\]]+\]/g) || [];
        return m.every(p => p === '*' || (p[0] === '.' ? e.classList.contains(p.slice(1)) : p[0] === '#' ? e.id === p.slice(1)
            : p[0] === '[' ? e.hasAttribute(p.slice(1, -1).split('=')[0]) && (!p.includes('=') || e.getAttribute(p.slice(1, -1).split('=')[0]) === p.slice(1, -1).split('=')[1].replace(/["']/g, '')) : e.localName === p.toLowerCase()));
    }
    class Document extends Node {
        constructor() {
            super(null, 9);
            this.documentElement = new Element(this, 'html');
            this.appendChild(this.documentElement);
            this.head = this.documentElement.appendChild(new Element(this, 'head'));
            this.body = this.documentElement.appendChild(new Element(this, 'body'));
            this.activeElement = this.body;
            this.readyState = 'complete';
            this.title = '';
            this.cookie = '';
            this.hidden = false;
            for (const e of ['change', 'input', 'click', 'focus', 'blur', 'keydown', 'keyup', 'keypress', 'scroll', 'wheel', 'submit', 'mousedown', 'mouseup', 'paste', 'select']) this['on' + e] = null;
        }
        get nodeName() { return '#document'; }
        createElement(t) { budget.tick(); return new Element(this, t); }
        createElementNS(ns, t) { return this.createElement(t); }
        createTextNode(s) { budget.tick(); return new Text(this, s); }
        createComment(s) { return new Comment(this, s); }
        createDocumentFragment() { const n = new Element(this, 'fragment'); n.nodeType = 11; return n; }
        createEvent() { const e = makeEvent('', {}); e.initEvent = (t, b) => { e.type = t; e.bubbles = b; }; return e; }
        getElementById(id) { return this.documentElement.getElementsByTagName('*').find(e => e.id === id) || null; }
        getElementsByTagName(t) { return [this.documentElement, ...this.documentElement.getElementsByTagName(t)].filter(e => t === '*' || e.localName === t.toLowerCase()); }
        getElementsByClassName(t) { return this.documentElement.getElementsByClassName(t); }
        querySelectorAll(s) { return this.documentElement.querySelectorAll(s); }
        querySelector(s) { return this.documentElement.querySelector(s); }
        hasFocus() { return true; }
    }
    // parse builds the nodes of some markup, as a browser's parser would.
    function parse(doc, root, s) {
        let cur = root, i = 0;
        const text = t => { if (t !== '') { budget.tick(); const n = new Text(doc, decode(t)); n.parentNode = cur; cur.childNodes.push(n); } };
        let buf = '';
        while (i < s.length) {
            const lt = s.indexOf('<', i);
            if (lt < 0) { buf += s.slice(i); break; }
            buf += s.slice(i, lt);
            const rest = s.slice(lt, lt + 4);
            if (rest === '<!--') {
                text(buf); buf = '';
                let e = s.indexOf('-->', lt);
                if (e < 0) e = s.length;
                cur.appendChild(new Comment(doc, s.slice(lt + 4, e)));
                i = e + 3;
                continue;
            }
            if (/^<\/[a-zA-Z]/.test(rest)) {
                text(buf); buf = '';
                let e = s.indexOf('>', lt);
                if (e < 0) e = s.length;
                const name = s.slice(lt + 2, e).trim().split(/[\s/]/)[0].toLowerCase();
                for (let n = cur; n !== root; n = n.parentNode) if (n.localName === name) { cur = n.parentNode; break; }
                i = e + 1;
                continue;
            }
            if (/^<[a-zA-Z]/.test(rest)) {
                text(buf); buf = '';
                budget.tick();
                const m = /^<([a-zA-Z][^\s/>]*)/.exec(s.slice(lt, lt + 80));
                const el = new Element(doc, m[1]);
                i = lt + m[0].length;
                const attr = /\s*([^\s=>/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]*)))?|\s*\//y;
                for (;;) {
                    const sp = /\s*/y; sp.lastIndex = i; sp.exec(s); i = sp.lastIndex;
                    if (i >= s.length || s[i] === '>') break;
                    attr.lastIndex = i;
                    const a = attr.exec(s);
                    if (!a || attr.lastIndex === i) { i++; continue; }
                    i = attr.lastIndex;
                    if (a[1] && !el.attrs.has(a[1].toLowerCase())) el.attrs.set(a[1].toLowerCase(), decode(a[2] ?? a[3] ?? a[4] ?? ''));
                }
                i++;
                el.parentNode = cur;
                cur.childNodes.push(el);
                if (VOID.has(el.localName)) continue;
                if (RAW.has(el.localName)) {
                    let e = s.toLowerCase().indexOf('</' + el.localName, i);
                    if (e < 0) e = s.length;
                    if (e > i) el.appendChild(new Text(doc, el.localName === 'textarea' || el.localName === 'title' ? decode(s.slice(i, e)) : s.slice(i, e)));
                    const g = s.indexOf('>', e);
                    i = g < 0 ? s.length : g + 1;
                    continue;
                }
                cur = el;
                continue;
            }
            buf += '<';
            i = lt + 1;
        }
        text(buf);
    }
    return { Node, Text, Element, Document };
}

export function makeEvent(type, props) {
    return Object.assign({
        type, bubbles: true, cancelable: true, defaultPrevented: false, timeStamp: 0, keyCode: 0, which: 0, button: 0, detail: 0,
        altKey: false, ctrlKey: false, metaKey: false, shiftKey: false, view: null, eventPhase: 0, isTrusted: true,
        preventDefault() { this.defaultPrevented = true; },
        stopPropagation() { this._stop = true; },
        stopImmediatePropagation() { this._stop = true; },
        getModifierState() { return false; },
    }, props);
}
