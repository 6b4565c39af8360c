// A minimal document for the scripts of notebook views.  Reads one JSON request per line:
// {"elements": [{"tag", "parent", "classes", "id", "attrs", "text"}], "scripts": [...], "clicks": [element number, ...]}
// and answers {"states": [[{"display", "disabled", "text"}, ...] after the scripts and after each click]} or
// {"error": ...} (the scripts raised) or {"unsupported": ...} (they use something this document lacks).
const vm = require('vm');
const readline = require('readline');
class Unsupported extends Error {}

function guard(target, what) {
    return new Proxy(target, {
        get(t, k) {
            if (k in t || typeof k === 'symbol' || k === 'then') return t[k];
            throw new Unsupported(what + '.' + String(k));
        }
    });
}

function build(spec) {
    const nodes = [];
    const parseCompound = s => {
        const m = /^([a-zA-Z][\w-]*|\*)?((?:[.#][\w-]+|\[[\w-]+(?:=(?:"[^"]*"|'[^']*'|[\w-]+))?\])*)$/.exec(s);
        if (!m) throw new Unsupported('selector ' + s);
        const parts = m[2].match(/[.#][\w-]+|\[[^\]]*\]/g) || [];
        return n => (!m[1] || m[1] === '*' || n._tag === m[1].toLowerCase()) && parts.every(p => {
            if (p[0] === '.') return n._classes.has(p.slice(1));
            if (p[0] === '#') return n._id === p.slice(1);
            const [, k, v] = /^\[([\w-]+)(?:=["']?(.*?)["']?)?\]$/.exec(p);
            return k in n._attrs && (v === undefined || n._attrs[k] === v);
        });
    };
    const select = (sel, root) => {
        const alternatives = sel.split(',').map(one => one.trim().replace(/\s*>\s*/g, ' > ').split(/\s+/));
        if (alternatives.some(a => a.length === 1 && a[0] === '')) throw new Error('invalid selector ' + sel);
        const matches = (n, parts) => {
            let i = parts.length - 1;
            if (!parseCompound(parts[i])(n)) return false;
            const up = (n, i) => {
                if (i < 0) return true;
                if (parts[i] === '>') {
                    const p = n._parent;
                    return !!p && parseCompound(parts[i - 1])(p) && up(p, i - 2);
                }
                for (let p = n._parent; p; p = p._parent)
                    if (parseCompound(parts[i])(p) && up(p, i - 1)) return true;
                return false;
            };
            return up(n, i - 1);
        };
        const within = n => {
            if (!root) return true;
            for (let p = n._parent; p; p = p._parent) if (p === root) return true;
            return false;
        };
        return nodes.filter(n => within(n._self) && alternatives.some(a => matches(n._self, a))).map(n => n._proxy);
    };
    spec.elements.forEach((e, i) => {
        const self = {_tag: e.tag, _id: e.id, _attrs: e.attrs, _classes: new Set(e.classes), _parent: e.parent === null ? null : nodes[e.parent]._self,
                      disabled: 'disabled' in e.attrs, hidden: 'hidden' in e.attrs, style: {display: ''}, onclick: null, _listeners: []};
        self._self = self;
        let text = e.text;
        for (const k of ['innerText', 'textContent', 'innerHTML', 'nodeValue'])
            Object.defineProperty(self, k, {get: () => text, set: v => { text = String(v); }});
        const visible = self.style;
        visible.setProperty = (k, v) => { visible[k] = v; };
        visible.removeProperty = k => { visible[k] = ''; };
        if (/display\s*:\s*none/.test(e.attrs.style || '')) visible.display = 'none';
        self.addEventListener = (name, fn) => { if (name === 'click') self._listeners.push(fn); };
        self.getAttribute = k => k in self._attrs ? self._attrs[k] : null;
        self.hasAttribute = k => k === 'disabled' ? self.disabled : k in self._attrs;
        self.setAttribute = (k, v) => { if (k === 'disabled') self.disabled = true; else if (k === 'hidden') self.hidden = true; self._attrs[k] = String(v); };
        self.removeAttribute = k => { if (k === 'disabled') self.disabled = false; else if (k === 'hidden') self.hidden = false; delete self._attrs[k]; };
        self.toggleAttribute = (k, on) => { on ? self.setAttribute(k, '') : self.removeAttribute(k); };
        self.querySelector = s => select(s, self)[0] || null;
        self.querySelectorAll = s => select(s, self);
        self.classList = guard({contains: c => self._classes.has(c), add: c => { self._classes.add(c); }, remove: c => { self._classes.delete(c); },
                                toggle: (c, on) => { (on === undefined ? !self._classes.has(c) : on) ? self._classes.add(c) : self._classes.delete(c); }}, 'classList');
        self.dataset = new Proxy({}, {get: (t, k) => self._attrs['data-' + String(k).replace(/[A-Z]/g, c => '-' + c.toLowerCase())]});
        self.className = e.classes.join(' ');
        self.id = e.id;
        self.tagName = e.tag.toUpperCase();
        self._proxy = guard(self, 'element');
        nodes.push(self);
    });
    for (const n of nodes) {
        n.parentElement = n.parentNode = n._parent && n._parent._proxy;
        n.children = nodes.filter(m => m._parent === n).map(m => m._proxy);
        n.closest = s => { for (let p = n; p; p = p._parent) if (select(s).includes(p._proxy)) return p._proxy; return null; };
    }
    const document = guard({
        querySelector: s => select(s)[0] || null, querySelectorAll: s => select(s),
        getElementById: id => { const n = nodes.find(n => n._id === id); return n ? n._proxy : null; },
        getElementsByClassName: c => nodes.filter(n => n._classes.has(c)).map(n => n._proxy),
        getElementsByTagName: t => nodes.filter(n => n._tag === t).map(n => n._proxy),
        currentScript: null, readyState: 'complete', body: null,
        addEventListener: (name, fn) => { if (name === 'DOMContentLoaded') throw new Unsupported('DOMContentLoaded'); },
    }, 'document');
    return {nodes, document};
}

function answer(req) {
    const {nodes, document} = build(req);
    const sandbox = {document, console: {log() {}, warn() {}, error() {}}};
    sandbox.window = sandbox;
    vm.createContext(sandbox);
    const shot = () => nodes.map(n => ({display: n.hidden ? 'none' : n.style.display, disabled: !!n.disabled, text: n.innerText}));
    const states = [];
    try {
        for (const s of req.scripts) vm.runInContext(s, sandbox, {timeout: 2000});
        states.push(shot());
        for (const c of req.clicks) {
            const n = nodes[c];
            if (!n.disabled) {
                const event = {type: 'click', target: n._proxy, currentTarget: n._proxy, preventDefault() {}, stopPropagation() {}};
                for (const fn of n._listeners) fn.call(n._proxy, event);
                if (n.onclick) n.onclick(event);
                else if (n._attrs.onclick) vm.runInContext(n._attrs.onclick, sandbox, {timeout: 2000});
            }
            states.push(shot());
        }
    } catch (e) {
        const m = e && e.message !== undefined ? e.message : String(e);
        if (e instanceof Unsupported) return {unsupported: m};
        // references to browser globals that are not simulated
        const g = /^(\w+) is not defined$/.exec(m);
        if (g && ['setTimeout', 'requestAnimationFrame', 'localStorage', 'location', 'HTMLElement', 'Event', 'MutationObserver'].includes(g[1])) return {unsupported: m};
        return {error: m};
    }
    return {states};
}

readline.createInterface({input: process.stdin}).on('line', line => {
    let out;
    try {
        out = answer(JSON.parse(line));
    } catch (e) {
        out = {broken: String(e && e.stack || e)};
    }
    process.stdout.write(JSON.stringify(out) + '\n');
});
