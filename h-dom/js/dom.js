'use strict';
// A small document object model: the part of the DOM standard that style managers and yew use,
// with the standard's argument checks.

class EventTarget {
  constructor() { this.$listeners = []; }
  addEventListener(type, fn, opt) {
    const capture = typeof opt === 'boolean' ? opt : !!opt?.capture;
    if (fn && !this.$listeners.some((l) => l.type === type && l.fn === fn && l.capture === capture)) {
      this.$listeners.push({ type, fn, capture, once: !!opt?.once });
    }
  }
  removeEventListener(type, fn, opt) {
    const capture = typeof opt === 'boolean' ? opt : !!opt?.capture;
    const i = this.$listeners.findIndex((l) => l.type === type && l.fn === fn && l.capture === capture);
    if (i >= 0) { this.$listeners[i].gone = true; this.$listeners.splice(i, 1); }
  }
  /** Calls the listeners of an event that does not bubble. */
  $fire(ev, after) {
    ev.target = this;
    for (const l of [...this.$listeners]) {
      if (l.type !== ev.type || l.gone) continue;
      if (l.once) this.removeEventListener(l.type, l.fn, l.capture);
      l.fn.call(this, ev);
      after?.();
    }
  }
}

class DOMException extends Error {
  constructor(msg, name) { super(msg); this.name = name || 'Error'; }
}
class NodeList extends Array {
  item(i) { return this[i] ?? null; }
}

const ELEMENT = 1, TEXT = 3, COMMENT = 8, DOCUMENT = 9, FRAGMENT = 11;

class Node extends EventTarget {
  constructor(doc, nodeType) {
    super();
    this.$doc = doc; this.nodeType = nodeType; this.parentNode = null; this.$kids = [];
  }
  get ownerDocument() { return this.nodeType === DOCUMENT ? null : this.$doc; }
  get childNodes() { return NodeList.from(this.$kids); }
  get firstChild() { return this.$kids[0] ?? null; }
  get lastChild() { return this.$kids[this.$kids.length - 1] ?? null; }
  $sib(d) { const k = this.parentNode?.$kids; return k ? k[k.indexOf(this) + d] ?? null : null; }
  get nextSibling() { return this.$sib(1); }
  get previousSibling() { return this.$sib(-1); }
  get parentElement() { return this.parentNode?.nodeType === ELEMENT ? this.parentNode : null; }
  get isConnected() { const r = this.getRootNode({ composed: true }); return r.nodeType === DOCUMENT; }
  get nodeName() { return this.tagName ?? '#node'; }
  hasChildNodes() { return this.$kids.length > 0; }
  getRootNode(o) {
    let n = this;
    for (; ;) {
      if (n.parentNode) n = n.parentNode;
      else if (o?.composed && n.host) n = n.host;
      else return n;
    }
  }
  contains(o) { for (let n = o; n; n = n.parentNode) if (n === this) return true; return false; }
  isSameNode(o) { return this === o; }
  get nodeValue() { return null; }
  set nodeValue(_v) { }
  get textContent() {
    if (this.nodeType === DOCUMENT) return null;
    return this.$kids.filter((k) => k.nodeType !== COMMENT).map((k) => k.textContent).join('');
  }
  set textContent(v) {
    if (this.nodeType === DOCUMENT) return;
    for (const k of this.$kids) k.parentNode = null;
    this.$kids = [];
    if (v !== null && v !== undefined && String(v) !== '') { const t = new Text(this.$doc, String(v)); t.parentNode = this; this.$kids.push(t); }
  }
  $check(node, child) {
    if (![ELEMENT, FRAGMENT, DOCUMENT].includes(this.nodeType)) throw new DOMException('this node cannot have children', 'HierarchyRequestError');
    if (!(node instanceof Node)) throw new TypeError('not a node');
    for (let n = this; n; n = n.parentNode ?? n.host ?? null) if (n === node) throw new DOMException('the new child contains the parent', 'HierarchyRequestError');
    if (child && child.parentNode !== this) throw new DOMException('the reference node is not a child of this node', 'NotFoundError');
    if (node.nodeType === DOCUMENT) throw new DOMException('a document cannot be inserted', 'HierarchyRequestError');
  }
  insertBefore(node, child) {
    this.$check(node, child);
    if (child === node) child = node.nextSibling;
    const list = node.nodeType === FRAGMENT ? [...node.$kids] : [node];
    for (const n of list) {
      n.parentNode?.$detach(n);
      const at = child ? this.$kids.indexOf(child) : this.$kids.length;
      this.$kids.splice(at, 0, n);
      n.parentNode = this;
      n.$adopt(this.nodeType === DOCUMENT ? this : this.$doc);
    }
    return node;
  }
  $adopt(doc) { if (this.$doc !== doc) { this.$doc = doc; for (const k of this.$kids) k.$adopt(doc); } }
  appendChild(node) { return this.insertBefore(node, null); }
  $detach(n) { this.$kids.splice(this.$kids.indexOf(n), 1); n.parentNode = null; }
  removeChild(n) {
    if (!n || n.parentNode !== this) throw new DOMException('the node to be removed is not a child of this node', 'NotFoundError');
    this.$detach(n);
    return n;
  }
  replaceChild(node, child) {
    this.$check(node, child);
    if (!child) throw new TypeError('no child');
    if (node !== child) { this.insertBefore(node, child); this.$detach(child); }
    return child;
  }
  cloneNode(deep) {
    const c = this.$copy();
    if (deep) for (const k of this.$kids) c.appendChild(k.cloneNode(true));
    return c;
  }
  // ParentNode
  get children() { return NodeList.from(this.$kids.filter((k) => k.nodeType === ELEMENT)); }
  get firstElementChild() { return this.children[0] ?? null; }
  get lastElementChild() { const c = this.children; return c[c.length - 1] ?? null; }
  get childElementCount() { return this.children.length; }
  append(...ns) { for (const n of ns) this.appendChild(typeof n === 'string' ? new Text(this.$doc, n) : n); }
  prepend(...ns) { const f = this.firstChild; for (const n of ns) this.insertBefore(typeof n === 'string' ? new Text(this.$doc, n) : n, f); }
  replaceChildren(...ns) { this.textContent = ''; this.append(...ns); }
  * $walk() { for (const k of this.$kids) { yield k; yield* k.$walk(); } }
  querySelectorAll(sel) {
    const s = selector(sel);
    const r = new NodeList();
    for (const n of this.$walk()) if (n.nodeType === ELEMENT && s(n)) r.push(n);
    return r;
  }
  querySelector(sel) { return this.querySelectorAll(sel)[0] ?? null; }
  getElementsByTagName(t) { const r = new NodeList(); for (const n of this.$walk()) if (n.nodeType === ELEMENT && (t === '*' || n.localName === t.toLowerCase())) r.push(n); return r; }
  getElementsByClassName(c) { return this.querySelectorAll(c.trim().split(/\s+/).map((x) => '.' + x).join('')); }
  getElementById(id) { for (const n of this.$walk()) if (n.nodeType === ELEMENT && n.getAttribute('id') === id) return n; return null; }
  // ChildNode
  remove() { this.parentNode?.$detach(this); }
  before(...ns) { for (const n of ns) this.parentNode?.insertBefore(n, this); }
  after(...ns) { const nx = this.nextSibling; for (const n of ns) this.parentNode?.insertBefore(n, nx); }
  replaceWith(n) { this.parentNode?.replaceChild(n, this); }
}

class CharacterData extends Node {
  constructor(doc, t, data) { super(doc, t); this.data = data; }
  get nodeValue() { return this.data; }
  set nodeValue(v) { this.data = v === null ? '' : String(v); }
  get textContent() { return this.data; }
  set textContent(v) { this.data = v === null ? '' : String(v); }
}
class Text extends CharacterData {
  constructor(doc, data) { super(doc, TEXT, data); }
  $copy() { return new Text(this.$doc, this.data); }
}
class Comment extends CharacterData {
  constructor(doc, data) { super(doc, COMMENT, data); }
  $copy() { return new Comment(this.$doc, this.data); }
}
class DocumentFragment extends Node {
  constructor(doc) { super(doc, FRAGMENT); }
  $copy() { return new DocumentFragment(this.$doc); }
  get innerHTML() { return inner(this); }
  set innerHTML(v) { this.textContent = ''; parseInto(this, v); }
}
class ShadowRoot extends DocumentFragment {
  constructor(doc, host, mode) { super(doc); this.host = host; this.mode = mode; }
}

const VOID = new Set(['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'track', 'wbr']);
const RAW = new Set(['style', 'script', 'noscript', 'iframe']);
const HTML_NS = 'http://www.w3.org/1999/xhtml';

class Element extends Node {
  constructor(doc, ns, name) { super(doc, ELEMENT); this.namespaceURI = ns; this.localName = name; this.$attr = new Map(); this.shadowRoot = null; }
  get tagName() { return this.namespaceURI === HTML_NS ? this.localName.toUpperCase() : this.localName; }
  $copy() { const e = element(this.$doc, this.namespaceURI, this.localName); for (const [k, v] of this.$attr) e.$attr.set(k, v); return e; }
  $an(n) {
    n = String(n);
    if (n === '' || /[\s\0/>=]/.test(n)) throw new DOMException(`'${n}' is not a valid attribute name`, 'InvalidCharacterError');
    return this.namespaceURI === HTML_NS ? n.toLowerCase() : n;
  }
  getAttribute(n) { return this.$attr.get(this.$an(n)) ?? null; }
  setAttribute(n, v) { this.$attr.set(this.$an(n), String(v)); }
  removeAttribute(n) { this.$attr.delete(this.$an(n)); }
  hasAttribute(n) { return this.$attr.has(this.$an(n)); }
  get id() { return this.getAttribute('id') ?? ''; }
  set id(v) { this.setAttribute('id', v); }
  get className() { return this.getAttribute('class') ?? ''; }
  set className(v) { this.setAttribute('class', v); }
  matches(sel) { return selector(sel)(this); }
  closest(sel) { const s = selector(sel); for (let n = this; n && n.nodeType === ELEMENT; n = n.parentNode) if (s(n)) return n; return null; }
  insertAdjacentElement(where, n) {
    const w = String(where).toLowerCase();
    if (w === 'beforebegin' || w === 'afterend') {
      if (!this.parentNode) return null;
      this.parentNode.insertBefore(n, w === 'beforebegin' ? this : this.nextSibling);
    } else if (w === 'afterbegin') this.insertBefore(n, this.firstChild);
    else if (w === 'beforeend') this.appendChild(n);
    else throw new DOMException(`no such position ${where}`, 'SyntaxError');
    return n;
  }
  insertAdjacentText(where, t) { this.insertAdjacentElement(where, this.$doc.createTextNode(t)); }
  toggleAttribute(n, force) {
    const on = force ?? !this.hasAttribute(n);
    if (!on) this.removeAttribute(n); else if (!this.hasAttribute(n)) this.setAttribute(n, '');
    return on;
  }
  get nextElementSibling() { let n = this.nextSibling; while (n && n.nodeType !== ELEMENT) n = n.nextSibling; return n; }
  get previousElementSibling() { let n = this.previousSibling; while (n && n.nodeType !== ELEMENT) n = n.previousSibling; return n; }
  get innerHTML() { return inner(this); }
  set innerHTML(v) { this.textContent = ''; parseInto(this, v); }
  get outerHTML() { return outer(this); }
  attachShadow(o) {
    if (this.shadowRoot) throw new DOMException('already a shadow host', 'NotSupportedError');
    this.shadowRoot = new ShadowRoot(this.$doc, this, o?.mode ?? 'open');
    return this.shadowRoot;
  }
}
class HTMLElement extends Element {
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  get dataset() {
    const self = this;
    const an = (k) => 'data-' + k.replace(/[A-Z]/g, (c) => '-' + c.toLowerCase());
    return new Proxy({}, { get: (_t, k) => self.getAttribute(an(k)) ?? undefined, set: (_t, k, v) => { self.setAttribute(an(k), v); return true; }, deleteProperty: (_t, k) => { self.removeAttribute(an(k)); return true; } });
  }
}
class HTMLHeadElement extends HTMLElement { }
class HTMLStyleElement extends HTMLElement { get media() { return this.getAttribute('media') ?? ''; } set media(v) { this.setAttribute('media', v); } get type() { return this.getAttribute('type') ?? ''; } set type(v) { this.setAttribute('type', v); } }
class HTMLScriptElement extends HTMLElement { get type() { return this.getAttribute('type') ?? ''; } set type(v) { this.setAttribute('type', v); } get text() { return this.textContent; } set text(v) { this.textContent = v; } }
class HTMLInputElement extends HTMLElement { }
class HTMLTextAreaElement extends HTMLElement { }

function element(doc, ns, name) {
  if (ns !== HTML_NS) return new Element(doc, ns, name);
  const C = { head: HTMLHeadElement, style: HTMLStyleElement, script: HTMLScriptElement, input: HTMLInputElement, textarea: HTMLTextAreaElement }[name] ?? HTMLElement;
  return new C(doc, ns, name);
}

class Document extends Node {
  constructor() {
    super(null, DOCUMENT);
    this.$doc = this;
    const html = this.createElement('html');
    this.appendChild(html);
    html.appendChild(this.createElement('head'));
    html.appendChild(this.createElement('body'));
  }
  get documentElement() { return this.firstElementChild; }
  get head() { return this.documentElement?.children.find((c) => c.localName === 'head') ?? null; }
  get body() { return this.documentElement?.children.find((c) => c.localName === 'body') ?? null; }
  createElement(n) {
    n = String(n);
    if (!/^[A-Za-z][^\s\0/>]*$/.test(n)) throw new DOMException(`'${n}' is not a valid tag name`, 'InvalidCharacterError');
    return element(this, HTML_NS, n.toLowerCase());
  }
  createElementNS(ns, n) { return element(this, ns, String(n)); }
  createTextNode(t) { return new Text(this, String(t)); }
  createComment(t) { return new Comment(this, String(t)); }
  createDocumentFragment() { return new DocumentFragment(this); }
}

// ---- serialization and parsing -----------------------------------------------------------------

const escT = (s) => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
const escA = (s) => s.replace(/&/g, '&amp;').replace(/"/g, '&quot;');
function outer(n) {
  if (n.nodeType === TEXT) return RAW.has(n.parentNode?.localName) ? n.data : escT(n.data);
  if (n.nodeType === COMMENT) return `<!--${n.data}-->`;
  let s = '<' + n.localName;
  for (const [k, v] of n.$attr) s += ` ${k}="${escA(v)}"`;
  s += '>';
  if (VOID.has(n.localName)) return s;
  return s + inner(n) + `</${n.localName}>`;
}
function inner(n) { return n.$kids.map(outer).join(''); }
const ENT = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0' };
function unescape(s) {
  return s.replace(/&(#x[0-9a-fA-F]+|#[0-9]+|[a-zA-Z]+);/g, (m, e) => {
    if (e[0] === '#') return String.fromCodePoint(e[1] === 'x' || e[1] === 'X' ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10));
    return ENT[e] ?? m;
  });
}
/** Parses well-formed HTML (what the server renders) below `root`. */
function parseInto(root, html) {
  const doc = root.$doc;
  let cur = root, p = 0;
  const text = (t) => { if (t !== '') { const l = cur.lastChild; if (l?.nodeType === TEXT) l.data += t; else cur.appendChild(new Text(doc, t)); } };
  while (p < html.length) {
    if (html.startsWith('<!--', p)) {
      const e = html.indexOf('-->', p + 4);
      if (e < 0) throw new Error('unclosed comment');
      cur.appendChild(new Comment(doc, html.slice(p + 4, e)));
      p = e + 3;
    } else if (html.startsWith('</', p)) {
      const e = html.indexOf('>', p);
      const n = html.slice(p + 2, e).trim().toLowerCase();
      if (cur.localName?.toLowerCase() !== n) throw new Error(`html: </${n}> closes <${cur.localName}>`);
      cur = cur.parentNode;
      p = e + 1;
    } else if (html[p] === '<' && /[a-zA-Z]/.test(html[p + 1] ?? '')) {
      const m = /^<([a-zA-Z][^\s/>]*)/.exec(html.slice(p));
      p += m[0].length;
      const e = element(doc, HTML_NS, m[1].toLowerCase());
      for (; ;) {
        const r = html.slice(p);
        let a;
        if ((a = /^\s*\/?>/.exec(r))) { p += a[0].length; break; }
        a = /^\s*([^\s=/>]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/.exec(r);
        if (!a) throw new Error('html: bad attribute at ' + r.slice(0, 30));
        p += a[0].length;
        if (!e.$attr.has(a[1].toLowerCase())) e.$attr.set(a[1].toLowerCase(), unescape(a[2] ?? a[3] ?? a[4] ?? ''));
      }
      cur.appendChild(e);
      if (VOID.has(e.localName)) continue;
      if (RAW.has(e.localName)) {
        const close = new RegExp(`</${e.localName}[\\s/>]`, 'i').exec(html.slice(p));
        if (!close) throw new Error('html: unclosed ' + e.localName);
        if (close.index > 0) e.appendChild(new Text(doc, html.slice(p, p + close.index)));
        p = html.indexOf('>', p + close.index) + 1;
      } else cur = e;
    } else {
      let e = html.indexOf('<', p + 1);
      if (e < 0) e = html.length;
      text(unescape(html.slice(p, e)));
      p = e;
    }
  }
  if (cur !== root) throw new Error('html: unclosed ' + cur.localName);
}

// ---- selectors ---------------------------------------------------------------------------------

const IDENT = '(?:--|-?(?:[A-Za-z_\\u0080-\\uffff]|\\\\[^\\n]))(?:[\\w\\u0080-\\uffff-]|\\\\[0-9a-fA-F]{1,6}\\s?|\\\\[^\\n])*';
const unesc = (s) => s.replace(/\\(?:([0-9a-fA-F]{1,6})\s?|([^\n]))/g, (_m, h, c) => (h ? String.fromCodePoint(parseInt(h, 16)) : c));
const cache = new Map();
function selector(sel) {
  sel = String(sel);
  let s = cache.get(sel);
  if (s === undefined) {
    try { s = compile(sel); } catch (e) { s = e; }
    if (cache.size > 20000) cache.clear();
    cache.set(sel, s);
  }
  if (s instanceof Error) throw new DOMException(`'${sel}' is not a valid selector`, 'SyntaxError');
  return s;
}
function compile(sel) {
  let r = sel.trim();
  const eat = (re) => { const m = re.exec(r); if (m) r = r.slice(m[0].length); return m; };
  const id = (m) => unesc(m);
  const compound = () => {
    const t = [];
    let m;
    if (eat(/^\*/)) t.push(() => true);
    else if ((m = eat(new RegExp(`^${IDENT}`)))) { const n = id(m[0]).toLowerCase(); t.push((e) => e.localName.toLowerCase() === n); }
    for (; ;) {
      if ((m = eat(new RegExp(`^#(${IDENT})`)))) { const n = id(m[1]); t.push((e) => e.getAttribute('id') === n); }
      else if ((m = eat(new RegExp(`^\\.(${IDENT})`)))) { const n = id(m[1]); t.push((e) => e.className.split(/\s+/).includes(n)); }
      else if ((m = eat(/^\[\s*/))) {
        m = eat(new RegExp(`^${IDENT}`));
        if (!m) throw new Error('attribute name');
        const n = id(m[0]).toLowerCase();
        eat(/^\s*/);
        const op = eat(/^[~|^$*]?=/);
        if (op) {
          eat(/^\s*/);
          let v;
          if ((m = eat(/^"((?:[^"\\\n]|\\[^\n])*)"/) || eat(/^'((?:[^'\\\n]|\\[^\n])*)'/))) v = unesc(m[1]);
          else if ((m = eat(new RegExp(`^${IDENT}`)))) v = id(m[0]);
          else throw new Error('attribute value');
          eat(/^\s*(?:[iIsS]\s*)?/);
          const f = {
            '=': (a) => a === v, '~=': (a) => v !== '' && a.split(/\s+/).includes(v), '|=': (a) => a === v || a.startsWith(v + '-'),
            '^=': (a) => v !== '' && a.startsWith(v), '$=': (a) => v !== '' && a.endsWith(v), '*=': (a) => v !== '' && a.includes(v),
          }[op[0]];
          t.push((e) => e.$attr.has(n) && f(e.$attr.get(n)));
        } else t.push((e) => e.$attr.has(n));
        if (!eat(/^\]/)) throw new Error('attribute end');
      } else break;
    }
    if (t.length === 0) throw new Error('empty compound');
    return (e) => t.every((f) => f(e));
  };
  const complex = () => {
    let m = compound();
    for (; ;) {
      const c = eat(/^\s*([>+~])\s*|^\s+(?=[^,\s])/);
      if (!c) return m;
      const left = m, right = compound(), comb = c[1] ?? ' ';
      m = (e) => {
        if (!right(e)) return false;
        if (comb === '>') return e.parentElement !== null && left(e.parentElement);
        if (comb === ' ') { for (let p = e.parentElement; p; p = p.parentElement) if (left(p)) return true; return false; }
        const sibs = e.parentNode ? e.parentNode.children : [];
        const at = sibs.indexOf(e);
        return comb === '+' ? at > 0 && left(sibs[at - 1]) : sibs.slice(0, at).some(left);
      };
    }
  };
  const list = [complex()];
  while (eat(/^\s*,\s*/)) list.push(complex());
  if (r !== '') throw new Error('trailing ' + r);
  return (e) => list.some((f) => f(e));
}

// ---- windows -----------------------------------------------------------------------------------

class MediaQueryList extends EventTarget {
  constructor(win, media) { super(); this.$win = win; this.media = media; this.$last = this.matches; }
  get matches() { return evalMedia(this.media, this.$win.$width); }
  get onchange() { return this.$on ?? null; }
  set onchange(f) {
    if (!this.$call) { this.$call = (e) => this.$on?.call(this, e); this.addEventListener('change', this.$call); }
    this.$on = typeof f === 'function' ? f : null;
  }
  addListener(f) { this.addEventListener('change', f); }
  removeListener(f) { this.removeEventListener('change', f); }
}
/** Queries of the form `(min-width: Npx)`, `(max-width: Npx)`, joined by `and`, `,`, with `not all and`. */
function evalMedia(q, w) {
  return q.split(',').some((part) => {
    part = part.trim().toLowerCase();
    let neg = false;
    if (part.startsWith('not ')) { neg = true; part = part.slice(4); }
    const ok = part.split(/\s+and\s+/).every((c) => {
      c = c.trim();
      if (c === 'all' || c === 'screen') return true;
      const m = /^\(\s*(min|max)-width\s*:\s*(\d+)px\s*\)$/.exec(c);
      if (!m) return false;
      return m[1] === 'min' ? w >= Number(m[2]) : w <= Number(m[2]);
    });
    return ok !== neg;
  });
}

let pages = 0;
class Window extends EventTarget {
  constructor() {
    super();
    this.$width = 1000;
    this.$mqls = [];
    this.$tasks = [];
    this.document = new Document();
    this.document.defaultView = this;
    this.window = this;
    this.self = this;
    this.globalThis = this;
    // Every page has randomness and clocks of its own, reproducibly.
    let seed = (++pages * 0x9e3779b9) >>> 0;
    const random = () => {
      seed = (seed + 0x6d2b79f5) >>> 0;
      let t = Math.imul(seed ^ (seed >>> 15), 1 | seed);
      t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t;
      return ((t ^ (t >>> 14)) >>> 0) / 4294967296;
    };
    this.Math = Object.defineProperties({}, { ...Object.getOwnPropertyDescriptors(Math), random: { value: random } });
    let time = random() * 1e5;
    this.performance = { now: () => (time += 0.1) };
    this.Date = class extends Date { static now() { return 1.7e12 + Math.floor(time += 1); } };
    this.crypto = { getRandomValues: (a) => { for (let i = 0; i < a.length; i++) a[i] = Math.floor(random() * 4294967296); return a; } };
    this.console = { error: (...a) => this.$console.push(a.map(String).join(' ')), log() { }, warn() { }, debug() { }, info() { } };
    this.$console = [];
    this.queueMicrotask = (f) => { this.$tasks.push(f); };
    const tasks = this.$tasks;
    // Promises that are already fulfilled, their reactions run in this window's task queue.
    this.Promise = class Promise {
      constructor(v) { this.v = v; }
      static resolve(v) { return new Promise(v); }
      then(f, _rejected) { tasks.push(() => f(this.v)); return new Promise(undefined); }
    };
    const P = this.Promise;
    this.Response = class Response {
      constructor(b) { this.b = b; }
      arrayBuffer() { return new P(Uint8Array.from(this.b).buffer); }
    };
    this.fetch = (u) => {
      const m = /^data:[^,]*;base64,([A-Za-z0-9+/=]*)$/.exec(u);
      if (!m) throw new Error('fetch ' + u);
      return new P(new this.Response(Buffer.from(m[1], 'base64')));
    };
    Object.assign(this, { Error, Object, Array, JSON, String, Number, Function, Uint8Array, ArrayBuffer });
  }
  matchMedia(q) { const m = new MediaQueryList(this, String(q)); this.$mqls.push(m); return m; }
  /** Runs queued microtasks until there are none. */
  $drain() {
    let n = 0;
    while (this.$tasks.length) {
      if (++n > 10000) throw new Error('microtasks without end');
      this.$tasks.shift()();
    }
    return n;
  }
  /** Changes the viewport and reports it, as a browser does in its rendering step. */
  $resize(w, drain = true) {
    this.$width = w;
    for (const m of [...this.$mqls]) {
      const now = m.matches;
      if (now !== m.$last) { m.$last = now; m.$fire({ type: 'change', matches: now, media: m.media }, () => drain && this.$drain()); }
    }
    if (drain) this.$drain();
  }
}
Object.assign(Window.prototype, {
  EventTarget, Node, Element, HTMLElement, HTMLHeadElement, HTMLStyleElement, HTMLScriptElement, HTMLInputElement, HTMLTextAreaElement, Document,
  DocumentFragment, ShadowRoot, Text, Comment, NodeList, MediaQueryList, DOMException, Window,
});

module.exports = { Window, Document, Node, Element, DocumentFragment, ShadowRoot, inner, outer, parseInto };
