'use strict';
// Worker: one JSON request per line on stdin, one JSON answer per line on stdout.
//   {"new": {"width": w, "containers": [kind...], "body": html?, "head": html?}}
//   {"cmd": {...}, "fault": null | {"at": k} | {"all": label}}       a guest command
//   {"resize": w, "drain": bool}   {"drain": 1}   {"snap": 1}   {"gc": 1}
const fs = require('fs');
const path = require('path');
const { Loaded, Instance } = require('./glue.js');
const dom = require('./dom.js');

const loaded = new Loaded(fs.readFileSync(process.argv[2]));
let cur = null;
let pool = null;

function makeContainer(kind, win) {
  const d = win.document;
  switch (kind) {
    case 'head': return d.head;
    case 'body': return d.body;
    case 'div': { const e = d.createElement('div'); d.body.appendChild(e); return e; }
    case 'full': { // already has foreign children
      const e = d.createElement('div');
      d.body.appendChild(e);
      dom.parseInto(e, 'text<!--c--><style>.foreign{}</style><i></i>');
      return e;
    }
    case 'shadow': { const e = d.createElement('div'); d.body.appendChild(e); return e.attachShadow({ mode: 'open' }); }
    case 'iframe': { const n = new dom.Document(); n.defaultView = win; return n.head; }
    case 'detached': return d.createElement('div');
    case 'fragment': return d.createDocumentFragment();
    default: throw new Error('container ' + kind);
  }
}

class Run {
  constructor(o) {
    const win = new dom.Window();
    win.$width = o.width ?? 1000;
    this.win = win;
    this.panic = null;
    if (o.head) dom.parseInto(win.document.head, o.head);
    this.root = win.document.createElement('div');
    win.document.body.appendChild(this.root);
    this.containers = (o.containers ?? []).map((k) => makeContainer(k, win));
    if (o.body) dom.parseInto(this.root, o.body);
    this.faults = null;
    this.calls = [];
    this.fired = [];
    const self = this;
    const realm = {
      global: win,
      fault(label, kind) {
        const f = self.faults;
        if (!f) return false;
        self.calls.push(label);
        const hit = f.at !== undefined ? self.calls.length - 1 === f.at : f.from !== undefined ? self.calls.length - 1 >= f.from : f.all !== undefined ? f.all === label : false;
        if (hit) self.fired.push(`${label}:${kind}`);
        return hit;
      },
      host: {
        h_container: (i) => this.containers[i],
        h_root: () => this.root,
        h_panic: (m) => { this.panic = m; },
        h_result: (m) => { this.result = m; },
      },
    };
    this.realm = realm;
    if (pool && pool.reset(realm)) this.inst = pool;
    else {
      this.inst = pool = new Instance(loaded, realm);
      this.inst.ex.start();
      this.inst.mark();
    }
  }
  guard(f) {
    if (this.dead) return { dead: this.dead };
    try { return f(); } catch (e) {
      this.inst.dirty = true;
      if (this.panic !== null || e instanceof WebAssembly.RuntimeError) {
        this.dead = this.panic ?? `trap: ${e.message}`;
        this.realm.dead = true;
        return { panic: this.dead };
      }
      this.dead = 'uncaught';
      return { uncaught: `${e?.name}: ${e?.message}`, stack: e?.stack };
    } finally { this.faults = null; }
  }
  cmd(c, fault, drain) {
    return this.guard(() => {
      const [p, n] = this.inst.putBytes(Buffer.from(JSON.stringify(c)));
      this.faults = fault ?? null;
      this.calls = [];
      this.fired = [];
      this.result = null;
      this.inst.ex.cmd(p, n);
      this.faults = null;
      const r = JSON.parse(this.result);
      if (fault) { r.calls = this.calls; r.fired = this.fired; }
      if (drain) this.win.$drain();
      return r;
    });
  }
  snap() {
    const list = (n) => n.$kids.map((k) => (k.nodeType === 1
      ? { tag: k.localName, style: k.getAttribute('data-style'), text: k.textContent, attrs: [...k.$attr.keys()].filter((a) => a !== 'data-style') }
      : { other: k.nodeType, text: k.data }));
    const listeners = this.win.$mqls.reduce((a, m) => a + m.$listeners.length, 0);
    return {
      head: list(this.win.document.head), body: list(this.win.document.body).length,
      containers: this.containers.map(list), live: this.inst.live(), root: this.root.innerHTML, listeners, queue: this.win.$tasks.length,
      console: this.win.$console, stray: [...this.win.document.$walk()].filter((n) => n.localName === 'style' && n.hasAttribute('data-style')).length,
    };
  }
}

function answer(q) {
  if (q.new) { cur = new Run(q.new); return { ok: 1 }; }
  if (q.cmd) return cur.cmd(q.cmd, q.fault, q.drain);
  if (q.resize !== undefined) return cur.guard(() => { cur.win.$resize(q.resize, q.drain !== false); return { ok: 1 }; });
  // Runs some microtasks only.
  if (q.tasks !== undefined) return cur.guard(() => { let n = 0; while (n < q.tasks && cur.win.$tasks.length) { cur.win.$tasks.shift()(); n++; } return { ok: 1, ran: n, left: cur.win.$tasks.length }; });
  if (q.drain) return cur.guard(() => { cur.win.$drain(); return { ok: 1 }; });
  if (q.snap) return cur.snap();
  throw new Error('request ' + JSON.stringify(q));
}

let buf = Buffer.alloc(0);
const inb = Buffer.alloc(1 << 16);
const eagain = new Int32Array(new SharedArrayBuffer(4));
for (; ;) {
  let n;
  try { n = fs.readSync(0, inb, 0, inb.length, null); } catch (e) { if (e.code === 'EAGAIN') { Atomics.wait(eagain, 0, 0, 1); continue; } if (e.code === 'EOF') break; throw e; }
  if (n === 0) break;
  buf = Buffer.concat([buf, inb.subarray(0, n)]);
  for (; ;) {
    const i = buf.indexOf(10);
    if (i < 0) break;
    const line = buf.subarray(0, i).toString();
    buf = buf.subarray(i + 1);
    let r;
    try { r = answer(JSON.parse(line)); } catch (e) { r = { harness: String(e?.stack ?? e) }; }
    const out = Buffer.from(JSON.stringify(r) + '\n');
    for (let o = 0; o < out.length;) { try { o += fs.writeSync(1, out, o); } catch (e) { if (e.code !== 'EAGAIN') throw e; Atomics.wait(eagain, 0, 0, 1); } }
  }
}
