'use strict';
// Runs a wasm-bindgen module without the wasm-bindgen CLI: the import metadata is read from the
// module's custom section, the types from its descriptor functions, and values are converted at
// run time by interpreting them.

const T = {};
['I8', 'U8', 'I16', 'U16', 'I32', 'U32', 'I64', 'U64', 'I64_AS_F64', 'U64_AS_F64', 'I128', 'U128', 'F32', 'F64', 'BOOLEAN',
  'FUNCTION', 'CLOSURE', 'CACHED_STRING', 'STRING', 'REF', 'REFMUT', 'LONGREF', 'SLICE', 'VECTOR', 'EXTERNREF',
  'NAMED_EXTERNREF', 'ENUM', 'STRING_ENUM', 'DYNAMIC_UNION', 'RUST_STRUCT', 'CHAR', 'OPTIONAL', 'RESULT', 'UNIT', 'CLAMPED',
  'NONNULL', 'RAW_POINTER', 'SEQ_MODE', 'NULLABLE'].forEach((n, i) => { T[n] = i; });
const NAME = Object.fromEntries(Object.entries(T).map(([k, v]) => [v, k]));
const SENTINEL32 = 9007199254740991;
const SENTINEL_SMALL = 0xFFFFFF;
const UNDEF = 1024;

// ---- metadata -------------------------------------------------------------------------------

class Dec {
  constructor(b) { this.b = b; this.p = 0; }
  byte() { return this.b[this.p++]; }
  bool() { return this.byte() !== 0; }
  u32() { let r = 0, s = 0; for (; ;) { const c = this.byte(); r |= (c & 127) << s; if (!(c & 128)) return r >>> 0; s += 7; } }
  str() { const n = this.u32(); const s = this.b.subarray(this.p, this.p + n).toString('utf8'); this.p += n; return s; }
  vec(f) { const n = this.u32(); const v = []; for (let i = 0; i < n; i++) v.push(f()); return v; }
  opt(f) { return this.byte() ? f() : null; }
}

function program(d) {
  const str = () => d.str();
  const strs = () => d.vec(str);
  const func = () => ({
    args: d.vec(() => [d.str(), d.opt(str), d.bool(), d.opt(str)]), asyncness: d.bool(), jspi: d.bool(), name: d.str(),
    ts: d.bool(), jsdoc: d.bool(), variadic: d.bool(), ret: d.opt(str), retd: d.opt(str),
  });
  const mkind = () => {
    if (d.byte() === 0) return { ctor: true };
    const isStatic = d.bool();
    const k = d.byte();
    const kind = ['regular', 'this', 'get', 'set', 'iget', 'iset', 'idel'][k];
    return { isStatic, kind, prop: k === 2 || k === 3 ? d.str() : null };
  };
  const imod = () => { const k = d.byte(); return k === 2 ? d.u32() : d.str(); };
  d.vec(() => { d.opt(str); strs(); d.bool(); func(); d.opt(strs); mkind(); d.byte(); }); // exports
  d.vec(() => { d.str(); d.bool(); d.vec(() => { d.str(); d.u32(); strs(); }); strs(); d.bool(); d.opt(strs); d.bool(); }); // enums
  return d.vec(() => {
    const i = { module: d.opt(imod), ns: d.opt(strs), reexport: d.opt(str), ts: d.bool() };
    switch (d.byte()) {
      case 0:
        Object.assign(i, { k: 'fn', shim: d.str(), catch: d.bool(), variadic: d.bool(), noshim: d.bool(), susp: d.bool() });
        i.method = d.opt(() => ({ cls: d.str(), ...mkind() }));
        i.structural = d.bool();
        i.fn = func();
        i.mono = d.bool();
        break;
      case 1: Object.assign(i, { k: 'static', name: d.str(), shim: d.str() }); break;
      case 2: Object.assign(i, { k: 'string', shim: d.str(), string: d.str() }); break;
      case 3: Object.assign(i, { k: 'type', name: d.str(), shim: d.str(), vendor: strs() }); break;
      case 4: Object.assign(i, { k: 'enum', name: d.str(), vals: strs(), c: strs(), t: d.bool(), p: d.bool(), n: d.opt(strs) }); break;
      case 5: Object.assign(i, { k: 'union', name: d.str(), vals: strs(), n: d.u32(), c: strs(), t: d.bool(), p: d.bool(), f: d.bool() }); break;
      default: throw new Error('bad import kind');
    }
    return i;
  });
}

function metadata(mod) {
  const out = new Map();
  for (const s of WebAssembly.Module.customSections(mod, '__wasm_bindgen_unstable')) {
    const b = Buffer.from(s);
    let p = 0;
    while (p < b.length) {
      const n = b.readUInt32LE(p); p += 4;
      const v = JSON.parse(b.subarray(p, p + n).toString()); p += n;
      if (v.schema_version !== '0.2.130') throw new Error('schema ' + v.schema_version);
      const m = b.readUInt32LE(p); p += 4;
      for (const i of program(new Dec(b.subarray(p, p + m)))) if (i.shim) out.set(i.shim, i);
      p += m;
    }
  }
  return out;
}

// ---- types ----------------------------------------------------------------------------------

class Words {
  constructor(w) { this.w = w; this.p = 0; }
  next() { if (this.p >= this.w.length) throw new Error('descriptor ends early'); return this.w[this.p++]; }
}
function name(w) { let s = ''; const n = w.next(); for (let i = 0; i < n; i++) s += String.fromCodePoint(w.next()); return s; }
function type(w) {
  const t = w.next();
  switch (t) {
    case T.FUNCTION: return funcType(w);
    case T.CLOSURE: { const owned = w.next() !== 0, mut = w.next() !== 0; if (w.next() !== T.FUNCTION) throw new Error('closure'); return { t, owned, mut, f: funcType(w) }; }
    case T.REF: case T.REFMUT: case T.LONGREF: case T.SLICE: case T.VECTOR: case T.OPTIONAL: case T.RESULT: case T.CLAMPED: case T.NULLABLE:
      return { t, of: type(w) };
    case T.NAMED_EXTERNREF: return { t, name: name(w) };
    case T.ENUM: return { t, name: name(w), hole: w.next() };
    case T.STRING_ENUM: {
      const n = name(w), hole = w.next(), vals = [];
      for (let k = w.next(); k > 0; k--) vals.push(name(w));
      return { t, name: n, hole, vals };
    }
    case T.SEQ_MODE: { const mode = w.next(); return { ...type(w), mode }; }
    default:
      if (NAME[t] === undefined || [T.DYNAMIC_UNION, T.RUST_STRUCT].includes(t)) throw new Error('descriptor ' + NAME[t] + ' ' + t);
      return { t };
  }
}
function funcType(w) {
  const shim = w.next();
  const args = [];
  for (let n = w.next(); n > 0; n--) args.push(type(w));
  const ret = type(w);
  type(w);
  return { t: T.FUNCTION, shim, args, ret };
}

const isStr = (d) => d.t === T.STRING || d.t === T.CACHED_STRING;
const isExt = (d) => d.t === T.EXTERNREF || d.t === T.NAMED_EXTERNREF;
const INT32 = new Set([T.I8, T.U8, T.I16, T.U16, T.I32, T.U32]);
const WIDE = new Set([T.I32, T.U32, T.F32]);

/** Wasm primitives of a value of the type. */
function prims(d) {
  switch (d.t) {
    case T.UNIT: return [];
    case T.I64: case T.U64: return ['i64'];
    case T.I128: case T.U128: return ['i64', 'i64'];
    case T.F32: return ['f32'];
    case T.F64: return ['f64'];
    case T.STRING: case T.CACHED_STRING: case T.SLICE: case T.VECTOR: case T.CLOSURE: return ['i32', 'i32'];
    case T.REF: case T.REFMUT: case T.LONGREF: return isStr(d.of) || d.of.t === T.SLICE || d.of.t === T.FUNCTION ? ['i32', 'i32'] : prims(d.of);
    case T.OPTIONAL: case T.NULLABLE:
      if (WIDE.has(d.of.t)) return ['f64'];
      if (d.of.t === T.F64) return ['i32', 'f64'];
      if (d.of.t === T.I64 || d.of.t === T.U64) return ['i32', 'i64'];
      return prims(d.of);
    case T.RESULT: return [...prims(d.of), 'i32', 'i32'];
    case T.CLAMPED: return prims(d.of);
    default: return ['i32'];
  }
}
const SIZE = { i32: 4, f32: 4, i64: 8, f64: 8 };
function layout(ps) {
  let o = 0; const at = [];
  for (const p of ps) { const s = SIZE[p]; o = (o + s - 1) & -s; at.push(o); o += s; }
  return at;
}

// ---- a loaded module ------------------------------------------------------------------------

class Loaded {
  constructor(bytes) {
    this.mod = new WebAssembly.Module(bytes);
    this.meta = metadata(this.mod);
    this.imports = WebAssembly.Module.imports(this.mod);
    // Describe once, with an instance nothing else runs on.
    const words = [];
    const env = {};
    for (const i of this.imports) {
      env[i.module] ??= {};
      env[i.module][i.name] = i.name === '__wbindgen_describe' ? (x) => { words.push(x >>> 0); }
        : i.name === '__wbindgen_externref_statics_end' ? () => UNDEF + 4
          : () => { throw new Error('import called while describing: ' + i.name); };
    }
    const ex = new WebAssembly.Instance(this.mod, env).exports;
    this.types = new Map();
    for (const i of this.imports) {
      const f = ex['__wbindgen_describe_' + i.name];
      if (!f) continue;
      words.length = 0;
      f();
      this.types.set(i.name, type(new Words(words)));
    }
  }
}

const dec = new TextDecoder('utf-8', { ignoreBOM: true });
const enc = new TextEncoder();

class Instance {
  /** `realm`: {global, fault(name, kind) -> bool, host: {fn...}} */
  constructor(loaded, realm) {
    this.l = loaded;
    this.realm = realm;
    this.heap = new Array(UNDEF + 4);
    this.heap[UNDEF] = undefined; this.heap[UNDEF + 1] = null; this.heap[UNDEF + 2] = true; this.heap[UNDEF + 3] = false;
    this.free = [];
    this.words = [];
    this.scratch = 0;
    const env = {};
    for (const i of loaded.imports) {
      env[i.module] ??= {};
      env[i.module][i.name] = this.import(i.name);
    }
    this.ex = new WebAssembly.Instance(loaded.mod, env).exports;
    this.scratch = this.ex.__wbindgen_malloc(64, 8);
    this.dirty = false;
  }
  /** Remembers the memory, so that `reset` can start over without building a new instance. */
  mark() {
    if (this.live() !== 0) throw new Error('objects are alive at the mark');
    this.snapshot = new Uint8Array(this.ex.memory.buffer).slice();
  }
  /** False if the instance cannot be used again (a trap or an exception went through it). */
  reset(realm) {
    if (this.dirty || this.ex.memory.buffer.byteLength > this.snapshot.length + (64 << 20)) return false;
    new Uint8Array(this.ex.memory.buffer).set(this.snapshot);
    this.heap.length = UNDEF + 4;
    this.free = [];
    this.words = [];
    this.realm = realm;
    return true;
  }
  add(v) {
    if (v === undefined) return UNDEF;
    if (v === null) return UNDEF + 1;
    if (v === true) return UNDEF + 2;
    if (v === false) return UNDEF + 3;
    const i = this.free.length ? this.free.pop() : this.heap.length;
    this.heap[i] = { v };
    return i;
  }
  get(i) {
    if (i >= UNDEF && i < UNDEF + 4) return this.heap[i];
    const s = this.heap[i];
    if (!s) throw new Error('dead object index ' + i);
    return s.v;
  }
  drop(i) { if (i >= UNDEF + 4) { if (!this.heap[i]) throw new Error('double drop ' + i); this.heap[i] = undefined; this.free.push(i); } }
  take(i) { const v = this.get(i); this.drop(i); return v; }
  live() { return this.heap.length - (UNDEF + 4) - this.free.length; }
  view() { if (!this.dv || this.dv.buffer !== this.ex.memory.buffer) this.dv = new DataView(this.ex.memory.buffer); return this.dv; }
  str(p, n) { return dec.decode(new Uint8Array(this.ex.memory.buffer, p >>> 0, n >>> 0)); }
  putStr(s) {
    const b = enc.encode(s);
    const p = this.ex.__wbindgen_malloc(b.length, 1) >>> 0;
    new Uint8Array(this.ex.memory.buffer, p, b.length).set(b);
    return [p, b.length];
  }
  putBytes(b) {
    const p = this.ex.__wbindgen_malloc(b.length, 1) >>> 0;
    new Uint8Array(this.ex.memory.buffer, p, b.length).set(b);
    return [p, b.length];
  }

  /** Wasm primitives -> JS value. `after` collects clean-ups for when the call is over. */
  out(d, v, i) {
    switch (d.t) {
      case T.UNIT: return undefined;
      case T.BOOLEAN: return v[i] !== 0;
      case T.U8: case T.U16: case T.U32: return v[i] >>> 0;
      case T.RAW_POINTER: case T.NONNULL: return v[i] >>> 0;
      case T.CHAR: return String.fromCodePoint(v[i]);
      case T.U64: return BigInt.asUintN(64, v[i]);
      case T.I8: case T.I16: case T.I32: case T.I64: case T.F32: case T.F64: case T.ENUM: return v[i];
      case T.STRING_ENUM: return d.vals[v[i]];
      case T.EXTERNREF: case T.NAMED_EXTERNREF: return this.take(v[i]);
      case T.STRING: case T.CACHED_STRING: {
        const s = this.str(v[i], v[i + 1]);
        if (v[i + 1]) this.ex.__wbindgen_free(v[i], v[i + 1], 1);
        return s;
      }
      case T.CLOSURE: return this.closure(d, v[i], v[i + 1]);
      case T.VECTOR: { const r = this.slice(d.of, v[i], v[i + 1]).map((x) => (isExt(d.of) ? this.take(x) : x)); if (v[i + 1]) this.ex.__wbindgen_free(v[i], v[i + 1] * 4, 4); return r; }
      case T.REF: case T.REFMUT: case T.LONGREF: {
        const o = d.of;
        if (isStr(o)) return this.str(v[i], v[i + 1]);
        if (isExt(o)) return this.get(v[i]);
        // A mutable slice is a view, so that writes reach the memory.
        if (o.t === T.SLICE && o.of.t === T.U8) return new Uint8Array(this.ex.memory.buffer, v[i] >>> 0, v[i + 1] >>> 0);
        if (o.t === T.SLICE) return this.slice(o.of, v[i], v[i + 1]).map((x) => (isExt(o.of) ? this.get(x) : x));
        if (o.t === T.FUNCTION) return this.closure({ owned: false, mut: true, f: o }, v[i], v[i + 1]);
        return this.out(o, v, i);
      }
      case T.OPTIONAL: {
        const o = d.of;
        if (WIDE.has(o.t)) return v[i] === SENTINEL32 ? undefined : v[i];
        if ([T.F64, T.I64, T.U64].includes(o.t)) return v[i] === 0 ? undefined : v[i + 1];
        if (isExt(o) || ((o.t === T.REF || o.t === T.LONGREF) && isExt(o.of))) return v[i] === 0 ? undefined : this.out(o, v, i);
        if (INT32.has(o.t) || o.t === T.BOOLEAN || o.t === T.CHAR) return v[i] === SENTINEL_SMALL ? undefined : this.out(o, v, i);
        if (o.t === T.ENUM || o.t === T.STRING_ENUM) return v[i] === o.hole ? undefined : this.out(o, v, i);
        return v[i] === 0 ? undefined : this.out(o, v, i);
      }
      default: throw new Error('out: ' + NAME[d.t]);
    }
  }
  slice(of, p, n) {
    const r = [];
    const dv = this.view();
    for (let k = 0; k < n; k++) {
      switch (of.t) {
        case T.U8: r.push(dv.getUint8(p + k)); break;
        case T.EXTERNREF: case T.NAMED_EXTERNREF: case T.U32: case T.I32: r.push(dv.getUint32(p + 4 * k, true)); break;
        default: throw new Error('slice of ' + NAME[of.t]);
      }
    }
    return r;
  }
  /** JS value -> wasm primitives. */
  into(d, x) {
    switch (d.t) {
      case T.UNIT: return [];
      case T.BOOLEAN: return [x ? 1 : 0];
      case T.I8: case T.U8: case T.I16: case T.U16: case T.I32: case T.U32: case T.F32: case T.F64: case T.ENUM: return [Number(x)];
      case T.I64: case T.U64: return [BigInt(x)];
      case T.CHAR: return [x.codePointAt(0)];
      case T.STRING_ENUM: { const k = d.vals.indexOf(x); return [k < 0 ? d.vals.length : k]; }
      case T.EXTERNREF: case T.NAMED_EXTERNREF: return [this.add(x)];
      case T.STRING: case T.CACHED_STRING: return this.putStr(String(x));
      case T.REF: case T.LONGREF: if (isExt(d.of)) return [this.add(x)]; throw new Error('into ref ' + NAME[d.of.t]);
      case T.VECTOR: {
        if (!isExt(d.of)) throw new Error('into vector');
        const a = Array.from(x);
        const p = this.ex.__wbindgen_malloc(a.length * 4, 4) >>> 0;
        a.forEach((e, k) => this.view().setUint32(p + 4 * k, this.add(e), true));
        return [p, a.length];
      }
      case T.OPTIONAL: {
        const o = d.of;
        const none = x === undefined || x === null;
        if (WIDE.has(o.t)) return [none ? SENTINEL32 : Number(x)];
        if (o.t === T.F64) return none ? [0, 0] : [1, Number(x)];
        if (o.t === T.I64 || o.t === T.U64) return none ? [0, 0n] : [1, BigInt(x)];
        if (INT32.has(o.t) || o.t === T.BOOLEAN || o.t === T.CHAR) return none ? [SENTINEL_SMALL] : this.into(o, x);
        if (o.t === T.ENUM || o.t === T.STRING_ENUM) return none ? [o.hole] : this.into(o, x);
        return none ? prims(o).map(() => 0) : this.into(o, x);
      }
      default: throw new Error('into: ' + NAME[d.t]);
    }
  }
  write(at, d, x) {
    const ps = prims(d), off = layout(ps);
    const v = this.into(d, x);
    const dv = this.view();
    ps.forEach((p, k) => {
      const a = (at >>> 0) + off[k];
      if (p === 'i32') dv.setInt32(a, v[k], true);
      else if (p === 'f64') dv.setFloat64(a, v[k], true);
      else if (p === 'f32') dv.setFloat32(a, v[k], true);
      else dv.setBigInt64(a, v[k], true);
    });
  }
  read(at, d) {
    const ps = prims(d), off = layout(ps);
    const dv = this.view();
    return ps.map((p, k) => {
      const a = (at >>> 0) + off[k];
      if (p === 'i32') return dv.getInt32(a, true);
      if (p === 'f64') return dv.getFloat64(a, true);
      if (p === 'f32') return dv.getFloat32(a, true);
      return dv.getBigInt64(a, true);
    });
  }

  closure(d, a, b) {
    const st = { a, b, cnt: 1, owned: d.owned };
    const self = this;
    const f = function (...args) {
      const drop = [];
      const v = [];
      d.f.args.forEach((t, k) => {
        const r = self.into(t, args[k]);
        if ((t.t === T.REF || t.t === T.LONGREF) && isExt(t.of)) drop.push(r[0]);
        v.push(...r);
      });
      const a0 = st.a;
      st.cnt++;
      if (d.mut) st.a = 0;
      try {
        const shim = self.ex.__indirect_function_table.get(d.f.shim);
        const ps = prims(d.f.ret);
        if (ps.length > 1) {
          const p = self.ex.__wbindgen_malloc(32, 8);
          try {
            shim(p, a0, st.b, ...v);
            const r = self.read(p, d.f.ret);
            if (d.f.ret.t !== T.RESULT) return self.out(d.f.ret, r, 0);
            const n = r.length;
            if (r[n - 1] !== 0) throw self.take(r[n - 2]);
            return self.out(d.f.ret.of, r, 0);
          } finally { self.ex.__wbindgen_free(p, 32, 8); }
        }
        const r = shim(a0, st.b, ...v);
        return ps.length ? self.out(d.f.ret, [r], 0) : undefined;
      } finally {
        if (d.mut) st.a = a0;
        self.unref(st);
        for (const i of drop) self.drop(i);
      }
    };
    f.$closure = st;
    return f;
  }
  unref(st) {
    if (--st.cnt === 0) {
      const a = st.a;
      st.a = 0;
      if (st.owned) this.ex.__wbindgen_destroy_closure(a, st.b);
      return true;
    }
    return false;
  }

  path(ns, global) {
    let o = global;
    for (const n of ns) { o = o?.[n]; }
    return o;
  }

  binding(meta, fname) {
    switch (meta.k) {
      case 'static': { const p = [...(meta.ns || []), meta.name]; return () => this.path(p, this.realm.global); }
      case 'type': return (o) => { const c = this.realm.global[meta.name]; return typeof c === 'function' && o instanceof c; };
      case 'string': return () => meta.string;
      case 'fn': {
        const n = meta.fn.name;
        const ns = meta.ns || [];
        const m = meta.method;
        if (!m) {
          if (n.startsWith('__wbindgen_') || n.startsWith('_wbg_')) return this.intrinsic(n);
          if (n.startsWith('h_')) return (...a) => this.realm.host[n](...a);
          const full = [...ns, ...n.split('.')], last = full.pop();
          return (...a) => { const o = this.path(full, this.realm.global); if (typeof o?.[last] !== 'function') throw new TypeError([...full, last].join('.') + ' is not a function'); return o[last](...a); };
        }
        if (m.ctor) return (...a) => { const c = this.path([...ns, m.cls], this.realm.global); return new c(...a); };
        const recv = m.isStatic ? (f) => (...a) => f(this.path([...ns, m.cls], this.realm.global), ...a) : (f) => f;
        switch (m.kind) {
          case 'regular': if (n.startsWith('_wbg_')) return this.intrinsic(n);
            return recv((o, ...a) => { if (typeof o[n] !== 'function') throw new TypeError(`${m.cls}.${n} is not a function`); return o[n](...a); });
          case 'get': return recv((o) => o[m.prop]);
          case 'set': return recv((o, x) => { o[m.prop] = x; });
          case 'iget': return recv((o, k) => o[k]);
          case 'iset': return recv((o, k, x) => { o[k] = x; });
          case 'idel': return recv((o, k) => { delete o[k]; });
          default: throw new Error('method kind ' + m.kind);
        }
      }
      default: throw new Error('binding of ' + fname);
    }
  }

  intrinsic(n) {
    switch (n) {
      case '__wbindgen_throw': return (m) => { throw new Error(m); };
      case '__wbindgen_rethrow': return (e) => { throw e; };
      case '__wbindgen_jsval_eq': return (a, b) => a === b;
      case '__wbindgen_jsval_loose_eq': return (a, b) => a == b;
      case '__wbindgen_is_function': return (a) => typeof a === 'function';
      case '__wbindgen_is_undefined': return (a) => a === undefined;
      case '__wbindgen_is_null': return (a) => a === null;
      case '__wbindgen_is_object': return (a) => typeof a === 'object' && a !== null;
      case '__wbindgen_is_string': return (a) => typeof a === 'string';
      case '__wbindgen_is_falsy': return (a) => !a;
      case '__wbindgen_string_get': return (a) => (typeof a === 'string' ? a : undefined);
      case '__wbindgen_number_get': return (a) => (typeof a === 'number' ? a : undefined);
      case '__wbindgen_boolean_get': return (a) => (typeof a === 'boolean' ? a : undefined);
      case '__wbindgen_debug_string': return (a) => (a instanceof Error ? `${a.name}: ${a.message}` : String(a));
      case '__wbindgen_jspi_in_context': return () => 0;
      case '_wbg_cb_unref': return (f) => { if (f.$closure) this.unref(f.$closure); };
      default: return () => { throw new Error('intrinsic ' + n); };
    }
  }

  import(fname) {
    switch (fname) {
      case '__wbindgen_externref_statics_end': return () => UNDEF + 4;
      case '__wbindgen_externref_table_grow': case '__wbindgen_externref_table_set_null': return () => { throw new Error(fname); };
      case '__wbindgen_object_clone_ref': return (i) => this.add(this.get(i));
      case '__wbindgen_object_drop_ref': return (i) => { this.drop(i); };
      case '__wbindgen_describe': return (x) => { this.words.push(x >>> 0); };
      case '__wbindgen_describe_generic_import': return (_f, p) => this.cast(p);
      default:
    }
    const meta = this.l.meta.get(fname);
    const ty = this.l.types.get(fname);
    if (!meta) throw new Error('no metadata for import ' + fname);
    if (!ty && meta.k === 'fn') throw new Error('no descriptor for import ' + fname);
    const call = this.binding(meta, fname);
    const args = meta.k === 'type' ? [{ t: T.REF, of: { t: T.EXTERNREF } }] : meta.k === 'fn' ? ty.args : [];
    let ret = meta.k === 'type' ? { t: T.BOOLEAN } : meta.k === 'fn' ? ty.ret : ty || { t: T.EXTERNREF };
    if (ret.t === T.FUNCTION) ret = ret.ret;
    if (ret.t === T.RESULT) ret = ret.of;
    const rp = prims(ret);
    const sret = rp.length > 1;
    const pos = [];
    let at = 0;
    for (const a of args) { pos.push(at); at += prims(a).length; }
    const label = meta.k === 'fn' ? (meta.method ? `${meta.method.cls}.${meta.method.prop || meta.fn.name}` : meta.fn.name) : meta.name || meta.k;
    const optional = ret.t === T.OPTIONAL && meta.k === 'fn' && meta.method;
    const kind = meta.catch ? 'throw' : optional ? 'null' : null;
    return (...v) => {
      const retp = sret ? v.shift() : 0;
      const js = args.map((a, k) => this.out(a, v, pos[k]));
      if (meta.variadic) js.push(...js.pop());
      let r;
      const realm = this.realm;
      try {
        const f = kind && realm.fault ? realm.fault(label, kind) : false;
        if (f && kind === 'throw') throw new realm.global.DOMException('injected fault in ' + label, 'InjectedError');
        r = f ? null : call(...js);
      } catch (e) {
        if (!(e instanceof realm.global.DOMException)) this.dirty = true;
        if (!meta.catch || realm.dead || e instanceof WebAssembly.RuntimeError) throw e;
        this.ex.__wbindgen_exn_store(this.add(e));
        if (sret) { for (let k = 0; k < rp.length; k++) this.view().setInt32(retp + 4 * k, 0, true); return undefined; }
        return rp[0] === 'i64' ? 0n : 0;
      }
      if (sret) { this.write(retp, ret, r); return undefined; }
      return rp.length ? this.into(ret, r)[0] : undefined;
    };
  }

  cast(p) {
    const w = new Words(this.words);
    this.words = [];
    const klen = w.next();
    if (klen !== 0) throw new Error('generic import with a key');
    if (w.next() !== T.FUNCTION) throw new Error('cast descriptor');
    const f = funcType(w);
    const v = this.read(p, f.args[0]);
    // The parts are stored one after the other, each aligned on its own; `()` parts take no room.
    const js = this.out(f.args[0], v, 0);
    this.write(this.scratch, f.ret, js);
    return this.scratch;
  }
}

module.exports = { Loaded, Instance };
