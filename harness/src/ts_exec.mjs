// Runs generated TypeScript on request. One JSON request per line on the standard input, one answer per line on
// the standard output.
import { readSync, writeSync, readFileSync, writeFileSync } from 'node:fs';
import { createRequire } from 'node:module';
import { pathToFileURL } from 'node:url';

const require = createRequire('/opt/veriftools/node/');
const esbuild = require('esbuild');

const UNIT_LIMIT = 100000;
class TooManyUnits extends Error {}
globalThis.__VH_Array = new Proxy(Array, {
  apply(t, self, args) {
    if (args.length === 1 && typeof args[0] === 'number' && args[0] > UNIT_LIMIT && args[0] < 4294967296) {
      throw new TooManyUnits();
    }
    return Reflect.apply(t, self, args);
  },
  construct(t, args, nt) {
    if (args.length === 1 && typeof args[0] === 'number' && args[0] > UNIT_LIMIT && args[0] < 4294967296) {
      throw new TooManyUnits();
    }
    return Reflect.construct(t, args, t);
  },
});

const modules = new Map();
const sets = new Map();

async function load(key, path, types) {
  const { code } = esbuild.transformSync(readFileSync(path, 'utf8'), { loader: 'ts', target: 'es2022' });
  const out = path.replace(/\.ts$/, '.mjs');
  writeFileSync(out, 'const Array = globalThis.__VH_Array;\n' + code);
  modules.set(key, await import(pathToFileURL(out).href));
  sets.set(key, types);
}

function find(key) {
  const i = key.indexOf('/');
  const set = key.slice(0, i);
  const t = sets.get(set)[key.slice(i + 1)];
  let ns = modules.get(set);
  for (const c of t.ns) {
    ns = ns[c];
    if (ns === undefined) throw new Error('harness: no namespace ' + c);
  }
  const ops = ns[t.name];
  if (ops === undefined) throw new Error('harness: no type ' + t.name);
  return { types: sets.get(set), t, ops };
}

const f64 = new DataView(new ArrayBuffer(8));

function unhex(h) {
  const b = Buffer.from(h, 'hex');
  const ab = new ArrayBuffer(b.length);
  new Uint8Array(ab).set(b);
  return ab;
}

// A harness value to the written type.
function build(types, ty, j) {
  if (typeof ty === 'object') {
    if (ty.a !== undefined) {
      if (!Array.isArray(j)) return Array(j.n).fill(null);
      return j.map((x) => build(types, ty.a, x));
    }
    const t = types[ty.r];
    if (t.choice) {
      let out;
      for (let k = j.length - 1; k >= 0; k--) {
        const [i, v] = j[k];
        const f = t.fields[i];
        const o = { [f.n]: build(types, f.ty, v) };
        if (f.rule !== 0) o.$fallback = out;
        out = o;
      }
      return out;
    }
    const o = {};
    t.fields.forEach((f, i) => {
      o[f.n] = j[i] === 0 ? undefined : build(types, f.ty, j[i][0]);
    });
    return o;
  }
  switch (ty) {
    case 'unit':
      return null;
    case 'bool':
      return j;
    case 'f64':
      f64.setBigUint64(0, BigInt('0x' + j));
      return f64.getFloat64(0);
    case 'u64':
    case 's64':
      return BigInt(j);
    case 'bytes':
      return unhex(j);
    case 'str':
      return j;
  }
  throw new Error('harness: ' + ty);
}

class BadShape extends Error {}

function must(c, what, x) {
  if (!c) throw new BadShape(`expected ${what}, got ${typeof x === 'object' ? Object.prototype.toString.call(x) : String(x)}`);
}

// The read type to a harness value. Checks that it has the documented shape.
function dump(types, ty, x) {
  if (typeof ty === 'object') {
    if (ty.a !== undefined) {
      must(Array.isArray(x), 'an array', x);
      if (ty.a === 'unit') {
        if (x.length > UNIT_LIMIT) throw new TooManyUnits();
        for (let i = 0; i < x.length; i++) must(x[i] === null, 'null', x[i]);
        if (x.length > 8) return { n: x.length };
      }
      const out = [];
      for (let i = 0; i < x.length; i++) out.push(dump(types, ty.a, x[i]));
      return out;
    }
    const t = types[ty.r];
    must(typeof x === 'object' && x !== null, 'an object', x);
    if (t.choice) {
      const out = [];
      for (;;) {
        must(typeof x === 'object' && x !== null, 'an object', x);
        const i = t.fields.findIndex((f) => f.n === x.$field);
        must(i >= 0, 'a known $field', x.$field);
        const f = t.fields[i];
        must(Object.hasOwn(x, f.n), 'the payload', x[f.n]);
        for (const k of Object.keys(x)) {
          must(k === '$field' || k === f.n || (k === '$fallback' && f.rule === 2), 'only the documented properties', k);
        }
        out.push([i, dump(types, f.ty, x[f.n])]);
        if (f.rule !== 2) return out;
        x = x.$fallback;
      }
    }
    for (const k of Object.keys(x)) {
      must(t.fields.some((f) => f.n === k), 'only the documented properties', k);
    }
    return t.fields.map((f) => {
      const v = Object.hasOwn(x, f.n) ? x[f.n] : undefined;
      if (v === undefined) {
        must(f.rule !== 0, 'a required field', v);
        return 0;
      }
      return [dump(types, f.ty, v)];
    });
  }
  switch (ty) {
    case 'unit':
      must(x === null, 'null', x);
      return null;
    case 'bool':
      must(typeof x === 'boolean', 'a boolean', x);
      return x;
    case 'f64':
      must(typeof x === 'number', 'a number', x);
      // The engine may change the bits of a NaN at any time.
      f64.setFloat64(0, x);
      return Number.isNaN(x) ? '7ff8000000000000' : f64.getBigUint64(0).toString(16).padStart(16, '0');
    case 'u64':
      must(typeof x === 'bigint' && x >= 0n && x < 1n << 64n, 'a 64-bit unsigned integer', x);
      return x.toString();
    case 's64':
      must(typeof x === 'bigint' && x >= -(1n << 63n) && x < 1n << 63n, 'a 64-bit signed integer', x);
      return x.toString();
    case 'bytes':
      must(x instanceof ArrayBuffer, 'an ArrayBuffer', x);
      return Buffer.from(x).toString('hex');
    case 'str':
      must(typeof x === 'string' && x.isWellFormed(), 'a well-formed string', x);
      return x;
  }
  throw new Error('harness: ' + ty);
}

const VIEWS = [
  null,
  DataView,
  Uint8Array,
  Int8Array,
  Uint8ClampedArray,
  Int16Array,
  Uint16Array,
  Int32Array,
  Uint32Array,
  Float32Array,
  Float64Array,
  BigInt64Array,
  BigUint64Array,
];

function view(h, kind, pad) {
  const ab = unhex(h);
  const n = ab.byteLength;
  const V = VIEWS[kind];
  if (V === null) return ab;
  const unit = V.BYTES_PER_ELEMENT ?? 1;
  if (n % unit !== 0) return ab;
  const off = pad * (unit === 1 ? 1 : unit);
  const big = new ArrayBuffer(off + n + 16);
  new Uint8Array(big).fill(pad % 2 === 0 ? 0xa5 : 0x03);
  new Uint8Array(big).set(new Uint8Array(ab), off);
  return new V(big, off, V === DataView ? n : n / unit);
}

const text = (e) => {
  if (e instanceof TooManyUnits) return 'units';
  if (e instanceof Error) return `${e.name}: ${e.message}`.slice(0, 300);
  return 'not an Error: ' + String(e).slice(0, 300);
};

function handle(q) {
  if (q.op === 'enc') {
    const { types, t, ops } = find(q.k);
    const v = build(types, { r: q.k.slice(q.k.indexOf('/') + 1) }, q.v);
    let size, ab;
    try {
      size = ops.size(v);
      ab = ops.serialize(v);
    } catch (e) {
      return { throw: text(e) };
    }
    if (!(ab instanceof ArrayBuffer)) return { throw: 'serialize did not return an ArrayBuffer' };
    if (typeof size !== 'number') return { throw: 'size did not return a number' };
    return { size, hex: Buffer.from(ab).toString('hex') };
  }
  if (q.op === 'dec') {
    const { types, t, ops } = find(q.k);
    const input = view(q.hex, q.view ?? 0, q.pad ?? 0);
    let x;
    try {
      x = ops.deserialize(input);
    } catch (e) {
      return { throw: text(e) };
    }
    if (x instanceof Error) return x instanceof TooManyUnits ? { units: true } : { err: text(x) };
    try {
      return { ok: dump(types, { r: q.k.slice(q.k.indexOf('/') + 1) }, x) };
    } catch (e) {
      if (e instanceof TooManyUnits) return { units: true };
      if (e instanceof BadShape) return { shape: e.message };
      throw e;
    }
  }
  if (q.op === 'hist') return history(q);
  throw new Error('harness: bad request');
}

// Everything about a message that can be seen, as text.
function snap(x) {
  if (x === null || x === undefined) return String(x);
  if (typeof x === 'bigint') return x + 'n';
  if (typeof x === 'number') {
    if (Number.isNaN(x)) return 'NaN';
    f64.setFloat64(0, x);
    return 'f' + f64.getBigUint64(0).toString(16);
  }
  if (typeof x !== 'object') return JSON.stringify(x);
  if (x instanceof ArrayBuffer) return 'b' + Buffer.from(x).toString('hex');
  if (Array.isArray(x)) return '[' + Array.from(x, snap).join(',') + ']';
  return '{' + Reflect.ownKeys(x).map((k) => String(k) + ':' + snap(x[k])).join(',') + '}';
}

function buffers(x, out) {
  if (typeof x !== 'object' || x === null) return;
  if (x instanceof ArrayBuffer) out.push(x);
  else for (const k of Reflect.ownKeys(x)) buffers(x[k], out);
}

const scribble = (ab) => {
  const b = new Uint8Array(ab);
  for (let i = 0; i < b.length; i++) b[i] ^= 0x5a;
};

// Turn one message into another one of the same type, in place as far as possible.
function morph(a, b) {
  if (a instanceof ArrayBuffer && b instanceof ArrayBuffer && a.byteLength === b.byteLength) {
    new Uint8Array(a).set(new Uint8Array(b));
    return a;
  }
  const plain = (x) => typeof x === 'object' && x !== null && !(x instanceof ArrayBuffer);
  if (!plain(a) || !plain(b) || Array.isArray(a) !== Array.isArray(b)) return b;
  if (Array.isArray(a)) {
    a.length = Math.min(a.length, b.length);
    for (let i = 0; i < b.length; i++) a[i] = i < a.length ? morph(a[i], b[i]) : b[i];
    return a;
  }
  const all = Reflect.ownKeys(b).map((k) => [k, Object.hasOwn(a, k) ? morph(a[k], b[k]) : b[k]]);
  for (const k of Reflect.ownKeys(a)) delete a[k];
  for (const [k, x] of all) a[k] = x;
  return a;
}

// A sequence of calls whose arguments and results all stay alive.
function history(q) {
  const problems = [];
  const kept = [];
  const keep = (what, x) => kept.push([what, x, snap(x)]);
  const verify = (when) => {
    for (const [what, x, s] of kept) {
      const now = snap(x);
      if (now !== s) problems.push(`${when}: ${what} changed from ${s} to ${now}`.slice(0, 500));
    }
  };
  const outputs = [];
  const once = (step, n) => {
    const { types, ops } = find(step.k);
    const r = { r: step.k.slice(step.k.indexOf('/') + 1) };
    if (step.op === 'enc') {
      const v = build(types, r, step.v);
      try {
        // Another message may have been where this one is now.
        if (step.earlier !== null) {
          const w = build(types, r, step.v);
          const x = build(types, r, step.earlier);
          const y = snap(w);
          morph(v, x);
          if (step.how !== 1) ops.size(v);
          if (step.how !== 0) ops.serialize(v);
          morph(v, w);
          if (snap(v) !== y) throw new Error('harness: bad change');
        }
        keep(`the message of step ${n}`, v);
        const size = ops.size(v);
        const ab = ops.serialize(v);
        keep(`the bytes from step ${n}`, ab);
        outputs.push(ab);
        return { size, hex: Buffer.from(ab).toString('hex') };
      } catch (e) {
        return { throw: text(e) };
      }
    }
    const input = view(step.hex, step.view, step.pad);
    const whole = input instanceof ArrayBuffer ? input : input.buffer;
    const before = snap(whole);
    let x;
    try {
      x = ops.deserialize(input);
    } catch (e) {
      return { throw: text(e) };
    }
    if (snap(whole) !== before) problems.push(`step ${n} changed the bytes it read`);
    if (x instanceof Error) return x instanceof TooManyUnits ? { units: true } : { err: true };
    let ok;
    try {
      ok = dump(types, r, x);
    } catch (e) {
      if (e instanceof TooManyUnits) return { units: true };
      if (e instanceof BadShape) return { shape: e.message };
      throw e;
    }
    keep(`the value from step ${n}`, x);
    const a = { ok };
    if (step.relay) {
      try {
        a.relay = Buffer.from(ops.serialize(x)).toString('hex');
      } catch (e) {
        return { throw: text(e) };
      }
    }
    // The value must be independent of the bytes it was read from.
    scribble(whole);
    return a;
  };
  const first = q.steps.map((s, i) => {
    const a = once(s, i);
    verify(`after step ${i}`);
    return a;
  });
  const second = q.steps.map((s, i) => once(s, i));
  first.forEach((a, i) => {
    if (JSON.stringify(a) !== JSON.stringify(second[i])) {
      problems.push(`step ${i} gave ${JSON.stringify(a)}, and later ${JSON.stringify(second[i])}`.slice(0, 600));
    }
  });
  verify('after repeating all steps');
  // Nothing shares memory with anything else.
  const all = [];
  for (const [, x] of kept) buffers(x, all);
  if (new Set(all).size !== all.length) problems.push('two messages share a buffer');
  return { steps: first, problems };
}

function reply(o) {
  let b = Buffer.from(JSON.stringify(o) + '\n');
  while (b.length > 0) {
    try {
      b = b.subarray(writeSync(1, b));
    } catch (e) {
      if (e.code !== 'EAGAIN') throw e;
    }
  }
}

let pending = Buffer.alloc(0);
const chunk = Buffer.alloc(1 << 16);
function line() {
  const parts = [pending];
  for (;;) {
    const last = parts[parts.length - 1];
    const i = last.indexOf(10);
    if (i >= 0) {
      const all = Buffer.concat(parts);
      const k = all.length - last.length + i;
      pending = all.subarray(k + 1);
      return all.subarray(0, k).toString('utf8');
    }
    let n;
    try {
      n = readSync(0, chunk);
    } catch (e) {
      if (e.code === 'EAGAIN') continue;
      if (e.code === 'EOF') return null;
      throw e;
    }
    if (n === 0) return null;
    parts.push(Buffer.from(chunk.subarray(0, n)));
  }
}

for (;;) {
  const l = line();
  if (l === null) break;
  const q = JSON.parse(l);
  if (q.op === 'load') {
    try {
      await load(q.k, q.path, q.types);
      reply({ ok: true });
    } catch (e) {
      reply({ failed: String(e.message ?? e).slice(0, 600) });
    }
    continue;
  }
  reply(handle(q));
}
