'use strict';
// Adds exports for function table 0 and every mutable global of a module, so that the simulator can dispatch
// call-backs and roll a canister's globals back together with its memory.
const crypto = require('crypto');
function leb(n) { const o = []; do { let b = n & 127; n >>>= 7; if (n) b |= 128; o.push(b); } while (n); return Buffer.from(o); }
function instrument(buf) {
  let p = 8; const secs = [];
  const rd = (q) => { let r = 0, s = 0, b; do { b = buf[q++]; r |= (b & 127) << s; s += 7; } while (b & 128); return [r >>> 0, q]; };
  while (p < buf.length) { const id = buf[p]; const [len, q] = rd(p + 1); secs.push({ id, start: q, end: q + len }); p = q + len; }
  let impGlobals = 0;
  const imp = secs.find(s => s.id === 2);
  if (imp) {
    let [n, q] = rd(imp.start);
    for (let i = 0; i < n; i++) {
      for (let k = 0; k < 2; k++) { const [l, q2] = rd(q); q = q2 + l; }
      const kind = buf[q++];
      if (kind === 0) { [, q] = rd(q); } else if (kind === 3) { q += 2; impGlobals++; } else throw new Error('unsupported import kind ' + kind);
    }
  }
  const muts = [];
  const gs = secs.find(s => s.id === 6);
  if (gs) {
    let [n, q] = rd(gs.start);
    for (let i = 0; i < n; i++) {
      const vt = buf[q++], mut = buf[q++];
      if (mut) muts.push({ i: impGlobals + i, vt });
      const op = buf[q++];
      if (op === 0x41 || op === 0x42) { while (buf[q++] & 128); } else if (op === 0x43) q += 4; else if (op === 0x44) q += 8; else if (op === 0x23) { [, q] = rd(q); } else throw new Error('global init op ' + op);
      if (buf[q++] !== 0x0b) throw new Error('global init end');
    }
  }
  const hasTable = secs.some(s => s.id === 4);
  const ex = secs.find(s => s.id === 7);
  const [n, q0] = rd(ex.start);
  const add = []; let cnt = 0;
  const mk = (name, kind, idx) => { const b = Buffer.from(name); add.push(leb(b.length), b, Buffer.from([kind]), leb(idx)); cnt++; };
  if (hasTable) mk('__sim_table', 1, 0);
  for (const m of muts) mk('__sim_g' + m.i, 3, m.i);
  const body = Buffer.concat([leb(n + cnt), buf.slice(q0, ex.end), ...add]);
  const out = [buf.slice(0, 8)];
  for (const s of secs) {
    if (s.id === 7) out.push(Buffer.from([7]), leb(body.length), body);
    else out.push(Buffer.from([s.id]), leb(s.end - s.start), buf.slice(s.start, s.end));
  }
  return Buffer.concat(out);
}
const zlib = require('zlib');
const cache = new Map();
function load(bytes) {
  const h = crypto.createHash('sha256').update(bytes).digest('hex');
  if (cache.has(h)) return cache.get(h);
  let raw = bytes;
  if (bytes[0] === 0x1f && bytes[1] === 0x8b) raw = zlib.gunzipSync(bytes);
  const m = new WebAssembly.Module(instrument(raw));
  const r = { hash: h, module: m, exports: WebAssembly.Module.exports(m).map(e => e.name), imports: WebAssembly.Module.imports(m) };
  cache.set(h, r); return r;
}
module.exports = { load, instrument };
