'use strict';
// Minimal Candid codec. Encoding is typed (T.*); decoding is driven by the type table in the message,
// with field names recovered from a dictionary of known labels.
const crypto = require('crypto');

function hash(name) { let h = 0; for (const b of Buffer.from(name, 'utf8')) h = (Math.imul(h, 223) + b) >>> 0; return h; }
const names = new Map();
function know(...ns) { for (const n of ns) names.set(hash(n), n); }
function label(h) { return names.has(h) ? names.get(h) : '_' + h; }

// ---- principals
const B32 = 'abcdefghijklmnopqrstuvwxyz234567';
const crcTab = (() => { const t = []; for (let n = 0; n < 256; n++) { let c = n; for (let k = 0; k < 8; k++) c = c & 1 ? 0xedb88320 ^ (c >>> 1) : c >>> 1; t[n] = c >>> 0; } return t; })();
function crc32(b) { let c = 0xffffffff; for (const x of b) c = crcTab[(c ^ x) & 255] ^ (c >>> 8); return (c ^ 0xffffffff) >>> 0; }
const ptCache = new Map();
function pText(bytes) {
  const key = Buffer.from(bytes).toString('hex');
  if (ptCache.has(key)) return ptCache.get(key);
  const b = Buffer.from(bytes), c = Buffer.alloc(4); c.writeUInt32BE(crc32(b));
  let bits = 0, acc = 0, out = '';
  for (const x of Buffer.concat([c, b])) { acc = ((acc << 8) | x) & 0xfffff; bits += 8; while (bits >= 5) { out += B32[(acc >>> (bits - 5)) & 31]; bits -= 5; } acc &= (1 << bits) - 1; }
  if (bits > 0) out += B32[(acc << (5 - bits)) & 31];
  const r = out.match(/.{1,5}/g).join('-');
  ptCache.set(key, r); return r;
}
const pbCache = new Map();
function pBytes(text) {
  if (pbCache.has(text)) return pbCache.get(text);
  let bits = 0, acc = 0; const out = [];
  for (const ch of text.replace(/-/g, '')) { const v = B32.indexOf(ch); if (v < 0) throw new Error('bad principal ' + text); acc = ((acc << 5) | v) & 0xffffff; bits += 5; if (bits >= 8) { out.push((acc >>> (bits - 8)) & 255); bits -= 8; acc &= (1 << bits) - 1; } }
  const r = Buffer.from(out.slice(4));
  if (pText(r) !== text) throw new Error('bad principal text ' + text);
  pbCache.set(text, r); return r;
}

// ---- types
const prim = (name, code) => ({ k: 'prim', name, code });
const T = {
  null: prim('null', -1), bool: prim('bool', -2), nat: prim('nat', -3), int: prim('int', -4),
  nat8: prim('nat8', -5), nat16: prim('nat16', -6), nat32: prim('nat32', -7), nat64: prim('nat64', -8),
  int8: prim('int8', -9), int16: prim('int16', -10), int32: prim('int32', -11), int64: prim('int64', -12),
  f32: prim('f32', -13), f64: prim('f64', -14), text: prim('text', -15), reserved: prim('reserved', -16), empty: prim('empty', -17),
  principal: prim('principal', -24),
  opt: t => ({ k: 'opt', t }), vec: t => ({ k: 'vec', t }),
  record: fs => mkFields('record', fs), variant: fs => mkFields('variant', fs),
  tuple: (...ts) => ({ k: 'record', tuple: true, fs: ts.map((t, i) => ({ h: i, n: String(i), t })) }),
  rec: f => ({ k: 'rec', f }),
};
T.blob = T.vec(T.nat8);
function mkFields(k, fs) {
  const a = Object.entries(fs).map(([n, t]) => { know(n); return { h: hash(n), n, t }; });
  a.sort((x, y) => x.h - y.h); return { k, fs: a };
}
function uleb(n, out) { n = BigInt(n); do { let b = Number(n & 127n); n >>= 7n; if (n) b |= 128; out.push(b); } while (n); }
function sleb(n, out) { n = BigInt(n); for (;;) { const b = Number(n & 127n); n >>= 7n; if ((n === 0n && !(b & 64)) || (n === -1n && (b & 64))) { out.push(b); return; } out.push(b | 128); } }
const resolve = t => { while (t.k === 'rec') { if (!t.r) t.r = t.f(); t = t.r; } return t; };

const tblCache = new Map();
function encode(types, vals) {
  // type table (cached per `types` array identity)
  let head = tblCache.get(types);
  if (!head) {
    const idx = new Map(), defs = [];
    const ref = t0 => {
      const t = resolve(t0);
      if (t.k === 'prim') return t.code;
      if (idx.has(t)) return idx.get(t);
      const i = defs.length; defs.push(null); idx.set(t, i);
      const o = [];
      if (t.k === 'opt') { sleb(-18, o); sleb(ref(t.t), o); }
      else if (t.k === 'vec') { sleb(-19, o); sleb(ref(t.t), o); }
      else { sleb(t.k === 'record' ? -20 : -21, o); uleb(t.fs.length, o); for (const f of t.fs) { uleb(f.h, o); sleb(ref(f.t), o); } }
      defs[i] = o; return i;
    };
    const refs = types.map(ref); const out = [0x44, 0x49, 0x44, 0x4c];
    uleb(defs.length, out); for (const d of defs) for (const b of d) out.push(b);
    uleb(refs.length, out); for (const r of refs) sleb(r, out);
    head = Buffer.from(out); tblCache.set(types, head);
  }
  const parts = [head]; let cur = [];
  const flush = () => { if (cur.length) { parts.push(Buffer.from(cur)); cur = []; } };
  const w = (t0, v) => {
    const t = resolve(t0);
    switch (t.k) {
      case 'prim': switch (t.name) {
        case 'null': case 'reserved': return;
        case 'bool': cur.push(v ? 1 : 0); return;
        case 'nat': { const n = BigInt(v); if (n < 0n) throw new Error('neg nat'); uleb(n, cur); return; }
        case 'int': sleb(v, cur); return;
        case 'nat8': case 'int8': cur.push(Number(v) & 255); return;
        case 'nat16': case 'int16': { const b = Buffer.alloc(2); b.writeUInt16LE(Number(v) & 0xffff); cur.push(...b); return; }
        case 'nat32': case 'int32': { const b = Buffer.alloc(4); b.writeUInt32LE(Number(v) >>> 0); cur.push(...b); return; }
        case 'nat64': case 'int64': { const b = Buffer.alloc(8); b.writeBigUInt64LE(BigInt.asUintN(64, BigInt(v))); cur.push(...b); return; }
        case 'f64': { const b = Buffer.alloc(8); b.writeDoubleLE(v); cur.push(...b); return; }
        case 'text': { const b = Buffer.from(v, 'utf8'); uleb(b.length, cur); flush(); parts.push(b); return; }
        case 'principal': { const b = typeof v === 'string' ? pBytes(v) : v; cur.push(1); uleb(b.length, cur); cur.push(...b); return; }
        default: throw new Error('enc ' + t.name);
      }
      case 'opt': if (v === null || v === undefined) cur.push(0); else { cur.push(1); w(t.t, v); } return;
      case 'vec': {
        if (resolve(t.t) === T.nat8) { const b = Buffer.isBuffer(v) ? v : typeof v === 'string' ? Buffer.from(v, 'hex') : Buffer.from(v); uleb(b.length, cur); flush(); parts.push(b); return; }
        uleb(v.length, cur); for (const x of v) w(t.t, x); return;
      }
      case 'record': if (t.tuple) { t.fs.forEach((f, i) => w(f.t, v[i])); } else for (const f of t.fs) w(f.t, v[f.n]); return;
      case 'variant': {
        const tag = typeof v === 'string' ? v : Object.keys(v)[0];
        const i = t.fs.findIndex(f => f.n === tag); if (i < 0) throw new Error('no variant ' + tag);
        uleb(i, cur); w(t.fs[i].t, typeof v === 'string' ? null : v[tag]); return;
      }
    }
  };
  types.forEach((t, i) => w(t, vals[i]));
  flush(); return Buffer.concat(parts);
}

function decode(buf) {
  buf = Buffer.from(buf.buffer, buf.byteOffset, buf.length);
  let p = 0;
  const ul = () => { let r = 0, s = 0, b, big = null; do { if (p >= buf.length) throw new Error('candid: eof'); b = buf[p++]; if (s >= 28 && big === null) big = BigInt(r); if (big !== null) big |= BigInt(b & 127) << BigInt(s); else r |= (b & 127) << s; s += 7; } while (b & 128); return big !== null ? big : r; };
  const uln = () => Number(ul());
  const sl = () => { let r = 0n, s = 0n, b; do { if (p >= buf.length) throw new Error('candid: eof'); b = buf[p++]; r |= BigInt(b & 127) << s; s += 7n; } while (b & 128); if (b & 64) r -= 1n << s; return r; };
  if (buf.slice(0, 4).toString() !== 'DIDL') throw new Error('candid: magic');
  p = 4;
  const tbl = []; const nt = uln();
  for (let i = 0; i < nt; i++) {
    const op = Number(sl());
    if (op === -18 || op === -19) tbl.push({ op, t: Number(sl()) });
    else if (op === -20 || op === -21) { const n = uln(), fs = []; for (let j = 0; j < n; j++) { const h = uln(); fs.push({ h, n: label(h), t: Number(sl()) }); } tbl.push({ op, fs, tuple: op === -20 && n > 0 && fs.every((f, j) => f.h === j) }); }
    else if (op === -22) { const a = uln(); for (let j = 0; j < a; j++) sl(); const b = uln(); for (let j = 0; j < b; j++) sl(); const c = uln(); p += c; tbl.push({ op }); }
    else throw new Error('candid: type ' + op);
  }
  const na = uln(), at = []; for (let i = 0; i < na; i++) at.push(Number(sl()));
  const r = t => {
    if (t < 0) switch (t) {
      case -1: case -16: return null;
      case -2: return buf[p++] === 1;
      case -3: return BigInt(ul());
      case -4: return sl();
      case -5: case -9: return buf[p++];
      case -6: p += 2; return buf.readUInt16LE(p - 2);
      case -7: p += 4; return buf.readUInt32LE(p - 4);
      case -11: p += 4; return buf.readInt32LE(p - 4);
      case -8: p += 8; return buf.readBigUInt64LE(p - 8);
      case -12: p += 8; return buf.readBigInt64LE(p - 8);
      case -14: p += 8; return buf.readDoubleLE(p - 8);
      case -15: { const n = uln(); p += n; return buf.toString('utf8', p - n, p); }
      case -24: { if (buf[p++] !== 1) throw new Error('opaque principal'); const n = uln(); p += n; return pText(buf.slice(p - n, p)); }
      default: throw new Error('candid: prim ' + t);
    }
    const d = tbl[t];
    switch (d.op) {
      case -18: return buf[p++] ? r(d.t) : null;
      case -19: { const n = uln(); if (d.t === -5) { p += n; return Buffer.from(buf.slice(p - n, p)); } const a = []; for (let i = 0; i < n; i++) a.push(r(d.t)); return a; }
      case -20: { if (d.tuple) return d.fs.map(f => r(f.t)); const o = {}; for (const f of d.fs) o[f.n] = r(f.t); return o; }
      case -21: { const i = uln(), f = d.fs[i]; const v = r(f.t); return { [f.n]: v }; }
      case -22: { if (buf[p++] !== 1 || buf[p++] !== 1) throw new Error('opaque func'); const n = uln(); p += n; const c = pText(buf.slice(p - n, p)); const m = uln(); p += m; return { canister: c, method: buf.toString('utf8', p - m, p) }; }
    }
    throw new Error('candid: dec');
  };
  const res = at.map(r);
  return res;
}
const sha256 = b => crypto.createHash('sha256').update(b).digest();
module.exports = { T, encode, decode, hash, know, label, pText, pBytes, sha256, crc32 };
