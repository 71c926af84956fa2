'use strict';
const { pText, pBytes } = require('./candid');
const Z = '00'.repeat(32);
const fix = v => { // plain JSON-able form of a decoded Candid value: BigInt -> string, blob -> hex
  if (typeof v === 'bigint') return v.toString();
  if (v === null || v === undefined || typeof v !== 'object') return v === undefined ? null : v;
  if (Buffer.isBuffer(v) || v instanceof Uint8Array) return Buffer.from(v).toString('hex');
  if (Array.isArray(v)) return v.map(fix);
  const o = {}; for (const k of Object.keys(v)) o[k] = fix(v[k]); return o;
};
const J = v => JSON.stringify(fix(v));
const sortKeys = v => Array.isArray(v) ? v.map(sortKeys) : v && typeof v === 'object' && !Buffer.isBuffer(v) ? Object.fromEntries(Object.keys(v).sort().map(k => [k, sortKeys(v[k])])) : v;
const canon = v => JSON.stringify(sortKeys(fix(v)));
const sub = s => s === null || s === undefined ? Z : (typeof s === 'string' ? s : Buffer.from(s).toString('hex'));
const akey = a => a === null || a === undefined ? null : a.owner + '/' + sub(a.subaccount);
const keyOwner = k => k.split('/')[0];
const acct = k => { const [owner, s] = k.split('/'); return { owner, subaccount: s === Z ? null : s }; };
const memoHex = m => m === null || m === undefined ? null : (typeof m === 'string' ? m : Buffer.from(m).toString('hex'));
// ICRC-3 value as given by a client (JSON: {Nat:'5'}, {Int:..}, {Blob:hex}, {Text}, {Array}, {Map}) in canonical form
function cval(v) {
  const t = Object.keys(v)[0], x = v[t];
  switch (t) {
    case 'Nat': case 'Int': return { [t]: BigInt(x).toString() };
    case 'Blob': return { Blob: memoHex(x) };
    case 'Text': return { Text: x };
    case 'Array': return { Array: x.map(cval) };
    case 'Map': { const m = new Map(); for (const [k, y] of x) m.set(k, cval(y)); return { Map: [...m].sort((a, b) => Buffer.compare(Buffer.from(a[0]), Buffer.from(b[0]))) }; }
  }
  throw new Error('bad value ' + t);
}
const cmeta = list => { const m = new Map(); for (const [k, v] of list) m.set(k, cval(v)); return [...m].sort((a, b) => Buffer.compare(Buffer.from(a[0]), Buffer.from(b[0]))); };
const users = new Map();
function principal(sym) { // '@u3' -> principal text
  if (sym === '@anon') return '2vxsx-fae';
  if (!users.has(sym)) { const b = Buffer.alloc(12, 7); Buffer.from(sym.slice(1, 10)).copy(b, 1); b[11] = 2; users.set(sym, pText(b)); }
  return users.get(sym);
}
module.exports = { Z, fix, J, canon, sub, akey, keyOwner, acct, memoHex, cval, cmeta, principal, sortKeys };
