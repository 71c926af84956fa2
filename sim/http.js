'use strict';
// Checks an HTTP answer's v2 certificate header against the certified data, as a gateway would (the subnet signature is a stub).
const crypto = require('crypto');
const sha = b => crypto.createHash('sha256').update(b).digest();
function cbor(buf) {
  let p = 0;
  const arg = a => { if (a < 24) return a; const n = 1 << (a - 24); let v = 0; for (let i = 0; i < n; i++) v = v * 256 + buf[p++]; return v; };
  const item = () => {
    const b = buf[p++], maj = b >> 5, a = b & 31;
    switch (maj) {
      case 0: return arg(a);
      case 2: { const n = arg(a), s = buf.subarray(p, p + n); p += n; return s; }
      case 3: { const n = arg(a), s = buf.subarray(p, p + n).toString(); p += n; return s; }
      case 4: { const n = arg(a), l = []; for (let i = 0; i < n; i++) l.push(item()); return l; }
      case 6: arg(a); return item();
      default: throw new Error('unexpected CBOR major type ' + maj);
    }
  };
  const v = item(); if (p !== buf.length) throw new Error('trailing CBOR bytes'); return v;
}
const sep = s => Buffer.concat([Buffer.from([s.length]), Buffer.from(s)]);
function root(t) {
  switch (t[0]) {
    case 0: return sha(sep('ic-hashtree-empty'));
    case 1: return sha(Buffer.concat([sep('ic-hashtree-fork'), root(t[1]), root(t[2])]));
    case 2: return sha(Buffer.concat([sep('ic-hashtree-labeled'), t[1], root(t[2])]));
    case 3: return sha(Buffer.concat([sep('ic-hashtree-leaf'), t[1]]));
    case 4: return t[1];
  }
  throw new Error('bad hash tree node');
}
function sub(t, label) { // the subtrees under a label
  if (t[0] === 1) return sub(t[1], label).concat(sub(t[2], label));
  return t[0] === 2 && Buffer.compare(t[1], label) === 0 ? [t[2]] : [];
}
function kids(t) { if (t[0] === 1) return kids(t[1]).concat(kids(t[2])); return t[0] === 2 ? [[t[1], t[2]]] : []; }
const leb = n => { const o = []; do { let b = n & 127; n = Math.floor(n / 128); if (n) b |= 128; o.push(b); } while (n); return Buffer.from(o); };
function responseHash(status, headers, body) {
  const l = headers.map(([k, v]) => Buffer.concat([sha(Buffer.from(k)), sha(Buffer.from(v))]));
  l.push(Buffer.concat([sha(Buffer.from(':ic-cert-status')), sha(leb(status))]));
  l.sort(Buffer.compare);
  return sha(Buffer.concat([sha(Buffer.concat(l)), sha(body)]));
}
// returns null if the answer is properly certified, else what is wrong
function verify(resp, path, certified) {
  const H = resp.headers.map(([k, v]) => [k.toLowerCase(), v]), get = k => { const h = H.find(x => x[0] === k); return h && h[1]; };
  const c = get('ic-certificate'), expr = get('ic-certificateexpression');
  if (!c) return 'no IC-Certificate header'; if (!expr) return 'no IC-CertificateExpression header';
  const f = {}; for (const m of c.matchAll(/(\w+)=(?::([^:]*):|([^,\s]+))/g)) f[m[1]] = m[2] !== undefined ? Buffer.from(m[2], 'base64') : m[3];
  if (f.version !== '2' || !f.tree || !f.expr_path || !f.certificate) return 'not a v2 certificate header';
  let tree, ep; try { tree = cbor(f.tree); ep = cbor(f.expr_path); } catch (e) { return 'malformed: ' + e.message; }
  const r = root(tree); if (Buffer.compare(r, certified) !== 0) return `the witness root ${r.toString('hex')} is not the certified data ${certified.toString('hex')}`;
  if (ep[0] !== 'http_expr') return 'expr_path does not start with http_expr';
  const last = ep[ep.length - 1], segs = ep.slice(1, -1), want = path.split('/').slice(1);
  if (last === '<$>' ? segs.join('/') !== want.join('/') : last === '<*>' ? want.slice(0, segs.length).join('/') !== segs.join('/') && segs.length : true) return `expr_path ${JSON.stringify(ep)} does not belong to ${path}`;
  let ts = [tree]; for (const s of ep) ts = ts.flatMap(t => sub(t, Buffer.from(s)));
  if (!ts.length) return `the witness does not contain expr_path ${JSON.stringify(ep)}`;
  ts = ts.flatMap(t => sub(t, sha(Buffer.from(expr)))); if (!ts.length) return 'the witness does not contain the certificate expression';
  if (/no_certification/.test(expr)) return null;
  const excl = /response_header_exclusions:ResponseHeaderList\{headers:\[([^\]]*)\]\}/.exec(expr), incl = /certified_response_headers:ResponseHeaderList\{headers:\[([^\]]*)\]\}/.exec(expr);
  const names = s => s.split(',').map(x => x.trim().replace(/"/g, '').toLowerCase()).filter(Boolean);
  let hs = H.filter(h => h[0] !== 'ic-certificate'); if (excl) { const n = names(excl[1]); hs = hs.filter(h => !n.includes(h[0])); } else if (incl) { const n = names(incl[1]); hs = hs.filter(h => n.includes(h[0]) || h[0] === 'ic-certificateexpression'); }
  const want2 = responseHash(Number(resp.status_code), hs, Buffer.from(resp.body));
  for (const t of ts) for (const [, u] of kids(t)) for (const [l] of kids(u)) if (Buffer.compare(l, want2) === 0) return null;
  return 'the witness does not contain the hash of this response';
}
module.exports = { verify, cbor, root };
