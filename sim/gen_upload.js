'use strict';
// Seeded generator for the upload workload: overlapping upload and management calls, storage canister faults, stalls, upgrades, days passing.
const { Rng } = require('./prng'); const { principal, acct, akey } = require('./util'); const { sha256 } = require('./candid');
const { PERMS } = require('./world'); const { trimL, plain } = require('./upload');
const MS = 1000000;
const hex = (r, n) => r.bytes(n).toString('hex');
function config(prop, seed, tier) {
  const r = new Rng('ucfg', prop, seed);
  const rates = r.chance(0.2) ? { reject: 0, trap: 0, perform: 0, grow: 0 } : { reject: r.pick([0, 0.02, 0.08, 0.25]), trap: r.pick([0, 0.01, 0.04, 0.1]), perform: r.pick([0, 0, 0.01, 0.04]), grow: r.pick([0, 0, 0.02]) };
  const W = { init: 8, store: 18, fin: 9, cancel: 4, wild: 3, sync: 10, step: 46, settle: 12, adv: 9, stop: r.pick([0, 0, 2]), cyc: r.pick([0, 0, 0.6]), upg: r.pick([0.5, 2]), http: 3 };
  if (prop === 'N15') { W.sync = 22; W.step = 60; W.settle = 6; W.http = 0.5; } if (prop === 'N14') { W.upg = 7; } if (prop === 'N18') { W.adv = 16; W.fin = 5; } if (prop === 'N17') { W.init = 16; W.stop = r.pick([0, 3, 6]); rates.reject = r.pick([0, 0.08, 0.25, 0.5]); } if (prop === 'N22') { W.fin = 16; W.upg = 4; W.http = 5; }
  if (prop === 'N26') { W.bal = 5; W.fund = 2; W.upg = 3; W.cyc = r.pick([0, 0.6]); W.init = 12; W.adv = 14; W.http = 0.3; }
  for (const k of Object.keys(W)) W[k] *= 0.5 + r.f();
  return { kind: 'upload', prop, seed, users: 3, subs: [null], rates, W, snapshot: prop === 'N14' || r.chance(0.15), chunk: r.pick([1, 3, 8, 64]), init: { tx_window: r.pick([null, String(200 * MS)]) }, steps: tier === 'thorough' ? r.range(150, 420) : r.range(90, 200), odd: r.chance(0.25) };
}
const NAMES = ['a', '/a', 'b', 'c', 'd/e', '/d/e', 'd', 'f.png', 'index.html', '/g', 'h', 'i', 'j/k/l'];
const ODD = ['', '/', 'metrics', '/logs', 'a b', 'a?x=1', 'a#b', '%zz', 'a%20b', '../a', 'a//b', '//a', 'é', 'a/', 'http://x/y', '\u0000', 'b/../a'];
const BAL = ['0', '250000000000', '700000000000', '999999999999', '1000000000000', '1000000030000', '1000000030001', '1500000000000', '5000000000000'];
class Gen {
  constructor(w, cfg) { this.w = w; this.cfg = cfg; this.r = new Rng('ugen', cfg.prop, cfg.seed); this.plans = new Map(); this.names = this.r.shuffle(NAMES.slice()).slice(0, this.r.range(2, 7)); this.q = [{ t: 'u', w: '@admin', m: 'mint', a: [{ mint_requests: [0, 1, 2].map(() => ({ metadata: [['k', { Text: 'v' }]], memo: null, token_owner: { owner: '@u' + this.r.int(3), subaccount: null } })) }] }]; }
  who() { return this.r.chance(0.94) ? '@admin' : this.r.pick(['@u0', '@u1', '@anon']); }
  path() { return this.cfg.odd && this.r.chance(0.3) ? this.r.pick(ODD) : this.r.pick(this.names); }
  known(p) { const l = [...this.w.files.keys()].filter(x => this.w.files.get(x).state !== 'Finalized' || this.r.chance(0.1)); return l.length && this.r.chance(p) ? this.r.pick(l) : this.path(); }
  next() {
    const r = this.r, W = this.cfg.W; if (this.q.length) return this.q.shift();
    if (this.burst > 0) { this.burst--; const a = r.chance(0.9) && this.g_step(); if (a) return a; this.burst = 0; }
    for (let i = 0; i < 30; i++) { const k = r.weighted(Object.entries(W).map(([k, v]) => [v, k])), a = this['g_' + k](); if (a) return a; }
    return { t: 'a', dt: String(MS) };
  }
  ul(m, q) { if (m === 'init_upload' && this.r.chance(/N16|N17|N26/.test(this.cfg.prop) ? 0.55 : 0.25)) this.burst = this.r.range(6, 30); return { t: 'ul', w: this.who(), m, a: [q] }; }
  g_init() {
    const r = this.r, p = this.path(), n = r.chance(0.06) ? 0 : r.range(1, r.pick([3, 20, 200])), data = r.bytes(n), cs = r.weighted([[10, this.cfg.chunk], [2, null], [1, 0], [1, 5000000], [2, n || 1], [1, r.range(1, 10)]]);
    const csn = cs === null ? 1000000 : cs, hash = r.chance(0.9) ? sha256(data).toString('hex') : r.pick(['', '00', hex(r, 32), sha256(data).toString('hex').toUpperCase()]);
    const size = r.chance(0.93) ? n : r.pick([n + 1, Math.max(0, n - 1), '4294967296', '3221225472']);
    if (!this.w.taken(p)) this.plans.set(p, { data, cs: csn || 1 });
    if (n / (csn || 1) > 30) return null;
    return this.ul('init_upload', { file_hash: hash, file_path: p, file_size: String(size), chunk_size: cs === null ? null : String(cs) });
  }
  g_store() {
    const r = this.r, p = this.known(0.93), pl = this.plans.get(p) || { data: r.bytes(5), cs: 3 }, n = Math.max(1, Math.ceil(pl.data.length / pl.cs)), f = this.w.files.get(p), mf = f && this.w.mir(f.can, p);
    let i = r.int(n); if (mf && r.chance(0.85)) { const miss = []; for (let k = 0; k < n; k++) if (!mf.chunks.has(k)) miss.push(k); if (miss.length) i = r.pick(miss); else if (r.chance(0.8)) return this.g_fin(p); }
    let d = pl.data.subarray(i * pl.cs, (i + 1) * pl.cs); if (r.chance(0.06)) d = r.bytes(r.int(pl.cs + 3)); if (r.chance(0.04)) i = n + r.int(3); if (r.chance(0.04)) { d = Buffer.from(d); if (d.length) d[0] ^= 1; }
    return this.ul('store_chunk', { chunk_id: i, file_path: p, chunk_data: d.toString('hex') });
  }
  g_fin(p) { return this.ul('finalize_upload', { file_path: p || this.known(0.9) }); }
  g_cancel() { return this.ul('cancel_upload', { file_path: this.known(0.85) }); }
  g_wild() { const r = this.r, m = r.pick(['store_chunk', 'finalize_upload', 'cancel_upload']); const p = r.chance(0.5) ? this.path() : r.pick([...this.w.files.keys(), 'zz']); return this.ul(m, m === 'store_chunk' ? { chunk_id: r.int(4), file_path: p, chunk_data: hex(r, r.int(5)) } : { file_path: p }); }
  u(w, m, a) { const o = { t: 'u', w, m, a }; if (this.cfg.rates.trap && this.r.chance(this.cfg.rates.trap)) o.f = { trap: this.r.range(1, 40) }; return o; }
  g_sync() {
    const r = this.r, w = this.who(), toks = [...this.w.tokens.keys()];
    switch (r.int(9)) {
      case 0: return this.u(w, 'mint', [{ mint_requests: [{ metadata: [['n', { Nat: String(r.int(9)) }]], memo: null, token_owner: { owner: '@u' + r.int(3), subaccount: null } }] }]);
      case 1: case 2: { const id = toks.length && r.chance(0.8) ? r.pick(toks) : '77', t = this.w.tokens.get(id); return this.u(t && r.chance(0.6) ? this.sym(t.owner) : w, 'burn_nft', [id]); }
      case 3: return this.u(w, 'update_nft_metadata', [{ token_id: toks.length ? r.pick(toks) : '1', metadata: [['m', { Text: hex(r, 3) }]] }]);
      case 4: return this.u(w, 'update_collection_metadata', [{ name: 'n' + r.int(1000), description: r.chance(0.5) ? 'd' + r.int(99) : null, symbol: null, logo: null, supply_cap: null, tx_window: null, default_take_value: null, max_canister_storage_threshold: null, permitted_drift: null, max_take_value: null, max_update_batch_size: null, max_query_batch_size: null, max_memo_size: null, atomic_batch_transfers: null, collection_metadata: null }]);
      case 5: return this.u(w, 'grant_permission', [{ permission: r.pick(PERMS), principal: '@u' + r.int(3) }]);
      case 6: { const p = r.pick(['@u0', '@u1', '@u2']); return this.u(w, 'revoke_permission', [{ permission: r.pick(PERMS), principal: p }]); }
      case 7: { const id = toks.length ? r.pick(toks) : null, t = id && this.w.tokens.get(id); if (!t) return null; return this.u(this.sym(t.owner), 'icrc7_transfer', [[{ to: { owner: '@u' + r.int(3), subaccount: null }, token_id: id, memo: null, from_subaccount: null, created_at_time: null }]]); }
      default: return this.u('@u' + r.int(3), 'burn_nft', ['5000']);
    }
  }
  sym(k) { const o = k.split('/')[0]; for (const s of ['@u0', '@u1', '@u2', '@admin']) if (principal(s) === o) return s; return '@u0'; }
  g_step() {
    const w = this.w, r = this.r, ev = w.events(); if (!ev.length) return null;
    const R = this.cfg.rates, f = {}; if (r.chance(R.reject)) f.reject = r.pick([2, 5, 2, 4]); else if (r.chance(R.trap)) f.trap = r.weighted([[2, r.range(1, 12)], [2, r.range(1, 60)], [1, r.range(1, 400)]]); if (r.chance(R.perform)) f.perform = 1; if (r.chance(R.grow)) f.grow = 1;
    const a = { t: 's', k: r.chance(0.5) ? 0 : r.int(ev.length) };
    if (this.cfg.prop === 'N26' && R.reject && ev[a.k].method === 'install_code' && r.chance(0.4)) { f.reject = 5; delete f.trap; delete f.perform; if (r.chance(0.6)) { this.q.push({ t: 'q' }); if (r.chance(0.5)) this.q.push({ t: 'g' }); this.q.push(this.g_fund()); } } // a canister that stays empty is to be kept alive too
    if (Object.keys(f).length) a.f = f; return a;
  }
  g_settle() { return this.w.events().length ? { t: 'q' } : null; }
  g_adv() { const r = this.r, p = this.cfg.prop === 'N18' ? 3 : 1; return { t: 'a', dt: String(r.weighted([[4, r.range(1, 500) * MS], [2, r.range(1, 300) * 1000 * MS], [p, 3600000 * MS * r.range(1, 14)], [p, 86400000 * MS + r.pick([-1, 0, 1, 5]) * 1000 * MS]])) }; }
  g_stop() { return { t: 'st', can: this.r.int(6), status: this.r.chance(0.55) ? 'stopped' : 'running' }; }
  g_cyc() { return { t: 'cy', v: this.r.pick(['100000000000', '3000000000000', '6000000000000', '20000000000000000', '20000000000000000']) }; }
  g_bal() { return { t: 'cs', can: this.r.int(6), v: this.r.pick(BAL) }; }
  g_fund() { return { t: 'fc', v: this.r.pick(['999999999999', '1000000030000', '1000000030001', '300000000000', '600000000000', '4000000000000']) }; }
  g_http() { return { t: 'hc' }; }
  g_upg() { const r = this.r, f = r.chance(0.55) ? undefined : r.weighted([[3, { pre: r.range(1, r.pick([5, 20, 60])) }], [3, { post: r.range(1, r.pick([5, 30, 120])) }], [1, { arg: 'init' }], [1, { grow: 1 }]]); const a = { t: 'g' }; if (f) a.f = f; return a; }
}
module.exports = { config, Gen };
