'use strict';
// Seeded generator of histories for the token ledger: chooses the next action from the current model state.
const { Rng } = require('./prng');
const { acct, akey, keyOwner, principal, Z } = require('./util');
const { PERMS, SETTINGS } = require('./world');
const MS = 1000000, hex = (r, n) => r.bytes(n).toString('hex');

// operation weights; a profile multiplies them
const BASE = { mint: 5, xfer: 22, xfrom: 18, appr: 14, coll: 8, revt: 7, revc: 4, burn: 5, upd: 6, set: 1.5, perm: 2, priv: 2, retry: 8, mutate: 4, adv: 24, upg: 1.2, sweep: 5, page: 3 };
const PROFILE = {
  N01: { burn: 10, xfrom: 24, sweep: 9 }, N02: { xfrom: 34, xfer: 26, appr: 18, coll: 10, retry: 10 }, N03: { xfer: 34, xfrom: 26, set: 3 },
  N04: { appr: 26, coll: 16, revt: 12, revc: 9, xfrom: 34 }, N05: { appr: 30, coll: 18, revt: 10, revc: 8, sweep: 14 }, N06: { retry: 12, mutate: 8, upd: 9, sweep: 4 },
  N07: { sweep: 9, adv: 34, upg: 2 }, N09: { retry: 34, mutate: 12 }, N10: { mutate: 10, retry: 6, set: 3 }, N11: { mint: 26, burn: 10, set: 4 }, N12: { burn: 18, mint: 12, retry: 10, mutate: 8, sweep: 8 },
  N13: { perm: 26, priv: 30, mint: 8, upd: 8, set: 5, upg: 3 }, N14: { upg: 16, sweep: 1 }, N21: { xfer: 40, xfrom: 24, appr: 16, coll: 12, adv: 22, retry: 4 }, N23: { upd: 30, mint: 12, upg: 3, sweep: 8 },
  N24: { set: 24, mint: 10, sweep: 8, upg: 3 }, N25: { page: 40, mint: 14, burn: 12, xfer: 26 },
};

// beyond what a machine word holds: such a limit limits nothing
const HUGE = ['4294967295', '4294967296', '18446744073709551615', '18446744073709551616', '340282366920938463463374607431768211456'];
const LIMITS = ['permitted_drift', 'supply_cap', 'max_update_batch_size', 'max_query_batch_size', 'default_take_value', 'max_take_value', 'max_memo_size'];

function config(prop, seed, tier) {
  const r = new Rng('cfg', prop, seed), W = Object.assign({}, BASE, PROFILE[prop] || {});
  for (const k of Object.keys(W)) { if (r.chance(0.12)) W[k] = 0; else W[k] *= 0.4 + 1.4 * r.f(); } // swarm: every run has its own mix
  for (const [k, min] of Object.entries(PROFILE[prop] || {})) if (W[k] < min * 0.3) W[k] = min * 0.5;
  if (W.mint < 2) W.mint = 2; if (W.adv < 8) W.adv = 8;
  const opt = (p, f) => r.chance(p) ? f() : null;
  const N24 = prop === 'N24' || prop === 'N03' || prop === 'N11';
  // a window above the default makes the block log admit only a handful of transactions per window
  const win = r.weighted([[3, null], [2, 200 * MS], [2, 1000 * MS], [2, 5000 * MS], [1, 30000 * MS], [prop === 'N09' ? 5 : 0.5, 10000 * MS]]);
  const init = {
    test_mode: r.chance(0.9), tx_window: prop === 'N09' && win === null ? String(2000 * MS) : win === null ? null : String(win), permitted_drift: opt(prop === 'N10' ? 0.6 : 0.25, () => String(r.pick([0, 1, 20 * MS, 50 * MS, 2000 * MS, 60000 * MS]))),
    supply_cap: opt(prop === 'N11' ? 0.7 : 0.2, () => String(r.range(2, 14))), max_update_batch_size: opt(N24 ? 0.6 : 0.15, () => String(r.range(1, 5))), max_query_batch_size: opt(N24 ? 0.5 : 0.15, () => String(r.range(1, 8))),
    default_take_value: opt(prop === 'N25' || N24 ? 0.5 : 0.15, () => String(r.range(1, 6))), max_take_value: opt(prop === 'N25' || N24 ? 0.5 : 0.15, () => String(r.range(1, 9))), max_memo_size: opt(N24 ? 0.5 : 0.2, () => String(r.range(0, 8))),
    atomic_batch_transfers: opt(N24 ? 0.6 : 0.2, () => r.chance(0.6)), logo: opt(0.3, () => 'https://logo/' + r.int(9)), description: opt(0.4, () => 'd' + r.int(99)), name: 'name' + r.int(99), symbol: 'S' + r.int(99),
    approval_init: { max_approvals_per_token_or_collection: opt(prop === 'N05' || prop === 'N24' ? 0.7 : 0.2, () => String(r.range(1, 4))), max_revoke_approvals: opt(prop === 'N24' ? 0.6 : 0.2, () => String(r.range(1, 4))) },
    permissions: { user_permissions: [] },
  };
  if (r.chance(['N03', 'N10', 'N11', 'N24', 'N25'].includes(prop) ? 0.15 : 0.03)) init[r.pick(LIMITS)] = r.pick(HUGE);
  if (r.chance(prop === 'N24' || prop === 'N05' ? 0.06 : 0.01)) init.approval_init[r.pick(['max_approvals_per_token_or_collection', 'max_revoke_approvals'])] = r.pick(HUGE);
  const crowd = ['N04', 'N05', 'N24'].includes(prop) && r.chance(0.12); // many spenders of few tokens, up to the limit that applies without a setting, or beyond a huge one
  if (crowd) {
    init.approval_init.max_approvals_per_token_or_collection = r.pick([null, ...HUGE]); init.approval_init.max_revoke_approvals = r.pick([null, ...HUGE]); init.tx_window = r.pick([null, String(200 * MS)]);
    W.appr = 60; W.coll = 40; W.xfer = W.xfrom = W.burn = 1.5; W.revt = W.revc = 2.5; W.set = 0.3; W.adv = 40; W.mint = 2; W.sweep = 4;
  }
  const seen = new Set();
  for (let i = r.int(prop === 'N13' ? 5 : 3); i > 0; i--) { const u = '@u' + r.int(4); if (!seen.has(u)) { seen.add(u); init.permissions.user_permissions.push([u, r.shuffle(PERMS.slice()).slice(0, r.range(1, 5))]); } }
  if (!init.test_mode) init.permissions.user_permissions.push(['@admin', PERMS.filter(() => r.chance(0.9)).concat(['Minting'])]);
  init.permissions.user_permissions = init.permissions.user_permissions.map(([u, l]) => [u, [...new Set(l)]]);
  const cfg = { kind: 'token', prop, seed, init, users: r.range(2, 5), subs: r.chance(0.6) ? [null, '11'.repeat(32)] : [null, '11'.repeat(32), '00'.repeat(31) + '01'], W, faults: r.chance(0.25) ? 0 : r.pick([0.02, 0.06, 0.15]), steps: (tier === 'thorough' ? 2 : 1) * r.range(60, 260), snapshot: prop === 'N14', ints: r.chance(0.15), big: r.chance(0.08), seedTokens: r.range(1, 12), timeScale: r.pick([0.3, 1, 1, 1, 3]) };
  if (crowd) Object.assign(cfg, { crowd: true, users: 5, subs: [null, '11'.repeat(32), '00'.repeat(31) + '01'], seedTokens: 1, steps: (tier === 'thorough' ? 2 : 1) * 260, faults: 0.02 });
  return cfg;
}

class Gen {
  constructor(w, cfg) { this.w = w; this.cfg = cfg; this.r = new Rng('gen', cfg.prop, cfg.seed); this.ops = Object.entries(cfg.W).map(([k, v]) => [v, k]); this.pg = 0; this.minted = 0; this.warm = 0; }
  // symbolic form of a principal text
  symP(p) { if (!this.syms) { this.syms = new Map([[principal('@admin'), '@admin'], [principal('@anon'), '@anon']]); for (let i = 0; i < 8; i++) this.syms.set(principal('@u' + i), '@u' + i); } return this.syms.get(p) || p; }
  symA(k) { const a = acct(k); return { owner: this.symP(a.owner), subaccount: a.subaccount === null ? (this.r.chance(0.1) ? Z : null) : a.subaccount }; }
  user() { return '@u' + this.r.int(this.cfg.users); }
  // now and then a canister: the collection itself, the management canister (its principal is empty)
  account() { const r = this.r; return { owner: r.chance(0.015) ? r.pick(['aaaaa-aa', this.w.core.id]) : this.user(), subaccount: r.pick(this.cfg.subs) }; }
  token() { // mostly existing tokens, now and then a burned or future one
    const r = this.r, w = this.w, l = [...w.tokens.keys()];
    if (!l.length || r.chance(0.04)) { const b = [...w.burned]; return r.chance(0.1) ? r.pick(HUGE) : b.length && r.chance(0.7) ? r.pick(b) : String(w.nextId + BigInt(r.int(3))); }
    if (r.chance(0.5) && this.hot && w.tokens.has(this.hot)) return this.hot;
    return this.hot = r.pick(l);
  }
  memo() { const r = this.r, m = this.w.eff('max_memo_size'); if (r.chance(0.6)) return null; if (m < 50n && r.chance(0.4)) return hex(r, Number(m) + r.pick([-1, 0, 1, 2]) < 0 ? 0 : Math.max(0, Number(m) + r.pick([0, 1]))); return hex(r, r.int(6)); }
  cat(p = 0.5, edge = 0.12) { // created_at_time: absent, about now, or at the edges of the admitted window
    const r = this.r, w = this.w; if (!r.chance(p)) return null;
    if (this.cfg.prop === 'N10') edge = 0.6;
    if (!r.chance(edge)) return { now: r.pick([0, 0, 0, -1, -1000, -r.int(40 * MS), -r.int(Math.min(2000 * MS, Number(w.eff('tx_window'))) + 1), r.int(Number(w.eff('permitted_drift') < 50000000n ? w.eff('permitted_drift') : 50000000n) + 1)]) };
    const d = Math.min(1e13, Number(w.eff('permitted_drift'))), win = Math.min(1e13, Number(w.eff('tx_window'))), e = r.pick([-2, -1, 0, 1, 2, r.int(1e9), -r.int(1e9)]);
    return r.pick([{ now: d + e }, { now: -(d + win) + e }, { now: -win + e }, { now: e }, { now: 1e12 }, '0', '1', { now: -1e13 }, '18446744073709551615']);
  }
  exp() { const r = this.r; return r.weighted([[5, null], [2, { now: r.int(60 * MS) }], [2, { now: r.int(2000 * MS) }], [2, { now: 60000 * MS * r.range(1, 600) }], [0.6, { now: 0 }], [0.6, { now: 1 }], [0.4, { now: -1 }], [0.3, '18446744073709551615']]); }
  _val(d) {
    const r = this.r;
    switch (r.weighted([[4, 't'], [3, 'n'], [this.cfg.ints ? 2 : 0, 'i'], [2, 'b'], [d < 3 ? 2 : 0, 'a'], [d < 3 ? 2 : 0, 'm']])) {
      case 't': return { Text: r.pick(['', 'a', 'ü\n"', 'long'.repeat(9), 'x' + r.int(99)]) };
      case 'n': return { Nat: String(r.pick([0, 1, 23, 24, 255, 256, 65536, 4294967296, '18446744073709551615'])) };
      case 'i': return { Int: String(r.pick([0, -1, 5, -25, '-9223372036854775808', '9223372036854775807', -4294967297])) };
      case 'b': return { Blob: hex(r, r.pick([0, 1, 5, 33])) };
      case 'a': return { Array: Array.from({ length: r.int(4) }, () => this._val(d + 1)) };
      default: { const ks = r.shuffle(['', 'a', 'b', 'k' + r.int(9), 'icrc7:name']).slice(0, r.int(4)); return { Map: ks.map(k => [k, this._val(d + 1)]) }; }
    }
  }
  meta() { const r = this.r, ks = r.shuffle(['name', 'icrc7:metadata', 'k' + r.int(5), 'uri', '']).slice(0, r.int(4)); const m = ks.map(k => [k, this._val(0)]); if (m.length && r.chance(0.06)) m.push([m[0][0], this._val(1)]); return m; }
  fault(m) { const r = this.r; if (!r.chance(this.cfg.faults)) return undefined; return r.chance(0.85) ? { trap: r.range(1, r.pick([6, 15, 40, 120])) } : { grow: 1 }; }
  u(w, m, a) { const act = { t: 'u', w, m, a }; const f = this.fault(m); if (f) act.f = f; return act; }
  ownerOf(id) { const t = this.w.tokens.get(id); return t ? t.owner : null; }
  next() {
    const r = this.r, w = this.w;
    if (this.warm < 2) { this.warm++; return this.mint(this.warm === 1 ? Math.min(4, this.cfg.seedTokens) : 1, true); }
    if (this.pend && this.pend.length) return this.pend.shift();
    return this[r.weighted(this.ops)]() || this.adv();
  }
  burst(n, f) { const out = []; for (let i = 0; i < n; i++) { const x = f(); if (x) out.push(x); } return out; }
  mint(n, sure) {
    const r = this.r, w = this.w; n = n || r.weighted([[5, 1], [3, 2], [2, 3], [1, 4], [0.7, 5], [0.5, 6], [0.3, 0], [0.3, r.range(7, 12)]]);
    const big = w.eff('max_update_batch_size') < 12n && r.chance(0.15); if (big) n = Number(w.eff('max_update_batch_size')) + r.int(2);
    const who = sure || r.chance(0.85) ? this.symP(w.permHolder('Minting') || principal('@admin')) : this.user();
    return this.u(who, 'mint', [{ mint_requests: Array.from({ length: n }, () => ({ metadata: this.meta(), memo: this.memo(), token_owner: this.account() })) }]);
  }
  adv() {
    const r = this.r, W = Number(this.w.ledgerWin) + 100 * MS, s = this.cfg.timeScale;
    const dt = r.weighted([[2, r.int(5)], [2, r.int(20 * MS)], [2, 60 * MS + r.pick([-1, 0, 1, 2, -5 * MS])], [8, W + 1 + r.int(50 * MS)], [2, Math.floor(r.f() * W)], [1.5, r.int(12000) * MS], [1 * s, r.int(240) * 1000 * MS], [0.5 * s, r.int(1500) * 1000 * MS], [0.15 * s, r.int(7200) * 1000 * MS], [0.06 * s, r.int(100000) * 1000 * MS]]);
    return { t: 'a', dt: String(Math.max(0, Math.floor(dt))) };
  }
  batch() { const lim = this.w.eff('max_update_batch_size'); const r = this.r; return r.weighted([[10, 1], [3, 2], [2, 3], [1, 5], [0.3, 0], [0.5, 7], [lim < 8n ? 3 : 0, Number(lim) + r.int(3)]]); }
  xfer() {
    const r = this.r, w = this.w, n = this.batch(); let who = null; const els = [];
    for (let i = 0; i < n; i++) {
      const id = this.token(), o = this.ownerOf(id); if (!who) who = o && r.chance(0.88) ? this.symP(keyOwner(o)) : r.chance(0.9) ? this.user() : r.pick(['@anon', '@admin']);
      let pickId = id; if (i && r.chance(0.7)) { const mine = [...w.tokens].filter(([, t]) => this.symP(keyOwner(t.owner)) === who).map(x => x[0]); if (mine.length) pickId = r.pick(mine); }
      els.push({ to: r.chance(0.04) ? { owner: '@anon', subaccount: r.pick([null, '11'.repeat(32)]) } : this.account(), token_id: pickId, memo: this.memo(), from_subaccount: o && r.chance(0.5) ? acct(o).subaccount : null, created_at_time: this.cat(0.45) });
    }
    return this.u(who || this.user(), 'icrc7_transfer', [els]);
  }
  spenderOf(id) { // an account holding (or having held) an approval on the token
    const w = this.w, t = w.tokens.get(id), c = []; const tm = w.tokAppr.get(id), cm = t && w.collAppr.get(t.owner);
    if (tm) c.push(...tm.keys()); if (cm) c.push(...cm.keys()); if (this.r.chance(0.25)) c.push(...w.gone.filter(g => g.id === id || (t && g.acc === t.owner)).map(g => g.sp));
    return c.length ? this.r.pick(c) : null;
  }
  xfrom() {
    const r = this.r, n = r.weighted([[8, 1], [2, 2], [1, 4]]); let who = null; const els = [];
    for (let i = 0; i < n; i++) {
      const id = this.token(), o = this.ownerOf(id), sp = o && r.chance(0.14) ? o : r.chance(0.8) ? this.spenderOf(id) : null; // the owner itself may spend, too
      let s = sp && (!who || this.symP(keyOwner(sp)) === who) ? acct(sp) : null; if (!s) { const own = o && r.chance(0.3) ? acct(o) : null; s = own || Object.assign({}, this.account()); s.owner = this.symP(s.owner); }
      if (!who) who = this.symP(s.owner);
      const from = o && r.chance(0.9) ? this.symA(o) : this.account();
      els.push({ to: r.chance(0.03) ? { owner: '@anon', subaccount: null } : this.account(), spender_subaccount: r.chance(0.92) ? s.subaccount : r.pick(this.cfg.subs), token_id: id, from, memo: this.memo(), created_at_time: this.cat(0.45) });
    }
    return this.u(who, 'icrc37_transfer_from', [els]);
  }
  info(sub) { return { memo: this.memo(), from_subaccount: sub, created_at_time: this.cat(1), expires_at: this.exp(), spender: this.r.chance(0.02) ? { owner: '@anon', subaccount: null } : this.account() }; }
  appr() {
    const r = this.r, n = r.weighted([[7, 1], [2, 2], [1, 3]]); let who = null; const els = [];
    for (let i = 0; i < n; i++) { const id = this.token(), o = this.ownerOf(id); if (!who) who = o && r.chance(0.9) ? this.symP(keyOwner(o)) : this.user(); els.push({ token_id: id, approval_info: this.info(o && r.chance(0.93) ? acct(o).subaccount : r.pick(this.cfg.subs)) }); }
    return this.u(who, 'icrc37_approve_tokens', [els]);
  }
  coll() { const r = this.r, id = this.token(), o = this.ownerOf(id), who = o && r.chance(0.9) ? this.symP(keyOwner(o)) : this.user(); return this.u(who, 'icrc37_approve_collection', [this.burst(r.weighted([[6, 1], [2, 2], [0.2, 0]]), () => ({ approval_info: this.info(o && r.chance(0.85) ? acct(o).subaccount : r.pick(this.cfg.subs)) }))]); }
  revt() {
    const r = this.r, w = this.w, n = r.weighted([[7, 1], [2, 2], [1, 4], [0.3, 0], [this.cfg.crowd ? 3 : 0, 12]]); let who = null; const els = [], have = [...w.tokAppr.keys()].filter(i => w.tokens.has(i));
    for (let i = 0; i < n; i++) { const id = have.length && r.chance(0.85) ? r.pick(have) : this.token(), o = this.ownerOf(id); if (!who) who = o && r.chance(0.9) ? this.symP(keyOwner(o)) : this.user(); const sp = this.spenderOf(id); els.push({ token_id: id, memo: this.memo(), from_subaccount: o && r.chance(0.93) ? acct(o).subaccount : r.pick(this.cfg.subs), created_at_time: this.cat(0.4), spender: r.chance(0.3) ? null : sp ? this.symA(sp) : this.account() }); }
    return this.u(who || this.user(), 'icrc37_revoke_token_approvals', [els]);
  }
  revc() {
    const r = this.r, w = this.w, have = [...w.collAppr].filter(([, m]) => m.size).map(x => x[0]), k = have.length && r.chance(0.85) ? r.pick(have) : null, a = k ? acct(k) : this.account(), who = k ? this.symP(a.owner) : a.owner;
    return this.u(r.chance(0.9) ? who : this.user(), 'icrc37_revoke_collection_approvals', [this.burst(r.weighted([[7, 1], [1, 3], [this.cfg.crowd ? 2 : 0, 12]]), () => ({ memo: this.memo(), from_subaccount: r.chance(0.9) ? a.subaccount : r.pick(this.cfg.subs), created_at_time: this.cat(0.4), spender: r.chance(0.3) || !k ? null : this.symA(r.pick([...w.collAppr.get(k).keys()])) }))]);
  }
  burn() { const r = this.r, id = this.token(), o = this.ownerOf(id); if (this.w.tokens.size < 2 && r.chance(0.7)) return null; return this.u(o && r.chance(0.8) ? this.symP(keyOwner(o)) : this.user(), 'burn_nft', [id]); }
  upd() { const r = this.r, who = r.chance(0.85) ? this.symP(this.w.permHolder('UpdateMetadata') || principal('@admin')) : this.user(); return this.u(who, 'update_nft_metadata', [{ token_id: this.token(), metadata: this.meta() }]); }
  set() {
    const r = this.r, a = {}; for (const k of ['max_canister_storage_threshold', 'collection_metadata', ...SETTINGS]) a[k] = null;
    const p = this.cfg.prop, val = { supply_cap: () => String(Math.max(0, this.w.tokens.size + r.range(-2, 6))), default_take_value: () => String(r.range(1, 9)), logo: () => 'https://l/' + r.int(99), permitted_drift: () => String(r.pick([0, 20 * MS, 50 * MS, 2000 * MS])), name: () => 'n' + r.int(99), description: () => 'd' + r.int(99), max_take_value: () => String(r.range(1, 12)), max_update_batch_size: () => String(r.range(1, 8)), max_query_batch_size: () => String(r.range(1, 12)), max_memo_size: () => String(r.range(0, 9)), atomic_batch_transfers: () => r.chance(0.5), symbol: () => 's' + r.int(99), tx_window: () => String(r.pick([500 * MS, 3000 * MS, 20000 * MS])) };
    const ks = Object.keys(val).filter(k => k !== 'tx_window' || p === 'N10' || p === 'N24' || p === 'N09'); for (const k of r.shuffle(ks).slice(0, r.weighted([[4, 1], [3, 2], [2, 5], [1, 12]]))) a[k] = [...LIMITS, 'tx_window'].includes(k) && r.chance(p === 'N24' || p === 'N10' ? 0.12 : 0.05) ? r.pick(HUGE) : val[k]();
    const who = r.chance(0.85) ? this.symP(this.w.permHolder('UpdateCollectionMetadata') || principal('@admin')) : this.user();
    return this.u(who, 'update_collection_metadata', [a]);
  }
  perm() {
    const r = this.r, w = this.w, who = r.chance(0.75) ? this.symP(w.permHolder('ManageAuthorities') || principal('@admin')) : this.user();
    const m = r.chance(0.5) ? 'grant_permission' : 'revoke_permission'; let permission = r.pick(PERMS), p = r.chance(0.9) ? this.user() : '@admin';
    if (m === 'revoke_permission' && p === '@admin' && (permission === 'ManageAuthorities' || permission === 'Minting') && r.chance(0.8)) p = this.user();
    return this.u(who, m, [{ permission, principal: p }]);
  }
  priv() { // privileged calls by arbitrary callers
    const r = this.r, w = r.chance(0.7) ? this.user() : '@anon', p = 'f' + r.int(3);
    switch (r.int(9)) {
      case 0: return this.u(w, 'mint', [{ mint_requests: [{ metadata: [], memo: null, token_owner: this.account() }] }]);
      case 1: return this.u(w, 'update_nft_metadata', [{ token_id: this.token(), metadata: this.meta() }]);
      case 2: { const s = this.set(); s.w = w; return s; }
      case 3: return this.u(w, 'grant_permission', [{ permission: r.pick(PERMS), principal: r.chance(0.6) ? w : this.user() }]);
      case 4: return this.u(w, 'revoke_permission', [{ permission: r.pick(PERMS), principal: r.chance(0.5) ? '@admin' : this.user() }]);
      case 5: return this.u(w, 'cancel_upload', [{ file_path: p }]);
      case 6: return this.u(w, 'store_chunk', [{ chunk_id: 0, file_path: p, chunk_data: 'aa' }]);
      case 7: return this.u(w, 'finalize_upload', [{ file_path: p }]);
      default: if (this.w.has(principal(w), 'UpdateUploads')) return this.burn(); return this.u(w, 'init_upload', [{ file_hash: '00', file_path: p, file_size: 3, chunk_size: null }]);
    }
  }
  retry() { // the same caller sends an earlier request again
    const r = this.r, h = this.w.hist; if (!h.length) return null;
    const good = h.filter(x => x.ok), e = r.pick(good.length && r.chance(0.8) ? good : h); return this.u(e.w, e.m, JSON.parse(JSON.stringify(e.args)));
  }
  mutate() { // an earlier request with one argument changed
    const r = this.r, h = this.w.hist; if (!h.length) return null;
    const e = r.pick(h), a = JSON.parse(JSON.stringify(e.args)); if (!a[0].length) return null;
    const el = r.pick(a[0]), x = el.approval_info || el, ks = Object.keys(x), k = r.pick(ks);
    if (k === 'memo') x.memo = hex(r, 1 + r.int(3)); else if (k === 'created_at_time') x.created_at_time = this.cat(1); else if (k === 'expires_at') x.expires_at = this.exp(); else if (k === 'token_id') x.token_id = this.token(); else if (k === 'to' || k === 'spender' || k === 'from') x[k] = this.account(); else if (/subaccount/.test(k)) x[k] = r.pick(this.cfg.subs);
    return this.u(r.chance(0.85) ? e.w : this.user(), e.m, a);
  }
  upg() {
    const r = this.r, f = r.chance(0.45) ? undefined : r.weighted([[3, { pre: r.range(1, r.pick([5, 20, 60])) }], [3, { post: r.range(1, r.pick([5, 30, 120])) }], [1, { arg: 'init' }], [1, { arg: 'garbage' }], [1, { grow: 1 }]]);
    const a = { t: 'g' }; if (f) a.f = f; if (r.chance(0.3)) a.sweep = 1; return a;
  }
  sweep() { const p = this.cfg.prop, r = this.r, pref = { N01: 'own', N12: 'own', N05: 'appr', N04: 'appr', N07: 'log', N06: 'log', N23: 'meta', N24: 'set', N13: 'perm', N25: 'own' }[p]; return { t: 'c', k: pref && r.chance(0.7) ? pref : r.pick(['own', 'log', 'appr', 'meta', 'set', 'perm']), r: r.int(1e6) }; }
  page() {
    const r = this.r, ids = [...this.w.pagers.keys()];
    if (!ids.length || (ids.length < 4 && r.chance(0.15))) { const o = [...this.w.tokens.values()]; const k = r.chance(0.5) || !o.length ? null : this.symA(r.pick(o).owner); return { t: 'pg', op: 'start', id: ++this.pg, acct: k, take: r.chance(0.2) ? null : r.range(1, r.pick([1, 2, 3, 6])) }; }
    return { t: 'pg', op: 'next', id: r.pick(ids) };
  }
}
module.exports = { config, Gen };
