'use strict';
// Index workload: the ledger with its archives and the index canister. The one-minute index job, clients' get_blocks calls, the archiving
// job and token operations are in flight together; their messages are delivered one at a time, with faults.
const { World: ArchWorld } = require('./archive'); const { wasmBytes } = require('./world');
const U = require('./util'); const { encode, decode } = require('./candid'); const S = require('./svc');
const { canon, principal } = U;
const SEC = 1_000_000_000n, MIN = 60n * SEC, DAY = 86400n * SEC, MAXLEN = 10000n, N64 = 1n << 64n;
const str = l => l.length > 60 ? l.slice(0, 60).join(',') + ',… (' + l.length + ')' : l.join(',');
class IndexWorld extends ArchWorld {
  constructor(cfg, opts) { super(cfg, opts); this.ix = new Map(); this.ixN = 0; this.lastIx = 0; this.calls = []; this.stops = 0; }
  setup() {
    super.setup(); const c = this.index = this.sim.create(); c.controllers = [principal('@admin')]; c.cycles = 20_000_000_000_000_000n;
    const init = { test_mode: this.cfg.ixTest !== false, authorized_principals: [], version: { major: 1, minor: 0, patch: 0 }, ledger_canister_id: this.core.id, commit_hash: 'i0' };
    const r = this.sim.install(c, wasmBytes('index_icrc7'), encode([S.IndexArgs], [{ Init: init }]), principal('@admin')); if (!r.ok) throw new Error('index install failed: ' + r.err);
    return this;
  }
  exec(a) {
    if (this.core.status !== 'running' && 'ucpg'.includes(a.t[0]) && a.t !== 'gi') this.core.status = 'running'; // clients wait until the ledger is back
    switch (a.t) {
      case 'x': case 'gi': case 'xs': case 'sl': case 'bulk': break;
      default: return super.exec(a);
    }
    this.trace.push(a); this.nAct++; this.sim.log('ACT ' + JSON.stringify(a));
    switch (a.t) {
      case 'x': return this.ask(a);
      case 'gi': return this.upgradeIndex(a.f || {});
      case 'xs': return this.lists(a.r);
      case 'bulk': return this.bulk(a.n);
      case 'sl': this.core.status = a.status; if (a.status === 'stopped') { this.stops++; this.sim.fault('ledger_stopped'); } return;
    }
  }
  // a log longer than an archive serves at once: minted without the per-call checks, archived, the cache dropped
  bulk(n) {
    for (let i = 0; this.blocks.length < n && i < n; i++) {
      const b = this.blocks.length, k = this.sim.submit(this.core.id, principal('@admin'), 'mint', encode(S.core.mint, [{ mint_requests: Array.from({ length: 4 }, () => ({ metadata: [], memo: null, token_owner: { owner: principal('@u0'), subaccount: null } })) }]));
      this.sim.step(this.sim.enabled().find(e => e.kind === 'ingress' && e.n === k), {}); this.sim.results.delete(k);
      const m = this.q('icrc3_get_blocks', [[{ start: b, length: 50 }]]); for (const x of m.blocks) this.blocks.push(U.fix(x.block));
      this.sim.advance(SEC + 200_000_000n); this.background(); if (this.blocks.length % 400 === 0) for (let j = 0; j < 2; j++) { this.sim.advance(10n * MIN + SEC); this.background(); }
    }
    for (let j = 0; j < 3; j++) { this.sim.advance(10n * MIN + SEC); this.background(); }
    this.catchUp('after bulk'); this.sim.advance(DAY + MIN); this.background(); this.note('ix_bulk');
    for (const [s, l, fl, o] of [[0, n + 9, [], null], [1, 1050, [], 'Descending'], [0, n, [{ BlockType: '7mint' }], null], [3, n, [{ Account: { owner: '@u0', subaccount: null } }], 'Descending']]) { this.askNow(s, l, fl, o); this.sim.advance(DAY + MIN); this.background(); }
  }
  quick() { if (this.blocks.length < 600) super.quick(); }
  archives() { return this.blocks.length < 600 ? super.archives() : null; }
  pickCan(i) { const c = super.pickCan(i); this.stops++; return c; }
  // ---- what the index has to list
  expect() {
    for (; this.ixN < this.blocks.length; this.ixN++) {
      const o = Object.fromEntries(this.blocks[this.ixN].Map), tx = Object.fromEntries(o.tx.Map), ks = new Set(['B:' + o.btype.Text]);
      for (const f of ['from', 'to', 'spender']) if (tx[f]) ks.add('A:' + tx[f].Text); if (tx.tid) ks.add('T:' + tx.tid.Nat);
      for (const k of ks) { let l = this.ix.get(k); if (!l) this.ix.set(k, l = []); l.push(this.ixN); }
    }
    return this.ix;
  }
  key(f) { const t = Object.keys(f)[0], v = f[t]; if (t === 'BlockType') return 'B:' + v; if (t === 'TokenId') return 'T:' + BigInt(v); return v.subaccount === null || U.sub(v.subaccount) === U.Z ? 'A:' + v.owner : 'A:none'; }
  matching(filters, n) { const m = this.expect(); let l = null; for (const f of filters) { const x = new Set(m.get(this.key(f)) || []); l = l === null ? [...x] : l.filter(i => x.has(i)); } return l.filter(i => i < n).sort((a, b) => a - b); }
  status() {
    const c = this.index, st = c.status; c.status = 'running'; const r = this.sim.query(c.id, principal('@anon'), 'status', encode(S.index.status, [])); c.status = st;
    if (r.reply === undefined) { this.fail(['N19'], 'status_refused', 'status refused: ' + r.msg); return this.lastIx; }
    const n = Number(decode(r.reply)[0].last_block_id);
    if (n > this.blocks.length) this.fail(['N19'], 'ahead', `the index has ${n} blocks, the ledger ${this.blocks.length}`);
    if (n < this.lastIx) this.fail(['N19'], 'back', `the index was at block ${this.lastIx}, now at ${n}`);
    if (n > this.lastIx) { this.note('ix_advanced'); this.cov.add('ix:' + Math.min(40, n >> 1) + ':' + Math.min(20, this.blocks.length - n) + ':' + Math.min(4, this.index.open.size)); }
    this.lastIx = n; return n;
  }
  // ---- client calls to the index
  ask(a) {
    const arg = this.sub({ start: a.s, length: a.l, filters: a.fl, sort_by: a.o === null ? null : { [a.o]: null } }), sim = this.sim;
    if (this.index.status !== 'running') return;
    const who = this.sub(a.w || '@u0'), x = { arg, a, L0: this.status(), n0: this.blocks.length, inj: this.injected(), stops: this.stops + (this.stoppedNow() ? 1 : 0) };
    x.n = sim.submit(this.index.id, who, 'get_blocks', encode(S.index.get_blocks, [arg]));
    const ev = sim.enabled().find(e => e.kind === 'ingress' && e.n === x.n); if (x.stops !== this.stops) x.inj = -1;
    sim.step(ev, {}); this.calls.push(x); this.answers(); return x;
  }
  stoppedNow() { for (const c of this.sim.canisters.values()) if (c.status !== 'running') return true; return false; }
  answers() { for (let i = 0; i < this.calls.length; i++) { const x = this.calls[i], r = this.sim.results.get(x.n); if (r && r.status !== 'pending') { this.calls.splice(i--, 1); this.sim.results.delete(x.n); this.judge(x, r); } } }
  judge(x, r) {
    const { arg } = x, d = `get_blocks(start ${arg.start}, length ${arg.length}, filters ${canon(arg.filters)}, ${x.a.o}) with ${x.L0} of ${x.n0} blocks indexed`;
    if (r.status !== 'reply') { this.note('ixq_refused'); if (this.injected() === x.inj && this.stops === x.stops) this.fail(['N20'], 'query_refused', `${d} refused: ${r.msg}`); return; }
    const v = decode(r.reply)[0], ids = v.blocks.map(b => Number(b.id)), total = Number(v.total), L1 = this.status(), n1 = this.blocks.length, desc = x.a.o === 'Descending';
    this.note('ixq_answered'); if (ids.length) this.note('ixq_blocks');
    if (total !== L1) this.fail(['N20', 'N19'], 'total', `${d}: total ${total}, the index has ${L1} blocks`);
    for (const b of v.blocks) { const k = Number(b.id); if (k >= n1) this.fail(['N20'], 'foreign_block', `${d} answers block ${k}, the ledger has ${n1}`); else if (canon(b.block) !== canon(this.blocks[k])) this.fail(['N20'], 'block_content', `${d}: block ${k} is ${canon(b.block)}, the ledger has ${canon(this.blocks[k])}`); }
    for (let i = 1; i < ids.length; i++) if (desc ? ids[i] >= ids[i - 1] : ids[i] <= ids[i - 1]) this.fail(['N20'], ids[i] === ids[i - 1] ? 'block_twice' : 'order', `${d} answers ${str(ids)}`);
    if (BigInt(ids.length) > BigInt(arg.length)) this.fail(['N20'], 'too_many', `${d} answers ${ids.length} blocks`);
    const len = BigInt(arg.length) < MAXLEN ? BigInt(arg.length) : MAXLEN, st = BigInt(arg.start); let want;
    if (arg.filters.length) { // exactly the page of the list as it was when the call arrived
      const l = this.matching(arg.filters, x.L0); want = st < BigInt(l.length) ? l.slice(Number(st), Number(st + len < BigInt(l.length) ? st + len : l.length)) : [];
      if (desc) want.reverse();
      if (canon(want) !== canon(ids)) this.fail(['N20', 'N19'], want.some(i => !ids.includes(i)) ? 'page_misses' : 'page_extra', `${d} answers ${str(ids)}, expected ${str(want)}`);
      this.note('ixq_filtered');
    } else { // the ledger's blocks of the range, which may be newer than the index
      const lo = desc ? (BigInt(x.L0) > len ? BigInt(x.L0) - len : 0n) : st, hi = lo + len, l = []; for (let i = lo; i < hi && i < BigInt(n1); i++) l.push(Number(i));
      if (desc) l.reverse(); const must = l.filter(i => i < x.n0), got = new Set(ids);
      for (const i of must) if (!got.has(i)) this.fail(['N20'], 'page_misses', `${d} answers ${str(ids)}, block ${i} is missing`);
      for (const i of ids) if (!l.includes(i)) this.fail(['N20'], 'page_extra', `${d} answers ${str(ids)}, block ${i} is outside the range`);
    }
    this.cov.add(['ixq', arg.filters.length, desc ? 'd' : 'a', Math.min(12, ids.length), Math.min(10, x.L0 >> 2), this.maxArch, n1 > x.n0 ? 'm' : ''].join(':'));
  }
  afterStep(ev, f, o) {
    super.afterStep(ev, f, o); if (this.calls.length) this.answers();
    if (o && o.c === this.index && ev.kind === 'response') { this.status(); this.note('ix_' + ev.method + (ev.r.reply === undefined ? '_rej' : '')); }
  }
  // ---- N19: the lists, at rest
  lists(seed, all) {
    this.rest(); const L = this.status(), m = this.expect(), ks = [...m.keys()].sort(), pick = all ? ks : ks.filter((_, i) => (i * 7 + seed) % 5 === 0);
    for (const k of [...pick, 'T:99999', 'B:7none']) {
      const fl = [k[0] === 'A' ? { Account: { owner: k.slice(2), subaccount: null } } : k[0] === 'T' ? { TokenId: k.slice(2) } : { BlockType: k.slice(2) }];
      const want = (m.get(k) || []).filter(i => i < L), step = all && seed % 3 === 0 ? Math.max(1, want.length >> 1) : want.length + 3, got = [];
      for (let s = 0; s <= want.length; s += step) { const r = this.askNow(s, step, fl, (seed + s) % 2 ? 'Ascending' : null); if (!r) return; got.push(...r); }
      if (canon(got) !== canon(want)) this.fail(['N19'], got.some((x, i) => got.indexOf(x) !== i) ? 'listed_twice' : want.some(x => !got.includes(x)) ? 'not_listed' : 'listed_wrongly', `the index at block ${L} lists ${str(got)} for ${k}, the log has ${str(want)}`);
      this.note('ix_lists');
    }
  }
  askNow(s, l, fl, o) { let out = null; const j = this.judge.bind(this); this.judge = (y, z) => { if (z.status === 'reply') out = decode(z.reply)[0].blocks.map(b => Number(b.id)); j(y, z); }; try { this.ask({ s: String(s), l: String(l), fl, o }); this.background(); } finally { delete this.judge; } return out; }
  upgradeIndex(f) {
    this.rest(); const c = this.index, sim = this.sim; if (c.open.size) { this.fail(['N19'], 'index_no_quiescence', 'calls of the index never end'); return; }
    const n = this.status(), arg = f.arg === 'init' ? { Init: { test_mode: true, authorized_principals: [], version: { major: 9, minor: 0, patch: 0 }, ledger_canister_id: principal('@u1'), commit_hash: 'x' } } : { Upgrade: { version: { major: 1, minor: 1, patch: this.nAct % 1000 }, commit_hash: 'i' + this.nAct } };
    c.status = 'stopped'; const r = sim.upgrade(c, wasmBytes('index_icrc7'), encode([S.IndexArgs], [arg]), principal('@admin'), { pre: f.pre, post: f.post }); c.status = 'running';
    if (!r.ok && f.pre === undefined && f.post === undefined && !f.arg) this.fail(['N19'], 'index_upgrade_failed', `the index upgrade failed in ${r.phase}_upgrade: ${r.err}`);
    this.note(r.ok ? 'ix_upgraded' : 'ix_upgrade_failed'); const q = sim.query(c.id, principal('@anon'), 'ledger_id', encode(S.index.ledger_id, []));
    if (q.reply === undefined || decode(q.reply)[0].ledger_id !== this.core.id) this.fail(['N19'], 'index_ledger', 'after an upgrade the index follows ' + (q.reply === undefined ? q.msg : decode(q.reply)[0].ledger_id));
    if (this.status() !== n) this.fail(['N19'], 'index_position', `an upgrade moved the index from block ${n} to ${this.lastIx}`);
    this.background();
  }
  catchUp(when) {
    this.rest(); const n = this.blocks.length, k = Math.ceil((n - this.status()) / 100) + 2;
    for (let i = 0; i < k; i++) { this.sim.advance(MIN + 1n); this.background(); }
    if (this.status() !== this.blocks.length) this.fail(['N19'], 'not_caught_up', `${when}: the index is at block ${this.lastIx} of ${this.blocks.length} ${k} minutes after all faults stopped`);
    this.note('ix_caught_up'); if (this.calls.length) this.fail(['N20'], 'never_answered', 'a get_blocks call was never answered');
  }
  finish() {
    if (this.blocks.length > 600) return;
    const sd = this.trace.length; this.catchUp('at the end'); this.lists(sd, true);
    this.sim.advance(3n * MIN); this.background(); for (let i = 0; i < 2; i++) { this.sim.advance(10n * MIN + SEC); this.background(); } // to the archives
    this.archives(); this.sim.advance(DAY + MIN); this.background(); // the cache is cleared
    this.oneMore(); this.catchUp('after archiving'); this.lists(sd + 1, true);
    const n = this.blocks.length; for (const o of ['Ascending', 'Descending', null]) this.askNow(0, n + 5, [], o);
    this.askNow(0, N64 - 1n, [], 'Descending'); this.askNow(Math.min(n, 2), N64 - 1n, [], null); this.askNow(1, N64 - 1n, [{ BlockType: '7mint' }], null);
    this.upgradeIndex({}); this.oneMore(); this.catchUp('after an upgrade'); this.lists(sd + 2, true);
  }
}
module.exports = { World: IndexWorld };
