'use strict';
// Seeded generator for the index workload: the archive workload plus the index canister and its clients.
const A = require('./gen_archive'); const { Rng } = require('./prng');
const MS = 1000000, SEC = 1000 * MS;
const TYPES = ['7mint', '7xfer', '7burn', '37xfer', '37approve', '37approve_coll', '37revoke', '37revoke_coll', '7update_token'];
function config(prop, seed, tier) {
  const r = new Rng('icfg', prop, seed), c = A.config('N07', seed, tier);
  Object.assign(c, { kind: 'index', prop, seed, ints: r.chance(0.5), snapshot: false, ixTest: r.chance(0.8), steps: (tier === 'thorough' ? 2 : 1) * r.range(70, 190) });
  Object.assign(c.A, { op: 42, step: r.pick([30, 70]), settle: 5, adv: 12, min: r.pick([8, 14, 20]), job: r.pick([0, 1, 3, 5]), ask: prop === 'N20' ? r.pick([22, 40]) : r.pick([0, 6, 12]), ixs: 2, upg: r.pick([0, 0.8]), upgi: r.pick([0, 1, 2.5]), day: r.pick([0, 0.5, 1.5]), led: r.pick([0, 0, 1.5]), log: 0.5, stop: r.pick([0, 0, 1.5]), cyc: 0 });
  if ((prop === 'N20' || prop === 'N19') && seed % 200 === 7) { c.bulk = 1060; c.steps = 1; c.faults = 0; c.init.tx_window = String(200 * MS); c.init.test_mode = true; }
  return c;
}
class Gen extends A.Gen {
  constructor(w, cfg) { super(w, cfg); this.rx = new Rng('xgen', cfg.prop, cfg.seed); }
  next() { return this.cfg.bulk ? { t: 'bulk', n: this.cfg.bulk } : super.next(); }
  g_min() { return { t: 'a', dt: String(this.ra.pick([60, 61, 61, 65, 120, 200]) * SEC + this.ra.int(2)) }; }
  g_day() { return { t: 'a', dt: String(86400 * SEC + this.ra.int(7200) * SEC) }; }
  g_led() { return { t: 'sl', status: this.ra.chance(0.5) ? 'stopped' : 'running' }; }
  g_ixs() { return { t: 'xs', r: this.ra.int(1000) }; }
  g_upgi() { const r = this.ra, a = { t: 'gi' }, f = r.chance(0.55) ? undefined : r.weighted([[3, { pre: r.range(1, r.pick([5, 20, 60])) }], [3, { post: r.range(1, r.pick([5, 30, 120])) }], [1, { arg: 'init' }]]); if (f) a.f = f; return a; }
  g_ask() {
    const r = this.rx, w = this.w, n = w.blocks.length, nf = r.weighted([[4, 0], [6, 1], [4, 2], [1, 3]]), fl = [];
    for (let i = 0; i < nf; i++) fl.push(r.weighted([[4, () => ({ Account: { owner: r.chance(0.93) ? this.user() : r.pick(['@admin', '@anon', '@core']), subaccount: r.chance(0.85) ? null : r.pick(['00'.repeat(32), '11'.repeat(32)]) } })], [4, () => ({ TokenId: r.chance(0.92) ? this.token() : r.pick(['0', '18446744073709551615', '18446744073709551616', '340282366920938463463374607431768211456']) })], [4, () => ({ BlockType: r.chance(0.94) ? r.pick(TYPES) : r.pick(['', '7MINT', '2xfer', '7mint ']) })]])());
    const big = ['4294967296', '4294967297', '18446744073709551615', '18446744073709551610'];
    const s = r.weighted([[8, String(r.int(6))], [6, String(r.int(n + 3))], [1, r.pick(big)]]), l = r.weighted([[8, String(r.range(1, 6))], [4, String(r.int(n + 5))], [1, '0'], [1, '100'], [0.7, '100000'], [1, r.pick(big)]]);
    return { t: 'x', s, l, fl, o: r.pick([null, 'Ascending', 'Descending']) };
  }
  g_step() {
    const w = this.w, r = this.ra, ev = w.events(); if (!ev.length) return null; const R = this.cfg.rates;
    // the index's own reads meet faults more often
    const ks = ev.map((e, i) => i).filter(i => ev[i].method === 'icrc3_get_blocks');
    if (ks.length && r.chance(0.5)) { const k = r.pick(ks), e = ev[k], a = { t: 's', k }; if (R.reject + R.trap > 0 && r.chance(0.2)) a.f = e.kind === 'request' ? r.pick([{ reject: 2 }, { reject: 5 }, { trap: r.range(1, 30) }]) : { trap: r.range(1, r.pick([6, 20, 100, 400])) }; return a; }
    return super.g_step();
  }
}
module.exports = { config, Gen };
