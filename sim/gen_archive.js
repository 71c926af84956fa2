'use strict';
// Seeded generator for the archive workload: token operations, time, and the messages of the archiving job with faults between them.
const T = require('./gen_token'); const { Rng } = require('./prng');
const MS = 1000000, SEC = 1000 * MS;
function config(prop, seed, tier) {
  const r = new Rng('acfg', prop, seed), c = T.config('N07', seed, tier);
  const rates = r.chance(0.2) ? { reject: 0, trap: 0, perform: 0, grow: 0 } : { reject: r.pick([0, 0.05, 0.15, 0.35]), trap: r.pick([0, 0.03, 0.1, 0.25]), perform: r.pick([0, 0, 0.02]), grow: r.pick([0, 0, 0.03]) };
  c.init.test_mode = true; c.init.tx_window = r.pick([null, null, String(200 * MS), String(1000 * MS)]); c.init.supply_cap = null; c.init.permitted_drift = null;
  for (const k of ['max_update_batch_size', 'max_query_batch_size', 'default_take_value', 'max_take_value', 'max_memo_size']) c.init[k] = null;
  Object.assign(c, { kind: 'archive', prop, seed, rates, faults: r.pick([0, 0, 0.04]), ints: false, steps: (tier === 'thorough' ? 2 : 1) * r.range(90, 220), snapshot: prop === 'N14' || r.chance(0.1), A: { op: 40, step: r.pick([40, 90]), settle: 4, adv: 16, job: 9, stop: r.pick([0, 0, 1.5]), cyc: r.pick([0, 0, 0.7]), upg: prop === 'N14' ? 5 : r.pick([0.4, 1.5]), log: 3 } });
  if (prop === 'N26') { Object.assign(c.A, { bal: 4, fund: 1.2, upg: 2.5 }); c.init.tx_window = String(200 * MS); }
  for (const k of ['mint', 'xfer', 'xfrom', 'appr', 'burn', 'upd']) if (c.W[k] < 2) c.W[k] = 2; c.W.set = 0; c.W.adv = 0; c.W.upg = 0; c.W.page = 0;
  return c;
}
const BAL = ['0', '250000000000', '700000000000', '999999999999', '1000000000000', '1000000030000', '1000000030001', '1500000000000', '5000000000000'];
class Gen extends T.Gen {
  constructor(w, cfg) { super(w, cfg); this.ra = new Rng('agen', cfg.prop, cfg.seed); this.aops = Object.entries(cfg.A).map(([k, v]) => [v, k]); }
  next() {
    if (this.warm < 2 || (this.pend && this.pend.length)) return super.next();
    for (let i = 0; i < 30; i++) { const a = this['g_' + this.ra.weighted(this.aops)](); if (a) return a; }
    return { t: 'a', dt: String(MS) };
  }
  g_op() { const a = super.next(); return a.t === 'u' || a.t === 'c' ? a : null; }
  g_step() {
    const w = this.w, r = this.ra, ev = w.events(); if (!ev.length) return null;
    const k = r.chance(0.5) ? 0 : r.int(ev.length), e = ev[k], R = this.cfg.rates, f = {};
    // an archive is created once or twice in a run: its creation meets faults more often
    if (/^(create_canister|install_code)$/.test(e.method || '') && R.reject + R.trap > 0 && r.chance(0.4)) { const a = { t: 's', k, f: e.kind === 'request' ? r.pick([{ reject: 2 }, { reject: 5 }, { reject: 2 }]) : { trap: r.range(1, r.pick([6, 20, 60])) } }; return a; }
    if (/^(insert_blocks|total_transactions)$/.test(e.method || '') && R.reject + R.trap > 0 && r.chance(0.12)) { const a = { t: 's', k, f: e.kind === 'request' ? r.pick([{ reject: 2 }, { reject: 5 }, { trap: r.range(1, 30) }]) : { trap: r.range(1, r.pick([6, 20, 60])) } }; return a; }
    if (r.chance(R.reject)) f.reject = r.pick([2, 5, 4]); else if (r.chance(R.trap)) f.trap = r.weighted([[2, r.range(1, 12)], [2, r.range(1, 60)], [1, r.range(1, 400)]]); if (r.chance(R.perform)) f.perform = 1; if (r.chance(R.grow)) f.grow = 1;
    const a = { t: 's', k }; if (Object.keys(f).length) a.f = f; return a;
  }
  g_settle() { return this.w.events().length ? { t: 'q' } : null; }
  g_adv() { const r = this.ra; return { t: 'a', dt: String(r.weighted([[6, r.range(1, 700) * MS], [3, r.range(1, 40) * SEC], [2, r.range(60, 200) * SEC]])) }; }
  g_job() { return { t: 'a', dt: String(this.ra.range(300, 900) * SEC) }; }
  g_stop() { return { t: 'st', can: this.ra.int(6), status: this.ra.chance(0.5) ? 'stopped' : 'running' }; }
  g_cyc() { return { t: 'cy', v: this.ra.pick(['100000000000', '3000000000000', '6000000000000', '20000000000000000', '20000000000000000']) }; }
  g_bal() { return { t: 'cs', can: this.ra.int(6), v: this.ra.pick(BAL) }; }
  g_fund() { return { t: 'fc', v: this.ra.pick(['999999999999', '1000000030000', '1000000030001', '300000000000', '600000000000', '4000000000000']) }; }
  g_log() { return { t: 'c', k: 'log', r: this.ra.int(1e6) }; }
  g_upg() { const r = this.ra, f = r.chance(0.6) ? undefined : r.weighted([[3, { pre: r.range(1, r.pick([5, 20, 60])) }], [3, { post: r.range(1, r.pick([5, 30, 120])) }], [1, { arg: 'init' }]]); const a = { t: 'g' }; if (f) a.f = f; return a; }
}
module.exports = { config, Gen };
