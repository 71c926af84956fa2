'use strict';
// World with an explicit schedule: messages between canisters, call-backs and timers are delivered one at a time by 's' actions,
// in the order and with the faults the action list says.
const { World } = require('./world');
const { encode, decode } = require('./candid'); const S = require('./svc');
const { FREEZE } = require('./ic');
const T = 1_000_000_000_000n, LOW = T + FREEZE; // a canister at or below LOW is due for a top-up
const INTERNAL = /^<ic-cdk internal>/;
class SchedWorld extends World {
  constructor(cfg, opts) { super(cfg, opts); this.lowSeen = new Map(); this.sim.onRequest = m => this.onDeposit(m); } // canister -> low balances the NFT canister was told of and has not answered
  exec(a) {
    switch (a.t) {
      case 's': case 'q': case 'st': case 'cy': case 'a': case 'cs': case 'fc': break;
      default: return super.exec(a);
    }
    this.trace.push(a); this.nAct++; this.sim.log('ACT ' + JSON.stringify(a));
    switch (a.t) {
      case 's': { const ev = this.events(); if (!ev.length) return; return this.stepEv(ev[a.k % ev.length], a.f || {}); }
      case 'q': return this.background();
      case 'a': this.sim.advance(BigInt(a.dt)); return;
      case 'st': { const c = this.pickCan(a.can); if (c && c.inst) { c.status = a.status; this.note('canister_' + a.status); if (a.status === 'stopped') this.sim.fault('canister_stopped'); } return; }
      case 'cs': { const c = this.pickCan(a.can); if (c && c.inst) { c.cycles = BigInt(a.v); this.note('balance_set'); if (BigInt(a.v) <= LOW) this.sim.fault('canister_low_balance'); } return; }
      case 'fc': return this.checkFunding('while running', BigInt(a.v));
      case 'cy': { this.core.cycles = BigInt(a.v); if (BigInt(a.v) < 20_000_000_000_000n) this.sim.fault('low_cycles'); return; }
    }
  }
  pickCan(i) { const l = [...this.sim.canisters.values()].filter(c => c !== this.core && !c.user); return l.length ? l[i % l.length] : null; }
  events() { return this.sim.enabled().sort((x, y) => x.n - y.n); }
  // faults a message may meet: the timer library's calls to itself are left alone
  allowed(ev, f) {
    const o = {}; if (ev.kind === 'timer' || (ev.method && INTERNAL.test(ev.method))) return o;
    if (f.reject && ev.kind === 'request') { o.reject = f.reject; return o; }
    if (f.unknown && ev.kind === 'request' && ev.best) { o.unknown = 1; return o; }
    if (f.trap && !(ev.kind === 'request' && ev.to === 'aaaaa-aa')) o.trap = f.trap;
    if (f.perform) o.perform = f.perform; if (f.grow) o.grow = 1;
    return o;
  }
  ctxOf(ev) { // the call context of the NFT canister a message belongs to
    const id = ev.kind === 'request' ? ev.from : ev.to, c = this.sim.canisters.get(id); if (!c || ev.cb === undefined) return null;
    const r = c.callbacks.get(ev.cb); return r ? { c, ctx: r.ctx, k: r.k } : null;
  }
  stepEv(ev, f) {
    f = this.allowed(ev, f); const o = this.ctxOf(ev);
    if (o && o.c === this.core && ev.kind === 'response' && o.k.method === 'canister_status' && ev.r.reply !== undefined && decode(ev.r.reply)[0].cycles <= LOW) { const id = String(decode(o.k.arg)[0].canister_id); this.lowSeen.set(id, (this.lowSeen.get(id) || 0) + 1); }
    this.beforeStep(ev, f, o); this.sim.step(ev, f); this.afterStep(ev, f, o);
  }
  // a call is delivered and executed at once; whatever is in flight between canisters stays in flight
  callUpdate(a, args) {
    const sim = this.sim, who = this.sub(a.w), n = sim.submit(this.core.id, who, a.m, encode(S.core[a.m], args));
    const ev = sim.enabled().find(e => e.kind === 'ingress' && e.n === n), i0 = this.injected();
    sim.step(ev, a.f || {});
    const r = sim.results.get(n); sim.results.delete(n); const injected = this.injected() > i0;
    if (r.status === 'reply') return { val: decode(r.reply)[0], injected };
    if (r.status === 'pending') return { pending: true, injected };
    return { rej: r.msg, injected };
  }
  injected() { let n = 0; for (const k in this.sim.stats.injected) n += this.sim.stats.injected[k]; return n; }
  beforeStep() { } afterStep() { }
  // ---- N26: cycles of the canisters the NFT canister created
  onDeposit(m) {
    if (m.from !== this.core.id || m.method !== 'deposit_cycles') return;
    const id = String(decode(m.arg)[0].canister_id), c = this.sim.canisters.get(id), n = this.lowSeen.get(id) || 0; this.note('top_up');
    if (!c || c.createdBy !== this.core.id) this.fail(['N26'], 'funded_foreign', `${m.cycles} cycles are sent to ${id}, which the NFT canister did not create`);
    if (m.cycles !== 2n * T) this.fail(['N26'], 'funded_amount', `${id} is sent ${m.cycles} cycles, 2 000 000 000 000 is the configured amount`);
    if (this.core.cycles <= T) this.fail(['N26'], 'funded_below_reserve', `${m.cycles} cycles are sent to ${id} although that leaves the NFT canister ${this.core.cycles}`);
    if (!n) this.fail(['N26'], 'funded_without_need', `${m.cycles} cycles are sent to ${id}, whose balance was never reported to be 1T or less since its last top-up`);
    this.lowSeen.set(id, n - 1);
  }
  children() { return []; }
  checkFunding(when, v) {
    this.core.cycles = 20_000_000_000_000_000n; this.background(); const l = this.children().map(id => this.sim.canisters.get(id)).filter(c => c);
    for (const c of l) c.cycles = v;
    for (let i = 0; i < 3; i++) { this.sim.advance(61_000_000_000n); this.background(); }
    for (const c of l) {
      this.note('funding_checked'); this.cov.add('fund:' + l.length + ':' + (v <= LOW) + ':' + c.status + ':' + Math.min(3, this.upgradesOk));
      if (v <= LOW && c.cycles < v + 2n * T) this.fail(['N26'], 'not_topped_up', `${when}: canister ${c.id} has ${c.cycles} cycles three minutes after its balance was ${v}`);
      if (v > LOW && c.cycles !== v) this.fail(['N26'], 'topped_up_above_threshold', `${when}: canister ${c.id} has ${c.cycles} cycles three minutes after its balance was ${v}`);
    }
    for (const c of l) c.cycles = 5n * T;
  }
  background() {
    for (let n = 0; n < 4000; n++) { const ev = this.events(); if (!ev.length) return; this.stepEv(ev[0], {}); }
    this.fail(['N08', 'N15'], 'no_quiescence', 'the system does not come to rest');
  }
}
module.exports = { SchedWorld, INTERNAL };
