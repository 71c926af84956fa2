'use strict';
// Archiving: token operations go on while the ten-minute job moves blocks to archive canisters it creates; every message between
// the ledger and an archive, the management canister included, is scheduled and may fail.
const { SchedWorld } = require('./sched'); const { PERMS } = require('./world');
const U = require('./util'); const { decode } = require('./candid');
const { canon } = U;
const SEC = 1_000_000_000n, MIN = 60n * SEC, PLENTY = 20_000_000_000_000_000n;
class ArchWorld extends SchedWorld {
  constructor(cfg, opts) {
    super(cfg, opts); this.arch = new Map(); // archives whose installation the ledger has seen
    this.moved = 0; this.maxArch = 0;
    this.sim.onExec = x => { if (this.cur && x.c === this.core) this.cur.exec = x; };
  }
  setup() { super.setup(); this.core.cycles = PLENTY; return this; }
  // archives that are stopped for the ledger are still read
  getBlocks(s, l, props) {
    const st = []; for (const c of this.sim.canisters.values()) if (c.status !== 'running') { st.push([c, c.status]); c.status = 'running'; }
    try { return super.getBlocks(s, l, props); } finally { for (const [c, v] of st) c.status = v; }
  }
  beforeStep(ev, f, o) { this.cur = { ev, o, exec: null }; }
  afterStep(ev, f, o) {
    const cur = this.cur; this.cur = null; if (!o || o.c !== this.core || ev.kind !== 'response') return;
    const m = o.k.method, ok = ev.r.reply !== undefined, done = cur.exec && cur.exec.ok;
    this.cov.add(['ar', m, ok ? 'ok' : 'rej', done ? 'done' : 'trap', this.arch.size, Math.min(8, this.blocks.length >> 2), Math.min(8, this.local() >> 2)].join(':'));
    if (m === 'create_canister' && ok) { this.created = decode(ev.r.reply)[0].canister_id; this.note('archive_create_' + (done ? 'seen' : 'lost')); }
    if (m === 'install_code') {
      const id = decode(o.k.arg)[0].canister_id;
      if (ok && done) { this.arch.set(id, true); this.note('archive_installed'); }
      if (ok && !done) { this.note('archive_install_lost'); if (this.refusedInstall === id) this.stuck = id; }
      if (!ok && done) { this.refusedInstall = id; this.note('archive_install_refused'); }
      if (!ok && !done) this.note('archive_install_refusal_lost');
    }
    if (m === 'insert_blocks') { this.note('archived_' + (ok ? done ? 'ok' : 'lost' : 'refused')); this.quick(); }
    if (m === 'total_transactions') this.note('archived_reconcile_' + (ok ? 'ok' : 'refused'));
  }
  // after every answer of an archive: the log still holds exactly the blocks that were logged
  quick() {
    const n = this.blocks.length; if (!n) return; const m = this.getBlocks(0, n + 5, ['N07', 'N08']); if (!m) return;
    if (m.len !== n) this.fail(['N08', 'N07'], 'log_length', `log_length ${m.len} while blocks are being archived, ${n} blocks were logged`);
    for (let i = 0; i < n; i++) { const b = m.get(String(i)); if (!b) this.fail(['N08', 'N07'], 'block_lost', `block ${i} of ${n} is served neither by the ledger nor by an archive`); else if (canon(b) !== canon(this.blocks[i])) this.fail(['N08', 'N07'], 'block_changed', `block ${i} was ${canon(this.blocks[i])}, now ${canon(b)}`); }
    if (m.size > n) this.fail(['N08', 'N07'], 'range', `${m.size} blocks are served, ${n} were logged`);
  }
  local() { const r = this.q('icrc3_get_blocks', [[{ start: 0, length: this.blocks.length + 5 }]]); return r && r.blocks ? r.blocks.length : 0; }
  // N08: which archive holds what
  archives() {
    const l = this.must('icrc3_get_archives', [null], undefined, ['N08']); if (!l) return;
    const seg = l.map(x => ({ id: String(x.canister_id), s: Number(x.start), e: Number(x.end) })).sort((a, b) => a.s - b.s || a.e - b.e), local = this.local(), n = this.blocks.length, held = n - local;
    if (held > this.moved) { this.note('archived_blocks_seen'); this.moved = held; } else if (held < this.moved) this.fail(['N08'], 'archived_again_local', `${held} blocks are archived, ${this.moved} were before`);
    if (!held) return seg;
    let next = 0; for (const x of seg) {
      const c = this.sim.canisters.get(x.id); if (!c || !c.inst || c.createdBy !== this.core.id) this.fail(['N08'], 'archive_foreign', `icrc3_get_archives lists ${x.id}, which holds no blocks`);
      if (x.s > next && next < held) this.fail(['N08'], 'archive_gap', `icrc3_get_archives ${canon(seg)} leaves out block ${next} of the ${held} archived ones`);
      if (x.s < next) this.fail(['N08'], 'archive_overlap', `icrc3_get_archives ${canon(seg)} lists block ${x.s} twice`);
      next = x.e + 1;
    }
    if (next < held) this.fail(['N08'], 'archive_range_short', `icrc3_get_archives ${canon(seg)} ends at ${next - 1}, ${held} blocks are archived`);
    if (next > held) this.fail(['N08'], 'archive_range_long', `icrc3_get_archives ${canon(seg)} ends at ${next - 1}, only ${held} blocks are archived`);
    this.maxArch = Math.max(this.maxArch, seg.length); this.cov.add('arch:' + seg.length + ':' + held); return seg;
  }
  sweep(a, e) { if (a.k === 'log') { this.quick(); this.archives(); } return super.sweep(a, e); }
  doUpgrade(a) { this.background(); if (this.core.open.size) { this.fail(['N08', 'N14'], 'no_quiescence', 'calls to archives never end'); return; } super.doUpgrade(a); this.quick(); this.archives(); }
  rest() { for (const c of this.sim.canisters.values()) c.status = 'running'; this.core.cycles = PLENTY; this.background(); }
  // once faults have stopped every block older than two minutes reaches an archive
  drain(when) {
    const n = this.blocks.length; this.rest(); this.sim.advance(150n * SEC); this.background();
    for (let i = 0; i < 3; i++) { this.sim.advance(10n * MIN + SEC); this.background(); }
    const k = this.local(); if (n && k && this.blocks.length === n) this.fail(['N08'], this.stuck && !this.arch.has(this.stuck) ? 'archive_created_stuck' : 'not_archived', `${when}: ${k} of ${n} blocks are still in the ledger 30 minutes after all faults stopped`);
    this.quick(); this.archives(); this.note('archived_drained');
  }
  oneMore() { // the ledger still accepts operations
    const b = this.blocks.length, h = this.permHolder('Minting'); if (!h || BigInt(this.tokens.size) >= this.eff('supply_cap')) return;
    super.doUpdate({ t: 'u', w: h, m: 'mint', a: [{ mint_requests: [{ metadata: [], memo: null, token_owner: { owner: '@u1', subaccount: null } }] }] });
    if (this.blocks.length !== b + 1) this.fail(['N08'], 'ledger_stuck', 'a mint after archiving appended no block');
  }
  children() { const l = this.must('icrc3_get_archives', [null], undefined, ['N08']) || []; return [...new Set(l.map(x => String(x.canister_id)))]; }
  finish() {
    this.drain('at the end'); this.oneMore(); this.drain('after one more operation');
    this.doUpgrade({ t: 'g' }); this.oneMore(); this.drain('after an upgrade'); this.checkFunding('at the end', 700_000_000_000n);
    super.finish();
  }
}
module.exports = { World: ArchWorld };
