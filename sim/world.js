'use strict';
// A simulated deployment of the NFT ledger: the real core_nft wasm (plus the archive and storage canisters it
// creates) in the simulator, a reference model of what the properties promise, and the monitors comparing both.
// A run is a configuration plus a list of concrete JSON actions; executing the same list gives the same run.
const fs = require('fs'), path = require('path');
const { Sim } = require('./ic'); const S = require('./svc');
const { encode, decode } = require('./candid');
const U = require('./util');
const { canon, akey, acct, keyOwner, memoHex, cmeta, principal } = U;

const WASM_DIR = process.env.NFT_WASM_DIR || path.join(process.env.NFT_REPO || '/repo', 'target/wasm32-unknown-unknown/release');
let bins = null;
const wasmBytes = n => { if (!bins) bins = {}; return bins[n] || (bins[n] = fs.readFileSync(path.join(WASM_DIR, n + '.wasm'))); };

class Violation extends Error { constructor(props, sig, msg) { super(msg); this.props = props; this.sig = sig; } }
const MS = 1_000_000n, SEC = 1_000_000_000n;
const DEF = { tx_window: 10n * SEC, permitted_drift: 50n * MS, default_take_value: 100n, max_take_value: 100n, max_update_batch_size: 100n, max_query_batch_size: 100n, max_memo_size: 1_000_000n, supply_cap: 10_000n };
const BIGIDS = ['18446744073709551615', '18446744073709551616', '340282366920938463463374607431768211456']; // ids no token has
const SETTINGS = ['supply_cap', 'tx_window', 'default_take_value', 'logo', 'permitted_drift', 'name', 'description', 'max_take_value', 'max_update_batch_size', 'max_query_batch_size', 'max_memo_size', 'atomic_batch_transfers', 'symbol'];
const PERMS = ['Minting', 'ManageAuthorities', 'UpdateMetadata', 'UpdateCollectionMetadata', 'ReadUploads', 'UpdateUploads'];
const NEED = {
  mint: 'Minting', update_nft_metadata: 'UpdateMetadata', update_collection_metadata: 'UpdateCollectionMetadata', grant_permission: 'ManageAuthorities', revoke_permission: 'ManageAuthorities',
  get_user_permissions: 'ManageAuthorities', has_permission: 'ManageAuthorities', get_all_storage_subcanisters: 'ManageAuthorities', get_upload_status: 'ReadUploads', get_all_uploads: 'ReadUploads',
  init_upload: 'UpdateUploads', store_chunk: 'UpdateUploads', finalize_upload: 'UpdateUploads', cancel_upload: 'UpdateUploads',
};
const initArgs = o => Object.assign({ permissions: { user_permissions: [] }, supply_cap: null, tx_window: null, test_mode: true, default_take_value: null, max_canister_storage_threshold: null, logo: null, permitted_drift: null, name: 'nft', description: null, version: { major: 1, minor: 0, patch: 0 }, max_take_value: null, max_update_batch_size: null, max_query_batch_size: null, commit_hash: 'c0', max_memo_size: null, atomic_batch_transfers: null, collection_metadata: [], symbol: 'N', approval_init: { max_approvals_per_token_or_collection: null, max_revoke_approvals: null } }, o);

class World {
  constructor(cfg, opts = {}) {
    this.cfg = cfg; this.target = opts.target || null; this.known = opts.known || []; this.knownHit = {}; this.foreign = {};
    this.sim = new Sim({ log: opts.log, debug: opts.debug });
    this.trace = []; this.nAct = 0; this.hist = []; this.cov = new Set(); this.counts = {};
    this.trapsUnexpected = 0; this.start = this.sim.time;
    // reference model
    this.tokens = new Map(); this.burned = new Set(); this.nextId = 1n; this.everMinted = 0;
    this.tokAppr = new Map(); this.collAppr = new Map(); this.gone = [];
    this.perms = new Map(); this.set = {}; this.rate = new Map();
    this.ledger = []; this.execs = new Map(); this.ledgerWin = 0n; this.blocks = []; this.phash = U.Z;
    this.accounts = new Set(); this.pagers = new Map(); this.upgradesOk = 0;
  }
  // ---- reporting
  note(k) { this.counts[k] = (this.counts[k] || 0) + 1; }
  fail(props, sig, msg) {
    const kf = this.known.find(k => k.sig === sig && k.status === 'finding');
    if (kf) { this.knownHit[sig] = (this.knownHit[sig] || 0) + 1; return; }
    if (!this.target || props.includes(this.target)) throw new Violation(props, sig, `[${props.join(',')}] ${sig}: ${msg}`);
    this.foreign[sig] = (this.foreign[sig] || 0) + 1;
  }
  // ---- set-up
  setup() {
    const sim = this.sim, c = sim.create(); this.core = c;
    c.controllers = [principal('@admin')];
    const init = this.sub(initArgs(this.cfg.init || {}));
    for (const k of SETTINGS) this.set[k] = init[k] === undefined ? null : init[k];
    this.set.max_approvals = init.approval_init.max_approvals_per_token_or_collection; this.set.max_revoke = init.approval_init.max_revoke_approvals;
    this.ledgerWin = init.tx_window === null ? 0n : BigInt(init.tx_window);
    for (const [p, l] of init.permissions.user_permissions) this.perms.set(p, new Set(l));
    if (init.test_mode) this.perms.set(principal('@admin'), new Set([...(this.perms.get(principal('@admin')) || []), ...PERMS]));
    const r = sim.install(c, wasmBytes('core_nft'), encode([S.CoreArgs], [{ Init: init }]), principal('@admin'));
    if (!r.ok) throw new Error('core install failed: ' + r.err);
    for (let i = 0; i < (this.cfg.users || 4); i++) for (const s of this.cfg.subs || [null, '11'.repeat(32)]) this.accounts.add(akey({ owner: principal('@u' + i), subaccount: s }));
    this.version = { major: 1, minor: 0, patch: 0 };
    return this;
  }
  sub(v) { // resolve symbols in action arguments
    if (typeof v === 'string') return v[0] === '@' ? this.sym(v) : v;
    if (Array.isArray(v)) return v.map(x => this.sub(x));
    if (v && typeof v === 'object' && !Buffer.isBuffer(v)) {
      const ks = Object.keys(v);
      if (ks.length === 1 && ks[0] === 'now') return (this.sim.time + BigInt(v.now)).toString();
      const o = {}; for (const k of ks) o[k] = this.sub(v[k]); return o;
    }
    return v;
  }
  sym(s) { if (s === '@core') return this.core.id; if (s.startsWith('@can:')) { const l = [...this.sim.canisters.keys()]; return l[Number(s.slice(5)) % l.length]; } return principal(s); }
  get now() { return this.sim.time; }
  eff(k) { return this.set[k] === null || this.set[k] === undefined ? DEF[k] : BigInt(this.set[k]); }
  has(p, perm) { const s = this.perms.get(p); return !!s && s.has(perm); }
  // ---- queries
  qraw(m, args, who = principal('@anon')) { return this.sim.query(this.core.id, who, m, encode(S.core[m], args)); }
  q(m, args, who) { const r = this.qraw(m, args, who); if (r.reply === undefined) return { __reject: r.msg }; return decode(r.reply)[0]; }
  must(m, args, who, props = ['N07']) { const r = this.q(m, args, who); if (r && r.__reject !== undefined) { this.fail(props, 'query_refused_' + m, `${m}${canon(args)} refused: ${r.__reject}`); return null; } return r; }

  // ---- actions
  exec(a) {
    this.trace.push(a); this.nAct++; this.sim.log('ACT ' + JSON.stringify(a));
    switch (a.t) {
      case 'u': return this.doUpdate(a);
      case 'a': this.sim.advance(BigInt(a.dt)); return this.background();
      case 'g': return this.doUpgrade(a);
      case 'c': return this.sweep(a);
      case 'pg': return this.pager(a);
      default: throw new Error('unknown action ' + a.t);
    }
  }
  background() { const n = this.sim.settle(3000); if (n >= 3000) this.fail(['N08', 'N15'], 'no_quiescence', 'the system does not come to rest'); }
  finish() { for (const k of ['own', 'log', 'appr', 'meta', 'set', 'perm']) this.sweep({ t: 'c', k, r: 7 }); this.finishPagers(); }

  // run one update call to completion; returns {rej:…} or {val:…}
  callUpdate(a, args) {
    const who = this.sub(a.w), sim = this.sim;
    const n = sim.submit(this.core.id, who, a.m, encode(S.core[a.m], args));
    const ev = sim.enabled().find(e => e.kind === 'ingress' && e.n === n);
    const before = sim.stats.injected.trap || 0, gb = sim.stats.injected.stable_grow_failure || 0;
    sim.step(ev, a.f || {});
    if (this.core.open.size) this.background();
    const r = sim.results.get(n); sim.results.delete(n);
    const injected = (sim.stats.injected.trap || 0) > before || (sim.stats.injected.stable_grow_failure || 0) > gb;
    if (r.status === 'reply') return { val: decode(r.reply)[0], injected };
    if (r.status === 'pending') return { pending: true, injected };
    return { rej: r.msg, injected };
  }
  doUpdate(a) {
    const args = this.sub(a.a), who = this.sub(a.w), h = HANDLERS[a.m];
    const before = this.blocks.length;
    const res = this.callUpdate(a, args);
    if (res.pending) { this.fail(['N15'], 'call_never_answered', a.m + ' was never answered'); return res; }
    this.note('op_' + a.m);
    const cx = { a, args, who, res, exp: [], touched: new Set(), tacc: new Set(), dup: 0, must: 0, props: OPPROPS[a.m] || ['N06'] };
    if (res.rej !== undefined) {
      const guard = NEED[a.m] && !this.has(who, NEED[a.m]);
      if (res.injected) this.note('rolled_back');
      else if (/permission/i.test(res.rej)) { if (!guard) this.fail(['N13'], 'permission_refused', `${a.m} by ${who} holding ${NEED[a.m]} refused: ${res.rej}`); }
      else if (guard) { /* refused, for whatever reason */ }
      else this.onTrap(cx);
      this.touch(cx);
    } else {
      if (NEED[a.m] && !this.has(who, NEED[a.m])) this.fail(['N13'], 'permission_missing_' + a.m, `${a.m} by ${who} without ${NEED[a.m]} answered ${canon(res.val)}`);
      h.call(this, cx);
    }
    this.post(cx, before);
    if (cx.exp.length) this.note('took_effect_' + a.m);
    this.absState(a.m, res.rej !== undefined ? 'rej' : cx.exp.length ? 'eff' : 'none');
    this.remember(a, args, cx);
    return res;
  }
  absState(op, out) {
    const b = n => n < 4 ? n : n < 8 ? 4 : n < 16 ? 8 : n < 64 ? 16 : 64, owners = new Set([...this.tokens.values()].map(t => t.owner)).size;
    let ta = 0, ca = 0; for (const m of this.tokAppr.values()) ta += m.size; for (const m of this.collAppr.values()) ca += m.size;
    this.cov.add(['st', op, out, b(this.tokens.size), b(this.burned.size), b(owners), b(ta), b(ca), Math.min(6, this.ledger.length)].join(':'));
  }
  remember(a, args, cx) { if (/icrc/.test(a.m)) { this.hist.push({ w: a.w, m: a.m, args, at: this.now, ok: cx.exp.length }); if (this.hist.length > 40) this.hist.shift(); } }
  touch(cx) { // tokens and accounts a call names, to be compared with the model afterwards
    const t = v => { if (v && v.token_id !== undefined) cx.touched.add(String(v.token_id)); };
    if (Array.isArray(cx.args[0])) for (const e of cx.args[0]) t(e); else t(cx.args[0]);
    if (cx.a.m === 'burn_nft') cx.touched.add(String(cx.args[0]));
    if (cx.a.m === 'mint') cx.touched.add(String(this.nextId));
    if (/collection_approvals|approve_collection/.test(cx.a.m)) for (const e of cx.args[0]) cx.tacc.add(akey({ owner: cx.who, subaccount: (e.approval_info || e).from_subaccount }));
  }
  onTrap(cx) { // a call trapped though nothing was injected: only acceptable where some part of it could not be done
    const msg = cx.res.rej;
    if (cx.a.m === 'mint') { this.mintTrap(cx); return; }
    if (/log|throttl/i.test(msg)) return; // treated as a refusal by the block log
    this.fail([...cx.props, 'N03'], 'unexpected_trap_' + cx.a.m, `${cx.a.m}${canon(cx.args)} trapped: ${msg}`);
  }

  // ---- block log model
  ledgerTry(key, commitTs) { // what the log's own throttle and duplicate check do with a transaction
    let pruned = 0;
    while (this.ledger.length && this.ledger[0].ts + this.ledgerWin + 100n * MS < this.now && pruned < 25) { this.ledger.shift(); pruned++; }
    if (!pruned && this.ledger.length >= 5) return 'throttle';
    const d = this.ledger.find(e => e.key === key);
    if (d) { this.lastDup = d; return 'dup'; }
    return 'ok';
  }
  ledgerPush(key, full) { this.ledger.push({ ts: this.now, key, full }); }
  rateAdmits(id) {
    const l = (this.rate.get(id) || []).filter(t => this.now - t < 60n * MS); this.rate.set(id, l);
    return l.length < 5;
  }
  timing(cx, t, bad) {
    if (t === null || t === undefined) return;
    t = BigInt(t); const d = this.eff('permitted_drift'), w = this.eff('tx_window');
    if (t > this.now + d) bad.push({ why: 'future', props: ['N10'], kind: 'CreatedInFuture' });
    else { const lim = this.now > w + d ? this.now - (w + d) : 0n; if (t < lim) bad.push({ why: 'tooold', props: ['N10'], kind: 'TooOld' }); }
  }
  // judge one element of a batch against the model and apply its effect; returns true if it took effect
  element(cx, i, res, e) {
    const isOk = !!res && res.Ok !== undefined, err = res && res.Err ? res.Err : null;
    const kind = err ? Object.keys(err)[0] : null, msg = err && err.GenericError ? err.GenericError.message : '';
    const rateErr = /rate limit/i.test(msg), logErr = /log transaction|insert transaction/i.test(msg) || kind === 'Duplicate';
    const at = `${cx.a.m}[${i}] ${canon(e.el)} by ${cx.who} at ${this.now}`;
    if (res === null || res === undefined) { this.fail(['N03'], 'missing_result', `${at} has no result`); return false; }
    if (e.rateId !== undefined) {
      const adm = this.rateAdmits(e.rateId);
      if (adm && rateErr) { this.fail(['N21', 'N03'], 'rate_limited_below_limit', `${at}: refused "${msg}" though only ${this.rate.get(e.rateId).length} elements were admitted in the last 60 ms`); return false; }
      if (!adm) {
        this.note('rate_limited');
        if (isOk) { this.fail(['N21'], 'admitted_over_limit', `${at}: admitted though five were admitted within 60 ms`); }
        else { if (!rateErr) this.rateAny = true; return false; }
      }
      if (adm) this.rate.get(e.rateId).push(this.now);
    } else if (rateErr) { this.fail(['N21', 'N03'], 'rate_limited_unexpectedly', `${at}: ${msg}`); return false; }
    if (e.bad.length) {
      this.note('refused_' + e.bad[0].why);
      if (isOk) { // took effect although it must not
        const props = [...new Set(e.bad.flatMap(b => b.props))];
        this.fail(props, 'accepted_' + e.bad[0].why + '_' + cx.a.m, `${at}: succeeded although ${e.bad.map(b => b.why).join(', ')}`);
      } else {
        if (!e.may && e.bad.length === 1 && e.bad[0].kind && e.bad[0].kind !== kind && !logErr) this.fail(e.bad[0].props, 'wrong_refusal_' + e.bad[0].why, `${at}: expected ${e.bad[0].kind}, got ${canon(err)}`);
        return false;
      }
    }
    if (!isOk && !logErr && e.may) { this.note('refused_may'); return false; }
    if (!isOk && kind === 'CreatedInFuture' || kind === 'TooOld') { if (!e.bad.length) { this.fail(['N10', 'N03', ...(cx.props)], 'refused_in_window', `${at}: ${kind} although inside the window`); return false; } }
    const l = this.ledgerTry(e.key);
    if (l === 'throttle' && !isOk) { this.note('throttled'); cx.props = [...new Set([...cx.props, 'N06'])]; return false; } // an effect without its block
    if (l === 'dup' && !e.bad.length) {
      cx.dup++; this.note('duplicate');
      if (this.lastDup.full !== e.full) {
        if (isOk || kind === 'Duplicate' || logErr) this.fail(['N09', 'N03'], 'dedupe_subaccount_blind', `${at}: treated as a duplicate of a different request ${this.lastDup.full}`);
      }
      return false;
    }
    if (!isOk) { this.fail(e.refProps || cx.props, 'refused_' + cx.a.m, `${at}: refused with ${canon(err)}`); return false; }
    const cat = e.el.created_at_time !== undefined ? e.el.created_at_time : e.el.approval_info ? e.el.approval_info.created_at_time : null;
    if (cat !== null && cat !== undefined) { // the duplicate check of the log knows only the window given at init
      const w = this.eff('tx_window'), first = this.execs.get(e.full);
      if (first !== undefined && w > this.ledgerWin && this.now <= first + w) this.fail(['N09'], 'dedupe_window_init_only', `${at}: executed again ${this.now - first} ns after its first execution, inside the transaction window of ${w} ns`);
      else this.execs.set(e.full, this.now);
    }
    this.ledgerPush(e.key, e.full);
    cx.exp.push(e.blk); cx.must++; this.note('eff_' + cx.a.m);
    e.effect();
    return true;
  }
  move(id, from, to) {
    this.tokens.get(id).owner = to; this.tokAppr.delete(id); this.accounts.add(to);
  }
  ownsAny(k) { for (const t of this.tokens.values()) if (t.owner === k) return true; return false; }
  ownsAnyP(p) { for (const t of this.tokens.values()) if (keyOwner(t.owner) === p) return true; return false; }
  active(ap) { return ap && (ap.exp === null || BigInt(ap.exp) > this.now); }

  // ---- comparison of the canister with the model after a call
  post(cx, before) {
    const P = cx.props;
    this.readNew(cx, before);
    const ids = [...cx.touched].slice(0, 90);
    if (ids.length && this.eff('max_query_batch_size') > 0n) {
      const owners = this.ownersOf(ids);
      if (owners) ids.forEach((id, i) => {
        const act = akey(owners[i]), m = this.tokens.get(id), exp = m ? m.owner : null;
        if (act !== exp) {
          const props = new Set([...P, 'N03', 'N01', 'N02']); if (cx.dup) props.add('N09'); if (this.burned.has(id)) props.add('N12'); if (cx.a.f && cx.res.rej) props.add('N14');
          this.fail([...props], 'owner_differs_' + cx.a.m, `after ${cx.a.m}${canon(cx.args)} by ${cx.who} (answer ${canon(cx.res)}) token ${id} is owned by ${act}, expected ${exp}`);
          if (act === null) { this.tokens.delete(id); } else if (m) m.owner = act; else this.tokens.set(id, { owner: act, meta: null });
        }
      });
      if (/approv|transfer|burn|mint/.test(cx.a.m)) for (const id of ids) this.checkTokAppr(id, cx);
    }
    for (const k of cx.tacc) this.checkCollAppr(k, cx);
    if (cx.meta) for (const id of cx.meta) this.checkMeta([id], [...P, 'N23']);
  }
  ownersOf(ids) {
    const out = [], b = Number(this.eff('max_query_batch_size') < 50n ? this.eff('max_query_batch_size') : 50n);
    for (let i = 0; i < ids.length; i += b) { const r = this.must('icrc7_owner_of', [ids.slice(i, i + b)], undefined, ['N01']); if (!r) return null; out.push(...r); }
    return out;
  }
  apprLive(map, recorded) { return [...map.values()].filter(a => this.active(a)); }
  apprCheck(list, model, what, props, id) {
    const seen = new Set();
    for (const x of list) {
      const ai = x.approval_info || x, k = akey(ai.spender);
      if (seen.has(k)) this.fail(['N05'], 'approval_listed_twice', `${what}: ${k} listed twice`);
      seen.add(k);
      const m = model && model.get(k);
      if (!m) { this.fail([...new Set(['N05', 'N04', ...props])], 'approval_not_in_force', `${what} lists ${canon(ai)}, which is not in force`); continue; }
      const got = { from: U.sub(ai.from_subaccount), memo: memoHex(ai.memo), exp: ai.expires_at === null ? null : ai.expires_at.toString() };
      if (canon(got) !== canon({ from: m.from, memo: m.memo, exp: m.exp })) this.fail(['N05', ...(got.exp !== m.exp ? ['N04'] : [])], 'approval_fields', `${what} lists ${canon(ai)}, granted as ${canon(m)}`);
    }
    if (model) for (const [k, m] of model) if (this.active(m) && !seen.has(k)) this.fail([...new Set(['N05', 'N04', ...props])], 'approval_missing', `${what} does not list the approval ${canon(m)} for ${k}`);
    if (model) for (const [k, m] of [...model]) if (!this.active(m) && !seen.has(k)) model.delete(k); // dropped after it expired
    const max = this.set.max_approvals === null ? 10n : BigInt(this.set.max_approvals);
    if (BigInt(seen.size) > max) this.fail(['N05', 'N24'], 'too_many_approvals', `${what}: ${seen.size} approvals, limit ${max}`);
  }
  checkTokAppr(id, cx) {
    const r = this.must('icrc37_get_token_approvals', [id, null, 10000], undefined, ['N05']); if (!r) return;
    this.apprCheck(r, this.tokAppr.get(id) || (r.length ? new Map() : null), `icrc37_get_token_approvals(${id})`, cx ? [...cx.props, ...(cx.dup ? ['N09'] : []), ...(this.burned.has(id) ? ['N12'] : [])] : [], id);
  }
  checkCollAppr(k, cx) {
    const r = this.must('icrc37_get_collection_approvals', [acct(k), null, 10000], undefined, ['N05']); if (!r) return;
    let m = this.collAppr.get(k);
    if (m && m.size && (m.lax || !this.ownsAny(k)) && r.length === 0) { this.collAppr.delete(k); m = null; } // an account without tokens: its approvals may end
    this.apprCheck(r, m || (r.length ? new Map() : null), `icrc37_get_collection_approvals(${k})`, cx ? [...cx.props, ...(cx.dup ? ['N09'] : [])] : []);
  }
  checkMeta(ids, props = ['N23']) {
    const b = Number(this.eff('max_query_batch_size') < 50n ? this.eff('max_query_batch_size') : 50n); if (!b) return;
    for (let i = 0; i < ids.length; i += b) {
      const part = ids.slice(i, i + b), r = this.must('icrc7_token_metadata', [part], undefined, props); if (!r) return;
      part.forEach((id, j) => {
        const m = this.tokens.get(id);
        if (!m) { if (r[j] !== null) this.fail([...new Set(['N01', 'N12', ...props])], 'metadata_of_missing_token', `token ${id} does not exist but has metadata ${canon(r[j])}`); return; }
        if (r[j] === null) { this.fail([...new Set(['N23', ...props])], 'metadata_missing', `token ${id} has no metadata`); return; }
        if (m.meta === null) return;
        const got = canon(cmeta(U.fix(r[j])));
        if (got !== m.meta) { this.fail([...new Set(['N23', ...props])], 'metadata_differs', `token ${id} has metadata ${got}, expected ${m.meta}`); }
      });
    }
  }
  // ---- blocks
  getBlocks(start, length, props = ['N07']) { // ledger and archive parts taken together -> Map id -> canonical block
    const r = this.must('icrc3_get_blocks', [[{ start, length }]], undefined, props); if (!r) return null;
    const m = new Map();
    const put = (b, w) => { const id = b.id.toString(); if (m.has(id)) this.fail(['N07', 'N08'], 'block_served_twice', `icrc3_get_blocks({start:${start},length:${length}}) serves block ${id} twice (${w})`); m.set(id, U.fix(b.block)); };
    for (const b of r.blocks) put(b, 'ledger');
    for (const ab of r.archived_blocks) {
      const rr = this.sim.query(ab.callback.canister, principal('@anon'), ab.callback.method, encode(S.archive.icrc3_get_blocks, [ab.args.map(x => ({ start: x.start, length: x.length }))]));
      if (rr.reply === undefined) { this.fail(['N07', 'N08'], 'archive_refused', `archive ${ab.callback.canister} refused ${canon(ab.args)}: ${rr.msg}`); continue; }
      for (const b of decode(rr.reply)[0].blocks) put(b, 'archive');
      this.note('archived_reads');
    }
    m.len = Number(r.log_length);
    return m;
  }
  multiRange(ranges, n) { // ranges of one request, which may overlap: every block of their union, with its content
    const r = this.must('icrc3_get_blocks', [ranges.map(([start, length]) => ({ start, length }))]); if (!r) return; const got = new Map(), d = canon(ranges);
    const put = b => { const id = Number(b.id); got.set(id, 1); if (this.blocks[id] && canon(b.block) !== canon(this.blocks[id])) this.fail(['N07', 'N08'], 'block_changed', `icrc3_get_blocks(${d}): block ${id} was ${canon(this.blocks[id])}, now ${canon(b.block)}`); };
    r.blocks.forEach(put);
    for (const ab of r.archived_blocks) { const rr = this.sim.query(ab.callback.canister, principal('@anon'), ab.callback.method, encode(S.archive.icrc3_get_blocks, [ab.args.map(x => ({ start: x.start, length: x.length }))])); if (rr.reply === undefined) { if (/not running|stopped/.test(rr.msg)) return; this.fail(['N07', 'N08'], 'archive_refused', `archive ${ab.callback.canister} refused ${canon(ab.args)}: ${rr.msg}`); continue; } decode(rr.reply)[0].blocks.forEach(put); }
    const want = new Set(); for (const [s, l] of ranges) for (let i = s; i < Math.min(n, s + l); i++) want.add(i);
    for (const i of want) if (!got.has(i)) this.fail(['N07', 'N08'], 'ranges', `icrc3_get_blocks(${d}) leaves out block ${i} of ${n}`);
    for (const i of got.keys()) if (!want.has(i)) this.fail(['N07', 'N08'], 'ranges', `icrc3_get_blocks(${d}) serves block ${i}, which is in none of the ranges`);
    this.note('multi_ranges');
  }
  readNew(cx, before) {
    const m = this.getBlocks(before, 200, ['N07', ...cx.props]); if (!m) return;
    const news = [...m.keys()].map(Number).sort((a, b) => a - b);
    for (let i = 0; i < news.length; i++) if (news[i] !== before + i) this.fail(['N07'], 'block_ids_not_dense', `expected block ${before + i}, got ${news[i]}`);
    if (m.len !== before + news.length) this.fail(['N07'], 'log_length', `log_length ${m.len}, but the last block is ${before + news.length - 1}`);
    const opP = [...new Set(['N06', ...cx.props, ...(cx.dup ? ['N09'] : []), ...(cx.a.f ? ['N14'] : [])])];
    if (news.length !== cx.exp.length) this.fail(opP, 'block_count_' + cx.a.m, `${cx.a.m}${canon(cx.args)} by ${cx.who} (answer ${canon(cx.res)}) appended ${news.length} blocks, expected ${cx.exp.length}: ${canon(cx.exp)} got ${news.map(n => canon(m.get(String(n)))).join(' ; ')}`);
    news.forEach((n, i) => { const b = m.get(String(n)); this.checkChain(n, b); this.blocks.push(b); if (cx.exp[i]) this.checkBlock(n, b, cx.exp[i], cx); });
  }
  checkChain(n, b) {
    const o = Object.fromEntries(b.Map || []), ph = o.phash ? o.phash.Blob : null, th = o.thash ? o.thash.Blob : null;
    if (ph !== this.phash && !(n === 0 && ph === null)) this.fail(['N07'], 'hash_chain', `block ${n} has phash ${ph}, expected ${this.phash}`);
    this.phash = th;
    const ts = o.timestamp ? BigInt(o.timestamp.Nat) : null;
    if (ts !== this.now) this.fail(['N07', 'N06'], 'block_timestamp', `block ${n} has timestamp ${ts}, appended at ${this.now}`);
  }
  checkBlock(n, b, e, cx) {
    const o = Object.fromEntries(b.Map), tx = Object.fromEntries((o.tx || { Map: [] }).Map);
    const got = { btype: o.btype && o.btype.Text, tid: tx.tid ? tx.tid.Nat : null, from: tx.from ? tx.from.Text : null, to: tx.to ? tx.to.Text : null, spender: tx.spender ? tx.spender.Text : null, memo: tx.memo ? tx.memo.Blob : null, exp: tx.exp ? tx.exp.Nat : null };
    const want = { btype: e.btype, tid: e.tid === undefined ? null : e.tid, from: e.from || null, to: e.to || null, spender: e.spender || null, memo: e.memo === undefined ? null : e.memo, exp: e.exp === undefined ? null : e.exp };
    if (canon(got) !== canon(want)) this.fail([...new Set(['N06', ...(want.btype === '7update_token' ? ['N23'] : [])])], 'block_content_' + e.btype, `block ${n} records ${canon(got)}, the operation was ${canon(want)}`);
    if (e.meta !== undefined) {
      const g = tx.meta ? canon(U.cval(tx.meta)) : null, w = canon(U.cval({ Map: e.meta }));
      if (g !== w) this.fail(['N06', 'N23'], 'block_meta', `block ${n} records metadata ${g}, expected ${w}`);
    }
  }

  // ---- upgrades
  doUpgrade(a) {
    const f = a.f || {}, sim = this.sim, c = this.core;
    if (c.open.size) this.background();
    const snap = this.cfg.snapshot ? this.snapshot() : null;
    const ver = { major: 1, minor: 0, patch: this.nAct % 1000 }, hash = 'c' + this.nAct;
    const arg = f.arg === 'init' ? encode([S.CoreArgs], [{ Init: this.sub(initArgs({})) }]) : f.arg === 'garbage' ? Buffer.from('4449444c0000', 'hex') : encode([S.CoreArgs], [{ Upgrade: { version: ver, commit_hash: hash } }]);
    c.status = 'stopped';
    const r = sim.upgrade(c, wasmBytes('core_nft'), arg, principal('@admin'), { pre: f.pre, post: f.post, grow: f.grow });
    c.status = 'running';
    const faulty = f.pre !== undefined || f.post !== undefined || f.grow || f.arg;
    if (!r.ok && !faulty) this.fail(['N14'], /expected Int value/.test(r.err) && this.intLogged ? 'upgrade_failed_int_metadata' : 'upgrade_failed', `upgrade failed in ${r.phase}_upgrade: ${r.err}`);
    if (r.ok && f.arg) this.fail(['N14'], 'upgrade_accepted_bad_arg', 'upgrade with ' + f.arg + ' argument succeeded');
    this.note(r.ok ? 'upgrade_ok' : 'upgrade_failed_' + r.phase); if (r.ok) this.upgradesOk++;
    if (snap) {
      const after = this.snapshot();
      for (const k of Object.keys(snap)) if (snap[k] !== after[k]) this.fail(['N14', ...(SNAPPROPS[k] || [])], 'upgrade_changed_' + k, `${r.ok ? 'a successful' : 'a failed'} upgrade changed ${k}: before ${snap[k].slice(0, 600)} after ${after[k].slice(0, 600)}`);
    }
    this.background();
    const cx = { a: { m: 'upgrade', f: a.f }, args: [], who: '', res: r, exp: [], touched: new Set(), tacc: new Set(), dup: 0, props: ['N14'] };
    if (!c.open.size) this.readNew(cx, this.blocks.length);
    if (a.sweep) for (const k of ['own', 'appr', 'meta']) this.sweep({ t: 'c', k, r: 3 }, ['N14']);
  }
  snapshot() { // every query's answer, canonical
    const s = {}, admin = this.permHolder('ManageAuthorities'), rd = this.permHolder('ReadUploads');
    const ids = [...this.tokens.keys(), ...[...this.burned].slice(0, 3), this.nextId.toString()], b = Number(this.eff('max_query_batch_size'));
    const chunk = (m, l) => { const o = []; for (let i = 0; i < l.length && b > 0; i += b) o.push(this.q(m, [l.slice(i, i + b)])); return canon(o); };
    s.tokens = canon(this.q('icrc7_tokens', [null, null])); s.owners = chunk('icrc7_owner_of', ids); s.metadata = chunk('icrc7_token_metadata', ids);
    const ac = [...this.accounts].sort();
    s.balances = chunk('icrc7_balance_of', ac.map(acct)); s.tokens_of = canon(ac.map(k => this.q('icrc7_tokens_of', [acct(k), null, null])));
    s.token_approvals = canon(ids.map(i => this.q('icrc37_get_token_approvals', [i, null, 1000]))); s.collection_approvals = canon(ac.map(k => this.q('icrc37_get_collection_approvals', [acct(k), null, 1000])));
    s.settings = canon([this.q('icrc7_collection_metadata', []), ...SETTINGS.map(k => this.q('icrc7_' + k, [])), this.q('icrc7_total_supply', []), this.q('icrc37_max_approvals_per_token_or_collection', []), this.q('icrc37_max_revoke_approvals', [])]);
    if (admin) { const ps = [...new Set([...ac.map(keyOwner), principal('@admin'), ...this.perms.keys()])].sort(); s.permissions = canon(ps.map(p => { const r = this.q('get_user_permissions', [{ principal: p }], admin); return r.Ok ? r.Ok.map(x => Object.keys(x)[0]).sort() : r; })); s.storage_canisters = canon([...(this.q('get_all_storage_subcanisters', [], admin) || [])].sort ? [...this.q('get_all_storage_subcanisters', [], admin)].sort() : null); }
    if (rd) { const u = this.q('get_all_uploads', [null, null], rd); s.uploads = canon(u.Ok ? [...u.Ok].sort((x, y) => x[0] < y[0] ? -1 : 1) : u); }
    const m = this.getBlocks(0, this.blocks.length + 50, ['N14', 'N07']); s.log = m ? canon([...m].sort((x, y) => x[0] - y[0])) + m.len : ''; s.archives = canon(this.q('icrc3_get_archives', [null])); s.block_types = canon(this.q('icrc3_supported_block_types', [null])); s.icrc3 = canon(this.q('icrc3_get_properties', [null])); s.standards = canon(this.q('icrc10_supported_standards', []));
    for (const p of this.httpPaths || []) { const r = this.q('http_request', [{ method: 'GET', url: p, headers: [], body: '', certificate_version: 2 }]); s['http ' + p] = canon(r.__reject !== undefined ? r : { status: r.status_code, loc: (r.headers || []).filter(h => /location/i.test(h[0])) }); }
    return s;
  }
  permHolder(p) { for (const [k, s] of this.perms) if (s.has(p)) return k; return null; }

  // ---- sweeps
  sweep(a, extra = []) {
    const rng = new (require('./prng').Rng)('sweep', a.r, a.k);
    switch (a.k) {
      case 'own': return this.sweepOwn(rng, extra);
      case 'log': return this.sweepLog(rng);
      case 'appr': return this.sweepAppr(rng, extra);
      case 'meta': return this.checkMeta([...this.tokens.keys(), ...[...this.burned].slice(0, 5), String(this.nextId), String(this.nextId + 3n), BIGIDS[rng.int(3)]], ['N23', ...extra]);
      case 'set': return this.sweepSettings(rng);
      case 'perm': return this.sweepPerms(rng);
    }
  }
  pageAll(fn, props, what) { // enumerate a listing to its end
    const out = []; let prev = null;
    for (let i = 0; i < 5000; i++) {
      const r = fn(prev); if (!r) return null; if (r.__reject !== undefined) { this.fail(props, 'listing_refused', `${what}(prev=${prev}) refused: ${r.__reject}`); return null; }
      if (!r.length) return out;
      for (const x of r) out.push(x.toString());
      prev = r[r.length - 1].toString();
    }
    this.fail(props, 'listing_endless', what + ' does not end'); return null;
  }
  sweepOwn(rng, extra) {
    const P = [...new Set(['N01', ...extra])], asc = l => l.map(BigInt).sort((a, b) => a < b ? -1 : a > b ? 1 : 0).map(String);
    if (this.eff('max_take_value') === 0n || this.eff('default_take_value') === 0n) return;
    const mt = this.eff('max_take_value'), take = rng.chance(0.5) ? null : Number(1n + BigInt(rng.int(Number(mt > 30n ? 30n : mt))));
    const all = this.pageAll(prev => this.q('icrc7_tokens', [prev, take]), [...P, 'N25'], 'icrc7_tokens'); if (!all) return;
    const want = asc([...this.tokens.keys()]);
    if (canon(all) !== canon(want)) this.fail([...P, 'N25', 'N12'], 'tokens_listing', `icrc7_tokens lists ${canon(all)}, existing tokens are ${canon(want)}`);
    const supply = this.must('icrc7_total_supply', [], undefined, P);
    if (supply !== null && supply !== BigInt(this.tokens.size)) this.fail([...P, 'N11', 'N12'], 'total_supply', `total supply ${supply}, minted minus burned is ${this.tokens.size}`);
    const cm = this.must('icrc7_collection_metadata', [], undefined, P); const ts = cm && cm.find(e => e[0] === 'icrc7:total_supply');
    if (ts && BigInt(ts[1].Nat) !== BigInt(this.tokens.size)) this.fail([...P, 'N24'], 'total_supply', 'icrc7:total_supply ' + ts[1].Nat);
    const by = new Map([...this.accounts].map(k => [k, []])); for (const [id, t] of this.tokens) by.get(t.owner) ? by.get(t.owner).push(id) : by.set(t.owner, [id]);
    const keys = [...by.keys()], b = Number(this.eff('max_query_batch_size') < 40n ? this.eff('max_query_batch_size') : 40n);
    if (b > 0) for (let i = 0; i < keys.length; i += b) {
      const part = keys.slice(i, i + b), r = this.must('icrc7_balance_of', [part.map(acct)], undefined, P); if (!r) break;
      part.forEach((k, j) => { if (r[j].toString() !== String(by.get(k).length)) this.fail([...P, 'N12', 'N11'], 'balance', `balance of ${k} is ${r[j]}, it owns ${canon(by.get(k))}`); });
    }
    for (const k of keys) {
      const l = this.pageAll(prev => this.q('icrc7_tokens_of', [acct(k), prev, take]), [...P, 'N25'], 'icrc7_tokens_of'); if (!l) continue;
      if (canon(l) !== canon(asc(by.get(k)))) this.fail([...P, 'N25', 'N12'], 'tokens_of_listing', `icrc7_tokens_of(${k}) lists ${canon(l)}, it owns ${canon(asc(by.get(k)))}`);
    }
    const ids = [...want, ...[...this.burned].slice(-10), ...(rng.chance(0.2) ? BIGIDS : [])], ow = this.ownersOf(ids);
    if (ow) ids.forEach((id, i) => { const e = this.tokens.get(id); if (akey(ow[i]) !== (e ? e.owner : null)) this.fail([...P, 'N02', ...(this.burned.has(id) ? ['N12'] : [])], 'owner_of', `token ${id} owned by ${akey(ow[i])}, expected ${e ? e.owner : null}`); });
    this.cov.add('own:' + this.tokens.size + ':' + keys.filter(k => by.get(k).length).length + ':' + Math.min(9, this.burned.size));
  }
  sweepLog(rng) {
    const n = this.blocks.length;
    const ranges = [[0, n + 10]];
    for (let i = 0; i < 3; i++) { const s = rng.int(n + 3); ranges.push([s, rng.pick([0, 1, 2, 5, n, n + 100, rng.int(n + 2)])]); }
    if (rng.int(4) === 0) { const huge = ['4294967296', '18446744073709551615', '18446744073709551616', '340282366920938463463374607431768211456']; ranges.push([rng.int(n + 2), rng.pick(huge)], [rng.pick(huge), rng.pick([1, ...huge])]); }
    for (const [s, l] of ranges) {
      const m = this.getBlocks(s, l); if (!m) continue;
      if (m.len !== n) this.fail(['N07', 'N08', 'N06'], 'log_length', `log_length ${m.len}, ${n} blocks were logged`);
      const want = []; for (let i = Number(s); i < Math.min(n, Number(s) + Number(l)); i++) want.push(String(i));
      const got = [...m.keys()].sort((a, b) => a - b);
      if (canon(got) !== canon(want)) { this.fail(['N07', 'N08'], 'range', `icrc3_get_blocks({start:${s},length:${l}}) serves ids ${compress(got)}, existing are ${compress(want)}`); }
      for (const [id, b] of m) if (this.blocks[id] && canon(b) !== canon(this.blocks[id])) this.fail(['N07', 'N08'], 'block_changed', `block ${id} was ${canon(this.blocks[id])}, now ${canon(b)}`);
    }
    if (n > 2) { // several disjoint ranges in one request
      const k = 1 + rng.int(n - 2), r = this.must('icrc3_get_blocks', [[{ start: 0, length: k }, { start: k + 1, length: n }]]);
      if (r) { let cnt = r.blocks.length; const ids = new Set(r.blocks.map(b => b.id.toString())); for (const ab of r.archived_blocks) for (const x of ab.args) for (let i = 0; i < Number(x.length); i++) { cnt++; ids.add(String(BigInt(x.start) + BigInt(i))); } if (cnt !== n - 1 || ids.size !== cnt) this.fail(['N07'], 'ranges', `two disjoint ranges around block ${k} of ${n} return ${cnt} blocks (${ids.size} distinct)`); }
    }
    if (n) this.multiRange(Array.from({ length: 2 + rng.int(3) }, () => { const s = rng.int(n + 1); return [s, rng.pick([1, 2, n, 1 + rng.int(n)])]; }), n);
    this.replay();
    this.cov.add('log:' + n);
  }
  replay() { // N06: the log alone determines owners, existing tokens and updated metadata
    const own = new Map(), meta = new Map();
    for (const b of this.blocks) {
      const o = Object.fromEntries(b.Map), tx = Object.fromEntries(o.tx.Map), t = o.btype.Text, id = tx.tid && tx.tid.Nat;
      if (t === '7mint' || t === '7xfer' || t === '37xfer') own.set(id, tx.to.Text);
      if (t === '7burn') { own.delete(id); meta.delete(id); }
      if (t === '7update_token') { const mm = Object.fromEntries(tx.meta.Map); meta.set(id, canon(U.cval(mm['icrc7:new_metadata']).Map)); }
    }
    const a = canon([...own].sort((x, y) => x[0] - y[0])), w = canon([...this.tokens].map(([id, t]) => [id, keyOwner(t.owner)]).sort((x, y) => x[0] - y[0]));
    if (a !== w) this.fail(['N06'], 'log_replay', `replaying the log gives owners ${a}, the ledger has ${w}`);
    for (const [id, m] of meta) if (this.tokens.has(id) && this.tokens.get(id).meta !== null && this.tokens.get(id).meta !== m) this.fail(['N06', 'N23'], 'log_replay_meta', `replaying the log gives token ${id} metadata ${m}, the ledger has ${this.tokens.get(id).meta}`);
  }
  sweepAppr(rng, extra) {
    const ids = [...this.tokens.keys(), ...[...this.burned].slice(-5), ...(rng.chance(0.2) ? BIGIDS : [])];
    for (const id of ids) this.apprPage(rng, prev => ['icrc37_get_token_approvals', [id, prev && { token_id: id, approval_info: prev }, null]], this.tokAppr.get(id), `icrc37_get_token_approvals(${id})`, [...extra, ...(this.burned.has(id) ? ['N12'] : [])]);
    for (const k of this.accounts) {
      let m = this.collAppr.get(k);
      if (m && m.size && !this.ownsAny(k)) { const r = this.q('icrc37_get_collection_approvals', [acct(k), null, 10000]); if (Array.isArray(r) && !r.length) { this.collAppr.delete(k); m = null; } }
      this.apprPage(rng, prev => ['icrc37_get_collection_approvals', [acct(k), prev && { approval_info: prev }, null]], m, `icrc37_get_collection_approvals(${k})`, extra);
    }
    this.isApproved(rng, 40, extra);
  }
  apprPage(rng, mk, model, what, extra) {
    const take = rng.pick([1, 1, 2, 2, 3, 3, 7, 10000, 10000, 4294967296n, 18446744073709551616n]), all = []; let prev = null;
    if (rng.chance(0.05)) { const [m, args] = mk(null); args[2] = 0; const r = this.must(m, args, undefined, ['N05']); if (r && r.length) this.fail(['N05'], 'approval_take', `${what} returns ${r.length} entries, take 0`); }
    for (let i = 0; ; i++) {
      if (i > 200) { this.fail(['N05'], 'approval_paging_endless', what); return; }
      const [m, args] = mk(prev); args[2] = take; const r = this.must(m, args, undefined, ['N05']); if (!r) return;
      if (r.length > take) this.fail(['N05'], 'approval_take', `${what} returns ${r.length} entries, take ${take}`);
      if (!r.length) break;
      all.push(...r); const ai = r[r.length - 1].approval_info; prev = { memo: ai.memo, from_subaccount: ai.from_subaccount, created_at_time: ai.created_at_time, expires_at: ai.expires_at, spender: ai.spender };
      if (r.length < take) break;
    }
    this.apprCheck(all, model || (all.length ? new Map() : null), what + ` paged by ${take}`, extra);
  }
  isApproved(rng, n, extra = []) {
    const ids = [...this.tokens.keys(), ...[...this.burned].slice(-3)]; if (!ids.length) return; if (rng.chance(0.15)) ids.push(rng.pick(BIGIDS));
    const sp = [...this.accounts], args = [], exp = [];
    for (let i = 0; i < n; i++) {
      const id = rng.pick(ids); let s = rng.pick(sp);
      const tm = this.tokAppr.get(id), t = this.tokens.get(id), cm = t && this.collAppr.get(t.owner);
      const g = this.gone.filter(x => x.id === id || (t && x.acc === t.owner));
      if (rng.chance(0.6)) { const c = [...(tm ? tm.keys() : []), ...(cm ? cm.keys() : []), ...g.map(x => x.sp)]; if (c.length) s = rng.pick(c); }
      const fs = rng.chance(0.5) ? null : acct(rng.pick(sp)).subaccount;
      args.push({ token_id: id, from_subaccount: fs, spender: acct(s) });
      const owner = t && t.owner === akey({ owner: keyOwner(s), subaccount: fs });
      const ta = tm && this.active(tm.get(s)), ca = cm && this.active(cm.get(s));
      exp.push({ must: !!(ta || ca || (t && t.owner === s && U.sub(fs) === s.split('/')[1])), mustNot: !t || (!ta && !ca && keyOwner(t.owner) !== keyOwner(s)), unsure: owner });
    }
    for (let i = 0; i < args.length; i += 20) {
      const r = this.must('icrc37_is_approved', [args.slice(i, i + 20)], undefined, ['N05']); if (!r) return;
      r.forEach((v, j) => {
        const e = exp[i + j], a = args[i + j]; this.cov.add('isappr:' + v);
        if (e.must && !v) this.fail(['N05', ...extra], 'is_approved_false', `icrc37_is_approved(${canon(a)}) is false although the spender holds an active approval`);
        if (e.mustNot && v) this.fail(['N05', ...(this.burned.has(a.token_id) ? ['N12'] : []), ...extra], 'is_approved_true', `icrc37_is_approved(${canon(a)}) is true although the account neither owns the token nor holds an active approval`);
      });
    }
  }
  sweepSettings(rng) {
    const nat = new Set(['supply_cap', 'tx_window', 'default_take_value', 'permitted_drift', 'max_take_value', 'max_update_batch_size', 'max_query_batch_size', 'max_memo_size']);
    const norm = (k, v) => v === null || v === undefined ? null : nat.has(k) ? BigInt(v).toString() : v;
    const cm = this.must('icrc7_collection_metadata', [], undefined, ['N24']);
    const cmo = cm ? Object.fromEntries(cm) : null;
    for (const k of SETTINGS) {
      const got = this.q('icrc7_' + k, []), w = norm(k, this.set[k]);
      if (got && got.__reject !== undefined) { this.fail(['N24'], 'setting_refused', `icrc7_${k} refused: ${got.__reject}`); continue; }
      if (canon(norm(k, got)) !== canon(w)) this.fail(['N24', ...(k === 'tx_window' || k === 'permitted_drift' ? ['N10'] : []), ...(k === 'supply_cap' ? ['N11'] : [])], 'setting_' + k, `icrc7_${k} is ${canon(got)}, set to ${canon(w)}`);
      if (cmo) {
        const e = cmo['icrc7:' + k], v = e === undefined ? null : e[Object.keys(e)[0]].toString(), ws = w === null ? null : String(w);
        if (v !== ws) this.fail(['N24'], 'collection_metadata_' + k, `icrc7_collection_metadata has ${k}=${v}, set to ${ws}`);
      }
    }
    const ma = this.q('icrc37_max_approvals_per_token_or_collection', []), mr = this.q('icrc37_max_revoke_approvals', []);
    if (canon(ma) !== canon(this.set.max_approvals === null ? null : BigInt(this.set.max_approvals)) || canon(mr) !== canon(this.set.max_revoke === null ? null : BigInt(this.set.max_revoke))) this.fail(['N24'], 'setting_approvals', `approval limits ${canon([ma, mr])}, set to ${canon([this.set.max_approvals, this.set.max_revoke])}`);
    // limits
    const mq = this.eff('max_query_batch_size'), mt = this.eff('max_take_value'), dt = this.eff('default_take_value');
    if (mq < 3000n) {
      const n = Number(mq) + 1, ids = Array.from({ length: n }, (_, i) => i + 1), ac = [...this.accounts].map(acct), al = Array.from({ length: n }, (_, i) => ac[i % ac.length]);
      for (const [m, l] of [['icrc7_owner_of', ids], ['icrc7_token_metadata', ids], ['icrc7_balance_of', al]]) {
        if (this.qraw(m, [l]).reply !== undefined) this.fail(['N24'], 'query_batch_limit', `${m} answered ${n} ids, max_query_batch_size is ${mq}`);
        const r = this.qraw(m, [l.slice(0, n - 1)]); if (r.reply === undefined) this.fail(['N24'], 'query_batch_refused', `${m} refused ${n - 1} ids, max_query_batch_size is ${mq}: ${r.msg}`);
        else { const v = decode(r.reply)[0]; if (v.length !== n - 1) this.fail(['N24', 'N01'], 'query_batch_length', `${m} answered ${v.length} of ${n - 1} entries`); }
      }
    }
    else {
      const n = 140, ac = [...this.accounts].map(acct);
      for (const [m, l] of [['icrc7_owner_of', Array.from({ length: n }, (_, i) => i + 1)], ['icrc7_token_metadata', Array.from({ length: n }, (_, i) => i + 1)], ['icrc7_balance_of', Array.from({ length: n }, (_, i) => ac[i % ac.length])]]) {
        const r = this.qraw(m, [l]); if (r.reply === undefined) this.fail(['N24'], 'query_batch_refused', `${m} refused ${n} ids, max_query_batch_size is ${mq}: ${r.msg}`);
      }
    }
    const k = rng.pick([...this.accounts]);
    for (const [m, f] of [['icrc7_tokens', t => [null, t]], ['icrc7_tokens_of', t => [acct(k), null, t]]]) {
      if (this.qraw(m, f((mt + 1n).toString())).reply !== undefined) this.fail(['N24', 'N25'], 'take_limit', `${m} answered take ${mt + 1n}, max_take_value is ${mt}`);
      const r = this.qraw(m, f(mt.toString())); if (r.reply === undefined) this.fail(['N24', 'N25'], 'take_refused', `${m} refused take ${mt}: ${r.msg}`);
      const total = m === 'icrc7_tokens' ? this.tokens.size : [...this.tokens.values()].filter(t => t.owner === k).length;
      if (r.reply !== undefined) { const l = decode(r.reply)[0].length, w = mt < BigInt(total) ? Number(mt) : total; if (l !== w) this.fail(['N24', 'N25'], 'max_take', `${m} with take ${mt} returns ${l} of ${total} ids`); }
      const d = this.qraw(m, f(null)); if (d.reply === undefined) this.fail(['N24', 'N25'], 'take_refused', `${m} refused without take: ${d.msg}`);
      else { const l = decode(d.reply)[0].length, w = dt < BigInt(total) ? Number(dt) : total; if (l !== w) this.fail(['N24', 'N25'], 'default_take', `${m} without take returns ${l} of ${total} ids, default_take_value is ${dt}`); }
    }
    this.cov.add('set:' + SETTINGS.map(x => this.set[x] === null ? 0 : 1).join(''));
  }
  sweepPerms(rng) {
    const ps = [...new Set([...this.perms.keys(), principal('@anon'), ...[...this.accounts].map(keyOwner)])];
    const who = [...ps].sort(() => 0).slice(0, 12);
    const holder = this.permHolder('ManageAuthorities');
    for (const p of who) {
      const callers = holder ? [holder, rng.pick(ps)] : [rng.pick(ps)];
      for (const c of callers) {
        const ok = this.has(c, 'ManageAuthorities'), r = this.qraw('get_user_permissions', [{ principal: p }], c);
        if (ok !== (r.reply !== undefined)) { this.fail(['N13'], 'permission_query', `get_user_permissions by ${c} (ManageAuthorities ${ok}) answered ${r.reply !== undefined}`); continue; }
        if (ok) {
          const v = decode(r.reply)[0], got = v.Ok ? [...new Set(v.Ok.map(x => Object.keys(x)[0]))].sort() : [], want = [...(this.perms.get(p) || [])].sort();
          if (canon(got) !== canon(want)) this.fail(['N13'], 'permissions', `${p} has permissions ${canon(got)}, granted and not revoked are ${canon(want)}`);
        }
      }
      const perm = rng.pick(PERMS), c = rng.pick(ps), ok = this.has(c, 'ManageAuthorities'), r = this.qraw('has_permission', [{ permission: perm, principal: p }], c);
      if (ok !== (r.reply !== undefined)) this.fail(['N13'], 'permission_query', `has_permission by ${c} (ManageAuthorities ${ok}) answered ${r.reply !== undefined}`);
      else if (ok && decode(r.reply)[0].Ok !== this.has(p, perm)) this.fail(['N13'], 'has_permission', `has_permission(${p},${perm}) is ${!this.has(p, perm)}`);
      for (const [m, args] of [['get_all_storage_subcanisters', []], ['get_upload_status', ['nowhere']], ['get_all_uploads', [null, null]]]) {
        const o = this.has(p, NEED[m]), x = this.qraw(m, args, p);
        if (o !== (x.reply !== undefined)) this.fail(['N13'], 'permission_query', `${m} by ${p} (${NEED[m]} ${o}) answered ${x.reply !== undefined} ${x.msg || ''}`);
      }
      this.cov.add('perm:' + [...(this.perms.get(p) || [])].sort().join(','));
    }
  }
  // ---- N25: clients paging while the collection changes
  listing(k) { const l = []; for (const [id, t] of this.tokens) if (k === null || t.owner === k) l.push(BigInt(id)); return l.sort((a, b) => a < b ? -1 : 1); }
  pager(a) {
    if (a.op === 'start') { const k = a.acct ? akey(this.sub(a.acct)) : null; this.pagers.set(a.id, { k, take: a.take, prev: null, always: new Set(this.listing(k).map(String)), seen: new Set(), seq: [] }); return; }
    const p = this.pagers.get(a.id); if (!p) return;
    this.prunePagers();
    const mt = this.eff('max_take_value'), dt = this.eff('default_take_value'), take = p.take !== null && BigInt(p.take) > mt ? Number(mt) : p.take;
    const r = p.k === null ? this.q('icrc7_tokens', [p.prev, take]) : this.q('icrc7_tokens_of', [acct(p.k), p.prev, take]);
    if (r.__reject !== undefined) { this.fail(['N25'], 'page_refused', `page(prev=${p.prev},take=${take}) refused: ${r.__reject}`); return; }
    const cur = this.listing(p.k), lim = take === null ? dt : BigInt(take), after = cur.filter(x => p.prev === null || x > BigInt(p.prev)), want = after.slice(0, Number(lim));
    const what = `page of ${p.k || 'all tokens'} after ${p.prev} take ${take}`;
    for (let i = 0; i < r.length; i++) {
      if ((i ? r[i] <= r[i - 1] : p.prev !== null && r[i] <= BigInt(p.prev))) this.fail(['N25'], 'page_order', `${what} is not ascending: ${canon(r)}`);
      if (!cur.includes(r[i])) this.fail(['N25', 'N01'], 'page_foreign_id', `${what} contains ${r[i]}, which is not in the listing`);
      if (p.seen.has(r[i].toString())) this.fail(['N25'], 'page_repeats', `${what} repeats ${r[i]}`);
      p.seen.add(r[i].toString());
    }
    if (BigInt(r.length) > lim) this.fail(['N25', 'N24'], 'page_too_long', `${what} has ${r.length} ids`);
    if (canon(r) !== canon(want)) this.fail(['N25'], 'page_content', `${what} is ${canon(r)}, expected ${canon(want)}`);
    this.note('pages');
    if (!r.length) {
      if (lim > 0n) for (const id of p.always) if (!p.seen.has(id)) this.fail(['N25'], 'page_missed', `the enumeration of ${p.k || 'all tokens'} never returned ${id}`);
      this.cov.add('pager:' + p.seq.length + ':' + p.always.size); this.note('enumerations'); this.pagers.delete(a.id);
    } else { p.prev = r[r.length - 1].toString(); p.seq.push(r.length); }
  }
  prunePagers() { for (const p of this.pagers.values()) { const c = new Set(this.listing(p.k).map(String)); for (const id of [...p.always]) if (!c.has(id)) p.always.delete(id); } }
  finishPagers() { for (const id of [...this.pagers.keys()]) for (let i = 0; i < 400 && this.pagers.has(id); i++) this.pager({ op: 'next', id }); }
}
const compress = l => { const o = []; for (const x of l.map(Number)) { const t = o[o.length - 1]; if (t && t[1] === x - 1) t[1] = x; else o.push([x, x]); } return o.map(([a, b]) => a === b ? a : a + '-' + b).join(',') || 'none'; };

const OPPROPS = {
  icrc7_transfer: ['N03', 'N02'], icrc37_transfer_from: ['N03', 'N04', 'N02'], icrc37_approve_tokens: ['N03', 'N04'], icrc37_approve_collection: ['N03', 'N04'],
  icrc37_revoke_token_approvals: ['N04', 'N03'], icrc37_revoke_collection_approvals: ['N04', 'N03'], mint: ['N11'], burn_nft: ['N12'], update_nft_metadata: ['N23'], update_collection_metadata: ['N24'],
  grant_permission: ['N13'], revoke_permission: ['N13'], init_upload: ['N16'], store_chunk: ['N16'], finalize_upload: ['N16'], cancel_upload: ['N16'],
};
const SNAPPROPS = { tokens: ['N01'], owners: ['N01', 'N02'], balances: ['N01'], tokens_of: ['N01'], metadata: ['N23'], token_approvals: ['N04', 'N05'], collection_approvals: ['N04', 'N05'], settings: ['N24'], permissions: ['N13'], storage_canisters: ['N17'], uploads: ['N16'], log: ['N07', 'N08'], archives: ['N08'] };
const expNorm = e => e === null || e === undefined ? null : String(e);
const txKey = o => JSON.stringify([o.op, o.tid ?? null, o.from ? keyOwner(o.from) : null, o.to ? keyOwner(o.to) : null, o.spender ? keyOwner(o.spender) : null, o.exp ?? null, o.meta ?? null, o.memo ?? null, o.cat ?? null]);

const HANDLERS = {
  icrc7_transfer(cx) {
    const list = cx.args[0], r = cx.res.val, W = this, lim = W.eff('max_update_batch_size'), who = cx.who;
    this.touch(cx);
    if (!Array.isArray(r)) { this.fail(['N03'], 'result_shape', canon(r)); return; }
    if (!list.length) { if (r.length) this.fail(['N03'], 'result_shape', 'results for an empty batch'); return; }
    const atomic = W.set.atomic_batch_transfers === true && BigInt(list.length) > lim;
    const anyOk = r.some(x => x && x.Ok !== undefined);
    if (who === '2vxsx-fae' || atomic) {
      if (anyOk) this.fail(atomic ? ['N03', 'N24'] : ['N02'], atomic ? 'atomic_batch_over_limit' : 'anonymous_transfer', `icrc7_transfer of ${list.length} by ${who} (limit ${lim}): ${canon(r)}`);
      else { if (atomic) W.note('atomic_refused'); return; }
    }
    const n = BigInt(list.length) > lim ? Number(lim) : list.length;
    if (BigInt(r.length) > lim && anyOk && r.slice(Number(lim)).some(x => x && x.Ok !== undefined)) this.fail(['N03', 'N24'], 'batch_over_limit', `icrc7_transfer processed ${r.length} elements, limit ${lim}`);
    if (n < list.length) W.note('batch_truncated');
    if (r.length < n && !(r.length === 1 && r[0] && r[0].Err && r[0].Err.GenericBatchError)) this.fail(['N03'], 'missing_results', `icrc7_transfer of ${list.length} elements (limit ${lim}) returned ${r.length} results`);
    for (let i = 0; i < Math.min(r.length, list.length); i++) {
      const el = list[i], id = String(el.token_id), t = W.tokens.get(id), to = akey(el.to), memo = memoHex(el.memo), bad = [];
      if (!t) bad.push({ why: 'no_token', props: W.burned.has(id) ? ['N12', 'N01', 'N02'] : ['N01', 'N02'] });
      if (memo !== null && BigInt(memo.length / 2) > W.eff('max_memo_size')) bad.push({ why: 'memo_size', props: ['N24'] });
      if (t && keyOwner(t.owner) !== who) bad.push({ why: 'not_owner', props: ['N02'] });
      if (keyOwner(to) === '2vxsx-fae') bad.push({ why: 'to_anonymous', props: ['N02'] });
      W.timing(cx, el.created_at_time, bad);
      const cat = el.created_at_time === null || el.created_at_time === undefined ? W.now.toString() : String(el.created_at_time);
      const from = t ? t.owner : null;
      W.element(cx, i, r[i], {
        el, rateId: id, bad, may: t && t.owner === to, refProps: ['N03'],
        key: txKey({ op: '7xfer', tid: id, from, to, memo, cat }), full: JSON.stringify(['7xfer', id, from, to, memo, cat]),
        blk: { btype: '7xfer', tid: id, from: from && keyOwner(from), to: keyOwner(to), memo },
        effect: () => { if (t) W.endApprovals(id), W.move(id, t.owner, to); },
      });
    }
  },
  icrc37_transfer_from(cx) {
    const list = cx.args[0], W = this, who = cx.who; this.touch(cx);
    const r = this.okList(cx, list.length); if (!r) return;
    list.forEach((el, i) => {
      const id = String(el.token_id), t = W.tokens.get(id), from = akey(el.from), to = akey(el.to), sp = akey({ owner: who, subaccount: el.spender_subaccount }), memo = memoHex(el.memo), bad = [];
      if (!t) bad.push({ why: 'no_token', props: W.burned.has(id) ? ['N12', 'N01', 'N02'] : ['N01', 'N02'] });
      if (keyOwner(to) === '2vxsx-fae' && U.sub(el.to.subaccount) === U.Z) bad.push({ why: 'to_anonymous', props: ['N02'] });
      let perm = false, grace = false;
      if (t) {
        const ta = (W.tokAppr.get(id) || new Map()).get(sp), ca = (W.collAppr.get(t.owner) || new Map()).get(sp);
        perm = sp === t.owner || W.active(ta) || W.active(ca); grace = sp !== t.owner && !W.active(ta) && (W.collAppr.get(t.owner) || {}).lax;
        if (from !== t.owner) bad.push({ why: 'from_not_owner', props: ['N02'] });
        if (!perm) { bad.push({ why: 'not_approved', props: ['N02', 'N04'] }); if (ta || ca) W.note('expired_spender'); }
        else if (sp !== t.owner) W.note(W.active(ta) ? 'spent_token_approval' : 'spent_collection_approval');
      }
      W.timing(cx, el.created_at_time, bad);
      const cat = el.created_at_time === null || el.created_at_time === undefined ? null : String(el.created_at_time);
      W.element(cx, i, r[i], {
        el, rateId: id, bad, may: from === to || keyOwner(to) === '2vxsx-fae' || grace, refProps: sp === (t && t.owner) ? ['N03', 'N02'] : ['N04', 'N03'],
        key: txKey({ op: '37xfer', tid: id, from, to, spender: sp, memo, cat }), full: JSON.stringify(['37xfer', id, from, to, sp, memo, cat]),
        blk: { btype: '37xfer', tid: id, from: keyOwner(from), to: keyOwner(to), spender: who, memo },
        effect: () => { if (t) { const o = t.owner, c = W.collAppr.get(o); if (sp === o) W.note('spent_as_owner'); W.endApprovals(id); W.move(id, o, to); cx.tacc.add(o); if (c && !W.ownsAny(o)) c.lax = true; } },
      });
    });
  },
  icrc37_approve_tokens(cx) {
    const list = cx.args[0], W = this, who = cx.who; this.touch(cx);
    const r = this.okList(cx, list.length); if (!r) return;
    const max = W.set.max_approvals === null ? 10n : BigInt(W.set.max_approvals);
    list.forEach((el, i) => {
      const id = String(el.token_id), t = W.tokens.get(id), ai = el.approval_info, sp = akey(ai.spender), from = akey({ owner: who, subaccount: ai.from_subaccount }), bad = [];
      if (!t) bad.push({ why: 'no_token', props: W.burned.has(id) ? ['N12', 'N04'] : ['N04', 'N01'] });
      if (t && t.owner !== from) bad.push({ why: 'not_owner', props: ['N04', 'N02'] });
      W.timing(cx, ai.created_at_time, bad);
      const m = W.tokAppr.get(id), others = m ? [...m].filter(([k, a]) => k !== sp && W.active(a)).length : 0;
      if (BigInt(others) >= max) bad.push({ why: 'max_approvals', props: ['N05', 'N24'] });
      W.element(cx, i, r[i], {
        el, rateId: id, bad, may: keyOwner(sp) === '2vxsx-fae' || keyOwner(sp) === who || (m && BigInt(m.size) >= max) || (ai.expires_at !== null && BigInt(ai.expires_at) <= W.now), refProps: ['N04', 'N03'],
        key: txKey({ op: '37approve', tid: id, from, spender: sp, memo: memoHex(ai.memo), exp: expNorm(ai.expires_at), cat: String(ai.created_at_time) }), full: JSON.stringify(['37approve', id, from, sp, memoHex(ai.memo), expNorm(ai.expires_at), String(ai.created_at_time)]),
        blk: { btype: '37approve', tid: id, from: who, spender: keyOwner(sp), memo: memoHex(ai.memo), exp: expNorm(ai.expires_at) },
        effect: () => { if (!W.tokAppr.has(id)) W.tokAppr.set(id, new Map()); W.tokAppr.get(id).set(sp, { from: from.split('/')[1], memo: memoHex(ai.memo), exp: expNorm(ai.expires_at) }); },
      });
    });
  },
  icrc37_approve_collection(cx) {
    const list = cx.args[0], W = this, who = cx.who; this.touch(cx);
    const r = this.okList(cx, list.length); if (!r) return;
    const max = W.set.max_approvals === null ? 10n : BigInt(W.set.max_approvals);
    list.forEach((el, i) => {
      const ai = el.approval_info, sp = akey(ai.spender), from = akey({ owner: who, subaccount: ai.from_subaccount }), bad = [];
      W.timing(cx, ai.created_at_time, bad); W.accounts.add(from);
      if (!W.ownsAnyP(who)) bad.push({ why: 'owns_nothing', props: ['N04'] });
      const m = W.collAppr.get(from), others = m ? [...m].filter(([k, a]) => k !== sp && W.active(a)).length : 0;
      if (BigInt(others) >= max) bad.push({ why: 'max_approvals', props: ['N05', 'N24'] });
      W.element(cx, i, r[i], {
        el, rateId: '0', bad, may: keyOwner(sp) === '2vxsx-fae' || keyOwner(sp) === who || (m && BigInt(m.size) >= max) || (ai.expires_at !== null && BigInt(ai.expires_at) <= W.now), refProps: ['N04', 'N03'],
        key: txKey({ op: '37approve_coll', from, spender: sp, memo: memoHex(ai.memo), exp: expNorm(ai.expires_at), cat: String(ai.created_at_time) }), full: JSON.stringify(['37approve_coll', from, sp, memoHex(ai.memo), expNorm(ai.expires_at), String(ai.created_at_time)]),
        blk: { btype: '37approve_coll', from: who, spender: keyOwner(sp), memo: memoHex(ai.memo), exp: expNorm(ai.expires_at) },
        effect: () => { if (!W.collAppr.has(from)) W.collAppr.set(from, new Map()); W.collAppr.get(from).set(sp, { from: from.split('/')[1], memo: memoHex(ai.memo), exp: expNorm(ai.expires_at) }); },
      });
    });
  },
  icrc37_revoke_token_approvals(cx) {
    const list = cx.args[0], W = this, who = cx.who; this.touch(cx);
    if (!list.length) { if (cx.res.val.Err) this.fail(['N03'], 'empty_batch', canon(cx.res.val)); return; }
    const id0 = String(list[0].token_id), rv = cx.res.val, adm = W.rateAdmits(id0);
    const whole = rv.Err && /rate limit/i.test((rv.Err.GenericError || {}).message || '');
    if (whole) { if (adm) this.fail(['N21', 'N04'], 'rate_limited_below_limit', `revocation refused: ${canon(rv)}`); else W.note('rate_limited'); return; }
    if (!adm && !rv.Err) { if (rv.Ok.some(x => x && x.Ok !== undefined)) this.fail(['N21'], 'admitted_over_limit', 'icrc37_revoke_token_approvals admitted over the limit'); }
    if (adm) W.rate.get(id0).push(W.now);
    const max = W.set.max_revoke === null ? 10n : BigInt(W.set.max_revoke), n = BigInt(list.length) > max ? Number(max) : list.length;
    const r = this.okList(cx, n); if (!r) return;
    if (r.length > n && r.slice(n).some(x => x && x.Ok !== undefined)) this.fail(['N24'], 'max_revoke', `${r.length} revocations processed, limit ${max}`);
    for (let i = 0; i < Math.min(r.length, list.length); i++) {
      const el = list[i], id = String(el.token_id), t = W.tokens.get(id), from = akey({ owner: who, subaccount: el.from_subaccount }), sp = akey(el.spender), bad = [], m = W.tokAppr.get(id);
      if (!t) bad.push({ why: 'no_token', props: ['N12', 'N04'] });
      if (t && t.owner !== from) bad.push({ why: 'not_owner', props: ['N04'] });
      W.timing(cx, el.created_at_time, bad);
      const hit = m && (sp ? m.has(sp) : m.size > 0), live = m && (sp ? W.active(m.get(sp)) : [...m.values()].some(a => W.active(a)));
      if (!hit) bad.push({ why: 'no_approval', props: ['N06', 'N04'] });
      const cat = el.created_at_time === null || el.created_at_time === undefined ? null : String(el.created_at_time);
      W.element(cx, i, r[i], {
        el, bad, may: !live, refProps: ['N04'],
        key: txKey({ op: '37revoke', tid: id, from, spender: sp, memo: memoHex(el.memo), cat }), full: JSON.stringify(['37revoke', id, from, sp, memoHex(el.memo), cat]),
        blk: { btype: '37revoke', tid: id, from: who, spender: sp && keyOwner(sp), memo: memoHex(el.memo) },
        effect: () => { if (m) { if (sp) { W.gone.push({ id, sp }); m.delete(sp); } else { for (const k of m.keys()) W.gone.push({ id, sp: k }); m.clear(); } } },
      });
    }
  },
  icrc37_revoke_collection_approvals(cx) {
    const list = cx.args[0], W = this, who = cx.who; this.touch(cx);
    const max = W.set.max_revoke === null ? 10n : BigInt(W.set.max_revoke), n = BigInt(list.length) > max ? Number(max) : list.length;
    const r = this.okList(cx, n); if (!r) return;
    if (r.length > n && r.slice(n).some(x => x && x.Ok !== undefined)) this.fail(['N24'], 'max_revoke', `${r.length} revocations processed, limit ${max}`);
    for (let i = 0; i < Math.min(r.length, list.length); i++) {
      const el = list[i], from = akey({ owner: who, subaccount: el.from_subaccount }), sp = akey(el.spender), bad = [], m = W.collAppr.get(from);
      W.timing(cx, el.created_at_time, bad);
      const hit = m && (sp ? m.has(sp) : m.size > 0), live = m && (sp ? W.active(m.get(sp)) : [...m.values()].some(a => W.active(a)));
      if (!hit) bad.push({ why: 'no_approval', props: ['N06', 'N04'] });
      const cat = el.created_at_time === null || el.created_at_time === undefined ? null : String(el.created_at_time);
      W.element(cx, i, r[i], {
        el, rateId: '0', bad, may: !live || !W.ownsAny(from), refProps: ['N04'],
        key: txKey({ op: '37revoke_coll', from, spender: sp, memo: memoHex(el.memo), cat }), full: JSON.stringify(['37revoke_coll', from, sp, memoHex(el.memo), cat]),
        blk: { btype: '37revoke_coll', from: who, spender: sp && keyOwner(sp), memo: memoHex(el.memo) },
        effect: () => { if (m) { if (sp) { W.gone.push({ acc: from, sp }); m.delete(sp); } else { for (const k of m.keys()) W.gone.push({ acc: from, sp: k }); m.clear(); } } },
      });
    }
  },
  mint(cx) {
    const reqs = cx.args[0].mint_requests, W = this, v = cx.res.val, bad = this.mintBad(reqs);
    cx.touched.add(W.nextId.toString());
    if (v.Ok === undefined) {
      if (bad.length) { W.note('mint_refused_' + bad[0]); return; }
      const kind = Object.keys(v.Err)[0];
      if (kind === 'ConcurrentManagementCall') { this.fail(['N15', 'N11'], 'lock_not_released', 'mint: ConcurrentManagementCall although no other call is running'); return; }
      if (reqs.length === 0) return;
      if (this.mintLedger(reqs, false) === 'ok') this.fail(['N11'], 'mint_refused', `mint of ${reqs.length} refused: ${canon(v.Err)}`); else W.note('throttled');
      return;
    }
    if (bad.length) this.fail(bad[0] === 'cap' ? ['N11', 'N24'] : bad[0] === 'memo' ? ['N24', 'N11'] : ['N11', 'N24'], 'mint_over_' + bad[0], `mint of ${reqs.length} succeeded although ${bad}: supply ${W.tokens.size}, cap ${W.eff('supply_cap')}`);
    if (BigInt(v.Ok) !== W.nextId && reqs.length) {
      this.fail(['N11'], 'mint_first_id', `mint returned first id ${v.Ok}, expected ${W.nextId}`);
      if (BigInt(v.Ok) > W.nextId) W.nextId = BigInt(v.Ok);
    }
    if (reqs.length) this.mintLedger(reqs, true);
    cx.meta = [];
    for (const q of reqs) {
      const id = W.nextId.toString(), owner = akey(q.token_owner); W.nextId += 1n; W.everMinted++;
      W.tokens.set(id, { owner, meta: canon(cmeta(q.metadata)) }); W.accounts.add(owner); cx.touched.add(id); cx.meta.push(id);
      cx.exp.push({ btype: '7mint', tid: id, to: keyOwner(owner), memo: memoHex(q.memo) });
    }
    cx.touched.add(W.nextId.toString());
  },
  burn_nft(cx) {
    const W = this, id = String(cx.args[0]), t = W.tokens.get(id), v = cx.res.val, ok = v.Err === undefined; this.touch(cx);
    const key = t && txKey({ op: '7burn', tid: id, from: t.owner, cat: W.now.toString() });
    if (!ok && Object.keys(v.Err)[0] === 'ConcurrentManagementCall') { this.fail(['N15', 'N12'], 'lock_not_released', 'burn_nft: ConcurrentManagementCall although no other call is running'); return; }
    if (!t) { if (ok) this.fail(['N12', 'N01'], 'burned_missing_token', `burn_nft(${id}) succeeded for a token that does not exist`); return; }
    if (keyOwner(t.owner) !== cx.who) { if (ok) this.fail(['N12', 'N02'], 'burned_by_stranger', `burn_nft(${id}) by ${cx.who}, owner ${t.owner}`); if (!ok) return; }
    if (!ok && Object.keys(v.Err)[0] === 'NotTokenOwner') { this.fail(['N12'], 'burn_refused', `burn_nft(${id}) by its owner: ${canon(v.Err)}`); return; }
    const l = W.ledgerTry(key);
    if (!ok) { if (l === 'ok') this.fail(['N12'], 'burn_refused', `burn_nft(${id}) by its owner: ${canon(v.Err)}`); else { W.note('throttled'); cx.props = [...new Set([...cx.props, 'N06'])]; } return; }
    W.ledgerPush(key, key); cx.exp.push({ btype: '7burn', tid: id, from: keyOwner(t.owner) });
    W.endApprovals(id); W.tokAppr.delete(id); W.tokens.delete(id); W.burned.add(id);
  },
  update_nft_metadata(cx) {
    const W = this, q = cx.args[0], id = String(q.token_id), t = W.tokens.get(id), v = cx.res.val, ok = v.Err === undefined; cx.touched.add(id);
    cx.meta = [id];
    if (!ok && Object.keys(v.Err)[0] === 'ConcurrentManagementCall') { this.fail(['N15'], 'lock_not_released', 'update_nft_metadata: ConcurrentManagementCall although no other call is running'); return; }
    if (!t) { if (ok) this.fail(['N12', 'N23'], 'updated_missing_token', `update_nft_metadata(${id}) succeeded for a token that does not exist`); return; }
    const prev = JSON.parse(t.meta), next = cmeta(q.metadata);
    const key = txKey({ op: '7update_token', tid: id, from: akey({ owner: cx.who, subaccount: null }), meta: canon([prev, next]), cat: W.now.toString() });
    const l = W.ledgerTry(key);
    if (!ok) { if (l === 'ok') this.fail(['N23'], 'update_refused', `update_nft_metadata(${id}): ${canon(v.Err)}`); else { W.note('throttled'); cx.props = [...new Set([...cx.props, 'N06'])]; } return; }
    if (/"Int":/.test(canon([prev, next]))) W.intLogged = true;
    W.ledgerPush(key, key); cx.exp.push({ btype: '7update_token', tid: id, from: cx.who, meta: [['icrc7:new_metadata', { Map: next }], ['icrc7:previous_metadata', { Map: prev }]] });
    t.meta = canon(next);
  },
  update_collection_metadata(cx) {
    const v = cx.res.val, ok = v.Err === undefined;
    if (!ok) { this.fail(['N24', ...(v.Err.ConcurrentManagementCall !== undefined ? ['N15'] : [])], 'settings_refused', canon(v.Err)); return; }
    for (const k of SETTINGS) if (cx.args[0][k] !== null && cx.args[0][k] !== undefined) this.set[k] = cx.args[0][k];
    cx.swept = true; this.sweepSettings(new (require('./prng').Rng)('s', this.nAct));
  },
  grant_permission(cx) { const v = cx.res.val, { principal: p, permission } = cx.args[0]; if (v.Err !== undefined) { this.fail(['N13'], 'grant_refused', canon(v.Err)); return; } if (!this.perms.has(p)) this.perms.set(p, new Set()); this.perms.get(p).add(permission); this.sweepPerms(new (require('./prng').Rng)('p', this.nAct)); },
  revoke_permission(cx) { const v = cx.res.val, { principal: p, permission } = cx.args[0]; if (v.Err !== undefined) { this.fail(['N13'], 'revoke_refused', canon(v.Err)); return; } if (this.perms.has(p)) this.perms.get(p).delete(permission); this.sweepPerms(new (require('./prng').Rng)('p', this.nAct)); },
  init_upload(cx) { }, store_chunk(cx) { this.noUpload(cx); }, finalize_upload(cx) { this.noUpload(cx); }, cancel_upload(cx) { this.noUpload(cx); },
};
World.prototype.noUpload = function (cx) { if (cx.res.val.Err === undefined && !(this.files && this.files.has(cx.args[0].file_path))) this.fail(['N16'], 'upload_of_nothing', `${cx.a.m}${canon(cx.args)} succeeded for a path that was never initialised`); };
World.prototype.endApprovals = function (id) { const m = this.tokAppr.get(id); if (m) for (const k of m.keys()) this.gone.push({ id, sp: k }); if (this.gone.length > 60) this.gone.splice(0, 20); };
World.prototype.okList = function (cx, n) {
  const v = cx.res.val;
  if (!v || !Array.isArray(v.Ok)) {
    if (v && v.Err && n) { const m = canon(v.Err); this.fail([...cx.props, 'N03'], 'batch_refused_' + cx.a.m, `${cx.a.m}${canon(cx.args)}: ${m}`); }
    return null;
  }
  if (v.Ok.length < n) this.fail(['N03', ...(/revoke/.test(cx.a.m) ? ['N04', 'N24'] : [])], 'missing_results', `${cx.a.m} of ${n} elements returned ${v.Ok.length} results`);
  return v.Ok;
};
World.prototype.mintBad = function (reqs) {
  const bad = [];
  if (BigInt(reqs.length) > this.eff('max_update_batch_size')) bad.push('batch');
  if (BigInt(this.tokens.size + reqs.length) > this.eff('supply_cap')) bad.push('cap');
  if (reqs.some(q => { const m = memoHex(q.memo); return m !== null && BigInt(m.length / 2) > this.eff('max_memo_size'); })) bad.push('memo');
  return bad;
};
World.prototype.mintLedger = function (reqs, commit) {
  const keep = this.ledger.slice(); let res = 'ok', i = 0, id = this.nextId;
  for (const q of reqs) {
    const key = txKey({ op: '7mint', tid: id.toString(), to: akey(q.token_owner), memo: memoHex(q.memo), cat: this.now.toString() }); id += 1n;
    res = this.ledgerTry(key); if (res !== 'ok' && !commit) break;
    this.ledgerPush(key, key); i++;
  }
  if (!commit) { if (i === 0) { /* refused by the log before anything was logged: its purge stands */ } else { this.ledger = keep; } }
  return commit ? 'ok' : res === 'ok' ? 'ok' : 'throttle';
};
World.prototype.mintTrap = function (cx) { // a later block of the batch was refused by the log: everything is rolled back
  const reqs = cx.args[0].mint_requests, keep = this.ledger.slice();
  if (this.mintBad(reqs).length) return;
  const r = this.mintLedger(reqs, false); this.ledger = keep;
  if (r === 'ok') this.fail(['N11'], 'mint_trapped', `mint of ${reqs.length} trapped: ${cx.res.rej}`); else this.note('mint_rolled_back');
};
module.exports = { World, Violation, DEF, SETTINGS, PERMS, NEED, initArgs, wasmBytes, HANDLERS, OPPROPS, compress, MS, SEC };
