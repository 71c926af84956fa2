'use strict';
// A small deployment of the built canisters inside the replica simulator beside this file. Run with cwd = the repository.
const fs = require('fs'), path = require('path');
const { Sim } = require('./ic'); const S = require('./svc'); const { encode, decode } = require('./candid'); const U = require('./util');
const REL = path.join(process.cwd(), 'target/wasm32-unknown-unknown/release');
const bin = n => fs.readFileSync(path.join(REL, n + '.wasm'));
const P = U.principal, J = U.J;
const PERMS = ['Minting', 'ManageAuthorities', 'UpdateMetadata', 'UpdateCollectionMetadata', 'ReadUploads', 'UpdateUploads'];
const MS = 1_000_000n, SEC = 1000n * MS, MIN = 60n * SEC, DAY = 86400n * SEC;
const V = { major: 1, minor: 0, patch: 0 };
const INIT = { permissions: { user_permissions: [] }, supply_cap: null, tx_window: null, test_mode: false, default_take_value: null, max_canister_storage_threshold: null, logo: null, permitted_drift: null, name: 'nft', description: null, version: V, max_take_value: null, max_update_batch_size: null, max_query_batch_size: null, commit_hash: 'c0', max_memo_size: null, atomic_batch_transfers: null, collection_metadata: [], symbol: 'N', approval_init: { max_approvals_per_token_or_collection: null, max_revoke_approvals: null } };
const acc = (u, n) => ({ owner: P(u), subaccount: n ? Buffer.alloc(32, n) : null });
class Deployment {
  constructor(init = {}) {
    this.sim = new Sim({}); const c = this.core = this.sim.create(); c.controllers = [P('@admin')]; c.cycles = 20_000_000_000_000_000n;
    const perms = { user_permissions: [[P('@admin'), PERMS.map(p => ({ [p]: null }))]] };
    const r = this.sim.install(c, bin('core_nft'), encode([S.CoreArgs], [{ Init: { ...INIT, permissions: perms, ...init } }]), P('@admin'));
    if (!r.ok) throw new Error('install: ' + r.err);
  }
  get now() { return this.sim.time; }
  adv(ns) { this.sim.advance(ns); }
  send(m, who, ...args) { return this.sim.submit(this.core.id, P(who), m, encode(S.core[m], args)); }
  out(n) { const r = this.sim.results.get(n); return r.status === 'reply' ? decode(r.reply)[0] : r.status === 'pending' ? { pending: true } : { rej: r.msg }; }
  // one message: the head of what is enabled, oldest first; f is a fault for that message
  step(f = {}, pick = () => true) { const ev = this.sim.enabled().filter(pick).sort((a, b) => a.n - b.n)[0]; if (!ev) return null; this.sim.step(ev, f); return ev; }
  exec(n, f = {}) { this.sim.step(this.sim.enabled().find(e => e.kind === 'ingress' && e.n === n), f); return this.out(n); }
  settle() { this.sim.settle(5000); }
  // the call runs to its end, everything else in flight too
  call(m, who, ...args) { const n = this.send(m, who, ...args); this.settle(); return this.out(n); }
  // only this message is executed
  now_(m, who, ...args) { return this.exec(this.send(m, who, ...args)); }
  q(m, ...args) { return this.qa('@admin', m, ...args); }
  qa(who, m, ...args) { const r = this.sim.query(this.core.id, P(who), m, encode(S.core[m], args)); return r.reply ? decode(r.reply)[0] : { rej: r.msg }; }
  tick(ns) { this.sim.advance(ns); this.settle(); }
  upgrade(f = {}) {
    this.settle(); this.core.status = 'stopped';
    const r = this.sim.upgrade(this.core, bin('core_nft'), encode([S.CoreArgs], [{ Upgrade: { version: { major: 1, minor: 1, patch: 0 }, commit_hash: 'c1' } }]), P('@admin'), f); this.core.status = 'running'; return r;
  }
  mint(owners, meta = () => [], memo = () => null) {
    const r = this.call('mint', '@admin', { mint_requests: owners.map((o, i) => ({ token_owner: o, memo: memo(i), metadata: meta(i) })) }); this.adv(SEC);
    if (r.Ok === undefined) throw new Error('mint: ' + J(r)); return BigInt(r.Ok);
  }
  transfer(who, to, id, o = {}) { const r = this.call('icrc7_transfer', who, [{ to, token_id: id, memo: null, from_subaccount: null, created_at_time: null, ...o }]); this.adv(SEC); return r[0]; }
  approve(who, spender, id, o = {}) { const r = this.call('icrc37_approve_tokens', who, [{ token_id: id, approval_info: { memo: null, from_subaccount: null, created_at_time: this.now, expires_at: null, spender, ...o } }]); this.adv(SEC); return r.Ok[0]; }
  approveColl(who, spender, o = {}) { const r = this.call('icrc37_approve_collection', who, [{ approval_info: { memo: null, from_subaccount: null, created_at_time: this.now, expires_at: null, spender, ...o } }]); this.adv(SEC); return r.Ok[0]; }
  tfrom(who, from, to, id, o = {}) { const r = this.call('icrc37_transfer_from', who, [{ to, spender_subaccount: null, token_id: id, from, memo: null, created_at_time: null, ...o }]); this.adv(SEC); return r.Ok ? r.Ok[0] : r; }
  owner(id) { return U.akey(this.q('icrc7_owner_of', [id])[0]); }
  tokens(a) { return this.q('icrc7_tokens_of', a, null, null).map(String); }
  bal(a) { return Number(this.q('icrc7_balance_of', [a])[0]); }
  log() { return BigInt(this.q('icrc3_get_blocks', []).log_length); }
  blocks(s, l) { return this.q('icrc3_get_blocks', [{ start: s, length: l }]).blocks; }
  set(o) { const k = ['supply_cap', 'tx_window', 'default_take_value', 'max_canister_storage_threshold', 'logo', 'permitted_drift', 'name', 'description', 'max_take_value', 'max_update_batch_size', 'max_query_batch_size', 'max_memo_size', 'atomic_batch_transfers', 'symbol']; return this.call('update_collection_metadata', '@admin', { ...Object.fromEntries(k.map(x => [x, null])), ...o }); }
  // uploads
  initUpload(p, data, chunk = 16) { return this.call('init_upload', '@admin', { file_hash: hash(data), file_path: p, file_size: BigInt(data.length), chunk_size: BigInt(chunk) }); }
  chunk(p, i, data) { return this.call('store_chunk', '@admin', { chunk_id: BigInt(i), file_path: p, chunk_data: data }); }
  finalize(p) { return this.call('finalize_upload', '@admin', { file_path: p }); }
  status(p) { return this.q('get_upload_status', p); }
  upload(p, data, chunk = 16) {
    const r = [this.initUpload(p, data, chunk)]; for (let i = 0; i * chunk < data.length; i++) r.push(this.chunk(p, i, data.subarray(i * chunk, i * chunk + chunk))); r.push(this.finalize(p));
    for (const x of r) if (!x || x.Ok === undefined) throw new Error('upload: ' + J(r)); return r;
  }
  http(url) { return this.q('http_request', { method: 'GET', url, headers: [], body: Buffer.alloc(0), certificate_version: 2 }); }
  others() { return [...this.sim.canisters.values()].filter(c => c !== this.core && !c.user); }
  addIndex() {
    const c = this.index = this.sim.create(); c.controllers = [P('@admin')]; c.cycles = 20_000_000_000_000_000n;
    const r = this.sim.install(c, bin('index_icrc7'), encode([S.IndexArgs], [{ Init: { test_mode: false, authorized_principals: [], version: V, ledger_canister_id: this.core.id, commit_hash: 'i0' } }]), P('@admin')); if (!r.ok) throw new Error('index: ' + r.err);
  }
  ix(filters, start = 0n, length = 1000n, sort = null) { const n = this.sim.submit(this.index.id, P('@u1'), 'get_blocks', encode(S.index.get_blocks, [{ sort_by: sort && { [sort]: null }, filters, start, length }])); this.settle(); const r = this.out(n); return r.blocks ? r.blocks.map(b => Number(b.id)) : r; }
  upgradeIndex() { this.settle(); this.index.status = 'stopped'; const r = this.sim.upgrade(this.index, bin('index_icrc7'), encode([S.IndexArgs], [{ Upgrade: { version: V, commit_hash: 'i1' } }]), P('@admin')); this.index.status = 'running'; return r; }
}
const hash = d => require('crypto').createHash('sha256').update(d).digest('hex');
function check(cond, msg) { if (!cond) { console.log('BROKEN: ' + msg); process.exit(1); } }
module.exports = { Deployment, check, acc, P, J, U, S, MS, SEC, MIN, DAY, hash, encode, decode, http: require('./http') };
