'use strict';
// Uploads: the NFT canister, the storage canisters it creates, management calls that overlap, faults between every two messages.
const { SchedWorld } = require('./sched'); const { NEED } = require('./world');
const S = require('./svc'), U = require('./util'); const { encode, decode, sha256 } = require('./candid');
const { verify } = require('./http');
const { canon, principal } = U;
const DAY = 86_400_000_000_000n;
const MGMT_OPS = new Set(['mint', 'burn_nft', 'update_nft_metadata', 'update_collection_metadata', 'grant_permission', 'revoke_permission', 'init_upload', 'store_chunk', 'finalize_upload', 'cancel_upload']);
const UP = new Set(['init_upload', 'store_chunk', 'finalize_upload', 'cancel_upload']);
const trimL = p => p.replace(/^\/+/, ''), urlOf = p => p[0] === '/' ? p : '/' + p;
const plain = p => /^\/?[A-Za-z0-9._~-]+(\/[A-Za-z0-9._~-]+)*$/.test(p) && !['metrics', 'logs', 'traces'].includes(trimL(p));
const errKind = v => v && v.Err !== undefined ? (typeof v.Err === 'string' ? v.Err : Object.keys(v.Err)[0]) : null;
const bufHex = x => typeof x === 'string' ? x : Buffer.from(x).toString('hex');

class UploadWorld extends SchedWorld {
  constructor(cfg, opts) {
    super(cfg, opts);
    this.files = new Map();      // path -> {state, can, since, size, hash, csize}: what the NFT canister must report
    this.mirror = new Map();     // storage canister -> path -> {state, chunks, ...}: what it acknowledged
    this.ops = new Map();        // ingress n -> running upload call
    this.stor = new Map();       // storage canister -> 'created' | 'installed', as acknowledged to a call that ended
    this.archivesOk = false; this.httpPaths = []; this.everPaths = new Set();
    this.sim.onRequest = m => { this.onDeposit(m); this.onReq(m); }; this.sim.onExec = x => this.onExe(x);
  }
  setup() { super.setup(); this.core.cycles = 20_000_000_000_000_000n; return this; }
  exec(a) {
    if (a.t === 'ul') { this.trace.push(a); this.nAct++; this.sim.log('ACT ' + JSON.stringify(a)); return this.submitOp(a); }
    if (a.t === 'hc') { this.trace.push(a); this.nAct++; return this.checkHttp(); }
    const r = super.exec(a);
    if (a.t === 'cy' && BigInt(a.v) < 20_000_000_000_000n) for (const o of this.ops.values()) o.faulted = true;
    return r;
  }
  // ---- who holds the lock, as seen from outside: a management call or collection with an outstanding call
  lockHolder() {
    for (const { ctx, k } of this.core.callbacks.values()) { if (UP.has(ctx.method)) return ctx.method; if (k.method === 'cancel_upload') return 'garbage collection'; }
    return null;
  }
  doUpdate(a) {
    const holder = this.lockHolder();
    if (!holder || !MGMT_OPS.has(a.m)) return super.doUpdate(a);
    const args = this.sub(a.a), who = this.sub(a.w), res = this.callUpdate(a, args), before = this.blocks.length; this.note('excluded_tried'); this.note('op_' + a.m);
    const cx = { a, args, who, res, exp: [], touched: new Set(), tacc: new Set(), dup: 0, must: 0, props: ['N15'] };
    if (res.rej !== undefined) {
      if (res.injected) this.note('rolled_back');
      else if (NEED[a.m] && !this.has(who, NEED[a.m])) this.note('refused_permission');
      else this.fail(['N15'], 'lock_wrong_refusal', `${a.m} while ${holder} is running trapped: ${res.rej}`);
    } else if (NEED[a.m] && !this.has(who, NEED[a.m])) this.fail(['N13'], 'permission_missing_' + a.m, `${a.m} by ${who} without ${NEED[a.m]} answered ${canon(res.val)}`);
    else if (errKind(res.val) !== 'ConcurrentManagementCall') this.fail(['N15'], 'not_excluded_' + a.m, `${a.m}${canon(args)} was answered ${canon(res.val)} while ${holder} is waiting for another canister`);
    else this.note('excluded');
    this.touch(cx); if (a.m === 'update_nft_metadata') cx.meta = [String(args[0].token_id)].filter(i => this.tokens.has(i));
    this.post(cx, before);
    if (a.m === 'update_collection_metadata') { const sv = this.target; this.sweepLocked(); } // no field may have changed
    if (/permission/.test(a.m)) this.sweepPermsLocked();
    return res;
  }
  sweepLocked() { for (const k of ['name', 'symbol', 'description', 'supply_cap', 'tx_window']) { const g = this.q('icrc7_' + k, []), w = this.set[k]; if (canon(g === null || g === undefined ? null : String(g)) !== canon(w === null || w === undefined ? null : String(w))) this.fail(['N15', 'N24'], 'locked_settings_changed', `icrc7_${k} is ${canon(g)} after a refused update_collection_metadata, it was ${canon(w)}`); } }
  sweepPermsLocked() { const h = this.permHolder('ManageAuthorities'); if (!h) return; for (const p of this.perms.keys()) { const r = this.q('get_user_permissions', [{ principal: p }], h), got = r.Ok ? [...new Set(r.Ok.map(x => Object.keys(x)[0]))].sort() : [], want = [...this.perms.get(p)].sort(); if (canon(got) !== canon(want)) this.fail(['N15', 'N13'], 'locked_permissions_changed', `${p} has ${canon(got)} after a refused call, it had ${canon(want)}`); } }
  // ---- upload calls
  submitOp(a) {
    const args = this.sub(a.a), who = this.sub(a.w), n = this.sim.submit(this.core.id, who, a.m, encode(S.core[a.m], args));
    this.ops.set(n, { n, m: a.m, who, q: args[0], p: args[0].file_path, faulted: false, started: false, tried: new Map(), created: [], trapped: false });
    if (a.m === 'init_upload') this.everPaths.add(args[0].file_path);
    this.note('op_' + a.m);
  }
  opOf(ctx) { return ctx && ctx.origin && ctx.origin.kind === 'ingress' ? this.ops.get(ctx.origin.n) : null; }
  mir(can, p) { const m = this.mirror.get(can); return m && m.get(p) || null; }
  complete(mf) { if (!mf.need) return false; for (let i = 0; i < mf.need; i++) if (!mf.chunks.has(i)) return false; return true; }
  bytes(mf) { return Buffer.concat([...mf.chunks].sort((a, b) => a[0] - b[0]).map(x => Buffer.from(x[1], 'hex'))); }
  taken(p) { for (const k of this.files.keys()) if (trimL(k) === trimL(p)) return k; return null; }
  // what the call must and must not do, from the state it is admitted in
  judge(o) {
    const q = o.q, f = this.files.get(o.p), mf = f && this.mir(f.can, o.p); let must = false, not = null;
    switch (o.m) {
      case 'init_upload': {
        const cs = q.chunk_size === null || q.chunk_size === undefined ? null : BigInt(q.chunk_size);
        if (this.taken(o.p)) not = 'the path is in use'; else if (cs === 0n || cs > 4_000_000n) not = 'the chunk size is invalid'; else if (BigInt(q.file_size) > 2n << 30n) not = 'the file is larger than 2 GiB';
        else must = plain(o.p) && (cs === null || cs <= 1_000_000n); break;
      }
      case 'store_chunk':
        if (!f) not = 'the path is not initialised'; else if (f.state === 'Finalized') not = 'the file is finalised';
        else if (mf && mf.state === 'open') {
          const i = Number(q.chunk_id), len = bufHex(q.chunk_data).length / 2, want = i < mf.need ? Math.min(mf.csize, mf.size - i * mf.csize) : -1;
          if (i >= mf.need) not = 'there is no such chunk'; else if (!mf.chunks.has(i) && len === want && this.bytes(mf).length + len <= mf.size) must = true; else if (len === want && mf.chunks.has(i)) not = null;
        } break;
      case 'finalize_upload':
        if (!f) not = 'the path is not initialised'; else if (f.state === 'Finalized') not = 'the file is finalised'; else if (f.state === 'Init') not = 'no chunk was stored';
        else if (mf && mf.state === 'final') must = true;
        else if (mf && this.complete(mf) && sha256(this.bytes(mf)).toString('hex') === mf.hash && this.bytes(mf).length === mf.size) must = true;
        else not = 'not all chunks with the declared hash are stored'; break;
      case 'cancel_upload':
        if (!f) not = 'the path is not initialised'; else if (f.state === 'Finalized') not = 'the file is finalised'; else if (!mf || mf.state === 'open') must = true; break;
    }
    o.must = must; o.not = not; o.f0 = f && Object.assign({}, f);
  }
  beforeStep(ev, f, o) {
    this.cur = { ev, o, i0: this.injected(), exec: null, k: o && o.k };
    if (ev.kind === 'ingress' && this.ops.has(ev.n)) {
      const op = this.ops.get(ev.n); op.started = true; op.holder = this.lockHolder(); op.perm = this.has(op.who, NEED[op.m]);
      if (this.core.cycles < 20_000_000_000_000n) op.faulted = true;
      this.judge(op); this.cur.op = op;
    } else if (o && o.c === this.core) {
      const op = this.opOf(o.ctx); this.cur.op = op;
      if (op && ev.kind === 'response') {
        if (ev.r.reply === undefined) { op.faulted = true; }
        if (op.m === 'init_upload') this.trackInit(op, o.k, ev.r);
      }
    }
  }
  trackInit(op, k, r) {
    const d = r.reply !== undefined && k.to !== 'aaaaa-aa' ? decode(r.reply)[0] : null;
    if (k.method === 'get_storage_size' && r.reply === undefined) op.tried.set(k.to, 'unreachable');
    if (k.method === 'get_storage_size' && d !== null && typeof d === 'bigint' && d + BigInt(op.q.file_size) > 500n << 30n) op.tried.set(k.to, 'full');
    if (k.method === 'init_upload') { if (r.reply === undefined) op.tried.set(k.to, 'unreachable'); else if (d.Ok === undefined) { op.tried.set(k.to, canon(d.Err)); if (errKind(d) === 'InvalidChunkSize') op.invalid = true; } else op.accepted = k.to; }
  }
  onReq(m) {
    if (m.from !== this.core.id) return;
    const r = this.core.callbacks.get(m.cb), ctx = r.ctx, op = this.opOf(ctx);
    if (m.method === 'cancel_upload' && !op) {
      const p = decode(m.arg)[0].file_path, f = this.files.get(p); this.note('gc_cancel');
      if (!f || f.state === 'Finalized' || this.now - f.since < DAY) this.fail(['N18'], 'collected_live_upload', `the garbage collector cancels ${p}: ${f ? `state ${f.state}, initialised ${(this.now - f.since) / 1000000000n} s ago` : 'not an upload'}`);
    }
    if (m.method === 'create_canister' && op && op.m === 'init_upload') {
      this.note('storage_create');
      for (const [id, st] of this.stor) if (st === 'installed' && !op.tried.has(id)) this.fail(['N17'], 'created_without_need', `init_upload(${op.p}) creates a storage canister although ${id} was not asked`);
      if (op.invalid) this.fail(['N17'], 'created_for_invalid', `init_upload(${canon(op.q)}) creates a storage canister although the request is invalid`);
      if (op.accepted) this.fail(['N17'], 'created_without_need', `init_upload(${op.p}) creates a storage canister although ${op.accepted} accepted the file`);
      if (op.not && !/chunk size/.test(op.not)) this.fail(['N17', 'N16'], 'created_for_refused', `init_upload(${op.p}) creates a storage canister although ${op.not}`);
    }
  }
  onExe(x) { // executions of storage canisters: what they acknowledged
    if (x.c === this.core) { if (this.cur) this.cur.exec = x; return; }
    if (!x.m || !UP.has(x.name) || !x.ok || !x.response || x.response.reply === undefined) return;
    const q = decode(x.m.arg)[0], v = decode(x.response.reply)[0], p = q.file_path; let m = this.mirror.get(x.c.id); if (!m) this.mirror.set(x.c.id, m = new Map());
    const mf = m.get(p), ok = v.Err === undefined;
    switch (x.name) {
      case 'init_upload': if (ok) { const cs = q.chunk_size === null ? 1_000_000 : Number(q.chunk_size), size = Number(q.file_size); m.set(p, { state: 'open', chunks: new Map(), csize: cs, size, hash: q.file_hash, need: Math.ceil(size / cs) }); } break;
      case 'store_chunk': if (ok && mf) mf.chunks.set(Number(q.chunk_id), bufHex(q.chunk_data)); break;
      case 'finalize_upload':
        if (ok && mf) {
          mf.state = 'final';
          if (!this.complete(mf) || sha256(this.bytes(mf)).toString('hex') !== mf.hash) this.fail(['N16'], 'finalised_incomplete', `storage canister ${x.c.id} finalised ${p} with chunks ${[...mf.chunks.keys()]} of ${mf.need}`);
        } else if (!ok && mf && mf.state === 'final') mf.again = true; // the callee forgets what it holds, unless it was read before
        else if (!ok && mf && mf.state === 'open') { m.delete(p); } break;
      case 'cancel_upload': if (ok) m.delete(p); break;
    }
  }
  afterStep(ev, f, o) {
    const cur = this.cur; this.cur = null; const faulted = this.injected() > cur.i0, op = cur.op;
    if (op && faulted) op.faulted = true;
    if (op && cur.exec && !cur.exec.ok && ev.kind === 'response') { op.trapped = true; const f = this.files.get(op.p), mf = f && this.mir(f.can, op.p); if (op.m === 'finalize_upload' && mf && mf.state === 'final') mf.ackLost = true; }
    if (op && op.m === 'init_upload' && ev.kind === 'response' && ev.r.reply !== undefined && cur.exec && cur.exec.ok) { // the NFT canister took note of it
      if (o.k.method === 'create_canister') op.created.push({ id: decode(ev.r.reply)[0].canister_id, inst: false });
      if (o.k.method === 'install_code') { const id = decode(o.k.arg)[0].canister_id, x = op.created.find(c => c.id === id); if (x) x.inst = true; else op.created.push({ id, inst: true }); }
    }
    // installed, but the NFT canister still has it as created: it will ask to install it again, which is refused for ever
    if (op && ev.kind === 'response' && o.k.method === 'install_code' && ev.r.reply !== undefined && cur.exec && !cur.exec.ok) { const id = decode(o.k.arg)[0].canister_id; if (this.stor.get(id) === 'created') this.stuck = id; }
    let changed = false;
    if (o && o.c === this.core && ev.kind === 'response' && o.k.method === 'cancel_upload' && !op && cur.exec && cur.exec.ok) this.gcDone(ev, o);
    for (const op of [...this.ops.values()]) if (op.started) { const r = this.sim.results.get(op.n); if (r.status !== 'pending') { this.ops.delete(op.n); this.sim.results.delete(op.n); this.endOp(op, r); changed = true; } }
    if (changed || (o && o.k && o.k.method === 'cancel_upload' && ev.kind === 'response')) this.compare();
  }
  gcDone(ev, o) {
    const p = decode(o.k.arg)[0].file_path, f = this.files.get(p); if (!f) return; this.note('gc_answer');
    const v = ev.r.reply !== undefined ? decode(ev.r.reply)[0] : null;
    if (v && (v.Ok !== undefined || errKind(v) === 'UploadNotInitialized')) { this.files.delete(p); this.note('gc_collected'); }
    else this.note('gc_failed');
  }
  endOp(op, r) {
    const at = `${op.m}(${canon(op.q).slice(0, 300)}) by ${op.who}`, f = this.files.get(op.p), v = r.status === 'reply' ? decode(r.reply)[0] : null, kind = errKind(v), ok = v && v.Ok !== undefined;
    this.cov.add(['up', op.m, ok ? 'ok' : kind || 'rej', op.f0 ? op.f0.state : '-', Math.min(3, this.stor.size), Math.min(5, this.files.size), op.faulted ? 'f' : '', op.trapped ? 't' : ''].join(':'));
    this.note((ok ? 'did_' : 'refused_') + op.m);
    if (!op.perm) { if (ok || (v && kind !== null)) this.fail(['N13'], 'permission_missing_' + op.m, `${at} without ${NEED[op.m]} was answered ${canon(v)}`); return this.commitStor(op, v); }
    if (!ok && v === null && /permission/i.test(r.msg) && !op.faulted) { this.fail(['N13'], 'permission_refused', `${at} holding ${NEED[op.m]} was refused: ${r.msg}`); return; }
    if (op.holder) {
      this.note('excluded_tried');
      if (kind === 'ConcurrentManagementCall') this.note('excluded');
      else if (!(v === null && op.faulted)) this.fail(['N15'], 'not_excluded_' + op.m, `${at} was answered ${v ? canon(v) : r.msg} while ${op.holder} was waiting for another canister`);
      if (!ok) return;
    } else if (kind === 'ConcurrentManagementCall') { this.fail(['N15'], 'lock_not_released', `${at} was refused with ConcurrentManagementCall although no other management call is running`); return; }
    if (ok && op.not) this.fail(['N16'], 'accepted_' + op.m, `${at} succeeded although ${op.not}`);
    if (!ok && op.must && !op.faulted) this.fail(['N16', ...(op.m === 'init_upload' ? ['N17', 'N18'] : [])], 'failed_' + op.m, `${at} failed with ${v ? canon(v) : r.msg} though nothing stands against it (file ${canon(op.f0 || null)})`);
    if (ok) {
      switch (op.m) {
        case 'init_upload': {
          const can = op.accepted;
          if (!can || !this.mir(can, op.p)) this.fail(['N16'], 'init_nowhere', `${at} succeeded but no storage canister accepted it`);
          this.files.set(op.p, { state: 'Init', can, since: this.now }); break;
        }
        case 'store_chunk': if (f) f.state = 'InProgress'; { const mf = f && this.mir(f.can, op.p); if (!mf || !mf.chunks.has(Number(op.q.chunk_id))) this.fail(['N16'], 'stored_nowhere', `${at} succeeded but the storage canister does not hold the chunk`); } break;
        case 'finalize_upload': {
          if (!f) break; f.state = 'Finalized'; const mf = this.mir(f.can, op.p);
          if (!mf || mf.state !== 'final') this.fail(['N16'], 'finalised_nowhere', `${at} succeeded but the storage canister did not finalise the file`);
          const url = `https://${this.core.id}.raw.icp0.io${urlOf(op.p)}`; if (v.Ok.url !== url) this.fail(['N16'], 'finalise_url', `${at} returned ${v.Ok.url}, expected ${url}`);
          this.note('finalised'); if (this.httpPaths.length < 4 && plain(op.p)) this.httpPaths.push(urlOf(op.p)); break;
        }
        case 'cancel_upload': this.files.delete(op.p); break;
      }
    }
    this.commitStor(op, v);
    if (ok && op.m === 'finalize_upload') this.checkHttp([op.p]);
  }
  commitStor(op, v) {
    if (op.m !== 'init_upload' || !op.created.length) return;
    for (const x of op.created) {
      if (x.inst) this.stor.set(x.id, 'installed'); else if (!op.trapped) { if (!this.stor.has(x.id)) this.stor.set(x.id, 'created'); } else this.note('created_canister_forgotten');
      if (op.trapped && x.inst) this.note('trap_after_install');
    }
    this.checkStor();
  }
  storList() { const h = this.permHolder('ManageAuthorities'); if (!h) return null; const r = this.q('get_all_storage_subcanisters', [], h); if (!Array.isArray(r)) { this.fail(['N13', 'N17'], 'storage_list_refused', canon(r)); return null; } return r.map(String); }
  checkStor() {
    const l = this.storList(); if (!l) return;
    if (new Set(l).size !== l.length) this.fail(['N17'], 'storage_listed_twice', canon(l));
    for (const [id, st] of this.stor) if (st === 'installed' && !l.includes(id)) this.fail(['N17'], 'storage_not_listed', `storage canister ${id} was created and installed but get_all_storage_subcanisters lists ${canon(l)}`);
    for (const id of l) { const c = this.sim.canisters.get(id); if (!c || c.createdBy !== this.core.id) this.fail(['N17'], 'storage_foreign', `get_all_storage_subcanisters lists ${id}, which was never created`); }
  }
  // ---- what the NFT canister reports
  uploadList() {
    const rd = this.permHolder('ReadUploads'); if (!rd) return null; const out = new Map(); let off = 0;
    this.listed = (this.listed || 0) + 1; const take = [null, 1, 3, null, 2, 7][this.listed % 6]; // whole, and page by page
    for (; ;) {
      const r = this.q('get_all_uploads', [off || null, take], rd); if (!r || !r.Ok) { this.fail(['N16', 'N13'], 'uploads_refused', canon(r)); return null; }
      if (r.Ok.length > (take || 100)) this.fail(['N16'], 'upload_page_long', `get_all_uploads(${off}, ${take}) returns ${r.Ok.length} entries`);
      for (const [p, s] of r.Ok) { if (out.has(p)) this.fail(['N16'], 'upload_listed_twice', `get_all_uploads(${off}, ${take}) repeats ${p}`); out.set(p, Object.keys(s)[0]); }
      if (r.Ok.length < (take || 100)) break; off += r.Ok.length;
    }
    if (this.listed % 4 === 0) { const r = this.q('get_all_uploads', ['18446744073709551616', null], rd); if (!r || !r.Ok || r.Ok.length) this.fail(['N16'], 'upload_page_beyond', `get_all_uploads(2^64, null) is ${canon(r)}`); }
    return out;
  }
  compare() {
    const l = this.uploadList(); if (!l) return; const rd = this.permHolder('ReadUploads');
    for (const [p, s] of l) {
      const f = this.files.get(p);
      if (!f) { this.fail(['N16', 'N18'], 'upload_unknown', `get_all_uploads reports ${p} as ${s}, it must not be known`); continue; }
      if (f.state !== s) { this.fail(['N16', 'N18'], 'upload_state', `get_all_uploads reports ${p} as ${s}, it is ${f.state}`); f.state = s; }
    }
    for (const [p, f] of [...this.files]) {
      if (!l.has(p)) { this.fail(['N16', 'N18', 'N15'], 'upload_vanished', `${p} (${f.state}, ${(this.now - f.since) / 1000000000n} s old) is no longer reported`); this.files.delete(p); }
      else { const r = this.q('get_upload_status', [p], rd); if (!r || !r.Ok || Object.keys(r.Ok)[0] !== f.state) this.fail(['N16', 'N18'], 'upload_status', `get_upload_status(${p}) is ${canon(r)}, it is ${f.state}`); }
    }
    for (const p of [...this.everPaths].slice(-4)) if (!this.files.has(p)) { const r = this.q('get_upload_status', [p], rd); if (r && r.Ok !== undefined) this.fail(['N16', 'N18'], 'upload_status', `get_upload_status(${p}) is ${canon(r)}, it is not an upload`); }
  }
  get(id, url, types = S.core) { const r = this.sim.query(id, principal('@anon'), 'http_request', encode(types.http_request, [{ method: 'GET', url, headers: [], body: '', certificate_version: 2 }])); return r.reply === undefined ? { trap: r.msg } : decode(r.reply)[0]; }
  // what a gateway does when the query answer asks for it: the same request as an update call
  warm(id, url) { const n = this.sim.submit(id, principal('@anon'), 'http_request_update', encode(S.storage.http_request, [{ method: 'GET', url, headers: [], body: '', certificate_version: 2 }])); this.sim.step(this.sim.enabled().find(e => e.kind === 'ingress' && e.n === n), {}); this.sim.results.delete(n); }
  checkHttp(only) {
    for (const p of only || [...new Set([...this.files.keys(), ...this.everPaths])]) {
      if (!plain(p)) continue;
      const f = this.files.get(p), url = urlOf(p), r = this.get(this.core.id, url), loc = r.headers && (r.headers.find(h => h[0].toLowerCase() === 'location') || [])[1];
      if (f && f.state === 'Finalized') {
        const want = `https://${f.can}.raw.icp0.io${url}`; this.note('redirects');
        if (r.trap !== undefined || Number(r.status_code) !== 307 || loc !== want) { this.fail(['N16', 'N22'], 'no_redirect', `GET ${url} on the NFT canister: ${r.trap || r.status_code + ' ' + loc}, expected a redirect to ${want}`); continue; }
        const e = verify(r, url, this.core.cert); if (e) this.fail(['N22'], 'certificate', `GET ${url} on the NFT canister: ${e}`);
        const mf = this.mir(f.can, p); if (!mf || mf.state !== 'final') continue;
        if (this.sim.canisters.get(f.can).status !== 'running') continue;
        let s = this.get(f.can, url, S.storage); const b = this.bytes(mf);
        if (s.upgrade === true) { this.note('served_cold'); this.warm(f.can, url); s = this.get(f.can, url, S.storage); }
        if (s.trap !== undefined || Number(s.status_code) !== 200 || Buffer.compare(Buffer.from(s.body, typeof s.body === 'string' ? 'hex' : undefined), b) !== 0) this.fail(['N16'], mf.again && mf.ackLost ? 'finalize_retry_loses_bytes' : 'served_bytes', `GET ${want} returns ${s.trap || s.status_code}, ${s.body ? s.body.length : 0} bytes, uploaded were ${b.length}`);
      } else {
        const alias = this.taken(p), a = alias && this.files.get(alias);
        if (a && a.state === 'Finalized') continue; // the same url under another spelling
        if (loc !== undefined && r.trap === undefined) this.fail(['N22', 'N16'], 'redirect_unfinalised', `GET ${url} redirects to ${loc} although ${p} is ${f ? f.state : 'not an upload'}`);
      }
    }
    if (!only) for (const url of ['/metrics', '/logs', '/traces']) {
      const r = this.get(this.core.id, url);
      if (r.trap !== undefined || Number(r.status_code) !== 200) { this.fail(['N22'], 'system_page', `GET ${url}: ${r.trap || r.status_code}`); continue; }
      const e = verify(r, url, this.core.cert); if (e) this.fail(['N22'], 'certificate', `GET ${url}: ${e}`); this.note('system_pages');
    }
  }
  children() { return this.storList() || []; }
  doUpgrade(a) {
    this.background(); if (this.core.open.size) return; const ok0 = this.upgradesOk;
    super.doUpgrade(a);
    if (this.upgradesOk > ok0) this.note('upgraded_uploads_' + Math.min(3, this.files.size));
    this.compare(); this.checkStor(); this.checkHttp();
  }
  run1(m, q, who) { this.submitOp({ m, w: who, a: [q] }); const n = Math.max(...this.ops.keys()), op = this.ops.get(n); this.background(); return op; }
  finish() {
    // faults stop: canisters run, cycles are plenty, everything is delivered
    for (const c of this.sim.canisters.values()) c.status = 'running';
    this.core.cycles = 20_000_000_000_000_000n; this.background();
    for (const op of this.ops.values()) this.fail(['N15'], 'call_never_answered', `${op.m}(${op.p}) was never answered`);
    this.compare(); this.checkStor(); this.checkHttp();
    const r = this.callUpdate({ w: '@u0', m: 'burn_nft', a: ['999999'] }, ['999999']);
    if (!r.val || errKind(r.val) !== 'TokenDoesNotExist') this.fail(['N15'], 'lock_not_released', `with every call ended, a management call is answered ${canon(r)}`); else this.note('lock_free_at_end');
    const up = this.permHolder('UpdateUploads'); if (!up) return;
    const open = [...this.files].filter(([, f]) => f.state !== 'Finalized'); const rng = new (require('./prng').Rng)('fin', this.cfg.seed);
    for (const [p] of open) if (rng.chance(0.35)) this.run1('cancel_upload', { file_path: p }, up);
    const left = [...this.files].filter(([p, f]) => f.state !== 'Finalized' && !(this.mir(f.can, p) && this.mir(f.can, p).state === 'final')), fin = [...this.files].filter(([, f]) => f.state === 'Finalized').map(x => x[0]);
    this.sim.advance(DAY + 1_000_000_000n); this.background(); this.sim.advance(DAY + 1_000_000_000n); this.background(); this.compare();
    for (const [p, f] of left) if (this.files.has(p)) this.fail(['N18'], 'abandoned_upload_kept', `${p} (${f.state}) was initialised ${(this.now - f.since) / 1000000000n} s ago and is still there after two daily collections`);
    for (const p of fin) if (!this.files.has(p) || this.files.get(p).state !== 'Finalized') this.fail(['N18', 'N16'], 'finalised_collected', `${p} was finalised and is gone`);
    if (this.cfg.prop === 'N18' && rng.chance(0.6)) { // an upload that a client keeps touching is as old as its start
      const p = 'kept-' + this.nAct, H = 3_600_000_000_000n;
      this.run1('init_upload', { file_hash: 'ab', file_path: p, file_size: 30, chunk_size: '1' }, up);
      if (this.files.has(p)) {
        const since = this.files.get(p).since, upg = rng.chance(0.3);
        for (let i = 1; i <= 5; i++) {
          this.run1('store_chunk', { file_path: p, chunk_id: i, chunk_data: '00' }, up);
          this.sim.advance(10n * H + 1_000_000_000n); this.background(); this.compare();
          if (i === 1 && upg) this.doUpgrade({ t: 'g' });
        }
        this.note('touched_upload_aged');
        if (this.files.has(p)) this.fail(['N18'], 'abandoned_upload_kept', `${p} was initialised ${(this.now - since) / 1000000000n} s ago, got a chunk every ten hours and is still there`);
      }
    }
    // a freed path can be used again, and an upload goes through
    const p = left.length ? left[0][0] : 'final-' + this.nAct, data = Buffer.from('last upload ' + this.nAct), hash = sha256(data).toString('hex');
    if (plain(p) && !this.taken(p)) {
      const n0 = this.stor.size, can = [...this.stor].filter(x => x[1] === 'installed').length;
      this.run1('init_upload', { file_hash: hash, file_path: p, file_size: data.length, chunk_size: '8' }, up);
      for (let i = 0; i * 8 < data.length; i++) this.run1('store_chunk', { file_path: p, chunk_id: i, chunk_data: data.subarray(i * 8, i * 8 + 8).toString('hex') }, up);
      this.run1('finalize_upload', { file_path: p }, up);
      const f = this.files.get(p); if (!f || f.state !== 'Finalized') this.fail(['N16', 'N15', 'N18'], this.stuck ? 'created_canister_stuck' : 'no_progress', `an upload of ${p} after all faults stopped ends as ${f ? f.state : 'nothing'}`);
    }
    this.checkFunding('at the end', 700_000_000_000n);
    this.checkHttp(); this.checkStor();
    for (const k of ['own', 'log', 'set', 'perm']) this.sweep({ t: 'c', k, r: 7 });
  }
}
module.exports = { World: UploadWorld, plain, trimL, urlOf, UP, MGMT_OPS };
