'use strict';
// Deterministic Internet Computer replica simulator: runs real canister wasm with every ic0 System-API import
// implemented here. Message execution, rollback on trap, call contexts, call-backs, timers, stable memory,
// certified data, canister lifecycle and the management canister follow the IC interface specification.
const crypto = require('crypto');
const wasm = require('./wasm');
const { T, encode, decode, pText, pBytes, sha256, know } = require('./candid');
know('canister_id', 'settings', 'controllers', 'mode', 'install', 'reinstall', 'upgrade', 'wasm_module', 'arg', 'sender_canister_version', 'compute_allocation', 'memory_allocation', 'freezing_threshold', 'reserved_cycles_limit', 'num_requested_changes');

class Trap extends Error {}
const PAGE = 65536;

class Stable {
  constructor() { this.pages = new Map(); this.size = 0; this.j = null; this.jsize = 0; }
  begin() { if (this.j) throw new Error('nested stable journal'); this.j = new Map(); this.jsize = this.size; }
  commit() { this.j = null; }
  rollback() { for (const [i, p] of this.j) { if (p) this.pages.set(i, p); else this.pages.delete(i); } this.size = this.jsize; this.j = null; }
  read(off, out) {
    let pos = 0;
    while (pos < out.length) { const a = off + pos, i = Math.floor(a / PAGE), o = a % PAGE, n = Math.min(PAGE - o, out.length - pos); const p = this.pages.get(i); if (p) out.set(p.subarray(o, o + n), pos); else out.fill(0, pos, pos + n); pos += n; }
  }
  write(off, src) {
    let pos = 0;
    while (pos < src.length) {
      const a = off + pos, i = Math.floor(a / PAGE), o = a % PAGE, n = Math.min(PAGE - o, src.length - pos);
      let p = this.pages.get(i);
      if (this.j && !this.j.has(i)) this.j.set(i, p ? p.slice() : null);
      if (!p) { p = new Uint8Array(PAGE); this.pages.set(i, p); }
      p.set(src.subarray(pos, pos + n), o); pos += n;
    }
  }
}

const SYS_FATAL = 1, SYS_TRANSIENT = 2, DEST_INVALID = 3, CAN_REJECT = 4, CAN_ERROR = 5, SYS_UNKNOWN = 6;
const MGMT = 'aaaaa-aa';

class Canister {
  constructor(sim, id) {
    this.sim = sim; this.id = id; this.idBytes = pBytes(id);
    this.status = 'running'; this.controllers = []; this.cycles = 0n;
    this.stable = new Stable(); this.timer = 0n; this.cert = Buffer.alloc(0);
    this.callbacks = new Map(); this.open = new Set(); this.loaded = null; this.inst = null; this.version = 1n;
    this.debug = [];
  }
  instantiate(loaded) {
    const c = this;
    const imports = { ic0: {} };
    for (const im of loaded.imports) {
      if (im.module !== 'ic0' || !this.sim.ic0[im.name]) throw new Error('unsupported import ' + im.module + '.' + im.name);
      const f = this.sim.ic0[im.name], sim = this.sim;
      imports.ic0[im.name] = function () { sim.point(); return f.apply(c, arguments); };
    }
    const inst = new WebAssembly.Instance(loaded.module, imports);
    const globals = Object.keys(inst.exports).filter(n => n.startsWith('__sim_g')).map(n => inst.exports[n]);
    return { inst, mem: inst.exports.memory, table: inst.exports.__sim_table, globals, loaded, shadow: null, shadowLen: 0, gvals: null };
  }
  // make the current heap the committed one
  commitHeap() {
    const h = this.inst, cur = new Uint8Array(h.mem.buffer);
    if (!h.shadow || h.shadow.length < cur.length) h.shadow = new Uint8Array(cur.length + 16 * PAGE);
    h.shadow.set(cur); h.shadowLen = cur.length; h.gvals = h.globals.map(g => g.value);
  }
  restoreHeap() {
    let h = this.inst;
    if (h.mem.buffer.byteLength > h.shadowLen + 64 * PAGE) { // the discarded execution grew the heap: start from a fresh instance
      const n = this.instantiate(h.loaded); n.shadow = h.shadow; n.shadowLen = h.shadowLen; n.gvals = h.gvals;
      const need = (h.shadowLen - n.mem.buffer.byteLength) / PAGE; if (need > 0) n.mem.grow(need);
      this.inst = h = n; this.sim.stats.reinstantiations++;
    }
    const cur = new Uint8Array(h.mem.buffer);
    cur.set(h.shadow.subarray(0, h.shadowLen)); if (cur.length > h.shadowLen) cur.fill(0, h.shadowLen);
    h.globals.forEach((g, i) => { g.value = h.gvals[i]; });
  }
  u8() { return new Uint8Array(this.inst.mem.buffer); }
  get(ptr, len) { ptr >>>= 0; len >>>= 0; const m = this.inst.mem.buffer; if (ptr + len > m.byteLength) throw new Trap('out of bounds'); return Buffer.from(new Uint8Array(m, ptr, len)); }
  put(ptr, src) { ptr >>>= 0; const m = this.u8(); if (ptr + src.length > m.length) throw new Trap('out of bounds'); m.set(src, ptr); }
}

class Sim {
  constructor(opts = {}) {
    this.opts = opts;
    this.time = 1_700_000_000_000_000_000n;
    this.canisters = new Map();
    this.seq = 0; this.ctxSeq = 0; this.cbSeq = 0; this.nextCan = 1;
    this.ingress = []; this.requests = []; this.responses = []; // pending messages
    this.results = new Map();
    this.cur = null;
    this.stats = { execs: 0, queries: 0, traps: 0, injected: {}, reinstantiations: 0, steps: 0 };
    this.hash = crypto.createHash('sha256'); this.logLines = opts.log ? [] : null;
    this.ic0 = this.buildIc0();
    this.onRequest = null;      // hook: observe inter-canister requests
    this.onExec = null;         // hook: observe executed messages
    this.raw = 0;
  }
  log(line) { this.hash.update(line + '\n'); if (this.logLines) this.logLines.push(line); }
  digest() { return this.hash.copy().digest('hex'); }
  fault(kind) { this.stats.injected[kind] = (this.stats.injected[kind] || 0) + 1; this.log('FAULT ' + kind); }
  point() {
    const e = this.cur; if (!e) throw new Error('ic0 call outside execution');
    e.points++;
    if (e.trapAt !== undefined && e.points === e.trapAt) { e.injected = true; throw new Trap('injected trap (instruction limit)'); }
  }
  newId() { const b = Buffer.alloc(10); b.writeBigUInt64BE(BigInt(this.nextCan++)); b[8] = 1; b[9] = 1; return pText(b); }
  can(id) { const c = this.canisters.get(id); if (!c) throw new Error('no canister ' + id); return c; }

  buildIc0() {
    const sim = this, E = () => sim.cur;
    const u128 = (c, dst, v) => { const b = Buffer.alloc(16); b.writeBigUInt64LE(v & 0xffffffffffffffffn); b.writeBigUInt64LE(v >> 64n, 8); c.put(dst, b); };
    const copy = (c, src, dst, off, size) => { off >>>= 0; size >>>= 0; if (off + size > src.length) throw new Trap('copy out of bounds'); c.put(dst, src.subarray(off, off + size)); };
    return {
      time() { return sim.time; },
      global_timer_set(t) { const e = E(); const old = e.timer !== undefined ? e.timer : this.timer; e.timer = BigInt.asUintN(64, t); return old; },
      canister_version() { return this.version; },
      canister_self_size() { return this.idBytes.length; },
      canister_self_copy(d, o, s) { copy(this, this.idBytes, d, o, s); },
      msg_caller_size() { return E().caller.length; },
      msg_caller_copy(d, o, s) { copy(this, E().caller, d, o, s); },
      msg_arg_data_size() { return E().arg.length; },
      msg_arg_data_copy(d, o, s) { copy(this, E().arg, d, o, s); },
      msg_reject_code() { return E().rejectCode || 0; },
      msg_reject_msg_size() { return E().rejectMsg.length; },
      msg_reject_msg_copy(d, o, s) { copy(this, E().rejectMsg, d, o, s); },
      msg_reply_data_append(p, n) { const e = E(); if (!e.canReply) throw new Trap('reply not allowed'); e.reply.push(this.get(p, n)); },
      msg_reply() { const e = E(); if (!e.canReply || e.response) throw new Trap('already replied'); e.response = { reply: Buffer.concat(e.reply) }; },
      msg_reject(p, n) { const e = E(); if (!e.canReply || e.response) throw new Trap('already replied'); e.response = { reject: CAN_REJECT, msg: this.get(p, n).toString() }; },
      msg_cycles_available128(d) { u128(this, d, 0n); },
      debug_print(p, n) { if (sim.opts.debug) { this.debug.push(this.get(p, n).toString()); if (this.debug.length > 400) this.debug.shift(); } },
      trap(p, n) { throw new Trap('canister trap: ' + this.get(p, n).toString()); },
      stable64_size() { return BigInt(this.stable.size); },
      stable64_grow(n) {
        const e = E(); n = Number(n);
        if (e.failGrow && n > 0) { e.growFailed = true; return -1n; }
        if (this.stable.size + n > 1 << 20) return -1n;
        const o = this.stable.size; this.stable.size += n; return BigInt(o);
      },
      stable64_read(dst, off, len) { const n = Number(len), o = Number(off), d = Number(dst); if (o + n > this.stable.size * PAGE) throw new Trap('stable oob'); const m = this.u8(); if (d + n > m.length) throw new Trap('oob'); this.stable.read(o, m.subarray(d, d + n)); },
      stable64_write(off, src, len) { const n = Number(len), o = Number(off), s = Number(src); if (o + n > this.stable.size * PAGE) throw new Trap('stable oob'); const m = this.u8(); if (s + n > m.length) throw new Trap('oob'); this.stable.write(o, m.subarray(s, s + n)); },
      certified_data_set(p, n) { if (n > 32) throw new Trap('certified data too long'); E().cert = this.get(p, n); },
      data_certificate_present() { return E().kind === 'query' && !E().replicated ? 1 : 0; },
      data_certificate_size() { return sim.certificate(this).length; },
      data_certificate_copy(d, o, s) { copy(this, sim.certificate(this), d, o, s); },
      canister_cycle_balance128(d) { u128(this, d, this.cycles + E().cyc); },
      canister_liquid_cycle_balance128(d) { u128(this, d, this.cycles + E().cyc); },
      cost_call(a, b, d) { u128(this, d, 300_000n); },
      performance_counter() { return BigInt(E().points) * 1000n; },
      call_new(cp, cn, mp, mn, rf, re, jf, je) {
        const e = E(); if (!e.canCall) throw new Trap('call not allowed here');
        e.call = { to: pText(this.get(cp, cn)), method: this.get(mp, mn).toString(), rf, re, jf, je, cf: null, ce: null, data: [], cycles: 0n, best: 0 };
      },
      call_on_cleanup(f, env) { const k = E().call; if (!k) throw new Trap('no call'); k.cf = f; k.ce = env; },
      call_data_append(p, n) { const k = E().call; if (!k) throw new Trap('no call'); k.data.push(this.get(p, n)); },
      call_cycles_add128(hi, lo) { const e = E(), k = e.call; const a = (BigInt.asUintN(64, hi) << 64n) | BigInt.asUintN(64, lo); if (this.cycles + e.cyc < a) throw new Trap('out of cycles'); e.cyc -= a; k.cycles += a; },
      call_with_best_effort_response(t) { const k = E().call; if (!k) throw new Trap('no call'); k.best = t || 1; },
      call_perform() {
        const e = E(), k = e.call; if (!k) throw new Trap('no call'); e.call = null;
        e.performed = (e.performed || 0) + 1;
        if (e.failPerform && e.failPerform === e.performed) { e.cyc += k.cycles; e.performFailed = true; return SYS_TRANSIENT; }
        k.arg = Buffer.concat(k.data); e.calls.push(k); return 0;
      },
    };
  }
  certificate(c) { // stub certificate: carries the certified data, no subnet signature
    return Buffer.concat([Buffer.from('SIMCERT1'), c.cert]);
  }

  // ---- raw execution. Returns {ok, trap}; on success effects are in the execution record.
  run(c, fn, e) {
    e.points = 0; e.reply = []; e.calls = []; e.cyc = 0n; e.call = null; e.response = null;
    if (this.cur) throw new Error('re-entrant execution');
    this.cur = e; this.raw++;
    try { fn(); e.ok = true; } catch (err) {
      if (err instanceof Trap || err instanceof WebAssembly.RuntimeError || (err instanceof RangeError && /call stack/.test(err.message))) { e.ok = false; e.trap = err.message; } else throw err;
    } finally { this.cur = null; }
    return e.ok;
  }
  // execute with commit/rollback of heap, stable memory, timer, certified data, cycles
  transact(c, fn, e, discard = false) {
    if (!c.stable.j) { c.stable.begin(); e.ownJ = true; }
    const ok = this.run(c, fn, e);
    if (ok && !discard) {
      c.commitHeap(); if (e.ownJ) c.stable.commit();
      if (e.timer !== undefined) c.timer = e.timer;
      if (e.cert !== undefined) c.cert = e.cert;
      c.cycles += e.cyc; c.version++;
    } else {
      if (e.ownJ) c.stable.rollback();
      c.restoreHeap();
      if (!ok) this.stats.traps++;
    }
    if (e.injected) this.fault('trap');
    if (e.growFailed) this.fault('stable_grow_failure');
    if (e.performFailed) this.fault('call_perform_failure');
    return ok;
  }

  // ---- lifecycle
  create(id, { controllers = [], cycles = 100_000_000_000_000n } = {}) {
    id = id || this.newId();
    const c = new Canister(this, id); c.controllers = controllers.slice(); c.cycles = cycles; this.canisters.set(id, c); return c;
  }
  install(c, bytes, arg, caller, fault = {}) {
    let loaded;
    try { loaded = wasm.load(bytes); } catch (e) { return { ok: false, err: 'invalid wasm ' + e.message }; }
    const old = c.inst;
    c.stable = new Stable(); c.timer = 0n; c.cert = Buffer.alloc(0); c.callbacks.clear();
    c.inst = c.instantiate(loaded); c.loaded = loaded;
    c.commitHeap();
    const e = { kind: 'init', arg, caller: pBytes(caller), trapAt: fault.trap, failGrow: fault.grow };
    const ok = this.transact(c, () => c.inst.inst.exports.canister_init && c.inst.inst.exports.canister_init(), e);
    this.log(`install ${c.id} ok=${ok} ${e.trap || ''}`);
    if (!ok) { c.inst = old; if (!old) { c.loaded = null; } }
    return { ok, err: e.trap };
  }
  upgrade(c, bytes, arg, caller, fault = {}) {
    // caller must have drained the canister (stopped, no open call contexts)
    if (c.open.size) throw new Error('upgrade with open call contexts');
    const loaded = wasm.load(bytes), old = c.inst, oldTimer = c.timer, oldCert = c.cert;
    c.stable.begin();
    const e1 = { kind: 'pre_upgrade', arg: Buffer.alloc(0), caller: pBytes(caller), trapAt: fault.pre, failGrow: fault.grow };
    let ok = this.run(c, () => old.inst.exports.canister_pre_upgrade && old.inst.exports.canister_pre_upgrade(), e1);
    let err = e1.trap, phase = 'pre';
    if (e1.injected) this.fault('trap_pre_upgrade'); if (e1.growFailed) this.fault('stable_grow_failure');
    if (ok) {
      if (e1.cert !== undefined) c.cert = e1.cert;
      c.timer = 0n; c.inst = c.instantiate(loaded); c.commitHeap();
      const e2 = { kind: 'post_upgrade', arg, caller: pBytes(caller), trapAt: fault.post };
      phase = 'post';
      ok = this.run(c, () => c.inst.inst.exports.canister_post_upgrade && c.inst.inst.exports.canister_post_upgrade(), e2);
      err = e2.trap;
      if (e2.injected) this.fault('trap_post_upgrade');
      if (ok) { c.commitHeap(); c.stable.commit(); c.loaded = loaded; if (e2.timer !== undefined) c.timer = e2.timer; if (e2.cert !== undefined) c.cert = e2.cert; c.version++; c.callbacks.clear(); }
    }
    if (!ok) { c.stable.rollback(); c.inst = old; c.restoreHeap(); c.timer = oldTimer; c.cert = oldCert; this.stats.traps++; }
    this.log(`upgrade ${c.id} ok=${ok} ${phase} ${err || ''}`);
    return { ok, err, phase };
  }

  // ---- messaging
  submit(id, caller, method, arg) {
    const m = { n: ++this.seq, kind: 'ingress', to: id, caller, method, arg };
    this.ingress.push(m); this.results.set(m.n, { status: 'pending', method, caller, at: this.time });
    this.log(`submit #${m.n} ${caller}->${id}.${method} ${sha256(arg).toString('hex').slice(0, 12)}`);
    return m.n;
  }
  enabled() {
    const ev = [];
    for (const m of this.ingress) ev.push(m);
    const heads = new Set();
    for (const m of this.requests) { const k = m.from + '>' + m.to; if (!heads.has(k)) { heads.add(k); ev.push(m); } }
    for (const m of this.responses) ev.push(m);
    for (const c of this.canisters.values()) if (c.inst && c.timer !== 0n && c.timer <= this.time && c.status === 'running') ev.push({ kind: 'timer', to: c.id, n: 0 });
    return ev;
  }
  settle(max = 400, pick = null) {
    let n = 0;
    for (; n < max; n++) { const ev = this.enabled(); if (!ev.length) break; ev.sort((a, b) => a.n - b.n); this.step(pick ? pick(ev) : ev[0]); }
    return n;
  }
  step(m, fault = {}) {
    this.stats.steps++;
    switch (m.kind) {
      case 'ingress': { this.ingress.splice(this.ingress.indexOf(m), 1); this.deliver(m, fault); break; }
      case 'request': {
        this.requests.splice(this.requests.indexOf(m), 1);
        if (fault.reject) { this.fault('call_reject_' + fault.reject); this.respond(m, { reject: fault.reject, msg: 'injected system reject' }); }
        else { if (fault.unknown && m.best) { m.loseReply = true; } this.deliver(m, fault); }
        break;
      }
      case 'response': { this.responses.splice(this.responses.indexOf(m), 1); this.callback(m, fault); break; }
      case 'timer': {
        const c = this.can(m.to); const t = c.timer; c.timer = 0n;
        const ctx = this.newCtx(c, { kind: 'timer' });
        this.log(`timer ${c.id} due=${t} now=${this.time}`);
        this.execUpdate(c, ctx, c.inst.inst.exports.canister_global_timer, { arg: Buffer.alloc(0), caller: pBytes(MGMT), canReply: false }, fault, 'canister_global_timer');
        break;
      }
    }
  }
  newCtx(c, origin) { const x = { id: ++this.ctxSeq, c, origin, responded: origin.kind === 'timer', pending: 0, calls: 0 }; c.open.add(x); return x; }
  deliver(m, fault) {
    if (m.to === MGMT) return this.mgmt(m, fault);
    const c = this.canisters.get(m.to);
    const origin = m.kind === 'ingress' ? { kind: 'ingress', n: m.n } : { kind: 'request', m };
    const fail = (code, msg) => this.respondOrigin(origin, { reject: code, msg });
    if (!c || !c.inst) return fail(c ? CAN_ERROR : DEST_INVALID, c ? 'canister has no wasm module' : 'canister not found');
    if (c.status !== 'running') return fail(CAN_ERROR, 'canister is ' + c.status);
    const ex = c.inst.inst.exports;
    const upd = ex['canister_update ' + m.method], qry = ex['canister_query ' + m.method];
    const callerB = pBytes(m.kind === 'ingress' ? m.caller : m.from);
    if (upd) {
      const ctx = this.newCtx(c, origin); ctx.method = m.method; ctx.callerB = callerB;
      this.execUpdate(c, ctx, upd, { arg: m.arg, caller: callerB, canReply: true }, fault, m.method, m);
    } else if (qry) {
      const e = { kind: 'query', replicated: true, arg: m.arg, caller: callerB, canReply: true, canCall: false, trapAt: fault.trap };
      const ok = this.transact(c, () => qry(), e, true); this.stats.execs++;
      this.log(`rquery ${c.id}.${m.method} ok=${ok} ${e.trap || ''}`);
      this.respondOrigin(origin, ok ? (e.response || { reject: CAN_ERROR, msg: 'did not reply' }) : { reject: CAN_ERROR, msg: 'canister trapped: ' + e.trap });
    } else fail(CAN_ERROR, 'canister has no method ' + m.method);
  }
  execUpdate(c, ctx, fn, base, fault, name, m) {
    const e = Object.assign({ kind: 'update', canCall: true, trapAt: fault.trap, failGrow: fault.grow, failPerform: fault.perform }, base);
    const ok = this.transact(c, () => fn && fn(), e); this.stats.execs++;
    this.log(`exec ${c.id}.${name} ok=${ok} pts=${e.points} calls=${e.calls.length} ${e.trap || ''} ${e.response ? (e.response.reply ? sha256(e.response.reply).toString('hex').slice(0, 12) : 'rej') : ''}`);
    if (ok) this.applyEffects(c, ctx, e);
    else if (!ctx.responded) { ctx.responded = true; this.respondOrigin(ctx.origin, { reject: CAN_ERROR, msg: 'canister trapped: ' + e.trap }); }
    this.finishCtx(c, ctx);
    if (this.onExec) this.onExec({ c, name, m, ctx, ok, trap: e.trap, response: e.response });
    return e;
  }
  applyEffects(c, ctx, e) {
    for (const k of e.calls) {
      const cb = ++this.cbSeq; c.callbacks.set(cb, { ctx, k }); ctx.pending++; ctx.calls++;
      const m = { n: ++this.seq, kind: 'request', from: c.id, to: k.to, method: k.method, arg: k.arg, cycles: k.cycles, cb, best: k.best, at: this.time };
      this.requests.push(m);
      this.log(`req #${m.n} ${c.id}->${k.to}.${k.method} best=${k.best} ${sha256(k.arg).toString('hex').slice(0, 12)}`);
      if (this.onRequest) this.onRequest(m);
    }
    if (e.response && !ctx.responded) { ctx.responded = true; this.respondOrigin(ctx.origin, e.response); }
  }
  finishCtx(c, ctx) {
    if (ctx.pending === 0) {
      if (!ctx.responded) { ctx.responded = true; this.respondOrigin(ctx.origin, { reject: CAN_ERROR, msg: 'canister did not produce a response' }); }
      c.open.delete(ctx);
    }
  }
  respondOrigin(origin, r) {
    if (origin.kind === 'ingress') {
      const res = this.results.get(origin.n); res.status = r.reply !== undefined ? 'reply' : 'reject'; res.reply = r.reply; res.reject = r.reject; res.msg = r.msg; res.done = this.time;
      this.log(`result #${origin.n} ${res.status} ${r.reply !== undefined ? sha256(r.reply).toString('hex').slice(0, 12) : r.reject + ' ' + r.msg}`);
    } else if (origin.kind === 'request') this.respond(origin.m, r);
  }
  respond(req, r) {
    if (req.loseReply) { this.fault('reply_lost_sys_unknown'); r = { reject: SYS_UNKNOWN, msg: 'injected: response unknown' }; }
    this.responses.push({ n: ++this.seq, kind: 'response', to: req.from, cb: req.cb, r, method: req.method, refund: r.reply === undefined ? req.cycles : (r.refund || 0n) });
  }
  callback(m, fault) {
    const c = this.can(m.to); const rec = c.callbacks.get(m.cb); if (!rec) throw new Error('unknown callback');
    c.callbacks.delete(m.cb); const { ctx, k } = rec; c.cycles += m.refund || 0n;
    const isReply = m.r.reply !== undefined;
    const e = { kind: 'callback', canCall: true, canReply: !ctx.responded, arg: isReply ? m.r.reply : Buffer.alloc(0), caller: ctx.callerB || pBytes(MGMT), rejectCode: isReply ? 0 : m.r.reject, rejectMsg: Buffer.from(isReply ? '' : m.r.msg), trapAt: fault.trap, failGrow: fault.grow, failPerform: fault.perform };
    const [f, env] = isReply ? [k.rf, k.re] : [k.jf, k.je];
    const ok = this.transact(c, () => c.inst.table.get(f >>> 0)(env), e); this.stats.execs++;
    this.log(`callback ${c.id}<-${k.to}.${k.method} ${isReply ? 'reply' : 'reject' + m.r.reject} ok=${ok} ${e.trap || ''}`);
    ctx.pending--;
    if (ok) this.applyEffects(c, ctx, e);
    else if (k.cf !== null) {
      const ec = { kind: 'cleanup', canCall: false, canReply: false, arg: Buffer.alloc(0), caller: e.caller };
      const ok2 = this.transact(c, () => c.inst.table.get(k.cf >>> 0)(k.ce), ec);
      this.log(`cleanup ${c.id} ok=${ok2} ${ec.trap || ''}`);
    }
    if (!ok && ctx.pending === 0 && !ctx.responded) { ctx.responded = true; this.respondOrigin(ctx.origin, { reject: CAN_ERROR, msg: 'canister trapped in callback: ' + e.trap }); }
    this.finishCtx(c, ctx);
    if (this.onExec) this.onExec({ c, name: 'callback:' + k.method, ctx, ok, trap: e.trap, response: e.response });
  }
  query(id, caller, method, arg) {
    const c = this.can(id); const f = c.inst.inst.exports['canister_query ' + method];
    if (!f) throw new Error('no query ' + method);
    const e = { kind: 'query', arg, caller: pBytes(caller), canReply: true, canCall: false };
    const ok = this.transact(c, () => f(), e, true); this.stats.queries++;
    if (!ok) return { reject: CAN_ERROR, msg: e.trap };
    return e.response || { reject: CAN_ERROR, msg: 'no reply' };
  }
  advance(dt) { this.time += BigInt(dt); this.log('time +' + dt); }

  // ---- management canister
  mgmt(m, fault) {
    let d; const ok = r => this.respond(m, r);
    try { d = decode(m.arg)[0]; } catch (e) { return ok({ reject: CAN_ERROR, msg: 'bad args' }); }
    this.log(`mgmt ${m.method}`);
    const isCtl = c => c && c.controllers.includes(m.from);
    switch (m.method) {
      case 'create_canister': {
        if (m.cycles < 500_000_000_000n) return ok({ reject: CAN_REJECT, msg: 'insufficient cycles for creation' });
        const ctl = d && d.settings && d.settings.controllers ? d.settings.controllers : [m.from];
        const c = this.create(null, { controllers: ctl, cycles: m.cycles - 500_000_000_000n }); c.createdBy = m.from;
        return ok({ reply: encode(MT.createRes, [{ canister_id: c.id }]) });
      }
      case 'install_code': {
        const c = this.canisters.get(d.canister_id);
        if (!isCtl(c)) return ok({ reject: CAN_ERROR, msg: 'not a controller' });
        const mode = Object.keys(d.mode)[0];
        if (mode === 'install' && c.inst) return ok({ reject: CAN_ERROR, msg: 'not empty' });
        let r;
        if (mode === 'upgrade') { if (c.open.size || !c.inst) return ok({ reject: CAN_ERROR, msg: 'cannot upgrade' }); r = this.upgrade(c, d.wasm_module, d.arg, m.from, fault); }
        else r = this.install(c, d.wasm_module, d.arg, m.from, fault);
        return ok(r.ok ? { reply: encode([], []) } : { reject: CAN_ERROR, msg: 'install failed: ' + r.err });
      }
      case 'canister_status': {
        const c = this.canisters.get(d.canister_id);
        if (!isCtl(c) && d.canister_id !== m.from) return ok({ reject: CAN_ERROR, msg: 'not a controller' });
        return ok({ reply: encode(MT.statusRes, [mkStatus(c)]) });
      }
      case 'deposit_cycles': { const c = this.canisters.get(d.canister_id); if (!c) return ok({ reject: DEST_INVALID, msg: 'no canister' }); c.cycles += m.cycles; return ok({ reply: encode([], []) }); }
      case 'start_canister': { const c = this.canisters.get(d.canister_id); if (!isCtl(c)) return ok({ reject: CAN_ERROR, msg: 'not a controller' }); c.status = 'running'; return ok({ reply: encode([], []) }); }
      case 'stop_canister': { const c = this.canisters.get(d.canister_id); if (!isCtl(c)) return ok({ reject: CAN_ERROR, msg: 'not a controller' }); c.status = 'stopped'; return ok({ reply: encode([], []) }); }
      case 'update_settings': { const c = this.canisters.get(d.canister_id); if (!isCtl(c)) return ok({ reject: CAN_ERROR, msg: 'not a controller' }); if (d.settings.controllers) c.controllers = d.settings.controllers; return ok({ reply: encode([], []) }); }
      default: return ok({ reject: CAN_REJECT, msg: 'management method not simulated: ' + m.method });
    }
  }
}
const IDLE_PER_DAY = 1000n, FREEZE_SECS = 2_592_000n, FREEZE = IDLE_PER_DAY * FREEZE_SECS / 86_400n; // reserve that keeps a canister from freezing
const MT = {
  createRes: [T.record({ canister_id: T.principal })],
  statusRes: [T.record({
    status: T.variant({ running: T.null, stopping: T.null, stopped: T.null }),
    ready_for_migration: T.bool, version: T.nat64,
    settings: T.record({ controllers: T.vec(T.principal), compute_allocation: T.nat, memory_allocation: T.nat, freezing_threshold: T.nat, reserved_cycles_limit: T.nat, log_visibility: T.variant({ controllers: T.null, public: T.null, allowed_viewers: T.vec(T.principal) }), wasm_memory_limit: T.nat, wasm_memory_threshold: T.nat, environment_variables: T.vec(T.record({ name: T.text, value: T.text })) }),
    module_hash: T.opt(T.blob), memory_size: T.nat,
    memory_metrics: T.record({ wasm_memory_size: T.nat, stable_memory_size: T.nat, global_memory_size: T.nat, wasm_binary_size: T.nat, custom_sections_size: T.nat, canister_history_size: T.nat, wasm_chunk_store_size: T.nat, snapshots_size: T.nat }),
    cycles: T.nat, reserved_cycles: T.nat, idle_cycles_burned_per_day: T.nat,
    query_stats: T.record({ num_calls_total: T.nat, num_instructions_total: T.nat, request_payload_bytes_total: T.nat, response_payload_bytes_total: T.nat }),
  })],
};
function mkStatus(c) {
  return {
    status: c.status, ready_for_migration: false, version: c.version, settings: { controllers: c.controllers, compute_allocation: 0, memory_allocation: 0, freezing_threshold: FREEZE_SECS, reserved_cycles_limit: 0, log_visibility: 'controllers', wasm_memory_limit: 0, wasm_memory_threshold: 0, environment_variables: [] },
    module_hash: c.loaded ? Buffer.from(c.loaded.hash, 'hex') : null, memory_size: 1000000,
    memory_metrics: { wasm_memory_size: 0, stable_memory_size: 0, global_memory_size: 0, wasm_binary_size: 0, custom_sections_size: 0, canister_history_size: 0, wasm_chunk_store_size: 0, snapshots_size: 0 },
    cycles: c.cycles, reserved_cycles: 0, idle_cycles_burned_per_day: IDLE_PER_DAY,
    query_stats: { num_calls_total: 0, num_instructions_total: 0, request_payload_bytes_total: 0, response_payload_bytes_total: 0 },
  };
}
module.exports = { FREEZE, Sim, Trap, MGMT, SYS_FATAL, SYS_TRANSIENT, DEST_INVALID, CAN_REJECT, CAN_ERROR, SYS_UNKNOWN };
