'use strict';
// The command line tool as one more client: the real program runs as a child process, every call it makes is delivered by the
// simulator (with losses, rejections, crashes, other clients in between), every read and write of its files may fail.
const { World: UploadWorld, UP, plain, urlOf } = require('./upload');
const S = require('./svc'), U = require('./util'); const { encode, decode, sha256 } = require('./candid');
const fs = require('fs'), os = require('os'), path = require('path'), cp = require('child_process');
const { canon, principal, fix } = U;
const URLS = { local: 'http://127.0.0.1:4943', ic: 'https://ic0.app' };

// ---- one child process, driven synchronously through two named pipes
let tub = null;
function box() {
  if (tub) return tub;
  const { CLI } = require('./build'), dir = fs.mkdtempSync(path.join(process.env.NFT_SIM_TMP || os.tmpdir(), 'nft-cli-')); process.on('SIGTERM', () => process.exit(0));
  process.on('exit', () => { try { fs.rmSync(dir, { recursive: true }); } catch (e) { } });
  cp.spawnSync('mkfifo', [path.join(dir, 'req'), path.join(dir, 'resp')]); fs.mkdirSync(path.join(dir, 'f'));
  const q = fs.openSync(path.join(dir, 'req'), 'r+'), p = fs.openSync(path.join(dir, 'resp'), 'r+');
  return tub = { dir, f: path.join(dir, 'f'), q, p, bin: path.join(CLI, 'target/debug/cli_under_simulation'), shim: path.join(CLI, 'ws/iofault.so'), buf: Buffer.alloc(0) };
}
const SH = 'd="$1"; shift; bin="$1"; shift; exec 3>"$d/req" 4<"$d/resp"; ulimit -f 200000; timeout -s KILL 60 env LD_PRELOAD="$SHIM" NFT_SIM_REQ=3 NFT_SIM_RESP=4 "$bin" "$@" <"$d/in" >"$d/out" 2>"$d/err"; echo "exit $?" >&3';
function start(argv, input, io) {
  const b = box(); fs.writeFileSync(path.join(b.dir, 'in'), input || ''); for (const n of ['out', 'err', 'io']) fs.writeFileSync(path.join(b.dir, n), '');
  const env = { PATH: process.env.PATH, SHIM: b.shim, NFT_SIM_IO_DIR: b.f + '/', NFT_SIM_IO_LOG: path.join(b.dir, 'io'), TOKIO_WORKER_THREADS: '1', RUST_BACKTRACE: '0', HOME: b.dir };
  if (io && io.short) env.NFT_SIM_IO_SHORT = String(io.short); if (io && io.eio) env.NFT_SIM_IO_EIO = String(io.eio); if (io && io.space !== undefined) env.NFT_SIM_IO_SPACE = String(io.space);
  cp.spawn('sh', ['-c', SH, 'sh', b.dir, b.bin, ...argv], { env, stdio: 'ignore', cwd: b.f }).unref();
}
function line() {
  const b = tub, parts = [b.buf]; let i = b.buf.indexOf(10);
  while (i < 0) { const x = Buffer.alloc(65536), n = fs.readSync(b.q, x, 0, x.length, null), y = x.subarray(0, n); parts.push(y); i = y.indexOf(10); if (i >= 0) { const all = Buffer.concat(parts); i = all.indexOf(10); b.buf = all; } }
  const l = b.buf.subarray(0, i).toString(); b.buf = Buffer.from(b.buf.subarray(i + 1)); return l;
}
function answer(s) { const d = Buffer.from(s + '\n'); let o = 0; while (o < d.length) o += fs.writeSync(tub.p, d, o); }
function ended(l) {
  const b = tub, rd = n => fs.readFileSync(path.join(b.dir, n), 'utf8'); const [short, eio, space] = (rd('io').trim() || '0 0 0').split(' ').map(Number);
  return { code: Number(l.slice(5)), out: rd('out'), err: rd('err'), short, eio, space };
}
// the bytes of a file of the scenario: hex, or big:<length>:<seed> for large ones
function D(s) {
  if (!s.startsWith('big:')) return Buffer.from(s, 'hex');
  const [, n, seed] = s.split(':').map(Number), b = Buffer.alloc(n); let x = (seed | 1) >>> 0;
  for (let i = 0; i < n; i++) { x ^= x << 13; x >>>= 0; x ^= x >>> 17; x ^= x << 5; x >>>= 0; b[i] = x; } return b;
}
const H = s => Buffer.from(s).toString('hex');

class CliWorld extends UploadWorld {
  exec(a) {
    if (a.t !== 'cli') return super.exec(a);
    this.trace.push(a); this.nAct++; this.sim.log('ACT ' + JSON.stringify(a));
    const at = this.trace.length; this.runCli(a); this.trace.length = at; // what ran inside belongs to the action
  }
  // raw replies of the calls the tool makes
  callUpdate(a, args) {
    if (!this.raw) return super.callUpdate(a, args);
    const raw = this.raw, sim = this.sim, n = sim.submit(this.core.id, this.sub(a.w), a.m, raw.arg), i0 = this.injected(); this.raw = null;
    sim.step(sim.enabled().find(e => e.kind === 'ingress' && e.n === n), {});
    const r = sim.results.get(n); sim.results.delete(n); raw.res = r; const injected = this.injected() > i0;
    if (r.status === 'reply') return { val: decode(r.reply)[0], injected };
    return r.status === 'pending' ? { pending: true, injected } : { rej: r.msg, injected };
  }
  endOp(op, r) { if (op.cli) op.cli.res = r; super.endOp(op, r); }
  // execute one call of the tool in the simulated replica
  deliver(run, who, m, arg, pl) {
    const call = { m, who, arg, res: null, q: null }; let args = null; run.calls.push(call);
    try { args = fix(decode(arg)); call.q = args[0]; } catch (e) { this.fail(run.props, 'cli_garbage', `${run.at}: the argument of ${m} is not candid: ${e.message}`); return call; }
    if (UP.has(m)) {
      const n = this.sim.submit(this.core.id, who, m, arg), op = { n, m, who, q: args[0], p: args[0].file_path, faulted: false, started: false, tried: new Map(), created: [], trapped: false, cli: call }; this.ops.set(n, op);
      if (m === 'init_upload') this.everPaths.add(op.p);
      const ev = this.events().find(e => e.kind === 'ingress' && e.n === n); this.stepEv(ev, {});
      for (const s of (pl.st || [])) { if (call.res) break; if (!this.events().length) break; this.exec(s); }
      this.background(); call.faulted = op.faulted; call.op = op;
      if (!call.res) this.fail(['N15'], 'call_never_answered', `${m}(${op.p}) was never answered`);
      return call;
    }
    const perm = /permission/.test(m), norm = perm ? { principal: args[0].principal, permission: Object.keys(args[0].permission || { none: 0 })[0] } : args[0]; call.norm = norm;
    if (m === 'mint') for (const r of norm.mint_requests) call.before = this.tokens.size;
    this.raw = call; this.doUpdate({ t: 'u', w: who, m, a: [norm] }); this.raw = null;
    return call;
  }
  runCli(a) {
    const b = box(), e = a.exp, run = { calls: [], queries: [], at: `${a.argv.join(' ').slice(0, 400)} (as ${a.w})`, props: e.props, faults: new Set(), conflict: false }; this.note('cli_runs'); this.note('cli_' + e.cmd);
    for (const n of fs.readdirSync(b.f)) fs.rmSync(path.join(b.f, n));
    for (const [n, d] of Object.entries(a.files || {})) fs.writeFileSync(path.join(b.f, n), D(d));
    const me = this.sub(a.w); fs.writeFileSync(path.join(b.dir, 'id.pem'), `-----BEGIN SIMULATED KEY-----\n${me}\n-----END SIMULATED KEY-----\n`);
    const argv = a.argv.map(x => x === '@core' ? this.core.id : x.startsWith('@') ? principal(x) : x), net = e.net || 'local';
    start(['-i', '../id.pem', '-c', this.core.id, ...(net === 'ic' ? ['-n', 'ic'] : []), ...argv], a.in, a.io);
    let i = 0, l;
    for (; ;) {
      l = line(); if (l.startsWith('exit ')) break;
      const w = l.split(' '), pl = (a.plan || [])[i] || {}; i++; let crash = false;
      if (i > 200) { this.fail(run.props, 'cli_endless', `${run.at} makes more than 200 calls`); answer('crash'); continue; }
      if (pl.pre) for (const x of pl.pre) { this.exec(x); run.conflict = true; }
      if (a.mut && a.mut.at === i - 1) { for (const [n, d] of Object.entries(a.mut.files)) fs.writeFileSync(path.join(b.f, n), D(d)); this.note('cli_file_changed'); this.sim.fault('file_changed'); }
      const f = pl.f;
      if (f === 'lost') { run.faults.add('lost'); this.sim.fault('cli_request_lost'); answer('transport ' + H('error sending request')); continue; }
      if (f === 'rejected') { run.faults.add('rejected'); this.sim.fault('cli_request_rejected'); answer('reject ' + H('the subnet is overloaded')); continue; }
      if (f === 'crash0') { run.faults.add('crash'); this.sim.fault('cli_crash'); answer('crash'); continue; }
      if (w[0] === 'root') { if (net === 'ic' || w[1] !== URLS.local) this.fail(['N28'], 'cli_network', `${run.at} fetches the root key of ${w[1]}`); answer('ok'); continue; }
      const [kind, url, who, can, m, hex] = w;
      if (url !== URLS[net] || who !== me || can !== this.core.id) this.fail(['N28', 'N27'], 'cli_target', `${run.at} sends ${m} to ${can} at ${url} as ${who}, told ${this.core.id}, ${net}, ${me}`);
      const arg = Buffer.from(hex || '', 'hex'); let r;
      if (kind === 'query') { const x = this.sim.query(this.core.id, who, m, arg); run.queries.push({ m, q: fix(decode(arg))[0], x }); r = x.reply !== undefined ? { status: 'reply', reply: x.reply } : { status: 'reject', msg: x.msg || 'rejected' }; }
      else r = this.deliver(run, who, m, arg, pl).res || { status: 'reject', msg: 'no answer' };
      const c = run.calls[run.calls.length - 1];
      if (f === 'late') { run.faults.add('late'); if (c && kind === 'update') c.late = true; this.sim.fault('cli_answer_lost'); answer(pl.tmo ? 'timeout' : 'transport ' + H('connection reset')); continue; }
      if (f === 'crash1') { run.faults.add('crash'); if (c && kind === 'update') c.late = true; this.sim.fault('cli_crash'); answer('crash'); continue; }
      if (kind === 'update' && c) c.told = true;
      if (r.status === 'reply') answer('ok ' + Buffer.from(r.reply).toString('hex')); else { if (kind === 'update') run.rejected = true; answer('reject ' + H(r.msg || 'rejected')); }
    }
    run.end = ended(l); const x = run.end;
    if (x.short) { this.note('cli_short_reads'); this.sim.stats.injected.file_short_read = (this.sim.stats.injected.file_short_read || 0) + x.short; } if (x.eio) { this.sim.fault('file_read_error'); run.faults.add('eio'); } if (x.space) { this.sim.fault('file_disk_full'); run.faults.add('space'); }
    this.sim.log(`CLI exit ${x.code} ${x.out}`); this.note(x.code === 0 ? 'cli_ok' : 'cli_failed');
    this.cov.add(['cli', e.cmd, x.code === 0 ? 'ok' : 'fail', run.calls.map(c => c.m[0] + (c.late ? '?' : c.res && c.res.status === 'reply' ? (/^Err/.test(Object.keys(decode(c.res.reply)[0] || {})[0] || '') ? '-' : '+') : '!')).join('').slice(0, 12), [...run.faults].sort().join(',')].join(':'));
    if (x.code === 126 || x.code === 127) throw new Error('the command line tool cannot be started: ' + x.err);
    if (x.code === 137 || x.code === 124) return this.fail(run.props, 'cli_hangs', `${run.at} does not end`);
    this['end_' + e.cmd.replace(/-/g, '_')](a, e, run, x);
  }
  okCall(c) { if (!c.res || c.res.status !== 'reply') return false; const v = decode(c.res.reply)[0]; return !(v && v.Err !== undefined); }
  val(c) { return decode(c.res.reply)[0]; }
  fileOf(n) { const p = path.join(box().f, n); return fs.existsSync(p) ? fs.readFileSync(p) : null; }
  // exit status 0 and the word of success belong together; a failure says something
  said(run, x, word) {
    if (x.code === 0 ? !word.test(x.out) : word.test(x.out)) this.fail(run.props, 'cli_report', `${run.at} exits with ${x.code} and prints ${JSON.stringify(x.out.slice(0, 300))}`);
    if (x.code !== 0 && !run.faults.has('crash') && !x.err.trim()) this.fail(run.props, 'cli_silent', `${run.at} exits with ${x.code} and says nothing`);
  }
  end_upload_file(a, e, run, x) {
    this.said(run, x, /successfully/); const p = e.path || '/' + sha256(D(a.files[e.file])).toString('hex') + '.json', url = `https://${this.core.id}.raw.icp0.io${urlOf(p)}`;
    const mine = run.calls, init = mine.find(c => c.m === 'init_upload');
    for (const c of mine) {
      if (!UP.has(c.m) || c.m === 'cancel_upload') this.fail(['N27'], 'cli_other_call', `${run.at} calls ${c.m}`);
      if (c.q.file_path !== p) this.fail(['N27'], 'cli_path', `${run.at} calls ${c.m} for ${c.q.file_path}`);
      if (c !== init && !(init && this.okCall(init)) ) this.fail(['N27'], 'cli_foreign_upload', `${run.at} goes on with ${c.m} although its init_upload was ${init ? 'answered ' + (init.res.status === 'reply' ? canon(this.val(init)) : init.res.msg) : 'not sent'}`);
    }
    if (x.code === 0) {
      this.note('cli_uploaded'); const f = this.files.get(p), mf = f && this.mir(f.can, p);
      if (!f || f.state !== 'Finalized') return this.fail(['N27'], 'cli_not_uploaded', `${run.at} reports success, the upload is ${f ? f.state : 'unknown'}`);
      const got = this.bytes(mf), want = [a.files[e.file], ...(a.mut && a.mut.files[e.file] !== undefined ? [a.mut.files[e.file]] : [])].map(D);
      if (!want.some(x => x.equals(got))) this.fail(['N27'], 'cli_bytes', `${run.at} reports success, ${got.length} bytes are stored that are not the ${want[0].length} bytes of the file`);
      if (plain(p) && !/(^|\/)\.\.?(\/|$)/.test(p) && !x.out.includes('URL: ' + url + '\n')) this.fail(['N27'], 'cli_url', `${run.at} prints ${x.out}, the file is at ${url}`);
      if (plain(p)) this.checkHttp([p]);
    } else {
      this.note('cli_upload_failed');
      const cs = e.chunk === undefined ? 1048576 : Number(e.chunk), size = a.files[e.file] ? D(a.files[e.file]).length : 0;
      if (e.valid !== false && e.must && !run.faults.size && !run.conflict && !mine.some(c => c.faulted || (c.op && c.op.faulted)) && plain(p) && cs > 0 && cs <= 1048576 && size > 0 && !(a.mut) && !(init && init.op && (init.op.not || !init.op.perm)))
        this.fail(['N27'], 'cli_upload_refused', `${run.at} fails although nothing stands against it: ${x.err.slice(0, 300)}`);
    }
  }
  end_upload_metadata(a, e, run, x) {
    if (e.valid === false) { this.said(run, x, /successfully/); if (x.code === 0 || run.calls.length) this.fail(['N27'], 'cli_invalid_accepted', `${run.at} accepts ${D(a.files[e.file])}`); else this.note('cli_refused'); return; }
    this.end_upload_file(a, e, run, x);
  }
  end_mint(a, e, run, x) {
    this.said(run, x, /minted successfully/); const ok = run.calls.filter(c => this.okCall(c));
    for (const c of run.calls) {
      if (c.m !== 'mint') { this.fail(['N28'], 'cli_other_call', `${run.at} calls ${c.m}`); continue; }
      const r = c.q.mint_requests, want = { owner: this.sub(e.owner), sub: e.sub || null, memo: e.memo === undefined ? null : H(e.memo), meta: e.meta }, g = r[0] && { owner: r[0].token_owner.owner, sub: r[0].token_owner.subaccount, memo: r[0].memo, meta: r[0].metadata };
      if (e.bad) this.fail(['N28'], 'cli_mint_malformed', `${run.at} mints although ${e.bad}`);
      else if (r.length !== 1 || canon(g) !== canon(want)) this.fail(['N28'], 'cli_mint_differs', `${run.at} asks to mint ${canon(r)}, wanted ${canon(want)}`);
    }
    if (ok.length > 1) this.fail(['N28'], 'cli_minted_twice', `${run.at} minted ${ok.length} tokens`);
    if (x.code === 0) {
      this.note('cli_minted'); if (ok.length !== 1) return this.fail(['N28'], 'cli_not_minted', `${run.at} reports success, ${ok.length} tokens were minted`);
      const id = String(this.val(ok[0]).Ok); if (!new RegExp(`ID: ${id}\\n`).test(x.out.replace(/_/g, ''))) this.fail(['N28'], 'cli_mint_id', `${run.at} prints ${x.out}, the token is ${id}`);
    } else {
      this.note('cli_refused'); if (ok.some(c => c.told)) this.fail(['N28'], 'cli_minted_unreported', `${run.at} fails (${x.err.slice(0, 200)}) although the token was minted and the tool was told so`);
      if (!e.bad && !run.calls.length && !run.faults.size) this.fail(['N28'], 'cli_mint_refused', `${run.at} fails without asking: ${x.err.slice(0, 300)}`);
    }
  }
  end_grant(a, e, run, x) { this.endPerm(a, e, run, x, 'grant_permission', /granted successfully/); }
  end_revoke(a, e, run, x) { this.endPerm(a, e, run, x, 'revoke_permission', /revoked successfully/); }
  endPerm(a, e, run, x, m, word) {
    this.said(run, x, word); const who = this.sub(e.who);
    for (const c of run.calls) {
      if (c.m !== m || e.bad) this.fail(['N28'], 'cli_other_call', `${run.at} calls ${c.m}`);
      else if (c.norm.principal !== who || c.norm.permission !== e.perm) this.fail(['N28'], 'cli_permission_differs', `${run.at} calls ${c.m} ${canon(c.norm)}`);
    }
    const ok = run.calls.some(c => this.okCall(c));
    if (x.code === 0) { this.note('cli_permission'); if (!ok) this.fail(['N28'], 'cli_not_' + m, `${run.at} reports success, the call was ${run.calls.length ? 'refused' : 'not made'}`); }
    else { this.note('cli_refused'); if (run.calls.some(c => c.told && this.okCall(c))) this.fail(['N28'], 'cli_done_unreported', `${run.at} fails although the call succeeded`); if (!e.bad && !run.calls.length && !run.faults.size) this.fail(['N28'], 'cli_refused', `${run.at} fails without asking: ${x.err.slice(0, 300)}`); }
  }
  endQuery(a, e, run, x, f) {
    const q = run.queries.find(q => q.x.reply !== undefined && decode(q.x.reply)[0].Err === undefined);
    if (run.calls.length) this.fail(['N28'], 'cli_other_call', `${run.at} calls ${run.calls[0].m}`);
    if (x.code !== 0) { this.note('cli_refused'); if (!x.err.trim() && !run.faults.has('crash')) this.fail(['N28'], 'cli_silent', `${run.at} exits with ${x.code} and says nothing`); if (!e.bad && !run.faults.size && this.has(this.sub(a.w), 'ManageAuthorities') && this.perms.has(this.sub(e.who))) this.fail(['N28'], 'cli_refused', `${run.at} fails: ${x.err.slice(0, 300)}`); return; }
    this.note('cli_permission'); if (!q || e.bad) return this.fail(['N28'], 'cli_no_answer', `${run.at} prints ${x.out} although ${e.bad || 'the canister did not answer'}`);
    f();
  }
  end_list(a, e, run, x) {
    this.endQuery(a, e, run, x, () => {
      const want = [...(this.perms.get(this.sub(e.who)) || [])].map(p => '- ' + p.replace(/(?!^)[A-Z]/g, c => '_' + c).toLowerCase()).sort(), got = x.out.split('\n').filter(l => l.startsWith('- ')).sort();
      if (canon([...new Set(got)]) !== canon(want) || (!want.length && !/No permissions/.test(x.out))) this.fail(['N28'], 'cli_list', `${run.at} prints ${x.out}, expected ${canon(want)}`);
    });
  }
  end_has(a, e, run, x) { this.endQuery(a, e, run, x, () => { const want = String(this.has(this.sub(e.who), e.perm)); if (x.out.trim().split('\n').pop() !== want) this.fail(['N28'], 'cli_has', `${run.at} prints ${x.out}, expected ${want}`); }); }
  end_create_metadata(a, e, run, x) {
    this.said(run, x, /created successfully/); if (run.calls.length) this.fail(['N28'], 'cli_other_call', `${run.at} calls ${run.calls[0].m}`);
    if (x.code === 0) {
      this.note('cli_created'); if (e.bad) return this.fail(['N28'], 'cli_metadata_malformed', `${run.at} succeeds although ${e.bad}`);
      let got = null; try { got = JSON.parse(this.fileOf('out.json').toString()); } catch (err) { }
      if (canon(got) !== canon(e.json)) this.fail(['N28'], 'cli_metadata_differs', `${run.at} writes ${canon(got)}, expected ${canon(e.json)}`);
    } else { this.note('cli_refused'); if (e.bad && this.fileOf('out.json') !== null) this.fail(['N28'], 'cli_metadata_malformed', `${run.at} writes a file although ${e.bad}`); if (!e.bad && !run.faults.size) this.fail(['N28'], 'cli_metadata_refused', `${run.at} fails: ${x.err.slice(0, 300)}`); }
  }
  end_validate_metadata(a, e, run, x) {
    this.said(run, x, /validation successful/); if (run.calls.length) this.fail(['N28'], 'cli_other_call', `${run.at} calls ${run.calls[0].m}`); this.note(x.code === 0 ? 'cli_created' : 'cli_refused');
    if (x.code === 0 && !e.valid) this.fail(['N28'], 'cli_validated_invalid', `${run.at} accepts ${D(a.files[e.file])}`);
    if (x.code !== 0 && e.valid && !run.faults.size) this.fail(['N28'], 'cli_rejected_valid', `${run.at} rejects ${D(a.files[e.file])}: ${x.err.slice(0, 200)}`);
  }
}
module.exports = { World: CliWorld };
