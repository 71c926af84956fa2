'use strict';
// Builds the command line tool of the repository in cwd against the ic-agent stand-in beside this file (in a scratch folder that
// is removed at the end) and runs it against a scripted canister.
const fs = require('fs'), os = require('os'), path = require('path'), cp = require('child_process');
const { decode, encode, T, pText } = require('./candid');
const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'clidemo-')), fix = require('./util').fix;
process.on('exit', () => fs.rmSync(dir, { recursive: true, force: true }));
const CORE = 'rrkah-fqaaa-aaaaa-aaaaq-cai', ME = require('./util').principal('@u0');
function build() {
  const ws = path.join(dir, 'ws'); fs.mkdirSync(ws); fs.cpSync(path.join(__dirname, 'ic-agent'), path.join(ws, 'ic-agent'), { recursive: true });
  fs.writeFileSync(path.join(ws, 'Cargo.toml'), fs.readFileSync(path.join(__dirname, 'Cargo.toml.in'), 'utf8').replace(/@REPO@/g, process.cwd()));
  fs.copyFileSync('Cargo.lock', path.join(ws, 'Cargo.lock'));
  const r = cp.spawnSync('bash', ['-c', `. /opt/vp/env.sh; cd "${ws}"; CARGO_TARGET_DIR="${dir}/t" cargo build --offline`], { encoding: 'utf8', maxBuffer: 1 << 28 });
  if (r.status) { console.log(r.stderr.slice(-3000)); process.exit(99); }
}
// handler(method, args, n) -> hex of the reply, or {lost: 1}
function run(argv, files, handler) {
  const f = fs.mkdtempSync(path.join(dir, 'f')); for (const [n, d] of Object.entries(files)) fs.writeFileSync(path.join(f, n), d);
  fs.writeFileSync(path.join(f, 'id.pem'), `-----BEGIN SIMULATED KEY-----\n${ME}\n-----END SIMULATED KEY-----\n`);
  return new Promise(done => {
    const c = cp.spawn(path.join(dir, 't/debug/cli_under_simulation'), ['-i', 'id.pem', '-c', CORE, ...argv], { cwd: f, stdio: ['ignore', 'pipe', 'pipe', 'pipe', 'pipe'], env: { ...process.env, NFT_SIM_REQ: '3', NFT_SIM_RESP: '4' } });
    let out = '', err = '', buf = '', calls = []; c.stdout.on('data', d => out += d); c.stderr.on('data', d => err += d);
    c.stdio[3].on('data', d => {
      buf += d; for (let i; (i = buf.indexOf('\n')) >= 0; buf = buf.slice(i + 1)) {
        const w = buf.slice(0, i).split(' '); if (w[0] === 'root') { c.stdio[4].write('ok\n'); continue; }
        const q = fix(decode(Buffer.from(w[5], 'hex'))), r = handler(w[4], q, calls.length); calls.push([w[4], q]);
        c.stdio[4].write(r.lost ? 'transport ' + Buffer.from('connection reset').toString('hex') + '\n' : 'ok ' + r + '\n');
      }
    });
    c.on('close', code => done({ code, out, err, calls }));
  });
}
const S = require('./svc'); const hexOf = (t, v) => encode([t], [v]).toString('hex');
const ok = t => v => hexOf(T.variant({ Ok: t, Err: T.variant({ E: T.null }) }), { Ok: v });
function check(c, m) { if (!c) { console.log('FAIL ' + m); process.exit(1); } }
module.exports = { build, run, ok, T, check };
