'use strict';
// Builds the canisters from /repo's working tree (same command as the repository's own build), under a lock.
// A content hash of the sources decides whether cargo's fingerprints are dropped first, so that a tree restored with
// old timestamps is still rebuilt.
const fs = require('fs'), path = require('path'), crypto = require('crypto'), cp = require('child_process');
const REPO = process.env.NFT_REPO || '/repo';
function files(dir, out = []) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true }).sort((a, b) => a.name < b.name ? -1 : 1)) {
    if (e.name === '.git' || e.name === 'target' || e.name === 'node_modules') continue;
    const p = path.join(dir, e.name);
    if (e.isDirectory()) files(p, out); else if (e.isFile()) out.push(p);
  }
  return out;
}
function hash() {
  const h = crypto.createHash('sha256');
  for (const p of [...files(path.join(REPO, 'src')), ...(fs.existsSync(path.join(REPO, 'wasm')) ? files(path.join(REPO, 'wasm')) : []), path.join(REPO, 'Cargo.toml'), path.join(REPO, 'Cargo.lock')]) { if (!fs.existsSync(p)) continue; h.update(p + '\0'); h.update(fs.readFileSync(p)); h.update('\0'); }
  return h.digest('hex');
}
function build() {
  const rel = path.join(REPO, 'target/wasm32-unknown-unknown/release'), stamp = path.join(rel, '.sim-source-hash');
  fs.mkdirSync(rel, { recursive: true });
  const want = hash(), have = fs.existsSync(stamp) ? fs.readFileSync(stamp, 'utf8') : '';
  if (want !== have) {
    const fp = path.join(rel, '.fingerprint');
    if (fs.existsSync(fp)) for (const d of fs.readdirSync(fp)) if (/^(core_nft|index_icrc7)-/.test(d)) fs.rmSync(path.join(fp, d), { recursive: true });
    if (fs.existsSync(stamp)) fs.unlinkSync(stamp);
  }
  const cmd = `exec 9>"${rel}/.sim-lock"; flock 9; . /opt/vp/env.sh; cd "${REPO}"; for c in core_nft index_icrc7; do CARGO_INCREMENTAL=0 cargo rustc --crate-type=cdylib --target wasm32-unknown-unknown --release --locked --offline -p $c || exit 3; done`;
  const r = cp.spawnSync('bash', ['-c', cmd], { stdio: ['ignore', 'pipe', 'pipe'], maxBuffer: 1 << 28 });
  if (r.status !== 0) { const e = new Error('build failed:\n' + r.stderr.toString().slice(-4000)); throw e; }
  if (hash() === want) fs.writeFileSync(stamp, want);
  const id = {}; for (const n of ['core_nft', 'index_icrc7']) id[n] = crypto.createHash('sha256').update(fs.readFileSync(path.join(rel, n + '.wasm'))).digest('hex').slice(0, 16);
  return { source: want.slice(0, 16), wasm: id };
}
// The command line tool, with the stand-in for ic-agent from /verif/cli, and the file fault library.
const CLI = path.join(REPO, 'target/cli-sim');
function buildCli() {
  const ws = path.join(CLI, 'ws'), src = path.join(__dirname, '..', 'cli'), stamp = path.join(CLI, '.sim-source-hash'); fs.mkdirSync(ws, { recursive: true });
  const sum = () => { const h = crypto.createHash('sha256'); for (const p of [...files(path.join(REPO, 'src')), ...files(path.join(REPO, 'cmdline')), ...files(src), path.join(REPO, 'Cargo.toml'), path.join(REPO, 'Cargo.lock')]) { h.update(p + '\0'); h.update(fs.readFileSync(p)); h.update('\0'); } return h.digest('hex'); };
  const want = sum(), have = fs.existsSync(stamp) ? fs.readFileSync(stamp, 'utf8') : '';
  const cmd = `exec 9>"${CLI}/.sim-lock"; flock 9; . /opt/vp/env.sh; cd "${ws}"` + (want !== have ? `; rm -f "${stamp}"; rm -rf "${CLI}"/target/debug/.fingerprint/{cli_under_simulation,core_nft,ic-agent}-*; mkdir -p ic-agent/src; cp "${src}/ic-agent/Cargo.toml" ic-agent/; cp "${src}/ic-agent/src/lib.rs" ic-agent/src/; sed 's#@REPO@#${REPO}#g' "${src}/Cargo.toml.in" > Cargo.toml; cp "${REPO}/Cargo.lock" Cargo.lock` : '')
    + `; CARGO_TARGET_DIR="${CLI}/target" cargo build --offline || exit 3; gcc -O1 -shared -fPIC -o iofault.so.new "${src}/iofault.c" -ldl && mv iofault.so.new iofault.so || exit 3`;
  const r = cp.spawnSync('bash', ['-c', cmd], { stdio: ['ignore', 'pipe', 'pipe'], maxBuffer: 1 << 28 });
  if (r.status !== 0) throw new Error('build of the command line tool failed:\n' + r.stderr.toString().slice(-4000));
  if (sum() === want) fs.writeFileSync(stamp, want);
  return want.slice(0, 16);
}
module.exports = { build, buildCli, CLI };
if (require.main === module) console.log(JSON.stringify(build()));
