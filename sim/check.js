'use strict';
// node sim/check.js <PROPERTY> [--tier quick|thorough] [--seed N] [--workers N] [--runs N]
// node sim/check.js --replay FILE
const fs = require('fs'), path = require('path'), cp = require('child_process'), crypto = require('crypto');
const ROOT = path.join(__dirname, '..');
const argv = process.argv.slice(2); const opt = (n, d) => { const i = argv.indexOf('--' + n); return i < 0 ? d : argv[i + 1]; };
const HARNESS = 2;
function die(msg) { console.error('HARNESS-ERROR ' + msg); process.exit(HARNESS); }
process.on('unhandledRejection', e => die(e && e.stack || e));

class Pool {
  constructor(n, limitMs) { this.limit = limitMs; this.n = n; this.ws = []; for (let i = 0; i < n; i++) this.spawn(i); }
  spawn(i) { const w = cp.fork(path.join(__dirname, 'worker.js'), [], { stdio: ['ignore', 'ignore', 'inherit', 'ipc'], execArgv: ['--max-old-space-size=3000'] }); w.busy = null; this.ws[i] = w; w.on('message', m => { const b = w.busy; if (!b) return; w.busy = null; clearTimeout(b.timer); b.done(m); }); w.on('exit', (c, s) => { const b = w.busy; w.busy = null; if (this.ws[i] === w && !this.closed) this.spawn(i); if (b) { clearTimeout(b.timer); b.done({ i: b.msg.i, seed: b.msg.seed, gen: b.msg.gen, dead: b.timedOut ? 'timeout' : `exit ${c} ${s}` }); } }); }
  run(w, msg) { return new Promise(done => { const b = { msg, done }; w.busy = b; b.timer = setTimeout(() => { b.timedOut = true; w.kill('SIGKILL'); }, (msg.bulk || (msg.cfg && msg.cfg.bulk)) ? Math.max(300000, this.limit) : this.limit); w.send(msg); }); }
  async all(gen, onResult) { // gen() yields next message or null
    await Promise.all(Array.from({ length: this.n }, async (_, i) => { for (;;) { const m = gen(); if (!m) return; onResult(await this.run(this.ws[i], m), m); } }));
  }
  one(msg) { const w = this.ws.find(x => !x.busy); return this.run(w, msg); }
  close() { this.closed = true; for (const w of this.ws) w.kill(); }
}

async function minimise(pool, prop, cfg, trace, sig, known, budgetMs) {
  // delta debugging over the recorded actions, several candidates at a time
  const t0 = Date.now(); let cur = trace, tried = 0; const left = () => budgetMs - (Date.now() - t0);
  const fails = async cand => { tried++; const m = await pool.one({ op: 'replay', i: 0, cfg, actions: cand, prop, known }); return m.r && m.r.violation && m.r.violation.sig === sig; };
  const firstFailing = async cands => { const res = await Promise.all(cands.map(fails)); return res.indexOf(true); };
  let n = 2;
  while (cur.length > 1 && left() > 0) {
    const size = Math.ceil(cur.length / n), chunks = []; for (let i = 0; i < cur.length; i += size) chunks.push([i, Math.min(cur.length, i + size)]);
    let hit = false;
    for (let b = 0; b < chunks.length && left() > 0; b += pool.n) {
      const cands = chunks.slice(b, b + pool.n).map(([x, y]) => cur.slice(0, x).concat(cur.slice(y)));
      const k = await firstFailing(cands); if (k >= 0) { cur = cands[k]; n = Math.max(2, n - 1); hit = true; break; }
    }
    if (!hit) { if (size <= 1) break; n = Math.min(cur.length, n * 2); }
  }
  // then simplify what is left: drop batch elements and injected faults
  for (let i = 0; i < cur.length && left() > 0; i++) {
    const a = cur[i];
    if (a.f) { const c = cur.slice(); c[i] = Object.assign({}, a); delete c[i].f; if (await fails(c)) cur = c; }
    if (a.t === 'cli') for (const k of ['io', 'mut', 'plan']) if (cur[i][k]) { const c = cur.slice(); c[i] = Object.assign({}, cur[i]); delete c[i][k]; if (await fails(c)) cur = c; }
    if (a.t === 'cli' && cur[i].plan) for (let j = 0; j < cur[i].plan.length && left() > 0; j++) for (const k of ['f', 'pre', 'st']) if (cur[i].plan[j][k]) { const c = cur.slice(), b = JSON.parse(JSON.stringify(cur[i])); delete b.plan[j][k]; c[i] = b; if (await fails(c)) cur = c; }
    if (a.t === 'u' && a.a && Array.isArray(a.a[0]) && a.a[0].length > 1) for (let j = cur[i].a[0].length - 1; j >= 0 && cur[i].a[0].length > 1 && left() > 0; j--) { const c = cur.slice(); const b = JSON.parse(JSON.stringify(cur[i])); b.a[0].splice(j, 1); c[i] = b; if (await fails(c)) cur = c; }
  }
  return { trace: cur, tried };
}

function loadKnown() { return JSON.parse(fs.readFileSync(path.join(ROOT, 'known-findings.json'), 'utf8')); }

function replayFile(file) {
  const R = require('./run'); const d = JSON.parse(fs.readFileSync(file, 'utf8'));
  if (d.hang) { console.log(`replay of a run that did not come to an end: seed ${d.seed}`); const cfg = d.cfg; const r = R.generate(cfg, { target: d.property, known: d.known || [] }); console.log('it ended: ' + JSON.stringify(r.violation)); return r.violation ? 1 : 0; }
  const r = R.replay(d.cfg, d.actions, { target: d.property, known: d.known || loadKnown().findings, log: argv.includes('--log') ? m => console.log(m) : undefined });
  if (r.violation) { console.log(`${r.violation.sig}: ${r.violation.msg}`); console.log(`digest ${r.digest}`); return 1; }
  console.log('no violation; digest ' + r.digest); return 0;
}

async function main() {
  if (opt('replay')) { if (!argv.includes('--no-build')) { const B = require('./build'); B.build(); if (JSON.parse(fs.readFileSync(opt('replay'), 'utf8')).cfg.kind === 'cli') B.buildCli(); } process.exit(replayFile(opt('replay'))); }
  const prop = argv[0], tier = opt('tier', process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick'), seed = Number(opt('seed', process.env.VERIF_SEED || 1)) >>> 0;
  const { PLAN } = require('./plan'); if (!PLAN[prop]) die('unknown property ' + prop);
  const t0 = Date.now(); let ids; try { ids = argv.includes('--no-build') ? {} : require('./build').build(); if (!argv.includes('--no-build') && PLAN[prop].some(p => p.gen === 'gen_cli')) ids.cli = require('./build').buildCli(); } catch (e) { die(e.message); }
  if (PLAN[prop].some(p => p.gen === 'gen_cli')) { const d = process.env.NFT_SIM_TMP = fs.mkdtempSync(path.join(require('os').tmpdir(), 'nft-sim-')); process.on('exit', () => fs.rmSync(d, { recursive: true, force: true })); }
  const tBuild = Date.now() - t0;
  const kfile = loadKnown(), known = kfile.findings.filter(k => k.status === 'finding');
  const workers = Number(opt('workers', 8)), pool = new Pool(workers, tier === 'thorough' ? 300000 : 120000);
  const wallCap = tier === 'thorough' ? 1e12 : 330000;
  const rdir = path.join(ROOT, 'replays'); fs.mkdirSync(rdir, { recursive: true });

  // the listed findings, shown on the real code by their recorded scenarios
  const kOut = [];
  for (const k of known.filter(k => k.property === prop)) {
    const c = JSON.parse(fs.readFileSync(path.join(ROOT, k.scenario), 'utf8'));
    const m = await pool.one({ op: 'replay', i: 0, cfg: c.cfg, actions: c.actions, prop: null, known: [] });
    if (m.error || m.dead) die(`scenario ${k.scenario}: ${m.error || m.dead}`);
    const hit = m.r.violation && m.r.violation.sig === k.sig; kOut.push({ sig: k.sig, reproduced: !!hit });
    if (hit) console.log(`KNOWN-FINDING: property=${prop} ${k.what}`); else console.log(`note: listed finding ${k.sig} does not show on this tree (${m.r.violation ? m.r.violation.sig : 'no violation'})`);
  }

  // seeded search
  const jobs = []; for (const p of PLAN[prop]) { const n = opt('runs') ? Number(opt('runs')) : p[tier]; for (let i = 0; i < n; i++) jobs.push({ op: 'run', gen: p.gen, prop, tier, seed: seed * 1000003 + i, known }); }
  // interleave the workloads so that a capped search still covers all of them
  const byGen = {}; jobs.forEach(j => (byGen[j.gen] = byGen[j.gen] || []).push(j)); const order = []; const ls = Object.values(byGen), tot = jobs.length;
  { const pos = ls.map(() => 0); while (order.length < tot) { let b = -1, bv = 2; ls.forEach((l, k) => { const v = pos[k] / l.length; if (pos[k] < l.length && v < bv) { bv = v; b = k; } }); order.push(ls[b][pos[b]++]); } }
  // the few long runs start first and count last, so that they neither delay the end nor are reported before a shorter one
  for (const j of order) j.bulk = require('./' + j.gen + '.js').config(prop, j.seed, tier).bulk ? 1 : 0;
  order.sort((a, b) => a.bulk - b.bulk).forEach((j, i) => j.i = i); order.sort((a, b) => b.bulk - a.bulk || a.i - b.i);
  let next = 0, best = null, err = null; const agg = { runs: 0, actions: 0, steps: 0, execs: 0, queries: 0, simNs: 0n, traps: 0, injected: {}, counts: {}, known: {}, foreign: {}, nontrivial: 0, byGen: {} }, digests = new Set(), cov = new Set(), samples = []; const dig = [];
  const t1 = Date.now();
  await pool.all(() => { if (err || next >= order.length || (best && best.i < order[next].i) || Date.now() - t1 > wallCap) return null; return order[next++]; }, (m, msg) => {
    if (m.error) { err = err || `run gen=${m.gen} seed=${m.seed}: ${m.error}`; return; }
    if (m.dead) { if (m.dead === 'timeout') { if (!best || m.i < best.i) best = Object.assign({ hang: true }, m); } else err = err || `worker ${m.dead} gen=${m.gen} seed=${m.seed}`; return; }
    const r = m.r; agg.runs++; agg.byGen[m.gen] = (agg.byGen[m.gen] || 0) + 1;
    for (const k of ['actions', 'steps', 'execs', 'queries', 'traps']) agg[k] += r[k]; agg.simNs += BigInt(r.simNs);
    for (const [f, o] of [['injected', r.injected], ['counts', r.counts], ['known', r.known], ['foreign', r.foreign]]) for (const k in o) agg[f][k] = (agg[f][k] || 0) + o[k];
    const fresh = !digests.has(r.digest); digests.add(r.digest); dig[m.i] = r.digest; for (const c of r.cov) cov.add(c);
    if (fresh && r.counts.relevant_effects > 0) agg.nontrivial++;
    if (samples.length < 2 && r.trace) samples.push({ seed: m.seed, workload: m.gen, actions: r.actions, digest: r.digest, first_actions: r.trace.slice(0, 6) });
    if (r.violation && (!best || m.i < best.i)) best = m;
  });
  if (err) { pool.close(); die(err); }
  const searchMs = Date.now() - t1;

  // determinism: the same seeds again, on other workers and in another order, must give the same digests
  const again = []; for (let i = 0; i < order.length && again.length < (tier === 'thorough' ? 40 : 6); i += Math.max(1, Math.floor(order.length / 6))) if (dig[order[i].i] && !order[i].bulk) again.push(order[i]);
  let mism = 0; again.reverse(); let g = 0;
  if (!best) await pool.all(() => g < again.length ? again[g++] : null, m => { if (!m.r || m.r.digest !== dig[m.i]) mism++; });
  if (mism) { pool.close(); die(`${mism} of ${again.length} runs are not repeatable`); }

  let line = null, exit = 0, vio = null;
  if (best && best.hang) {
    const f = path.join(rdir, `${prop}-hang-${best.seed}.json`), cfg = require('./' + best.gen + '.js').config(prop, best.seed, tier);
    const m = await pool.one({ op: 'run', gen: best.gen, prop, tier, seed: best.seed, known, i: 0, bulk: (order.find(j => j.seed === best.seed && j.gen === best.gen) || {}).bulk });
    if (m.dead === 'timeout') { fs.writeFileSync(f, JSON.stringify({ property: prop, hang: true, seed: best.seed, gen: best.gen, cfg, known })); line = `VIOLATION property=${prop} replay=${f}`; exit = 1; vio = 'a canister call does not return'; }
    else { pool.close(); die('a run timed out once but not when repeated'); }
  } else if (best) {
    const v = best.r.violation; console.log(`violation in run seed=${best.seed} workload=${best.gen} after ${best.r.trace.length} actions: ${v.sig}`);
    const pre = best.r.trace, chk = await pool.one({ op: 'replay', i: 0, cfg: best.cfg, actions: pre, prop, known });
    if (!chk.r || !chk.r.violation || chk.r.violation.sig !== v.sig) { pool.close(); die(`violation ${v.sig} of seed ${best.seed} does not replay: ${JSON.stringify(chk.error || chk.dead || (chk.r && chk.r.violation))}`); }
    const mi = await minimise(pool, prop, best.cfg, pre, v.sig, known, tier === 'thorough' ? 240000 : 60000);
    const f = path.join(rdir, `${prop}-${v.sig}-${best.seed}.json`.replace(/[^\w./-]/g, '_'));
    const fin = await pool.one({ op: 'replay', i: 0, cfg: best.cfg, actions: mi.trace, prop, known });
    fs.writeFileSync(f, JSON.stringify({ property: prop, sig: v.sig, message: fin.r.violation.msg, seed: best.seed, workload: best.gen, digest: fin.r.digest, cfg: best.cfg, actions: mi.trace, known }, null, 1));
    // replay in a fresh process and compare
    const rp = cp.spawnSync(process.execPath, [__filename, '--replay', f, '--no-build'], { encoding: 'utf8', timeout: 300000 });
    if (rp.status !== 1 || !rp.stdout.includes('digest ' + fin.r.digest)) { pool.close(); die(`replay of ${f} in a fresh process does not reproduce: ${rp.status} ${rp.stdout} ${rp.stderr}`); }
    console.log(`minimised ${pre.length} -> ${mi.trace.length} actions (${mi.tried} candidates); ${fin.r.violation.msg.slice(0, 1500)}`); for (const a of mi.trace.slice(0, 40)) console.log('  ' + JSON.stringify(a).slice(0, 600));
    line = `VIOLATION property=${prop} replay=${f}`; exit = 1; vio = v.sig;
  }
  pool.close();
  const wall = (Date.now() - t0) / 1000, C = require('./cover').of(PLAN[prop].map(p => p.gen));
  const ev = {
    property: prop, tier, seed, level: 'exploration', wall_s: wall, violations: exit,
    coverage: {
      evaluations: agg.runs, distinct_nontrivial: agg.nontrivial,
      rule: `One evaluation is one simulated run: a fresh deployment of the real canister wasm, a seed-derived configuration (swarm weights, limits, fault rates) and a seed-derived history. Runs are distinct when the digest over every delivered message, fault, reply, certified-data change and memory hash differs, and non-trivial when ${C.rule || 'at least one operation the property constrains took effect or was refused in it'}.`,
      samples, planned_runs: order.length, runs_by_workload: agg.byGen, actions: agg.actions, messages_executed: agg.execs, scheduler_steps: agg.steps, queries_checked: agg.queries,
      simulated_seconds: Number(agg.simNs / 1000000n) / 1000, search_seconds: searchMs / 1000, build_seconds: tBuild / 1000, runs_and_seeds_per_hour: Math.round(agg.runs / (searchMs / 3600000 || 1)),
      faults_injected: agg.injected, traps_observed: agg.traps, events: agg.counts, distinct_abstract_states: cov.size, state_measure: 'distinct tuples (live tokens, burned tokens, owning accounts, approvals, blocks in the log window, permission sets, file states, last operation and its outcome, as far as the workload has them)',
      determinism: { runs_repeated: best ? 0 : again.length, mismatches: mism }, known_findings: kOut, known_findings_met_in_search: agg.known, other_properties_alarms_ignored: agg.foreign,
      real_components: C.real || [], stub_components: C.stub || [], tree: ids,
    },
    assumptions: C.assume || [],
  };
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(ROOT, 'evidence', prop + '.json'), JSON.stringify(ev, (k, v) => typeof v === 'bigint' ? v.toString() : v, 1));
  console.log(`${prop} ${tier}: ${agg.runs} runs, ${agg.actions} actions, ${agg.execs} messages, ${Math.round(Number(agg.simNs / 1000000000n))} simulated s, ${cov.size} abstract states, faults ${JSON.stringify(agg.injected)}, ${wall.toFixed(0)} s wall${Object.keys(agg.foreign).length ? ', alarms of other properties ' + JSON.stringify(agg.foreign) : ''}`);
  if (line) console.log(line);
  process.exit(exit);
}
main().catch(e => die(e && e.stack || e));
