'use strict';
// Seeded generator for the command line tool: its commands with every kind of argument, among other clients, with faults in
// the network, in the canisters and in the files.
const { Rng } = require('./prng'); const { sha256 } = require('./candid'); const { PERMS } = require('./world');
const G = require('./gen_upload');
const hx = b => Buffer.from(b).toString('hex');
const snake = p => p.replace(/(?!^)[A-Z]/g, c => '_' + c).toLowerCase();
function config(prop, seed, tier) {
  const r = new Rng('ccfg', prop, seed), c = G.config('N16', seed, tier);
  const W = { cli: 30, init: r.pick([0, 1, 4]), store: r.pick([0, 3]), fin: r.pick([0, 2]), cancel: 1, wild: 0.3, sync: r.pick([1, 5]), step: r.pick([4, 12]), settle: 10, adv: 4, stop: r.pick([0, 0, 1]), cyc: 0, upg: r.pick([0.3, 1]), http: 0.5 };
  return Object.assign(c, { kind: 'cli', prop, W, steps: tier === 'thorough' ? r.range(40, 110) : r.range(18, 45), snapshot: false,
    net: { f: r.pick([0, 0.03, 0.1, 0.25]), pre: r.pick([0, 0, 0.08, 0.25]), st: r.pick([0, 0.1, 0.5]), io: r.pick([0, 0.2, 0.6]) } });
}
const WORDS = ['Gold bar', 'a', '1', 'x=y', 'été', '日本', 'two words', '', 'https://example.com/a.png', 'ipfs://Qm/1?x=1&y=2', 'a:b', ':', '::', 'nan', 'inf', '-', '1.5', '1e3', '0x10', 'true', 'null', '"q"', "it's", 'C:\\x'];
const NUMS = ['0', '7', '42', '18446744073709551615', '1000000'], INTS = ['-1', '-7', '-9223372036854775808'];
class Gen extends G.Gen {
  constructor(w, cfg) { super(w, cfg); this.nc = 0; }
  plan(n, path) {
    const r = this.r, N = this.cfg.net, out = [];
    for (let i = 0; i < n; i++) {
      const p = {};
      if (r.chance(N.f)) { p.f = r.pick(['lost', 'rejected', 'late', 'late', 'crash0', 'crash1']); if (r.chance(0.5)) p.tmo = 1; }
      if (r.chance(N.pre)) p.pre = [].concat(this.other(path)).filter(x => x);
      if (r.chance(N.st)) { p.st = []; for (let k = r.range(1, 12); k > 0; k--) p.st.push({ t: 's', k: 0, ...(r.chance(0.12) ? { f: r.pick([{ reject: 2 }, { reject: 5 }, { trap: r.range(1, 60) }]) } : {}) }); }
      out.push(Object.keys(p).length ? p : null);
    }
    return out.some(x => x) ? out.map(x => x || {}) : undefined;
  }
  other(path) { // what somebody else does between two calls of the tool
    const r = this.r, p = path && r.chance(0.85) ? path : this.path(), ul = (m, q) => ({ t: 'ul', w: '@admin', m, a: [q] }), d = r.bytes(r.range(1, 9));
    switch (r.int(9)) {
      case 0: case 1: return [ul('init_upload', { file_hash: sha256(d).toString('hex'), file_path: p, file_size: String(d.length), chunk_size: '64' }), { t: 'q' }];
      case 2: return [ul('cancel_upload', { file_path: p }), { t: 'q' }, ul('init_upload', { file_hash: sha256(d).toString('hex'), file_path: p, file_size: String(d.length), chunk_size: '64' }), { t: 'q' }];
      case 3: return [ul('cancel_upload', { file_path: p }), { t: 'q' }];
      case 4: return [ul('store_chunk', { file_path: p, chunk_id: 0, chunk_data: d.toString('hex') }), { t: 'q' }];
      case 5: return [ul('finalize_upload', { file_path: p }), { t: 'q' }];
      case 6: return [ul(r.pick(['init_upload', 'cancel_upload']), { file_hash: '00', file_path: this.path(), file_size: '3', chunk_size: '3' }), { t: 's', k: 0 }]; // still running
      case 7: return [{ t: 'u', w: '@admin', m: r.pick(['revoke_permission', 'grant_permission']), a: [{ permission: r.pick(PERMS), principal: '@u' + r.int(3) }] }];
      default: return r.chance(0.5) ? [{ t: 'st', can: r.int(6), status: r.chance(0.4) ? 'stopped' : 'running' }] : [{ t: 'a', dt: String(r.range(1, 100000) * 1000000) }, { t: 'q' }];
    }
  }
  cliWho() { return this.r.weighted([[7, '@admin'], [2, '@u0'], [1, '@u1']]); }
  io(d) { const r = this.r; if (!r.chance(this.cfg.net.io)) return undefined; return r.weighted([[6, { short: r.range(1, 1e9) }], [2, { eio: r.range(1, 6) }], [1, { short: r.range(1, 1e9), eio: r.range(1, 30) }]]); }
  data() { const r = this.r; return r.bytes(r.weighted([[1, 0], [3, r.range(1, 5)], [6, r.range(1, 400)], [2, r.range(400, 3000)]])); }
  g_cli() { const r = this.r, k = this.cfg.prop === 'N27' ? r.weighted([[8, 'file'], [3, 'umeta'], [1, 'mint']]) : r.weighted([[6, 'mint'], [4, 'perm'], [4, 'create'], [2, 'valid'], [1, 'file']]); return this['c_' + k](); }
  big() { // files around and above the default chunk size
    const r = this.r, M = 1048576, len = r.pick([M - 1, M, M + 1, 2 * M, 2 * M + 1, r.range(M, 5 * M)]), p = 'n/' + this.nc++, chunk = r.pick([undefined, undefined, M, M - 1, r.range(300000, M)]), n = 3 + Math.ceil(len / (chunk || M));
    return this.common({ t: 'cli', w: '@admin', argv: ['upload-file', ...(chunk ? ['-s', String(chunk)] : []), '--', 'in.bin', p], files: { 'in.bin': `big:${len}:${r.int(1e9)}` }, exp: { cmd: 'upload-file', props: ['N27'], file: 'in.bin', path: p, chunk, must: !this.w.core.open.size } }, n, p);
  }
  c_file() {
    if (this.r.chance(0.02)) return this.big();
    const r = this.r, d = this.data(), p = r.chance(0.35) ? 'n/' + this.nc++ : this.path().replace(/\u0000/g, '0') || 'e', chunk = r.weighted([[3, undefined], [5, Math.max(1, Math.ceil(d.length / r.range(1, 7)))], [2, d.length || 1], [1, r.range(1, 1000000)], [0.5, 0], [0.5, 5000000], [0.3, '18446744073709551615']]);
    if (chunk > 0 && d.length / chunk > 30) return null;
    const n = 3 + Math.ceil(d.length / (chunk || 1048576)), a = { t: 'cli', w: this.cliWho(), argv: ['upload-file', ...(chunk === undefined ? [] : r.chance(0.5) ? ['-s', String(chunk)] : ['--chunk_size', String(chunk)]), '--', 'in.bin', p], files: { 'in.bin': hx(d) }, exp: { cmd: 'upload-file', props: ['N27'], file: 'in.bin', path: p, chunk, must: !this.w.core.open.size } };
    if (r.chance(0.04)) { a.argv[a.argv.length - 2] = 'missing.bin'; a.exp.file = 'missing.bin'; a.exp.must = false; }
    if (r.chance(this.cfg.net.io * 0.3)) a.mut = { at: r.int(n), files: { 'in.bin': hx(r.pick([d.subarray(0, d.length >> 1), Buffer.concat([d, r.bytes(5)]), Buffer.concat([d.subarray(1), Buffer.from([1])]), Buffer.alloc(0)])) } };
    return this.common(a, n, p);
  }
  common(a, n, p) { const io = this.io(), pl = this.plan(n, p); if (io) a.io = io; if (pl) a.plan = pl; if (this.r.chance(0.1)) a.exp.net = 'ic'; return a; }
  json() { // an ICRC-97 document, valid or not
    const r = this.r, o = {}, w = () => r.pick(WORDS); let valid = true;
    if (r.chance(0.8)) o.name = w(); if (r.chance(0.8)) o.description = w(); if (r.chance(0.4)) o.image = w(); if (r.chance(0.3)) o.external_url = w();
    if (r.chance(0.7)) o.attributes = Array.from({ length: r.int(4) }, () => { const a = { trait_type: w(), value: r.pick([w(), 5, -1.5, true, null, [1]]) }; if (r.chance(0.3)) a.display_type = w(); return a; });
    let j = o;
    if (r.chance(0.35)) {
      valid = false;
      switch (r.int(9)) {
        case 0: o.name = r.pick([1, null, ['x'], {}]); break; case 1: o.description = r.pick([1, null, {}]); break; case 2: o.image = 5; break; case 3: o.external_url = false; break; case 4: o.attributes = r.pick([{}, 'x', null, 3]); break;
        case 5: o.attributes = [...(o.attributes || []), r.pick(['x', 1, null, [1]])]; break; case 6: o.attributes = [...(o.attributes || []), r.pick([{ value: 1 }, { trait_type: 5, value: 1 }, { trait_type: 'a' }, { trait_type: 'a', value: 1, display_type: 7 }])]; if (r.chance(0.5)) o.attributes.push({ trait_type: 'z', value: 1 }); break;
        case 7: j = r.pick([[], 'x', 5, null]); break; default: return { text: r.pick(['', '{', '{"name": }', JSON.stringify(o) + '}', '[1,']), valid };
      }
    }
    return { text: r.chance(0.5) ? JSON.stringify(j) : JSON.stringify(j, null, 2) + '\n', valid };
  }
  c_umeta() {
    const r = this.r, { text, valid } = this.json(), d = Buffer.from(text), chunk = r.chance(0.4) ? undefined : Math.max(1, Math.ceil(d.length / r.range(1, 6)));
    return this.common({ t: 'cli', w: this.cliWho(), argv: ['upload-metadata', ...(chunk === undefined ? [] : ['-s', String(chunk)]), 'm.json'], files: { 'm.json': hx(d) }, exp: { cmd: 'upload-metadata', props: ['N27'], file: 'm.json', chunk, valid, must: !this.w.core.open.size } }, 3 + Math.ceil(d.length / (chunk || 1e6)), '/' + sha256(d).toString('hex') + '.json');
  }
  c_valid() { const { text, valid } = this.json(); return this.common({ t: 'cli', w: this.cliWho(), argv: ['validate-metadata', 'm.json'], files: { 'm.json': hx(Buffer.from(text)) }, exp: { cmd: 'validate-metadata', props: ['N28'], file: 'm.json', valid } }, 1); }
  typed(a, lines) { // what is typed on the terminal; the input may end early
    const r = this.r; let x = lines; if (r.chance(0.12)) { x = lines.slice(0, r.int(lines.length)); if (!a.exp.bad) a.exp.bad = 'the input ends early'; }
    a.in = x.join('\n') + (x.length && (x[x.length - 1] === '' || r.chance(0.9)) ? '\n' : '');
  }
  key() { return this.r.pick(['k', 'name', 'rarity', 'icrc97:metadata'.slice(0, 6), 'Ünï', 'a b', 'x-' + this.r.int(4)]); }
  c_mint() {
    const r = this.r, owner = '@u' + r.int(3), argv = ['mint', '-o', owner, '-n', 'token'], e = { cmd: 'mint', props: ['N28'], owner, meta: [] };
    if (r.chance(0.4)) { e.memo = r.pick(WORDS.filter(x => x && x[0] !== '-')); argv.push('--memo', e.memo); }
    if (r.chance(0.4)) { const s = r.bytes(32).toString('hex'); if (r.chance(0.15)) { e.bad = 'the subaccount is malformed'; argv.push('--subaccount', r.pick([s.slice(2), s + '00', 'zz' + s.slice(2), s.slice(1)])); } else { e.sub = s; argv.push('--subaccount', s); } }
    if (r.chance(0.05)) { argv[2] = 'not-a-principal'; e.bad = 'the owner is no principal'; }
    const a = { t: 'cli', w: this.cliWho(), argv, exp: e };
    if (r.chance(0.2)) { const u = r.pick(WORDS.filter(x => x && x[0] !== '-')); e.meta = [['icrc97:metadata', { Array: [{ Text: u }] }]]; argv.push('--icrc97_url', u); }
    else if (r.chance(0.2)) { // answered on the terminal
      argv.push('--interactive'); const lines = [], n = r.range(0, 3);
      for (let i = 0; i < n; i++) {
        const k = 'i' + i, t = r.int(4); lines.push(k, t === 0 && r.chance(0.15) ? r.pick(['', '5', 'text']) : String(t + 1));
        if (t === 0) { const v = r.pick(WORDS).trim(); lines.push(v); e.meta.push([k, { Text: v }]); }
        else if (t === 1) { const v = r.pick(NUMS.concat('x')); lines.push(v); if (v === 'x') { e.bad = 'a number is malformed'; break; } e.meta.push([k, { Nat: v }]); }
        else if (t === 2) { const v = r.pick(NUMS.slice(0, 3).concat(INTS)); lines.push(v); e.meta.push([k, { Int: v }]); }
        else { const b = r.bytes(r.int(9)); lines.push(b.toString('base64')); e.meta.push([k, { Blob: hx(b) }]); }
        if (r.chance(0.1)) lines.push(r.pick(['maybe', '', '1', 'yy'])); lines.push(i === n - 1 ? r.pick(['n', 'N', 'no']) : r.pick(['y', 'Yes']));
      }
      if (!n) lines.push(''); this.typed(a, lines);
    } else for (let n = r.int(4), i = 0; i < n; i++) {
      const k = this.key() + i, v = r.weighted([[5, r.pick(WORDS)], [2, r.pick(NUMS)], [2, r.pick(INTS)]]), o = ['-m', '--metadata'][r.int(2)];
      if (r.chance(0.05)) { e.bad = 'an entry is not of the form key:value'; argv.push(o, 'novalue'); break; }
      argv.push(o, k + ':' + v); e.meta.push([k, NUMS.includes(v) || v === '1' ? { Nat: v } : INTS.includes(v) ? { Int: v } : { Text: v }]);
    }
    return this.common(a, 2);
  }
  c_perm() {
    const r = this.r, k = r.pick(['grant', 'grant', 'revoke', 'list', 'has']), who = r.pick(['@u0', '@u1', '@u2', '@admin', '@anon']), perm = r.pick(PERMS), e = { cmd: k, props: ['N28'], who, perm };
    if (k === 'revoke' && who === '@admin') return null;
    const s = r.pick([snake(perm), snake(perm), perm, perm.toLowerCase(), snake(perm).replace(/_/g, '-'), snake(perm).toUpperCase()]), argv = ['permissions', k, '--principal', who, ...(k === 'list' ? [] : ['--permission', s])];
    if (k !== 'list' && r.chance(0.06)) { argv[argv.length - 1] = r.pick(['admin', '', 'mint', 'minting ']); e.bad = 'there is no such permission'; }
    return this.common({ t: 'cli', w: this.cliWho(), argv, exp: e }, 2);
  }
  c_create() {
    const r = this.r, argv = ['create-metadata', '-o', 'out.json'], e = { cmd: 'create-metadata', props: ['N28'], json: {} }, ok = WORDS.filter(x => x[0] !== '-'), j = e.json, a = { t: 'cli', w: this.cliWho(), argv, exp: e };
    const num = v => /^-?\d+(\.\d+)?(e\d+)?$/.test(v);
    if (r.chance(0.25)) { // interactively
      const ln = []; argv.push('-i'); const w = () => r.pick(WORDS.filter(x => x)); j.name = w(); j.description = w(); ln.push(j.name, j.description);
      for (const k of ['image', 'external_url']) if (r.chance(0.5)) { j[k] = w(); ln.push(j[k]); } else ln.push('');
      const n = r.int(3); ln.push(n ? r.pick(['y', 'YES']) : 'n'); if (n) j.attributes = [];
      for (let i = 0; i < n; i++) {
        const at = { trait_type: 't' + i }, v = r.pick(WORDS.concat(NUMS.slice(0, 3))); ln.push(at.trait_type, v); at.value = num(v) ? Number(v) : v; if (v === 'nan' || v === 'inf') at.value = v;
        const c = r.int(num(v) ? 5 : 2); if (r.chance(0.1)) ln.push(r.pick(['0', '6', 'x'])); ln.push(c === (num(v) ? 4 : 0) && r.chance(0.3) ? '' : String(c + 1)); if (num(v)) { const d = ['number', 'boost_number', 'boost_percentage', 'date', null][c]; if (d) at.display_type = d; } else if (c === 1) { at.display_type = 'mine'; ln.push('mine'); }
        j.attributes.push(at); if (r.chance(0.1)) ln.push('?'); ln.push(i === n - 1 ? 'n' : 'y');
      }
      this.typed(a, ln);
    } else {
      j.name = r.pick(ok); j.description = r.pick(ok); argv.push('-n', j.name, '-d', j.description); if (r.chance(0.4)) { j.image = r.pick(ok); argv.push('--image', j.image); } if (r.chance(0.4)) { j.external_url = r.pick(ok); argv.push('--external_url', j.external_url); }
      const n = r.int(4); for (let i = 0; i < n; i++) {
        const v = r.pick(ok.filter(x => !x.includes(':')).concat(NUMS.slice(0, 3))), at = { trait_type: 't' + i, value: num(v) ? Number(v) : v }; let s = at.trait_type + ':' + v;
        if (r.chance(0.3)) { at.display_type = r.pick(['date', 'mine', 'boost_number']); s += ':' + at.display_type; }
        if (r.chance(0.06)) { s = r.pick(['novalue', 'a:b:c:d']); e.bad = 'an attribute is not of the form trait_type:value[:display_type]'; }
        argv.push('-a', s); (j.attributes = j.attributes || []).push(at);
      }
    }
    this.common(a, 1); delete a.io; if (r.chance(this.cfg.net.io)) a.io = { space: r.int(400) }; return a;
  }
}
module.exports = { config, Gen };
