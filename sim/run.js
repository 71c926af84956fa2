'use strict';
// One simulated run: from a seed (generate) or from a recorded action list (replay).
const KINDS = {
  token: () => ({ W: require('./world').World, G: require('./gen_token') }), upload: () => ({ W: require('./upload').World, G: require('./gen_upload') }),
  cli: () => ({ W: require('./cli').World, G: require('./gen_cli') }),
  archive: () => ({ W: require('./archive').World, G: require('./gen_archive') }), index: () => ({ W: require('./index').World, G: require('./gen_index') }),
};
const { Violation } = require('./world');
// which recorded events make a run say something about a property
const REL = {
  N01: /^took_effect_(icrc7_transfer|icrc37_transfer_from|burn_nft)/, N02: /^(took_effect_(icrc7_transfer|icrc37_transfer_from)|refused_(not_approved|not_owner|from_not_owner)|expired_spender)/, N03: /^(took_effect_(icrc7_transfer|icrc37_)|throttled)/,
  N04: /^(spent_|took_effect_icrc37_(approve|revoke))/, N05: /^took_effect_icrc37_(approve|revoke)/, N06: /^(took_effect_|throttled|rolled_back)/, N07: /^(took_effect_|archived)/, N08: /^archived_(ok|lost|refused|blocks_seen)/, N09: /^duplicate/, N10: /^refused_(future|tooold)/,
  N11: /^(took_effect_mint|mint_)/, N12: /^took_effect_burn/, N13: /^(op_grant_permission|op_revoke_permission|priv_|refused_permission)/, N14: /^upgrade_/, N15: /^(excluded|lock_free_at_end)$/, N27: /^cli_(uploaded|upload_failed|refused)$/, N28: /^cli_(minted|permission|created|refused)$/, N16: /^did_(init_upload|store_chunk|finalize_upload|cancel_upload)|^served_cold/, N17: /^(storage_create|trap_after_install|did_init_upload)/, N18: /^gc_/, N26: /^(top_up|funding_checked)/, N22: /^(redirects|system_pages)/, N21: /^rate_limited/, N23: /^took_effect_(mint|update_nft)/, N24: /^op_update_collection/, N25: /^enumerations/, N19: /^ix_(advanced|lists|caught_up)/, N20: /^ixq_(blocks|filtered)/,
};
function finishInfo(w, v) {
  const re = REL[w.cfg.prop] || /^rel_/; let n = 0; for (const k in w.counts) if (re.test(k) || k.startsWith('rel_')) n += w.counts[k]; w.counts.relevant_effects = n;
  const s = w.sim.stats;
  return { violation: v ? { props: v.props, sig: v.sig, msg: v.message } : null, digest: w.sim.digest(), steps: s.steps, execs: s.execs, queries: s.queries, traps: s.traps, injected: s.injected, simNs: (w.sim.time - w.start).toString(), actions: w.trace.length, cov: [...w.cov], counts: w.counts, known: w.knownHit, foreign: w.foreign };
}
function guard(f) { try { f(); return null; } catch (e) { if (e instanceof Violation) return e; throw e; } }
function generate(cfg, opts) {
  const { W, G } = KINDS[cfg.kind](); const w = new W(cfg, opts); let g;
  const v = guard(() => { w.setup(); g = new G.Gen(w, cfg); for (let i = 0; i < cfg.steps; i++) w.exec(g.next()); w.finish(); });
  const r = finishInfo(w, v); r.trace = w.trace; r.world = w; return r;
}
function replay(cfg, actions, opts) {
  const { W } = KINDS[cfg.kind](); const w = new W(cfg, opts);
  const v = guard(() => { w.setup(); for (const a of actions) w.exec(a); w.finish(); });
  const r = finishInfo(w, v); r.trace = w.trace; r.world = w; return r;
}
module.exports = { generate, replay, KINDS };
