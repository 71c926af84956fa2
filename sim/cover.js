'use strict';
// What ran as real code, what was a stand-in and what is assumed, per workload; check.js merges them for the workloads of a property.
const REAL = {
  gen_token: ['core_nft.wasm built from /repo (all of it: updates, queries, guards, stable memory, serialisation, timers, ic-cdk glue)', 'the bity-ic-icrc3 block log compiled into it'],
  gen_upload: ['core_nft.wasm built from /repo', 'the storage canister wasm that core_nft embeds and installs (/repo/wasm/storage_canister.wasm.gz), run unmodified', 'bity-ic-subcanister-manager and bity-ic-storage-canister-c2c inside core_nft'],
  gen_archive: ['core_nft.wasm built from /repo', 'the archive canister wasm that bity-ic-icrc3 embeds and installs, run unmodified', 'bity-ic-icrc3 and bity-ic-subcanister-manager inside core_nft'],
  gen_index: ['core_nft.wasm and index_icrc7.wasm built from /repo', 'the archive canister wasm embedded in bity-ic-icrc3'],
};
const STUB = {
  gen_token: ['the IC replica: sim/ic.js executes messages, rolls back on traps, keeps time, timers, cycles, stable memory and certified data, plays the management canister', 'clients: the seeded generator'],
};
STUB.gen_upload = STUB.gen_token.concat(['HTTP clients and gateway (sim/http.js verifies the v2 certificate witness against the certified data; the subnet signature itself is a stand-in)']);
STUB.gen_archive = STUB.gen_index = STUB.gen_token;
REAL.gen_cli = ['the command line tool /repo/cmdline (all of its own code, run as a child process, argument parsing and file access included)', 'core_nft.wasm built from /repo', 'the storage canister wasm that core_nft embeds'];
STUB.gen_cli = STUB.gen_token.concat(['the ic-agent crate: cli/ic-agent hands every call of the tool to the simulator, so signing, envelopes, certificates and polling are not exercised', 'file faults: cli/iofault.c, preloaded into the tool', 'the terminal: standard input is a script']);
const ASSUME = ['the simulator implements the IC message model faithfully: atomic message execution with rollback on trap, calls made only when the calling message commits, ordered requests per sender and receiver, time fixed within a message, at most one answer per call',
  'instruction limits, heap exhaustion and real cycle prices are not modelled', 'seeded search is not exhaustive: a schedule that no run reached is not covered'];
module.exports = { REAL, STUB, ASSUME, of(gens) { const u = f => [...new Set(gens.flatMap(f))]; return { real: u(g => REAL[g]), stub: u(g => STUB[g]), assume: ASSUME }; } };
