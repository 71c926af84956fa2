C='src/core_nft/src/'; I='src/index_icrc7/src/'
B=[]
def bug(id,prop,needs,breaks,edits,demo): B.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo))

bug('b01_owner_list_binary_search','N01',"An account that received its tokens in an order other than ascending ids, then transfers one of them away.",
"The transferred token stays in (or another token leaves) the previous owner's list, so icrc7_balance_of no longer agrees with icrc7_owner_of.",
[(C+'updates/icrc7.rs',"""                    .or_insert(vec![])
                    .retain(|id| *id != nft.token_id.clone());""","""                    .and_modify(|ids| {
                        if let Ok(position) = ids.binary_search(&nft.token_id) {
                            ids.remove(position);
                        }
                    })
                    .or_insert(vec![]);""")],
"""const d = new K.Deployment(), A = K.acc('@u0'), B = K.acc('@u1');
d.mint([B, A, B, A]); // A: 2, 4
d.transfer('@u1', A, 3n); d.transfer('@u1', A, 1n); // A: 2, 4, 3, 1
for (const id of [1n, 3n, 4n, 2n]) { d.transfer('@u0', B, id); K.check(d.bal(A) === d.tokens(A).length && d.bal(B) === d.tokens(B).length, 'balances ' + d.bal(A) + '/' + d.bal(B) + ' with tokens ' + d.tokens(A) + ' / ' + d.tokens(B)); }""")

bug('b02_spender_default_subaccount','N02',"A delegated transfer from a subaccount of a principal whose default account, but not that subaccount, holds a collection approval.",
"A spender account that was never approved moves the token with the approval of another account of the same principal.",
[(C+'updates/icrc37.rs',"""            if let Some(approval) = approval_map.get(&WrappedAccount::from(spender_account.clone()))
            {""","""            // an approval for the principal covers all of its accounts.
            let principal_account = Account {
                owner: caller,
                subaccount: None,
            };
            if let Some(approval) = approval_map
                .get(&WrappedAccount::from(spender_account.clone()))
                .or(approval_map.get(&WrappedAccount::from(principal_account)))
            {""")],
"""const d = new K.Deployment(), A = K.acc('@u0'), S = K.acc('@u2');
d.mint([A, A]); d.approveColl('@u0', S);
const r = d.tfrom('@u2', A, K.acc('@u1'), 1n, { spender_subaccount: Buffer.alloc(32, 7) });
K.check(r.Err !== undefined && d.owner(1n) === K.U.akey(A), 'moved by an account without approval: ' + K.J(r));
K.check(d.tfrom('@u2', A, K.acc('@u1'), 1n).Ok !== undefined, 'the approved account cannot move the token');""")

bug('b03_batch_stops_at_rate_limit','N03',"A transfer_from batch with more than five elements for one token (or five recent ones), followed by elements for other tokens.",
"The elements after the rate-limited one are neither executed nor answered.",
[(C+'updates/icrc37.rs',"""        let result = transfer_from(arg, caller, current_time);
        results.push(Some(result));
    }""","""        results.push(Some(transfer_from(arg, caller, current_time)));
        let rate_limited = matches!(
            results.last(),
            Some(Some(icrc37_transfer_from::TransferFromResult::Err(
                icrc37_transfer_from::TransferFromError::GenericError { error_code, .. }
            ))) if *error_code == 0u64
        );
        if rate_limited {
            break;
        }
    }""")],
"""const d = new K.Deployment(), A = K.acc('@u0'), B = K.acc('@u1');
d.mint([A, A]);
const el = id => ({ to: B, spender_subaccount: null, token_id: id, from: A, memo: null, created_at_time: null });
const r = d.call('icrc37_transfer_from', '@u0', [9n, 9n, 9n, 9n, 9n, 9n, 1n, 2n].map(el)).Ok;
K.check(r.length === 8, r.length + ' results for 8 elements');
K.check(r[6] && r[6].Ok !== undefined && d.owner(1n) === K.U.akey(B), 'element 6 was not executed: ' + K.J(r[6]));""")

bug('b04_reapprove_keeps_longer','N04',"The owner approves the same spender twice, the second time with an earlier expiry.",
"The approval does not end at the expiry the owner set last: the spender can still move the token afterwards.",
[(C+'updates/icrc37.rs',"""        approval_map.insert(
            WrappedAccount::from(arg.approval_info.spender.clone()),
            approval,
        );

        s.insert(""","""        approval_map
            .entry(WrappedAccount::from(arg.approval_info.spender.clone()))
            .and_modify(|current| {
                current.created_at = approval.created_at;
                current.memo = approval.memo.clone();
                if current.expires_at.is_some() {
                    current.expires_at = current.expires_at.max(approval.expires_at);
                } else {
                    current.expires_at = approval.expires_at;
                }
            })
            .or_insert(approval);

        s.insert(""")],
"""const d = new K.Deployment(), A = K.acc('@u0'), S = K.acc('@u2');
d.mint([A]); d.approve('@u0', S, 1n, { expires_at: d.now + 3600n * K.SEC }); d.approve('@u0', S, 1n, { expires_at: d.now + 60n * K.SEC });
d.adv(120n * K.SEC);
const r = d.tfrom('@u2', A, K.acc('@u1'), 1n);
K.check(r.Err !== undefined, 'the spender moved the token after the approval had ended: ' + K.J(r));""")

bug('b05_approval_paging_by_principal','N05',"Two approvals of one token for two subaccounts of the same principal, listed page by page.",
"Paging with prev repeats or never gets past one of the two approvals.",
[(C+'queries/icrc37.rs',"""                .position(|approval| {
                    approval.approval_info.spender == prev_approval.approval_info.spender
                })
                .map(|pos| pos + 1)
                .unwrap_or(0)
        } else {
            0
        };

        let paginated""","""                .position(|approval| {
                    approval.approval_info.spender.owner
                        == prev_approval.approval_info.spender.owner
                })
                .map(|pos| pos + 1)
                .unwrap_or(0)
        } else {
            0
        };

        let paginated""")],
"""const d = new K.Deployment(), A = K.acc('@u0');
d.mint([A]); for (const n of [0, 1, 2]) d.approve('@u0', K.acc('@u2', n), 1n); d.approve('@u0', K.acc('@u3'), 1n);
const seen = []; let prev = null;
for (let i = 0; i < 10; i++) { const l = d.q('icrc37_get_token_approvals', 1n, prev, 1n); if (!l.length) break; seen.push(K.U.akey(l[0].approval_info.spender)); prev = l[0]; }
K.check(seen.length === 4 && new Set(seen).size === 4, 'pages listed ' + seen.length + ' approvals, ' + new Set(seen).size + ' different');""")

bug('b06_mint_block_first_memo','N06',"A mint batch whose requests carry different memos.",
"The 7mint blocks of the later tokens carry the memo of the first request.",
[(C+'updates/management.rs',"""                meta: None,
                memo: mint_request.memo.clone(),
                created_at_time: Some(Nat::from(timestamp)),""","""                meta: None,
                memo: memo.clone(),
                created_at_time: Some(Nat::from(timestamp)),"""),
 (C+'updates/management.rs',"""    let timestamp = ic_cdk::api::time();

    for (i,""","""    let timestamp = ic_cdk::api::time();
    let memo = req.mint_requests.iter().find_map(|request| request.memo.clone());

    for (i,""")],
"""const d = new K.Deployment(), A = K.acc('@u0');
d.mint([A, A, A], () => [], i => i === 1 ? Buffer.from('bb') : null);
const memo = b => { const tx = b.block.Map.find(x => x[0] === 'tx')[1].Map, m = tx.find(x => x[0] === 'memo'); return m ? Buffer.from(m[1].Blob).toString() : null; };
const l = d.blocks(0n, 3n).map(memo); K.check(JSON.stringify(l) === '[null,"bb",null]', 'memos in the log: ' + JSON.stringify(l));""")

bug('b07_jobs_only_after_init','N08',"An upgrade of the NFT canister before the oldest blocks are due for archiving.",
"The periodic jobs are only started by init: after an upgrade no block is ever archived (and no upload collected).",
[(C+'lifecycle/mod.rs',"""    init_state(runtime_state);
    crate::jobs::start();
""","""    let first_start = runtime_state.env.version() == bity_ic_types::BuildVersion::min()
        || runtime_state.data.last_token_id == 1u64;
    init_state(runtime_state);
    if first_start {
        crate::jobs::start();
    }
""")],
"""const d = new K.Deployment(), A = K.acc('@u0');
d.mint([A, A]); K.check(d.upgrade().ok, 'upgrade');
for (let i = 0; i < 4; i++) d.tick(10n * K.MIN);
const r = d.q('icrc3_get_blocks', [{ start: 0n, length: 9n }]);
K.check(r.blocks.length === 0 && r.archived_blocks.length > 0, r.blocks.length + ' blocks are still in the ledger after 40 minutes');
K.check(BigInt(r.log_length) === 2n, 'log length');""")

bug('b08_future_created_at_clamped','N09',"An icrc7_transfer whose created_at_time lies in the ledger's future (within the drift), the token coming back to the sender, and the same request again.",
"The retried request is not recognised as the one already executed and moves the token a second time.",
[(C+'updates/icrc7.rs',"""            created_at_time: Some(Nat::from(time)),""","""            created_at_time: Some(Nat::from(time.min(current_time))),""")],
"""const d = new K.Deployment({ tx_window: 60n * K.SEC, permitted_drift: 2n * K.SEC }), A = K.acc('@u0'), B = K.acc('@u1');
d.mint([A]);
const o = { created_at_time: d.now + K.SEC };
K.check(d.transfer('@u0', B, 1n, o).Ok !== undefined, 'first execution'); d.transfer('@u1', A, 1n);
d.transfer('@u0', B, 1n, o);
K.check(d.owner(1n) === K.U.akey(A), 'the retried transfer was executed a second time'); K.check(d.log() === 3n, 'log length ' + d.log());""")

bug('b09_window_never_below_default','N10',"A collection with a tx_window shorter than the default, and an approval or delegated transfer older than the window plus drift.",
"Approvals, revocations and delegated transfers with an outdated created_at_time are executed instead of refused as TooOld.",
[(C+'updates/icrc37.rs',"""            .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_TX_WINDOW))
    })""","""            .unwrap_or_default()
            .max(Nat::from(crate::types::icrc7::DEFAULT_TX_WINDOW))
    })""")],
"""const d = new K.Deployment({ tx_window: 2n * K.SEC, permitted_drift: K.SEC }), A = K.acc('@u0');
d.mint([A]);
const r = d.approve('@u0', K.acc('@u2'), 1n, { created_at_time: d.now - 5n * K.SEC });
K.check(r.Err !== undefined && d.log() === 1n, 'an approval created 5 s ago was executed with a window of 2 s and 1 s drift: ' + K.J(r));
K.check(d.approve('@u0', K.acc('@u2'), 1n, { created_at_time: d.now - K.SEC }).Ok !== undefined, 'a valid approval is refused');""")

bug('b10_next_id_from_highest','N11',"Burning the token with the highest id, then minting again.",
"The id of the burned token is given to a new token.",
[(C+'updates/management.rs',"""    let current_token_id = read_state(|state| state.data.last_token_id.clone());
    let token_list = read_state(|state| state.data.tokens_list.clone());""","""    let token_list = read_state(|state| state.data.tokens_list.clone());
    let current_token_id = token_list
        .keys()
        .max()
        .map(|highest| highest.clone() + 1u64)
        .unwrap_or_else(|| read_state(|state| state.data.last_token_id.clone()));""")],
"""const d = new K.Deployment(), A = K.acc('@u0');
d.mint([A, A]); K.check(d.call('burn_nft', '@u0', 2n).Ok !== undefined, 'burn'); d.adv(K.SEC);
K.check(d.mint([A]) === 3n, 'a burned id was minted again');""")

bug('b11_duplicate_grant_survives','N13',"A permission granted twice to the same principal and then revoked.",
"One of the two grants stays: the principal keeps the permission after it was revoked.",
[(C+'types/permissions.rs',"""            permissions.retain(|p| p != permission);""","""            if let Some(index) = permissions.iter().position(|p| p == permission) {
                permissions.remove(index);
            }""")],
"""const d = new K.Deployment(), a = { permission: { Minting: null }, principal: K.P('@u0') };
d.call('grant_permission', '@admin', a); d.call('grant_permission', '@admin', a); d.call('revoke_permission', '@admin', a);
const r = d.call('mint', '@u0', { mint_requests: [{ token_owner: K.acc('@u0'), memo: null, metadata: [] }] });
K.check(r.rej !== undefined && Number(d.q('icrc7_total_supply')) === 0, 'minted with a revoked permission: ' + K.J(r));""")

bug('b12_clone_swaps_drift','N14',"An upgrade of a collection that has a permitted_drift but no tx_window configured.",
"The custom Clone of the state, which the upgrade goes through, loses permitted_drift: it is back at the default after the upgrade.",
[(C+'state.rs',"""            permitted_drift: self.permitted_drift.clone(),
            max_canister""","""            permitted_drift: self.tx_window.clone().and(self.permitted_drift.clone()),
            max_canister""")],
"""const d = new K.Deployment({ permitted_drift: 3n * K.SEC });
K.check(String(d.q('icrc7_permitted_drift')) === String(3n * K.SEC), 'init'); K.check(d.upgrade().ok, 'upgrade');
K.check(String(d.q('icrc7_permitted_drift')) === String(3n * K.SEC), 'permitted_drift after the upgrade: ' + d.q('icrc7_permitted_drift'));""")

bug('b13_guard_reentrant_per_principal','N15',"A second management call by the same principal while its first one waits for a storage canister.",
"Both calls run interleaved instead of the second being refused with ConcurrentManagementCall.",
[(C+'guards.rs',"""            if s.principal_guards.len() >= MAX_CONCURRENT {""","""            let others = s.principal_guards.iter().filter(|p| **p != principal).count();
            if others >= MAX_CONCURRENT {""")],
"""const d = new K.Deployment(); const data = Buffer.from('x'.repeat(20));
d.upload('/a', data);
const n = d.send('init_upload', '@admin', { file_hash: K.hash(data), file_path: '/b', file_size: 20n, chunk_size: 16n }); d.exec(n);
K.check(d.out(n).pending, 'the upload should wait for its storage canister');
const r = d.now_('mint', '@admin', { mint_requests: [{ token_owner: K.acc('@u0'), memo: null, metadata: [] }] });
K.check(r.Err && r.Err.ConcurrentManagementCall !== undefined, 'a second management call was admitted: ' + K.J(r));
d.settle(); K.check(d.out(n).Ok !== undefined, 'the first call'); d.mint([K.acc('@u0')]);""")

bug('b14_guard_leaks_on_failed_chunk','N15',"store_chunk refused or failed by the storage canister.",
"The management lock is kept for ever: every later management call is refused.",
[(C+'updates/management.rs',"""    match canister.store_chunk(data.clone()).await {
        Ok(_) => {}
        Err(e) => {
            trace(&format!("Error storing chunk: {:?}", e));
            return Err(e);""","""    let stored = canister.store_chunk(data.clone()).await;
    match stored {
        Ok(_) => {}
        Err(e) => {
            trace(&format!("Error storing chunk: {:?}", e));
            if matches!(e, store_chunk::StoreChunkError::StorageCanisterError(_)) {
                std::mem::forget(_guard_principal);
            }
            return Err(e);""")],
"""const d = new K.Deployment(); const data = Buffer.from('x'.repeat(20));
d.initUpload('/a', data); const sc = d.others().find(c => c.inst);
sc.status = 'stopped'; const r = d.chunk('/a', 0, data.subarray(0, 16)); sc.status = 'running';
K.check(r.Err !== undefined, 'the chunk cannot have been stored');
K.check(d.chunk('/a', 0, data.subarray(0, 16)).Ok !== undefined, 'the lock was not released'); d.mint([K.acc('@u0')]);""")

bug('b15_finalized_before_await','N16',"The call-back of a failed finalize_upload traps (or its execution fails) after the storage canister refused.",
"The upload is recorded as finalized before the storage canister has confirmed it; when the call-back fails it stays Finalized although nothing is served.",
[(C+'updates/management.rs',"""    match canister.finalize_upload(data.clone()).await {
        Ok(_) => {}""","""    // no chunk may arrive any more while the storage canister checks the file.
    let set_state = |upload_state: UploadState| {
        mutate_state(|state| {
            if let Some(file) = state.internal_filestorage.map.get_mut(&data.file_path) {
                file.state = upload_state;
            }
        })
    };
    set_state(UploadState::Finalized);
    let result = canister.finalize_upload(data.clone()).await;
    if result.is_err() {
        set_state(UploadState::InProgress);
    }
    match result {
        Ok(_) => {}""")],
"""const d = new K.Deployment(); const data = Buffer.from('x'.repeat(40));
d.initUpload('/a', data); d.chunk('/a', 0, data.subarray(0, 16));
const sc = d.others().find(c => c.inst); sc.status = 'stopped';
const n = d.send('finalize_upload', '@admin', { file_path: '/a' }); d.exec(n);
for (let i = 0; i < 20 && d.out(n).pending; i++) { const ev = d.sim.enabled().sort((a, b) => a.n - b.n)[0]; d.sim.step(ev, ev.kind === 'response' ? { trap: 1 } : {}); }
sc.status = 'running'; d.settle();
const s = d.status('/a'); K.check(s.Ok && s.Ok.Finalized === undefined, 'status after a failed finalize_upload: ' + K.J(s));""")

bug('b16_gives_up_on_first_storage','N17',"Two storage canisters, one of them not answering while a file is initialised.",
"The search stops at the first canister that does not answer and a further storage canister is created although another one would have accepted the file.",
[(C+'types/sub_canister.rs',"""                _ => {
                    continue;
                }
            }
        }

        trace(""","""                Ok(_) => {
                    continue;
                }
                Err(_) => {
                    break;
                }
            }
        }

        trace(""")],
"""const data = Buffer.from('x'.repeat(20));
// the canister that does not answer is each of the two in turn
for (const k of [0, 1]) {
  const d = new K.Deployment(); d.upload('/a', data);
  const inst = () => d.others().filter(c => c.inst), first = inst()[0]; first.status = 'stopped'; d.upload('/b', data); first.status = 'running';
  const two = inst(); K.check(two.length === 2, 'two storage canisters expected');
  two[k].status = 'stopped'; d.upload('/c', data); two[k].status = 'running';
  K.check(inst().length === 2, 'a third storage canister was created although one of the two was available');
}""")

bug('b17_chunk_renews_upload','N18',"An upload with a chunk stored shortly before it is a day old.",
"Storing a chunk restarts the age of the upload, so an upload initialised more than a day ago is not collected.",
[(C+'updates/management.rs',"""                init_timestamp: init_timestamp,
                state: UploadState::InProgress,""","""                init_timestamp: init_timestamp.max(ic_cdk::api::time()),
                state: UploadState::InProgress,""")],
"""const d = new K.Deployment(); const data = Buffer.from('x'.repeat(40));
for (let i = 0; i < 12; i++) d.tick(3600n * K.SEC); d.initUpload('/a', data);
for (let i = 0; i < 20; i++) d.tick(3600n * K.SEC); d.chunk('/a', 0, data.subarray(0, 16));
for (let i = 0; i < 17; i++) d.tick(3600n * K.SEC);
K.check(d.status('/a').Err !== undefined, 'an upload initialised 37 hours ago is still there at the second daily run');""")

bug('b18_archive_failure_skipped','N20',"get_blocks (or the index job) while blocks are archived and the call to the archive canister fails.",
"get_blocks answers without the archived blocks of the range instead of failing, as if they did not exist.",
[(I+'blocks.rs',"""            let archive_blocks = archive_get_blocks(archive.callback.canister_id, archive.args)
                .await
                .map_err(|e| e.to_string())?;
""","""            // the other archives and the ledger can still be read.
            let Ok(archive_blocks) =
                archive_get_blocks(archive.callback.canister_id, archive.args).await
            else {
                continue;
            };
""")],
"""const d = new K.Deployment(), A = K.acc('@u0'); d.mint([A, A]);
for (let i = 0; i < 4; i++) d.tick(10n * K.MIN);
const ar = d.others().find(c => c.inst); K.check(ar, 'no archive'); d.mint([A]);
d.addIndex(); ar.status = 'stopped';
const r = d.ix([], 0n, 3n); K.check(!Array.isArray(r) || r.length === 3, 'blocks 0..2 exist, get_blocks answered ' + r);
ar.status = 'running'; K.check(JSON.stringify(d.ix([], 0n, 3n)) === '[0,1,2]', 'blocks 0..2');""")

bug('b19_filter_binary_search','N20',"get_blocks with two or more filters whose block lists have several entries.",
"The intersection searches the newest-first list with a binary search for ascending order and leaves matching blocks out.",
[(I+'update/get_blocks.rs',"""            result.retain(|id| filter_result.contains(id));""","""            result.retain(|id| filter_result.binary_search(id).is_ok());""")],
"""const d = new K.Deployment(), A = K.acc('@u0'), B = K.acc('@u1'); d.addIndex();
d.mint([A, B, A, B]); for (let i = 0; i < 4; i++) { d.transfer('@u0', B, 1n); d.transfer('@u1', A, 1n); d.transfer('@u1', A, 2n); d.transfer('@u0', B, 2n); }
for (let i = 0; i < 3; i++) d.tick(K.MIN);
const t = d.ix([{ TokenId: 1n }]), x = d.ix([{ BlockType: '7xfer' }]), both = d.ix([{ TokenId: 1n }, { BlockType: '7xfer' }]);
K.check(JSON.stringify(both) === JSON.stringify(t.filter(i => x.includes(i))), 'token 1: ' + t + ', transfers: ' + x + ', both filters: ' + both);""")

bug('b20_refused_call_counts','N21',"A client that keeps retrying (faster than the window empties) after it has been rate-limited.",
"Refused calls are recorded as well, so the block never ends while the client retries.",
[(C+'guards.rs',"""            let oldest_call = call_history.first().unwrap();
            let time""","""            let oldest_call = call_history.remove(0);
            call_history.push(current_time);
            let time""")],
"""const d = new K.Deployment(), A = K.acc('@u0'); d.mint([A]);
const el = () => ({ to: A, spender_subaccount: null, token_id: 77n, from: A, memo: null, created_at_time: null });
const once = () => { const r = d.call('icrc37_transfer_from', '@u0', [el()]).Ok[0]; return !(r.Err && r.Err.GenericError); };
for (let i = 0; i < 5; i++) K.check(once(), 'the first five are admitted');
let admitted = false; for (let i = 0; i < 12; i++) { d.adv(10n * K.MS); if (once()) { admitted = true; break; } }
K.check(admitted, 'still rate-limited 120 ms after the last admitted call');""")

bug('b21_certify_before_redirections','N22',"An upgrade after a file was finalised, then a request for it.",
"post_upgrade sets the certified data before the redirections are added again and does not set it afterwards.",
[(C+'types/http.rs',"""        trace(&format!("Certified assets: {:?}", asset_router.root_hash()));

        certified_data_set(&asset_router.root_hash());
    });

    Some(())
}

pub fn remove""","""        trace(&format!("Certified assets: {:?}", asset_router.root_hash()));
    });

    Some(())
}

pub fn publish_certification() {
    ASSET_ROUTER.with_borrow(|asset_router| certified_data_set(&asset_router.root_hash()));
}

pub fn remove"""),
 (C+'updates/management.rs',"""    add_redirection(path.clone(), redirection_url.clone());
""","""    add_redirection(path.clone(), redirection_url.clone());
    crate::types::http::publish_certification();
""")],
"""const d = new K.Deployment(); d.upload('/a.txt', Buffer.from('hello'));
const ok = () => { const r = d.http('/a.txt'); K.check(r.status_code === 307n || Number(r.status_code) === 307, 'status ' + r.status_code); return K.http.verify(r, '/a.txt', d.core.cert); };
K.check(ok() === null, 'before the upgrade: ' + ok()); K.check(d.upgrade().ok, 'upgrade'); K.check(ok() === null, 'after the upgrade: ' + ok());""")

bug('b22_int_kind_lost','N23',"Token metadata with a non-negative Int (also nested in arrays and maps).",
"The value comes back as a Nat.",
[(C+'types/value_custom.rs',"""            Value::Int(i) => {
                e.array(2)?
                    .u8(3)?
                    .i64(i64::try_from(i.0.clone()).unwrap())?;
            }
            Value::Array(arr) => {
                e.array(2)?.u8(4)?;
                e.array(arr.len() as u64)?;
                for val in arr {
                    CustomValue(val.clone()).encode(e, _ctx)?;""","""            Value::Int(i) => {
                let i = i64::try_from(i.0.clone()).unwrap();
                match u64::try_from(i) {
                    Ok(n) if n > u64::from(u32::MAX) => e.array(2)?.u8(2)?.u64(n)?,
                    _ => e.array(2)?.u8(3)?.i64(i)?,
                };
            }
            Value::Array(arr) => {
                e.array(2)?.u8(4)?;
                e.array(arr.len() as u64)?;
                for val in arr {
                    CustomValue(val.clone()).encode(e, _ctx)?;""")],
"""const d = new K.Deployment(); const m = [['k', { Map: [['x', { Int: 1n << 40n }], ['y', { Array: [{ Int: -5n }, { Int: 3n }] }]] }]];
d.mint([K.acc('@u0')], () => m);
const g = d.q('icrc7_token_metadata', [1n])[0]; K.check(K.J(K.U.cmeta(g)) === K.J(K.U.cmeta(m)), 'stored ' + K.J(m) + ', read ' + K.J(g));""")

bug('b23_default_take_clamped','N24',"update_collection_metadata with a default_take_value above the current max_take_value.",
"A smaller value than the given one is stored.",
[(C+'updates/management.rs',"""            state.data.default_take_value = Some(default_take_value);""","""            state.data.default_take_value = Some(match &state.data.max_take_value {
                Some(max) if *max < default_take_value => max.clone(),
                _ => default_take_value,
            });""")],
"""const d = new K.Deployment({ max_take_value: 5n });
K.check(d.set({ max_take_value: 50n, default_take_value: 20n }).Ok !== undefined && Number(d.q('icrc7_default_take_value')) === 20, 'both given');
K.check(d.set({ default_take_value: 60n }).Ok !== undefined, 'update'); K.check(Number(d.q('icrc7_default_take_value')) === 60, 'default_take_value is ' + d.q('icrc7_default_take_value') + ' instead of 60');""")

bug('b24_tokens_of_unsorted','N25',"An account that received its tokens in an order other than ascending ids, listed page by page.",
"icrc7_tokens_of pages over the order in which the tokens arrived: pages are unordered, tokens are repeated or left out.",
[(C+'state.rs',"""        self.tokens_list
            .iter()
            .filter(|(_, token)| &token.token_owner == owner)
            .map(|(id, _)| id.clone())
            .collect()""","""        self.tokens_list_by_owner
            .get(owner)
            .cloned()
            .unwrap_or_default()"""),
 (C+'queries/icrc7.rs',"""        let mut tokens: Vec<Nat> = state.data.tokens_ids_of_account(&account);
        tokens.sort();
""","""        let tokens: Vec<Nat> = state.data.tokens_ids_of_account(&account);
""")],
"""const d = new K.Deployment(), A = K.acc('@u0'), B = K.acc('@u1');
d.mint([B, A, B, A]); d.transfer('@u1', A, 3n); d.transfer('@u1', A, 1n);
const seen = []; let prev = null; for (let i = 0; i < 8; i++) { const l = d.q('icrc7_tokens_of', A, prev, 2n); if (!l.length) break; seen.push(...l.map(Number)); prev = l[l.length - 1]; }
K.check(JSON.stringify(seen) === '[1,2,3,4]', 'pages listed ' + seen);""")

bug('b25_burn_before_log','N12',"burn_nft while the block log refuses further transactions (many transactions in the window).",
"The refused burn has already removed the token: it is gone although the call failed and no block records it.",
[(C+'updates/management.rs',"""    let transaction = ICRC7Transaction::new(
        "7burn".to_string(),""","""    mutate_state(|state| state.data.tokens_list.remove(&token_id));

    let transaction = ICRC7Transaction::new(
        "7burn".to_string(),"""),
 (C+'updates/management.rs',"""        state.data.tokens_list.remove(&token_id);
        if let Some""","""        if let Some""")],
"""const d = new K.Deployment({ tx_window: 60n * K.SEC }), A = K.acc('@u0'), B = K.acc('@u1');
d.mint([A, A, A]); let refused = false;
for (let i = 0; i < 30; i++) {
  const n = Number(d.q('icrc7_total_supply')), log = d.log(), r = d.call('burn_nft', '@u0', 1n); if (r.Ok !== undefined) { K.check(Number(d.q('icrc7_total_supply')) === n - 1, 'supply'); d.mint([A]); break; }
  refused = true; K.check(d.owner(1n) === K.U.akey(A) && Number(d.q('icrc7_total_supply')) === n && d.log() === log, 'a refused burn removed the token: ' + K.J(r)); d.adv(K.SEC);
}
const d2 = new K.Deployment({ tx_window: 60n * K.SEC }); d2.mint([A, A, A, A]);
for (let i = 0; i < 12; i++) d2.call('icrc37_approve_collection', '@u0', [{ approval_info: { memo: Buffer.from([i]), from_subaccount: null, created_at_time: d2.now, expires_at: null, spender: B } }]), d2.adv(50n * K.MS);
const log = d2.log(), r = d2.call('burn_nft', '@u0', 2n);
if (r.Err) K.check(d2.owner(2n) === K.U.akey(A) && d2.log() === log, 'a refused burn removed the token: ' + K.J(r)); else K.check(d2.owner(2n) === null, 'burned token has an owner');
K.check(r.Err, 'the log should have refused the burn');""")

bug('b26_collection_approval_ledger_time','N09',"The same icrc37_approve_collection request submitted again within the transaction window.",
"The block carries the ledger's time as created_at_time, so the repeated request is executed and logged again.",
[(C+'updates/icrc37.rs',"""            op: "37approve_coll".to_string(),
            tid: None,
            from: Some(from_account.clone()),
            to: None,
            memo: memo_clone.clone(),
            created_at_time: Some(Nat::from(arg.approval_info.created_at_time)),""","""            op: "37approve_coll".to_string(),
            tid: None,
            from: Some(from_account.clone()),
            to: None,
            memo: memo_clone.clone(),
            created_at_time: Some(Nat::from(current_time)),""")],
"""const d = new K.Deployment({ tx_window: 60n * K.SEC }), A = K.acc('@u0'), S = K.acc('@u2');
d.mint([A]); const o = { created_at_time: d.now };
K.check(d.approveColl('@u0', S, o).Ok !== undefined, 'approval');
d.call('icrc37_revoke_collection_approvals', '@u0', [{ memo: null, from_subaccount: null, created_at_time: null, spender: S }]); d.adv(K.SEC);
d.approveColl('@u0', S, o);
K.check(d.q('icrc37_get_collection_approvals', A, null, null).length === 0, 'a repeated request restored the revoked approval');""")


bug('b27_account_list_capped','N19',"An account with more than 1000 blocks.",
"The oldest blocks of the account disappear from its filtered block list.",
[(I+'index.rs',"""            let account_values: Vec<_> = d.into();""","""            // newest blocks first, the oldest ones are not needed.
            let account_values: Vec<_> = d.into_iter().take(1_000).collect();""")],
"""const d = new K.Deployment(), A = K.acc('@u0'); d.addIndex();
for (let i = 0; i < 205; i++) { d.mint([A, A, A, A, A]); if (i % 50 === 49) for (let j = 0; j < 8; j++) d.tick(10n * K.MIN); }
for (let i = 0; i < 14; i++) d.tick(61n * K.SEC);
const r = d.ix([{ Account: A }], 0n, 3n);
K.check(r.length === 3 && r[0] === 0, 'first blocks of the account: ' + r);""")

bug('b28_index_job_flag_leaks','N19',"The ledger's answer to the index job is a reject (or the job traps) once.",
"The flag that keeps index runs from overlapping stays set, the index never catches up again.",
[(I+'jobs.rs',"""fn update_index_job() {
    ic_cdk::futures::spawn(update_index());
}""","""thread_local! {
    static RUNNING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn update_index_job() {
    // runs must not overlap.
    if RUNNING.replace(true) {
        return;
    }
    ic_cdk::futures::spawn(async {
        update_index().await;
        RUNNING.set(false);
    });
}""")],
"""const d = new K.Deployment(), A = K.acc('@u0'); d.addIndex(); d.mint([A]); d.tick(61n * K.SEC);
K.check(d.ix([{ Account: A }]).length === 1, 'not indexed');
d.mint([A]); d.adv(61n * K.SEC);
for (let i = 0; i < 50; i++) { const ev = d.sim.enabled().sort((a, b) => a.n - b.n); if (!ev.length) break; const e = ev[0]; d.sim.step(e, e.kind === 'request' && e.method === 'icrc3_get_blocks' ? { reject: 2 } : {}); }
for (let i = 0; i < 5; i++) d.tick(61n * K.SEC);
const r = d.ix([{ Account: A }]);
K.check(r.length === 2, 'after one failed call the index stays at blocks ' + r);""")

bug('b29_ranges_coalesced','N07',"One icrc3_get_blocks request with a range that lies inside an earlier, longer one.",
"The part of the longer range behind the inner one is missing from the answer.",
[(C+'queries/icrc3.rs',"""    icrc3_get_blocks_impl(args)
}""","""    icrc3_get_blocks_impl(coalesce(args))
}

// overlapping ranges are read once.
fn coalesce(mut args: GetBlocksArg) -> GetBlocksArg {
    args.sort_by(|a, b| a.start.cmp(&b.start));
    let mut ranges: GetBlocksArg = vec![];
    for arg in args {
        match ranges.last_mut() {
            Some(last) if arg.start < last.start.clone() + last.length.clone() => {
                last.length = arg.start + arg.length - last.start.clone();
            }
            _ => ranges.push(arg),
        }
    }
    ranges
}""")],
"""const d = new K.Deployment(), A = K.acc('@u0'); d.mint([A, A, A, A, A]);
const r = d.q('icrc3_get_blocks', [{ start: 0n, length: 5n }, { start: 1n, length: 2n }]);
const ids = [...new Set(r.blocks.map(b => String(b.id)))].sort().join();
K.check(ids === '0,1,2,3,4', 'ranges [0,5) and [1,3) answered with blocks ' + ids);
K.check(d.blocks(3n, 9n).length === 2, 'a single range');""")

bug('b30_mint_retried','N28',"A mint whose answer is lost on the way back.",
"The tool sends the mint again after a transport error: two tokens are minted by one invocation.",
[('cmdline/src/calls/mint.rs',"""    let bytes = Encode!(&mint_args)?;
    let response = agent
        .update(canister_id, "mint")
        .with_arg(bytes)
        .call_and_wait()
        .await?;
""","""    let bytes = Encode!(&mint_args)?;
    let send = || {
        agent
            .update(canister_id, "mint")
            .with_arg(bytes.clone())
            .call_and_wait()
    };
    // The replica may be busy: one more attempt before giving up.
    let response = match send().await {
        Ok(response) => response,
        Err(_) => send().await?,
    };
""")],
"""let minted = 0; const own = 'aaaaa-aa';
const r = await K.run(['mint', '-o', own, '-n', 'x', '-m', 'k:v'], {}, (m, q, n) => { minted++; return n === 0 ? { lost: 1 } : K.ok(K.T.nat)(BigInt(n)); });
K.check(minted === 1, 'one invocation minted ' + minted + ' tokens'); K.check(r.code !== 0, 'success reported without an answer');
const g = await K.run(['mint', '-o', own, '-n', 'x', '-m', 'k:v'], {}, () => K.ok(K.T.nat)(7n));
K.check(g.code === 0 && /ID: 7/.test(g.out), 'a plain mint: ' + g.code + g.out + g.err);""")

bug('b31_metadata_path_trimmed','N27',"A metadata file that begins or ends with white space, such as a final newline.",
"The path is the hash of the trimmed text, not of the file that is uploaded there.",
[('cmdline/src/commands.rs',"""    let metadata_content = std::fs::read_to_string(metadata_file)?;
    let metadata: Value = serde_json::from_str(&metadata_content)?;
    validate_icrc97_metadata(&metadata)?;

    let hash = Sha256::digest(metadata_content.as_bytes());""","""    let metadata_content = std::fs::read_to_string(metadata_file)?;
    let metadata_content = metadata_content.trim();
    let metadata: Value = serde_json::from_str(metadata_content)?;
    validate_icrc97_metadata(&metadata)?;

    let hash = Sha256::digest(metadata_content.as_bytes());""")],
"""const { sha256 } = require('./candid'), empty = K.T.record({});
for (const text of ['{"name":"a"}', '{"name":"a"}\\n', ' {"name":"b"}\\n\\n']) {
  const p = '/' + sha256(Buffer.from(text)).toString('hex') + '.json';
  const r = await K.run(['upload-metadata', 'm.json'], { 'm.json': text }, (m, q) => m === 'finalize_upload' ? K.ok(K.T.record({ url: K.T.text }))({ url: 'https://x.raw.icp0.io' + q[0].file_path }) : K.ok(empty)({}));
  K.check(r.code === 0, 'upload: ' + r.code + r.err); for (const [m, q] of r.calls) K.check(q[0].file_path === p, m + ' for ' + q[0].file_path + ', the file hashes to ' + p);
}""")


bug('b32_funds_installed_only','N26',"The installation of a new storage canister fails, so it stays created but empty, and its balance falls.",
"The canister is listed, will be used by the next upload, and is never topped up: it runs dry.",
[(C+'types/sub_canister.rs',"""#[derive(Serialize, Deserialize, Clone)]
pub struct StorageSubCanisterManager {""","""#[derive(Serialize, Deserialize)]
pub struct StorageSubCanisterManager {"""),
(C+'types/sub_canister.rs',"""impl StorageSubCanisterManager {
    pub fn new(""","""// The funding timer belongs to one copy of the manager: a copy starts its own, for the canisters in use.
impl Clone for StorageSubCanisterManager {
    fn clone(&self) -> Self {
        let manager = &self.sub_canister_manager;
        let mut fund_manager = canfund::FundManager::new();
        let in_use = self
            .get_subcanisters_installed()
            .iter()
            .map(|canister| canister.canister_id())
            .collect();
        bity_ic_subcanister_manager::add_canisters_to_fund_manager(
            &mut fund_manager,
            manager.funding_config.clone(),
            in_use,
        );

        Self {
            sub_canister_manager: bity_ic_subcanister_manager::SubCanisterManager {
                master_canister_id: manager.master_canister_id,
                sub_canisters: manager.sub_canisters.clone(),
                controllers: manager.controllers.clone(),
                authorized_principal: manager.authorized_principal.clone(),
                initial_cycles: manager.initial_cycles,
                reserved_cycles: manager.reserved_cycles,
                test_mode: manager.test_mode,
                commit_hash: manager.commit_hash.clone(),
                wasm: manager.wasm.clone(),
                fund_manager,
                funding_config: manager.funding_config.clone(),
            },
            init_args: self.init_args.clone(),
            upgrade_args: self.upgrade_args.clone(),
        }
    }
}

impl StorageSubCanisterManager {
    pub fn new(""")],
"""const d = new K.Deployment();
const n = d.send('init_upload', '@admin', { file_hash: 'ab', file_path: '/a', file_size: 3n, chunk_size: 3n });
const run = () => { for (let i = 0; i < 300; i++) { const e = d.sim.enabled().sort((a, b) => a.n - b.n)[0]; if (!e) break; d.sim.step(e, e.kind === 'request' && e.method === 'install_code' ? { reject: 5 } : {}); } };
run(); K.check(d.out(n).Err !== undefined || d.out(n).rej, 'init_upload succeeded without a storage canister');
const n2 = d.send('init_upload', '@admin', { file_hash: 'ab', file_path: '/b', file_size: 3n, chunk_size: 3n }); run();
const ids = d.q('get_all_storage_subcanisters').map(String); K.check(ids.length >= 1, 'no canister was created');
for (const c of d.others()) c.cycles = 500_000_000_000n;
d.upgrade();
for (let i = 0; i < 4; i++) d.tick(K.MIN);
for (const c of d.others()) K.check(c.cycles > 1_000_000_000_000n, 'a storage canister is left with ' + c.cycles + ' cycles');""")
