import json,re,jsonschema
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":state,"meaning":"state the property constrains","where":files[0]}]
    if obs:a["observe_at"]=[obs]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
C="src/core_nft/src/"
I="src/index_icrc7/src/"
p("N01","Every token has one owner and all ownership views agree",
 "At every point of every history of mints, transfers, delegated transfers, burns, metadata updates and upgrades, icrc7_owner_of, icrc7_tokens, icrc7_tokens_of, icrc7_balance_of and icrc7_total_supply describe one and the same assignment of each existing token to exactly one account. The total supply equals the number of tokens successfully minted minus the number successfully burned.",
 ["histories","inputs"],"all interleavings of ownership-changing calls from any callers and accounts (with and without subaccounts), with traps and upgrades in between",
 "the owner map and the per-owner index are updated separately in five places; only long mixed histories (transfer to self-subaccount, burn, re-transfer, upgrade) make them drift apart",
 [C+"state.rs",C+"updates/icrc7.rs",C+"updates/icrc37.rs",C+"updates/management.rs",C+"queries/icrc7.rs"],
 [("dual bookkeeping tokens_list / tokens_list_by_owner",C+"state.rs Data; updates/icrc7.rs transfer_nft; updates/icrc37.rs transfer_from; updates/management.rs mint, burn_nft")],
 "Data.tokens_list, Data.tokens_list_by_owner","icrc7_* queries")
p("N02","Only the owner or an approved spender can move a token",
 "A token changes owner only through a call that reports success and was made by the principal of the account that owns it at that moment (icrc7_transfer or icrc37_transfer_from) or by a spender holding, at that moment, an unexpired and unrevoked token-level approval given by the current owner or collection-level approval given by the owning account. A successful call moves exactly the named token to exactly the named recipient account, never to the anonymous account; a failed or trapped call moves nothing.",
 ["histories","inputs"],"all histories of approvals, revocations, expiries, transfers, burns, re-mints and upgrades followed by transfer attempts by owners, former owners, spenders, former spenders and strangers",
 "stale authority only shows after a specific multi-step history (approve, change owner through another path, retry), and the space of accounts, subaccounts and times is unbounded",
 [C+"updates/icrc7.rs",C+"updates/icrc37.rs",C+"types/icrc37.rs",C+"types/wrapped_types.rs"],
 [("ownership test",C+"updates/icrc7.rs transfer_nft"),("approval test",C+"updates/icrc37.rs transfer_from")],"tokens_list, __TOKEN_APPROVALS, __COLLECTION_APPROVALS","icrc7_owner_of before and after each call")
p("N03","Well-formed transfers succeed and batches report position by position",
 "Each element of an icrc7_transfer, icrc37_transfer_from, icrc37_approve_tokens or icrc37_approve_collection batch is applied in order and on its own, and the i-th result states whether the i-th element took effect: the element changed state if and only if its result is Ok. A transfer by the owner to another non-anonymous account that satisfies the documented limits (existing token, memo size, creation time, rate limits, batch size) and fits the block log's own throughput limit is not refused; with atomic_batch_transfers set, an icrc7_transfer batch longer than max_update_batch_size has no effect at all, and without it at most the first max_update_batch_size elements are processed.",
 ["inputs","histories"],"all batches (valid, invalid, repeated tokens, self transfers, chains within one batch) in all reachable ledger states and settings",
 "the result vector and the effects are produced by separate code per element; agreement must hold for every mixture of outcomes in one batch",
 [C+"updates/icrc7.rs",C+"updates/icrc37.rs"],[("batch loop",C+"updates/icrc7.rs icrc7_transfer"),("per-element approve/transfer_from",C+"updates/icrc37.rs")],None,"call replies against icrc7_owner_of / approvals queries")
p("N04","Approvals start, authorise and end exactly when they should",
 "An approval exists only if the owning account granted it (a token approval by the account owning that token, a collection approval by an account of a caller owning at least one token), granting one within the documented limits is not refused, and while it is active the spender it names can move the token with icrc37_transfer_from. A token approval ends at its expiry, when the owner revokes it (individually or all at once), when the token changes owner by any path, and when the token is burned; a collection approval ends at its expiry or revocation by the granting account, and transferring one token away does not end it while the account still owns tokens.",
 ["histories","inputs"],"all histories of approve/revoke/transfer/transfer_from/burn with arbitrary accounts, subaccounts and expiries, under time jumps, traps and upgrades",
 "an approval must end on every path that changes ownership; a test exercises the one path it was written for",
 [C+"updates/icrc37.rs",C+"updates/icrc7.rs",C+"updates/management.rs"],[("approval maps",C+"updates/icrc37.rs approve_token, approve_collection, revoke_*, transfer_from"),("ownership changes",C+"updates/icrc7.rs transfer_nft; updates/management.rs burn_nft")],
 "__TOKEN_APPROVALS, __COLLECTION_APPROVALS","icrc37_* calls")
p("N05","Approval queries report exactly the approvals in force",
 "icrc37_get_token_approvals and icrc37_get_collection_approvals list each approval currently recorded for the token or account exactly once with the spender, source subaccount, memo and expiry it was granted with, and paging with prev/take, at most take entries a page, visits every one exactly once; they never list an approval that was revoked or whose token has since changed owner. icrc37_is_approved answers true for a spender that holds an active approval on the token and false for an account that neither owns the token nor holds one (expired, revoked, or made by a previous owner included), and the number of approvals per token or account never exceeds max_approvals_per_token_or_collection.",
 ["histories","inputs"],"all reachable approval states, all spender/owner accounts, all page sizes, all times relative to the expiries",
 "queries recompute authority with their own code; agreement with the transfer path needs all combinations of token/collection approvals, expiry, subaccounts and owner changes",
 [C+"queries/icrc37.rs",C+"updates/icrc37.rs"],[("approval queries",C+"queries/icrc37.rs"),("limit",C+"updates/icrc37.rs would_exceed_max_approvals")],None,"icrc37_is_approved, icrc37_get_*_approvals")
p("N06","The block log records exactly the operations that took effect",
 "Every successful mint (per token), transfer, delegated transfer, burn, metadata update, approval and revocation appends exactly one block whose type, token, account owners (principals; subaccounts are not part of the block format), spender, memo and expiry are those of the operation, and calls that fail, trap or have no effect append none. Replaying the log from the start therefore yields the principal owning every token, the set of existing tokens and the metadata of every updated token.",
 ["histories","fault_sequences"],"all histories of successful, failing, throttled and trapped calls across archiving and upgrades",
 "state and log are written by different statements around an append that can itself fail (throttling, duplicates); divergence needs a failure in the middle of a multi-step call",
 [C+"updates/management.rs",C+"updates/icrc7.rs",C+"updates/icrc37.rs",C+"state.rs"],[("icrc3_add_transaction before state mutation","all update endpoints")],"icrc3 ledger, tokens_list","icrc3_get_blocks against icrc7_* queries")
p("N07","The block log is dense, hash-chained, append-only and never rewritten",
 "Block ids are 0,1,2,… without gaps, log_length is the number of blocks, each block's phash links it to its predecessor, and once a block has been returned for an id every later read of that id (from the ledger or from an archive, after archiving, upgrades or failed upgrades) returns the same block. Any requested range returns exactly the existing blocks of that range, each once, taking ledger and archive parts together.",
 ["histories","fault_sequences","schedules"],"all histories with archiving rounds, upgrades and injected faults in between, and all requested ranges",
 "immutability and range completeness across the ledger/archive boundary depend on when archiving and upgrades happen relative to writes",
 [C+"state.rs",C+"lifecycle/pre_upgrade.rs",C+"lifecycle/post_upgrade.rs",C+"queries/icrc3.rs"],[("icrc3_state! macro, upgrade (de)serialisation",C+"state.rs; lifecycle/*_upgrade.rs")],"ICRC3 ledger and archives","icrc3_get_blocks on ledger and archives")
p("N08","Archiving loses and duplicates nothing and completes after faults",
 "Whatever goes wrong while blocks are moved to archive canisters (creation or call failures, traps in callbacks, stalls, upgrades between attempts), no block is lost, altered or served twice. Once faults stop, blocks older than the retention time are archived by the periodic job, also after an upgrade, and the archive canisters listed by icrc3_get_archives cover exactly the archived blocks.",
 ["fault_sequences","schedules"],"all failures and delays of the management-canister and archive calls, at every await point of the archiving job, with client writes interleaved and upgrades in between",
 "the job spans several inter-canister calls and a block is in neither place while one is in flight; only injected failures at each await point exercise the recovery",
 [C+"state.rs",C+"lifecycle/init.rs",C+"lifecycle/post_upgrade.rs"],[("start_default_archive_job",C+"lifecycle/init.rs, post_upgrade.rs"),("replace_icrc3/take_icrc3",C+"state.rs")],"local blocks, archive manager","icrc3_get_blocks, icrc3_get_archives")
p("N09","A retried transfer or approval is executed at most once",
 "When the same caller submits the same transfer, delegated transfer, approval or revocation with the same created_at_time again while the first execution is within the configured transaction window, the repetition has no further effect on ownership or approvals and appends no second block, even if other operations (including ones that return the token) happened in between or the canister was upgraded. Requests that differ in any argument are not treated as duplicates of each other.",
 ["histories","fault_sequences"],"all retry patterns (duplicated, delayed, reordered client messages) inside the transaction window, interleaved with other operations and upgrades",
 "a replay is only harmful after an intervening history that makes it applicable again; tests send each request once",
 [C+"updates/icrc7.rs",C+"updates/icrc37.rs",C+"lifecycle/init.rs"],[("transaction hash de-duplication","icrc3_add_transaction callers"),("tx_window",C+"lifecycle/init.rs")],"icrc3 ledger window","call replies, icrc7_owner_of, log length")
p("N10","Requests outside the permitted creation-time window are refused",
 "An icrc7_transfer, icrc37 approval, revocation or delegated transfer that carries created_at_time is executed only if created_at_time is at most permitted_drift after the ledger's time and not older than tx_window plus permitted_drift; otherwise it is refused as CreatedInFuture or TooOld and has no effect. The configured tx_window and permitted_drift (or the documented defaults) decide, whichever way they were set and also after an upgrade, and a request inside the window is never refused for its creation time.",
 ["inputs","histories","configurations"],"all created_at_time values relative to ledger time, all window/drift settings at init or by later update",
 "boundary arithmetic over 64-bit times and settings that can change at run time",
 [C+"updates/icrc7.rs",C+"updates/icrc37.rs",C+"state.rs",C+"lifecycle/init.rs"],[("time checks",C+"updates/icrc7.rs transfer_nft; updates/icrc37.rs verify_approval_timing")],"Data.tx_window, Data.permitted_drift","call replies")
p("N11","Minting is all-or-nothing, capped, and never reuses a token id",
 "A mint call either creates all requested tokens, with consecutive fresh ids starting at the returned id, the requested owners and exactly the requested metadata, or it changes nothing at all: no token, no metadata, no block, no id consumed. Ids increase monotonically and are never reused, also after burns and upgrades; the total supply never exceeds supply_cap because of a mint, and batches longer than max_update_batch_size or with an oversized memo are refused.",
 ["histories","inputs","fault_sequences"],"all mint batches in all ledger states, including batches that the block log refuses part-way (throttling), traps, burns and upgrades",
 "the interesting case is a failure after part of the batch was processed, which depends on timing of earlier transactions",
 [C+"updates/management.rs",C+"types/nft.rs",C+"types/metadata.rs"],[("mint",C+"updates/management.rs mint")],"last_token_id, tokens_list, __METADATA","mint replies, icrc7_tokens, icrc7_token_metadata")
p("N12","Only the owner can burn, and a burned token is gone for good",
 "burn_nft succeeds only for the principal owning the token. After it succeeds the token has no owner, is in no listing or balance, can be neither transferred, approved, updated nor burned again, and never reappears, including through earlier approvals, retries, later mints and upgrades; a refused burn changes nothing.",
 ["histories"],"all histories that burn tokens and afterwards use every other operation on them, with upgrades",
 "every other operation in every later state has to respect the burn",
 [C+"updates/management.rs",C+"updates/icrc37.rs",C+"state.rs"],[("burn_nft",C+"updates/management.rs burn_nft")],"tokens_list, tokens_list_by_owner, approvals","icrc7_* and icrc37_* calls")
p("N13","Privileged calls take effect only with the matching permission",
 "mint, update_nft_metadata, update_collection_metadata, grant/revoke_permission, the permission and storage queries and all upload calls have an effect or return data only if the caller holds the permission that call requires at that moment, and holding it is sufficient. A permission is held exactly when it was granted at init or later and not revoked since; granting or revoking one permission of one principal changes no other, one revoke undoes any number of grants, and permissions survive upgrades.",
 ["histories","inputs"],"all sequences of grants and revocations by holders and non-holders, interleaved with every privileged call by every principal, and upgrades",
 "the caller x permission x endpoint x history matrix is not enumerable by unit tests",
 [C+"guards.rs",C+"types/permissions.rs",C+"updates/management.rs"],[("permission guards",C+"guards.rs create_permission_guard"),("PermissionManager",C+"types/permissions.rs")],"Data.permissions","has_permission, get_user_permissions, every guarded endpoint")
p("N14","Upgrades preserve everything and failed upgrades change nothing",
 "After a successful upgrade of the NFT canister every query (ownership, metadata, approvals, settings, permissions, uploads, storage canisters, block log, archives) answers as before and every operation keeps working, with ids and log continuing where they were; only version and commit hash change. If the upgrade fails at any point (trap in pre_upgrade or post_upgrade, out of stable memory, wrong argument) the canister continues with its previous code and state unchanged.",
 ["crash_points","histories"],"all states reachable by client histories, upgraded repeatedly, with a failure injected at any system call of pre_upgrade or post_upgrade",
 "which field is forgotten only shows for states that populate it, and failure points inside the upgrade cannot be reached from tests",
 [C+"lifecycle/pre_upgrade.rs",C+"lifecycle/post_upgrade.rs",C+"state.rs",C+"memory.rs",C+"types/wrapped_types.rs",C+"types/value_custom.rs"],[("state serialisation",C+"lifecycle/pre_upgrade.rs, post_upgrade.rs"),("stable memory layout",C+"memory.rs")],"all canister state","all queries before and after")
p("N15","Management calls exclude each other and always release the lock",
 "While one management call (mint, burn, metadata, permission or upload operation, or the collection of one abandoned upload) is still waiting for another canister, every other management call is refused with ConcurrentManagementCall and has no effect. When a management call has ended, whether by reply, error, reject, trap before or after an await, or a failed callee, the next management call is admitted; no sequence of failures leaves the service locked.",
 ["schedules","fault_sequences"],"all interleavings of management calls by the same and different principals with every failure of the storage and management canisters and traps in any callback",
 "the lock is held across awaits and released by a destructor; leaks depend on which message traps",
 [C+"guards.rs",C+"updates/management.rs"],[("GuardManagement",C+"guards.rs")],"principal_guards","replies of concurrent management calls")
p("N16","An upload moves Init→InProgress→Finalized and serves exactly its bytes",
 "A file path goes through not initialised, Init, InProgress and Finalized in that order and only by the matching successful call, get_upload_status and get_all_uploads (whole, or page by page from an offset while nothing changes) report that state, a path in use cannot be initialised again and a finalised one can be neither written, finalised again nor cancelled. finalize_upload succeeds only when all chunks were stored and hash to the declared file hash, and from then on the returned path leads to a storage canister that serves exactly the uploaded bytes; a failed step leaves the upload in its previous state, so that the upload can be completed or cancelled and its path used again.",
 ["schedules","fault_sequences","inputs"],"all chunk orders, duplicates, missing or wrong chunks, concurrent uploads, call failures and traps at each step, and upgrades between steps",
 "upload state lives in two canisters that are updated by separate messages; disagreement needs a failure between them",
 [C+"updates/management.rs",C+"types/sub_canister.rs",C+"types/management.rs",C+"state.rs"],[("upload state machine",C+"updates/management.rs init_upload…cancel_upload"),("storage calls",C+"types/sub_canister.rs")],"internal_filestorage, storage canister files","get_upload_status, get_all_uploads, storage http_request")
p("N17","Storage canisters are created only when needed and never lost",
 "init_upload creates a new storage canister only when no installed one accepts the file, and every storage canister that was created and whose installation the NFT canister has seen succeed is from then on listed by get_all_storage_subcanisters, reused for later uploads and remembered across upgrades. A failed upload initialisation does not make later ones create further canisters while an installed one has room.",
 ["fault_sequences","schedules","histories"],"all sequences of upload initialisations with failures injected into create_canister, install_code and the storage calls",
 "the manager object is copied, used across awaits and written back only on some paths",
 [C+"types/sub_canister.rs",C+"updates/management.rs"],[("init_upload and sub-canister manager",C+"types/sub_canister.rs StorageSubCanisterManager::init_upload; updates/management.rs init_upload")],"Data.sub_canister_manager","canisters existing in the simulator against get_all_storage_subcanisters")
p("N18","Abandoned uploads are collected, live and finished ones are not",
 "An upload that was initialised but not finalised for more than a day is cancelled by the daily garbage-collection job and its path becomes free again. Uploads younger than a day and finalised uploads are never cancelled or removed by the job, and a job run that meets failing storage canisters or concurrent upload calls neither blocks uploads nor corrupts their state.",
 ["schedules","histories","fault_sequences"],"all upload ages relative to the job, job runs overlapping upload calls, storage call failures, upgrades and time jumps",
 "needs days of simulated time and job/upload interleavings",
 [C+"jobs/upload_garbage_collector.rs"],[("upload_garbage_collector",C+"jobs/upload_garbage_collector.rs")],"internal_filestorage","get_all_uploads over simulated days")
p("N19","The index eventually lists every ledger block exactly once",
 "For every account, token and block type, the filtered block list of the index canister contains each matching ledger block exactly once and no other block, and total never exceeds the ledger's log length. Whatever delays, reordering, failures, upgrades of either canister or archiving happen, the index never skips or repeats a block, and once faults stop it catches up with the whole log.",
 ["schedules","fault_sequences","histories"],"all interleavings of the periodic job with itself, ledger writes, archiving and upgrades, with slow, failing or stopped ledger and archive canisters",
 "the job reads its position before an await and writes it afterwards; overlap and mid-way failures cannot be produced by tests",
 [I+"jobs.rs",I+"index.rs",I+"blocks.rs",I+"cache.rs",I+"lifecycle/post_upgrade.rs"],[("update_index",I+"jobs.rs"),("add_block_to_index",I+"index.rs"),("get_all_blocks",I+"blocks.rs")],"__INDEX, last_block_id, __CACHE","index get_blocks/status against ledger log")
p("N20","Index get_blocks pages, filters and sorts consistently",
 "For any filters, start, length and sort order, get_blocks returns existing ledger blocks with their true content, without duplicates, in the requested order, satisfying every filter, and at most length of them. Paging through start with fixed filters and order, or without filters in ascending order, visits every matching indexed block exactly once, whether blocks come from the cache, the ledger or an archive; without filters, descending order returns the newest indexed blocks. An account filter means the principal's blocks and carries no subaccount.",
 ["inputs","histories"],"all combinations of filters, ranges and orders in all states of ledger, archive and cache",
 "combinations of range, order, cache state and archive boundary are unbounded",
 [I+"update/get_blocks.rs",I+"blocks.rs",I+"cache.rs"],[("get_blocks",I+"update/get_blocks.rs"),("get_all_blocks",I+"blocks.rs")],"__INDEX, __CACHE","index get_blocks")
p("N21","Per-token rate limiting admits five calls per 60 ms and always recovers",
 "Within any 60 ms of ledger time at most five transfer, delegated-transfer or approval elements are admitted per token (and at most five collection approval/revocation elements), further ones are refused with a rate-limit error and have no effect. Refused calls do not extend the block: an element is never rate-limited when fewer than five were admitted in the preceding 60 ms, other tokens are unaffected, and the limit also behaves so across upgrades and time jumps.",
 ["schedules","histories"],"all arrival patterns in time over several tokens and operations, including bursts in one round, clock jumps and upgrades",
 "depends on exact arrival times",
 [C+"guards.rs",C+"updates/icrc7.rs",C+"updates/icrc37.rs"],[("guard_sliding_window",C+"guards.rs")],"sliding_window_guards","call replies")
p("N22","HTTP answers carry certificates that match the certified data",
 "For every finalised upload an HTTP request to its plain path (no query string or percent-encoding, and not /metrics, /logs or /traces) on the NFT canister is answered with a redirect to the storage canister holding the file, and the answer's v2 certificate header contains a witness whose root equals the canister's certified data, at any time after finalisation including after upgrades and further uploads. /metrics, /logs and /traces never trap because of earlier uploads or upgrades, and no path that was not finalised redirects.",
 ["histories"],"all upload/finalise/cancel/upgrade histories and all requested paths",
 "the certified root is recomputed in several places and lost on upgrade unless rebuilt",
 [C+"types/http.rs",C+"queries/http_request.rs",C+"lifecycle/post_upgrade.rs",C+"updates/management.rs"],[("add_redirection / certify_all_assets",C+"types/http.rs"),("http_request",C+"queries/http_request.rs")],"ASSET_ROUTER, HTTP_TREE, certified data","http_request and certified data in the simulator")
p("N23","Token metadata is stored exactly and replaced atomically",
 "icrc7_token_metadata returns, for every token, exactly the key/value set given at mint or in the last successful update_nft_metadata (all ICRC-3 value kinds and nestings preserved), independent of other tokens and of transfers, failed calls and upgrades. A successful update logs the previous and the new metadata in its block; a refused or failed update changes neither metadata nor log.",
 ["inputs","histories"],"all nested metadata values, all update/transfer/burn/upgrade histories, including updates that the block log refuses",
 "values go through hand-written encoders and stable memory; partial effects need a failing log append",
 [C+"types/metadata.rs",C+"types/value_custom.rs",C+"types/nft.rs",C+"updates/management.rs"],[("metadata store",C+"types/metadata.rs"),("update_nft_metadata",C+"updates/management.rs")],"__METADATA","icrc7_token_metadata")
p("N24","Collection settings are applied exactly and enforced",
 "Every setting (name, symbol, logo, description, supply_cap, tx_window, permitted_drift, the take, batch and memo limits, atomic_batch_transfers) given at init or changed by a successful update_collection_metadata is returned by its query and by icrc7_collection_metadata until changed again, fields that are not given keep their value, and upgrades keep them. The configured limits are enforced: queries over max_query_batch_size ids or with take over max_take_value are refused, default_take_value bounds listings without take, mints and transfers with memos over max_memo_size are refused, and supply_cap, max_update_batch_size, max_approvals and max_revoke_approvals bound the calls they govern.",
 ["configurations","histories"],"all initial configurations and sequences of partial updates, against all governed calls",
 "settings x calls x update histories",
 [C+"updates/management.rs",C+"queries/icrc7.rs",C+"utils.rs",C+"state.rs",C+"lifecycle/init.rs"],[("update_collection_metadata",C+"updates/management.rs"),("limits",C+"queries/icrc7.rs, utils.rs check_memo")],"Data settings","icrc7_* queries and limited calls")
p("N25","Token listings page completely under concurrent changes",
 "icrc7_tokens and icrc7_tokens_of return ids in strictly ascending order, greater than prev, at most take of them. A client that pages with the last returned id while mints, transfers and burns happen in between sees every token that belonged to the listing throughout the whole enumeration exactly once, and never a token id that was not in the listing at the time of the page.",
 ["schedules","histories"],"all page sizes and all interleavings of pages with mutating calls and upgrades",
 "pages and mutations interleave arbitrarily",
 [C+"queries/icrc7.rs",C+"state.rs"],[("icrc7_tokens, icrc7_tokens_of",C+"queries/icrc7.rs")],"tokens_list","paged queries")
p("N26","Storage and archive canisters are kept supplied with cycles",
 "Every storage canister listed by get_all_storage_subcanisters and every archive listed by icrc3_get_archives whose balance above its freezing reserve is 1 trillion cycles or less receives a top-up of 2 trillion within two minutes of the last fault, as long as the NFT canister can pay it and keep more than 1 trillion; this holds for all of them together, stopped or running, and after any number of upgrades, failed calls and traps. Nothing is sent to any other canister or to one that was never reported at or below that threshold, and no top-up leaves the NFT canister with 1 trillion or less.",
 ["schedules","fault_sequences","histories"],"all interleavings of the one-minute funding rounds with uploads, archiving, canister creation, balances falling, status and deposit calls that fail or trap, low funds of the NFT canister and upgrades",
 "an unfunded storage or archive canister loses its files or blocks; the timers and the funding configuration live in state that upgrades and clones rebuild",
 [C+"types/sub_canister.rs",C+"state.rs",C+"lifecycle/post_upgrade.rs",C+"jobs/archiver.rs"],[("funding_config / restore_funding",C+"types/sub_canister.rs"),("restore_archive_funding",C+"jobs/archiver.rs")],"sub_canister_manager, ICRC3 archive manager","canister balances in the simulator")
L="cmdline/src/"
p("N27","The command-line tool uploads exactly the given file or reports failure",
 "When upload-file or upload-metadata exits with status 0, the file it was given is finalised at the given path (upload-metadata: at /<sha-256 of the file>.json), the canister serves exactly its bytes, and the printed URL is the one where it is served. In every other case it exits with a non-zero status, says why, and does not claim success. It never stores into or finalises an upload that it has not itself initialised successfully, touches no other path, and accepts no metadata file that is not valid ICRC-97. Without faults and with nothing against the request (permission, free plain path, chunk size of 1 to 1048576 bytes, file not empty) it succeeds.",
 ["inputs","schedules","fault_sequences","crash_points"],"all files, chunk sizes and paths, short and failing reads, files that change, calls that are rejected, lost or whose answer is lost, the tool dying between any two calls, other clients working on the same path at any moment, storage canisters that stop or fail",
 "the tool is only ever tried by hand against a healthy local replica; what it does when the third of seven calls is refused, or the file system returns less than asked, depends on the interleaving with other clients",
 [L+"calls/uploads.rs",L+"commands.rs",L+"metadata.rs",L+"utils.rs"],[("upload_file: init, store, finalize",L+"calls/uploads.rs"),("handle_upload_file, handle_upload_metadata",L+"commands.rs"),("validate_icrc97_metadata",L+"metadata.rs")],"the upload on the canister","exit status, standard output, canister state")
p("N28","The command-line tool does exactly what it is told and reports it truthfully",
 "mint asks for exactly one token with the given owner, subaccount, memo and metadata (every -m key:value entry, the value being everything after the first colon, a decimal number that fits 64 bits as Nat or, if negative, as Int, and anything else as Text; --icrc97_url as icrc97:metadata; the answers of the interactive mode), at most once per invocation, and prints the id of the token minted. permissions grant and revoke change exactly the given permission of the given principal; list and has print what the canister holds. create-metadata writes exactly the given name, description, URLs and attributes (a value that reads as a finite number as a number, anything else as text); validate-metadata accepts a file if and only if it is valid. Malformed arguments, and interactive input that ends early, are refused before anything is sent or written. Exit status 0 and the word of success appear if and only if the command took effect as far as the tool was told; every call goes to the given network and canister under the given identity.",
 ["inputs","schedules","fault_sequences"],"all argument combinations and interactive answers, callers with and without the permission, calls that are rejected, lost or whose answer is lost, a full disk, unreadable files, interleavings with other clients",
 "no test runs the tool at all; the mapping from arguments to calls and from answers to the exit status is only wrong for particular arguments or particular failures",
 [L+"commands.rs",L+"calls/mint.rs",L+"calls/permissions.rs",L+"metadata.rs",L+"prompts.rs",L+"utils.rs",L+"cli.rs",L+"main.rs"],[("handle_mint, handle_permissions, handle_create_metadata, handle_validate_metadata",L+"commands.rs"),("mint_nft",L+"calls/mint.rs"),("parse_permission_from_str, grant, revoke, list, has",L+"calls/permissions.rs")],"tokens and permissions on the canister, the metadata file","exit status, standard output, files written, calls received by the canister")
p("N29","A consent message describes exactly the call it is asked for",
 "icrc21_canister_call_consent_message answers for every supported method (icrc7_transfer, icrc37_approve_tokens, icrc37_approve_collection, icrc37_revoke_token_approvals, icrc37_revoke_collection_approvals, icrc37_transfer_from) and every argument that decodes with a message naming the method and the number of tokens concerned, under the requested language metadata; for any other method, or an argument that does not decode, with UnsupportedCanisterCall; it never traps.",
 ["inputs"],"all method names and argument bytes",
 "the argument space is unbounded and untested",
 [C+"queries/icrc21.rs"],[("icrc21_canister_call_consent_message",C+"queries/icrc21.rs")],None,"icrc21_canister_call_consent_message")
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        import re
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
