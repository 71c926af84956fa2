'use strict';
// Candid argument types of the canisters under test, plus the label dictionary used when decoding replies.
const { T, know } = require('./candid');
const opt = T.opt, vec = T.vec, nat = T.nat, text = T.text, P = T.principal, n64 = T.nat64;
const Account = T.record({ owner: P, subaccount: opt(T.blob) });
const Val = T.rec(() => ValV);
const ValV = T.variant({ Int: T.int, Map: vec(T.tuple(text, Val)), Nat: nat, Blob: T.blob, Text: text, Array: vec(Val) });
const Permission = T.variant({ UpdateMetadata: T.null, Minting: T.null, UpdateCollectionMetadata: T.null, UpdateUploads: T.null, ManageAuthorities: T.null, ReadUploads: T.null });
const Version = T.record({ major: T.nat32, minor: T.nat32, patch: T.nat32 });
const PermissionManager = T.record({ user_permissions: vec(T.tuple(P, vec(Permission))) });
const ApprovalInit = T.record({ max_approvals_per_token_or_collection: opt(nat), max_revoke_approvals: opt(nat) });
const InitArgs = T.record({
  permissions: PermissionManager, supply_cap: opt(nat), tx_window: opt(nat), test_mode: T.bool, default_take_value: opt(nat), max_canister_storage_threshold: opt(nat),
  logo: opt(text), permitted_drift: opt(nat), name: text, description: opt(text), version: Version, max_take_value: opt(nat), max_update_batch_size: opt(nat),
  max_query_batch_size: opt(nat), commit_hash: text, max_memo_size: opt(nat), atomic_batch_transfers: opt(T.bool), collection_metadata: vec(T.tuple(text, Val)), symbol: text, approval_init: ApprovalInit,
});
const UpgradeArgs = T.record({ version: Version, commit_hash: text });
const CoreArgs = T.variant({ Upgrade: UpgradeArgs, Init: InitArgs });
const IndexInit = T.record({ test_mode: T.bool, authorized_principals: vec(P), version: Version, ledger_canister_id: P, commit_hash: text });
const IndexArgs = T.variant({ Upgrade: UpgradeArgs, Init: IndexInit });
const ApprovalInfo = T.record({ memo: opt(T.blob), from_subaccount: opt(T.blob), created_at_time: n64, expires_at: opt(n64), spender: Account });
const ApproveTokenArg = T.record({ token_id: nat, approval_info: ApprovalInfo });
const ApproveCollArg = T.record({ approval_info: ApprovalInfo });
const TransferArg = T.record({ to: Account, token_id: nat, memo: opt(T.blob), from_subaccount: opt(T.blob), created_at_time: opt(n64) });
const TransferFromArg = T.record({ to: Account, spender_subaccount: opt(T.blob), token_id: nat, from: Account, memo: opt(T.blob), created_at_time: opt(n64) });
const RevokeTokArg = T.record({ token_id: nat, memo: opt(T.blob), from_subaccount: opt(T.blob), created_at_time: opt(n64), spender: opt(Account) });
const RevokeCollArg = T.record({ memo: opt(T.blob), from_subaccount: opt(T.blob), created_at_time: opt(n64), spender: opt(Account) });
const MintReq = T.record({ metadata: vec(T.tuple(text, Val)), memo: opt(T.blob), token_owner: Account });
const IndexType = T.variant({ Account, TokenId: nat, BlockType: text });
const SortBy = T.variant({ Descending: T.null, Ascending: T.null });
const GetBlocksReq = T.record({ start: nat, length: nat });
const ConsentReq = T.record({ arg: T.blob, method: text, user_preferences: T.record({ metadata: T.record({ utc_offset_minutes: opt(T.int16), language: text }), device_spec: opt(T.variant({ GenericDisplay: T.null, LineDisplay: T.record({ characters_per_line: T.nat16, lines_per_page: T.nat16 }) })) }) });
const HttpReq = T.record({ method: text, url: text, headers: vec(T.tuple(text, text)), body: T.blob, certificate_version: opt(T.nat16) });
const PermArg = T.record({ permission: Permission, principal: P });
const CollMeta = T.record({ supply_cap: opt(nat), tx_window: opt(nat), default_take_value: opt(nat), max_canister_storage_threshold: opt(nat), logo: opt(text), permitted_drift: opt(nat), name: opt(text), description: opt(text), max_take_value: opt(nat), max_update_batch_size: opt(nat), max_query_batch_size: opt(nat), max_memo_size: opt(nat), atomic_batch_transfers: opt(T.bool), collection_metadata: opt(vec(T.tuple(text, Val))), symbol: opt(text) });

const core = {
  burn_nft: [nat], cancel_upload: [T.record({ file_path: text })], finalize_upload: [T.record({ file_path: text })],
  get_all_storage_subcanisters: [], get_all_uploads: [opt(nat), opt(nat)], get_upload_status: [text], get_user_permissions: [T.record({ principal: P })],
  grant_permission: [PermArg], has_permission: [PermArg], revoke_permission: [PermArg],
  icrc10_supported_standards: [], icrc21_canister_call_consent_message: [ConsentReq],
  icrc37_approve_collection: [vec(ApproveCollArg)], icrc37_approve_tokens: [vec(ApproveTokenArg)],
  icrc37_get_collection_approvals: [Account, opt(ApproveCollArg), opt(nat)], icrc37_get_token_approvals: [nat, opt(ApproveTokenArg), opt(nat)],
  icrc37_is_approved: [vec(T.record({ token_id: nat, from_subaccount: opt(T.blob), spender: Account }))],
  icrc37_max_approvals_per_token_or_collection: [], icrc37_max_revoke_approvals: [],
  icrc37_revoke_collection_approvals: [vec(RevokeCollArg)], icrc37_revoke_token_approvals: [vec(RevokeTokArg)], icrc37_transfer_from: [vec(TransferFromArg)],
  icrc3_get_archives: [T.null], icrc3_get_blocks: [vec(GetBlocksReq)], icrc3_get_properties: [T.null], icrc3_get_tip_certificate: [T.null], icrc3_supported_block_types: [T.null],
  icrc7_atomic_batch_transfers: [], icrc7_balance_of: [vec(Account)], icrc7_collection_metadata: [], icrc7_default_take_value: [], icrc7_description: [], icrc7_logo: [],
  icrc7_max_memo_size: [], icrc7_max_query_batch_size: [], icrc7_max_take_value: [], icrc7_max_update_batch_size: [], icrc7_name: [], icrc7_owner_of: [vec(nat)],
  icrc7_permitted_drift: [], icrc7_supply_cap: [], icrc7_symbol: [], icrc7_token_metadata: [vec(nat)], icrc7_tokens: [opt(nat), opt(nat)], icrc7_tokens_of: [Account, opt(nat), opt(nat)],
  icrc7_total_supply: [], icrc7_transfer: [vec(TransferArg)], icrc7_tx_window: [],
  init_upload: [T.record({ file_hash: text, file_path: text, file_size: n64, chunk_size: opt(n64) })], mint: [T.record({ mint_requests: vec(MintReq) })],
  store_chunk: [T.record({ chunk_id: nat, file_path: text, chunk_data: T.blob })], update_collection_metadata: [CollMeta],
  update_nft_metadata: [T.record({ token_id: nat, metadata: vec(T.tuple(text, Val)) })], http_request: [HttpReq],
};
const index = { get_blocks: [T.record({ sort_by: opt(SortBy), filters: vec(IndexType), start: n64, length: n64 })], status: [], ledger_id: [] };
const storage = { http_request: [HttpReq], get_storage_size: [T.null], init_upload: core.init_upload, store_chunk: core.store_chunk, finalize_upload: core.finalize_upload, cancel_upload: core.cancel_upload };
const archive = { icrc3_get_blocks: [vec(GetBlocksReq)] };
know('Ok', 'Err', 'ConcurrentManagementCall', 'StorageCanisterError', 'TokenDoesNotExist', 'NotTokenOwner', 'UploadNotInitialized', 'UploadAlreadyFinalized', 'UploadNotStarted', 'IncompleteUpload',
  'FileSizeMismatch', 'FileHashMismatch', 'FileAlreadyExists', 'NotEnoughStorage', 'InvalidChunkSize', 'TokenAlreadyExists', 'ExceedMaxAllowedSupplyCap', 'InvalidMemo', 'UserNotFound', 'DefaultError',
  'UploadNotFound', 'GenericError', 'GenericBatchError', 'error_code', 'message', 'InvalidSpender', 'InvalidRecipient', 'NonExistingTokenId', 'Unauthorized', 'CreatedInFuture', 'ledger_time', 'TooOld',
  'ApprovalDoesNotExist', 'Duplicate', 'duplicate_of', 'log_length', 'blocks', 'archived_blocks', 'id', 'block', 'args', 'callback', 'start', 'end', 'length', 'canister_id', 'certificate', 'hash_tree',
  'block_type', 'url', 'name', 'total', 'ledger_id', 'last_block_id', 'Init', 'InProgress', 'Finalized', 'status_code', 'headers', 'body', 'upgrade', 'streaming_strategy', 'Callback', 'token', 'key', 'index', 'content_encoding', 'sha256',
  'max_blocks_per_response', 'initial_cycles', 'tx_window', 'max_transactions_to_purge', 'max_memory_size_bytes', 'ttl_for_non_archived_transactions', 'max_transactions_in_window', 'max_unarchived_transactions', 'reserved_cycles', 'secs', 'nanos',
  'consent_message', 'metadata', 'language', 'GenericDisplayMessage', 'LineDisplayMessage', 'pages', 'lines', 'description', 'UnsupportedCanisterCall', 'ConsentMessageUnavailable', 'InsufficientPayment', 'file_path', 'chunk_id', 'chunk_data', 'file_hash', 'file_size', 'chunk_size');
module.exports = { core, index, storage, archive, CoreArgs, IndexArgs, Account };
