# writes known-findings.json: the listed findings and the log of repaired defects
import json, os
F = [
 dict(property="N14", sig="upgrade_failed_int_metadata", scenario="canaries/int_metadata_upgrade.json",
  what="an upgrade fails in post_upgrade (\"expected Int value\") while a 7update_token block whose previous or new metadata contains an Int value is still in the ledger part of the block log: candid 0.10.17 writes Int as a sequence and cannot read it back"),
 dict(property="N09", sig="dedupe_subaccount_blind", scenario="canaries/dedupe_subaccount.json",
  what="two requests that differ only in subaccounts (same principals, token, memo, expiry and created_at_time) are treated as duplicates of each other: the block data of bity-ic-icrc3 records owner principals only, and the duplicate check hashes that data"),
 dict(property="N09", sig="dedupe_window_init_only", scenario="canaries/dedupe_window.json",
  what="a transfer or approval retried with the same created_at_time inside a tx_window that update_collection_metadata has enlarged (or the default one, when none was given at init) is executed a second time: the block log's duplicate check keeps the window given at init"),
 dict(property="N16", sig="created_canister_stuck", scenario="canaries/created_stuck.json",
  what="install_code of a new storage canister is refused, the next init_upload installs it but the call-back traps: the canister stays recorded as not installed, every later init_upload asks to install it again and is refused because it is not empty (bity-ic-subcanister-manager), so no upload can be initialised any more"),
 dict(property="N16", sig="finalize_retry_loses_bytes", scenario="canaries/finalize_retry.json",
  what="the storage canister finalises a file, the NFT canister's call-back traps, finalize_upload is called again and succeeds: the storage canister (bundled wasm) has discarded the bytes on the second finalize_upload, the path redirects to a file it cannot serve"),
 dict(property="N08", sig="archive_created_stuck", scenario="canaries/archive_stuck.json",
  what="install_code of a new archive canister is refused, the next archiving run installs it but the call-back traps: the archive stays recorded as not installed, every later run asks to install it again and is refused because it is not empty (bity-ic-subcanister-manager), so no block is archived any more"),
]
FIX = [
 ("N04","457d039","token approvals survived icrc7_transfer and burn"),
 ("N01","a694a9c","a burned token stayed in the owner's balance and listing"),
 ("N05","8838cde","icrc37_is_approved ignored collection approvals and expiry"),
 ("N04","75973b7","icrc37_transfer_from dropped the owner's collection approvals while it still owned tokens"),
 ("N24","1f6e18a","permitted_drift and max_canister_storage_threshold were swapped at init"),
 ("N04","422ded0","icrc37_revoke_collection_approvals ignored from_subaccount"),
 ("N03","c90e63d","icrc37_revoke_token_approvals trapped on an empty batch"),
 ("N06","ea98543","revoking an approval that does not exist logged a block"),
 ("N05","e7f0666","approval listings did not report the granting subaccount and had no stable order"),
 ("N11","16f71fe","a mint batch that could not be logged completely left blocks and metadata behind"),
 ("N23","9c3f6c7","update_nft_metadata replaced the metadata before the update was logged"),
 ("N09","af60ba2","icrc37_transfer_from reported a duplicate as a success"),
 ("N17","ee32a8f","init_upload forgot a storage canister it had created when the upload failed"),
 ("N16","effd85c","finalize_upload and cancel_upload stayed stuck when the storage canister had already done its part"),
 ("N18","80e67c4","the garbage collector never collected abandoned uploads"),
 ("N22","4ce3b07","/metrics, /logs and /traces trapped after uploads and upgrades"),
 ("N19","c2c4c64","overlapping index updates indexed a block twice"),
 ("N19","7fcd8c5","37xfer blocks were not indexed by token id"),
 ("N19","9813e6c","37approve_coll blocks were not indexed by spender"),
 ("N19","2fdcbd4","a block with one account in several roles was listed repeatedly"),
 ("N20","03e1d09","cleaning the block cache trapped"),
 ("N09","73e0f10","tx_window reached the block log in the wrong unit"),
 ("N10","dab8672","icrc37 requests were refused as TooOld inside tx_window plus permitted_drift"),
 ("N03","991da2b","icrc7_transfer without created_at_time reported a refused duplicate as success"),
 ("N16","0eb4947","an upload path with and without its leading slash was two paths of one URL"),
 ("N16","fff6771","a file path that cannot be requested over HTTP could be neither finalised nor cancelled"),
 ("N08","43b87de","while a block was archived every ledger operation and block query trapped, a trap in the archive call-back lost the block, and a failed install_code stopped archiving for good"),
 ("N17","070b2e9","a storage canister was forgotten when init_upload trapped after installing it"),
 ("N20","aff8e6a","get_blocks ranges beyond 2^32, 2^64 or memory trapped, were empty or answered the wrong page"),
 ("N20","5077ea3","a token id filter above 2^64 trapped"),
 ("N07","df8db64","icrc3_get_blocks walked through (or trapped on) every index of a range beyond the log"),
 ("N20","98f1d39","blocks were missing from ranges of more than 1000 archived blocks"),
 ("N17","f46c4bc","an init_upload request with an invalid chunk size created another storage canister each time"),
 ("N26","34b8c1c","after an upgrade storage canisters were topped up only by the defaults of canfund (once a day, below 250 billion cycles) and archives not at all"),
 ("N27","48e6b6f","the command line tool went on with an upload whose init_upload or store_chunk was refused, writing into somebody else's upload"),
 ("N27","0da2da0","the command line tool sent wrong chunks after a short read of the file"),
 ("N28","3714da0","mint -m key:value lost what follows a second colon and entries without a colon"),
 ("N28","188b347","the interactive modes of the command line tool looped for ever, or went on with empty answers, when their input ended"),
 ("N10","b50100c","a created_at_time window beyond 64 bits (tx_window, permitted_drift or their sum) trapped transfers or refused requests inside the window"),
 ("N24","d1a54cd","limits beyond a machine word trapped transfers and mints or fell back to the default"),
 ("N16","14471c1","get_all_uploads started over for an offset beyond a machine word"),
 ("N05","2d591c1","approval listings fell back to ten entries for a take beyond a machine word"),
 ("N04","a4e4e29","approval limits beyond a machine word fell back to ten"),
 ("N28","7ecd06c","create-metadata dropped malformed attributes and wrote null for nan and inf"),
]
here = os.path.dirname(os.path.abspath(__file__))
json.dump({"findings":[dict(status="finding", **f) for f in F], "log":["fixed: property=%s %s %s"%x for x in FIX]}, open(os.path.join(here,"..","known-findings.json"),"w"), indent=1)
