From 457d0399a98dd1c8adbea20c0bbba17811382393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 01/44] fix: end token approvals when a token is transferred
 with icrc7_transfer or burned

---
 src/core_nft/src/updates/icrc7.rs      | 6 +++++-
 src/core_nft/src/updates/management.rs | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index 5c990d6..a9aae6b 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -2,7 +2,7 @@ use crate::utils::check_memo;
 use crate::utils::trace;
 use crate::{
     state::{icrc3_add_transaction, mutate_state, read_state},
-    types::icrc7,
+    types::{icrc7, wrapped_types::WrappedNat, __TOKEN_APPROVALS},
 };
 use bity_ic_icrc3::transaction::{ICRC7Transaction, ICRC7TransactionData};
 use candid::{Nat, Principal};
@@ -99,6 +99,10 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
                     .or_insert(vec![])
                     .retain(|id| *id != nft.token_id.clone());
             });
+            // approvals were granted by the previous owner, they end with the ownership.
+            __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
+                token_approvals.remove(&WrappedNat::from(arg.token_id.clone()));
+            });
             Ok(Nat::from(transaction_id))
         }
         Err(e) => {
diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index bce3aee..16e6356 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -7,7 +7,8 @@ use crate::state::{icrc3_add_transaction, mutate_state, read_state, InternalFile
 use crate::types::http::add_redirection;
 use crate::types::metadata::__METADATA;
 use crate::types::sub_canister::StorageCanister;
-use crate::types::{icrc7, management, nft};
+use crate::types::wrapped_types::WrappedNat;
+use crate::types::{icrc7, management, nft, __TOKEN_APPROVALS};
 use crate::utils::{check_memo, trace};
 
 pub use crate::types::management::{
@@ -367,6 +368,11 @@ pub fn burn_nft(token_id: Nat) -> management::burn_nft::Response {
         state.data.tokens_list.remove(&token_id);
     });
 
+    // a burned token has no owner left, its approvals end with it.
+    __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
+        token_approvals.remove(&WrappedNat::from(token_id.clone()));
+    });
+
     Ok(())
 }
 
-- 
2.43.0


From a694a9cbaad4f9a5cbb30b5c2ec21f9fd8215c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 02/44] fix: remove a burned token from the owner's balance

---
 src/core_nft/src/updates/management.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 16e6356..6a446fb 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -366,6 +366,13 @@ pub fn burn_nft(token_id: Nat) -> management::burn_nft::Response {
 
     mutate_state(|state| {
         state.data.tokens_list.remove(&token_id);
+        if let Some(ids) = state
+            .data
+            .tokens_list_by_owner
+            .get_mut(&token.token_owner)
+        {
+            ids.retain(|id| *id != token_id);
+        }
     });
 
     // a burned token has no owner left, its approvals end with it.
-- 
2.43.0


From 8838cde05322aca414540d5ec94b35ebfe3a8b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 03/44] fix: icrc37_is_approved consults the owner's collection
 approvals and their expiry

---
 src/core_nft/src/queries/icrc37.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 2cd6bc7..6387ed5 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -178,24 +178,32 @@ fn icrc37_is_approved(args: icrc37_is_approved::Args) -> icrc37_is_approved::Res
 
             trace(&format!("has_token_approval: {:?}", has_token_approval));
 
-            let has_collection_approval = __COLLECTION_APPROVALS
-                .with_borrow(|collection_approvals| {
-                    collection_approvals.get(&WrappedAccount::from(spender_account.clone()))
+            let owner = state.data.owner_of(&arg.token_id);
+
+            // collection approvals are stored per granting account, i.e. the token's owner.
+            let has_collection_approval = owner
+                .and_then(|owner| {
+                    __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
+                        collection_approvals.get(&WrappedAccount::from(owner))
+                    })
                 })
-                .map(|approval_map| approval_map.0)
-                .unwrap_or(HashMap::new())
-                .iter()
-                .any(|(account, _approval)| {
-                    account.0.owner == spender_account.owner
-                        && account.0.subaccount == spender_account.subaccount
-                });
+                .and_then(|approval_map| {
+                    approval_map
+                        .0
+                        .get(&WrappedAccount::from(spender_account))
+                        .map(|approval| {
+                            approval
+                                .expires_at
+                                .map_or(true, |expires_at| expires_at > current_time)
+                        })
+                })
+                .unwrap_or(false);
 
             trace(&format!(
                 "has_collection_approval: {:?}",
                 has_collection_approval
             ));
 
-            let owner = state.data.owner_of(&arg.token_id);
             let is_owner = owner == Some(from_account);
 
             trace(&format!("is_owner: {:?}", is_owner));
-- 
2.43.0


From 75973b79f8de76e7c4f2af42938d8d5fec4c7db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 04/44] fix: icrc37_transfer_from keeps collection approvals
 while the account still owns tokens

---
 src/core_nft/src/updates/icrc37.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index e21b1db..268d7f6 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -835,11 +835,8 @@ fn transfer_from(
         token_approvals.remove(&WrappedNat::from(arg.token_id.clone()));
     });
 
-    let has_nfts = __TOKEN_APPROVALS.with_borrow(|token_approvals| {
-        token_approvals
-            .get(&WrappedNat::from(arg.token_id.clone()))
-            .is_some()
-    });
+    // collection approvals are kept as long as the account still owns tokens
+    let has_nfts = read_state(|state| state.data.tokens_balance_of(&arg.from) > 0u64);
 
     if !has_nfts {
         __COLLECTION_APPROVALS.with_borrow_mut(|collection_approvals| {
-- 
2.43.0


From 1f6e18aa71c9ca83786841da9709a488743d5634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 05/44] fix: pass permitted_drift and
 max_canister_storage_threshold in the order Data::new expects

---
 src/core_nft/src/lifecycle/init.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_nft/src/lifecycle/init.rs b/src/core_nft/src/lifecycle/init.rs
index a384e9f..6bdf194 100644
--- a/src/core_nft/src/lifecycle/init.rs
+++ b/src/core_nft/src/lifecycle/init.rs
@@ -84,8 +84,8 @@ fn init(args: Args) {
                 init_args.max_memo_size,
                 init_args.atomic_batch_transfers,
                 init_args.tx_window.clone(),
-                init_args.permitted_drift,
                 init_args.max_canister_storage_threshold,
+                init_args.permitted_drift,
                 init_args.approval_init.clone(),
             );
 
-- 
2.43.0


From 422ded03e28acbc8bcff1e18463b95617e2197bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 06/44] fix: icrc37_revoke_collection_approvals revokes for the
 given from_subaccount

---
 src/core_nft/src/updates/icrc37.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 268d7f6..fb34fc9 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -583,7 +583,7 @@ fn revoke_collection_approvals(
 
     let from_account = Account {
         owner: caller,
-        subaccount: None,
+        subaccount: arg.from_subaccount,
     };
 
     let collection_approvals = __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
-- 
2.43.0


From c90e63db3a91ae90f9fa91cb27bc1c513144437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 07/44] fix: icrc37_revoke_token_approvals answers an empty
 batch instead of trapping

---
 src/core_nft/src/updates/icrc37.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index fb34fc9..25976b7 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -382,6 +382,10 @@ fn icrc37_revoke_token_approvals(
 ) -> icrc37_revoke_token_approvals::Response {
     let caller = ic_cdk::api::msg_caller();
 
+    if args.is_empty() {
+        return Ok(vec![]);
+    }
+
     match guard_sliding_window(args[0].token_id.clone()) {
         Err(e) => {
             return icrc37_revoke_token_approvals::Response::Err(
-- 
2.43.0


From ea98543c1c869b0dc83b7c20f83cd1dbcd0827eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 08/44] fix: revoking an approval that does not exist reports
 ApprovalDoesNotExist and logs nothing

---
 src/core_nft/src/updates/icrc37.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 25976b7..3f4711f 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -475,12 +475,17 @@ fn revoke_token_approvals(
 
     let mut approval_map = token_approvals.unwrap().0;
 
-    if let Some(spender) = &arg.spender {
-        approval_map.remove(&WrappedAccount::from(spender.clone()));
-    } else {
-        approval_map.clear();
+    let nothing_to_revoke = match &arg.spender {
+        Some(spender) => approval_map
+            .remove(&WrappedAccount::from(spender.clone()))
+            .is_none(),
+        None => approval_map.drain().next().is_none(),
     };
 
+    if nothing_to_revoke {
+        return RevokeTokenApprovalResponse::Err(RevokeTokenApprovalError::ApprovalDoesNotExist);
+    }
+
     let created_at_time = arg.created_at_time.map(|t| Nat::from(t));
 
     let transaction = ICRC37Transaction::new(
@@ -602,10 +607,17 @@ fn revoke_collection_approvals(
 
     let mut approval_map = collection_approvals.unwrap().0;
 
-    if let Some(spender) = &arg.spender {
-        approval_map.remove(&WrappedAccount::from(spender.clone()));
-    } else {
-        approval_map.clear();
+    let nothing_to_revoke = match &arg.spender {
+        Some(spender) => approval_map
+            .remove(&WrappedAccount::from(spender.clone()))
+            .is_none(),
+        None => approval_map.drain().next().is_none(),
+    };
+
+    if nothing_to_revoke {
+        return RevokeCollectionApprovalResult::Err(
+            RevokeCollectionApprovalError::ApprovalDoesNotExist,
+        );
     }
 
     let created_at_time = arg.created_at_time.map(|t| Nat::from(t));
-- 
2.43.0


From e7f06665f90504cee673a39c03acf0842712b344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:06 +0000
Subject: [PATCH 09/44] fix: approval listings report the granting subaccount
 in a stable order

---
 src/core_nft/src/queries/icrc37.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 6387ed5..eb5c6d0 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -30,11 +30,11 @@ fn icrc37_get_token_approvals(
             .0
             .iter()
             .map(
-                |(account, approval)| icrc37_get_token_approvals::TokenApproval {
+                |(_, approval)| icrc37_get_token_approvals::TokenApproval {
                     token_id: token_id.clone(),
                     approval_info: crate::types::icrc37::ApprovalInfo {
                         spender: approval.spender.0.clone(),
-                        from_subaccount: account.0.subaccount,
+                        from_subaccount: approval.from.0.subaccount,
                         expires_at: approval.expires_at,
                         memo: approval.memo.clone().map(serde_bytes::ByteBuf::from),
                         created_at_time: approval.created_at,
@@ -47,6 +47,7 @@ fn icrc37_get_token_approvals(
             b.approval_info
                 .created_at_time
                 .cmp(&a.approval_info.created_at_time)
+                .then_with(|| a.approval_info.spender.cmp(&b.approval_info.spender))
         });
 
         let start_index = if let Some(prev_approval) = prev {
@@ -94,10 +95,10 @@ fn icrc37_get_collection_approvals(
             .unwrap_or(HashMap::new())
             .iter()
             .map(
-                |(account, approval)| icrc37_get_collection_approvals::CollectionApproval {
+                |(_, approval)| icrc37_get_collection_approvals::CollectionApproval {
                     approval_info: crate::types::icrc37::ApprovalInfo {
                         spender: approval.spender.0.clone(),
-                        from_subaccount: account.0.subaccount,
+                        from_subaccount: approval.from.0.subaccount,
                         expires_at: approval.expires_at,
                         memo: approval.memo.clone().map(serde_bytes::ByteBuf::from),
                         created_at_time: approval.created_at,
@@ -110,6 +111,7 @@ fn icrc37_get_collection_approvals(
         b.approval_info
             .created_at_time
             .cmp(&a.approval_info.created_at_time)
+            .then_with(|| a.approval_info.spender.cmp(&b.approval_info.spender))
     });
 
     let start_index = if let Some(prev_approval) = prev {
-- 
2.43.0


From 16f71feccd05395e89c79ebd6032909bb4cd5cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 10/44] fix: a mint batch that cannot be logged completely
 leaves no blocks or metadata behind

---
 src/core_nft/src/updates/management.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 6a446fb..fc0488f 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -171,9 +171,7 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
     for (i, mint_request) in req.mint_requests.iter().enumerate() {
         let token_id = current_token_id.clone() + Nat::from(i as u64);
 
-        let mut new_token =
-            nft::Icrc7Token::new(token_id.clone(), mint_request.token_owner.clone());
-        __METADATA.with_borrow_mut(|m| new_token.add_metadata(m, mint_request.metadata.clone()));
+        let new_token = nft::Icrc7Token::new(token_id.clone(), mint_request.token_owner.clone());
 
         let transaction = ICRC7Transaction::new(
             "7mint".to_string(),
@@ -189,18 +187,25 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
             },
         );
 
-        new_tokens.push((token_id, new_token, mint_request.token_owner.clone()));
+        new_tokens.push((
+            token_id,
+            new_token,
+            mint_request.token_owner.clone(),
+            mint_request.metadata.clone(),
+        ));
         transactions.push(transaction);
     }
 
-    for transaction in transactions {
+    for (i, transaction) in transactions.into_iter().enumerate() {
         match icrc3_add_transaction(transaction) {
             Ok(_) => {}
-            Err(e) => {
+            Err(e) if i == 0 => {
                 return Err(management::mint::MintError::StorageCanisterError(
                     e.to_string(),
                 ));
             }
+            // part of the batch is already logged: trap, so that those blocks are rolled back.
+            Err(e) => ic_cdk::trap(&format!("Failed to log mint transaction: {e}")),
         }
     }
 
@@ -209,7 +214,8 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
             current_token_id.clone() + Nat::from(req.mint_requests.len() as u64);
         state.data.last_token_id = new_last_token_id;
 
-        for (token_id, new_token, token_owner) in new_tokens {
+        for (token_id, mut new_token, token_owner, metadata) in new_tokens {
+            __METADATA.with_borrow_mut(|m| new_token.add_metadata(m, metadata));
             state.data.tokens_list.insert(token_id.clone(), new_token);
             state
                 .data
-- 
2.43.0


From 9c3f6c789f0788e83d2520c6e8ce7f8c08d7eb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 11/44] fix: update_nft_metadata replaces the metadata only
 after the update is logged

---
 src/core_nft/src/updates/management.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index fc0488f..e954621 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -254,10 +254,8 @@ pub fn update_nft_metadata(
             let previous_metadata =
                 __METADATA.with_borrow(|m| m.get_all_data(Some(token_name_hash.clone())));
 
-            __METADATA.with_borrow_mut(|m| token.replace_metadata(m, req.metadata));
-
-            let new_metadata =
-                __METADATA.with_borrow(|m| m.get_all_data(Some(token_name_hash.clone())));
+            let new_metadata: BTreeMap<String, Icrc3Value> =
+                req.metadata.iter().cloned().collect();
 
             let mut metadata_map = BTreeMap::new();
 
@@ -274,13 +272,7 @@ pub fn update_nft_metadata(
 
             metadata_map.insert(
                 "icrc7:new_metadata".to_string(),
-                Icrc3Value::Map(
-                    new_metadata
-                        .unwrap_or_default()
-                        .into_iter()
-                        .map(|(k, v)| (k, v.0))
-                        .collect(),
-                ),
+                Icrc3Value::Map(new_metadata),
             );
 
             let meta = Icrc3Value::Map(metadata_map);
@@ -311,6 +303,8 @@ pub fn update_nft_metadata(
                 }
             };
 
+            __METADATA.with_borrow_mut(|m| token.replace_metadata(m, req.metadata));
+
             mutate_state(|state| {
                 state
                     .data
-- 
2.43.0


From af60ba2def7fa8c4180fb5b4d4363b5eac80a0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:34 +0000
Subject: [PATCH 12/44] fix: icrc37_transfer_from reports a duplicate
 transaction as Duplicate

---
 src/core_nft/src/updates/icrc37.rs | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 3f4711f..ba33799 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -806,25 +806,17 @@ fn transfer_from(
 
     let index = match icrc3_add_transaction(transaction) {
         Ok(index) => index,
-        Err(e) => match e {
-            Icrc3Error::Icrc3Error(e) => {
-                if e.to_lowercase().contains("duplicate") {
-                    return TransferFromResult::Err(TransferFromError::Duplicate {
-                        duplicate_of: Nat::from(2u64), // value hardcoded for now. Need to update icrc3 to get the correct value
-                    });
-                }
-                return TransferFromResult::Err(TransferFromError::GenericError {
-                    error_code: Nat::from(1u64),
-                    message: format!("Failed to insert transaction: {}", e),
-                });
-            }
-            _ => {
-                return TransferFromResult::Err(TransferFromError::GenericError {
-                    error_code: Nat::from(1u64),
-                    message: format!("Failed to insert transaction: {}", e),
-                });
-            }
-        },
+        Err(Icrc3Error::DuplicateTransaction { duplicate_of }) => {
+            return TransferFromResult::Err(TransferFromError::Duplicate {
+                duplicate_of: Nat::from(duplicate_of),
+            });
+        }
+        Err(e) => {
+            return TransferFromResult::Err(TransferFromError::GenericError {
+                error_code: Nat::from(1u64),
+                message: format!("Failed to insert transaction: {}", e),
+            });
+        }
     };
 
     let previous_owner = nft.token_owner.clone();
-- 
2.43.0


From ee32a8f7c91cad8924e696567e5c836d9048f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 13/44] fix: init_upload keeps a storage canister it created
 when the upload fails

---
 src/core_nft/src/updates/management.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index e954621..38d8468 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -395,7 +395,14 @@ pub async fn init_upload(data: init_upload::Args) -> init_upload::Response {
 
     let mut sub_canister_manager = read_state(|state| state.data.sub_canister_manager.clone());
 
-    let canister = match sub_canister_manager.init_upload(data.clone()).await {
+    let result = sub_canister_manager.init_upload(data.clone()).await;
+
+    // keep the canisters created on the way, also when the upload itself could not be initialized.
+    mutate_state(|state| {
+        state.data.sub_canister_manager = sub_canister_manager;
+    });
+
+    let canister = match result {
         Ok((_, canister)) => canister,
         Err(e) => {
             trace(&format!("Error inserting data: {:?}", e));
@@ -404,7 +411,6 @@ pub async fn init_upload(data: init_upload::Args) -> init_upload::Response {
     };
 
     mutate_state(|state| {
-        state.data.sub_canister_manager = sub_canister_manager;
         state.internal_filestorage.insert(
             data.file_path.clone(),
             InternalFilestorageData {
-- 
2.43.0


From effd85c0afb94371ee394471f0a84d3399167935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 14/44] fix: finalize_upload and cancel_upload complete what
 the storage canister already did

---
 src/core_nft/src/updates/management.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 38d8468..5f8bf79 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -526,6 +526,8 @@ pub async fn finalize_upload(data: finalize_upload::Args) -> finalize_upload::Re
 
     match canister.finalize_upload(data.clone()).await {
         Ok(_) => {}
+        // an earlier attempt was processed by the storage canister but never recorded here.
+        Err(finalize_upload::FinalizeUploadError::UploadAlreadyFinalized) => {}
         Err(e) => {
             trace(&format!("Error storing chunk: {:?}", e));
             // TODO shall we automaticly cleanup or add a cleanup and let user retry?
@@ -643,6 +645,8 @@ pub async fn cancel_upload(data: cancel_upload::Args) -> cancel_upload::Response
 
     match canister.cancel_upload(data.clone()).await {
         Ok(_) => {}
+        // an earlier attempt was processed by the storage canister but never recorded here.
+        Err(cancel_upload::CancelUploadError::UploadNotInitialized) => {}
         Err(e) => {
             trace(&format!("Error storing chunk: {:?}", e));
             return Err(e);
-- 
2.43.0


From 80e67c41db9567cdd5affd871f1bc55d4022c334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:54 +0000
Subject: [PATCH 15/44] fix: the upload garbage collector collects abandoned
 uploads, and only those

---
 .../src/jobs/upload_garbage_collector.rs      | 57 ++++++++++++-------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/src/core_nft/src/jobs/upload_garbage_collector.rs b/src/core_nft/src/jobs/upload_garbage_collector.rs
index 64aac02..35ed7a6 100644
--- a/src/core_nft/src/jobs/upload_garbage_collector.rs
+++ b/src/core_nft/src/jobs/upload_garbage_collector.rs
@@ -1,11 +1,15 @@
 use std::time::Duration;
 
-use bity_ic_canister_time::{run_interval, DAY_IN_MS};
+use bity_ic_canister_time::{run_interval, DAY_IN_MS, NANOS_PER_MILLISECOND};
 use bity_ic_storage_canister_api::cancel_upload;
+use bity_ic_storage_canister_api::types::storage::UploadState;
 use bity_ic_storage_canister_c2c::cancel_upload;
 use tracing::{debug, info};
 
-use crate::state::read_state;
+use crate::guards::GuardManagement;
+use crate::state::{mutate_state, read_state, InternalFilestorageData};
+
+const MAX_UPLOAD_AGE_NS: u64 = DAY_IN_MS * NANOS_PER_MILLISECOND;
 
 pub fn start_job() {
     run_interval(
@@ -18,26 +22,41 @@ fn upload_garbage_collector_job() {
     ic_cdk::futures::spawn(upload_garbage_collector());
 }
 
+fn is_abandoned(file: &InternalFilestorageData) -> bool {
+    !matches!(file.state, UploadState::Finalized)
+        && file.init_timestamp.saturating_add(MAX_UPLOAD_AGE_NS) <= ic_cdk::api::time()
+}
+
 async fn upload_garbage_collector() {
     let all_files = read_state(|state| state.internal_filestorage.get_all_files().clone());
 
-    for (file_path, file) in all_files {
-        if file.init_timestamp + DAY_IN_MS > ic_cdk::api::time() {
-            let result = cancel_upload(
-                file.canister,
-                cancel_upload::Args {
-                    file_path: file_path.clone(),
-                },
-            )
-            .await;
-
-            match result {
-                Ok(_) => {
-                    debug!("Successfully canceled upload for file {}", file_path);
-                }
-                Err(err) => {
-                    info!("Failed to cancel upload for file {}: {:?}", file_path, err);
-                }
+    for (file_path, _) in all_files {
+        // no upload call can be in flight while its file is collected.
+        let Ok(_guard) = GuardManagement::new(ic_cdk::api::canister_self()) else {
+            continue;
+        };
+
+        let Some(file) = read_state(|state| state.internal_filestorage.get(&file_path).cloned())
+            .filter(is_abandoned)
+        else {
+            continue;
+        };
+
+        let result = cancel_upload(
+            file.canister,
+            cancel_upload::Args {
+                file_path: file_path.clone(),
+            },
+        )
+        .await;
+
+        match result {
+            Ok(Ok(_)) | Ok(Err(cancel_upload::CancelUploadError::UploadNotInitialized)) => {
+                mutate_state(|state| state.internal_filestorage.remove(&file_path));
+                debug!("Successfully canceled upload for file {}", file_path);
+            }
+            Err(err) => {
+                info!("Failed to cancel upload for file {}: {:?}", file_path, err);
             }
         }
     }
-- 
2.43.0


From 4ce3b07f4fcaf96bb0ceedb38e0fc4727513ec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:42 +0000
Subject: [PATCH 16/44] fix: /metrics, /logs and /traces stay certified under
 their own path, also after an upgrade

---
 src/core_nft/src/lifecycle/post_upgrade.rs |  3 ++-
 src/core_nft/src/queries/http_request.rs   | 17 ++++++++---------
 src/core_nft/src/types/http.rs             | 10 +++++-----
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 746684b..0021a26 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -1,7 +1,7 @@
 use crate::lifecycle::init_canister;
 use crate::memory::get_upgrades_memory;
 use crate::state::{read_state, replace_icrc3, start_default_archive_job, RuntimeState};
-use crate::types::http::add_redirection;
+use crate::types::http::{add_redirection, certify_all_assets};
 use crate::Args;
 
 use bity_ic_canister_logger::LogEntry;
@@ -53,6 +53,7 @@ fn post_upgrade(args: Args) {
             init_canister(state.clone());
             replace_icrc3(icrc3);
             start_default_archive_job();
+            certify_all_assets();
 
             let media_redirections = read_state(|state| state.data.media_redirections.clone());
             for (path, redirection_url) in media_redirections {
diff --git a/src/core_nft/src/queries/http_request.rs b/src/core_nft/src/queries/http_request.rs
index 1749e87..e1eea5f 100644
--- a/src/core_nft/src/queries/http_request.rs
+++ b/src/core_nft/src/queries/http_request.rs
@@ -17,14 +17,14 @@ fn http_request(req: HttpRequest) -> HttpResponse {
     let path = req.get_path().expect("Failed to parse request path");
 
     match path.as_str() {
-        "/logs" => serve_logs(bity_ic_canister_logger::export_logs()),
-        "/traces" => serve_logs(bity_ic_canister_logger::export_traces()),
+        "/logs" => serve_logs("/logs", bity_ic_canister_logger::export_logs()),
+        "/traces" => serve_logs("/traces", bity_ic_canister_logger::export_traces()),
         "/metrics" => serve_metrics(),
         _ => serve_asset(&req),
     }
 }
 
-fn serve_logs(logs: Vec<LogEntry>) -> HttpResponse<'static> {
+fn serve_logs(path: &str, logs: Vec<LogEntry>) -> HttpResponse<'static> {
     ASSET_ROUTER.with_borrow(|_| {
         let body = serde_json::to_vec(&logs).expect("Failed to serialize metrics");
         let headers = get_asset_headers(vec![
@@ -47,15 +47,14 @@ fn serve_logs(logs: Vec<LogEntry>) -> HttpResponse<'static> {
         HTTP_TREE.with(|tree| {
             let tree = tree.borrow();
 
-            let metrics_tree_path = HttpCertificationPath::exact("/metrics");
-            let metrics_certification = HttpCertification::skip();
-            let metrics_tree_entry =
-                HttpCertificationTreeEntry::new(&metrics_tree_path, metrics_certification);
+            let tree_path = HttpCertificationPath::exact(path);
+            let certification = HttpCertification::skip();
+            let tree_entry = HttpCertificationTreeEntry::new(&tree_path, certification);
             add_v2_certificate_header(
                 &data_certificate().expect("No data certificate available"),
                 &mut response,
-                &tree.witness(&metrics_tree_entry, "/metrics").unwrap(),
-                &metrics_tree_path.to_expr_path(),
+                &tree.witness(&tree_entry, path).unwrap(),
+                &tree_path.to_expr_path(),
             );
 
             response
diff --git a/src/core_nft/src/types/http.rs b/src/core_nft/src/types/http.rs
index bdff63a..d3e2c55 100644
--- a/src/core_nft/src/types/http.rs
+++ b/src/core_nft/src/types/http.rs
@@ -94,11 +94,11 @@ pub fn certify_all_assets() {
         let logs_tree_entry = HttpCertificationTreeEntry::new(logs_tree_path, logs_certification);
         tree.insert(&logs_tree_entry);
 
-        let trace_tree_path = HttpCertificationPath::exact("/trace");
-        let trace_certification = HttpCertification::skip();
-        let trace_tree_entry =
-            HttpCertificationTreeEntry::new(trace_tree_path, trace_certification);
-        tree.insert(&trace_tree_entry);
+        let traces_tree_path = HttpCertificationPath::exact("/traces");
+        let traces_certification = HttpCertification::skip();
+        let traces_tree_entry =
+            HttpCertificationTreeEntry::new(traces_tree_path, traces_certification);
+        tree.insert(&traces_tree_entry);
     });
 
     ASSET_ROUTER.with_borrow_mut(|asset_router| {
-- 
2.43.0


From c2c4c6411d7c2f0d2b26195b90faea72f0b1c50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 17/44] fix: overlapping index updates index every block once

---
 src/index_icrc7/src/jobs.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/index_icrc7/src/jobs.rs b/src/index_icrc7/src/jobs.rs
index 40df08e..71f67bc 100644
--- a/src/index_icrc7/src/jobs.rs
+++ b/src/index_icrc7/src/jobs.rs
@@ -35,7 +35,7 @@ fn update_index_job() {
 }
 
 async fn update_index() {
-    let mut last_block_id: u64 = read_state(|state| state.data.last_block_id);
+    let last_block_id: u64 = read_state(|state| state.data.last_block_id);
 
     // Generate block IDs array starting from last_block_id and incrementing
     let block_ids: Vec<u64> = (last_block_id..last_block_id + BLOCK_BATCH_SIZE).collect();
@@ -44,22 +44,22 @@ async fn update_index() {
     match blocks {
         Ok(blocks) => {
             for block in blocks {
-                match add_block_to_index(&block) {
-                    Ok(_) => {
-                        last_block_id += 1;
-                    }
-                    Err(e) => {
-                        break;
-                    }
+                // runs can overlap while they wait for the ledger, so blocks indexed in the
+                // meantime are skipped and the index never runs ahead of a missing block.
+                let next_block_id = read_state(|state| state.data.last_block_id);
+                if block.id < next_block_id {
+                    continue;
                 }
+                if block.id > next_block_id || add_block_to_index(&block).is_err() {
+                    break;
+                }
+                mutate_state(|state| {
+                    state.data.last_block_id = next_block_id + 1;
+                });
             }
         }
         Err(e) => {
             ic_cdk::trap(e);
         }
     }
-
-    mutate_state(|state| {
-        state.data.last_block_id = last_block_id;
-    });
 }
-- 
2.43.0


From 7fcd8c532267857395c227e8fc0b1e0b4a3c875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 18/44] fix: index 37xfer blocks by token id

---
 src/index_icrc7/src/blocks.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/index_icrc7/src/blocks.rs b/src/index_icrc7/src/blocks.rs
index aee2cd0..838b99c 100644
--- a/src/index_icrc7/src/blocks.rs
+++ b/src/index_icrc7/src/blocks.rs
@@ -354,7 +354,20 @@ impl TransactionDataExtractor for TransferFromBlock {
     }
 
     fn extract_token_id(&self, data: &ICRC3Value) -> Result<Option<WrappedNat>, String> {
-        return Ok(None);
+        match data {
+            ICRC3Value::Map(map) => {
+                if let Some(ICRC3Value::Map(tx)) = map.get("tx") {
+                    if let Some(ICRC3Value::Nat(token_id)) = tx.get("tid") {
+                        Ok(Some(WrappedNat(token_id.clone())))
+                    } else {
+                        Err("Missing or invalid token ID field".to_string())
+                    }
+                } else {
+                    Err("Invalid transaction data".to_string())
+                }
+            }
+            _ => Err("TransferFrom transaction data must be a map".to_string()),
+        }
     }
 }
 
-- 
2.43.0


From 9813e6c4dfb77aafaec7ab22cf43dcbf2ad422df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 19/44] fix: index 37approve_coll blocks by spender

---
 src/index_icrc7/src/blocks.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/index_icrc7/src/blocks.rs b/src/index_icrc7/src/blocks.rs
index 838b99c..99f8a65 100644
--- a/src/index_icrc7/src/blocks.rs
+++ b/src/index_icrc7/src/blocks.rs
@@ -418,6 +418,11 @@ impl TransactionDataExtractor for CollectionApproveBlock {
                             accounts.push(account);
                         }
                     }
+                    if let Some(ICRC3Value::Text(spender)) = tx.get("spender") {
+                        if let Ok(account) = WrappedAccount::from_str(spender) {
+                            accounts.push(account);
+                        }
+                    }
                 }
                 Ok(accounts)
             }
-- 
2.43.0


From 2fdcbd4a128693d172f02a567898af03a92fd50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 20/44] fix: list a block once for an account with several
 roles in it

---
 src/index_icrc7/src/index.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/index_icrc7/src/index.rs b/src/index_icrc7/src/index.rs
index 0c70b1d..c172571 100644
--- a/src/index_icrc7/src/index.rs
+++ b/src/index_icrc7/src/index.rs
@@ -91,7 +91,10 @@ pub fn add_block_to_index(block: &BlockWithId) -> Result<(), String> {
     };
 
     let block_instance = get_block_instance(&block_type);
-    let accounts = block_instance.extract_accounts(data).unwrap_or_default();
+    let mut accounts = block_instance.extract_accounts(data).unwrap_or_default();
+    // an account can have several roles in a block, which is still listed once for it.
+    accounts.sort();
+    accounts.dedup();
     let token_id = block_instance.extract_token_id(data).unwrap_or_default();
     let _timestamp = block_instance.extract_timestamp(data).unwrap_or_default();
 
-- 
2.43.0


From 03e1d09233f4bb72420a53dd7284652fb7ff70d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 21/44] fix: cleaning the block cache does not trap

---
 src/index_icrc7/src/cache.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/index_icrc7/src/cache.rs b/src/index_icrc7/src/cache.rs
index cf8e02f..2c562c6 100644
--- a/src/index_icrc7/src/cache.rs
+++ b/src/index_icrc7/src/cache.rs
@@ -68,16 +68,16 @@ pub fn try_get_value_with_timestamp(key: u64) -> Option<(u64, CustomValue)> {
 
 pub fn remove_all_values_older_than(timestamp: &u64) -> bool {
     __CACHE.with(|cache| {
-        cache
+        let keys = cache
             .borrow()
             .iter()
             .filter(|(_, entry)| entry.timestamp < *timestamp)
             .map(|(key, _)| key)
-            .collect::<Vec<_>>()
-            .into_iter()
-            .for_each(|key| {
-                cache.borrow_mut().remove(&key);
-            });
+            .collect::<Vec<_>>();
+
+        for key in keys {
+            cache.borrow_mut().remove(&key);
+        }
 
         true
     })
-- 
2.43.0


From 73e0f101e17e1161ffde2d984b5b3b94ebe5ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:18 +0000
Subject: [PATCH 22/44] fix: hand tx_window to the block log in nanoseconds,
 the unit it is given in

---
 src/core_nft/src/lifecycle/init.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_nft/src/lifecycle/init.rs b/src/core_nft/src/lifecycle/init.rs
index 6bdf194..394f9e0 100644
--- a/src/core_nft/src/lifecycle/init.rs
+++ b/src/core_nft/src/lifecycle/init.rs
@@ -105,7 +105,7 @@ fn init(args: Args) {
             }
 
             let _tx_window = match init_args.tx_window {
-                Some(tx_window) => Duration::from_millis(u64::try_from(tx_window.0).unwrap()),
+                Some(tx_window) => Duration::from_nanos(u64::try_from(tx_window.0).unwrap()),
                 None => Duration::from_secs(0),
             };
 
-- 
2.43.0


From dab8672ae1c5f94a0d64addfda194a3e4a4fa84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:18 +0000
Subject: [PATCH 23/44] fix: icrc37 requests are TooOld only after tx_window
 plus permitted_drift

---
 src/core_nft/src/updates/icrc37.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index ba33799..d431107 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -19,28 +19,28 @@ use std::collections::HashMap;
 use crate::guards::guard_sliding_window;
 
 fn verify_approval_timing(created_at_time: u64, current_time: u64) -> Result<(), (bool, u64)> {
-    let permited_drift = read_state(|state| state.data.permitted_drift.clone())
-        .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT));
+    let permited_drift: u64 = read_state(|state| state.data.permitted_drift.clone())
+        .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT))
+        .0
+        .try_into()
+        .unwrap_or(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT);
 
-    if created_at_time
-        > current_time
-            + permited_drift
-                .0
-                .try_into()
-                .unwrap_or(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT)
-    {
+    if created_at_time > current_time + permited_drift {
         return Err((true, current_time));
     }
 
-    let tx_window = read_state(|state| {
+    let tx_window: u64 = read_state(|state| {
         state
             .data
             .tx_window
             .clone()
             .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_TX_WINDOW))
-    });
+    })
+    .0
+    .try_into()
+    .unwrap_or(crate::types::icrc7::DEFAULT_TX_WINDOW);
 
-    if created_at_time + tx_window.0.try_into().unwrap_or(0) < current_time {
+    if created_at_time < current_time.saturating_sub(tx_window + permited_drift) {
         return Err((false, 0));
     }
 
-- 
2.43.0


From 991da2b7d0734d3230ba3cc717dd64f21b81b77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:18 +0000
Subject: [PATCH 24/44] fix: icrc7_transfer without created_at_time does not
 report a refused duplicate as success

---
 src/core_nft/src/updates/icrc7.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index a9aae6b..daff1b5 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -107,7 +107,13 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
         }
         Err(e) => {
             if let bity_ic_icrc3::types::Icrc3Error::DuplicateTransaction { duplicate_of } = e {
-                return Ok(Nat::from(duplicate_of));
+                // a retry (same created_at_time) gets the result of the first execution, anything else did not take effect.
+                return match arg.created_at_time {
+                    Some(_) => Ok(Nat::from(duplicate_of)),
+                    None => Err(icrc7::icrc7_transfer::TransferError::Duplicate {
+                        duplicate_of: Nat::from(duplicate_of),
+                    }),
+                };
             }
             Err(icrc7::icrc7_transfer::TransferError::GenericError {
                 error_code: Nat::from(2u64),
-- 
2.43.0


From f46c4bcc6759a2c9ab9095da4dfa4801ce150d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:26 +0000
Subject: [PATCH 25/44] fix: an invalid init_upload request does not create
 further storage canisters

---
 src/core_nft/src/types/management.rs   | 4 ++++
 src/core_nft/src/types/sub_canister.rs | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/core_nft/src/types/management.rs b/src/core_nft/src/types/management.rs
index 1c59853..1909d88 100644
--- a/src/core_nft/src/types/management.rs
+++ b/src/core_nft/src/types/management.rs
@@ -143,6 +143,10 @@ pub mod init_upload {
             },
         }
     }
+
+    pub fn invalid_chunk_size() -> String {
+        format!("{:?}", init_upload::InitUploadError::InvalidChunkSize)
+    }
 }
 
 pub mod store_chunk {
diff --git a/src/core_nft/src/types/sub_canister.rs b/src/core_nft/src/types/sub_canister.rs
index 1de966b..00f0552 100644
--- a/src/core_nft/src/types/sub_canister.rs
+++ b/src/core_nft/src/types/sub_canister.rs
@@ -85,6 +85,12 @@ impl StorageSubCanisterManager {
                             trace(&format!("Initialized upload"));
                             return Ok((init_upload::InitUploadResp {}, canister.canister_id()));
                         }
+                        // the request itself is invalid, a new canister would refuse it as well.
+                        Err(init_upload::InitUploadError::StorageCanisterError(e))
+                            if e == init_upload::invalid_chunk_size() =>
+                        {
+                            return Err(e);
+                        }
                         Err(_) => {
                             continue;
                         }
-- 
2.43.0


From 0eb4947d70cbd2b7e22c37b098e0c14c49a94003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:56 +0000
Subject: [PATCH 26/44] fix: an upload path with and without its leading slash
 is one path

---
 src/core_nft/src/state.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/state.rs b/src/core_nft/src/state.rs
index 10524b6..f19eed6 100644
--- a/src/core_nft/src/state.rs
+++ b/src/core_nft/src/state.rs
@@ -309,8 +309,12 @@ impl InternalFilestorage {
         self.map.remove(path)
     }
 
+    // "a" and "/a" are served under the same url.
     pub fn contains_path(&self, path: &str) -> bool {
-        self.map.values().any(|data| data.path == path)
+        let path = path.trim_start_matches('/');
+        self.map
+            .values()
+            .any(|data| data.path.trim_start_matches('/') == path)
     }
 
     pub fn get_all_files(&self) -> Vec<(String, InternalFilestorageData)> {
-- 
2.43.0


From fff67714fc3a7da5bd9b124f4cd272836fae7548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:30 +0000
Subject: [PATCH 27/44] fix: init_upload refuses a file path that cannot be
 requested over HTTP

---
 src/core_nft/src/updates/management.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 5f8bf79..00bef65 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -21,6 +21,7 @@ use bity_ic_storage_canister_api::types::storage::UploadState;
 pub use candid::{Nat, Principal};
 pub use ic_cdk::call::RejectCode;
 use ic_cdk_macros::{query, update};
+use ic_http_certification::HttpRequest;
 use icrc_ledger_types::icrc::generic_value::ICRC3Value as Icrc3Value;
 use icrc_ledger_types::icrc1::account::Account;
 use std::collections::BTreeMap;
@@ -383,12 +384,27 @@ pub fn burn_nft(token_id: Nat) -> management::burn_nft::Response {
     Ok(())
 }
 
+fn url_path(file_path: &str) -> String {
+    if file_path.starts_with('/') {
+        file_path.to_string()
+    } else {
+        format!("/{}", file_path)
+    }
+}
+
 #[update(guard = "caller_has_update_uploads_permission")]
 pub async fn init_upload(data: init_upload::Args) -> init_upload::Response {
     let caller = ic_cdk::api::msg_caller();
     let _guard_principal = GuardManagement::new(caller)
         .map_err(|_| init_upload::InitUploadError::ConcurrentManagementCall)?;
 
+    // a path that no request can name could be neither finalized nor cancelled.
+    if HttpRequest::get(url_path(&data.file_path)).build().get_path().is_err() {
+        return Err(init_upload::InitUploadError::StorageCanisterError(
+            "Invalid file path".to_string(),
+        ));
+    }
+
     if read_state(|state| state.internal_filestorage.contains_path(&data.file_path)) {
         return Err(init_upload::InitUploadError::FileAlreadyExists);
     }
@@ -535,11 +551,7 @@ pub async fn finalize_upload(data: finalize_upload::Args) -> finalize_upload::Re
         }
     }
 
-    let path = if media_path.starts_with('/') {
-        media_path.clone()
-    } else {
-        format!("/{}", media_path)
-    };
+    let path = url_path(&media_path);
 
     let redirection_url = format!("https://{}.raw.icp0.io{}", canister_id, path.clone());
 
-- 
2.43.0


From 43b87de2deaddb4fc3d522efea73dd0b28871ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:37 +0000
Subject: [PATCH 28/44] fix: archiving does not lock the ledger, lose a block
 or get stuck while another canister is called

---
 src/core_nft/src/jobs/archiver.rs          | 160 +++++++++++++++++++++
 src/core_nft/src/jobs/mod.rs               |   2 +
 src/core_nft/src/lifecycle/init.rs         |   3 +-
 src/core_nft/src/lifecycle/post_upgrade.rs |   3 +-
 4 files changed, 164 insertions(+), 4 deletions(-)
 create mode 100644 src/core_nft/src/jobs/archiver.rs

diff --git a/src/core_nft/src/jobs/archiver.rs b/src/core_nft/src/jobs/archiver.rs
new file mode 100644
index 0000000..9ceab73
--- /dev/null
+++ b/src/core_nft/src/jobs/archiver.rs
@@ -0,0 +1,160 @@
+use std::cell::Cell;
+use std::time::Duration;
+
+use bity_ic_canister_time::{run_interval, HOUR_IN_MS, MINUTE_IN_MS};
+use bity_ic_icrc3::blockchain::archive_canister::ArchiveCanister;
+use bity_ic_icrc3::blockchain::archive_canister_manager::ArchiveCanisterManager;
+use bity_ic_icrc3::blockchain::blockchain::Blockchain;
+use bity_ic_subcanister_manager::{Canister, CanisterState};
+use candid::{Nat, Principal};
+use ic_cdk::call::Call;
+use tracing::{debug, info};
+
+use crate::state::{start_cleanup_job, ICRC3_INSTANCE};
+
+type ArchiveArgs = <ArchiveCanister as Canister>::ParamType;
+
+thread_local! {
+    static RUNNING: Cell<bool> = const { Cell::new(false) };
+}
+
+struct JobGuard;
+
+impl JobGuard {
+    fn new() -> Option<Self> {
+        (!RUNNING.replace(true)).then(|| JobGuard)
+    }
+}
+
+impl Drop for JobGuard {
+    fn drop(&mut self) {
+        RUNNING.set(false);
+    }
+}
+
+pub fn start_job() {
+    run_interval(Duration::from_millis(10 * MINUTE_IN_MS), || {
+        ic_cdk::futures::spawn(archiver())
+    });
+    start_cleanup_job(HOUR_IN_MS);
+}
+
+async fn archiver() {
+    let Some(_guard) = JobGuard::new() else {
+        return;
+    };
+
+    match archive_blocks().await {
+        Ok(count) => debug!("Archived {} block(s)", count),
+        Err(err) => info!("Failed to archive blocks: {}", err),
+    }
+}
+
+// The ledger must stay usable while the job waits for another canister: it is only borrowed between two calls.
+fn with_blockchain<R>(f: impl FnOnce(&mut Blockchain) -> R) -> R {
+    let mut lock = ICRC3_INSTANCE.write().unwrap();
+    f(&mut lock
+        .as_mut()
+        .expect("ICRC3 state has not been initialized")
+        .blockchain)
+}
+
+fn with_manager<R>(f: impl FnOnce(&mut ArchiveCanisterManager) -> R) -> R {
+    with_blockchain(|blockchain| f(&mut blockchain.archive_canister_manager.write().unwrap()))
+}
+
+fn current_archive() -> Option<ArchiveCanister> {
+    with_manager(|manager| {
+        let (_, id) = manager.canisters_by_block_id.last()?;
+        let canister = manager.sub_canister_manager.sub_canisters.get(id)?;
+        (canister.state() == CanisterState::Installed).then(|| *canister.clone())
+    })
+}
+
+// The oldest local block was stored in the archive: it leaves the ledger in the same step.
+fn commit_archived(id: Principal) {
+    with_blockchain(|blockchain| {
+        if blockchain.local_transactions.pop_front().is_none() {
+            return;
+        }
+        let mut manager = blockchain.archive_canister_manager.write().unwrap();
+        if let Some(archive) = manager.sub_canister_manager.sub_canisters.get_mut(&id) {
+            archive.archive_info.end = Nat::from(blockchain.chain_length);
+        }
+        drop(manager);
+        blockchain.chain_length += 1;
+    })
+}
+
+// A previous run may have been interrupted after the archive stored a block and before the ledger removed it.
+async fn reconcile() -> Result<(), String> {
+    let Some(archive) = current_archive() else {
+        return Ok(());
+    };
+    let (stored,): (u64,) = Call::unbounded_wait(archive.canister_id(), "total_transactions")
+        .await
+        .map_err(|e| format!("{e:?}"))?
+        .candid_tuple()
+        .map_err(|e| format!("{e:?}"))?;
+    let start = archive.archive_info.start;
+
+    while start.clone() + stored > with_blockchain(|blockchain| blockchain.chain_length) {
+        if with_blockchain(|blockchain| blockchain.local_transactions.is_empty()) {
+            break;
+        }
+        commit_archived(archive.archive_info.canister_id);
+    }
+    Ok(())
+}
+
+async fn create_archive(first_block: u64) -> Result<(), String> {
+    let mut manager = with_manager(|manager| manager.clone());
+    let mut init_args = manager.init_args.clone();
+    init_args.archive_config.block_offset = first_block;
+
+    let result = manager
+        .sub_canister_manager
+        .create_canister(ArchiveArgs::Init(init_args))
+        .await;
+
+    if let Ok(archive) = &result {
+        manager
+            .canisters_by_block_id
+            .push((first_block, archive.canister_id()));
+    }
+    with_manager(|current| {
+        current.sub_canister_manager.fund_manager.stop();
+        *current = manager;
+    });
+    result.map(|_| ()).map_err(|e| format!("{e:?}"))
+}
+
+async fn archive_blocks() -> Result<u64, String> {
+    let now = ic_cdk::api::time() as u128;
+    let mut count = 0;
+
+    let oldest_expired = || {
+        with_blockchain(|blockchain| {
+            let ttl = blockchain.ttl_for_non_archived_transactions.as_nanos();
+            blockchain
+                .local_transactions
+                .front()
+                .filter(|(timestamp, _)| timestamp + ttl < now)
+                .map(|(_, block)| (blockchain.chain_length, block.clone()))
+        })
+    };
+
+    if oldest_expired().is_some() {
+        reconcile().await?;
+    }
+    while let Some((block_id, block)) = oldest_expired() {
+        let Some(mut archive) = current_archive() else {
+            create_archive(block_id).await?;
+            continue;
+        };
+        archive.insert_blocks(vec![block]).await?;
+        commit_archived(archive.canister_id());
+        count += 1;
+    }
+    Ok(count)
+}
diff --git a/src/core_nft/src/jobs/mod.rs b/src/core_nft/src/jobs/mod.rs
index 862a125..0afe705 100644
--- a/src/core_nft/src/jobs/mod.rs
+++ b/src/core_nft/src/jobs/mod.rs
@@ -1,5 +1,7 @@
+mod archiver;
 mod upload_garbage_collector;
 
 pub(crate) fn start() {
+    archiver::start_job();
     upload_garbage_collector::start_job();
 }
diff --git a/src/core_nft/src/lifecycle/init.rs b/src/core_nft/src/lifecycle/init.rs
index 394f9e0..58ece73 100644
--- a/src/core_nft/src/lifecycle/init.rs
+++ b/src/core_nft/src/lifecycle/init.rs
@@ -4,7 +4,7 @@ use std::time::Duration;
 use crate::lifecycle::init_canister;
 use crate::lifecycle::Args;
 pub use crate::state::InitApprovalsArg;
-use crate::state::{init_icrc3, start_default_archive_job, Data, RuntimeState};
+use crate::state::{init_icrc3, Data, RuntimeState};
 use crate::types::http::certify_all_assets;
 use crate::types::permissions::{Permission, PermissionManager};
 use crate::types::value_custom::CustomValue as Value;
@@ -174,7 +174,6 @@ fn init(args: Args) {
 
             init_canister(runtime_state);
             init_icrc3(icrc3_config);
-            start_default_archive_job();
             certify_all_assets();
 
             info!("Init complete.")
diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 0021a26..89c9129 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -1,6 +1,6 @@
 use crate::lifecycle::init_canister;
 use crate::memory::get_upgrades_memory;
-use crate::state::{read_state, replace_icrc3, start_default_archive_job, RuntimeState};
+use crate::state::{read_state, replace_icrc3, RuntimeState};
 use crate::types::http::{add_redirection, certify_all_assets};
 use crate::Args;
 
@@ -52,7 +52,6 @@ fn post_upgrade(args: Args) {
             bity_ic_canister_logger::init_with_logs(state.env.is_test_mode(), logs, traces);
             init_canister(state.clone());
             replace_icrc3(icrc3);
-            start_default_archive_job();
             certify_all_assets();
 
             let media_redirections = read_state(|state| state.data.media_redirections.clone());
-- 
2.43.0


From 070b2e9650eeebd03c78d8b98a8456dd1ddfaf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:25 +0000
Subject: [PATCH 29/44] fix: a storage canister is remembered as soon as it is
 installed

---
 src/core_nft/src/types/sub_canister.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core_nft/src/types/sub_canister.rs b/src/core_nft/src/types/sub_canister.rs
index 00f0552..300cc21 100644
--- a/src/core_nft/src/types/sub_canister.rs
+++ b/src/core_nft/src/types/sub_canister.rs
@@ -1,5 +1,6 @@
 use std::collections::HashMap;
 
+use crate::state::mutate_state;
 use crate::types::management::{cancel_upload, finalize_upload, init_upload, store_chunk};
 use crate::utils::trace;
 use bity_ic_storage_canister_c2c::{
@@ -113,6 +114,10 @@ impl StorageSubCanisterManager {
                     "Created a new canister with principal: {:?}",
                     new_canister
                 ));
+                // a trap while the upload is initialized must not lose the installed canister.
+                let manager = self.clone();
+                mutate_state(|state| state.data.sub_canister_manager = manager);
+
                 if let Some(storage_canister) =
                     (*new_canister).as_any().downcast_ref::<StorageCanister>()
                 {
-- 
2.43.0


From aff8e6ac00e175db9fd74a44d293ec6bfec2b74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:58 +0000
Subject: [PATCH 30/44] fix: index get_blocks answers ranges that reach beyond
 2^32, 2^64 or memory

---
 src/index_icrc7/src/update/get_blocks.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/index_icrc7/src/update/get_blocks.rs b/src/index_icrc7/src/update/get_blocks.rs
index 1bc0ff6..0e383aa 100644
--- a/src/index_icrc7/src/update/get_blocks.rs
+++ b/src/index_icrc7/src/update/get_blocks.rs
@@ -5,10 +5,13 @@ use crate::index::{IndexType, IndexValue, SortBy, __INDEX};
 use crate::state::read_state;
 use crate::types::get_blocks;
 
+// a reply of 2 MB has no room for more blocks.
+const MAX_BLOCKS_PER_RESPONSE: u64 = 10_000;
+
 #[update]
 pub async fn get_blocks(args: get_blocks::Args) -> get_blocks::Response {
     let mut start = args.start;
-    let length = args.length;
+    let length = args.length.min(MAX_BLOCKS_PER_RESPONSE);
     let filters = args.filters;
     let sort_by = args.sort_by.unwrap_or(SortBy::Ascending);
 
@@ -17,7 +20,7 @@ pub async fn get_blocks(args: get_blocks::Args) -> get_blocks::Response {
             start = read_state(|state| state.data.last_block_id).saturating_sub(length);
         }
 
-        let block_range: Vec<u64> = (start..start + length).collect();
+        let block_range: Vec<u64> = (start..start.saturating_add(length)).collect();
         match get_all_blocks(block_range, Some(sort_by.clone())).await {
             Ok(gblocks) => gblocks,
             Err(e) => {
@@ -67,8 +70,8 @@ async fn get_blocks_with_filters(
 
     combined_block_ids.sort();
 
-    let start_idx = start as usize;
-    let end_idx = (start + length) as usize;
+    let start_idx = usize::try_from(start).unwrap_or(usize::MAX);
+    let end_idx = usize::try_from(start.saturating_add(length)).unwrap_or(usize::MAX);
 
     if start_idx >= combined_block_ids.len() {
         return Vec::new();
-- 
2.43.0


From 5077ea34dd3b2f664b6d426fdc6a603a49442fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:58 +0000
Subject: [PATCH 31/44] fix: index get_blocks answers a token id above 2^64
 with no blocks

---
 src/index_icrc7/src/update/get_blocks.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/index_icrc7/src/update/get_blocks.rs b/src/index_icrc7/src/update/get_blocks.rs
index 0e383aa..a628d60 100644
--- a/src/index_icrc7/src/update/get_blocks.rs
+++ b/src/index_icrc7/src/update/get_blocks.rs
@@ -45,6 +45,11 @@ async fn get_blocks_with_filters(
     let mut filter_results: Vec<Vec<u64>> = Vec::new();
 
     for filter in filters {
+        // token ids are 64 bits wide, the index has no key for a larger one.
+        if matches!(filter, IndexType::TokenId(id) if u64::try_from(&id.0 .0).is_err()) {
+            return Vec::new();
+        }
+
         let block_ids = __INDEX.with(|index| {
             let index_ref = index.borrow();
             if let Some(IndexValue(block_ids)) = index_ref.get(filter) {
-- 
2.43.0


From df8db64efcfca97f07960c16b67503d7ef5825e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:58 +0000
Subject: [PATCH 32/44] fix: icrc3_get_blocks answers ranges that reach beyond
 the log

---
 src/core_nft/src/queries/icrc3.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core_nft/src/queries/icrc3.rs b/src/core_nft/src/queries/icrc3.rs
index f7b57f6..3a5ce49 100644
--- a/src/core_nft/src/queries/icrc3.rs
+++ b/src/core_nft/src/queries/icrc3.rs
@@ -26,6 +26,17 @@ async fn icrc3_get_archives(_: GetArchivesArg) -> GetArchivesResponse {
 
 #[query]
 fn icrc3_get_blocks(args: GetBlocksArg) -> GetBlocksResult {
+    // the block log walks through every index of a range, so ranges end where the log ends.
+    let log_length = icrc3_get_blocks_impl(vec![]).log_length;
+    let args = args
+        .into_iter()
+        .filter(|arg| arg.start < log_length)
+        .map(|mut arg| {
+            arg.length = arg.length.min(log_length.clone() - arg.start.clone());
+            arg
+        })
+        .collect();
+
     icrc3_get_blocks_impl(args)
 }
 
-- 
2.43.0


From 98f1d398a7198f4d7ceaba69b2f469f3df01a37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:19 +0000
Subject: [PATCH 33/44] fix: the index reads ranges of more than 1000 archived
 blocks completely

---
 src/index_icrc7/src/blocks.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/index_icrc7/src/blocks.rs b/src/index_icrc7/src/blocks.rs
index 99f8a65..9639bb1 100644
--- a/src/index_icrc7/src/blocks.rs
+++ b/src/index_icrc7/src/blocks.rs
@@ -504,6 +504,9 @@ impl TransactionDataExtractor for RevokeCollectionBlock {
     }
 }
 
+// an archive answers a request with at most 1000 blocks.
+const MAX_BLOCKS_PER_REQUEST: usize = 1000;
+
 pub async fn get_all_blocks(
     block_ids: Vec<u64>,
     sort_by: Option<SortBy>,
@@ -552,7 +555,10 @@ pub async fn get_all_blocks(
 
     let ledger_canister_id = read_state(|state| state.data.ledger_canister_id);
 
-    for chunk in chunks {
+    for chunk in chunks
+        .iter()
+        .flat_map(|chunk| chunk.chunks(MAX_BLOCKS_PER_REQUEST))
+    {
         let start = chunk[0];
         let length = chunk.len() as u64;
 
-- 
2.43.0


From 34b8c1cf29c25bc488866c704b398b728cce26c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:04 +0000
Subject: [PATCH 34/44] fix: storage and archive canisters were no longer
 topped up after an upgrade

---
 src/core_nft/src/jobs/archiver.rs          | 10 +++++++++
 src/core_nft/src/jobs/mod.rs               |  2 ++
 src/core_nft/src/lifecycle/post_upgrade.rs |  3 +++
 src/core_nft/src/types/sub_canister.rs     | 25 ++++++++++++++--------
 4 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/core_nft/src/jobs/archiver.rs b/src/core_nft/src/jobs/archiver.rs
index 9ceab73..c1a6446 100644
--- a/src/core_nft/src/jobs/archiver.rs
+++ b/src/core_nft/src/jobs/archiver.rs
@@ -11,6 +11,7 @@ use ic_cdk::call::Call;
 use tracing::{debug, info};
 
 use crate::state::{start_cleanup_job, ICRC3_INSTANCE};
+use crate::types::sub_canister::funding_config;
 
 type ArchiveArgs = <ArchiveCanister as Canister>::ParamType;
 
@@ -39,6 +40,15 @@ pub fn start_job() {
     start_cleanup_job(HOUR_IN_MS);
 }
 
+// The archive manager is serialized without its fund manager: a clone registers the archives again.
+pub(crate) fn restore_archive_funding() {
+    with_manager(|manager| {
+        manager.sub_canister_manager.funding_config = funding_config();
+        let funded = manager.clone();
+        *manager = funded;
+    });
+}
+
 async fn archiver() {
     let Some(_guard) = JobGuard::new() else {
         return;
diff --git a/src/core_nft/src/jobs/mod.rs b/src/core_nft/src/jobs/mod.rs
index 0afe705..df2f656 100644
--- a/src/core_nft/src/jobs/mod.rs
+++ b/src/core_nft/src/jobs/mod.rs
@@ -1,6 +1,8 @@
 mod archiver;
 mod upload_garbage_collector;
 
+pub(crate) use archiver::restore_archive_funding;
+
 pub(crate) fn start() {
     archiver::start_job();
     upload_garbage_collector::start_job();
diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 89c9129..28cf125 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -1,3 +1,4 @@
+use crate::jobs::restore_archive_funding;
 use crate::lifecycle::init_canister;
 use crate::memory::get_upgrades_memory;
 use crate::state::{read_state, replace_icrc3, RuntimeState};
@@ -50,8 +51,10 @@ fn post_upgrade(args: Args) {
             state.env.set_commit_hash(upgrade_args.commit_hash);
 
             bity_ic_canister_logger::init_with_logs(state.env.is_test_mode(), logs, traces);
+            state.data.sub_canister_manager.restore_funding();
             init_canister(state.clone());
             replace_icrc3(icrc3);
+            restore_archive_funding();
             certify_all_assets();
 
             let media_redirections = read_state(|state| state.data.media_redirections.clone());
diff --git a/src/core_nft/src/types/sub_canister.rs b/src/core_nft/src/types/sub_canister.rs
index 300cc21..6552827 100644
--- a/src/core_nft/src/types/sub_canister.rs
+++ b/src/core_nft/src/types/sub_canister.rs
@@ -22,6 +22,16 @@ pub const RESERVED_CYCLES_BALANCE: u128 = 2_000_000_000_000; // 2T cycles
 
 pub use bity_ic_storage_canister_api::lifecycle::Args as ArgsStorage;
 
+pub fn funding_config() -> FundManagerOptions {
+    FundManagerOptions::new()
+        .with_interval_secs(60)
+        .with_strategy(FundStrategy::BelowThreshold(
+            CyclesThreshold::new()
+                .with_min_cycles(1_000_000_000_000)
+                .with_fund_cycles(2_000_000_000_000),
+        ))
+}
+
 #[derive(Serialize, Deserialize, Clone)]
 pub struct StorageSubCanisterManager {
     sub_canister_manager: bity_ic_subcanister_manager::SubCanisterManager<StorageCanister>,
@@ -43,14 +53,6 @@ impl StorageSubCanisterManager {
         commit_hash: String,
         wasm: Vec<u8>,
     ) -> Self {
-        let funding_config = FundManagerOptions::new()
-            .with_interval_secs(60)
-            .with_strategy(FundStrategy::BelowThreshold(
-                CyclesThreshold::new()
-                    .with_min_cycles(1_000_000_000_000)
-                    .with_fund_cycles(2_000_000_000_000),
-            ));
-
         Self {
             sub_canister_manager: bity_ic_subcanister_manager::SubCanisterManager::new(
                 master_canister_id,
@@ -62,13 +64,18 @@ impl StorageSubCanisterManager {
                 test_mode,
                 commit_hash,
                 wasm,
-                funding_config,
+                funding_config(),
             ),
             init_args,
             upgrade_args,
         }
     }
 
+    // the funding configuration is not serialized, every clone of the manager funds its canisters with it.
+    pub fn restore_funding(&mut self) {
+        self.sub_canister_manager.funding_config = funding_config();
+    }
+
     pub async fn init_upload(
         &mut self,
         data: init_upload::Args,
-- 
2.43.0


From 48e6b6f0847959ecd47de9ee8c802b8aa29b992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:32 +0000
Subject: [PATCH 35/44] fix: the command line tool went on with an upload that
 was refused

init_upload and store_chunk answer with a Result; the Err case was ignored, so that a refused
init_upload (path in use) was followed by chunks written into somebody else's upload.
---
 cmdline/src/calls/uploads.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmdline/src/calls/uploads.rs b/cmdline/src/calls/uploads.rs
index 9abc29e..322c58d 100644
--- a/cmdline/src/calls/uploads.rs
+++ b/cmdline/src/calls/uploads.rs
@@ -9,11 +9,14 @@ use url::Url;
 
 pub async fn init(agent: &Agent, canister_id: &Principal, args: init_upload::Args) -> Result<()> {
     let bytes = Encode!(&args)?;
-    agent
+    let response = agent
         .update(canister_id, "init_upload")
         .with_arg(bytes)
         .call_and_wait()
         .await?;
+
+    candid::decode_one::<init_upload::Response>(&response)?
+        .map_err(|e| anyhow::anyhow!("Init upload failed: {:?}", e))?;
     Ok(())
 }
 
@@ -23,11 +26,14 @@ pub async fn store(
     args: store_chunk::Args,
 ) -> Result<()> {
     let bytes = Encode!(&args)?;
-    agent
+    let response = agent
         .update(canister_id, "store_chunk")
         .with_arg(bytes)
         .call_and_wait()
         .await?;
+
+    candid::decode_one::<store_chunk::Response>(&response)?
+        .map_err(|e| anyhow::anyhow!("Store chunk failed: {:?}", e))?;
     Ok(())
 }
 
-- 
2.43.0


From 0da2da04793209b353c9887b1fe6b255e4e28266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:07 +0000
Subject: [PATCH 36/44] fix: the command line tool sent wrong chunks after a
 short read

upload_file read the file a second time, one read() per chunk, and took a short read for the whole
chunk; it now cuts the chunks from the bytes it has hashed.
---
 cmdline/src/calls/uploads.rs | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/cmdline/src/calls/uploads.rs b/cmdline/src/calls/uploads.rs
index 322c58d..9deefe5 100644
--- a/cmdline/src/calls/uploads.rs
+++ b/cmdline/src/calls/uploads.rs
@@ -63,15 +63,11 @@ pub async fn upload_file(
     chunk_size: u64,
 ) -> Result<Url> {
     let mut file = File::open(file_path)?;
-    let metadata = file.metadata()?;
-    let file_size = metadata.len();
-
     let mut buffer = Vec::new();
     file.read_to_end(&mut buffer)?;
     let hash = Sha256::digest(&buffer);
     let file_hash = format!("{:x}", hash);
-
-    let mut file = File::open(file_path)?;
+    let file_size = buffer.len() as u64;
 
     init(
         &agent,
@@ -85,23 +81,15 @@ pub async fn upload_file(
     )
     .await?;
 
-    let total_chunks = (file_size + chunk_size - 1) / chunk_size;
-
-    for i in 0..total_chunks {
-        let mut chunk_data = vec![0; chunk_size as usize];
-        let bytes_read = file.read(&mut chunk_data)?;
-        if bytes_read == 0 {
-            break;
-        }
-
-        chunk_data.truncate(bytes_read);
-
+    // The chunks come from the bytes the hash was computed over: a second read may be short or
+    // see a file that has changed.
+    for (i, chunk) in buffer.chunks(chunk_size as usize).enumerate() {
         store(
             &agent,
             &canister_id,
             store_chunk::Args {
                 chunk_id: Nat::from(i),
-                chunk_data,
+                chunk_data: chunk.to_vec(),
                 file_path: destination_path.to_string(),
             },
         )
-- 
2.43.0


From 3714da01fdfa6b4c169ffb4e555b214a72fd4cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:11 +0000
Subject: [PATCH 37/44] fix: mint -m key:value lost what follows a second colon

A value such as https://host/path was stored as "https", and an entry without a colon was dropped
without a word.
---
 cmdline/src/commands.rs | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/cmdline/src/commands.rs b/cmdline/src/commands.rs
index c789f69..a874d1b 100644
--- a/cmdline/src/commands.rs
+++ b/cmdline/src/commands.rs
@@ -184,25 +184,17 @@ pub async fn handle_mint(
         let mut metadata = Vec::new();
         if let Some(entries) = sub_matches.get_many::<String>("metadata") {
             for entry in entries {
-                let parts: Vec<&str> = entry.split(':').collect();
-                if parts.len() >= 2 {
-                    let key = parts[0].to_string();
-                    let value_str = parts[1];
-                    let value = if let Ok(num) = value_str.parse::<u64>() {
-                        icrc_ledger_types::icrc::generic_value::ICRC3Value::Nat(candid::Nat::from(
-                            num,
-                        ))
-                    } else if let Ok(int) = value_str.parse::<i64>() {
-                        icrc_ledger_types::icrc::generic_value::ICRC3Value::Int(candid::Int::from(
-                            int,
-                        ))
-                    } else {
-                        icrc_ledger_types::icrc::generic_value::ICRC3Value::Text(
-                            value_str.to_string(),
-                        )
-                    };
-                    metadata.push((key, value));
-                }
+                let (key, value_str) = entry.split_once(':').ok_or_else(|| {
+                    anyhow!("Metadata entry '{}' is not of the form key:value", entry)
+                })?;
+                let value = if let Ok(num) = value_str.parse::<u64>() {
+                    icrc_ledger_types::icrc::generic_value::ICRC3Value::Nat(candid::Nat::from(num))
+                } else if let Ok(int) = value_str.parse::<i64>() {
+                    icrc_ledger_types::icrc::generic_value::ICRC3Value::Int(candid::Int::from(int))
+                } else {
+                    icrc_ledger_types::icrc::generic_value::ICRC3Value::Text(value_str.to_string())
+                };
+                metadata.push((key.to_string(), value));
             }
         }
         metadata
-- 
2.43.0


From 7ecd06cebd928d18798dbb0308b7b50d96bf2efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:06 +0000
Subject: [PATCH 38/44] fix: create-metadata dropped malformed attributes and
 wrote null for nan and inf

An attribute that is not of the form trait_type:value[:display_type] was left out or cut short
without a word, and a value such as "nan" or "infinity" parses as a float that JSON cannot hold.
---
 cmdline/src/commands.rs | 29 ++++++++++++++++-------------
 cmdline/src/metadata.rs |  7 +++----
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/cmdline/src/commands.rs b/cmdline/src/commands.rs
index a874d1b..a383901 100644
--- a/cmdline/src/commands.rs
+++ b/cmdline/src/commands.rs
@@ -80,20 +80,23 @@ pub async fn handle_create_metadata(sub_matches: &ArgMatches) -> Result<()> {
         if let Some(attrs) = sub_matches.get_many::<String>("attribute") {
             for attr in attrs {
                 let parts: Vec<&str> = attr.split(':').collect();
-                if parts.len() >= 2 {
-                    let trait_type = parts[0].to_string();
-                    let value = if let Ok(num) = parts[1].parse::<f64>() {
-                        serde_json::json!(num)
-                    } else {
-                        serde_json::json!(parts[1])
-                    };
-                    let display_type = if parts.len() > 2 {
-                        Some(parts[2].to_string())
-                    } else {
-                        None
-                    };
-                    attributes.push((trait_type, value, display_type));
+                if parts.len() != 2 && parts.len() != 3 {
+                    return Err(anyhow!(
+                        "Attribute '{}' is not of the form trait_type:value[:display_type]",
+                        attr
+                    ));
                 }
+                let trait_type = parts[0].to_string();
+                let value = match parts[1].parse::<f64>() {
+                    Ok(num) if num.is_finite() => serde_json::json!(num),
+                    _ => serde_json::json!(parts[1]),
+                };
+                let display_type = if parts.len() > 2 {
+                    Some(parts[2].to_string())
+                } else {
+                    None
+                };
+                attributes.push((trait_type, value, display_type));
             }
         }
 
diff --git a/cmdline/src/metadata.rs b/cmdline/src/metadata.rs
index 2945e23..f029fdc 100644
--- a/cmdline/src/metadata.rs
+++ b/cmdline/src/metadata.rs
@@ -181,10 +181,9 @@ pub fn create_metadata_interactive() -> Result<Value> {
             }
 
             let value_str = prompt_input("Value");
-            let (value, is_number) = if let Ok(num) = value_str.parse::<f64>() {
-                (json!(num), true)
-            } else {
-                (json!(value_str), false)
+            let (value, is_number) = match value_str.parse::<f64>() {
+                Ok(num) if num.is_finite() => (json!(num), true),
+                _ => (json!(value_str), false),
             };
 
             let display_type = prompt_display_type(is_number);
-- 
2.43.0


From 188b34706cdd4ea0692c02bbc85bc96143143d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:26 +0000
Subject: [PATCH 39/44] fix: the command line tool looped for ever, or went on
 with empty answers, at the end of its input

---
 cmdline/src/prompts.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmdline/src/prompts.rs b/cmdline/src/prompts.rs
index accdeb2..97e6202 100644
--- a/cmdline/src/prompts.rs
+++ b/cmdline/src/prompts.rs
@@ -4,7 +4,10 @@ pub fn prompt_input(prompt: &str) -> String {
     print!("{}: ", prompt);
     std::io::stdout().flush().unwrap();
     let mut input = String::new();
-    std::io::stdin().read_line(&mut input).unwrap();
+    if std::io::stdin().read_line(&mut input).unwrap() == 0 {
+        eprintln!("\nError: the input ended before every question was answered");
+        std::process::exit(1);
+    }
     input.trim().to_string()
 }
 
-- 
2.43.0


From b50100c504535d17b141dd50b1a4d1c9cc5050f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:19 +0000
Subject: [PATCH 40/44] fix: creation-time settings beyond 64 bits, or whose
 sum is, no longer trap transfers or refuse requests inside the window

---
 src/core_nft/src/updates/icrc37.rs | 8 ++++----
 src/core_nft/src/updates/icrc7.rs  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index d431107..7e0a330 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -23,9 +23,9 @@ fn verify_approval_timing(created_at_time: u64, current_time: u64) -> Result<(),
         .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT))
         .0
         .try_into()
-        .unwrap_or(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT);
+        .unwrap_or(u64::MAX);
 
-    if created_at_time > current_time + permited_drift {
+    if created_at_time > current_time.saturating_add(permited_drift) {
         return Err((true, current_time));
     }
 
@@ -38,9 +38,9 @@ fn verify_approval_timing(created_at_time: u64, current_time: u64) -> Result<(),
     })
     .0
     .try_into()
-    .unwrap_or(crate::types::icrc7::DEFAULT_TX_WINDOW);
+    .unwrap_or(u64::MAX);
 
-    if created_at_time < current_time.saturating_sub(tx_window + permited_drift) {
+    if created_at_time < current_time.saturating_sub(tx_window.saturating_add(permited_drift)) {
         return Err((false, 0));
     }
 
diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index daff1b5..6c79d2f 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -47,20 +47,20 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
     });
 
     let drift = permitted_drift
-        .map(|d| u64::try_from(d.0).unwrap())
+        .map(|d| u64::try_from(d.0).unwrap_or(u64::MAX))
         .unwrap_or(icrc7::DEFAULT_PERMITTED_DRIFT);
 
-    if time > current_time + drift {
+    if time > current_time.saturating_add(drift) {
         return Err(icrc7::icrc7_transfer::TransferError::CreatedInFuture {
             ledger_time: Nat::from(current_time),
         });
     }
 
     let tx_window = tx_window
-        .map(|d| u64::try_from(d.0).unwrap())
+        .map(|d| u64::try_from(d.0).unwrap_or(u64::MAX))
         .unwrap_or(icrc7::DEFAULT_TX_WINDOW);
 
-    if time < current_time.saturating_sub(tx_window + drift) {
+    if time < current_time.saturating_sub(tx_window.saturating_add(drift)) {
         return Err(icrc7::icrc7_transfer::TransferError::TooOld);
     }
 
-- 
2.43.0


From d1a54cd926b5a672c22cc8ea1471a87db34b38a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:19 +0000
Subject: [PATCH 41/44] fix: limits beyond a machine word no longer trap
 transfers and mints or fall back to the default

---
 src/core_nft/src/queries/icrc7.rs | 10 +++++-----
 src/core_nft/src/updates/icrc7.rs |  2 +-
 src/core_nft/src/utils.rs         |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core_nft/src/queries/icrc7.rs b/src/core_nft/src/queries/icrc7.rs
index 87283a4..f757748 100644
--- a/src/core_nft/src/queries/icrc7.rs
+++ b/src/core_nft/src/queries/icrc7.rs
@@ -184,7 +184,7 @@ pub fn icrc7_token_metadata(
 
     if token_ids.len()
         > usize::try_from(max_query_batch_size.0.clone())
-            .unwrap_or(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE as usize)
+            .unwrap_or(usize::MAX)
     {
         ic_cdk::trap(format!(
             "max_query_batch_size exceeded. Limit is {}. Retry with a smaller batch size.",
@@ -218,7 +218,7 @@ pub fn icrc7_owner_of(token_ids: icrc7::icrc7_owner_of::Args) -> icrc7::icrc7_ow
 
     if token_ids.len()
         > usize::try_from(max_query_batch_size.0.clone())
-            .unwrap_or(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE as usize)
+            .unwrap_or(usize::MAX)
     {
         ic_cdk::trap(format!(
             "max_query_batch_size exceeded. Limit is {}. Retry with a smaller batch size.",
@@ -244,7 +244,7 @@ pub fn icrc7_balance_of(
 
     if accounts.len()
         > usize::try_from(max_query_batch_size.0.clone())
-            .unwrap_or(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE as usize)
+            .unwrap_or(usize::MAX)
     {
         ic_cdk::trap(format!(
             "max_query_batch_size exceeded. Limit is {}. Retry with a smaller batch size.",
@@ -290,7 +290,7 @@ pub fn icrc7_tokens(
             })
             .0,
         )
-        .unwrap_or(icrc7::DEFAULT_TAKE_VALUE);
+        .unwrap_or(usize::MAX);
 
         let mut tokens: Vec<_> = state.data.tokens_list.keys().cloned().collect();
         tokens.sort();
@@ -333,7 +333,7 @@ pub fn icrc7_tokens_of(
             })
             .0,
         )
-        .unwrap_or(icrc7::DEFAULT_TAKE_VALUE);
+        .unwrap_or(usize::MAX);
 
         let mut tokens: Vec<Nat> = state.data.tokens_ids_of_account(&account);
         tokens.sort();
diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index 6c79d2f..dd0a2a9 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -140,7 +140,7 @@ pub async fn icrc7_transfer(args: icrc7::icrc7_transfer::Args) -> icrc7::icrc7_t
         )
     });
 
-    let max_batch_size = usize::try_from(max_update_batch_size.0).unwrap();
+    let max_batch_size = usize::try_from(max_update_batch_size.0).unwrap_or(usize::MAX);
 
     if atomic_batch_transfers && args.len() > max_batch_size {
         return vec![Some(Err(
diff --git a/src/core_nft/src/utils.rs b/src/core_nft/src/utils.rs
index c548667..ca5f32a 100644
--- a/src/core_nft/src/utils.rs
+++ b/src/core_nft/src/utils.rs
@@ -14,7 +14,7 @@ pub fn check_memo(memo: Option<serde_bytes::ByteBuf>) -> Result<(), String> {
             })
             .0,
         )
-        .unwrap();
+        .unwrap_or(usize::MAX);
 
         trace(&format!("Memo Size: {}", memo.len()));
         trace(&format!("Max Memo Size: {}", max_memo_size));
-- 
2.43.0


From 14471c1f4aa22d47c7da5f575bf831ee1f92aa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:28 +0000
Subject: [PATCH 42/44] fix: get_all_uploads started over for an offset beyond
 a machine word

---
 src/core_nft/src/updates/management.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 00bef65..73a722a 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -604,8 +604,8 @@ pub fn get_all_uploads(
 ) -> management::get_all_uploads::Response {
     trace(&format!("prev: {:?}, take: {:?}", prev, take));
     let all_uploads = read_state(|state| state.internal_filestorage.clone());
-    let start: usize = usize::try_from(prev.unwrap_or(Nat::from(0u64)).0).unwrap_or(0);
-    let end: usize = usize::try_from(take.unwrap_or(Nat::from(100u64)).0).unwrap_or(100);
+    let start: usize = usize::try_from(prev.unwrap_or(Nat::from(0u64)).0).unwrap_or(usize::MAX);
+    let end: usize = usize::try_from(take.unwrap_or(Nat::from(100u64)).0).unwrap_or(usize::MAX);
     trace(&format!("start: {:?}, end: {:?}", start, end));
     let filtered_uploads: HashMap<String, UploadState> = all_uploads
         .map
-- 
2.43.0


From 2d591c103bd484c71a0943928b890c0509f2c484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:32 +0000
Subject: [PATCH 43/44] fix: approval listings fell back to ten entries for a
 take beyond a machine word

---
 src/core_nft/src/queries/icrc37.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index eb5c6d0..bab094a 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -20,7 +20,7 @@ fn icrc37_get_token_approvals(
     let mut response = Vec::new();
 
     let take_usize = take
-        .map(|n| usize::try_from(n.0).unwrap_or(10))
+        .map(|n| usize::try_from(n.0).unwrap_or(usize::MAX))
         .unwrap_or(10);
 
     if let Some(approvals_map) = __TOKEN_APPROVALS
@@ -83,7 +83,7 @@ fn icrc37_get_collection_approvals(
 ) -> icrc37_get_collection_approvals::Response {
     let mut response = Vec::new();
     let take_usize = take
-        .map(|n| usize::try_from(n.0).unwrap_or(10))
+        .map(|n| usize::try_from(n.0).unwrap_or(usize::MAX))
         .unwrap_or(10);
 
     let mut all_approvals: Vec<icrc37_get_collection_approvals::CollectionApproval> =
-- 
2.43.0


From a4e4e2990961c61de0eff6f77b9e485e7833541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:05 +0000
Subject: [PATCH 44/44] fix: approval limits beyond a machine word fell back to
 ten

---
 src/core_nft/src/updates/icrc37.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 7e0a330..a41f435 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -132,7 +132,7 @@ fn approve_token(
         ))
         .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     let memo_clone = arg.approval_info.memo.clone();
 
@@ -310,7 +310,7 @@ fn approve_collection(
         ))
         .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     let would_exceed_max_approvals = __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
         collection_approvals
@@ -411,7 +411,7 @@ fn icrc37_revoke_token_approvals(
             ))
             .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     Ok(args
         .into_iter()
@@ -542,7 +542,7 @@ fn icrc37_revoke_collection_approvals(
             ))
             .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     Ok(args
         .into_iter()
-- 
2.43.0

