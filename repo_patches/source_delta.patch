From 9b04d805489140dcc7650ca04951ccda9031ef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 01/36] fix: icrc7_transfer reports a duplicate instead of
 answering Ok without moving the token

---
 src/core_nft/src/updates/icrc7.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index 5c990d6..e9878c5 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -103,7 +103,9 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
         }
         Err(e) => {
             if let bity_ic_icrc3::types::Icrc3Error::DuplicateTransaction { duplicate_of } = e {
-                return Ok(Nat::from(duplicate_of));
+                return Err(icrc7::icrc7_transfer::TransferError::Duplicate {
+                    duplicate_of: Nat::from(duplicate_of),
+                });
             }
             Err(icrc7::icrc7_transfer::TransferError::GenericError {
                 error_code: Nat::from(2u64),
-- 
2.43.0


From fed9fc1e004ea58817c159de0f2610f988ecdb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 02/36] fix: burn_nft removes the token from its owner's list
 and drops its approvals

---
 src/core_nft/src/updates/management.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index bce3aee..aa02741 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -7,6 +7,8 @@ use crate::state::{icrc3_add_transaction, mutate_state, read_state, InternalFile
 use crate::types::http::add_redirection;
 use crate::types::metadata::__METADATA;
 use crate::types::sub_canister::StorageCanister;
+use crate::types::wrapped_types::WrappedNat;
+use crate::types::__TOKEN_APPROVALS;
 use crate::types::{icrc7, management, nft};
 use crate::utils::{check_memo, trace};
 
@@ -365,6 +367,13 @@ pub fn burn_nft(token_id: Nat) -> management::burn_nft::Response {
 
     mutate_state(|state| {
         state.data.tokens_list.remove(&token_id);
+        if let Some(ids) = state.data.tokens_list_by_owner.get_mut(&token.token_owner) {
+            ids.retain(|id| *id != token_id);
+        }
+    });
+
+    __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
+        token_approvals.remove(&WrappedNat::from(token_id));
     });
 
     Ok(())
-- 
2.43.0


From f6c88b92ae2bc16e183737c2b655a7165a4a0070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 03/36] fix: icrc7_transfer ends the approvals given by the
 previous owner

---
 src/core_nft/src/updates/icrc7.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index e9878c5..b4ccfd9 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -2,7 +2,7 @@ use crate::utils::check_memo;
 use crate::utils::trace;
 use crate::{
     state::{icrc3_add_transaction, mutate_state, read_state},
-    types::icrc7,
+    types::{icrc7, wrapped_types::WrappedNat, __TOKEN_APPROVALS},
 };
 use bity_ic_icrc3::transaction::{ICRC7Transaction, ICRC7TransactionData};
 use candid::{Nat, Principal};
@@ -99,6 +99,9 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
                     .or_insert(vec![])
                     .retain(|id| *id != nft.token_id.clone());
             });
+            __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
+                token_approvals.remove(&WrappedNat::from(nft.token_id.clone()));
+            });
             Ok(Nat::from(transaction_id))
         }
         Err(e) => {
-- 
2.43.0


From ba83670a8bfa7354ce2bf65a5fd8280c9efee681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 04/36] fix: icrc37_transfer_from keeps collection approvals
 while the owner still has tokens

---
 src/core_nft/src/updates/icrc37.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index e21b1db..d1a3dbb 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -835,10 +835,12 @@ fn transfer_from(
         token_approvals.remove(&WrappedNat::from(arg.token_id.clone()));
     });
 
-    let has_nfts = __TOKEN_APPROVALS.with_borrow(|token_approvals| {
-        token_approvals
-            .get(&WrappedNat::from(arg.token_id.clone()))
-            .is_some()
+    let has_nfts = read_state(|state| {
+        state
+            .data
+            .tokens_list
+            .values()
+            .any(|token| token.token_owner == arg.from)
     });
 
     if !has_nfts {
-- 
2.43.0


From 9566ffc611597443625b967cdb87eb818de41663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 05/36] fix: ICRC-37 calls refuse the anonymous principal with
 any subaccount

---
 src/core_nft/src/updates/icrc37.rs | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index d1a3dbb..94d2d2a 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -110,12 +110,7 @@ fn approve_token(
         return ApproveTokenResult::Err(ApproveTokenError::Unauthorized);
     }
 
-    let anonymous_account = Account {
-        owner: Principal::anonymous(),
-        subaccount: None,
-    };
-
-    if arg.approval_info.spender == anonymous_account {
+    if arg.approval_info.spender.owner == Principal::anonymous() {
         return ApproveTokenResult::Err(ApproveTokenError::InvalidSpender);
     }
 
@@ -263,12 +258,7 @@ fn approve_collection(
         subaccount: arg.approval_info.from_subaccount,
     };
 
-    let anonymous_account = Account {
-        owner: Principal::anonymous(),
-        subaccount: None,
-    };
-
-    if arg.approval_info.spender == anonymous_account {
+    if arg.approval_info.spender.owner == Principal::anonymous() {
         return ApproveCollectionResult::Err(ApproveCollectionError::InvalidSpender);
     }
 
@@ -699,12 +689,7 @@ fn transfer_from(
         return TransferFromResult::Err(TransferFromError::InvalidRecipient);
     }
 
-    let anonymous_account = Account {
-        owner: Principal::anonymous(),
-        subaccount: None,
-    };
-
-    if arg.to == anonymous_account {
+    if arg.to.owner == Principal::anonymous() {
         return TransferFromResult::Err(TransferFromError::InvalidRecipient);
     }
 
-- 
2.43.0


From 5beb99a56fdc62190fc8efa8a94f751482cf229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 06/36] fix: icrc37_is_approved looks collection approvals up
 under the token's owner and honours expiry

---
 src/core_nft/src/queries/icrc37.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 2cd6bc7..1537978 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -178,24 +178,31 @@ fn icrc37_is_approved(args: icrc37_is_approved::Args) -> icrc37_is_approved::Res
 
             trace(&format!("has_token_approval: {:?}", has_token_approval));
 
-            let has_collection_approval = __COLLECTION_APPROVALS
-                .with_borrow(|collection_approvals| {
-                    collection_approvals.get(&WrappedAccount::from(spender_account.clone()))
+            let owner = state.data.owner_of(&arg.token_id);
+
+            let has_collection_approval = owner
+                .and_then(|owner| {
+                    __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
+                        collection_approvals.get(&WrappedAccount::from(owner))
+                    })
                 })
-                .map(|approval_map| approval_map.0)
-                .unwrap_or(HashMap::new())
-                .iter()
-                .any(|(account, _approval)| {
-                    account.0.owner == spender_account.owner
-                        && account.0.subaccount == spender_account.subaccount
-                });
+                .and_then(|approval_map| {
+                    approval_map
+                        .0
+                        .get(&WrappedAccount::from(spender_account))
+                        .map(|approval| {
+                            approval
+                                .expires_at
+                                .map_or(true, |expires_at| expires_at > current_time)
+                        })
+                })
+                .unwrap_or(false);
 
             trace(&format!(
                 "has_collection_approval: {:?}",
                 has_collection_approval
             ));
 
-            let owner = state.data.owner_of(&arg.token_id);
             let is_owner = owner == Some(from_account);
 
             trace(&format!("is_owner: {:?}", is_owner));
-- 
2.43.0


From 2bc97a80122aed3e5a814c3082409f224d4042c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 07/36] fix: a mint that cannot be logged leaves neither blocks
 nor metadata behind

---
 src/core_nft/src/updates/management.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index aa02741..1341e67 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -172,9 +172,7 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
     for (i, mint_request) in req.mint_requests.iter().enumerate() {
         let token_id = current_token_id.clone() + Nat::from(i as u64);
 
-        let mut new_token =
-            nft::Icrc7Token::new(token_id.clone(), mint_request.token_owner.clone());
-        __METADATA.with_borrow_mut(|m| new_token.add_metadata(m, mint_request.metadata.clone()));
+        let new_token = nft::Icrc7Token::new(token_id.clone(), mint_request.token_owner.clone());
 
         let transaction = ICRC7Transaction::new(
             "7mint".to_string(),
@@ -194,10 +192,14 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
         transactions.push(transaction);
     }
 
-    for transaction in transactions {
+    for (i, transaction) in transactions.into_iter().enumerate() {
         match icrc3_add_transaction(transaction) {
             Ok(_) => {}
             Err(e) => {
+                if i > 0 {
+                    // trap, so that the blocks already logged for this batch are rolled back
+                    ic_cdk::trap(&format!("Failed to log mint transaction: {}", e));
+                }
                 return Err(management::mint::MintError::StorageCanisterError(
                     e.to_string(),
                 ));
@@ -205,6 +207,10 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
         }
     }
 
+    for ((_, new_token, _), mint_request) in new_tokens.iter_mut().zip(&req.mint_requests) {
+        __METADATA.with_borrow_mut(|m| new_token.add_metadata(m, mint_request.metadata.clone()));
+    }
+
     mutate_state(|state| {
         let new_last_token_id =
             current_token_id.clone() + Nat::from(req.mint_requests.len() as u64);
-- 
2.43.0


From ae24028d3414773de48355a00b0d92effc34eddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 08/36] fix: update_nft_metadata keeps the old metadata when
 the update cannot be logged

---
 src/core_nft/src/updates/management.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 1341e67..e0820f5 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -266,6 +266,7 @@ pub fn update_nft_metadata(
                 "icrc7:previous_metadata".to_string(),
                 Icrc3Value::Map(
                     previous_metadata
+                        .clone()
                         .unwrap_or_default()
                         .into_iter()
                         .map(|(k, v)| (k, v.0))
@@ -306,6 +307,12 @@ pub fn update_nft_metadata(
             match icrc3_add_transaction(transaction) {
                 Ok(_) => {}
                 Err(e) => {
+                    __METADATA.with_borrow_mut(|m| {
+                        m.replace_all_data(
+                            Some(token_name_hash.clone()),
+                            previous_metadata.unwrap_or_default(),
+                        )
+                    });
                     return Err(management::update_nft_metadata::UpdateNftMetadataError::StorageCanisterError(
                         e.to_string(),
                     ));
-- 
2.43.0


From 3800386f1d0f1cd2ac5fa1ec33e30b81ff20ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 09/36] fix: init no longer swaps permitted_drift and
 max_canister_storage_threshold

---
 src/core_nft/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_nft/src/state.rs b/src/core_nft/src/state.rs
index 10524b6..dd06a37 100644
--- a/src/core_nft/src/state.rs
+++ b/src/core_nft/src/state.rs
@@ -105,8 +105,8 @@ impl Data {
         max_memo_size: Option<Nat>,
         atomic_batch_transfers: Option<bool>,
         tx_window: Option<Nat>,
-        max_canister_storage_threshold: Option<Nat>,
         permitted_drift: Option<Nat>,
+        max_canister_storage_threshold: Option<Nat>,
         approval_init: InitApprovalsArg,
     ) -> Self {
         let mut authorized_principals = vec![];
-- 
2.43.0


From 272086fa3b0330c5b6922681d7f93b0e9280ea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 10/36] fix: approval listings report the granting subaccount
 and page in a fixed order

---
 src/core_nft/src/queries/icrc37.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 1537978..4c9f0aa 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -30,11 +30,11 @@ fn icrc37_get_token_approvals(
             .0
             .iter()
             .map(
-                |(account, approval)| icrc37_get_token_approvals::TokenApproval {
+                |(_, approval)| icrc37_get_token_approvals::TokenApproval {
                     token_id: token_id.clone(),
                     approval_info: crate::types::icrc37::ApprovalInfo {
                         spender: approval.spender.0.clone(),
-                        from_subaccount: account.0.subaccount,
+                        from_subaccount: approval.from.0.subaccount,
                         expires_at: approval.expires_at,
                         memo: approval.memo.clone().map(serde_bytes::ByteBuf::from),
                         created_at_time: approval.created_at,
@@ -47,6 +47,7 @@ fn icrc37_get_token_approvals(
             b.approval_info
                 .created_at_time
                 .cmp(&a.approval_info.created_at_time)
+                .then_with(|| a.approval_info.spender.cmp(&b.approval_info.spender))
         });
 
         let start_index = if let Some(prev_approval) = prev {
@@ -94,10 +95,10 @@ fn icrc37_get_collection_approvals(
             .unwrap_or(HashMap::new())
             .iter()
             .map(
-                |(account, approval)| icrc37_get_collection_approvals::CollectionApproval {
+                |(_, approval)| icrc37_get_collection_approvals::CollectionApproval {
                     approval_info: crate::types::icrc37::ApprovalInfo {
                         spender: approval.spender.0.clone(),
-                        from_subaccount: account.0.subaccount,
+                        from_subaccount: approval.from.0.subaccount,
                         expires_at: approval.expires_at,
                         memo: approval.memo.clone().map(serde_bytes::ByteBuf::from),
                         created_at_time: approval.created_at,
@@ -110,6 +111,7 @@ fn icrc37_get_collection_approvals(
         b.approval_info
             .created_at_time
             .cmp(&a.approval_info.created_at_time)
+            .then_with(|| a.approval_info.spender.cmp(&b.approval_info.spender))
     });
 
     let start_index = if let Some(prev_approval) = prev {
-- 
2.43.0


From e8aa02baea7b8f62f507247ff2aed5d4c2078ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 11/36] fix: revoking answers ApprovalDoesNotExist for an
 absent spender and accepts an empty request

---
 src/core_nft/src/updates/icrc37.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 94d2d2a..0056c0f 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -372,6 +372,10 @@ fn icrc37_revoke_token_approvals(
 ) -> icrc37_revoke_token_approvals::Response {
     let caller = ic_cdk::api::msg_caller();
 
+    if args.is_empty() {
+        return Ok(vec![]);
+    }
+
     match guard_sliding_window(args[0].token_id.clone()) {
         Err(e) => {
             return icrc37_revoke_token_approvals::Response::Err(
@@ -462,7 +466,12 @@ fn revoke_token_approvals(
     let mut approval_map = token_approvals.unwrap().0;
 
     if let Some(spender) = &arg.spender {
-        approval_map.remove(&WrappedAccount::from(spender.clone()));
+        if approval_map
+            .remove(&WrappedAccount::from(spender.clone()))
+            .is_none()
+        {
+            return RevokeTokenApprovalResponse::Err(RevokeTokenApprovalError::ApprovalDoesNotExist);
+        }
     } else {
         approval_map.clear();
     };
@@ -589,7 +598,14 @@ fn revoke_collection_approvals(
     let mut approval_map = collection_approvals.unwrap().0;
 
     if let Some(spender) = &arg.spender {
-        approval_map.remove(&WrappedAccount::from(spender.clone()));
+        if approval_map
+            .remove(&WrappedAccount::from(spender.clone()))
+            .is_none()
+        {
+            return RevokeCollectionApprovalResult::Err(
+                RevokeCollectionApprovalError::ApprovalDoesNotExist,
+            );
+        }
     } else {
         approval_map.clear();
     }
-- 
2.43.0


From 3dbd2e5d86b95850dec8146d6fb996523985b2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 12/36] fix: icrc37_revoke_collection_approvals honours
 from_subaccount

---
 src/core_nft/src/updates/icrc37.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 0056c0f..3626e5a 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -582,7 +582,7 @@ fn revoke_collection_approvals(
 
     let from_account = Account {
         owner: caller,
-        subaccount: None,
+        subaccount: arg.from_subaccount,
     };
 
     let collection_approvals = __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
-- 
2.43.0


From 402a0555a4ab90e0cd2e038396874ffba91f0dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 13/36] fix: ICRC-37 calls apply the same age limit (window
 plus drift) as icrc7_transfer

---
 src/core_nft/src/updates/icrc37.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 3626e5a..32f75d4 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -19,16 +19,13 @@ use std::collections::HashMap;
 use crate::guards::guard_sliding_window;
 
 fn verify_approval_timing(created_at_time: u64, current_time: u64) -> Result<(), (bool, u64)> {
-    let permited_drift = read_state(|state| state.data.permitted_drift.clone())
-        .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT));
+    let permited_drift: u64 = read_state(|state| state.data.permitted_drift.clone())
+        .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT))
+        .0
+        .try_into()
+        .unwrap_or(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT);
 
-    if created_at_time
-        > current_time
-            + permited_drift
-                .0
-                .try_into()
-                .unwrap_or(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT)
-    {
+    if created_at_time > current_time.saturating_add(permited_drift) {
         return Err((true, current_time));
     }
 
@@ -40,7 +37,9 @@ fn verify_approval_timing(created_at_time: u64, current_time: u64) -> Result<(),
             .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_TX_WINDOW))
     });
 
-    if created_at_time + tx_window.0.try_into().unwrap_or(0) < current_time {
+    let tx_window: u64 = tx_window.0.try_into().unwrap_or(0);
+
+    if created_at_time < current_time.saturating_sub(tx_window.saturating_add(permited_drift)) {
         return Err((false, 0));
     }
 
-- 
2.43.0


From 3b93ae98e47e2b2821f5fba21102adbdfd34409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:30 +0000
Subject: [PATCH 14/36] fix: recent transactions with integer metadata no
 longer make an upgrade trap

---
 src/core_nft/src/lifecycle/post_upgrade.rs | 12 ++++++++++--
 src/core_nft/src/lifecycle/pre_upgrade.rs  |  9 ++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 746684b..25fc156 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -10,8 +10,9 @@ use bity_ic_icrc3::icrc3::ICRC3;
 use bity_ic_stable_memory::get_reader;
 use bity_ic_types::BuildVersion;
 
-use candid::CandidType;
+use candid::{CandidType, Decode};
 use ic_cdk_macros::post_upgrade;
+use icrc_ledger_types::icrc::generic_value::ICRC3Value;
 use serde::{Deserialize, Serialize};
 use tracing::info;
 
@@ -34,7 +35,7 @@ fn post_upgrade(args: Args) {
             let reader = get_reader(&memory);
 
             // uncomment these lines if you want to do a normal upgrade
-            let (mut state, logs, traces, icrc3): (RuntimeState, Vec<LogEntry>, Vec<LogEntry>, ICRC3) = bity_ic_serializer
+            let (mut state, logs, traces, mut icrc3): (RuntimeState, Vec<LogEntry>, Vec<LogEntry>, ICRC3) = bity_ic_serializer
                 ::deserialize(reader)
                 .unwrap();
 
@@ -46,6 +47,13 @@ fn post_upgrade(args: Args) {
             // ) = serializer::deserialize(reader).unwrap();
             // let mut state = RuntimeState::from(runtime_state_v0);
 
+            // see pre_upgrade
+            for transaction in icrc3.ledger.iter_mut() {
+                if let ICRC3Value::Blob(encoded) = transaction {
+                    *transaction = Decode!(encoded, ICRC3Value).unwrap();
+                }
+            }
+
             state.env.set_version(upgrade_args.version);
             state.env.set_commit_hash(upgrade_args.commit_hash);
 
diff --git a/src/core_nft/src/lifecycle/pre_upgrade.rs b/src/core_nft/src/lifecycle/pre_upgrade.rs
index 6947fad..9d9df54 100644
--- a/src/core_nft/src/lifecycle/pre_upgrade.rs
+++ b/src/core_nft/src/lifecycle/pre_upgrade.rs
@@ -4,7 +4,9 @@ use crate::{
 };
 use bity_ic_canister_tracing_macros::trace;
 use bity_ic_stable_memory::get_writer;
+use candid::Encode;
 use ic_cdk_macros::pre_upgrade;
+use icrc_ledger_types::icrc::generic_value::ICRC3Value;
 use tracing::info;
 
 #[pre_upgrade]
@@ -13,7 +15,12 @@ fn pre_upgrade() {
     info!("Pre upgrade.");
 
     let runtime_state = take_state();
-    let icrc3 = take_icrc3();
+    let mut icrc3 = take_icrc3();
+
+    // `candid::Int` does not survive the serializer, so recent transactions travel candid-encoded
+    for transaction in icrc3.iter_mut().flat_map(|icrc3| icrc3.ledger.iter_mut()) {
+        *transaction = ICRC3Value::Blob(Encode!(transaction).unwrap().into());
+    }
 
     let logs = bity_ic_canister_logger::export_logs();
     let traces = bity_ic_canister_logger::export_traces();
-- 
2.43.0


From 9bd6c033b894df5611573e77a3a25f2d12a59acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:55 +0000
Subject: [PATCH 15/36] fix: init_upload keeps track of a storage canister it
 created even when the upload then fails

---
 src/core_nft/src/updates/management.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index e0820f5..0a62f83 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -404,7 +404,14 @@ pub async fn init_upload(data: init_upload::Args) -> init_upload::Response {
 
     let mut sub_canister_manager = read_state(|state| state.data.sub_canister_manager.clone());
 
-    let canister = match sub_canister_manager.init_upload(data.clone()).await {
+    let result = sub_canister_manager.init_upload(data.clone()).await;
+
+    // even a failed upload may have created a storage canister
+    mutate_state(|state| {
+        state.data.sub_canister_manager = sub_canister_manager;
+    });
+
+    let canister = match result {
         Ok((_, canister)) => canister,
         Err(e) => {
             trace(&format!("Error inserting data: {:?}", e));
@@ -413,7 +420,6 @@ pub async fn init_upload(data: init_upload::Args) -> init_upload::Response {
     };
 
     mutate_state(|state| {
-        state.data.sub_canister_manager = sub_canister_manager;
         state.internal_filestorage.insert(
             data.file_path.clone(),
             InternalFilestorageData {
-- 
2.43.0


From da886b73c3a4f312cec47f6e65581545c9d87550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:19 +0000
Subject: [PATCH 16/36] fix: an upgrade during a management call no longer
 locks management calls for good

---
 src/core_nft/src/lifecycle/post_upgrade.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 25fc156..9625c9e 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -56,6 +56,8 @@ fn post_upgrade(args: Args) {
 
             state.env.set_version(upgrade_args.version);
             state.env.set_commit_hash(upgrade_args.commit_hash);
+            // calls that were in progress do not survive the upgrade
+            state.principal_guards.clear();
 
             bity_ic_canister_logger::init_with_logs(state.env.is_test_mode(), logs, traces);
             init_canister(state.clone());
-- 
2.43.0


From 74da67b84762af143fbaa39723958e897f8e1db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:03 +0000
Subject: [PATCH 17/36] fix: the service pages are certified again after an
 upgrade

---
 src/core_nft/src/lifecycle/post_upgrade.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 9625c9e..5a923b0 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -1,7 +1,7 @@
 use crate::lifecycle::init_canister;
 use crate::memory::get_upgrades_memory;
 use crate::state::{read_state, replace_icrc3, start_default_archive_job, RuntimeState};
-use crate::types::http::add_redirection;
+use crate::types::http::{add_redirection, certify_all_assets};
 use crate::Args;
 
 use bity_ic_canister_logger::LogEntry;
@@ -63,6 +63,7 @@ fn post_upgrade(args: Args) {
             init_canister(state.clone());
             replace_icrc3(icrc3);
             start_default_archive_job();
+            certify_all_assets();
 
             let media_redirections = read_state(|state| state.data.media_redirections.clone());
             for (path, redirection_url) in media_redirections {
-- 
2.43.0


From 2844abadc08f0c448b43a99773c2bf987b33cd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:24 +0000
Subject: [PATCH 18/36] fix: the daily clean-up cancels stale unfinished
 uploads instead of fresh ones, and forgets them

---
 .../src/jobs/upload_garbage_collector.rs       | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/core_nft/src/jobs/upload_garbage_collector.rs b/src/core_nft/src/jobs/upload_garbage_collector.rs
index 64aac02..904a5c5 100644
--- a/src/core_nft/src/jobs/upload_garbage_collector.rs
+++ b/src/core_nft/src/jobs/upload_garbage_collector.rs
@@ -1,11 +1,12 @@
 use std::time::Duration;
 
-use bity_ic_canister_time::{run_interval, DAY_IN_MS};
+use bity_ic_canister_time::{run_interval, DAY_IN_MS, NANOS_PER_MILLISECOND};
 use bity_ic_storage_canister_api::cancel_upload;
+use bity_ic_storage_canister_api::types::storage::UploadState;
 use bity_ic_storage_canister_c2c::cancel_upload;
 use tracing::{debug, info};
 
-use crate::state::read_state;
+use crate::state::{mutate_state, read_state};
 
 pub fn start_job() {
     run_interval(
@@ -22,7 +23,10 @@ async fn upload_garbage_collector() {
     let all_files = read_state(|state| state.internal_filestorage.get_all_files().clone());
 
     for (file_path, file) in all_files {
-        if file.init_timestamp + DAY_IN_MS > ic_cdk::api::time() {
+        // only unfinished uploads that have been around for more than a day
+        if file.state != UploadState::Finalized
+            && file.init_timestamp + DAY_IN_MS * NANOS_PER_MILLISECOND < ic_cdk::api::time()
+        {
             let result = cancel_upload(
                 file.canister,
                 cancel_upload::Args {
@@ -32,9 +36,15 @@ async fn upload_garbage_collector() {
             .await;
 
             match result {
-                Ok(_) => {
+                Ok(Ok(_)) => {
+                    mutate_state(|state| {
+                        state.internal_filestorage.remove(&file_path);
+                    });
                     debug!("Successfully canceled upload for file {}", file_path);
                 }
+                Ok(Err(err)) => {
+                    info!("Failed to cancel upload for file {}: {:?}", file_path, err);
+                }
                 Err(err) => {
                     info!("Failed to cancel upload for file {}: {:?}", file_path, err);
                 }
-- 
2.43.0


From 43b395f309c2c0b70bfec42fad1244b6313eb0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:04 +0000
Subject: [PATCH 19/36] fix: index jobs that overlap or get a gap in the blocks
 no longer skip or repeat blocks

---
 src/index_icrc7/src/jobs.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/index_icrc7/src/jobs.rs b/src/index_icrc7/src/jobs.rs
index 40df08e..fe79291 100644
--- a/src/index_icrc7/src/jobs.rs
+++ b/src/index_icrc7/src/jobs.rs
@@ -35,15 +35,26 @@ fn update_index_job() {
 }
 
 async fn update_index() {
-    let mut last_block_id: u64 = read_state(|state| state.data.last_block_id);
+    let first_block_id: u64 = read_state(|state| state.data.last_block_id);
 
     // Generate block IDs array starting from last_block_id and incrementing
-    let block_ids: Vec<u64> = (last_block_id..last_block_id + BLOCK_BATCH_SIZE).collect();
+    let block_ids: Vec<u64> = (first_block_id..first_block_id + BLOCK_BATCH_SIZE).collect();
 
     let blocks = get_all_blocks(block_ids, None).await;
+
+    // another run may have gone further while this one waited for its blocks
+    let mut last_block_id: u64 = read_state(|state| state.data.last_block_id);
+
     match blocks {
         Ok(blocks) => {
             for block in blocks {
+                if block.id < last_block_id {
+                    continue;
+                }
+                // never skip a block: the missing ones are fetched by a later run
+                if block.id != last_block_id {
+                    break;
+                }
                 match add_block_to_index(&block) {
                     Ok(_) => {
                         last_block_id += 1;
-- 
2.43.0


From c13865887e1a951359a2a112e7992638d0caeb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:04 +0000
Subject: [PATCH 20/36] fix: the index finds approved transfers by token and
 collection approvals by spender

---
 src/index_icrc7/src/blocks.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/index_icrc7/src/blocks.rs b/src/index_icrc7/src/blocks.rs
index aee2cd0..99f8a65 100644
--- a/src/index_icrc7/src/blocks.rs
+++ b/src/index_icrc7/src/blocks.rs
@@ -354,7 +354,20 @@ impl TransactionDataExtractor for TransferFromBlock {
     }
 
     fn extract_token_id(&self, data: &ICRC3Value) -> Result<Option<WrappedNat>, String> {
-        return Ok(None);
+        match data {
+            ICRC3Value::Map(map) => {
+                if let Some(ICRC3Value::Map(tx)) = map.get("tx") {
+                    if let Some(ICRC3Value::Nat(token_id)) = tx.get("tid") {
+                        Ok(Some(WrappedNat(token_id.clone())))
+                    } else {
+                        Err("Missing or invalid token ID field".to_string())
+                    }
+                } else {
+                    Err("Invalid transaction data".to_string())
+                }
+            }
+            _ => Err("TransferFrom transaction data must be a map".to_string()),
+        }
     }
 }
 
@@ -405,6 +418,11 @@ impl TransactionDataExtractor for CollectionApproveBlock {
                             accounts.push(account);
                         }
                     }
+                    if let Some(ICRC3Value::Text(spender)) = tx.get("spender") {
+                        if let Ok(account) = WrappedAccount::from_str(spender) {
+                            accounts.push(account);
+                        }
+                    }
                 }
                 Ok(accounts)
             }
-- 
2.43.0


From 0e42e1a375cc14d110ee1d727873bab12ba21449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:04 +0000
Subject: [PATCH 21/36] fix: the index lists a block once for an account that
 has several parts in it

---
 src/index_icrc7/src/index.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/index_icrc7/src/index.rs b/src/index_icrc7/src/index.rs
index 0c70b1d..ebb8a52 100644
--- a/src/index_icrc7/src/index.rs
+++ b/src/index_icrc7/src/index.rs
@@ -9,7 +9,7 @@ use icrc_ledger_types::icrc3::blocks::BlockWithId;
 use minicbor::{Decode, Encode};
 use serde::{Deserialize, Serialize};
 use std::borrow::Cow;
-use std::collections::VecDeque;
+use std::collections::{BTreeSet, VecDeque};
 use std::str::FromStr;
 
 #[derive(
@@ -91,7 +91,12 @@ pub fn add_block_to_index(block: &BlockWithId) -> Result<(), String> {
     };
 
     let block_instance = get_block_instance(&block_type);
-    let accounts = block_instance.extract_accounts(data).unwrap_or_default();
+    // an account may have several parts in one block
+    let accounts: BTreeSet<_> = block_instance
+        .extract_accounts(data)
+        .unwrap_or_default()
+        .into_iter()
+        .collect();
     let token_id = block_instance.extract_token_id(data).unwrap_or_default();
     let _timestamp = block_instance.extract_timestamp(data).unwrap_or_default();
 
-- 
2.43.0


From ad8e7b971d220f79760b4b572b376cec7fa3ee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:04 +0000
Subject: [PATCH 22/36] fix: the index's daily cache clean-up no longer traps

---
 src/index_icrc7/src/cache.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/index_icrc7/src/cache.rs b/src/index_icrc7/src/cache.rs
index cf8e02f..6e6f666 100644
--- a/src/index_icrc7/src/cache.rs
+++ b/src/index_icrc7/src/cache.rs
@@ -68,16 +68,17 @@ pub fn try_get_value_with_timestamp(key: u64) -> Option<(u64, CustomValue)> {
 
 pub fn remove_all_values_older_than(timestamp: &u64) -> bool {
     __CACHE.with(|cache| {
-        cache
-            .borrow()
+        let mut cache = cache.borrow_mut();
+
+        let old_keys = cache
             .iter()
             .filter(|(_, entry)| entry.timestamp < *timestamp)
             .map(|(key, _)| key)
-            .collect::<Vec<_>>()
-            .into_iter()
-            .for_each(|key| {
-                cache.borrow_mut().remove(&key);
-            });
+            .collect::<Vec<_>>();
+
+        for key in old_keys {
+            cache.remove(&key);
+        }
 
         true
     })
-- 
2.43.0


From 30133714be0c68902d3d0ea71ed3b59488b36d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:04 +0000
Subject: [PATCH 23/36] fix: filtered index pages with a large start or length
 are no longer wrong or trap

---
 src/index_icrc7/src/update/get_blocks.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/index_icrc7/src/update/get_blocks.rs b/src/index_icrc7/src/update/get_blocks.rs
index 1bc0ff6..ab7f0a7 100644
--- a/src/index_icrc7/src/update/get_blocks.rs
+++ b/src/index_icrc7/src/update/get_blocks.rs
@@ -67,14 +67,15 @@ async fn get_blocks_with_filters(
 
     combined_block_ids.sort();
 
-    let start_idx = start as usize;
-    let end_idx = (start + length) as usize;
+    // usize has 32 bits here: clamp before converting
+    let count = combined_block_ids.len() as u64;
 
-    if start_idx >= combined_block_ids.len() {
+    if start >= count {
         return Vec::new();
     }
 
-    let end_idx = end_idx.min(combined_block_ids.len());
+    let start_idx = start as usize;
+    let end_idx = start.saturating_add(length).min(count) as usize;
     let paginated_block_ids = &combined_block_ids[start_idx..end_idx];
 
     let block_range: Vec<u64> = paginated_block_ids.to_vec();
-- 
2.43.0


From 8e96e4fc101b9b8a8af096ad910b035c122254a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:53 +0000
Subject: [PATCH 24/36] fix: an atomic batch of transfers is performed as a
 whole or not at all

---
 src/core_nft/src/updates/icrc37.rs | 14 ++++++++++++++
 src/core_nft/src/updates/icrc7.rs  | 15 ++++++++++++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 32f75d4..9e2da5f 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -660,6 +660,20 @@ fn icrc37_transfer_from(args: icrc37_transfer_from::Args) -> icrc37_transfer_fro
         results.push(Some(result));
     }
 
+    // an atomic batch is performed as a whole or not at all: a trap undoes what was accepted
+    if read_state(|state| state.data.atomic_batch_transfers.unwrap_or(false)) {
+        let is_ok = |result: &&Option<_>| {
+            matches!(
+                result,
+                Some(icrc37_transfer_from::TransferFromResult::Ok(_))
+            )
+        };
+        let failed = results.iter().find(|result| !is_ok(result));
+        if let (Some(failed), true) = (failed, results.iter().any(|result| is_ok(&result))) {
+            ic_cdk::trap(&format!("Atomic batch transfer failed: {:?}", failed));
+        }
+    }
+
     Ok(results)
 }
 
diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index b4ccfd9..1ca2555 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -156,9 +156,18 @@ pub async fn icrc7_transfer(args: icrc7::icrc7_transfer::Args) -> icrc7::icrc7_t
     }
 
     // Process only up to max_batch_size transfers
-    args.iter()
+    let results: Vec<_> = args
+        .iter()
         .take(max_batch_size)
         .map(transfer_nft)
-        .map(Some)
-        .collect()
+        .collect();
+
+    // an atomic batch is performed as a whole or not at all: a trap undoes what was accepted
+    if atomic_batch_transfers && results.iter().any(|result| result.is_ok()) {
+        if let Some(Err(e)) = results.iter().find(|result| result.is_err()) {
+            ic_cdk::trap(&format!("Atomic batch transfer failed: {:?}", e));
+        }
+    }
+
+    results.into_iter().map(Some).collect()
 }
-- 
2.43.0


From a2fd3537c96aaf5ea7821b17b45d9ab19fa4efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:53 +0000
Subject: [PATCH 25/36] fix: the consent message for icrc37_approve_collection
 names every spender and answers an empty batch

---
 src/core_nft/src/queries/icrc21.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/queries/icrc21.rs b/src/core_nft/src/queries/icrc21.rs
index ff62ad3..8bbfbb2 100644
--- a/src/core_nft/src/queries/icrc21.rs
+++ b/src/core_nft/src/queries/icrc21.rs
@@ -144,7 +144,14 @@ fn handle_approve_collection_consent(args: icrc21::Args) -> icrc21::Response {
                 ));
             }
 
-            let generic_message = format!("You are about to approve {} to transfer all your nft available in the collection. Method: icrc37_approve_collection", approve_args.first().unwrap().approval_info.spender.owner);
+            // the batch may name several spenders, or none
+            let spenders = approve_args
+                .iter()
+                .map(|arg| arg.approval_info.spender.owner.to_string())
+                .collect::<Vec<_>>()
+                .join(", ");
+
+            let generic_message = format!("You are about to approve {} to transfer all your nft available in the collection. Method: icrc37_approve_collection", if spenders.is_empty() { "nobody" } else { spenders.as_str() });
 
             create_consent_info(generic_message, args.user_preferences.metadata)
         }
-- 
2.43.0


From 096131e5d2b17b79fe55da1c4a1ed5aa90ed27f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:55 +0000
Subject: [PATCH 26/36] fix: the ledger refuses repeated transactions for as
 long as they are accepted, and no longer refuses the sixth in a batch

---
 src/core_nft/src/lifecycle/init.rs         | 16 +++++++--------
 src/core_nft/src/lifecycle/post_upgrade.rs |  5 ++++-
 src/core_nft/src/state.rs                  | 23 ++++++++++++++++++++++
 src/core_nft/src/updates/management.rs     |  6 +++++-
 4 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/core_nft/src/lifecycle/init.rs b/src/core_nft/src/lifecycle/init.rs
index a384e9f..85a1849 100644
--- a/src/core_nft/src/lifecycle/init.rs
+++ b/src/core_nft/src/lifecycle/init.rs
@@ -4,7 +4,9 @@ use std::time::Duration;
 use crate::lifecycle::init_canister;
 use crate::lifecycle::Args;
 pub use crate::state::InitApprovalsArg;
-use crate::state::{init_icrc3, start_default_archive_job, Data, RuntimeState};
+use crate::state::{
+    init_icrc3, start_default_archive_job, update_ledger_window, Data, RuntimeState,
+};
 use crate::types::http::certify_all_assets;
 use crate::types::permissions::{Permission, PermissionManager};
 use crate::types::value_custom::CustomValue as Value;
@@ -83,7 +85,7 @@ fn init(args: Args) {
                 init_args.default_take_value,
                 init_args.max_memo_size,
                 init_args.atomic_batch_transfers,
-                init_args.tx_window.clone(),
+                init_args.tx_window,
                 init_args.permitted_drift,
                 init_args.max_canister_storage_threshold,
                 init_args.approval_init.clone(),
@@ -104,11 +106,6 @@ fn init(args: Args) {
                     .grant_permission(env.caller(), Permission::ReadUploads);
             }
 
-            let _tx_window = match init_args.tx_window {
-                Some(tx_window) => Duration::from_millis(u64::try_from(tx_window.0).unwrap()),
-                None => Duration::from_secs(0),
-            };
-
             let approval_init = data.approval_init.clone();
 
             if approval_init.max_revoke_approvals == Some(Nat::from(0u64)) {
@@ -158,8 +155,8 @@ fn init(args: Args) {
                 }
                 ],
                 constants: ICRC3Properties::new(
-                    _tx_window,
-                    10,
+                    Duration::from_secs(0), // this and the next: see update_ledger_window
+                    0,
                     6 * 1024 * 1024,
                     2 * 1024 * 1024,
                     5_000_000_000_000,
@@ -174,6 +171,7 @@ fn init(args: Args) {
 
             init_canister(runtime_state);
             init_icrc3(icrc3_config);
+            update_ledger_window();
             start_default_archive_job();
             certify_all_assets();
 
diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 5a923b0..dcbe5d9 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -1,6 +1,8 @@
 use crate::lifecycle::init_canister;
 use crate::memory::get_upgrades_memory;
-use crate::state::{read_state, replace_icrc3, start_default_archive_job, RuntimeState};
+use crate::state::{
+    read_state, replace_icrc3, start_default_archive_job, update_ledger_window, RuntimeState,
+};
 use crate::types::http::{add_redirection, certify_all_assets};
 use crate::Args;
 
@@ -62,6 +64,7 @@ fn post_upgrade(args: Args) {
             bity_ic_canister_logger::init_with_logs(state.env.is_test_mode(), logs, traces);
             init_canister(state.clone());
             replace_icrc3(icrc3);
+            update_ledger_window();
             start_default_archive_job();
             certify_all_assets();
 
diff --git a/src/core_nft/src/state.rs b/src/core_nft/src/state.rs
index dd06a37..d308003 100644
--- a/src/core_nft/src/state.rs
+++ b/src/core_nft/src/state.rs
@@ -1,3 +1,4 @@
+use crate::types::icrc7;
 use crate::types::nft::Icrc7Token;
 use crate::types::permissions::{Permission, PermissionManager};
 use crate::types::sub_canister;
@@ -26,6 +27,28 @@ const STORAGE_WASM: &[u8] = include_bytes!("../../../wasm/storage_canister.wasm.
 icrc3_state!();
 canister_state!(RuntimeState);
 
+/// Beyond half of this many transactions within the window, the ledger refuses further ones.
+const MAX_TRANSACTIONS_IN_WINDOW: u128 = 1_000_000;
+
+/// The ledger remembers a transaction, to refuse its repetition, for as long as its creation time is accepted.
+pub fn update_ledger_window() {
+    let nanos = |n: Option<Nat>, default: u64| n.map_or(default, |n| n.0.try_into().unwrap_or(u64::MAX));
+    let (window, drift) = read_state(|state| {
+        (
+            nanos(state.data.tx_window.clone(), icrc7::DEFAULT_TX_WINDOW),
+            nanos(state.data.permitted_drift.clone(), icrc7::DEFAULT_PERMITTED_DRIFT),
+        )
+    });
+
+    if let Some(icrc3) = ICRC3_INSTANCE.write().unwrap().as_mut() {
+        let constants = &mut icrc3.icrc3_config.constants;
+        // a creation time may lie `drift` ahead of the block, and is accepted until `drift` after the window
+        constants.tx_window =
+            Duration::from_nanos(window.saturating_add(drift.saturating_mul(2)));
+        constants.max_transactions_in_window = MAX_TRANSACTIONS_IN_WINDOW;
+    }
+}
+
 #[derive(Serialize, Deserialize, Clone)]
 pub struct RuntimeState {
     pub env: CanisterEnv,
diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 0a62f83..96fa58e 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -3,7 +3,9 @@ use crate::guards::{
     caller_has_read_uploads_permission, caller_has_update_collection_metadata_permission,
     caller_has_update_metadata_permission, caller_has_update_uploads_permission, GuardManagement,
 };
-use crate::state::{icrc3_add_transaction, mutate_state, read_state, InternalFilestorageData};
+use crate::state::{
+    icrc3_add_transaction, mutate_state, read_state, update_ledger_window, InternalFilestorageData,
+};
 use crate::types::http::add_redirection;
 use crate::types::metadata::__METADATA;
 use crate::types::sub_canister::StorageCanister;
@@ -119,6 +121,8 @@ pub async fn update_collection_metadata(
         });
     }
 
+    update_ledger_window();
+
     Ok(())
 }
 
-- 
2.43.0


From b2584789450d57f8d735e7a0631284fb72abdb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:17 +0000
Subject: [PATCH 27/36] fix: a transfer_from or revocation without a creation
 time is not mistaken for an earlier one

---
 src/core_nft/src/updates/icrc37.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 9e2da5f..8a32c86 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -475,7 +475,7 @@ fn revoke_token_approvals(
         approval_map.clear();
     };
 
-    let created_at_time = arg.created_at_time.map(|t| Nat::from(t));
+    let created_at_time = Some(Nat::from(arg.created_at_time.unwrap_or(current_time)));
 
     let transaction = ICRC37Transaction::new(
         "37revoke".to_string(),
@@ -609,7 +609,7 @@ fn revoke_collection_approvals(
         approval_map.clear();
     }
 
-    let created_at_time = arg.created_at_time.map(|t| Nat::from(t));
+    let created_at_time = Some(Nat::from(arg.created_at_time.unwrap_or(current_time)));
 
     let transaction = ICRC37Transaction::new(
         "37revoke_coll".to_string(),
@@ -796,7 +796,7 @@ fn transfer_from(
             from: Some(arg.from.clone()),
             to: Some(arg.to.clone()),
             memo: arg.memo,
-            created_at_time: arg.created_at_time.map(Nat::from),
+            created_at_time: Some(Nat::from(arg.created_at_time.unwrap_or(current_time))),
             spender: Some(spender_account),
             exp: None,
         },
-- 
2.43.0


From cb5e770a438bb28df221df360baddd99e4436f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:19 +0000
Subject: [PATCH 28/36] fix: the uploader stops when the collection refuses a
 step

---
 cmdline/src/calls/uploads.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmdline/src/calls/uploads.rs b/cmdline/src/calls/uploads.rs
index 9abc29e..8d3020e 100644
--- a/cmdline/src/calls/uploads.rs
+++ b/cmdline/src/calls/uploads.rs
@@ -1,4 +1,4 @@
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use candid::{Encode, Nat, Principal};
 use core_nft::updates::management::{finalize_upload, init_upload, store_chunk};
 use ic_agent::Agent;
@@ -9,11 +9,14 @@ use url::Url;
 
 pub async fn init(agent: &Agent, canister_id: &Principal, args: init_upload::Args) -> Result<()> {
     let bytes = Encode!(&args)?;
-    agent
+    let response = agent
         .update(canister_id, "init_upload")
         .with_arg(bytes)
         .call_and_wait()
         .await?;
+
+    candid::decode_one::<init_upload::Response>(&response)?
+        .map_err(|e| anyhow!("Init upload failed: {:?}", e))?;
     Ok(())
 }
 
@@ -23,11 +26,14 @@ pub async fn store(
     args: store_chunk::Args,
 ) -> Result<()> {
     let bytes = Encode!(&args)?;
-    agent
+    let response = agent
         .update(canister_id, "store_chunk")
         .with_arg(bytes)
         .call_and_wait()
         .await?;
+
+    candid::decode_one::<store_chunk::Response>(&response)?
+        .map_err(|e| anyhow!("Store chunk failed: {:?}", e))?;
     Ok(())
 }
 
-- 
2.43.0


From 1a76ea1548cd4b576b4e2a38762ffc15b098cdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:19 +0000
Subject: [PATCH 29/36] fix: refuse a chunk size of zero before starting an
 upload

---
 cmdline/src/calls/uploads.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmdline/src/calls/uploads.rs b/cmdline/src/calls/uploads.rs
index 8d3020e..cbf8c32 100644
--- a/cmdline/src/calls/uploads.rs
+++ b/cmdline/src/calls/uploads.rs
@@ -62,6 +62,10 @@ pub async fn upload_file(
     destination_path: &str,
     chunk_size: u64,
 ) -> Result<Url> {
+    if chunk_size == 0 {
+        return Err(anyhow!("Chunk size must be at least 1 byte"));
+    }
+
     let mut file = File::open(file_path)?;
     let metadata = file.metadata()?;
     let file_size = metadata.len();
-- 
2.43.0


From 65088aa8bb6647726bbc4e34cebe87c652107018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:19 +0000
Subject: [PATCH 30/36] fix: upload exactly the bytes that were hashed, in
 whole chunks

---
 cmdline/src/calls/uploads.rs | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/cmdline/src/calls/uploads.rs b/cmdline/src/calls/uploads.rs
index cbf8c32..59577a8 100644
--- a/cmdline/src/calls/uploads.rs
+++ b/cmdline/src/calls/uploads.rs
@@ -67,16 +67,12 @@ pub async fn upload_file(
     }
 
     let mut file = File::open(file_path)?;
-    let metadata = file.metadata()?;
-    let file_size = metadata.len();
-
     let mut buffer = Vec::new();
     file.read_to_end(&mut buffer)?;
+    let file_size = buffer.len() as u64;
     let hash = Sha256::digest(&buffer);
     let file_hash = format!("{:x}", hash);
 
-    let mut file = File::open(file_path)?;
-
     init(
         &agent,
         &canister_id,
@@ -89,23 +85,15 @@ pub async fn upload_file(
     )
     .await?;
 
-    let total_chunks = (file_size + chunk_size - 1) / chunk_size;
-
-    for i in 0..total_chunks {
-        let mut chunk_data = vec![0; chunk_size as usize];
-        let bytes_read = file.read(&mut chunk_data)?;
-        if bytes_read == 0 {
-            break;
-        }
-
-        chunk_data.truncate(bytes_read);
-
+    // The bytes that were hashed, whatever becomes of the file meanwhile and
+    // however little a single read of it returns.
+    for (i, chunk) in buffer.chunks(chunk_size as usize).enumerate() {
         store(
             &agent,
             &canister_id,
             store_chunk::Args {
                 chunk_id: Nat::from(i),
-                chunk_data,
+                chunk_data: chunk.to_vec(),
                 file_path: destination_path.to_string(),
             },
         )
-- 
2.43.0


From c1bda47c3a76719d57467ade01a89096f1d24bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:20 +0000
Subject: [PATCH 31/36] fix: mint keeps metadata values that contain a colon,
 and refuses entries without one

---
 cmdline/src/commands.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmdline/src/commands.rs b/cmdline/src/commands.rs
index c789f69..b26ae5d 100644
--- a/cmdline/src/commands.rs
+++ b/cmdline/src/commands.rs
@@ -184,10 +184,9 @@ pub async fn handle_mint(
         let mut metadata = Vec::new();
         if let Some(entries) = sub_matches.get_many::<String>("metadata") {
             for entry in entries {
-                let parts: Vec<&str> = entry.split(':').collect();
-                if parts.len() >= 2 {
-                    let key = parts[0].to_string();
-                    let value_str = parts[1];
+                // Only the first colon separates: values such as URLs have their own.
+                if let Some((key, value_str)) = entry.split_once(':') {
+                    let key = key.to_string();
                     let value = if let Ok(num) = value_str.parse::<u64>() {
                         icrc_ledger_types::icrc::generic_value::ICRC3Value::Nat(candid::Nat::from(
                             num,
@@ -202,6 +201,11 @@ pub async fn handle_mint(
                         )
                     };
                     metadata.push((key, value));
+                } else {
+                    return Err(anyhow!(
+                        "Metadata entry '{}' is not of the form key:value",
+                        entry
+                    ));
                 }
             }
         }
-- 
2.43.0


From 1e57b015509042e8f13dce4569ee2b31282a0dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:57 +0000
Subject: [PATCH 32/36] fix: attribute values such as 'nan' or 'inf' are text,
 not null

---
 cmdline/src/commands.rs | 8 ++++----
 cmdline/src/metadata.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cmdline/src/commands.rs b/cmdline/src/commands.rs
index b26ae5d..9e6b023 100644
--- a/cmdline/src/commands.rs
+++ b/cmdline/src/commands.rs
@@ -82,10 +82,10 @@ pub async fn handle_create_metadata(sub_matches: &ArgMatches) -> Result<()> {
                 let parts: Vec<&str> = attr.split(':').collect();
                 if parts.len() >= 2 {
                     let trait_type = parts[0].to_string();
-                    let value = if let Ok(num) = parts[1].parse::<f64>() {
-                        serde_json::json!(num)
-                    } else {
-                        serde_json::json!(parts[1])
+                    // JSON has no infinities or NaN: such words are text.
+                    let value = match parts[1].parse::<f64>() {
+                        Ok(num) if num.is_finite() => serde_json::json!(num),
+                        _ => serde_json::json!(parts[1]),
                     };
                     let display_type = if parts.len() > 2 {
                         Some(parts[2].to_string())
diff --git a/cmdline/src/metadata.rs b/cmdline/src/metadata.rs
index 2945e23..2a33557 100644
--- a/cmdline/src/metadata.rs
+++ b/cmdline/src/metadata.rs
@@ -181,10 +181,10 @@ pub fn create_metadata_interactive() -> Result<Value> {
             }
 
             let value_str = prompt_input("Value");
-            let (value, is_number) = if let Ok(num) = value_str.parse::<f64>() {
-                (json!(num), true)
-            } else {
-                (json!(value_str), false)
+            // JSON has no infinities or NaN: such words are text.
+            let (value, is_number) = match value_str.parse::<f64>() {
+                Ok(num) if num.is_finite() => (json!(num), true),
+                _ => (json!(value_str), false),
             };
 
             let display_type = prompt_display_type(is_number);
-- 
2.43.0


From 2bf5271a86789e40c2154538eb1980ec7c019beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:57 +0000
Subject: [PATCH 33/36] fix: create-metadata refuses a malformed attribute
 instead of dropping it

---
 cmdline/src/commands.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmdline/src/commands.rs b/cmdline/src/commands.rs
index 9e6b023..58a9108 100644
--- a/cmdline/src/commands.rs
+++ b/cmdline/src/commands.rs
@@ -93,6 +93,11 @@ pub async fn handle_create_metadata(sub_matches: &ArgMatches) -> Result<()> {
                         None
                     };
                     attributes.push((trait_type, value, display_type));
+                } else {
+                    return Err(anyhow!(
+                        "Attribute '{}' is not of the form trait_type:value[:display_type]",
+                        attr
+                    ));
                 }
             }
         }
-- 
2.43.0


From 47c6692116ddc98cf5b0532753c2dff246ba2ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:29 +0000
Subject: [PATCH 34/36] fix: keep and report the collection's own metadata

collection_metadata given at installation or in update_collection_metadata was
dropped, although id 0 of the metadata store is reserved for it.
---
 src/core_nft/src/lifecycle/init.rs     | 4 ++++
 src/core_nft/src/queries/icrc7.rs      | 8 ++++++++
 src/core_nft/src/updates/management.rs | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/core_nft/src/lifecycle/init.rs b/src/core_nft/src/lifecycle/init.rs
index 85a1849..246bd0c 100644
--- a/src/core_nft/src/lifecycle/init.rs
+++ b/src/core_nft/src/lifecycle/init.rs
@@ -8,6 +8,7 @@ use crate::state::{
     init_icrc3, start_default_archive_job, update_ledger_window, Data, RuntimeState,
 };
 use crate::types::http::certify_all_assets;
+use crate::types::metadata::__METADATA;
 use crate::types::permissions::{Permission, PermissionManager};
 use crate::types::value_custom::CustomValue as Value;
 
@@ -170,6 +171,9 @@ fn init(args: Args) {
             let runtime_state = RuntimeState::new(env, data);
 
             init_canister(runtime_state);
+            __METADATA.with_borrow_mut(|m| {
+                m.replace_all_data(None, init_args.collection_metadata.into_iter().collect())
+            });
             init_icrc3(icrc3_config);
             update_ledger_window();
             start_default_archive_job();
diff --git a/src/core_nft/src/queries/icrc7.rs b/src/core_nft/src/queries/icrc7.rs
index 87283a4..edb1844 100644
--- a/src/core_nft/src/queries/icrc7.rs
+++ b/src/core_nft/src/queries/icrc7.rs
@@ -99,6 +99,14 @@ pub fn icrc7_collection_metadata() -> icrc7::icrc7_collection_metadata::Response
             ));
         }
 
+        // the collection's own entries are kept under the reserved id 0
+        let own = __METADATA.with_borrow(|m| m.get_all_data(Some(Nat::from(0u64))));
+        for (key, value) in own.unwrap_or_default() {
+            if !metadata.iter().any(|(k, _)| *k == key) {
+                metadata.push((key, value.0));
+            }
+        }
+
         metadata.sort_by(|a, b| a.0.cmp(&b.0));
         metadata
     })
diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 96fa58e..cfffd65 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -121,6 +121,12 @@ pub async fn update_collection_metadata(
         });
     }
 
+    if let Some(collection_metadata) = req.collection_metadata {
+        __METADATA.with_borrow_mut(|m| {
+            m.replace_all_data(None, collection_metadata.into_iter().collect())
+        });
+    }
+
     update_ledger_window();
 
     Ok(())
-- 
2.43.0


From 985235e1ca2ebaf78e58d00749f584f597b996c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:23 +0000
Subject: [PATCH 35/36] fix: very long transaction windows and drifts

A window or drift near or beyond 2^64 ns wrapped around or was taken as zero, so
that requests within it were refused.
---
 src/core_nft/src/updates/icrc37.rs | 4 ++--
 src/core_nft/src/updates/icrc7.rs  | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 8a32c86..2d9af52 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -23,7 +23,7 @@ fn verify_approval_timing(created_at_time: u64, current_time: u64) -> Result<(),
         .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT))
         .0
         .try_into()
-        .unwrap_or(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT);
+        .unwrap_or(u64::MAX);
 
     if created_at_time > current_time.saturating_add(permited_drift) {
         return Err((true, current_time));
@@ -37,7 +37,7 @@ fn verify_approval_timing(created_at_time: u64, current_time: u64) -> Result<(),
             .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_TX_WINDOW))
     });
 
-    let tx_window: u64 = tx_window.0.try_into().unwrap_or(0);
+    let tx_window: u64 = tx_window.0.try_into().unwrap_or(u64::MAX);
 
     if created_at_time < current_time.saturating_sub(tx_window.saturating_add(permited_drift)) {
         return Err((false, 0));
diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index 1ca2555..c5ee854 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -47,20 +47,20 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
     });
 
     let drift = permitted_drift
-        .map(|d| u64::try_from(d.0).unwrap())
+        .map(|d| u64::try_from(d.0).unwrap_or(u64::MAX))
         .unwrap_or(icrc7::DEFAULT_PERMITTED_DRIFT);
 
-    if time > current_time + drift {
+    if time > current_time.saturating_add(drift) {
         return Err(icrc7::icrc7_transfer::TransferError::CreatedInFuture {
             ledger_time: Nat::from(current_time),
         });
     }
 
     let tx_window = tx_window
-        .map(|d| u64::try_from(d.0).unwrap())
+        .map(|d| u64::try_from(d.0).unwrap_or(u64::MAX))
         .unwrap_or(icrc7::DEFAULT_TX_WINDOW);
 
-    if time < current_time.saturating_sub(tx_window + drift) {
+    if time < current_time.saturating_sub(tx_window.saturating_add(drift)) {
         return Err(icrc7::icrc7_transfer::TransferError::TooOld);
     }
 
-- 
2.43.0


From 4b74ff5caac110b13c10ad6f874b052dc06e6bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:23 +0000
Subject: [PATCH 36/36] fix: limits from 2^32 up

They do not fit the machine's 32-bit numbers: transfers and memos trapped, other
limits fell back to their defaults, and a listing asked to go on from there
started over.
---
 src/core_nft/src/queries/icrc37.rs     |  4 ++--
 src/core_nft/src/queries/icrc7.rs      | 10 +++++-----
 src/core_nft/src/updates/icrc37.rs     |  8 ++++----
 src/core_nft/src/updates/icrc7.rs      |  2 +-
 src/core_nft/src/updates/management.rs |  4 ++--
 src/core_nft/src/utils.rs              |  2 +-
 6 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 4c9f0aa..980fd07 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -20,7 +20,7 @@ fn icrc37_get_token_approvals(
     let mut response = Vec::new();
 
     let take_usize = take
-        .map(|n| usize::try_from(n.0).unwrap_or(10))
+        .map(|n| usize::try_from(n.0).unwrap_or(usize::MAX))
         .unwrap_or(10);
 
     if let Some(approvals_map) = __TOKEN_APPROVALS
@@ -83,7 +83,7 @@ fn icrc37_get_collection_approvals(
 ) -> icrc37_get_collection_approvals::Response {
     let mut response = Vec::new();
     let take_usize = take
-        .map(|n| usize::try_from(n.0).unwrap_or(10))
+        .map(|n| usize::try_from(n.0).unwrap_or(usize::MAX))
         .unwrap_or(10);
 
     let mut all_approvals: Vec<icrc37_get_collection_approvals::CollectionApproval> =
diff --git a/src/core_nft/src/queries/icrc7.rs b/src/core_nft/src/queries/icrc7.rs
index edb1844..6e73f9c 100644
--- a/src/core_nft/src/queries/icrc7.rs
+++ b/src/core_nft/src/queries/icrc7.rs
@@ -192,7 +192,7 @@ pub fn icrc7_token_metadata(
 
     if token_ids.len()
         > usize::try_from(max_query_batch_size.0.clone())
-            .unwrap_or(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE as usize)
+            .unwrap_or(usize::MAX)
     {
         ic_cdk::trap(format!(
             "max_query_batch_size exceeded. Limit is {}. Retry with a smaller batch size.",
@@ -226,7 +226,7 @@ pub fn icrc7_owner_of(token_ids: icrc7::icrc7_owner_of::Args) -> icrc7::icrc7_ow
 
     if token_ids.len()
         > usize::try_from(max_query_batch_size.0.clone())
-            .unwrap_or(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE as usize)
+            .unwrap_or(usize::MAX)
     {
         ic_cdk::trap(format!(
             "max_query_batch_size exceeded. Limit is {}. Retry with a smaller batch size.",
@@ -252,7 +252,7 @@ pub fn icrc7_balance_of(
 
     if accounts.len()
         > usize::try_from(max_query_batch_size.0.clone())
-            .unwrap_or(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE as usize)
+            .unwrap_or(usize::MAX)
     {
         ic_cdk::trap(format!(
             "max_query_batch_size exceeded. Limit is {}. Retry with a smaller batch size.",
@@ -298,7 +298,7 @@ pub fn icrc7_tokens(
             })
             .0,
         )
-        .unwrap_or(icrc7::DEFAULT_TAKE_VALUE);
+        .unwrap_or(usize::MAX);
 
         let mut tokens: Vec<_> = state.data.tokens_list.keys().cloned().collect();
         tokens.sort();
@@ -341,7 +341,7 @@ pub fn icrc7_tokens_of(
             })
             .0,
         )
-        .unwrap_or(icrc7::DEFAULT_TAKE_VALUE);
+        .unwrap_or(usize::MAX);
 
         let mut tokens: Vec<Nat> = state.data.tokens_ids_of_account(&account);
         tokens.sort();
diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 2d9af52..b2ee83a 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -126,7 +126,7 @@ fn approve_token(
         ))
         .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     let memo_clone = arg.approval_info.memo.clone();
 
@@ -299,7 +299,7 @@ fn approve_collection(
         ))
         .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     let would_exceed_max_approvals = __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
         collection_approvals
@@ -400,7 +400,7 @@ fn icrc37_revoke_token_approvals(
             ))
             .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     Ok(args
         .into_iter()
@@ -531,7 +531,7 @@ fn icrc37_revoke_collection_approvals(
             ))
             .0,
     )
-    .unwrap_or(crate::types::icrc37::DEFAULT_MAX_APPROVALS_PER_TOKEN_OR_COLLECTION);
+    .unwrap_or(usize::MAX);
 
     Ok(args
         .into_iter()
diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index c5ee854..9009192 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -135,7 +135,7 @@ pub async fn icrc7_transfer(args: icrc7::icrc7_transfer::Args) -> icrc7::icrc7_t
         )
     });
 
-    let max_batch_size = usize::try_from(max_update_batch_size.0).unwrap();
+    let max_batch_size = usize::try_from(max_update_batch_size.0).unwrap_or(usize::MAX);
 
     if atomic_batch_transfers && args.len() > max_batch_size {
         return vec![Some(Err(
diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index cfffd65..6529ae2 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -609,8 +609,8 @@ pub fn get_all_uploads(
 ) -> management::get_all_uploads::Response {
     trace(&format!("prev: {:?}, take: {:?}", prev, take));
     let all_uploads = read_state(|state| state.internal_filestorage.clone());
-    let start: usize = usize::try_from(prev.unwrap_or(Nat::from(0u64)).0).unwrap_or(0);
-    let end: usize = usize::try_from(take.unwrap_or(Nat::from(100u64)).0).unwrap_or(100);
+    let start: usize = usize::try_from(prev.unwrap_or(Nat::from(0u64)).0).unwrap_or(usize::MAX);
+    let end: usize = usize::try_from(take.unwrap_or(Nat::from(100u64)).0).unwrap_or(usize::MAX);
     trace(&format!("start: {:?}, end: {:?}", start, end));
     let filtered_uploads: HashMap<String, UploadState> = all_uploads
         .map
diff --git a/src/core_nft/src/utils.rs b/src/core_nft/src/utils.rs
index c548667..ca5f32a 100644
--- a/src/core_nft/src/utils.rs
+++ b/src/core_nft/src/utils.rs
@@ -14,7 +14,7 @@ pub fn check_memo(memo: Option<serde_bytes::ByteBuf>) -> Result<(), String> {
             })
             .0,
         )
-        .unwrap();
+        .unwrap_or(usize::MAX);
 
         trace(&format!("Memo Size: {}", memo.len()));
         trace(&format!("Max Memo Size: {}", max_memo_size));
-- 
2.43.0

