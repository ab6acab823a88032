//! The canisters' public Candid interface, as a client sees it.
pub use candid::{CandidType, Int, Nat, Principal};
pub use serde::Deserialize;
pub use serde_bytes::ByteBuf;

pub type Sub = [u8; 32];

#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct Account { pub owner: Principal, pub subaccount: Option<Sub> }

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
pub enum Value { Nat(Nat), Int(Int), Text(String), Blob(ByteBuf), Array(Vec<Value>), Map(Vec<(String, Value)>) }

#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct BuildVersion { pub major: u32, pub minor: u32, pub patch: u32 }
#[derive(CandidType, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Permission { Minting, ManageAuthorities, UpdateMetadata, UpdateCollectionMetadata, ReadUploads, UpdateUploads }
pub const PERMS: [Permission; 6] = [Permission::Minting, Permission::ManageAuthorities, Permission::UpdateMetadata, Permission::UpdateCollectionMetadata, Permission::ReadUploads, Permission::UpdateUploads];
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct PermissionManager { pub user_permissions: Vec<(Principal, Vec<Permission>)> }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct InitApprovals { pub max_approvals_per_token_or_collection: Option<Nat>, pub max_revoke_approvals: Option<Nat> }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct InitArgs {
    pub test_mode: bool, pub version: BuildVersion, pub commit_hash: String, pub permissions: PermissionManager,
    pub description: Option<String>, pub symbol: String, pub name: String, pub logo: Option<String>,
    pub supply_cap: Option<Nat>, pub max_query_batch_size: Option<Nat>, pub max_update_batch_size: Option<Nat>,
    pub max_take_value: Option<Nat>, pub default_take_value: Option<Nat>, pub max_memo_size: Option<Nat>,
    pub atomic_batch_transfers: Option<bool>, pub tx_window: Option<Nat>, pub permitted_drift: Option<Nat>,
    pub max_canister_storage_threshold: Option<Nat>, pub collection_metadata: Vec<(String, Value)>, pub approval_init: InitApprovals,
}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct UpgradeArgs { pub version: BuildVersion, pub commit_hash: String }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub enum Args { Init(InitArgs), Upgrade(UpgradeArgs) }

#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct MintRequest { pub token_owner: Account, pub memo: Option<ByteBuf>, pub metadata: Vec<(String, Value)> }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct MintArgs { pub mint_requests: Vec<MintRequest> }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub enum MintError { ConcurrentManagementCall, ExceedMaxAllowedSupplyCap, TokenAlreadyExists, InvalidMemo, StorageCanisterError(String) }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub enum BurnNftError { NotTokenOwner, ConcurrentManagementCall, TokenDoesNotExist, StorageCanisterError(String) }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct UpdateNftArgs { pub token_id: Nat, pub metadata: Vec<(String, Value)> }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub enum UpdateNftError { ConcurrentManagementCall, TokenDoesNotExist, StorageCanisterError(String) }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct UpdateCollArgs {
    pub description: Option<String>, pub symbol: Option<String>, pub name: Option<String>, pub logo: Option<String>,
    pub supply_cap: Option<Nat>, pub max_query_batch_size: Option<Nat>, pub max_update_batch_size: Option<Nat>,
    pub max_take_value: Option<Nat>, pub default_take_value: Option<Nat>, pub max_memo_size: Option<Nat>,
    pub atomic_batch_transfers: Option<bool>, pub tx_window: Option<Nat>, pub permitted_drift: Option<Nat>,
    pub max_canister_storage_threshold: Option<Nat>, pub collection_metadata: Option<Vec<(String, Value)>>,
}
impl UpdateCollArgs { pub fn none() -> Self { UpdateCollArgs { description: None, symbol: None, name: None, logo: None, supply_cap: None, max_query_batch_size: None, max_update_batch_size: None, max_take_value: None, default_take_value: None, max_memo_size: None, atomic_batch_transfers: None, tx_window: None, permitted_drift: None, max_canister_storage_threshold: None, collection_metadata: None } } }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub enum SimpleError { ConcurrentManagementCall, StorageCanisterError(String) }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct PermArgs { pub principal: Principal, pub permission: Permission }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct UserArgs { pub principal: Principal }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub enum PermError { ConcurrentManagementCall, DefaultError(String), UserNotFound }

#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct TransferArg { pub to: Account, pub token_id: Nat, pub memo: Option<ByteBuf>, pub from_subaccount: Option<ByteBuf>, pub created_at_time: Option<u64> }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub enum TransferError {
    NonExistingTokenId, InvalidRecipient, Unauthorized, TooOld, CreatedInFuture { ledger_time: Nat },
    Duplicate { duplicate_of: Nat }, GenericError { error_code: Nat, message: String }, GenericBatchError { error_code: Nat, message: String },
}

#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct ApprovalInfo { pub spender: Account, pub from_subaccount: Option<Sub>, pub expires_at: Option<u64>, pub memo: Option<ByteBuf>, pub created_at_time: u64 }
/// Error variants shared by the ICRC-37 methods.
#[derive(CandidType, Deserialize, Clone, Debug)]
pub enum AErr {
    InvalidSpender, InvalidRecipient, ApprovalDoesNotExist, Unauthorized, NonExistingTokenId, TooOld, CreatedInFuture { ledger_time: u64 },
    Duplicate { duplicate_of: Nat }, GenericError { error_code: Nat, message: String }, GenericBatchError { error_code: Nat, message: String },
}
pub type ARes = Result<Vec<Option<Result<Nat, AErr>>>, AErr>;
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct ApproveTokenArg { pub token_id: Nat, pub approval_info: ApprovalInfo }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct ApproveCollArg { pub approval_info: ApprovalInfo }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct RevokeTokenArg { pub spender: Option<Account>, pub from_subaccount: Option<Sub>, pub token_id: Nat, pub memo: Option<ByteBuf>, pub created_at_time: Option<u64> }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct RevokeCollArg { pub spender: Option<Account>, pub from_subaccount: Option<Sub>, pub memo: Option<ByteBuf>, pub created_at_time: Option<u64> }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct TransferFromArg { pub spender_subaccount: Option<Sub>, pub from: Account, pub to: Account, pub token_id: Nat, pub memo: Option<ByteBuf>, pub created_at_time: Option<u64> }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct IsApprovedArg { pub spender: Account, pub from_subaccount: Option<Sub>, pub token_id: Nat }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct TokenApproval { pub token_id: Nat, pub approval_info: ApprovalInfo }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct CollApproval { pub approval_info: ApprovalInfo }

#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct GetBlocksReq { pub start: Nat, pub length: Nat }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct BlockWithId { pub id: Nat, pub block: Value }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct GetBlocksRes { pub log_length: Nat, pub blocks: Vec<BlockWithId> }
