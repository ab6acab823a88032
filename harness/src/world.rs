//! A black-box client of one core_nft canister running in the engine.
pub use crate::sys::*;
pub use crate::types::*;
use candid::{decode_args, decode_one, encode_args, encode_one};
use candid::utils::{ArgumentDecoder, ArgumentEncoder};

pub const CORE: u32 = 1; // slot of the canister under test
pub const M_CORE: u32 = 1; // module number of core_nft
pub const CORE_ID: &[u8] = &[0xCA, 1];
pub const UPDATE: u32 = 0;
pub const QUERY: u32 = 1;
pub const T0: u64 = 1_700_000_000_000_000_000;
pub const ADMIN: u8 = 200;
pub const ANON: u8 = 4;

/// Principals are one byte long: any byte, with 4 the anonymous principal.
/// How accounts look: 0 short principals; else long ones, told apart by one byte at some place, and the default subaccount left out.
pub fn wide() -> usize { param(31) as usize }
fn shape() -> (usize, usize) { [(1, 0), (29, 28), (29, 0), (10, 4)][wide()] }
pub fn pr(b: u8) -> Principal { let (n, at) = shape(); let mut v = [7u8; 29]; v[at] = b; Principal::from_slice(&v[..n]) }
/// The anonymous principal is a short one.
pub fn is_anon(b: u8) -> bool { wide() == 0 && b == ANON }
pub fn sub(b: u8) -> Sub { let mut s = [0u8; 32]; s[[31, 0, 16, 30][wide()]] = b; s }
/// The subaccount as sent.
pub fn osub(b: u8) -> Option<Sub> { if wide() > 0 && !is_sym(b as u64) && b == 0 { None } else { Some(sub(b)) } }
/// An account as its two distinguishing bytes (subaccount 0 is the default one).
#[derive(Clone, Copy, Debug)]
pub struct Ac { pub p: u8, pub s: u8 }
impl Ac {
    pub fn new(p: u8, s: u8) -> Ac { Ac { p, s } }
    /// wire form with no subaccount field (only for s == 0)
    pub fn acct(self) -> Account { Account { owner: pr(self.p), subaccount: osub(self.s) } }
    pub fn plain(p: u8) -> Account { Account { owner: pr(p), subaccount: None } }
    pub fn same(self, o: Ac) -> bool { (self.p == o.p) & (self.s == o.s) }
}
/// Value of a small natural.
pub fn nat(x: u64) -> Nat { Nat::from(x) }
pub fn un(n: &Nat) -> u64 { let d = n.0.to_u64_digits(); match d.len() { 0 => 0, 1 => d[0], _ => u64::MAX } }
pub fn seen(a: &Account) -> Ac {
    let o = a.owner.as_slice();
    let (n, at) = shape();
    let p = if o.len() == n { let mut z = 0; for i in 0..n { if i != at { z |= o[i] ^ 7 } } if z == 0 { o[at] } else { 255 } } else { 255 };
    let s = match &a.subaccount { None => 0, Some(x) => { let mut z = 0u8; let at = [31, 0, 16, 30][wide()]; for i in 0..32 { if i != at { z |= x[i]; } } if z != 0 { 255 } else { x[at] } } };
    Ac { p, s }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum St { Pending, Replied, Rejected, Trapped, NoExport }
pub fn st(ctx: u32) -> St { match status(0, ctx) { 0 => St::Pending, 1 => St::Replied, 2 => St::Rejected, 3 => St::Trapped, _ => St::NoExport } }

pub fn raw(kind: u32, slot: u32, name: &str, arg: &[u8], caller: &[u8]) -> u32 { msg(kind, slot, name, arg, caller) }
/// Send a message and decode the reply; None when rejected, trapped or not (yet) answered.
pub fn call_raw(kind: u32, name: &str, arg: &[u8], caller: u8) -> Option<Vec<u8>> {
    let c = msg(kind, CORE, name, arg, pr(caller).as_slice());
    match st(c) {
        St::Replied => Some(field(0, c)),
        St::NoExport => { check(false, "interface"); None }
        _ => None,
    }
}
pub fn dec<R: candid::CandidType + for<'a> serde::Deserialize<'a>>(b: &[u8]) -> R {
    match decode_one::<R>(b) { Ok(r) => r, Err(_) => { check(false, "reply-decodes"); kill() } }
}
pub fn enc<A: CandidType>(a: A) -> Vec<u8> { encode_one(a).unwrap() }
pub fn encs<A: ArgumentEncoder>(a: A) -> Vec<u8> { encode_args(a).unwrap() }
pub fn call<A: ArgumentEncoder, R: candid::CandidType + for<'a> serde::Deserialize<'a>>(kind: u32, name: &str, a: A, caller: u8) -> Option<R> {
    call_raw(kind, name, &encs(a), caller).map(|b| dec::<R>(&b))
}
pub fn decs<'a, R: ArgumentDecoder<'a>>(b: &'a [u8]) -> R { decode_args::<R>(b).ok().unwrap() }

pub fn init_args() -> InitArgs {
    InitArgs {
        test_mode: true, version: BuildVersion { major: 1, minor: 0, patch: 0 }, commit_hash: "c".into(),
        permissions: PermissionManager { user_permissions: vec![(pr(ADMIN), PERMS.to_vec())] },
        description: Some("d".into()), symbol: "S".into(), name: "N".into(), logo: None,
        supply_cap: None, max_query_batch_size: None, max_update_batch_size: None, max_take_value: None, default_take_value: None,
        max_memo_size: None, atomic_batch_transfers: None, tx_window: None, permitted_drift: None, max_canister_storage_threshold: None,
        collection_metadata: vec![], approval_init: InitApprovals { max_approvals_per_token_or_collection: None, max_revoke_approvals: None },
    }
}
pub fn boot(a: InitArgs) -> u32 {
    install(CORE, M_CORE);
    set_id(CORE, CORE_ID);
    set_time(T0);
    msg(2, CORE, "", &enc(Args::Init(a)), pr(ADMIN).as_slice())
}
pub fn boot_ok(a: InitArgs) { let c = boot(a); assume(st(c) == St::Replied); }
pub fn now(t: u64) { set_time(t) }

// ---- ICRC-7 / ICRC-37 / management calls ----
pub fn mint_req(o: Account) -> MintRequest { MintRequest { token_owner: o, memo: None, metadata: vec![] } }
pub fn mint(caller: u8, r: Vec<MintRequest>) -> Option<Result<Nat, MintError>> { call(UPDATE, "mint", (MintArgs { mint_requests: r },), caller) }
/// Mint one token for `o` as ADMIN and return its id.
pub fn mint1(o: Account) -> u64 { match mint(ADMIN, vec![mint_req(o)]) { Some(Ok(n)) => un(&n), _ => { check(false, "setup-mint"); kill() } } }
pub fn owner_of(t: u64) -> Option<Ac> {
    let r: Option<Vec<Option<Account>>> = call(QUERY, "icrc7_owner_of", (vec![nat(t)],), ADMIN);
    match r { Some(v) if v.len() == 1 => v[0].as_ref().map(seen), _ => { check(false, "owner-of-answers"); None } }
}
pub fn balance(a: Account) -> u64 {
    let r: Option<Vec<Nat>> = call(QUERY, "icrc7_balance_of", (vec![a],), ADMIN);
    match r { Some(v) if v.len() == 1 => un(&v[0]), _ => { check(false, "balance-of-answers"); 0 } }
}
pub fn tokens(prev: Option<u64>, take: Option<u64>) -> Option<Vec<u64>> {
    let r: Option<Vec<Nat>> = call(QUERY, "icrc7_tokens", (prev.map(nat), take.map(nat)), ADMIN);
    r.map(|v| v.iter().map(un).collect())
}
pub fn tokens_of(a: Account, prev: Option<u64>, take: Option<u64>) -> Option<Vec<u64>> {
    let r: Option<Vec<Nat>> = call(QUERY, "icrc7_tokens_of", (a, prev.map(nat), take.map(nat)), ADMIN);
    r.map(|v| v.iter().map(un).collect())
}
pub fn supply() -> u64 { let r: Option<Nat> = call(QUERY, "icrc7_total_supply", (), ADMIN); match r { Some(n) => un(&n), None => { check(false, "total-supply-answers"); 0 } } }
pub fn xfer_arg(to: Account, t: u64) -> TransferArg { TransferArg { to, token_id: nat(t), memo: None, from_subaccount: None, created_at_time: None } }
pub fn transfer(caller: u8, v: Vec<TransferArg>) -> Option<Vec<Option<Result<Nat, TransferError>>>> { call(UPDATE, "icrc7_transfer", (v,), caller) }
pub fn info(spender: Account) -> ApprovalInfo { ApprovalInfo { spender, from_subaccount: None, expires_at: None, memo: None, created_at_time: T0 } }
pub fn approve(caller: u8, v: Vec<ApproveTokenArg>) -> Option<ARes> { call(UPDATE, "icrc37_approve_tokens", (v,), caller) }
pub fn approve_coll(caller: u8, v: Vec<ApproveCollArg>) -> Option<ARes> { call(UPDATE, "icrc37_approve_collection", (v,), caller) }
pub fn revoke(caller: u8, v: Vec<RevokeTokenArg>) -> Option<ARes> { call(UPDATE, "icrc37_revoke_token_approvals", (v,), caller) }
pub fn revoke_coll(caller: u8, v: Vec<RevokeCollArg>) -> Option<ARes> { call(UPDATE, "icrc37_revoke_collection_approvals", (v,), caller) }
pub fn transfer_from(caller: u8, v: Vec<TransferFromArg>) -> Option<ARes> { call(UPDATE, "icrc37_transfer_from", (v,), caller) }
pub fn is_approved(v: Vec<IsApprovedArg>, caller: u8) -> Option<Vec<bool>> { call(QUERY, "icrc37_is_approved", (v,), caller) }
pub fn get_blocks(start: u64, len: u64) -> Option<GetBlocksRes> { call(QUERY, "icrc3_get_blocks", (vec![GetBlocksReq { start: nat(start), length: nat(len) }],), ADMIN) }
pub fn log_len() -> u64 { match get_blocks(0, 0) { Some(r) => un(&r.log_length), None => { check(false, "get-blocks-answers"); 0 } } }

// ---- the client's own picture of the collection ----
pub static mut NOW: u64 = T0;
/// Let some time pass: longer than the rate limiter and the ledger's memory for repeated transactions reach.
pub fn tick() -> u64 { unsafe { NOW += TICK; set_time(NOW); NOW } }
pub const TICK: u64 = 20_000_000_000;
pub fn at(t: u64) { unsafe { NOW = t; set_time(t) } }
pub fn clock() -> u64 { unsafe { NOW } }

pub fn any_ac(n: &str) -> Ac { Ac { p: any_u8(n), s: any_u8(&[n, ".sub"].concat()) } }
/// An account with a subaccount (24..=255; stored subaccount bytes are encoded differently below 24).
pub fn any_as(n: &str) -> Ac { let a = any_ac(n); assume(a.s >= 24); a }
/// An account with the default subaccount.
pub fn any_p(n: &str) -> Ac { Ac { p: any_u8(n), s: 0 } }
impl Ac {
    pub fn is(self, p: u8) -> bool { (self.p == p) & (self.s == 0) }
    pub fn anon(self) -> bool { is_anon(self.p) }
}
/// Token owners by id; index 0 is unused, None is burnt or never minted.
pub type Toks = Vec<Option<Ac>>;
pub fn owner_is(t: u64, e: Option<Ac>) -> bool {
    match (owner_of(t), e) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false }
}
/// Every ownership query agrees with `v`, for every account.
pub fn check_world(v: &Toks) {
    let n = v.len() as u64;
    let mut live = 0;
    for t in 0..n + 1 {
        let e = if t < n { v[t as usize] } else { None };
        if e.is_some() { live += 1 }
        check(owner_is(t, e), "owner");
    }
    check(supply() == live, "total-supply");
    let all: Vec<u64> = (0..n).filter(|t| v[*t as usize].is_some()).collect();
    check(tokens(None, None) == Some(all), "token-list");
    let q = any_ac("probe");
    check_account(v, q);
}
pub fn check_account(v: &Toks, q: Ac) {
    let mut cnt = 0u64;
    for o in v.iter().flatten() { cnt += o.same(q) as u64 }
    check(balance(q.acct()) == cnt, "balance");
    match tokens_of(q.acct(), None, None) {
        None => check(false, "tokens-of-answers"),
        Some(l) => {
            check(l.len() as u64 == cnt, "tokens-of-count");
            let mut prev = 0;
            for t in l {
                check(t > prev, "tokens-of-order");
                prev = t;
                check((t as usize) < v.len() && v[t as usize].map_or(false, |o| o.same(q)), "tokens-of-member");
            }
        }
    }
}
/// boot and mint one token per owner, in order, ids from 1
pub fn setup(owners: &[Ac]) -> Toks {
    boot_ok(init_args());
    mint_all(owners)
}
pub fn mint_all(owners: &[Ac]) -> Toks {
    let mut v = vec![None];
    for (i, o) in owners.iter().enumerate() {
        tick();
        let t = mint1(o.acct());
        check(t == i as u64 + 1, "mint-id");
        v.push(Some(*o));
    }
    v
}
pub fn get(v: &Toks, t: u8) -> Option<Ac> {
    for i in 1..v.len() { if t == i as u8 { return v[i]; } }
    None
}
pub fn set(v: &mut Toks, t: u8, o: Option<Ac>) { for i in 1..v.len() { if t == i as u8 { v[i] = o; } } }
pub fn ok1(r: &Option<ARes>) -> bool { matches!(r, Some(Ok(v)) if v.len() == 1 && matches!(v[0], Some(Ok(_)))) }
pub fn ok1t(r: &Option<Vec<Option<Result<Nat, TransferError>>>>) -> bool { matches!(r, Some(v) if v.len() == 1 && matches!(v[0], Some(Ok(_)))) }
pub fn xfrom(from: Ac, to: Ac, t: u8, ss: u8) -> TransferFromArg {
    TransferFromArg { spender_subaccount: osub(ss), from: from.acct(), to: to.acct(), token_id: nat(t as u64), memo: None, created_at_time: None }
}
pub fn appr(t: u8, spender: Ac, from_sub: u8, exp: Option<u64>) -> ApproveTokenArg {
    ApproveTokenArg { token_id: nat(t as u64), approval_info: ainfo(spender, from_sub, exp) }
}
pub fn ainfo(spender: Ac, from_sub: u8, exp: Option<u64>) -> ApprovalInfo {
    ApprovalInfo { spender: spender.acct(), from_subaccount: osub(from_sub), expires_at: exp, memo: None, created_at_time: clock() }
}
