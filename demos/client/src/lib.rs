//! Clients that show each planted bug on concrete calls (run by ic.mjs).
#![allow(dead_code, static_mut_refs)]
#[path = "../../../harness/src/sys.rs"] mod sys;
#[path = "../../../harness/src/types.rs"] mod types;
#[path = "../../../harness/src/world.rs"] mod world;
#[path = "../../../harness/src/appr.rs"] mod appr;
#[path = "../../../harness/src/hist.rs"] mod hist;
#[path = "../../../harness/src/ledger.rs"] mod ledger;
#[path = "../../../harness/src/admin.rs"] mod admin;
#[path = "../../../harness/src/up.rs"] mod up;
#[path = "../../../harness/src/idx.rs"] mod idx;
#[path = "../../../harness/src/misc.rs"] mod misc;
#[path = "../../../harness/src/cli.rs"] mod cli;
use world::*;

fn upgrade_core() {
    msg(3, CORE, "", &[], &[ADMIN]);
    upgrade(CORE, M_CORE);
    let c = msg(4, CORE, "", &enc(Args::Upgrade(UpgradeArgs { version: BuildVersion { major: 2, minor: 0, patch: 0 }, commit_hash: "e".into() })), &[ADMIN]);
    check(st(c) == St::Replied, "upgraded");
}
fn burn(caller: u8, t: u64) -> bool { let r: Option<Result<(), BurnNftError>> = call(UPDATE, "burn_nft", (nat(t),), caller); matches!(r, Some(Ok(()))) }
fn give(caller: u8, to: Ac, t: u64) -> bool { tick(); ok1t(&transfer(caller, vec![xfer_arg(to.acct(), t)])) }
fn allow(caller: u8, sp: Ac, t: u8, s: u8, exp: Option<u64>) -> bool { tick(); ok1(&approve(caller, vec![appr(t, sp, s, exp)])) }
fn allow_coll(caller: u8, sp: Ac, s: u8, exp: Option<u64>) -> bool { tick(); ok1(&approve_coll(caller, vec![ApproveCollArg { approval_info: ainfo(sp, s, exp) }])) }
fn pull(sp: u8, from: Ac, to: Ac, t: u8) -> bool { ok1(&transfer_from(sp, vec![xfrom(from, to, t, 0)])) }
const A: Ac = Ac { p: 7, s: 0 };
const A1: Ac = Ac { p: 7, s: 1 };
const B: Ac = Ac { p: 8, s: 0 };
const C: Ac = Ac { p: 9, s: 0 };

/// a token moved between two subaccounts of one owner is counted once
#[no_mangle] pub extern "C" fn d_c07() {
    setup(&[A, B]);
    check(give(7, A1, 1), "moved");
    check(balance(A.acct()) == 0, "old account empty");
    check(balance(A1.acct()) == 1, "new account has it");
    check(tokens_of(A.acct(), None, None) == Some(vec![]), "old listing empty");
}
/// an approval is void from the very nanosecond it expires
#[no_mangle] pub extern "C" fn d_c02() {
    setup(&[A]);
    let e = clock() + 5_000_000_000;
    check(allow(7, B, 1, 0, Some(e)), "approved");
    at(e);
    check(!pull(8, A, C, 1), "expired");
    check(owner_is(1, Some(A)), "owner");
}
/// approvals end when the token moves to another subaccount of the same owner
#[no_mangle] pub extern "C" fn d_c03() {
    setup(&[A]);
    check(allow(7, B, 1, 0, None), "approved");
    check(give(7, A1, 1), "moved");
    tick();
    check(!pull(8, A1, C, 1), "void");
    check(owner_is(1, Some(A1)), "owner");
}
/// approving needs the owning account, not another subaccount of its principal
#[no_mangle] pub extern "C" fn d_c04() {
    setup(&[A1]);
    check(!allow(7, B, 1, 0, None), "not the owning account");
    check(allow(7, B, 1, 1, None), "the owning account");
}
/// a collection approval of one account does not reach the owner's other subaccounts
#[no_mangle] pub extern "C" fn d_c05() {
    setup(&[A, A1]);
    check(allow_coll(7, B, 0, None), "approved");
    tick();
    check(!pull(8, A1, C, 2), "not covered");
    check(pull(8, A, C, 1), "covered");
}
/// ids are never used twice, not even the last one burnt
#[no_mangle] pub extern "C" fn d_c08() {
    setup(&[A, A]);
    tick();
    check(burn(7, 2), "burnt");
    tick();
    check(mint1(B.acct()) == 3, "fresh id");
}
/// a request exactly at the end of window plus drift is still served
#[no_mangle] pub extern "C" fn d_c10() {
    setup(&[A]);
    let now = tick();
    let mut a = xfer_arg(B.acct(), 1);
    a.created_at_time = Some(now - 10_000_000_000 - 50_000_000);
    check(ok1t(&transfer(7, vec![a])), "served");
}
/// a refused call does not make room for the next one
#[no_mangle] pub extern "C" fn d_c12() {
    setup(&[A]);
    tick();
    let limited = || matches!(&transfer(8, vec![xfer_arg(C.acct(), 1)]), Some(v) if matches!(v[0], Some(Err(TransferError::GenericError { .. }))));
    for _ in 0..5 { check(!limited(), "let through"); }
    check(limited(), "sixth refused");
    check(limited(), "seventh refused");
}
fn fld<'a>(v: &'a Value, k: &str) -> Option<&'a Value> { match v { Value::Map(m) => m.iter().find(|(n, _)| n == k).map(|(_, x)| x), _ => None } }
/// each block of a batch mint names the account its own token went to
#[no_mangle] pub extern "C" fn d_c13() {
    setup(&[]);
    tick();
    check(matches!(mint(ADMIN, vec![mint_req(A.acct()), mint_req(B.acct())]), Some(Ok(_))), "minted");
    let r = get_blocks(0, 5).unwrap();
    check(r.blocks.len() == 2, "two blocks");
    for (k, p) in [(0, 7u8), (1, 8)] {
        let t = fld(&r.blocks[k].block, "tx").unwrap();
        check(matches!(fld(t, "to"), Some(Value::Text(x)) if *x == pr(p).to_text()), "recipient");
    }
}
/// a permission granted twice is gone after one revocation
#[no_mangle] pub extern "C" fn d_c15() {
    setup(&[]);
    let g = |m: &str| { let r: Option<Result<(), PermError>> = call(UPDATE, m, (PermArgs { principal: pr(9), permission: Permission::Minting },), ADMIN); check(matches!(r, Some(Ok(()))), "accepted") };
    g("grant_permission");
    g("grant_permission");
    g("revoke_permission");
    tick();
    check(mint(9, vec![mint_req(A.acct())]).is_none(), "revoked");
    check(supply() == 0, "nothing minted");
}
fn meta(t: u64) -> Option<Vec<(String, Value)>> { let r: Option<Vec<Option<Vec<(String, Value)>>>> = call(QUERY, "icrc7_token_metadata", (vec![nat(t)],), ADMIN); r.unwrap()[0].clone() }
/// metadata can be replaced by none
#[no_mangle] pub extern "C" fn d_c20() {
    setup(&[]);
    tick();
    check(matches!(mint(ADMIN, vec![MintRequest { token_owner: A.acct(), memo: None, metadata: vec![("k".into(), Value::Text("v".into()))] }]), Some(Ok(_))), "minted");
    tick();
    let r: Option<Result<Nat, UpdateNftError>> = call(UPDATE, "update_nft_metadata", (UpdateNftArgs { token_id: nat(1), metadata: vec![] },), ADMIN);
    check(matches!(r, Some(Ok(_))), "updated");
    check(meta(1).map_or(0, |m| m.len()) == 0, "no metadata left");
}
/// ids continue after an upgrade even if the last token was burnt
#[no_mangle] pub extern "C" fn d_c22() {
    setup(&[A, A]);
    tick();
    check(burn(7, 2), "burnt");
    upgrade_core();
    tick();
    check(mint1(B.acct()) == 3, "fresh id");
}
/// changing one limit leaves the other alone
#[no_mangle] pub extern "C" fn d_c21() {
    let mut i = init_args();
    i.default_take_value = Some(nat(20));
    i.max_take_value = Some(nat(50));
    boot_ok(i);
    let mut u = UpdateCollArgs::none();
    u.max_take_value = Some(nat(10));
    let r: Option<Result<(), SimpleError>> = call(UPDATE, "update_collection_metadata", (u,), ADMIN);
    check(matches!(r, Some(Ok(()))), "updated");
    let d: Option<Option<Nat>> = call(QUERY, "icrc7_default_take_value", (), ADMIN);
    check(d == Some(Some(nat(20))), "default take value kept");
}
/// an owner can move a token to any other account of theirs
#[no_mangle] pub extern "C" fn d_c01() {
    setup(&[A]);
    check(give(7, A1, 1), "moved");
    check(owner_is(1, Some(A1)), "owner");
}

// ---- approvals ----
fn asked(t: u64, sp: Ac) -> bool { is_approved(vec![IsApprovedArg { spender: sp.acct(), from_subaccount: None, token_id: nat(t) }], 9) == Some(vec![true]) }
/// an approval that has expired is no longer reported
#[no_mangle] pub extern "C" fn d_c06() {
    setup(&[A]);
    tick();
    let e = clock() + 60_000_000_000;
    check(allow(7, B, 1, 0, Some(e)), "approved");
    tick();
    check(asked(1, B), "in force");
    at(e);
    check(!asked(1, B), "not in force any more");
    check(!pull(8, A, C, 1), "cannot move it");
}
/// no approval of a burnt token is listed, and its owner counts one token less
#[no_mangle] pub extern "C" fn d_c09() {
    d_c09a();
    setup(&[A, A1]);
    check(allow(7, B, 1, 0, None), "approved");
    tick();
    check(!burn(8, 1), "only the owner burns");
    check(supply() == 2, "supply");
}
fn d_c09a() {
    setup(&[A1, A]);
    tick();
    check(burn(7, 1), "burnt");
    check(balance(A1.acct()) == 0, "not counted");
    check(tokens_of(A1.acct(), None, None) == Some(vec![]), "not listed");
    check(supply() == 1, "supply");
}
/// a memo of exactly the configured length is accepted, for each request of a batch
#[no_mangle] pub extern "C" fn d_c11() {
    let mut i = init_args();
    i.max_update_batch_size = Some(nat(2));
    boot_ok(i);
    mint_all(&[A, A]);
    check(matches!(mint(ADMIN, vec![mint_req(A.acct())]), Some(Ok(_))), "minted");
    tick();
    let v = vec![xfer_arg(B.acct(), 1), xfer_arg(B.acct(), 2), xfer_arg(B.acct(), 3)];
    transfer(7, v);
    check(owner_is(3, Some(A)), "third request is beyond the limit");
}
/// each memo of a batch counts
#[no_mangle] pub extern "C" fn d_c11b() {
    let mut i = init_args();
    i.max_memo_size = Some(nat(4));
    boot_ok(i);
    let mut r = vec![mint_req(A.acct()), mint_req(B.acct())];
    r[0].memo = Some(serde_bytes::ByteBuf::from(vec![1; 2]));
    r[1].memo = Some(serde_bytes::ByteBuf::from(vec![1; 5]));
    check(!matches!(mint(ADMIN, r), Some(Ok(_))), "refused");
    check(supply() == 0, "nothing minted");
}
/// a page of blocks that begins in the middle
#[no_mangle] pub extern "C" fn d_c14() {
    setup(&[A, A, A]);
    let r = get_blocks(1, 5).unwrap();
    check(r.blocks.len() == 2 && un(&r.blocks[0].id) == 1 && un(&r.blocks[1].id) == 2, "two blocks");
    let q = |s, l| GetBlocksReq { start: nat(s), length: nat(l) };
    let r: Option<GetBlocksRes> = call(QUERY, "icrc3_get_blocks", (vec![q(0, 1), q(0, 2)],), ADMIN);
    let r = r.unwrap();
    check(r.blocks.len() == 3, "both ranges");
}
// ---- management and uploads ----
/// two chunks cannot be stored at once
#[no_mangle] pub extern "C" fn d_c17() {
    use admin::*; use up::*;
    boot_ok(init_args());
    let mut u = Up::new();
    u.plain = true;
    u.step(0, 0, How::Yes);
    let ch = || StoreChunk { chunk_data: serde_bytes::ByteBuf::from(vec![1]), file_path: "/a".into(), chunk_id: nat(0) };
    let c = send("store_chunk", (ch(),));
    check(st(c) == St::Pending, "waiting");
    let n = ncalls();
    let d = send("store_chunk", (ch(),));
    check(matches!(reply::<Result<Nix, UErr>>(d), Some(Err(UErr::ConcurrentManagementCall))), "refused meanwhile");
    check(ncalls() == n, "no call");
}
/// a call refused because another one is running does not end the other one's turn
#[no_mangle] pub extern "C" fn d_c17b() {
    use admin::*; use up::*;
    boot_ok(init_args());
    let mut u = Up::new();
    u.plain = true;
    u.step(0, 0, How::Yes);
    let c = send("cancel_upload", (PathArg { file_path: "/a".into() },));
    check(st(c) == St::Pending, "waiting");
    for _ in 0..2 {
        tick();
        let r: Option<Result<Nat, MintError>> = mint(ADMIN, vec![mint_req(A.acct())]);
        check(matches!(r, Some(Err(MintError::ConcurrentManagementCall))), "refused meanwhile");
    }
}
/// cancelling fails while the storage canister cannot be reached, and can be tried again
#[no_mangle] pub extern "C" fn d_c18() {
    use admin::*; use up::*;
    boot_ok(init_args());
    let mut u = Up::new();
    u.plain = true;
    u.step(0, 0, How::Yes);
    u.step(3, 0, How::Dead);
    u.step(1, 0, How::Yes);
}
/// a storage canister that the file does not fit into is left alone
#[no_mangle] pub extern "C" fn d_c18b() {
    use admin::*; use up::*;
    boot_ok(init_args());
    let mut u = Up::new();
    u.plain = true;
    u.step(0, 0, How::Yes);
    u.net.size = (500 << 30) - 1;
    let c = send("init_upload", (iarg("b", 2),));
    u.net.run(Ans::Ok, Ans::Ok);
    check(matches!(reply::<Result<Nix, UErr>>(c), Some(Ok(_))), "begun");
    check(u.net.made == 2, "a new canister for it");
}
/// a refused chunk does not start the upload
#[no_mangle] pub extern "C" fn d_c18c() {
    use admin::*; use up::*;
    boot_ok(init_args());
    let mut u = Up::new();
    u.plain = true;
    u.step(0, 0, How::Yes);
    u.step(1, 0, How::No);
    u.step(2, 0, How::Yes);
}
/// a file whose path has no leading slash is served before and after an upgrade
#[no_mangle] pub extern "C" fn d_c19() {
    use admin::*; use up::*;
    boot_ok(init_args());
    let mut u = Up::new();
    u.plain = true;
    for op in 0..3 { u.step(op, 1, How::Yes); }
    u.serves();
    tick();
    check(admin::upgrade_core(), "upgraded");
    u.serves();
}
/// an upload that gets a chunk now and then is stale a day after it was begun
#[no_mangle] pub extern "C" fn d_c26() {
    use admin::*; use up::*;
    boot_ok(init_args());
    let t0 = clock();
    let mut u = Up::new();
    u.plain = true;
    u.step(0, 0, How::Yes);
    at(t0 + DAY / 2);
    u.step(1, 0, How::Yes);
    at(t0 + DAY + 3_000_000_000);
    fire(CORE, CORE_ID, &mut u.net);
    let mut n = 0;
    while u.net.open() {
        let i = u.net.done;
        if Net::method(i) == "cancel_upload" { n += 1; u.net.step(Ans::Ok, Ans::Ok); } else { u.net.done += 1; respond(i, 4, b"no"); }
    }
    check(n == 1, "cancelled");
    check(upload_status("/a").is_none(), "gone");
}
/// a finalized file survives the daily clean-up
#[no_mangle] pub extern "C" fn d_c26b() {
    use admin::*; use up::*;
    boot_ok(init_args());
    let t0 = clock();
    let mut u = Up::new();
    u.plain = true;
    for op in 0..3 { u.step(op, 0, How::Yes); }
    u.step(0, 1, How::Yes);
    at(t0 + DAY + 10_000_000_000);
    fire(CORE, CORE_ID, &mut u.net);
    let mut n = 0;
    while u.net.open() {
        let i = u.net.done;
        if Net::method(i) == "cancel_upload" { n += 1; u.net.step(Ans::Ok, Ans::Ok); } else { u.net.done += 1; respond(i, 4, b"no"); }
    }
    check(n == 1, "one cancelled");
    check(upload_status("/a") == Some(UpState::Finalized), "kept");
}
// ---- listings ----
/// pages of tokens follow each other
#[no_mangle] pub extern "C" fn d_c23() {
    setup(&[A, B, A, A]);
    check(give(8, A, 2), "moved");
    check(tokens_of(A.acct(), None, Some(2)) == Some(vec![1, 2]), "first page");
    check(tokens_of(A.acct(), Some(2), Some(2)) == Some(vec![3, 4]), "second page");
    // the token prev has gone
    check(give(7, B, 2), "moved");
    check(tokens_of(A.acct(), Some(2), Some(2)) == Some(vec![3, 4]), "page after a token that has gone");
}
/// an approval given again is listed with its new data
#[no_mangle] pub extern "C" fn d_c24() {
    setup(&[A]);
    let e = clock() + 600_000_000_000;
    check(allow(7, B, 1, 0, Some(e)), "approved");
    check(allow(7, C, 1, 0, Some(e)), "approved");
    check(allow(7, B, 1, 0, None), "approved again");
    let l = appr::list_tok(1);
    check(l.len() == 2, "two approvals");
    check(l[0].approval_info.spender.owner == pr(8) && l[0].approval_info.expires_at.is_none(), "the newest first, as given last");
}
/// a spender approved already does not count twice
#[no_mangle] pub extern "C" fn d_c25() {
    let mut i = init_args();
    i.approval_init.max_approvals_per_token_or_collection = Some(nat(2));
    boot_ok(i);
    mint_all(&[A]);
    check(allow_coll(7, B, 0, None), "first");
    check(allow_coll(7, C, 0, None), "second");
    check(!allow_coll(7, A1, 0, None), "no room");
    check(appr::list_coll(A).len() == 2, "two listed");
}
// ---- index ----
fn ia(p: u8) -> idx::Filter { idx::Filter::Account(Account { owner: pr(p), subaccount: None }) }
fn it(k: usize) -> idx::Filter { idx::Filter::BlockType(idx::KINDS[k].to_string()) }
fn ik(t: u64) -> idx::Filter { idx::Filter::TokenId(nat(t)) }
/// three filters at once
#[no_mangle] pub extern "C" fn d_c27() {
    use idx::*;
    let mut x = Ix::boot(vec![B::mint(7, 3), B { k: 2, t: 3, p: [7, 8, 9] }, B { k: 2, t: 4, p: [7, 8, 9] }, B { k: 3, t: 3, p: [7, 8, 9] }]);
    x.sync();
    check(x.ids(vec![ia(7), it(2), ik(3)]) == Some(vec![1]), "one block matches all three");
    check(x.ids(vec![ik(3), ia(7), it(2)]) == Some(vec![1]), "in any order");
    check(x.ids(vec![ia(9)]) == Some(vec![3]), "spender of an approval");
    check(x.ids(vec![ia(8)]) == Some(vec![1, 2]), "receiver");
    check(x.ids(vec![ia(7), ik(99)]) == Some(vec![]), "no such token");
}
/// revocations and approvals of collections are different types
#[no_mangle] pub extern "C" fn d_c27b() {
    use idx::*;
    let mut x = Ix::boot((0..9).map(|k| B { k, t: 3, p: [7, 8, 9] }).collect());
    x.sync();
    for k in 0..9 { check(x.ids(vec![it(k)]) == Some(vec![k as u64]), "type"); }
    check(x.ids(vec![ia(7)]) == Some((1..9).collect()), "sender");
    check(x.ids(vec![ia(9)]) == Some(vec![3, 4, 5, 6, 7]), "spender");
}
/// the index continues after an upgrade
#[no_mangle] pub extern "C" fn d_c28() {
    use idx::*;
    let mut x = Ix::boot(vec![B::mint(7, 0), B::mint(7, 1)]);
    x.sync();
    check(x.status() == 2, "indexed");
    x.get(3, 1, vec![], None, Srv::All);
    x.log.push(B::mint(7, 2));
    x.log.push(B::mint(7, 3));
    x.get(3, 1, vec![], None, Srv::All);
    x.sync();
    check(x.status() == 4, "indexed");
    check(x.ids(vec![it(0)]) == Some(vec![0, 1, 2, 3]), "each once");
    x.upgrade();
    x.log.push(B::mint(7, 4));
    x.sync();
    check(x.ids(vec![it(0)]) == Some(vec![0, 1, 2, 3, 4]), "each once");
}
/// a block read twice is the same, whatever its values
#[no_mangle] pub extern "C" fn d_c29() {
    use idx::*;
    let mut x = Ix::boot(vec![B { k: 8, t: 5, p: [7; 3] }]);
    let v = Value::Map(vec![("btype".into(), Value::Text(KINDS[8].into())), ("tx".into(), Value::Map(vec![("n".into(), Value::Int(candid::Int::from(-300))), ("x".into(), Value::Array(vec![Value::Blob(serde_bytes::ByteBuf::from(vec![0, 255])), Value::Nat(nat(1 << 40))]))]))]);
    x.odd = Some(v.clone());
    for how in [Srv::All, Srv::Archive(1)] {
        let r = x.get(0, 1, vec![], None, how).unwrap();
        check(r.blocks.len() == 1 && same_value(&r.blocks[0].block, &v), "unchanged");
    }
    let mut x = Ix::boot((0..4).map(|i| B::mint(7 + i as u8, i)).collect());
    for _ in 0..3 {
        let r = x.get(0, 4, vec![], None, Srv::Archive(1)).unwrap();
        check(r.blocks.len() == 4, "all");
        for (i, b) in r.blocks.iter().enumerate() { check(un(&b.id) == i as u64 && same_value(&b.block, &x.log[i].value(i as u64)), "unchanged"); }
    }
}
/// pages that are partly cached and partly archived are complete and ordered
#[no_mangle] pub extern "C" fn d_c30() {
    use idx::*;
    let mut x = Ix::boot((0..5).map(|i| B { k: if i % 2 == 0 { 0 } else { 2 }, t: i, p: [7, 8, 9] }).collect());
    x.sync();
    let ids = |r: Option<IxRes>| r.map(|r| r.blocks.iter().map(|b| un(&b.id)).collect::<Vec<_>>());
    x.get(2, 1, vec![], None, Srv::All);
    for how in [Srv::All, Srv::Archive(2), Srv::Archive(4)] {
        check(ids(x.get(0, 5, vec![], None, how)) == Some(vec![0, 1, 2, 3, 4]), "all");
        check(ids(x.get(0, 3, vec![], Some(SortBy::Descending), how)) == Some(vec![4, 3, 2]), "newest");
        check(ids(x.get(1, 2, vec![it(0)], None, how)) == Some(vec![2, 4]), "filtered page");
        check(ids(x.get(0, 2, vec![it(0)], Some(SortBy::Descending), how)) == Some(vec![2, 0]), "filtered page, descending");
        x.job(86_400_000_000_000);
        x.run(Srv::All);
    }
}

/// an atomic batch with an invalid request moves nothing
#[no_mangle] pub extern "C" fn d_c31() {
    let mut i = init_args();
    i.atomic_batch_transfers = Some(true);
    boot_ok(i);
    mint_all(&[A, B, A]);
    tick();
    let r = transfer(7, vec![xfer_arg(C.acct(), 1), xfer_arg(C.acct(), 2)]);
    check(!matches!(&r, Some(v) if v.iter().any(|x| matches!(x, Some(Ok(_))))), "no success");
    check(owner_is(1, Some(A)) && owner_is(2, Some(B)), "nothing moved");
    tick();
    let r = transfer(7, vec![xfer_arg(C.acct(), 1), xfer_arg(C.acct(), 3)]);
    check(matches!(&r, Some(v) if v.len() == 2 && v.iter().all(|x| matches!(x, Some(Ok(_))))), "all done");
    check(owner_is(1, Some(C)) && owner_is(3, Some(C)), "all moved");
}
fn consent(m: &str, arg: Vec<u8>) -> String {
    use crate::misc::*;
    let r: Option<Result<Consent, ConsentErr>> = call(QUERY, "icrc21_canister_call_consent_message", (ConsentReq { method: m.into(), arg, user_preferences: Spec { metadata: Meta { language: "en".into(), utc_offset_minutes: Some(60) }, device_spec: None } },), ADMIN);
    match r { Some(Ok(c)) => { check(c.metadata.utc_offset_minutes == Some(60), "metadata"); match c.consent_message { ConsentMsg::GenericDisplayMessage(s) => s, ConsentMsg::LineDisplayMessage { pages } => pages.iter().flat_map(|p| p.lines.clone()).collect::<Vec<_>>().join(" ") } } _ => { check(false, "described"); String::new() } }
}
/// messages name the method and the number of requests
#[no_mangle] pub extern "C" fn d_c32() {
    setup(&[A]);
    for n in 0..4u64 {
        let s = consent("icrc7_transfer", enc((0..n).map(|t| xfer_arg(B.acct(), t + 1)).collect::<Vec<_>>()));
        check(s.contains("icrc7_transfer") && (n < 2 || s.contains(&n.to_string())), "transfer");
        let s = consent("icrc37_approve_tokens", enc((0..n).map(|t| appr(t as u8 + 1, B, 0, None)).collect::<Vec<_>>()));
        check(s.contains("icrc37_approve_tokens") && (n < 2 || s.contains(&n.to_string())), "approve");
        let s = consent("icrc37_transfer_from", enc((0..n).map(|t| xfrom(A, B, t as u8 + 1, 0)).collect::<Vec<_>>()));
        check(s.contains("icrc37_transfer_from") && (n < 2 || s.contains(&n.to_string())), "transfer_from");
        let s = consent("icrc37_revoke_token_approvals", enc((0..n).map(|t| RevokeTokenArg { spender: Some(B.acct()), from_subaccount: None, token_id: nat(t + 1), memo: None, created_at_time: None }).collect::<Vec<_>>()));
        check(s.contains("icrc37_revoke_token_approvals") && (n < 2 || s.contains(&n.to_string())), "revoke");
    }
}
/// every kind of block is announced, also after an upgrade
#[no_mangle] pub extern "C" fn d_c33() {
    setup(&[A, A]);
    upgrade_core();
    let t = crate::misc::block_types();
    for k in ["7mint", "7burn", "7xfer", "7update_token", "37approve", "37approve_coll", "37revoke", "37revoke_coll", "37xfer"] { check(t.iter().filter(|x| x.as_str() == k).count() == 1, k); }
    check(t.len() == 9, "no other");
    tick();
    check(allow(7, B, 1, 0, None), "approved");
    tick();
    check(pull(8, A, C, 1), "pulled");
    tick();
    let r: Option<Result<Nat, UpdateNftError>> = call(UPDATE, "update_nft_metadata", (UpdateNftArgs { token_id: nat(1), metadata: vec![("k".into(), Value::Nat(nat(7)))] },), ADMIN);
    check(matches!(r, Some(Ok(_))), "updated");
}
/// the same request again is refused while it is accepted at all
#[no_mangle] pub extern "C" fn d_c34() {
    setup(&[A, A]);
    let t = tick();
    let mut a = xfer_arg(B.acct(), 1);
    a.created_at_time = Some(t - 1_000_000_000);
    check(ok1t(&transfer(7, vec![a.clone()])), "moved");
    at(t + 1_000_000_000);
    check(ok1t(&transfer(8, vec![xfer_arg(A.acct(), 1)])), "moved back");
    at(t + 5_000_000_000);
    check(!ok1t(&transfer(7, vec![a])), "the repetition is refused");
    check(owner_is(1, Some(A)), "not moved");
    let p = appr(1, B, 0, None);
    check(ok1(&approve(7, vec![p.clone()])), "approved");
    at(t + 9_000_000_000);
    check(!ok1(&approve(7, vec![p])), "the second approval is refused");
    at(t + 9_500_000_000);
    check(ok1t(&transfer(7, vec![xfer_arg(B.acct(), 1)])), "another transfer");
}
// ---- the command line tool ----
use cli::{start, Line, Typed};
#[derive(CandidType, Deserialize)]
struct Nothing {}
#[derive(CandidType, Deserialize)]
enum No { ConcurrentManagementCall }
/// every chunk of a long file has its own number
#[no_mangle] pub extern "C" fn d_c35() {
    let data = vec![7u8; 259];
    let t = Typed { files: vec![("f", data)], line: Line::default().one("file_path", b"f").one("destination_path", b"/d").num("chunk_size", 1), ..Default::default() };
    let r = start(0, &t);
    respond(0, 0, &enc(Ok::<Nothing, No>(Nothing {})));
    for i in 0..259u32 {
        let a: admin::StoreChunk = dec(&field(4, i + 1));
        check(un(&a.chunk_id) == i as u64, "chunk number");
        respond(i + 1, 0, &enc(Ok::<Nothing, No>(Nothing {})));
    }
    let _ = r;
}
fn minted(l: Line) -> Option<MintArgs> {
    let _ = start(4, &Typed { line: l, ..Default::default() });
    if ncalls() == 1 { Some(dec(&field(4, 0))) } else { None }
}
/// a memo and a large number arrive as typed
#[no_mangle] pub extern "C" fn d_c36() {
    let l = Line::default().one("owner", pr(7).to_text().as_bytes()).one("name", b"n").one("memo", b" a ").all("metadata", vec![b"k:18446744073709551615".to_vec(), b"t: x".to_vec()]);
    let a = minted(l).unwrap();
    check(a.mint_requests[0].memo == Some(serde_bytes::ByteBuf::from(b" a ".to_vec())), "memo");
    check(a.mint_requests[0].metadata[0].1 == Value::Nat(nat(u64::MAX)), "number");
    check(a.mint_requests[0].metadata[1].1 == Value::Text(" x".into()), "text");
}
/// every spelling names its own permission
#[no_mangle] pub extern "C" fn d_c37() {
    let mut n = 0;
    for (name, p) in [("read-uploads", Permission::ReadUploads), ("update-metadata", Permission::UpdateMetadata), ("Update_Collection_Metadata", Permission::UpdateCollectionMetadata), ("updateuploads", Permission::UpdateUploads)] {
        let mut l = Line::default();
        l.sub = Some(("revoke", Box::new(Line::default().one("principal", pr(9).to_text().as_bytes()).one("permission", name.as_bytes()))));
        let _ = start(5, &Typed { line: l, ..Default::default() });
        check(ncalls() == n + 1, "asked");
        let a: PermArgs = dec(&field(4, n));
        check(a.permission == p, "permission");
        n += 1;
    }
}
/// the second attribute is validated too
#[no_mangle] pub extern "C" fn d_c38() {
    for (doc, good) in [(r#"{"attributes":[{"trait_type":"a","value":1},{"trait_type":"b","value":2}]}"#, true), (r#"{"attributes":[{"trait_type":"a","value":1},{"value":2}]}"#, false), (r#"{"attributes":[{"trait_type":"a","value":null,"display_type":5}]}"#, false)] {
        let r = start(1, &Typed { files: vec![("m", doc.as_bytes().to_vec())], line: Line::default().one("metadata_file", b"m"), ..Default::default() });
        check(r.end().ok == good, doc);
    }
}
