//! Permissions (C15), token metadata (C20, C26), collection metadata (C21), upgrades (C22).
use crate::world::*;
use crate::appr::{grant, list_tok, list_coll};
use crate::hist::burn;
use serde_bytes::ByteBuf;

#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct InitUpload { pub file_hash: String, pub chunk_size: Option<u64>, pub file_path: String, pub file_size: u64 }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct StoreChunk { pub chunk_data: ByteBuf, pub file_path: String, pub chunk_id: Nat }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct PathArg { pub file_path: String }

/// Guarded calls: name, what they need
const GUARDED: [(&str, Permission); 13] = [
    ("mint", Permission::Minting), ("update_nft_metadata", Permission::UpdateMetadata), ("update_collection_metadata", Permission::UpdateCollectionMetadata),
    ("grant_permission", Permission::ManageAuthorities), ("revoke_permission", Permission::ManageAuthorities),
    ("get_user_permissions", Permission::ManageAuthorities), ("has_permission", Permission::ManageAuthorities),
    ("init_upload", Permission::UpdateUploads), ("store_chunk", Permission::UpdateUploads), ("finalize_upload", Permission::UpdateUploads), ("cancel_upload", Permission::UpdateUploads),
    ("get_upload_status", Permission::ReadUploads), ("get_all_uploads", Permission::ReadUploads)];
fn guarded_arg(m: usize) -> Vec<u8> {
    match m {
        0 => enc(MintArgs { mint_requests: vec![mint_req(Ac::plain(9))] }),
        1 => enc(UpdateNftArgs { token_id: nat(1), metadata: vec![("k".into(), Value::Text("v".into()))] }),
        2 => { let mut u = UpdateCollArgs::none(); u.name = Some("X".into()); enc(u) }
        3 => enc(PermArgs { principal: pr(77), permission: Permission::Minting }),
        4 => enc(PermArgs { principal: pr(78), permission: Permission::Minting }),
        5 => enc(UserArgs { principal: pr(78) }),
        6 => enc(PermArgs { principal: pr(78), permission: Permission::Minting }),
        7 => enc(InitUpload { file_hash: "h".into(), chunk_size: None, file_path: "/a".into(), file_size: 1 }),
        8 => enc(StoreChunk { chunk_data: ByteBuf::from(vec![1]), file_path: "/a".into(), chunk_id: nat(0) }),
        9 | 10 => enc(PathArg { file_path: "/a".into() }),
        11 => enc("/a".to_string()),
        _ => encs((None::<Nat>, None::<Nat>)),
    }
}
/// A fingerprint of everything a permission protects, as ADMIN sees it.
pub fn snapshot() -> Vec<u8> {
    let mut s = vec![];
    for (m, a) in [("icrc7_collection_metadata", encs(())), ("icrc7_tokens", encs((None::<Nat>, None::<Nat>))), ("icrc7_token_metadata", encs((vec![nat(1), nat(2)],))), ("icrc7_owner_of", encs((vec![nat(1), nat(2), nat(3)],))), ("icrc3_get_blocks", encs((vec![GetBlocksReq { start: nat(0), length: nat(20) }],)))] {
        match call_raw(QUERY, m, &a, ADMIN) { Some(b) => s.extend(b), None => check(false, "query-answers") }
    }
    s
}
/// param 0: the method. One user holds exactly the permission it needs, another all the others, ADMIN none.
#[no_mangle]
pub extern "C" fn h_c15_guard() {
    let m = param(0) as usize;
    let (name, need) = GUARDED[m];
    let (u, w) = (any_u8("holder"), any_u8("other"));
    assume((u != w) & (u != 99) & (w != 99));
    let mut i = init_args();
    i.test_mode = false;
    let others: Vec<Permission> = PERMS.iter().cloned().filter(|p| *p != need).collect();
    i.permissions.user_permissions = vec![(pr(u), vec![need]), (pr(w), others), (pr(99), vec![Permission::Minting])];
    boot_ok(i);
    tick();
    check(matches!(mint(99, vec![mint_req(Ac::plain(7))]), Some(Ok(_))), "holder-served");
    let s0 = snapshot();
    tick();
    let c = any_u8("caller");
    let x = raw(if matches!(m, 5 | 6 | 11 | 12) { QUERY } else { UPDATE }, CORE, name, &guarded_arg(m), pr(c).as_slice());
    let served = matches!(st(x), St::Replied | St::Pending);
    let may = (c == u) | ((need == Permission::Minting) & (c == 99));
    check(served == may, "exactly-the-permitted-served");
    if served { cover("served"); } else { cover("refused"); check(snapshot() == s0, "refused-changes-nothing"); check(ncalls() == 0, "refused-changes-nothing"); }
}
/// Two arbitrary grants or revokes by anyone; then has_permission, get_user_permissions and the effect.
#[no_mangle]
pub extern "C" fn h_c15_grants() {
    let mut i = init_args();
    i.test_mode = false;
    i.permissions.user_permissions = vec![(pr(ADMIN), vec![Permission::ManageAuthorities, Permission::Minting])];
    boot_ok(i);
    // (who, which) pairs in force
    let mut held: Vec<(u8, usize)> = vec![(ADMIN, 1), (ADMIN, 0)];
    let has = |h: &Vec<(u8, usize)>, p: u8, k: usize| { let mut r = false; for (q, j) in h { r = r | ((*q == p) & (*j == k)); } r };
    for step in 0..2 {
        tick();
        let g = param(step) == 1;
        let (c, p, k) = (any_u8("caller"), any_u8("whom"), choose(3) as usize);
        let may = has(&held, c, 1);
        let r: Option<Result<(), PermError>> = call(UPDATE, if g { "grant_permission" } else { "revoke_permission" }, (PermArgs { principal: pr(p), permission: PERMS[k] },), c);
        let ok = matches!(r, Some(Ok(())));
        check(ok == may, "only-authorities-grant");
        if ok { cover(if g { "granted" } else { "revoked" }); if g { held.push((p, k)); } else { held.retain(|(q, j)| !((*q == p) & (*j == k))); } } else { cover("refused"); }
    }
    // effect: minting works exactly for the holders of Minting
    tick();
    let q = any_u8("probe");
    let r = mint(q, vec![]);
    check(matches!(r, Some(Ok(_))) == has(&held, q, 0), "grant-takes-effect");
    // and the answers of ADMIN's queries agree, as long as it may ask
    for k in 0..3 {
        let r: Option<Result<bool, PermError>> = call(QUERY, "has_permission", (PermArgs { principal: pr(q), permission: PERMS[k] },), ADMIN);
        match r { Some(Ok(b)) => { check(b == has(&held, q, k), "has-permission-truthful"); cover("asked"); } _ => check(!has(&held, ADMIN, 1), "only-authorities-ask") }
    }
    let r: Option<Result<Vec<Permission>, PermError>> = call(QUERY, "get_user_permissions", (UserArgs { principal: pr(q) },), ADMIN);
    if let Some(Ok(l)) = r { for k in 0..3 { check(l.contains(&PERMS[k]) == has(&held, q, k), "listing-truthful"); } for k in 3..6 { check(!l.contains(&PERMS[k]), "listing-truthful"); } }
}

// ---- token metadata ----
/// A value of one of the six kinds with unknown content.
pub fn any_value(kind: u64) -> Value {
    match kind {
        0 => Value::Nat(nat(any_u8("nat") as u64)),
        1 => Value::Int(Int::from(any_u8("int") as i8 as i64)),
        2 => { let s: Vec<u8> = (0..2).map(|_| { let c = any_u8("char"); assume(c >= 32 && c < 127); c }).collect(); Value::Text(String::from_utf8(s).unwrap()) }
        3 => Value::Blob(ByteBuf::from(vec![any_u8("byte"), any_u8("byte"), any_u8("byte")])),
        4 => Value::Array(vec![Value::Blob(ByteBuf::from(vec![any_u8("byte")])), Value::Text("".into()), Value::Array(vec![]), Value::Nat(nat(300))]),
        5 => Value::Map(vec![("a".into(), Value::Map(vec![])), ("b".into(), Value::Array(vec![Value::Int(Int::from(-300))])), ("c".into(), Value::Blob(ByteBuf::from(vec![any_u8("byte")])))]),
        6 => Value::Nat(nat(match choose(9) { 0 => 0, 1 => 255, 2 => 256, 3 => 65535, 4 => 65536, 5 => u32::MAX as u64, 6 => u32::MAX as u64 + 1, 7 => i64::MAX as u64 + 1, _ => u64::MAX })),
        _ => Value::Int(Int::from(match choose(8) { 0 => i64::MIN, 1 => i64::MAX, 2 => -1, 3 => -256, 4 => -257, 5 => i32::MIN as i64, 6 => -25, _ => i32::MIN as i64 - 1 })),
    }
}
pub fn meta_of(t: u64) -> Option<Vec<(String, Value)>> {
    let r: Option<Vec<Option<Vec<(String, Value)>>>> = call(QUERY, "icrc7_token_metadata", (vec![nat(t)],), ADMIN);
    match r { Some(v) if v.len() == 1 => v[0].clone(), _ => { check(false, "metadata-answers"); None } }
}
/// the same as bytes, so that equality is one question
fn same_meta(t: u64, want: &[(String, Value)], l: &str) {
    match meta_of(t) { Some(m) => check(enc(m) == enc(want.to_vec()), l), None => check(false, l) }
}
/// param 0: kind of value. Minted in, read back; then replaced; the neighbour is untouched.
#[no_mangle]
pub extern "C" fn h_c20_value() {
    boot_ok(init_args());
    tick();
    let v = any_value(param(0));
    let m1 = vec![("k".to_string(), v.clone()), ("other".to_string(), Value::Text("t".into()))];
    let m2 = vec![("k".to_string(), Value::Text("u".into()))];
    let r = mint(ADMIN, vec![MintRequest { token_owner: Ac::plain(7), memo: None, metadata: m1.clone() }, MintRequest { token_owner: Ac::plain(8), memo: None, metadata: m2.clone() }]);
    check(matches!(r, Some(Ok(_))), "mint-answers");
    same_meta(1, &m1, "metadata-as-minted");
    same_meta(2, &m2, "metadata-as-minted");
    cover("minted");
    tick();
    let m3 = vec![("new".to_string(), v)];
    let r: Option<Result<Nat, UpdateNftError>> = call(UPDATE, "update_nft_metadata", (UpdateNftArgs { token_id: nat(2), metadata: m3.clone() },), ADMIN);
    check(matches!(r, Some(Ok(_))), "update-answers");
    same_meta(2, &m3, "metadata-as-updated");
    same_meta(1, &m1, "other-metadata-kept");
}
/// Any token, any keys: an update replaces the whole of that token's metadata and nothing else; a transfer keeps it.
#[no_mangle]
pub extern "C" fn h_c20_update() {
    boot_ok(init_args());
    tick();
    let b = |n: &str| { let x = any_u8(n); assume(x >= 24); Value::Blob(ByteBuf::from(vec![x])) };
    let ms = vec![vec![], vec![("a".to_string(), Value::Nat(nat(5))), ("b".to_string(), Value::Text("w".into()))], vec![("a".to_string(), Value::Nat(nat(6)))]];
    let r = mint(ADMIN, (1..3).map(|k| MintRequest { token_owner: Ac::plain(7), memo: None, metadata: ms[k].clone() }).collect());
    check(matches!(r, Some(Ok(_))), "mint-answers");
    let mut ms = ms;
    for _ in 0..2 {
        tick();
        let t = conc(below("tid", 4) as u64) as usize;
        let new = match choose(3) { 0 => vec![], 1 => vec![("b".to_string(), b("v4"))], _ => vec![("a".to_string(), b("v5")), ("c".to_string(), Value::Int(Int::from(-7)))] };
        let l0 = log_len();
        let r: Option<Result<Nat, UpdateNftError>> = call(UPDATE, "update_nft_metadata", (UpdateNftArgs { token_id: nat(t as u64), metadata: new.clone() },), ADMIN);
        let ok = matches!(r, Some(Ok(_)));
        check(ok == (t == 1 || t == 2), "update-existing-only");
        check(log_len() == l0 + ok as u64, "one-block-per-success");
        if ok { cover("updated"); ms[t] = new; } else { cover("refused"); check(matches!(r, Some(Err(UpdateNftError::TokenDoesNotExist))), "no-token-answer"); }
        for k in 1..3 { same_meta(k as u64, &ms[k], "metadata"); }
    }
    tick();
    check(ok1t(&transfer(7, vec![xfer_arg(Ac::plain(9), 1)])), "owner-not-refused");
    for k in 1..3 { same_meta(k as u64, &ms[k], "metadata-survives-transfer"); }
    check(meta_of(3).is_none() && meta_of(0).is_none(), "no-token-no-metadata");
}

// ---- collection metadata ----
#[derive(Clone, PartialEq)]
struct Cfg { txt: [Option<String>; 4], num: [Option<u64>; 9], atomic: Option<bool>, own: Vec<(String, Value)> }
const NUMQ: [&str; 8] = ["icrc7_supply_cap", "icrc7_max_query_batch_size", "icrc7_max_update_batch_size", "icrc7_max_take_value", "icrc7_default_take_value", "icrc7_max_memo_size", "icrc7_tx_window", "icrc7_permitted_drift"];
fn read_cfg() -> Cfg {
    let t = |m: &str| -> Option<String> { call(QUERY, m, (), ADMIN) };
    let o = |m: &str| -> Option<String> { let r: Option<Option<String>> = call(QUERY, m, (), ADMIN); match r { Some(x) => x, None => { check(false, "config-answers"); None } } };
    let mut num: [Option<u64>; 9] = [None; 9];
    for (i, m) in NUMQ.iter().enumerate() { let r: Option<Option<Nat>> = call(QUERY, m, (), ADMIN); match r { Some(x) => num[i] = x.map(|n| un(&n)), None => check(false, "config-answers") } }
    let a: Option<Option<bool>> = call(QUERY, "icrc7_atomic_batch_transfers", (), ADMIN);
    Cfg { txt: [t("icrc7_symbol"), t("icrc7_name"), o("icrc7_description"), o("icrc7_logo")], num, atomic: a.unwrap_or(None), own: vec![] }
}
fn same_cfg(a: &Cfg, b: &Cfg) -> bool {
    let mut r = true;
    for i in 0..4 { r = r & (a.txt[i] == b.txt[i]); }
    for i in 0..9 { r = r & match (a.num[i], b.num[i]) { (None, None) => true, (Some(x), Some(y)) => x == y, _ => false }; }
    r & (a.atomic == b.atomic)
}
fn letter(n: &str) -> String { let c = any_u8(n); assume(c >= 97 && c < 123); String::from_utf8(vec![c]).unwrap() }
/// init with any values, then one update of any subset of two chosen fields: exactly those change, and collection_metadata says the same
#[no_mangle]
pub extern "C" fn h_c21_update() {
    let mut i = init_args();
    let mut num = [None; 9];
    for k in 0..8 { if k % 2 == param(1) as usize { num[k] = Some(40 + k as u64); } }
    i.supply_cap = num[0].map(nat); i.max_query_batch_size = num[1].map(nat); i.max_update_batch_size = num[2].map(nat); i.max_take_value = num[3].map(nat);
    i.default_take_value = num[4].map(nat); i.max_memo_size = num[5].map(nat); i.tx_window = num[6].map(nat); i.permitted_drift = num[7].map(nat);
    i.atomic_batch_transfers = if param(1) == 1 { Some(true) } else { None };
    let own = if param(1) == 1 { vec![("x:a".to_string(), Value::Nat(nat(any_u8("own") as u64)))] } else { vec![] };
    i.collection_metadata = own.clone();
    boot_ok(i);
    let mut c = Cfg { txt: [Some("S".into()), Some("N".into()), Some("d".into()), None], num, atomic: if param(1) == 1 { Some(true) } else { None }, own };
    check(same_cfg(&read_cfg(), &c), "config-as-initialised");
    check_coll_meta(&c, 0);
    tick();
    let mut u = UpdateCollArgs::none();
    let n = if param(0) == 0 { 1 } else { 2 };
    for _ in 0..n {
        match choose(15) {
            0 => { let s = letter("txt"); u.symbol = Some(s.clone()); c.txt[0] = Some(s); }
            1 => { let s = letter("txt"); u.name = Some(s.clone()); c.txt[1] = Some(s); }
            2 => { let s = letter("txt"); u.description = Some(s.clone()); c.txt[2] = Some(s); }
            3 => { let s = letter("txt"); u.logo = Some(s.clone()); c.txt[3] = Some(s); }
            4 => { let b = flip(); u.atomic_batch_transfers = Some(b); c.atomic = Some(b); }
            14 => {
                let v: Vec<(String, Value)> = match choose(4) { 0 => vec![], 1 => vec![("x:b".into(), Value::Text(letter("txt")))], 2 => vec![("x:a".into(), Value::Int(Int::from(-3))), ("x:c".into(), Value::Array(vec![Value::Blob(ByteBuf::from(vec![any_u8("num")]))]))],
                    // the standard entries cannot be overridden
                    _ => vec![("icrc7:name".into(), Value::Text("other".into())), ("x:d".into(), Value::Map(vec![("e".into(), Value::Nat(nat(1)))]))] };
                u.collection_metadata = Some(v.clone());
                c.own = v.into_iter().filter(|(k, _)| k != "icrc7:name").collect();
            }
            13 => { u.max_canister_storage_threshold = Some(nat(any_u8("num") as u64)); }
            k => {
                let x = any_u8("num") as u64;
                assume(x >= 1 && x < 128);
                c.num[k as usize - 5] = Some(x);
                let f = Some(nat(x));
                match k { 5 => u.supply_cap = f, 6 => u.max_query_batch_size = f, 7 => u.max_update_batch_size = f, 8 => u.max_take_value = f, 9 => u.default_take_value = f, 10 => u.max_memo_size = f, 11 => u.tx_window = f, _ => u.permitted_drift = f }
            }
        }
    }
    let r: Option<Result<(), SimpleError>> = call(UPDATE, "update_collection_metadata", (u,), ADMIN);
    check(matches!(r, Some(Ok(()))), "update-answers");
    cover("updated");
    check(same_cfg(&read_cfg(), &c), "exactly-named-fields-change");
    check_coll_meta(&c, 0);
}
fn check_coll_meta(c: &Cfg, total: u64) {
    let m: Option<Vec<(String, Value)>> = call(QUERY, "icrc7_collection_metadata", (), ADMIN);
    let m = match m { Some(m) => m, None => { check(false, "config-answers"); return } };
    let mut want: Vec<(String, Value)> = vec![("icrc7:total_supply".into(), Value::Nat(nat(total)))];
    for (k, n) in ["symbol", "name", "description", "logo"].iter().enumerate() { if let Some(t) = &c.txt[k] { want.push((format_key(n), Value::Text(t.clone()))); } }
    for (k, n) in ["supply_cap", "max_query_batch_size", "max_update_batch_size", "max_take_value", "default_take_value", "max_memo_size", "tx_window", "permitted_drift"].iter().enumerate() { if let Some(x) = c.num[k] { want.push((format_key(n), Value::Nat(nat(x)))); } }
    if let Some(b) = c.atomic { want.push((format_key("atomic_batch_transfers"), Value::Text(if b { "true".into() } else { "false".into() }))); }
    want.extend(c.own.iter().cloned());
    check(m.len() == want.len(), "collection-metadata");
    for (k, v) in &want { check(m.iter().any(|(n, x)| n == k && enc(x.clone()) == enc(v.clone())), "collection-metadata"); }
}
fn format_key(n: &str) -> String { ["icrc7:", n].concat() }

// ---- upgrade ----
pub fn upgrade_core() -> bool {
    let c = msg(3, CORE, "", &[], pr(ADMIN).as_slice());
    if st(c) != St::Replied { log("pre_upgrade"); return false; }
    upgrade(CORE, M_CORE);
    let c = msg(4, CORE, "", &enc(Args::Upgrade(UpgradeArgs { version: BuildVersion { major: 2, minor: 0, patch: 0 }, commit_hash: "e".into() })), pr(ADMIN).as_slice());
    st(c) == St::Replied
}
/// what every query says, for accounts o1, o2, s
fn picture(acs: &[Ac]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut q = |m: &str, a: Vec<u8>| match call_raw(QUERY, m, &a, ADMIN) { Some(b) => v.push(b), None => check(false, "query-answers") };
    let none = None::<Nat>;
    q("icrc7_collection_metadata", encs(()));
    q("icrc7_tokens", encs((none.clone(), none.clone())));
    q("icrc7_total_supply", encs(()));
    q("icrc7_owner_of", encs((vec![nat(1), nat(2), nat(3), nat(4)],)));
    q("icrc7_token_metadata", encs((vec![nat(1), nat(2), nat(3)],)));
    q("icrc7_balance_of", encs((acs.iter().map(|a| a.acct()).collect::<Vec<_>>(),)));
    for a in acs {
        q("icrc7_tokens_of", encs((a.acct(), none.clone(), none.clone())));
        q("icrc37_get_collection_approvals", encs((a.acct(), None::<CollApproval>, none.clone())));
        q("icrc37_is_approved", encs(((1..4u64).map(|t| IsApprovedArg { spender: a.acct(), from_subaccount: osub(a.s), token_id: nat(t) }).collect::<Vec<_>>(),)));
        q("get_user_permissions", encs((UserArgs { principal: pr(a.p) },)));
    }
    for t in 1..4u64 { q("icrc37_get_token_approvals", encs((nat(t), None::<TokenApproval>, none.clone()))); }
    for m in ["icrc37_max_approvals_per_token_or_collection", "icrc37_max_revoke_approvals"] { q(m, encs(())); }
    q("icrc3_get_blocks", encs((vec![GetBlocksReq { start: nat(0), length: nat(20) }],)));
    q("icrc3_get_tip_certificate", encs(()));
    for m in NUMQ { q(m, encs(())); }
    for m in ["icrc7_symbol", "icrc7_name", "icrc7_description", "icrc7_logo", "icrc7_atomic_batch_transfers", "icrc3_supported_block_types"] { q(m, encs(())); }
    v
}
/// param 0: history before the upgrade; param 1: number of upgrades in a row
#[no_mangle]
pub extern "C" fn h_c22_upgrade() {
    let mut i = init_args();
    i.supply_cap = Some(nat(70));
    i.max_memo_size = Some(nat(33));
    i.permitted_drift = Some(nat(1_000_000_000));
    i.max_take_value = Some(nat(50));
    i.approval_init = InitApprovals { max_approvals_per_token_or_collection: Some(nat(3)), max_revoke_approvals: Some(nat(4)) };
    if param(0) & 2 == 2 {
        i.logo = Some("https://x.org/l".into()); i.max_query_batch_size = Some(nat(71)); i.max_update_batch_size = Some(nat(72)); i.default_take_value = Some(nat(45)); i.tx_window = Some(nat(11_000_000_000));
        i.atomic_batch_transfers = Some(true); i.max_canister_storage_threshold = Some(nat(1 << 33));
        i.collection_metadata = vec![("a".into(), Value::Text("b".into())), ("c".into(), Value::Map(vec![("d".into(), Value::Int(Int::from(-1)))]))];
    } else { i.description = None; i.approval_init = InitApprovals { max_approvals_per_token_or_collection: None, max_revoke_approvals: None }; }
    boot_ok(i);
    let (o1, o2, s) = (any_as("o1"), Ac::new(150, 0), any_p("s"));
    assume((o1.p >= 128) & (o1.s >= 128) & (s.p >= 128));
    mint_all(&[o1, o2]);
    let k = param(0);
    if k & 1 == 1 { grant(o1, 1, false, s, Some(T0 + 1_000_000_000_000)); grant(o2, 2, true, s, None); }
    if k & 2 == 2 {
        tick();
        let r: Option<Result<Nat, UpdateNftError>> = call(UPDATE, "update_nft_metadata", (UpdateNftArgs { token_id: nat(1), metadata: vec![("k".into(), Value::Blob(ByteBuf::from(vec![0, 23, 24, 127, 128, 255]))), ("m".into(), Value::Map(vec![("i".into(), Value::Int(Int::from(-300))), ("n".into(), Value::Nat(nat(70_000)))])), ("t".into(), Value::Array(vec![Value::Text("x".into())]))] },), ADMIN);
        check(matches!(r, Some(Ok(_))), "update-answers");
        let r: Option<Result<(), PermError>> = call(UPDATE, "grant_permission", (PermArgs { principal: pr(s.p), permission: Permission::UpdateMetadata },), ADMIN);
        check(matches!(r, Some(Ok(()))), "grant-answers");
    }
    if k & 4 == 4 { tick(); check(matches!(burn(o2.p, 2), Some(Ok(()))), "owner-may-burn"); }
    tick();
    let a = picture(&[o1, o2, s]);
    for _ in 0..param(1) { check(upgrade_core(), "upgrade-succeeds"); }
    cover("upgraded");
    let b = picture(&[o1, o2, s]);
    check(a == b, "upgrade-keeps-everything");
    // and life goes on where it stopped
    tick();
    let l0 = log_len();
    check(mint1(Ac::plain(9)) == 3, "ids-continue");
    check(log_len() == l0 + 1, "log-continues");
    tick();
    let d = Ac::new(9, 0);
    assume(!o1.same(d));
    let by_spender = k & 1 == 1 && flip();
    if by_spender { cover("spender"); check(ok1(&transfer_from(s.p, vec![xfrom(o1, d, 1, 0)])), "approval-survives"); }
    else { check(ok1t(&transfer(o1.p, vec![xfer_arg(d.acct(), 1)])), "owner-not-refused"); }
    check(owner_is(1, Some(d)), "owner");
    let _ = (list_tok(1), list_coll(o2));
}
