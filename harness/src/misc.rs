//! Atomic batches (C31), consent messages (C32), self-description (C33), repeated requests (C34).
use crate::world::*;
use crate::appr::grant;
use crate::hist::burn;
use crate::admin::upgrade_core;

fn atomic_world(owners: &[Ac]) -> Toks {
    let mut i = init_args();
    let later = flip();
    i.atomic_batch_transfers = if later { None } else { Some(true) };
    boot_ok(i);
    if later {
        let mut u = UpdateCollArgs::none();
        u.atomic_batch_transfers = Some(true);
        let r: Option<Result<(), SimpleError>> = call(UPDATE, "update_collection_metadata", (u,), ADMIN);
        check(matches!(r, Some(Ok(()))), "made-atomic");
    }
    mint_all(owners)
}
/// What an atomic batch did: Some(per request) when it was answered, None when the call failed.
fn judge(v: &mut Toks, got: Option<Vec<bool>>, want: &[(bool, u8, Ac)], l0: u64) {
    let all = want.iter().all(|w| w.0);
    let n = want.len();
    match got {
        Some(ok) => {
            check(ok.len() == n, "one-answer-per-request");
            let done = ok.iter().filter(|x| **x).count();
            check((done == 0) | (done == n), "all-or-nothing");
            check((done == n) == all, "performed-exactly-when-all-valid");
            check(log_len() == l0 + done as u64, "one-block-per-move");
            if done == n { cover("performed"); for w in want { set(v, w.1, Some(w.2)); } } else { cover("answered-refused"); }
        }
        None => {
            cover("call-failed");
            check(!all, "performed-exactly-when-all-valid");
            check(log_len() == l0, "nothing-logged");
        }
    }
    for t in 1..v.len() { check(owner_is(t as u64, v[t]), "owner"); }
}
/// icrc7_transfer in an atomic collection: batches of param(0) requests for any tokens to anybody
#[no_mangle]
pub extern "C" fn h_c31_transfer() {
    let o = any_ac("o1");
    let mut v = atomic_world(&[o, any_ac("o2"), o]);
    tick();
    let c = any_u8("caller");
    assume(!is_anon(c));
    let n = param(0);
    let l0 = log_len();
    let mut args = vec![];
    let mut want = vec![];
    let mut cur = v.clone();
    for k in 0..n {
        let t = if n < 3 { below("tid", 5) } else { (k + 1) as u8 };
        let to = any_ac("to");
        let ok = match get(&cur, t) { None => false, Some(w) => (w.p == c) & !to.anon() & !to.same(w) };
        // the same move again in one call is a duplicate; leave it out
        for w in &want { let w: &(bool, u8, Ac) = w; assume((w.1 != t) | (w.2.p != to.p)); }
        if ok { set(&mut cur, t, Some(to)); }
        args.push(xfer_arg(to.acct(), t as u64));
        want.push((ok, t, to));
    }
    let r = transfer(c, args);
    let got = r.map(|x| x.iter().map(|y| matches!(y, Some(Ok(_)))).collect());
    judge(&mut v, got, &want, l0);
}
/// icrc37_transfer_from in an atomic collection; param(0): 0 by a spender for the whole account, 1 one approval for one token each
#[no_mangle]
pub extern "C" fn h_c31_from() {
    let o = Ac::new(7, any_u8("sub"));
    let mut v = atomic_world(&[o, o, Ac::new(8, 0)]);
    let s = any_p("s");
    assume(!s.anon());
    let single = param(0) == 1;
    if single { grant(o, 1, false, s, None); } else { grant(o, 1, true, s, None); }
    tick();
    let l0 = log_len();
    let mut args = vec![];
    let mut want = vec![];
    let mut cur = v.clone();
    let mut live = true;
    let c = any_u8("caller");
    let by = Ac::new(c, 0);
    for k in 0..2 {
        let t = below("tid", 4);
        let to = any_p("to");
        let from = if k as u64 == param(1) { any_ac("from") } else { o };
        let entitled = |w: Ac, live: bool| by.same(w) | (w.same(o) & by.same(s) & (!single | ((t == 1) & live)));
        let ok = match get(&cur, t) { None => false, Some(w) => w.same(from) & !from.same(to) & !to.anon() & entitled(w, live) };
        for w in &want { let w: &(bool, u8, Ac) = w; assume(w.1 != t); }
        if ok { set(&mut cur, t, Some(to)); if t == 1 { live = false; } }
        args.push(xfrom(from, to, t, 0));
        want.push((ok, t, to));
    }
    let r = transfer_from(c, args);
    let got = match r { Some(Ok(x)) => Some(x.iter().map(|y| matches!(y, Some(Ok(_)))).collect()), Some(Err(_)) => { check(false, "transfer-from-answers"); None } None => None };
    judge(&mut v, got, &want, l0);
}

// ---- C32 ----
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
pub struct Meta { pub language: String, pub utc_offset_minutes: Option<i16> }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub enum Device { GenericDisplay, LineDisplay { characters_per_line: u16, lines_per_page: u16 } }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct Spec { pub metadata: Meta, pub device_spec: Option<Device> }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct ConsentReq { pub method: String, pub arg: Vec<u8>, pub user_preferences: Spec }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct Lines { pub lines: Vec<String> }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub enum ConsentMsg { GenericDisplayMessage(String), LineDisplayMessage { pages: Vec<Lines> } }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct Consent { pub consent_message: ConsentMsg, pub metadata: Meta }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct Descr { pub description: String }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub enum ConsentErr { UnsupportedCanisterCall(Descr), ConsentMessageUnavailable(Descr), InsufficientPayment(Descr), GenericError { error_code: Nat, description: String } }
const METHODS: [&str; 6] = ["icrc7_transfer", "icrc37_approve_tokens", "icrc37_approve_collection", "icrc37_revoke_token_approvals", "icrc37_revoke_collection_approvals", "icrc37_transfer_from"];

fn ask(caller: u8, method: &str, arg: Vec<u8>, meta: Meta) -> Option<Result<Consent, ConsentErr>> {
    let device_spec = match meta.utc_offset_minutes.map_or(0, |x| if x > 0 { 1 } else { 2 }) { 0 => None, 1 => Some(Device::GenericDisplay), _ => Some(Device::LineDisplay { characters_per_line: 20, lines_per_page: 4 }) };
    call(QUERY, "icrc21_canister_call_consent_message", (ConsentReq { method: method.into(), arg, user_preferences: Spec { metadata: meta, device_spec } },), caller)
}
fn text(c: &Consent) -> String {
    match &c.consent_message { ConsentMsg::GenericDisplayMessage(s) => s.clone(), ConsentMsg::LineDisplayMessage { pages } => pages.iter().flat_map(|p| p.lines.clone()).collect::<Vec<_>>().join(" ") }
}
/// The message for each method: param(0) the method, param(1) how many requests the call makes.
#[no_mangle]
pub extern "C" fn h_c32_message() {
    boot_ok(init_args());
    let m = param(0) as usize;
    let n = param(1) as usize;
    if m == 2 || m == 4 { mint_all(&[Ac::new(7, 0)]); }
    let who = [[9u8, 1], [200, 77], [3, 3]];
    let mut named: Vec<u8> = vec![];
    let opt = flip();
    let memo = || if opt { Some(ByteBuf::from(vec![any_u8("memo"), 1])) } else { None };
    let tid = || nat(below("tid", 100) as u64);
    let mut pick = || { let p = who[choose(3) as usize]; named.extend_from_slice(&p); Account { owner: Principal::from_slice(&p), subaccount: if opt { Some(sub(5)) } else { None } } };
    let inf = |spender: Account| ApprovalInfo { spender, from_subaccount: None, expires_at: if opt { Some(50) } else { None }, memo: memo(), created_at_time: T0 };
    let arg = match m {
        0 => enc((0..n).map(|_| TransferArg { to: Ac::new(any_u8("to"), 0).acct(), token_id: tid(), memo: memo(), from_subaccount: None, created_at_time: None }).collect::<Vec<_>>()),
        1 => enc((0..n).map(|_| ApproveTokenArg { token_id: tid(), approval_info: inf(Ac::new(any_u8("sp"), 0).acct()) }).collect::<Vec<_>>()),
        2 => enc((0..n).map(|_| ApproveCollArg { approval_info: inf(pick()) }).collect::<Vec<_>>()),
        3 => enc((0..n).map(|_| RevokeTokenArg { spender: if opt { Some(Ac::new(any_u8("sp"), 0).acct()) } else { None }, from_subaccount: None, token_id: tid(), memo: memo(), created_at_time: None }).collect::<Vec<_>>()),
        4 => enc((0..n).map(|_| RevokeCollArg { spender: if opt { Some(Ac::new(any_u8("sp"), 0).acct()) } else { None }, from_subaccount: None, memo: memo(), created_at_time: None }).collect::<Vec<_>>()),
        _ => enc((0..n).map(|_| TransferFromArg { spender_subaccount: None, from: Ac::new(any_u8("from"), 0).acct(), to: Ac::new(any_u8("to"), 0).acct(), token_id: tid(), memo: memo(), created_at_time: None }).collect::<Vec<_>>()),
    };
    let l0 = log_len();
    let meta = match choose(3) { 0 => Meta { language: "en".into(), utc_offset_minutes: None }, 1 => Meta { language: "fr-CH".into(), utc_offset_minutes: Some(60) }, _ => Meta { language: "".into(), utc_offset_minutes: Some(-300) } };
    match ask(any_u8("caller"), METHODS[m], arg, meta.clone()) {
        Some(Ok(c)) => {
            cover("message");
            check(c.metadata == meta, "metadata-returned");
            let s = text(&c);
            check(s.contains(METHODS[m]), "names-the-method");
            for (k, o) in METHODS.iter().enumerate() { if k != m { check(!s.contains(o), "names-no-other-method"); } }
            let verb = ["transfer", "approve", "approve", "revoke", "revoke", "transfer"][m];
            check(s.replace(METHODS[m], "").to_lowercase().contains(verb), "says-what-it-does");
            if n > 1 && m != 2 && m != 4 { check(s.contains(&n.to_string()), "says-how-many"); }
            if m == 2 { for p in named.chunks(2) { check(s.contains(&Principal::from_slice(p).to_text()), "names-every-spender"); } }
        }
        _ => check(false, "decodable-call-described"),
    }
    check(log_len() == l0, "nothing-happens");
}
/// Calls it cannot describe: unknown methods, and arguments that are not the method's.
#[no_mangle]
pub extern "C" fn h_c32_refuse() {
    boot_ok(init_args());
    let k = choose(12);
    let (m, a): (&str, Vec<u8>) = match k {
        0 => ("mint", enc(MintArgs { mint_requests: vec![] })),
        1 => ("", vec![]),
        2 => ("icrc7_transferx", enc(vec![xfer_arg(Ac::plain(9), 1)])),
        3 => ("burn_nft", enc(nat(1))),
        4 => ("icrc21_canister_call_consent_message", vec![]),
        5 => ("icrc7_transfer", enc(nat(1))),
        6 => ("icrc37_approve_tokens", enc("x")),
        7 => ("icrc37_approve_collection", enc(vec![nat(3)])),
        8 => ("icrc37_revoke_token_approvals", enc(vec![xfer_arg(Ac::plain(9), 1)][0].to.clone())),
        9 => ("icrc37_transfer_from", vec![]),
        10 => (METHODS[choose(6) as usize], (0..choose(4)).map(|_| any_u8("byte")).collect()),
        _ => { let m = METHODS[choose(6) as usize]; (m, [&b"DIDL"[..], &[any_u8("b1"), any_u8("b2")]].concat()) }
    };
    match ask(any_u8("caller"), m, a, Meta { language: "en".into(), utc_offset_minutes: None }) {
        Some(r) => { let no = matches!(r, Err(ConsentErr::UnsupportedCanisterCall(_))); check(no | ((k > 9) & r.is_ok()), "undescribable-call-refused"); if no { cover("refused"); } }
        None => check(false, "consent-answers"),
    }
}

// ---- C33 ----
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct Std { pub name: String, pub url: String }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct BType { pub block_type: String, pub url: String }
fn btype(b: &Value) -> Option<String> {
    if let Value::Map(m) = b { for (k, v) in m { if k == "btype" { if let Value::Text(s) = v { return Some(s.clone()); } } } }
    None
}
pub fn block_types() -> Vec<String> {
    let r: Option<Vec<BType>> = call(QUERY, "icrc3_supported_block_types", (), ADMIN);
    match r { Some(v) => v.into_iter().map(|x| x.block_type).collect(), None => { check(false, "supported-block-types-answers"); vec![] } }
}

/// Perform operation k (0..9) on token 1 of `a`, with `b` the other account and `c` the spender; false when refused.
fn operate(k: usize, a: Ac, b: Ac, c: Ac) -> bool {
    if k == 5 || k == 7 { grant(a, 1, false, c, None); }
    if k == 6 { grant(a, 1, true, c, None); }
    tick();
    match k {
        0 => matches!(mint(ADMIN, vec![mint_req(b.acct())]), Some(Ok(_))),
        1 => matches!(burn(a.p, 1), Some(Ok(()))),
        2 => ok1t(&transfer(a.p, vec![xfer_arg(b.acct(), 1)])),
        3 => ok1(&approve(a.p, vec![appr(1, c, a.s, None)])),
        4 => ok1(&approve_coll(a.p, vec![ApproveCollArg { approval_info: ainfo(c, a.s, None) }])),
        5 => ok1(&revoke(a.p, vec![RevokeTokenArg { spender: Some(c.acct()), from_subaccount: osub(a.s), token_id: nat(1), memo: None, created_at_time: None }])),
        6 => ok1(&revoke_coll(a.p, vec![RevokeCollArg { spender: Some(c.acct()), from_subaccount: osub(a.s), memo: None, created_at_time: None }])),
        7 => ok1(&transfer_from(c.p, vec![xfrom(a, b, 1, c.s)])),
        _ => { let r: Option<Result<Nat, UpdateNftError>> = call(UPDATE, "update_nft_metadata", (UpdateNftArgs { token_id: nat(1), metadata: vec![("k".into(), Value::Nat(nat(7)))] },), ADMIN); matches!(r, Some(Ok(_))) }
    }
}
fn stds() -> Vec<String> {
    let r: Option<Vec<Std>> = call(QUERY, "icrc10_supported_standards", (), any_u8("asker"));
    match r { Some(v) => v.into_iter().map(|x| x.name).collect(), None => { check(false, "supported-standards-answers"); vec![] } }
}
/// Every operation's block is of a type the canister says it writes; the standards are all named. param 1: after an upgrade
#[no_mangle]
pub extern "C" fn h_c33_types() {
    boot_ok(init_args());
    let (a, b, c) = (any_ac("a"), any_ac("b"), any_p("c"));
    assume(!a.anon() & !b.anon() & !c.anon() & !a.same(b) & !c.same(a));
    mint_all(&[a]);
    if param(1) == 1 {
        check(upgrade_core(), "upgrade-succeeds");
    }
    let k = param(0) as usize;
    let types = block_types();
    let mut t2 = types.clone();
    t2.sort(); t2.dedup();
    check(t2.len() == types.len(), "each-type-once");
    let names = stds();
    for s in ["ICRC-3", "ICRC-7", "ICRC-10", "ICRC-21", "ICRC-37"] { check(names.iter().filter(|n| n.as_str() == s).count() == 1, "standard-listed-once"); }
    // burn_nft takes no subaccount, and a grant within a principal or to oneself may be refused
    let done = operate(k, a, b, c);
    check(done | ((k == 1) & (a.s != 0)) | (a.p == c.p), "allowed-operation-done");
    if !done { kill(); }
    let n = log_len();
    match get_blocks(0, n) {
        Some(r) => {
            check(r.blocks.len() as u64 == n, "every-block-served");
            for x in &r.blocks { match btype(&x.block) { Some(t) => check(types.iter().any(|y| *y == t), "block-type-announced"), None => check(false, "block-has-a-type") } }
        }
        None => check(false, "get-blocks-answers"),
    }
    check(block_types() == types, "announcement-stable");
    cover("done");
}

// ---- C34 ----
/// Any number of operations at one instant, within the batch limits, are all done. param(0): 0 mint, 1 transfer, 2 approve, 3 transfer_from; param(1): configured window (0 none)
#[no_mangle]
pub extern "C" fn h_c34_many() {
    let mut i = init_args();
    i.tx_window = match param(1) { 0 => None, x => Some(nat(x)) };
    boot_ok(i);
    let n = 12u64;
    let o = Ac::new(7, 0);
    let d = any_p("d");
    assume(!d.anon() & !d.is(7));
    let one = flip();
    let m = param(0);
    if m == 0 {
        tick();
        if one { for _ in 0..n { check(matches!(mint(ADMIN, vec![mint_req(d.acct())]), Some(Ok(_))), "allowed-operation-done"); } }
        else { check(matches!(mint(ADMIN, (0..n).map(|_| mint_req(d.acct())).collect()), Some(Ok(_))), "allowed-operation-done"); }
        check(supply() == n, "all-minted");
        cover("done");
        return;
    }
    for _ in 0..n { tick(); mint1(o.acct()); }
    if m == 3 { grant(o, 1, true, Ac::new(9, 0), None); }
    tick();
    let go = |v: Vec<u64>| -> Vec<bool> {
        match m {
            1 => transfer(7, v.iter().map(|t| xfer_arg(d.acct(), *t)).collect()).unwrap_or(vec![]).iter().map(|x| matches!(x, Some(Ok(_)))).collect(),
            2 => match approve(7, v.iter().map(|t| appr(*t as u8, d, 0, None)).collect()) { Some(Ok(r)) => r.iter().map(|x| matches!(x, Some(Ok(_)))).collect(), _ => vec![] },
            _ => match transfer_from(9, v.iter().map(|t| xfrom(o, d, *t as u8, 0)).collect()) { Some(Ok(r)) => r.iter().map(|x| matches!(x, Some(Ok(_)))).collect(), _ => vec![] },
        }
    };
    if one { for t in 1..n + 1 { check(go(vec![t]) == [true], "allowed-operation-done"); } } else { let r = go((1..n + 1).collect()); check(r.len() == n as usize && r.iter().all(|x| *x), "allowed-operation-done"); }
    cover("done");
}

#[derive(Clone, Copy, PartialEq)]
enum Re { Done, Dup, Old, Other }
fn re(r: &Option<ARes>) -> Re { match r { Some(Ok(v)) if v.len() == 1 => match &v[0] { Some(Ok(_)) => Re::Done, Some(Err(AErr::TooOld)) => Re::Old, Some(Err(AErr::Duplicate { .. })) => Re::Dup, _ => Re::Other }, _ => Re::Other } }
/// The request of kind m (0 transfer, 1 transfer_from, 2 approve, 3 approve collection, 4 revoke, 5 revoke collection) of owner 7 (spender 9 for 1) about token 1.
fn request(m: u64, ct: Option<u64>, memo: Option<u8>, to: Ac) -> Re {
    let memo = memo.map(|x| ByteBuf::from(vec![x]));
    let o = Ac::new(7, 0);
    let s = Ac::new(9, 0);
    let inf = |t: u64| { let mut a = ainfo(to, 0, None); a.memo = memo.clone(); a.created_at_time = t; a };
    match m {
        0 => { let mut a = xfer_arg(to.acct(), 1); a.created_at_time = ct; a.memo = memo; match transfer(7, vec![a]) { Some(v) if v.len() == 1 => match &v[0] { Some(Ok(_)) => Re::Done, Some(Err(TransferError::TooOld)) => Re::Old, Some(Err(TransferError::Duplicate { .. })) => Re::Dup, _ => Re::Other }, _ => Re::Other } }
        1 => { let mut a = xfrom(o, to, 1, 0); a.created_at_time = ct; a.memo = memo; re(&transfer_from(9, vec![a])) }
        2 => re(&approve(7, vec![ApproveTokenArg { token_id: nat(1), approval_info: inf(ct.unwrap_or(clock())) }])),
        3 => re(&approve_coll(7, vec![ApproveCollArg { approval_info: inf(ct.unwrap_or(clock())) }])),
        4 => re(&revoke(7, vec![RevokeTokenArg { spender: Some(s.acct()), from_subaccount: None, token_id: nat(1), memo, created_at_time: ct }])),
        _ => re(&revoke_coll(7, vec![RevokeCollArg { spender: Some(s.acct()), from_subaccount: None, memo, created_at_time: ct }])),
    }
}
/// Make kind m's request possible again, without repeating it. `to` is where the token went.
fn again(m: u64, to: Ac) {
    let s = Ac::new(9, 0);
    let o = Ac::new(7, 0);
    match m {
        0 => check(ok1t(&transfer(to.p, vec![xfer_arg(o.acct(), 1)])), "moved-back"),
        1 => { check(ok1t(&transfer(to.p, vec![xfer_arg(o.acct(), 1)])), "moved-back"); }
        4 => { check(ok1(&approve(7, vec![appr(1, s, 0, None)])), "approved-again"); }
        5 => { check(ok1(&approve_coll(7, vec![ApproveCollArg { approval_info: ainfo(s, 0, None) }])), "approved-again"); }
        _ => {}
    }
}
/// A request, and the same request again at any later time.
/// param(0): kind; param(1): 0 default window, 1 a second and a large drift, 2 set by an update, 3 default, after an upgrade;
/// param(2): 0 the very same, 1 another creation time or memo, 2 no creation time
#[no_mangle]
pub extern "C" fn h_c34_repeat() {
    let m = param(0);
    let how = param(2);
    let conf = param(1);
    let (w, d) = match conf { 1 => (1_000_000_000u64, 3_000_000_000u64), 2 => (40_000_000_000, 50_000_000), _ => (10_000_000_000, 50_000_000) };
    let mut i = init_args();
    if conf == 1 { i.tx_window = Some(nat(w)); i.permitted_drift = Some(nat(d)); }
    boot_ok(i);
    mint_all(&[Ac::new(7, 0), Ac::new(7, 0)]);
    if conf == 2 { let mut u = UpdateCollArgs::none(); u.tx_window = Some(nat(w)); let r: Option<Result<(), SimpleError>> = call(UPDATE, "update_collection_metadata", (u,), ADMIN); check(matches!(r, Some(Ok(()))), "setup-update"); }
    let to = if m < 2 { any_p("to") } else { Ac::new(9, 0) };
    assume(!to.anon() & !to.is(7));
    if m == 1 || m == 5 { grant(Ac::new(7, 0), 1, true, Ac::new(9, 0), None); }
    if m == 4 { grant(Ac::new(7, 0), 1, false, Ac::new(9, 0), None); }
    let t1 = (tick() >> 40 << 40) + (1 << 40);
    at(t1);
    // created: as early or as late as accepted, or now
    let c = match if conf == 3 { 1 } else { choose(3) } { 0 => t1 + d, 1 => t1, _ => t1 - d / 2 };
    let memo = if conf == 3 || flip() { Some(any_u8("memo")) } else { None };
    let ct = if how == 2 { None } else { Some(c) };
    assume(request(m, ct, memo, to) == Re::Done);
    // a little later everything is as before
    at(t1 + 100_000_000);
    again(m, to);
    if conf == 3 { check(upgrade_core(), "upgrade-succeeds"); }
    let end = c + w + d;
    // any time until the creation time is no longer accepted, and beyond
    let x = any_u32("later") as u64;
    assume(x < 1 << 28);
    let t2 = if how > 0 { [t1 + 200_000_000, end, end + 1][choose(3) as usize] } else { match choose(4) { 0 => t1 + 200_000_000 + x, 1 => end - x, 2 => end + x + 1, _ => end } };
    assume(t2 >= t1 + 200_000_000);
    at(t2);
    let l0 = log_len();
    let ok = match how {
        0 => { let r = request(m, ct, memo, to); check((r == Re::Old) == (t2 > end), "too-old-exactly-outside"); r == Re::Done }
        1 => {
            let (c2, memo2) = if flip() { (if flip() { c - 1 } else { t2 }, memo) } else { (c, match memo { None => Some(any_u8("memo2")), Some(x) => if flip() { None } else { let y = any_u8("memo2"); assume(y != x); Some(y) } }) };
            assume(t2 <= c2 + w + d);
            request(m, Some(c2), memo2, to) == Re::Done
        }
        _ => request(m, None, memo, to) == Re::Done,
    };
    if how == 0 { check(!ok, "repeated-request-refused"); if t2 <= end { cover("refused-repeat"); } else { cover("refused-old"); } }
    else { check(ok, "another-request-served"); cover("served"); }
    check(log_len() == l0 + ok as u64, "one-block-per-operation");
    if m < 2 { check(owner_is(1, Some(if ok { to } else { Ac::new(7, 0) })), "owner"); }
}
