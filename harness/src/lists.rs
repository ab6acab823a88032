//! Paging through tokens and approvals; approval limits (C23 - C25).
use crate::appr::*;
use crate::world::*;

/// nothing, any number below 128, or one at the border of the machine's numbers
fn opt64(n: &str, b: u64) -> Option<u64> { match choose(4) { 0 => None, 1 => Some(below(n, 128) as u64), 2 => Some(b), _ => Some(u64::MAX) } }
fn small(n: &str) -> Option<u64> { if flip() { Some(any_u8(n) as u64) } else { None } }
/// The page a client should get: the ids above `prev`, ascending, at most `take`.
fn page(all: &[(u64, bool)], prev: u64, take: u64) -> (u64, Vec<u64>) {
    let mut n = 0;
    let mut v = vec![];
    for (id, mine) in all { if mine & (*id > prev) & (n < take) { n += 1; v.push(*id); } }
    (n, v)
}
/// param 0: icrc7_tokens or icrc7_tokens_of; param 1: which token is burnt (0: none); param 2: limits configured. One page with any prev and take under any limits.
#[no_mangle]
pub extern "C" fn h_c23_page() {
    let mut i = init_args();
    let (def, max) = if param(2) == 1 { (Some(below("default", 128) as u64), Some(below("max", 128) as u64)) } else { (None, None) };
    i.default_take_value = def.map(nat);
    i.max_take_value = max.map(nat);
    boot_ok(i);
    let os: Vec<Ac> = ["o1", "o2", "o3", "o4"].iter().map(|n| any_p(n)).collect();
    let mut v = mint_all(&os);
    let b = param(1);
    if b > 0 { tick(); assume(matches!(burn(os[b as usize - 1].p, b), Some(Ok(())))); v[b as usize] = None; }
    let q = any_p("who");
    let (prev, take) = (opt64("prev", 1 << 32), opt64("take", if param(2) == 1 { 1 << 32 } else { 100 }));
    let of = param(0) == 1;
    let r = if of { tokens_of(q.acct(), prev, take) } else { tokens(prev, take) };
    let lim = max.unwrap_or(100);
    let over = take.map_or(false, |t| t > lim);
    match r {
        None => { cover("refused"); check(over, "page-within-limits-served"); }
        Some(l) => {
            cover("served");
            check(!over, "page-over-limit-refused");
            let all: Vec<(u64, bool)> = (1..5u64).filter(|t| v[*t as usize].is_some()).map(|t| (t, !of || os[t as usize - 1].same(q))).collect();
            let (n, w) = page(&all, prev.unwrap_or(0), take.unwrap_or(def.unwrap_or(100)));
            check(l.len() as u64 == n, "page-length");
            check(l == w, "page-content");
            if n == 2 { cover("two"); }
        }
    }
}
fn burn(c: u8, t: u64) -> Option<Result<(), BurnNftError>> { call(UPDATE, "burn_nft", (nat(t),), c) }
/// Walking page by page from the start shows every token once. param 0: tokens or tokens_of
#[no_mangle]
pub extern "C" fn h_c23_walk() {
    boot_ok(init_args());
    let o = any_p("o");
    let os: Vec<Ac> = ["o1", "o2", "o3", "o4", "o5"].iter().map(|n| any_p(n)).collect();
    mint_all(&os);
    let take = below("take", 4) as u64;
    assume(take > 0);
    let mut got: Vec<u64> = vec![];
    let mut prev = None;
    for _ in 0..6 {
        let p = match if param(0) == 1 { tokens_of(o.acct(), prev, Some(take)) } else { tokens(prev, Some(take)) } { Some(p) => p, None => { check(false, "page-within-limits-served"); return } };
        if p.is_empty() { break; }
        got.extend(&p);
        prev = got.last().copied();
    }
    let mut w = vec![];
    for t in 1..6u64 { if param(0) == 0 || os[t as usize - 1].same(o) { w.push(t); } }
    check(got == w, "walk-shows-each-once");
    cover("walked");
}

fn listed(coll: bool, o: Ac) -> Vec<ApprovalInfo> {
    if coll { list_coll(o).into_iter().map(|a| a.approval_info).collect() } else { list_tok(1).into_iter().map(|a| a.approval_info).collect() }
}
struct E { sp: Ac, at: u64, exp: Option<u64>, memo: Option<u8> }
fn show(i: &ApprovalInfo, e: &E, s: u8) -> bool {
    let m = match (&i.memo, e.memo) { (None, None) => true, (Some(b), Some(m)) => b.len() == 1 && b[0] == m, _ => false };
    let f = match &i.from_subaccount { None => s == 0, Some(x) => *x == sub(s) };
    seen(&i.spender).same(e.sp) & (i.expires_at == e.exp) & (i.created_at_time == e.at) & m & f
}
/// param 0: token or collection; param 1: at one time or one after the other. Three approvals, one page of them.
#[no_mangle]
pub extern "C" fn h_c24_list() {
    let o = Ac::new(150, 160);
    let coll = param(0) == 1;
    let mut i = init_args();
    i.approval_init.max_approvals_per_token_or_collection = Some(nat(3));
    boot_ok(i);
    mint_all(&[o]);
    let sps: Vec<Ac> = ["s1", "s2", "s3"].iter().map(|n| any_p(n)).collect();
    for a in &sps { assume(a.p >= 128); }
    assume(!sps[0].same(sps[1]) & !sps[0].same(sps[2]) & !sps[1].same(sps[2]));
    let mut es: Vec<E> = vec![];
    tick();
    for (k, a) in sps.iter().enumerate() {
        if param(1) == 1 { tick(); }
        let e = E { sp: *a, at: clock(), exp: if k == 1 { Some(clock() + 1_000_000_000_000) } else { None }, memo: if k == 2 { Some(200) } else { None } };
        let mut inf = ainfo(*a, o.s, e.exp);
        inf.memo = e.memo.map(|m| ByteBuf::from(vec![m]));
        let r = if coll { approve_coll(o.p, vec![ApproveCollArg { approval_info: inf }]) } else { approve(o.p, vec![ApproveTokenArg { token_id: nat(1), approval_info: inf }]) };
        check(ok1(&r), "setup-approve");
        es.push(e);
    }
    // newest first, then by spender
    let mut ord: Vec<usize> = vec![0, 1, 2];
    for _ in 0..2 { for j in 0..2 {
        let (x, y) = (&es[ord[j]], &es[ord[j + 1]]);
        if (y.at > x.at) | ((y.at == x.at) & (y.sp.p < x.sp.p)) { ord.swap(j, j + 1); }
    } }
    let prev = if flip() { Some(any_p("prev")) } else { None };
    if let Some(p) = prev { assume(p.p >= 128); }
    let take = if flip() { Some(below("take", 6) as u64) } else { None };
    let pi = |p: Ac| { let mut i = ainfo(p, o.s, None); i.created_at_time = T0; i };
    let l: Option<Vec<ApprovalInfo>> = if coll {
        let r: Option<Vec<CollApproval>> = call(QUERY, "icrc37_get_collection_approvals", (o.acct(), prev.map(|p| CollApproval { approval_info: pi(p) }), take.map(nat)), 3);
        r.map(|v| v.into_iter().map(|a| a.approval_info).collect())
    } else {
        let r: Option<Vec<TokenApproval>> = call(QUERY, "icrc37_get_token_approvals", (nat(1), prev.map(|p| TokenApproval { token_id: nat(1), approval_info: pi(p) }), take.map(nat)), 3);
        r.map(|v| { for a in &v { check(un(&a.token_id) == 1, "listed-token"); } v.into_iter().map(|a| a.approval_info).collect() })
    };
    let l = match l { Some(l) => l, None => { check(false, "listing-answers"); return } };
    let mut from = 0usize;
    if let Some(p) = prev { for (k, j) in ord.iter().enumerate() { if es[*j].sp.same(p) { from = k + 1; } } }
    let n = core::cmp::min(3 - from as u64, take.unwrap_or(10));
    check(l.len() as u64 == n, "listing-length");
    if l.len() as u64 == n { for (k, a) in l.iter().enumerate() { check(show(a, &es[ord[from + k]], o.s), "listing-content"); } }
    cover(["none", "one", "two", "three"][core::cmp::min(l.len(), 3)]);
}
/// param 0: token or collection; param 1: how many are given, one of them is then taken back. The listing holds the others, as does its walk.
#[no_mangle]
pub extern "C" fn h_c24_after() {
    let coll = param(0) == 1;
    let o = Ac::new(150, 0);
    boot_ok(init_args());
    mint_all(&[o, o]);
    let sps = [any_p("s1"), any_p("s2")];
    for a in &sps { assume((a.p >= 128) & (a.p < 255)); }
    for a in &sps { grant(o, 1, coll, *a, None); }
    let gone = any_p("gone");
    assume(gone.p >= 128);
    tick();
    let all = flip();
    let sp = if all { None } else { Some(gone.acct()) };
    let r = if coll { revoke_coll(o.p, vec![RevokeCollArg { spender: sp, from_subaccount: None, memo: None, created_at_time: None }]) } else { revoke(o.p, vec![RevokeTokenArg { spender: sp, from_subaccount: None, token_id: nat(1), memo: None, created_at_time: None }]) };
    let hit = all | sps[0].same(gone) | sps[1].same(gone);
    check(ok1(&r) == hit, "revoke-answers-truly");
    if hit { cover("revoked"); } else { cover("refused"); }
    let l: Vec<Ac> = listed(coll, o).iter().map(|i| seen(&i.spender)).collect();
    let mut w: Vec<Ac> = vec![];
    if !all { for k in [1, 0] { if !sps[k].same(gone) & !(k == 0 && sps[0].same(sps[1])) { w.push(sps[k]); } } }
    check(l.len() == w.len(), "listing-length");
    if l.len() == w.len() { for (a, b) in l.iter().zip(&w) { check(a.same(*b), "listing-content"); } }
    // and no listing of anything else shows them
    check(list_tok(2).is_empty(), "other-token-empty");
    check(if coll { list_tok(1).is_empty() } else { list_coll(o).is_empty() }, "other-kind-empty");
}
/// param 0: token or collection. Any cap from 1 to 3: never more approvals than it, and room is not refused.
#[no_mangle]
pub extern "C" fn h_c25_cap() {
    let coll = param(0) == 1;
    let o = Ac::new(150, 0);
    let cap = below("cap", 4);
    assume(cap >= 1);
    let mut i = init_args();
    i.approval_init.max_approvals_per_token_or_collection = Some(nat(cap as u64));
    boot_ok(i);
    mint_all(&[o, o]);
    let mut held: Vec<Ac> = vec![];
    for k in 0..4 {
        let a = if k == 3 { Ac::new(140, 0) } else { any_p(["s1", "s2", "s3"][k]) };
        assume(a.p >= 128);
        tick();
        let r = if coll { approve_coll(o.p, vec![ApproveCollArg { approval_info: ainfo(a, 0, None) }]) } else { approve(o.p, vec![appr(1, a, 0, None)]) };
        let mut known = false;
        for h in &held { if h.same(a) { known = true; } }
        let room = held.len() < cap as usize;
        if ok1(&r) { cover("accepted"); check(room | known, "cap-not-exceeded"); if !known { held.push(a); } }
        else { cover("refused"); check(!room, "room-not-refused"); }
        let n = listed(coll, o).len();
        check(n == held.len(), "as-many-as-accepted");
    }
    // another token still has room
    if !coll { tick(); check(ok1(&approve(o.p, vec![appr(2, Ac::new(140, 0), 0, None)])), "other-token-has-room"); }
}
/// A batch of three revocations under any limit from 1 to 255: the first ones up to the limit take effect. param 0: token or collection
#[no_mangle]
pub extern "C" fn h_c25_revoke() {
    let coll = param(0) == 1;
    let o = Ac::new(150, 0);
    let cap = any_u8("limit");
    assume(cap >= 1);
    let mut i = init_args();
    i.approval_init.max_revoke_approvals = Some(nat(cap as u64));
    boot_ok(i);
    mint_all(&[o]);
    for p in 0..3 { grant(o, 1, coll, Ac::new(140 + p, 0), None); }
    tick();
    let n = choose(4) as u8;
    let r = if coll { revoke_coll(o.p, (0..n).map(|p| RevokeCollArg { spender: Some(Ac::new(140 + p, 0).acct()), from_subaccount: None, memo: None, created_at_time: None }).collect()) }
        else { revoke(o.p, (0..n).map(|p| RevokeTokenArg { spender: Some(Ac::new(140 + p, 0).acct()), from_subaccount: None, token_id: nat(1), memo: None, created_at_time: None }).collect()) };
    let k = core::cmp::min(n, cap);
    match r { Some(Ok(v)) => { check(v.len() == k as usize, "revocations-up-to-limit"); for x in &v { check(matches!(x, Some(Ok(_))), "revocation-served"); } } _ => check(false, "revoke-answers") }
    let l: Vec<u8> = listed(coll, o).iter().map(|i| seen(&i.spender).p).collect();
    check(l.len() == 3 - k as usize, "as-many-left");
    for p in 0..3u8 { check(l.contains(&(140 + p)) == (p >= k), "exactly-those-revoked"); }
    cover(if k < n { "cut" } else { "whole" });
}
/// Limits of zero are refused at installation.
#[no_mangle]
pub extern "C" fn h_c25_zero() {
    let (a, b) = (small("cap"), small("limit"));
    let mut i = init_args();
    i.approval_init = InitApprovals { max_approvals_per_token_or_collection: a.map(nat), max_revoke_approvals: b.map(nat) };
    let c = boot(i);
    let zero = (a == Some(0)) | (b == Some(0));
    check((st(c) == St::Replied) != zero, "zero-limits-refused");
    cover(if zero { "refused" } else { "installed" });
    if !zero {
        let x: Option<Option<Nat>> = call(QUERY, "icrc37_max_approvals_per_token_or_collection", (), 3);
        let y: Option<Option<Nat>> = call(QUERY, "icrc37_max_revoke_approvals", (), 3);
        check(matches!(x, Some(n) if n.as_ref().map(un) == a) & matches!(y, Some(n) if n.as_ref().map(un) == b), "limits-reported");
    }
}
/// The default cap: ten approvals, the eleventh (for anyone) is refused. param 0: token or collection
#[no_mangle]
pub extern "C" fn h_c25_default() {
    let coll = param(0) == 1;
    let o = Ac::new(150, 0);
    boot_ok(init_args());
    mint_all(&[o]);
    for p in 0..10 { grant(o, 1, coll, Ac::new(160 + p, 0), None); }
    tick();
    let a = any_p("s");
    assume((a.p >= 128) & ((a.p < 160) | (a.p >= 170)));
    let r = if coll { approve_coll(o.p, vec![ApproveCollArg { approval_info: ainfo(a, 0, None) }]) } else { approve(o.p, vec![appr(1, a, 0, None)]) };
    check(!ok1(&r), "default-cap");
    check(listed(coll, o).len() == 10, "as-many-as-accepted");
    cover("refused");
}
