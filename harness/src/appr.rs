//! ICRC-37: approvals and transfers by a spender (C02 - C06).
use crate::world::*;

/// One approval as the client remembers it.
#[derive(Clone, Copy)]
pub struct Ap { pub tok: Option<u8>, pub from: Ac, pub sp: Ac, pub exp: Option<u64> }
pub fn alive(a: &Ap, now: u64) -> bool { match a.exp { None => true, Some(e) => e > now } }
/// Does `sp` hold an approval for token `t` of owner `o`?
pub fn holds(aps: &[Ap], t: u8, o: Ac, sp: Ac, now: u64) -> bool {
    let mut r = false;
    for a in aps {
        let here = match a.tok { Some(x) => x == t, None => a.from.same(o) };
        r = r | (here & a.sp.same(sp) & alive(a, now));
    }
    r
}
/// Expiry, for an approval to be used `s` seconds from now: none, any of 256 ns around the time of use, or far off.
pub fn any_exp(s: u64) -> Option<u64> {
    let u = clock() + s * TICK;
    match choose(6) {
        0 => None,
        1 => Some((u & !127) - 128 + any_u8("expires") as u64),
        2 => Some(0), 3 => Some(u - 1_000_000_000), 4 => Some(u + 1_000_000_000), _ => Some(u64::MAX),
    }
}
/// Give a token or collection approval for `o`'s token `t`.
pub fn grant(o: Ac, t: u8, coll: bool, sp: Ac, exp: Option<u64>) -> Ap {
    tick();
    let r = if coll { approve_coll(o.p, vec![ApproveCollArg { approval_info: ainfo(sp, o.s, exp) }]) } else { approve(o.p, vec![appr(t, sp, o.s, exp)]) };
    assume(ok1(&r));
    Ap { tok: if coll { None } else { Some(t) }, from: o, sp, exp }
}
/// One arbitrary transfer_from; it must succeed exactly when it should. Returns whether the token moved.
pub fn xf(v: &mut Toks, aps: &[Ap], named: &[(Ac, u8)]) -> bool {
    let now = clock();
    let sp = any_ac("sp");
    let from = any_ac("from");
    let to = any_ac("dest");
    let t = below("tid", v.len() as u8 + 1);
    let _ = named;
    let r = transfer_from(sp.p, vec![xfrom(from, to, t, sp.s)]);
    let o = get(v, t);
    let want = match o { None => false, Some(o) => o.same(from) & !from.same(to) & !to.anon() & (sp.same(from) | holds(aps, t, o, sp, now)) };
    let got = ok1(&r);
    check(matches!(&r, Some(Ok(x)) if x.len() == 1), "transfer-from-answers");
    check(!got | want, "spender-without-right-refused");
    check(got | !want, "entitled-spender-served");
    if got { set(v, t, Some(to)); cover("moved"); } else { cover("refused"); }
    got
}
fn owners_ok(v: &Toks) { for t in 1..v.len() { check(owner_is(t as u64, v[t]), "owner"); } }

/// one approval of either kind, any time passes, one arbitrary transfer_from
#[no_mangle]
pub extern "C" fn h_c02_one() {
    let o1 = any_ac("o1");
    let o2 = any_ac("o2");
    let mut v = setup(&[o1, o2]);
    let mut aps = vec![];
    let k = param(0);
    if k > 0 { aps.push(grant(o1, 1, k == 2, any_as("s"), any_exp(2))); }
    tick();
    xf(&mut v, &aps, &[]);
    owners_ok(&v);
}
/// a batch: the same approval cannot be used twice in one call
#[no_mangle]
pub extern "C" fn h_c02_batch() {
    let o1 = any_p("o1");
    let v = setup(&[o1]);
    let s = any_p("s");
    let mut aps = vec![grant(o1, 1, false, s, None)];
    tick();
    let (c, d1, d2, f2) = (any_u8("sp"), any_p("d1"), any_p("d2"), any_p("f2"));
    let sp = Ac::new(c, 0);
    let r = transfer_from(c, vec![xfrom(o1, d1, 1, 0), xfrom(f2, d2, 1, 0)]);
    match r {
        Some(Ok(x)) if x.len() == 2 => {
            let ok = [matches!(x[0], Some(Ok(_))), matches!(x[1], Some(Ok(_)))];
            let mut o = v[1].unwrap();
            for (i, (f, d)) in [(o1, d1), (f2, d2)].iter().enumerate() {
                let want = o.same(*f) & !f.same(*d) & !d.anon() & (sp.same(*f) | holds(&aps, 1, o, sp, clock()));
                check(!ok[i] | want, "spender-without-right-refused");
                // the very same transaction again at the same time is a duplicate
                if i == 0 { check(ok[i] | !want, "entitled-spender-served"); }
                if ok[i] { cover(["first", "second"][i]); o = *d; aps.clear(); }
            }
            check(owner_is(1, Some(o)), "owner");
        }
        _ => check(false, "transfer-from-answers"),
    }
}
/// approvals of both kinds for one token, by both spenders
#[no_mangle]
pub extern "C" fn h_c02_two() {
    let o1 = any_p("o1");
    let o2 = any_p("o2");
    let mut v = setup(&[o1, o2]);
    let mut aps = vec![];
    let k = param(0);
    aps.push(grant(o1, 1, k & 1 == 1, any_p("s"), any_exp(3)));
    aps.push(if k & 2 == 2 { grant(o2, 2, k & 4 == 4, any_p("s2"), None) } else { grant(o1, 1, k & 4 == 4, any_p("s2"), None) });
    // a later approval of the same kind for the same spender replaces the earlier one
    let (a, b) = (aps[0], aps[1]);
    if (a.tok.is_some() == b.tok.is_some()) && a.tok == b.tok { let rep = a.sp.same(b.sp) & a.from.same(b.from); if rep { aps.remove(0); } }
    tick();
    xf(&mut v, &aps, &[]);
    owners_ok(&v);
}

/// Change of owner by any of three routes, then possibly back: the old approval is dead.
#[no_mangle]
pub extern "C" fn h_c03_ends() {
    let o = any_as("o");
    assume(!o.anon());
    setup(&[o]);
    let s = any_p("s");
    grant(o, 1, false, s, None);
    let d = any_p("d");
    assume(!d.same(o) & !d.anon());
    tick();
    match param(0) {
        0 => { let r = transfer(o.p, vec![xfer_arg(d.acct(), 1)]); assume(ok1t(&r)); }
        1 => { let r = transfer_from(o.p, vec![xfrom(o, d, 1, o.s)]); assume(ok1(&r)); }
        _ => { let r = transfer_from(s.p, vec![xfrom(o, d, 1, s.s)]); assume(ok1(&r)); }
    }
    cover("changed");
    let mut cur = d;
    if param(1) == 1 {
        tick();
        let r = transfer(d.p, vec![xfer_arg(o.acct(), 1)]);
        assume(ok1t(&r));
        cur = o;
        cover("came-back");
    }
    check(owner_is(1, Some(cur)), "owner");
    // nobody but the owner can move it now
    let p = any_p("p");
    assume(!p.same(cur));
    tick();
    let r = is_approved(vec![IsApprovedArg { spender: p.acct(), from_subaccount: osub(p.s), token_id: nat(1) }], ADMIN);
    check(r == Some(vec![false]), "no-approval-reported");
    let l: Option<Vec<TokenApproval>> = call(QUERY, "icrc37_get_token_approvals", (nat(1), None::<TokenApproval>, None::<Nat>), ADMIN);
    check(matches!(&l, Some(x) if x.is_empty()), "no-approval-listed");
    let e = any_p("e");
    assume(!e.anon() & !e.same(cur));
    let r = transfer_from(p.p, vec![xfrom(cur, e, 1, p.s)]);
    check(!ok1(&r), "old-approval-dead");
    check(owner_is(1, Some(cur)), "owner");
}
/// A burnt token's approvals are gone as well.
#[no_mangle]
pub extern "C" fn h_c03_burn() {
    let o = any_ac("o");
    assume(!o.anon());
    setup(&[o]);
    let s = any_ac("s");
    grant(o, 1, false, s, None);
    tick();
    let r: Option<Result<(), BurnNftError>> = call(UPDATE, "burn_nft", (nat(1),), o.p);
    assume(matches!(r, Some(Ok(()))));
    cover("burnt");
    tick();
    let r = is_approved(vec![IsApprovedArg { spender: s.acct(), from_subaccount: osub(s.s), token_id: nat(1) }], ADMIN);
    check(r == Some(vec![false]), "no-approval-reported");
    let l: Option<Vec<TokenApproval>> = call(QUERY, "icrc37_get_token_approvals", (nat(1), None::<TokenApproval>, None::<Nat>), ADMIN);
    check(matches!(&l, Some(x) if x.is_empty()), "no-approval-listed");
    let e = any_ac("e");
    let r = transfer_from(s.p, vec![xfrom(o, e, 1, s.s)]);
    check(!ok1(&r), "old-approval-dead");
    check(owner_is(1, None), "owner");
}

pub fn list_tok(t: u64) -> Vec<TokenApproval> {
    let l: Option<Vec<TokenApproval>> = call(QUERY, "icrc37_get_token_approvals", (nat(t), None::<TokenApproval>, None::<Nat>), ADMIN);
    match l { Some(l) => l, None => { check(false, "listing-answers"); vec![] } }
}
pub fn list_coll(a: Ac) -> Vec<CollApproval> {
    let l: Option<Vec<CollApproval>> = call(QUERY, "icrc37_get_collection_approvals", (a.acct(), None::<CollApproval>, None::<Nat>), ADMIN);
    match l { Some(l) => l, None => { check(false, "listing-answers"); vec![] } }
}
/// approve_tokens: anyone may ask, only the owner account is heard
#[no_mangle]
pub extern "C" fn h_c04_approve() {
    let o1 = any_ac("o1");
    let o2 = any_ac("o2");
    let v = setup(&[o1, o2]);
    tick();
    let c = any_u8("caller");
    let fs = any_u8("from-sub");
    let s = any_ac("s");
    let t = below("tid", 4);
    let r = approve(c, vec![appr(t, s, fs, None)]);
    let me = Ac::new(c, fs);
    let want = match get(&v, t) { None => false, Some(o) => o.same(me) & !s.anon() };
    let got = ok1(&r);
    check(matches!(&r, Some(Ok(x)) if x.len() == 1), "approve-answers");
    check(!got | want, "only-owner-approves");
    check(got | !want, "owner-may-approve");
    if got { cover("granted"); } else { cover("refused"); }
    for k in 1..3u8 {
        let l = list_tok(k as u64);
        let here = got & (t == k);
        check(l.len() == here as usize, "approval-recorded");
        for a in l { check(seen(&a.approval_info.spender).same(s), "approval-spender"); }
    }
}
/// revoke: two approvals, an arbitrary revoke by anyone
#[no_mangle]
pub extern "C" fn h_c04_revoke() {
    let o1 = any_p("o1");
    let o2 = any_p("o2");
    let v = setup(&[o1, o2]);
    let (s1, s2) = (any_p("s1"), any_p("s2"));
    assume(!s1.same(s2));
    grant(o1, 1, false, s1, None);
    let second = param(0) as u8 + 1; // both on token 1, or one on each
    grant(if second == 1 { o1 } else { o2 }, second, false, s2, None);
    let mut aps = vec![(1u8, s1), (second, s2)];
    tick();
    let c = any_u8("caller");
    let fs = any_u8("from-sub");
    let t = below("tid", 4);
    let all = flip();
    let s = any_ac("s");
    let r = revoke(c, vec![RevokeTokenArg { spender: if all { None } else { Some(s.acct()) }, from_subaccount: osub(fs), token_id: nat(t as u64), memo: None, created_at_time: None }]);
    let got = ok1(&r);
    let me = Ac::new(c, fs);
    let owner = match get(&v, t) { None => false, Some(o) => o.same(me) };
    let mut hit = false;
    for (k, x) in &aps { hit = hit | ((*k == t) & (all | x.same(s))); }
    check(!got | owner, "only-owner-revokes");
    check(!got | hit, "nothing-to-revoke-refused");
    check(got | !(owner & hit), "owner-may-revoke");
    if got { cover("revoked"); aps.retain(|(k, x)| !((*k == t) & (all | x.same(s)))); } else { cover("refused"); }
    for k in 1..3u8 {
        let l = list_tok(k as u64);
        let mut n = 0;
        for (j, x) in &aps { if *j == k { n += 1; let mut f = false; for a in &l { f = f | seen(&a.approval_info.spender).same(*x); } check(f, "other-approvals-kept"); } }
        check(l.len() == n, "revoked-approvals-gone");
    }
    // and the spenders can act exactly when still approved
    tick();
    let sp = any_p("sp");
    let live = { let mut b = false; for (k, x) in &aps { b = b | ((*k == 1) & x.same(sp)); } b };
    let d = any_p("d");
    assume(!d.anon() & !d.same(o1));
    let r = transfer_from(sp.p, vec![xfrom(o1, d, 1, 0)]);
    check(ok1(&r) == (live | sp.same(o1)), "revocation-takes-effect");
}
/// collection approvals: anyone may ask; only tokens of the granting account are covered, and only until revoked
#[no_mangle]
pub extern "C" fn h_c05_scope() {
    let o1 = any_ac("o1");
    let o2 = any_ac("o2");
    let mut v = setup(&[o1, o2]);
    tick();
    let c = any_u8("caller");
    let fs = any_u8("from-sub");
    let s = any_ac("s");
    let me = Ac::new(c, fs);
    let r = approve_coll(c, vec![ApproveCollArg { approval_info: ainfo(s, fs, None) }]);
    let got = ok1(&r);
    check(!got | !s.anon(), "not-to-anonymous");
    check(got | s.anon() | ((o1.p != c) & (o2.p != c)), "holder-may-approve");
    let mut aps = vec![];
    if got { cover("granted"); aps.push(Ap { tok: None, from: me, sp: s, exp: None }); } else { cover("refused"); }
    tick();
    xf(&mut v, &aps, &[]);
}
/// a token bought later by the granter is covered; a token sold is not
#[no_mangle]
pub extern "C" fn h_c05_later() {
    let o1 = any_p("o1");
    let o2 = any_p("o2");
    assume(!o1.same(o2) & !o1.anon() & !o2.anon());
    let mut v = setup(&[o1, o2]);
    let s = any_p("s");
    let aps = vec![grant(o1, 1, true, s, None)];
    tick();
    let d = any_p("d");
    let t = if param(0) == 0 { let r = transfer(o2.p, vec![xfer_arg(d.acct(), 2)]); assume(ok1t(&r)); 2 } else { let r = transfer(o1.p, vec![xfer_arg(d.acct(), 1)]); assume(ok1t(&r)); 1 };
    set(&mut v, t, Some(d));
    tick();
    xf(&mut v, &aps, &[]);
    owners_ok(&v);
}
/// using a collection approval on one token leaves it in force for the others
#[no_mangle]
pub extern "C" fn h_c05_reuse() {
    let o1 = any_p("o1");
    assume(!o1.anon());
    let mut v = setup(&[o1, o1]);
    let s = any_p("s");
    let aps = vec![grant(o1, 1, true, s, None)];
    tick();
    let d = any_p("d");
    let by = if param(0) == 0 { s } else { o1 };
    let r = transfer_from(by.p, vec![xfrom(o1, d, 1, by.s)]);
    assume(ok1(&r));
    cover("first");
    set(&mut v, 1, Some(d));
    tick();
    xf(&mut v, &aps, &[]);
    owners_ok(&v);
}
/// revoking collection approvals
#[no_mangle]
pub extern "C" fn h_c05_revoke() {
    let o1 = any_ac("o1");
    let o2 = if param(0) == 1 { any_ac("o2") } else { o1 };
    setup(&[o1, o2]);
    let (s1, s2) = (any_ac("s1"), any_ac("s2"));
    assume(!(s1.same(s2) & o1.same(o2)));
    grant(o1, 1, true, s1, None);
    grant(o2, 2, true, s2, None);
    let mut aps = vec![(o1, s1), (o2, s2)];
    tick();
    let c = any_u8("caller");
    let fs = any_u8("from-sub");
    let all = flip();
    let s = any_ac("s");
    let r = revoke_coll(c, vec![RevokeCollArg { spender: if all { None } else { Some(s.acct()) }, from_subaccount: osub(fs), memo: None, created_at_time: None }]);
    let got = ok1(&r);
    let me = Ac::new(c, fs);
    let mut hit = false;
    for (o, x) in &aps { hit = hit | (o.same(me) & (all | x.same(s))); }
    check(got == hit, "revoke-exactly-own");
    if got { cover("revoked"); aps.retain(|(o, x)| !(o.same(me) & (all | x.same(s)))); } else { cover("refused"); }
    let q = any_ac("q");
    let l = list_coll(q);
    let mut n = 0;
    for (o, x) in &aps { if o.same(q) { n += 1; let mut f = false; for a in &l { f = f | seen(&a.approval_info.spender).same(*x); } check(f, "other-approvals-kept"); } }
    check(l.len() == n, "revoked-approvals-gone");
}
/// is_approved says yes exactly when the spender's transfer_from goes through
#[no_mangle]
pub extern "C" fn h_c06_agree() {
    let o1 = any_ac("o1");
    let o2 = any_ac("o2");
    let v = setup(&[o1, o2]);
    let k = param(0);
    if k > 0 { grant(o1, 1, k == 2, any_as("s"), any_exp(2)); }
    tick();
    let sp = any_ac("sp");
    let t = below("tid", 4);
    let r = is_approved(vec![IsApprovedArg { spender: sp.acct(), from_subaccount: osub(sp.s), token_id: nat(t as u64) }], ADMIN);
    let yes = r == Some(vec![true]);
    check(yes | (r == Some(vec![false])), "is-approved-answers");
    match get(&v, t) {
        None => check(!yes, "no-token-no-approval"),
        Some(o) => {
            let d = any_ac("d");
            assume(!d.anon() & !d.same(o));
            let x = transfer_from(sp.p, vec![xfrom(o, d, t, sp.s)]);
            if ok1(&x) { cover("served"); } else { cover("refused"); }
            check(ok1(&x) == yes, "agrees-with-transfer-from");
        }
    }
}
