//! Ownership over arbitrary histories (C07), minting (C08), burning (C09).
use crate::world::*;

pub fn burn(caller: u8, t: u64) -> Option<Result<(), BurnNftError>> { call(UPDATE, "burn_nft", (nat(t),), caller) }

/// One arbitrary state-changing call of kind `k`; `v` follows the answers.
pub fn any_op(v: &mut Toks, k: u32, acc: fn(&str) -> Ac) {
    tick();
    match k {
        0 => {
            let o = acc("mo");
            let r = mint(ADMIN, vec![mint_req(o.acct())]);
            match r { Some(Ok(n)) => { check(un(&n) == v.len() as u64, "mint-id"); v.push(Some(o)); cover("minted"); } _ => check(false, "mint-answers") }
        }
        1 => {
            let (c, t, to) = (any_u8("caller"), below("tid", v.len() as u8 + 1), acc("to"));
            let r = transfer(c, vec![xfer_arg(to.acct(), t as u64)]);
            if ok1t(&r) { cover("transferred"); check(get(v, t).is_some(), "moved-nonexistent"); set(v, t, Some(to)); }
        }
        2 => {
            let (c, from, t, to) = (any_u8("caller"), acc("from"), below("tid", v.len() as u8 + 1), acc("to"));
            let r = transfer_from(c, vec![xfrom(from, to, t, from.s)]);
            if ok1(&r) { cover("transferred-from"); check(get(v, t).is_some(), "moved-nonexistent"); set(v, t, Some(to)); }
        }
        _ => {
            let (c, t) = (any_u8("caller"), below("tid", v.len() as u8 + 1));
            let t = conc(t as u64) as u8;
            let r = burn(c, t as u64);
            let want = get(v, t).map_or(false, |o| o.p == c);
            let got = matches!(r, Some(Ok(())));
            check(got == want, "burn-only-by-owner");
            if got { cover("burnt"); set(v, t, None); } else { cover("burn-refused"); }
        }
    }
}
/// param 0: kind of the first operation (0..3), param 1: of the second (4: none)
#[no_mangle]
pub extern "C" fn h_c07_ops() {
    let mut v = setup(&[any_ac("o1"), any_ac("o2")]);
    any_op(&mut v, param(0) as u32, any_p);
    if param(1) < 4 { any_op(&mut v, param(1) as u32, any_p); }
    check_world(&v);
}
/// three operations, default subaccounts
#[no_mangle]
pub extern "C" fn h_c07_long() {
    let mut v = setup(&[any_p("o1"), any_p("o2")]);
    any_op(&mut v, param(0) as u32, any_p);
    any_op(&mut v, param(1) as u32, any_p);
    any_op(&mut v, param(2) as u32, any_p);
    check_world(&v);
}
/// minting: a batch of `a` then a batch of `b` requests for any accounts, with a burn in between
#[no_mangle]
pub extern "C" fn h_c08_ids() {
    let (a, b, burn1) = (param(0), param(1), param(2));
    boot_ok(init_args());
    let mut v: Toks = vec![None];
    for n in [a, b] {
        tick();
        let os: Vec<Ac> = (0..n).map(|_| any_ac("mo")).collect();
        let r = mint(ADMIN, os.iter().map(|o| mint_req(o.acct())).collect());
        match r { Some(Ok(x)) => check(un(&x) == v.len() as u64, "mint-id"), _ => check(false, "mint-answers") }
        cover("minted");
        for o in os { v.push(Some(o)); }
        if n == a && burn1 > 0 && v.len() > burn1 as usize {
            tick();
            let t = burn1 as u8;
            let o = get(&v, t).unwrap();
            let r = burn(o.p, t as u64);
            check(matches!(r, Some(Ok(()))), "owner-may-burn");
            set(&mut v, t, None);
            cover("burnt");
        }
    }
    check_world(&v);
}
/// supply cap and batch limit: any cap, any limit, any batch sizes; a refused batch changes nothing
#[no_mangle]
pub extern "C" fn h_c08_cap() {
    let cap = any_u8("cap");
    let lim = any_u8("limit");
    let mut i = init_args();
    i.supply_cap = Some(nat(cap as u64));
    i.max_update_batch_size = Some(nat(lim as u64));
    boot_ok(i);
    let mut live = 0u64;
    let mut next = 1u64;
    for _ in 0..2 {
        tick();
        let n = choose(4) as u64;
        let o = Ac::new(7, 0);
        let l0 = log_len();
        let r = mint(ADMIN, (0..n).map(|_| mint_req(o.acct())).collect());
        let want = (n <= lim as u64) & (live + n <= cap as u64);
        match &r {
            Some(Ok(x)) => { check(want, "cap-respected"); check(un(x) == next, "mint-id"); live += n; next += n; cover("minted"); check(log_len() == l0 + n, "one-block-per-token"); }
            Some(Err(MintError::ExceedMaxAllowedSupplyCap)) => { check(!want, "mint-within-cap-served"); cover("refused"); check(log_len() == l0, "refused-mint-logs-nothing"); }
            _ => check(false, "mint-answers"),
        }
        check(supply() == live, "total-supply");
        check(live <= cap as u64, "supply-within-cap");
        check(balance(o.acct()) == live, "balance");
        if n > 0 && matches!(r, Some(Ok(_))) && flip() { tick(); check(matches!(burn(7, next - 1), Some(Ok(()))), "owner-may-burn"); live -= 1; cover("burnt");
            // an id that was burnt is not given out again
            check(owner_is(next - 1, None), "owner"); }
    }
}
/// burning: anyone asks for any token; what is burnt is gone for every call
#[no_mangle]
pub extern "C" fn h_c09_burn() {
    let (o1, o2) = (any_ac("o1"), any_ac("o2"));
    let mut v = setup(&[o1, o2]);
    let l0 = log_len();
    tick();
    let (c, t) = (any_u8("caller"), below("tid", 4));
    let r: Option<Result<(), BurnNftError>> = call(UPDATE, "burn_nft", (nat(t as u64),), c);
    let want = get(&v, t).map_or(false, |o| o.p == c);
    let got = matches!(r, Some(Ok(())));
    check(got == want, "burn-only-by-owner");
    check(log_len() == l0 + got as u64, "one-block-per-burn");
    if got { set(&mut v, t, None); cover("burnt"); } else { cover("refused"); }
    if let Some(Err(e)) = r {
        let known = get(&v, t).is_some();
        check(matches!(e, BurnNftError::NotTokenOwner) == known, "not-owner-answer");
        check(matches!(e, BurnNftError::TokenDoesNotExist) == !known, "no-token-answer");
    }
    check_world(&v);
    // a burnt token is dead: nobody can move, burn, approve or describe it
    if got {
        let t = t as u64;
        tick();
        let p = any_u8("p");
        check(!ok1t(&transfer(p, vec![xfer_arg(Ac::plain(9), t)])), "burnt-does-not-move");
        check(!ok1(&transfer_from(p, vec![xfrom(Ac::new(p, 0), Ac::new(9, 0), t as u8, 0)])), "burnt-does-not-move");
        check(!ok1(&approve(p, vec![appr(t as u8, Ac::new(9, 0), 0, None)])), "burnt-not-approved");
        check(!matches!(burn(p, t), Some(Ok(()))), "burnt-once");
        check(owner_is(t, None), "owner");
        // and its id is not given out again
        tick();
        check(mint1(Ac::plain(9)) == 3, "burnt-id-not-reused");
        check(owner_is(t, None), "owner");
    }
}
