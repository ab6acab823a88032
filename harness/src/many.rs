//! Large collections and long logs, built from concrete steps, with the place looked at left open.
use crate::appr::*;
use crate::hist::burn;
use crate::types::*;
use crate::idx::*;
use crate::world::*;

fn word(n: &str, lim: u16) -> u64 { let x = any_u16(n); assume(x < lim); x as u64 }
fn of(l: &[u64]) -> u64 { l[choose(l.len() as u32) as usize] }
/// Mint `n` tokens in batches of at most a hundred; who(t) owns token t.
fn mint_many(n: u64, who: &dyn Fn(u64) -> Ac) {
    let mut t = 1;
    while t <= n {
        tick();
        let b = (n - t + 1).min(100);
        let r = mint(ADMIN, (t..t + b).map(|t| mint_req(who(t).acct())).collect());
        check(matches!(&r, Some(Ok(_))), "batch-within-limit-minted");
        t += b;
    }
}
fn walk(owner: Option<Ac>) -> Vec<u64> {
    let (mut v, mut prev) = (vec![], None);
    loop {
        let p = match owner { None => tokens(prev, None), Some(a) => tokens_of(a.acct(), prev, None) };
        let p = match p { Some(p) => p, None => { check(false, "page-answers"); return v } };
        if p.is_empty() { return v }
        v.extend(&p);
        if v.len() > 1000 { check(false, "walk-ends"); return v }
        prev = v.last().copied();
    }
}
const A: Ac = Ac { p: 11, s: 0 };
const B_: Ac = Ac { p: 11, s: 30 };
const C: Ac = Ac { p: 12, s: 0 };
fn third(t: u64) -> Ac { [A, B_, C][t as usize % 3] }
/// param 0: transfer, transfer_from, burn. 260 tokens of three accounts; one at the border of something changes hands or goes.
#[no_mangle]
pub extern "C" fn h_c07_many() {
    boot_ok(init_args());
    mint_many(260, &third);
    let t = of(&[1, 2, 63, 64, 100, 101, 127, 128, 200, 255, 256, 257, 260, 261]);
    let o = third(t);
    let d = if flip() { Ac::new(13, 0) } else { third(t + 1) };
    tick();
    let live = t <= 260;
    let mut now: Vec<Option<Ac>> = (1..261).map(|t| Some(third(t))).collect();
    let ok = match param(0) {
        0 => { let mut a = xfer_arg(d.acct(), t); a.from_subaccount = osub(o.s).map(|s| serde_bytes::ByteBuf::from(s.to_vec())); ok1t(&transfer(o.p, vec![a])) }
        1 => ok1(&transfer_from(o.p, vec![TransferFromArg { spender_subaccount: osub(o.s), from: o.acct(), to: d.acct(), token_id: nat(t), memo: None, created_at_time: None }])),
        _ => matches!(burn(o.p, t), Some(Ok(()))),
    };
    check(ok == live, "owner-served");
    if ok { now[t as usize - 1] = if param(0) == 2 { None } else { Some(d) }; cover("changed"); }
    for k in 0..3u64 {
        let ids: Vec<u64> = (k * 100 + 1..k * 100 + 101).collect();
        let r: Option<Vec<Option<Account>>> = call(QUERY, "icrc7_owner_of", (ids.iter().map(|t| nat(*t)).collect::<Vec<_>>(),), ADMIN);
        match r {
            Some(v) => check(v.len() == 100 && v.iter().zip(&ids).all(|(a, t)| match (a, now.get(*t as usize - 1).copied().flatten()) { (None, None) => true, (Some(a), Some(o)) => seen(a).same(o), _ => false }), "owner"),
            None => check(false, "owner-of-answers"),
        }
    }
    let all = |f: &dyn Fn(Ac) -> bool| -> Vec<u64> { (1..261).filter(|t| now[*t as usize - 1].map_or(false, |o| f(o))).collect() };
    check(walk(None) == all(&|_| true), "token-list");
    for a in [A, B_, C, Ac::new(13, 0)] {
        let l = all(&|o| o.same(a));
        check(balance(a.acct()) == l.len() as u64, "balance");
        check(walk(Some(a)) == l, "tokens-of-list");
    }
    check(supply() == all(&|_| true).len() as u64, "total-supply");
}
/// 230 tokens, 207 of them of one account, default limits. param 0: icrc7_tokens or icrc7_tokens_of; param 1: any prev or any take
#[no_mangle]
pub extern "C" fn h_c23_many() {
    boot_ok(init_args());
    let who = |t: u64| if t % 10 == 0 { C } else { A };
    mint_many(230, &who);
    let (prev, take) = if param(1) == 0 { (Some(of(&[0, 96, 124, 226]) + below("prev", 8) as u64), if flip() { None } else { Some(of(&[0, 1, 99, 100, 101])) }) } else { (if flip() { None } else { Some(of(&[0, 1, 99, 100, 130, 200, 229, 230])) }, Some(word("take", 300))) };
    let r = if param(0) == 1 { tokens_of(A.acct(), prev, take) } else { tokens(prev, take) };
    let over = take.map_or(false, |t| t > 100);
    match r {
        None => { cover("refused"); check(over, "page-within-limits-served"); }
        Some(l) => {
            cover("served");
            check(!over, "page-over-limit-refused");
            let all: Vec<u64> = (1..231).filter(|t| param(0) == 0 || who(*t).same(A)).collect();
            let p = prev.unwrap_or(0);
            let from = all.partition_point(|t| *t <= p);
            let n = take.unwrap_or(100).min((all.len() - from) as u64);
            check(l.len() as u64 == n, "page-length");
            if l.len() as u64 == n { check(l[..] == all[from..from + l.len()], "page-content"); }
            if l.len() == 100 { cover("full"); }
        }
    }
}
/// The limits in force when none are configured. param 0: mint, transfer, the queries, memos
#[no_mangle]
pub extern "C" fn h_c11_default() {
    boot_ok(init_args());
    let n = if param(0) < 3 { of(&[99, 100, 101, 102]) } else { 0 };
    match param(0) {
        0 => {
            tick();
            let r = mint(ADMIN, (0..n).map(|_| mint_req(A.acct())).collect());
            check(matches!(r, Some(Ok(_))) == (n <= 100), "batch-limit");
            check(supply() == if n <= 100 { n } else { 0 }, "refused-mint-creates-nothing");
        }
        1 => {
            mint_many(110, &|_| A);
            tick();
            let l0 = log_len();
            let r = transfer(A.p, (0..n).map(|k| xfer_arg(C.acct(), k + 1)).collect());
            match r { Some(v) => check(v.iter().filter(|x| matches!(x, Some(Ok(_)))).count() as u64 == n.min(100), "batch-limit"), None => check(false, "transfer-answers") }
            check((log_len() == l0 + n.min(100)) & (balance(C.acct()) == n.min(100)), "one-block-per-move");
        }
        2 => {
            mint_many(50, &|_| A);
            let (m, a): (&str, Vec<u8>) = match choose(3) {
                0 => ("icrc7_owner_of", encs(((1..n + 1).map(nat).collect::<Vec<_>>(),))),
                1 => ("icrc7_balance_of", encs(((1..n + 1).map(|_| A.acct()).collect::<Vec<_>>(),))),
                _ => ("icrc7_token_metadata", encs(((1..n + 1).map(nat).collect::<Vec<_>>(),))),
            };
            let r = call_raw(QUERY, m, &a, 9);
            check(r.is_some() == (n <= 100), "query-limit");
            if let Some(b) = r { let k = match m { "icrc7_owner_of" => dec::<Vec<Option<Account>>>(&b).iter().filter(|x| x.is_some()).count() as u64, "icrc7_balance_of" => dec::<Vec<Nat>>(&b).iter().filter(|x| un(x) == 50).count() as u64 - 50, _ => dec::<Vec<Option<Vec<(String, Value)>>>>(&b).iter().filter(|x| x.is_some()).count() as u64 }; check(k == if m == "icrc7_balance_of" { n - 50 } else { 50 }, "one-answer-per-question"); }
        }
        _ => {
            let k = of(&[33, 256, 1_000_000, 1_000_001]) as usize;
            tick();
            let mut q = mint_req(A.acct());
            q.memo = Some(serde_bytes::ByteBuf::from(vec![1; k]));
            let r = mint(ADMIN, vec![q]);
            check(matches!(r, Some(Ok(_))) == (k <= 1_000_000), "memo-limit");
            cover("memo");
        }
    }
    cover("done");
}
/// A log of 260 blocks and any ranges at its borders; blocks keep the content they were first seen with. param 0: the second range
#[no_mangle]
pub extern "C" fn h_c14_many() {
    boot_ok(init_args());
    let mut all: Vec<Value> = vec![];
    for n in [100, 100, 57] {
        tick();
        check(matches!(mint(ADMIN, (0..n).map(|k| mint_req(third(k).acct())).collect()), Some(Ok(_))), "batch-within-limit-minted");
        let l = all.len() as u64;
        match get_blocks(l, 1000) { Some(r) => { check(r.blocks.len() as u64 == n, "new-blocks-visible"); all.extend(r.blocks.into_iter().map(|b| b.block)); } None => check(false, "get-blocks-answers") }
    }
    for t in [1, 100, 257] { tick(); let o = third((t - 1) % 100); let mut a = xfer_arg(Ac::plain(13), t); a.from_subaccount = osub(o.s).map(|s| serde_bytes::ByteBuf::from(s.to_vec())); check(ok1t(&transfer(o.p, vec![a])), "owner-not-refused"); if let Some(r) = get_blocks(all.len() as u64, 1) { all.extend(r.blocks.into_iter().map(|b| b.block)); } }
    check(all.len() == 260, "new-blocks-visible");
    let border = [0, 1, 99, 100, 101, 127, 128, 255, 256, 259, 260, 261, 1000];
    let (s, n) = (of(&border), of(&[0, 1, 2, 100, 101, 128, 256, 260, 261, 1000]));
    let mut q = vec![(s, n)];
    if param(0) > 0 { q.push([(0, 0), (0, 260), (255, 2), (100, 1)][param(0) as usize]); }
    let r: Option<GetBlocksRes> = call(QUERY, "icrc3_get_blocks", (q.iter().map(|(s, n)| GetBlocksReq { start: nat(*s), length: nat(*n) }).collect::<Vec<_>>(),), 9);
    let r = match r { Some(r) => r, None => { check(false, "get-blocks-answers"); return } };
    check(un(&r.log_length) == 260, "log-length");
    let mut want = vec![];
    for (s, n) in &q { for k in *s..(*s + *n).min(260) { want.push(k); } }
    check(r.blocks.iter().map(|b| un(&b.id)).collect::<Vec<_>>() == want, "range");
    check(r.blocks.iter().all(|b| same_value(&b.block, &all[un(&b.id) as usize])), "block-stable");
    cover("asked");
}
/// A ledger of 230 blocks: every job goes on by a hundred, or as far as the ledger answers. param 0: how it answers
#[no_mangle]
pub extern "C" fn h_c28_many() {
    let mk = |i: u64| B::mint(if i % 3 == 0 { 8 } else { 7 }, i);
    let mut x = Ix::boot((0..of(&[99, 100, 101, 199, 200, 201, 230])).map(mk).collect());
    let mut had = 0u64;
    for step in 0..4 {
        let how = if step == 1 { match param(0) { 0 => Srv::All, 1 => Srv::First(of(&[1, 50, 99])), 2 => Srv::Archive(of(&[1, 100, 150, 200])), _ => Srv::Dead } } else { Srv::All };
        x.job(60_000_000_000);
        x.run(how);
        let n = x.status();
        let most = (had + 100).min(x.log.len() as u64);
        check((n <= most) & (n >= had), "index-never-goes-back");
        if how == Srv::All || matches!(how, Srv::Archive(_)) { check(n == most, "index-goes-on"); }
        had = n;
        if step == 2 && flip() { x.upgrade(); check(x.status() == had, "index-kept"); }
        let v: Option<Vec<u64>> = x.get(0, 1000, vec![typ(0)], None, Srv::All).map(|r| r.blocks.iter().map(|b| un(&b.id)).collect());
        check(v == Some((0..n).collect()), "indexed-blocks-are-a-prefix");
        let v: Option<Vec<u64>> = x.get(0, 1000, vec![acc(8)], None, Srv::All).map(|r| r.blocks.iter().map(|b| un(&b.id)).collect());
        check(v == Some((0..n).filter(|i| i % 3 == 0).collect()), "account-filter-exact");
    }
    x.sync();
    check(x.status() == x.log.len() as u64, "index-catches-up");
    cover("caught-up");
}
/// 230 indexed blocks and pages at the borders. param 0: unfiltered, by type, by account and type
#[no_mangle]
pub extern "C" fn h_c30_many() {
    let mk = |i: u64| B { k: if i % 2 == 0 { 0 } else { 2 }, t: i, p: [7, 8, 9] };
    let mut x = Ix::boot((0..230).map(mk).collect());
    for _ in 0..3 { x.sync(); }
    check(x.status() == 230, "indexed");
    if flip() { x.get(40, 100, vec![], None, Srv::All); cover("part-cached"); }
    let f = param(0);
    let down = flip();
    let (s, l) = (of(&[0, 1, 64, 99, 100, 101, 114, 115, 128, 200, 229, 230]), of(&[1, 2, 50, 100, 101, 115, 150, 230, 300]));
    let all: Vec<u64> = (0..230).filter(|i| f == 0 || i % 2 == 0).collect();
    let s0 = if down && f == 0 { 230u64.saturating_sub(l) } else { s };
    let mut want: Vec<u64> = all.iter().enumerate().filter(|(i, _)| (*i as u64 >= s0) && ((*i as u64) < s0 + l)).map(|(_, b)| *b).collect();
    if down { want.reverse(); }
    let fs = match f { 0 => vec![], 1 => vec![typ(0)], _ => vec![acc(8), typ(0)] };
    match x.get(s, l, fs, if down { Some(SortBy::Descending) } else { None }, Srv::All) {
        Some(r) => {
            check(r.blocks.iter().map(|b| un(&b.id)).collect::<Vec<_>>() == want, "page-exact");
            check(r.blocks.iter().all(|b| { let i = un(&b.id); i < 230 && same_value(&b.block, &x.log[i as usize].value(i)) }), "page-content");
            check(r.total == 230, "total-reported");
            cover("page");
        }
        None => check(false, "page-served"),
    }
}
/// Limits at and above 2^31 behave like any other large limit. param 0: C11, C23, C24, C25; param 1: at installation or by an update
#[no_mangle]
pub extern "C" fn h_big() {
    let b = of(&[1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX - 1, u64::MAX]);
    let atomic = flip();
    let mut i = init_args();
    i.atomic_batch_transfers = Some(atomic);
    let m = param(0);
    if param(1) == 0 {
        match m {
            0 => { i.max_update_batch_size = Some(nat(b)); i.max_query_batch_size = Some(nat(b)); i.max_memo_size = Some(nat(b)); }
            1 => { i.max_take_value = Some(nat(b)); if flip() { i.default_take_value = Some(nat(b)); } }
            _ => { i.approval_init.max_approvals_per_token_or_collection = Some(nat(b)); i.approval_init.max_revoke_approvals = Some(nat(b)); }
        }
        boot_ok(i);
    } else {
        boot_ok(i);
        tick();
        let mut u = UpdateCollArgs::none();
        if m == 0 { u.max_update_batch_size = Some(nat(b)); u.max_query_batch_size = Some(nat(b)); u.max_memo_size = Some(nat(b)); }
        else { u.max_take_value = Some(nat(b)); if flip() { u.default_take_value = Some(nat(b)); } }
        let r: Option<Result<(), SimpleError>> = call(UPDATE, "update_collection_metadata", (u,), ADMIN);
        check(matches!(r, Some(Ok(()))), "large-limit-accepted");
    }
    match m {
        0 => {
            tick();
            let r = mint(ADMIN, (0..101).map(|k| { let mut q = mint_req(A.acct()); if k == 5 { q.memo = Some(serde_bytes::ByteBuf::from(vec![1; 40])); } q }).collect());
            check(matches!(r, Some(Ok(_))), "batch-within-limit-minted");
            tick();
            let r = transfer(A.p, (0..101).map(|k| { let mut x = xfer_arg(C.acct(), k + 1); if k == 2 { x.memo = Some(serde_bytes::ByteBuf::from(vec![1; 40])); } x }).collect());
            check(matches!(&r, Some(v) if v.len() == 101 && v.iter().all(|x| matches!(x, Some(Ok(_))))), "batch-within-limit-served");
            for (m, a) in [("icrc7_owner_of", encs(((1..102).map(nat).collect::<Vec<_>>(),))), ("icrc7_balance_of", encs(((1..102).map(|_| A.acct()).collect::<Vec<_>>(),))), ("icrc7_token_metadata", encs(((1..102).map(nat).collect::<Vec<_>>(),)))] {
                check(call_raw(QUERY, m, &a, 9).is_some(), "query-within-limit-served");
            }
        }
        1 => {
            mint_many(104, &|_| A);
            let take = match choose(4) { 0 => None, 1 => Some(101), 2 => Some(b - 1), _ => Some(b) };
            let r = if flip() { tokens(None, take) } else { tokens_of(A.acct(), None, take) };
            match (r, take) {
                (Some(l), None) => check((l.len() == 100) | (l.len() == 104), "page-length"),
                (Some(l), Some(t)) => check((l.len() as u64 == t.min(104)) & (1..105u64).zip(&l).all(|(a, b)| a == *b), "page-content"),
                (None, _) => check(false, "page-within-limits-served"),
            }
        }
        _ => {
            mint_many(12, &|_| A);
            let coll = flip();
            let n = |t: Option<u64>| -> Option<usize> {
                if coll { call::<_, Vec<CollApproval>>(QUERY, "icrc37_get_collection_approvals", (A.acct(), None::<CollApproval>, t.map(nat)), 3).map(|v| v.len()) }
                else { call::<_, Vec<TokenApproval>>(QUERY, "icrc37_get_token_approvals", (nat(1), None::<TokenApproval>, t.map(nat)), 3).map(|v| v.len()) }
            };
            let more = !coll & (m == 3);
            for k in 0..12 {
                tick();
                let inf = ainfo(if more { C } else { Ac::new(130 + k, 0) }, A.s, None);
                let r = if coll { approve_coll(A.p, vec![ApproveCollArg { approval_info: inf }]) } else { approve(A.p, vec![ApproveTokenArg { token_id: nat(if more { k as u64 + 1 } else { 1 }), approval_info: inf }]) };
                check(ok1(&r), "room-not-refused");
            }
            if m == 2 {
                for t in [11, 12, 1 << 32, (1 << 32) + 1, u64::MAX] { check(n(Some(t)) == Some(t.min(12) as usize), "listing-length"); }
            } else {
                tick();
                let f = osub(A.s);
                let r = if coll { revoke_coll(A.p, (0..11).map(|k| RevokeCollArg { spender: Some(Ac::new(130 + k, 0).acct()), from_subaccount: f.clone(), memo: None, created_at_time: None }).collect()) }
                    else { revoke(A.p, (0..11).map(|k| RevokeTokenArg { spender: Some(C.acct()), from_subaccount: f.clone(), token_id: nat(k + 1), memo: None, created_at_time: None }).collect()) };
                check(matches!(&r, Some(Ok(v)) if v.len() == 11), "revocations-up-to-limit");
                // the rate limit lets five of the collection's through
                let done = match &r { Some(Ok(v)) => v.iter().filter(|x| matches!(x, Some(Ok(_)))).count(), _ => 0 };
                check(if coll { done >= 5 } else { done == 11 }, "revocation-served");
                check(n(Some(50)) == Some(if coll { 12 - done } else { 0 }), "as-many-left");
            }
        }
    }
    cover("large");
}
