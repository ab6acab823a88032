//! Acceptance window (C10), memo and batch limits (C11), rate limit (C12), the transaction log (C13, C14).
use crate::world::*;
use crate::appr::grant;
use crate::hist::burn;
use serde_bytes::ByteBuf;

/// What happened to a request carrying a creation time.
#[derive(PartialEq)]
enum Out { Done, Old, Future, Other }
fn out(r: &Option<ARes>) -> Out {
    match r {
        Some(Ok(v)) if v.len() == 1 => match &v[0] { Some(Ok(_)) => Out::Done, Some(Err(AErr::TooOld)) => Out::Old, Some(Err(AErr::CreatedInFuture { ledger_time })) => if *ledger_time == clock() { Out::Future } else { Out::Other }, _ => Out::Other },
        _ => Out::Other,
    }
}
/// param 0: method (0..5); param 1: configuration (window, drift); param 2: 0 any time outside the window, 1 near its borders and inside
#[no_mangle]
pub extern "C" fn h_c10_window() {
    let (w, d) = match param(1) { 0 => (None, None), 1 => (Some(5_000_000_000u64), Some(1_000_000_000u64)), 2 => (Some(1_000), Some(2_000_000_000)), 3 => (Some(0), Some(0)),
        4 => (Some(u64::MAX), None), 5 => (None, Some(u64::MAX)), 6 => (Some(u64::MAX - 3), Some(7)), _ => (Some(u64::MAX), Some(u64::MAX)) };
    let mut i = init_args();
    i.tx_window = w.map(nat);
    i.permitted_drift = d.map(nat);
    boot_ok(i);
    let o = Ac::new(7, 0);
    mint_all(&[o]);
    let s = Ac::new(9, 0);
    let m = param(0);
    // something to revoke; granted with a creation time that is certainly inside
    if m == 4 { grant(o, 1, false, s, None); }
    if m == 5 { grant(o, 1, true, s, None); }
    let now = tick();
    let (w, d) = (w.unwrap_or(10_000_000_000), d.unwrap_or(50_000_000));
    let (lo, hi) = (now.saturating_sub(w).saturating_sub(d), now.saturating_add(d));
    let c = if param(2) == 0 { let c = any_u64("created"); assume((c < lo) | (c > hi)); c } else {
        let k = any_u8("off") as u64;
        assume(k < 128);
        let at = match choose(5) { 0 => lo, 1 => hi, 2 => now, 3 => (lo & !255) + 320, _ => now.saturating_sub(w) };
        at.saturating_sub(64).saturating_add(k)
    };
    let ca = Some(c);
    let got = match m {
        0 => {
            let mut a = xfer_arg(s.acct(), 1);
            a.created_at_time = ca;
            match transfer(7, vec![a]) {
                Some(v) if v.len() == 1 => match &v[0] { Some(Ok(_)) => Out::Done, Some(Err(TransferError::TooOld)) => Out::Old, Some(Err(TransferError::CreatedInFuture { ledger_time })) if un(ledger_time) == now => Out::Future, _ => Out::Other },
                _ => Out::Other,
            }
        }
        1 => { let mut a = xfrom(o, s, 1, 0); a.created_at_time = ca; out(&transfer_from(7, vec![a])) }
        2 => { let mut a = appr(1, s, 0, None); a.approval_info.created_at_time = c; out(&approve(7, vec![a])) }
        3 => { let mut a = ainfo(s, 0, None); a.created_at_time = c; out(&approve_coll(7, vec![ApproveCollArg { approval_info: a }])) }
        4 => out(&revoke(7, vec![RevokeTokenArg { spender: Some(s.acct()), from_subaccount: None, token_id: nat(1), memo: None, created_at_time: ca }])),
        _ => out(&revoke_coll(7, vec![RevokeCollArg { spender: Some(s.acct()), from_subaccount: None, memo: None, created_at_time: ca }])),
    };
    check((got == Out::Future) == (c > hi), "future-refused");
    check((got == Out::Old) == (c < lo), "old-refused");
    check((got == Out::Done) == ((c >= lo) & (c <= hi)), "timely-served");
    match got { Out::Done => cover("served"), Out::Old => cover("too-old"), Out::Future => cover("future"), _ => {} }
}
/// memo size: any limit, memos of 0..4 bytes of any content; the memo ends up in the block
#[no_mangle]
pub extern "C" fn h_c11_memo() {
    let cap = any_u8("cap");
    let mut i = init_args();
    i.max_memo_size = Some(nat(cap as u64));
    boot_ok(i);
    // one of the two memos holds any bytes, the other fixed ones
    let any = choose(2);
    let one = |k: u32| { let n = choose(6) as usize; if n == 5 { None } else { Some((0..n).map(|i| if k == any { any_u8("memo") } else { i as u8 }).collect::<Vec<u8>>()) } };
    let memos = [one(0), one(1)];
    let fit = |m: &Option<Vec<u8>>| m.as_ref().map_or(true, |m| m.len() as u64 <= cap as u64);
    let bytes = |m: &Option<Vec<u8>>| m.as_ref().map(|m| ByteBuf::from(m.clone()));
    let fits = [fit(&memos[0]), fit(&memos[1])];
    let mut kept: Vec<usize> = vec![];
    tick();
    if param(0) == 0 {
        let r = mint(ADMIN, memos.iter().map(|m| MintRequest { token_owner: Ac::plain(7), memo: bytes(m), metadata: vec![] }).collect());
        let ok = matches!(r, Some(Ok(_)));
        check(ok | matches!(r, Some(Err(MintError::InvalidMemo))), "memo-answer");
        check(ok == (fits[0] & fits[1]), "memo-limit");
        check(supply() == 2 * ok as u64, "refused-mint-mints-nothing");
        if ok { kept = vec![0, 1]; }
        check(log_len() == kept.len() as u64, "one-block-per-token");
        if kept.is_empty() { cover("refused") } else { cover("served") }
    } else {
        mint1(Ac::plain(7));
        mint1(Ac::plain(7));
        tick();
        let l0 = log_len();
        let r = transfer(7, (0..2).map(|i| { let mut a = xfer_arg(Ac::plain(9), i as u64 + 1); a.memo = bytes(&memos[i]); a }).collect());
        let done = |i: usize| matches!(&r, Some(v) if matches!(v.get(i), Some(Some(Ok(_)))));
        for i in 0..2 {
            check(done(i) == fits[i], "memo-limit");
            if fits[i] { kept.push(i); cover("served") } else { cover("refused") }
            check(owner_is(i as u64 + 1, Some(Ac::new(if fits[i] { 9 } else { 7 }, 0))), "owner");
        }
        check(log_len() == l0 + kept.len() as u64, "one-block-per-move");
    }
    let first = log_len() - kept.len() as u64;
    if kept.is_empty() { return }
    match get_blocks(first, 2) {
        Some(r) if r.blocks.len() == kept.len() => for (k, b) in kept.iter().zip(&r.blocks) {
            let t = tx(&b.block);
            check(match (&memos[*k], fld(t, "memo")) { (Some(m), Some(Value::Blob(x))) => x.as_ref() == &m[..], (None, None) => true, _ => false }, "memo-logged");
        },
        _ => check(false, "get-blocks-answers"),
    }
}
/// batch limits: a call with 0..3 requests under any limit
#[no_mangle]
pub extern "C" fn h_c11_batch() {
    let lim = any_u8("limit");
    let atomic = flip();
    let mut i = init_args();
    i.max_update_batch_size = Some(nat(lim as u64));
    i.atomic_batch_transfers = Some(atomic);
    boot_ok(i);
    assume(lim > 0);
    for _ in 0..3 { tick(); mint1(Ac::plain(7)); }
    tick();
    let n = choose(4) as u64;
    let l0 = log_len();
    let r = transfer(7, (0..n).map(|k| xfer_arg(Ac::plain(9), k + 1)).collect());
    let take = if n <= lim as u64 { n } else if atomic { 0 } else { lim as u64 };
    match r {
        Some(v) => {
            let done = v.iter().filter(|x| matches!(x, Some(Ok(_)))).count() as u64;
            check(done == take, "batch-limit");
            if take == n { check(v.len() as u64 == n, "one-answer-per-request"); cover("all"); } else if atomic { cover("none"); } else { cover("some"); }
        }
        None => check(false, "transfer-answers"),
    }
    check(log_len() == l0 + take, "one-block-per-move");
    for k in 0..3 { check(owner_is(k + 1, Some(Ac::new(if k < take { 9 } else { 7 }, 0))), "owner"); }
}
/// query batch limit: within it every answer, beyond it none at all
#[no_mangle]
pub extern "C" fn h_c11_query() {
    let lim = any_u8("limit");
    let mut i = init_args();
    i.max_query_batch_size = Some(nat(lim as u64));
    boot_ok(i);
    for p in [7u8, 9] { tick(); mint1(Ac::plain(p)); }
    let n = choose(4) as usize;
    let fits = n as u64 <= lim as u64;
    let ids: Vec<u8> = (0..n).map(|_| below("tid", 4)).collect();
    let want = |t: u8| -> Option<u8> { if t == 1 { Some(7) } else if t == 2 { Some(9) } else { None } };
    match param(0) {
        0 => {
            let r: Option<Vec<Option<Account>>> = call(QUERY, "icrc7_owner_of", (ids.iter().map(|t| nat(*t as u64)).collect::<Vec<_>>(),), ADMIN);
            check(r.is_some() == fits, "query-limit");
            if let Some(v) = r { cover("answered"); check(v.len() == n, "one-answer-per-question"); for k in 0..n.min(v.len()) { check(match (&v[k], want(ids[k])) { (None, None) => true, (Some(a), Some(p)) => seen(a).is(p), _ => false }, "owner"); } } else { cover("refused"); }
        }
        1 => {
            let ps: Vec<u8> = (0..n).map(|_| any_u8("who")).collect();
            let r: Option<Vec<Nat>> = call(QUERY, "icrc7_balance_of", (ps.iter().map(|p| Ac::plain(*p)).collect::<Vec<_>>(),), ADMIN);
            check(r.is_some() == fits, "query-limit");
            if let Some(v) = r { cover("answered"); check(v.len() == n, "one-answer-per-question"); for k in 0..n.min(v.len()) { check(un(&v[k]) == ((ps[k] == 7) | (ps[k] == 9)) as u64, "balance"); } } else { cover("refused"); }
        }
        _ => {
            let r: Option<Vec<Option<Vec<(String, Value)>>>> = call(QUERY, "icrc7_token_metadata", (ids.iter().map(|t| nat(*t as u64)).collect::<Vec<_>>(),), ADMIN);
            check(r.is_some() == fits, "query-limit");
            if let Some(v) = r { cover("answered"); check(v.len() == n, "one-answer-per-question"); for k in 0..n.min(v.len()) { check(v[k].is_some() == want(ids[k]).is_some(), "metadata-of-existing"); } } else { cover("refused"); }
        }
    }
}
/// Rate limit: seven calls about one token at any times; the sixth within 60 ms is refused. param 0: which calls
#[no_mangle]
pub extern "C" fn h_c12_rate() {
    let o = Ac::new(7, 0);
    setup(&[o, o]);
    tick();
    let mut seen: Vec<u64> = vec![];
    let n = if param(0) == 0 { 7 } else { 6 };
    let base = (clock() >> 32 << 32) + (1 << 32);
    let mut last = 0u64;
    for k in 0..n {
        let x = if k == 0 { 0 } else { any_u32("time") as u64 };
        assume((x >= last) & (x < 1 << 27));
        last = x;
        let t = base + x;
        at(t);
        // refused for other reasons by the token's state, so that only the limiter makes a difference
        let m = match param(0) { 0 => 0, 1 => k % 3, _ => 2 - k % 3 };
        let limited = match m {
            0 => match transfer(8, vec![xfer_arg(Ac::plain(9), 1)]) { Some(v) if v.len() == 1 => match &v[0] { Some(Err(TransferError::GenericError { .. })) => true, Some(Err(TransferError::InvalidRecipient)) => false, _ => { check(false, "rate-answer"); false } }, _ => { check(false, "transfer-answers"); false } },
            1 => gen(&transfer_from(8, vec![xfrom(o, Ac::new(9, 0), 1, 0)])),
            _ => { let mut a = appr(1, Ac::new(9, 0), 0, None); a.approval_info.created_at_time = base; gen(&approve(8, vec![a])) }
        };
        let mut recent = 0;
        for y in &seen { recent += (x < *y + 60_000_000) as u32; }
        check(limited == (recent >= 5), "five-calls-per-60ms");
        if limited { cover("limited"); } else { cover("let-through"); seen.push(x); }
    }
    // another token is not affected
    check(matches!(&transfer(8, vec![xfer_arg(Ac::plain(9), 2)]), Some(v) if v.len() == 1 && matches!(v[0], Some(Err(TransferError::InvalidRecipient)))), "other-token-unaffected");
}
fn gen(r: &Option<ARes>) -> bool {
    match r {
        Some(Ok(v)) if v.len() == 1 => match &v[0] { Some(Err(AErr::GenericError { .. })) => true, Some(Err(AErr::Unauthorized)) => false, _ => { check(false, "rate-answer"); false } },
        _ => { check(false, "rate-answer"); false }
    }
}

// ---- the log ----
pub fn fld<'a>(v: &'a [(String, Value)], k: &str) -> Option<&'a Value> { v.iter().find(|(n, _)| n == k).map(|(_, x)| x) }
pub fn map(v: &Value) -> &[(String, Value)] { match v { Value::Map(m) => m, _ => { check(false, "block-shape"); &[] } } }
pub fn tx(b: &Value) -> &[(String, Value)] { match fld(map(b), "tx") { Some(t) => map(t), None => { check(false, "block-shape"); &[] } } }
fn text(m: &[(String, Value)], k: &str, want: Option<&str>) -> bool { match (fld(m, k), want) { (None, None) => true, (Some(Value::Text(t)), Some(w)) => t == w, _ => false } }
fn num(m: &[(String, Value)], k: &str, want: Option<u64>) -> bool { match (fld(m, k), want) { (None, None) => true, (Some(Value::Nat(t)), Some(w)) => un(t) == w, _ => false } }
fn who(p: Option<u8>) -> Option<String> { p.map(|p| pr(p).to_text()) }
/// The block has this type, token, parties, and was made now.
fn check_block(id: u64, kind: &str, tid: Option<u64>, from: Option<u8>, to: Option<u8>, sp: Option<u8>, exp: Option<u64>) {
    match get_blocks(id, 1) {
        Some(r) if r.blocks.len() == 1 => {
            check(un(&r.blocks[0].id) == id, "block-id");
            let b = map(&r.blocks[0].block);
            let t = tx(&r.blocks[0].block);
            check(text(b, "btype", Some(kind)) & text(t, "op", Some(kind)), "block-type");
            check(num(b, "timestamp", Some(clock())), "block-time");
            check(num(t, "tid", tid), "block-token");
            check(text(t, "from", who(from).as_deref()), "block-from");
            check(text(t, "to", who(to).as_deref()), "block-to");
            check(text(t, "spender", who(sp).as_deref()), "block-spender");
            check(num(t, "exp", exp), "block-expiry");
        }
        _ => check(false, "get-blocks-answers"),
    }
}
/// param 0: kind of call. A successful one adds exactly one block saying what it did; a failed one adds nothing.
#[no_mangle]
pub extern "C" fn h_c13_block() {
    let (o1, o2) = (any_p("o1"), any_p("o2"));
    let m = param(0);
    setup(&[o1, o2]);
    if m >= 4 { grant(o1, 1, m == 6, Ac::new(9, 0), None); }
    let l0 = log_len();
    let before = get_blocks(0, 10).unwrap();
    tick();
    let c = any_u8("caller");
    let t = below("tid", 4);
    let tid = Some(t as u64);
    let s = any_p("s");
    let e = flip();
    let exp = if e { Some(clock() + any_u8("exp") as u64) } else { None };
    let ok;
    match m {
        0 => { ok = ok1t(&transfer(c, vec![xfer_arg(s.acct(), t as u64)])); if ok { check_block(l0, "7xfer", tid, Some(c), Some(s.p), None, None); } }
        1 => { let f = any_p("from"); let sp = any_u8("sp"); ok = ok1(&transfer_from(sp, vec![xfrom(f, s, t, 0)])); if ok { check_block(l0, "37xfer", tid, Some(f.p), Some(s.p), Some(sp), None); } }
        2 => { ok = ok1(&approve(c, vec![appr(t, s, 0, exp)])); if ok { check_block(l0, "37approve", tid, Some(c), None, Some(s.p), exp); } }
        3 => { ok = ok1(&approve_coll(c, vec![ApproveCollArg { approval_info: ainfo(s, 0, exp) }])); if ok { check_block(l0, "37approve_coll", None, Some(c), None, Some(s.p), exp); } }
        4 => { ok = ok1(&revoke(c, vec![RevokeTokenArg { spender: Some(s.acct()), from_subaccount: None, token_id: nat(t as u64), memo: None, created_at_time: None }])); if ok { check_block(l0, "37revoke", tid, Some(c), None, Some(s.p), None); } }
        5 => { ok = ok1(&transfer_from(c, vec![xfrom(o1, s, 1, 0)])); if ok { check_block(l0, "37xfer", Some(1), Some(o1.p), Some(s.p), Some(c), None); } }
        6 => { ok = ok1(&revoke_coll(c, vec![RevokeCollArg { spender: Some(s.acct()), from_subaccount: None, memo: None, created_at_time: None }])); if ok { check_block(l0, "37revoke_coll", None, Some(c), None, Some(s.p), None); } }
        7 => { ok = matches!(burn(c, t as u64), Some(Ok(()))); if ok { check_block(l0, "7burn", tid, Some(c), None, None, None); } }
        8 => { ok = matches!(mint(c, vec![mint_req(s.acct())]), Some(Ok(_))); if ok { check_block(l0, "7mint", Some(3), None, Some(s.p), None, None); } }
        _ => {
            let r: Option<Result<Nat, UpdateNftError>> = call(UPDATE, "update_nft_metadata", (UpdateNftArgs { token_id: nat(t as u64), metadata: vec![] },), c);
            ok = matches!(r, Some(Ok(_)));
            if ok { check_block(l0, "7update_token", tid, Some(c), None, None, None); }
        }
    }
    if ok { cover("done"); } else { cover("refused"); }
    check(log_len() == l0 + ok as u64, "one-block-per-success");
    // and everything logged before is still there, unchanged
    let after = get_blocks(0, l0).unwrap();
    check(same(&before.blocks, &after.blocks), "log-append-only");
    if !ok { check(owner_is(1, Some(o1)) & owner_is(2, Some(o2)), "refused-changes-nothing"); }
}
/// equal without deciding each byte separately
fn blob(m: &[(String, Value)], k: &str, want: Option<&[u8]>) -> bool { match (fld(m, k), want) { (None, None) => true, (Some(Value::Blob(t)), Some(w)) => &t[..] == w, _ => false } }
/// What the client supplied with the operation is in its block: memo and creation time.
fn check_extra(id: u64, memo: Option<u8>, created: Option<u64>) {
    match get_blocks(id, 1) {
        Some(r) if r.blocks.len() == 1 => {
            let t = tx(&r.blocks[0].block);
            check(blob(t, "memo", memo.map(|m| [m]).as_ref().map(|m| &m[..])), "block-memo");
            if created.is_some() { check(num(t, "created_at_time", created), "block-created"); }
        }
        _ => check(false, "get-blocks-answers"),
    }
}
fn ids(r: Option<ARes>) -> Vec<Option<u64>> {
    match r { Some(Ok(v)) => v.iter().map(|x| match x { Some(Ok(n)) => Some(un(n)), _ => None }).collect(), _ => { check(false, "batch-answers"); vec![] } }
}
/// param 0: kind of call, with two requests. Each accepted one has its own block, in order, numbered as the answer says.
#[no_mangle]
pub extern "C" fn h_c13_batch() {
    let o = any_p("o");
    let m = param(0);
    setup(&[o, o]);
    if m == 4 { allow_both(o); }
    let l0 = log_len();
    let now = tick();
    let c = any_u8("caller");
    let (a, b) = (any_p("a"), any_p("b"));
    let (t, u) = (below("t", 4), below("u", 4));
    let (ta, tb) = (Some(t as u64), Some(u as u64));
    let w = any_u8("memo");
    let memo = Some(ByteBuf::from(vec![w]));
    let k = flip();
    let ct = if k { Some(now - any_u8("age") as u64) } else { None };
    let r: Vec<Option<u64>> = match m {
        0 => match mint(c, vec![MintRequest { token_owner: a.acct(), memo: memo.clone(), metadata: vec![] }, mint_req(b.acct())]) { Some(Ok(n)) => { check(un(&n) == 3, "mint-id"); vec![Some(l0), Some(l0 + 1)] } _ => vec![None, None] },
        1 => match transfer(c, vec![TransferArg { to: a.acct(), token_id: nat(t as u64), memo: memo.clone(), from_subaccount: None, created_at_time: ct }, xfer_arg(b.acct(), u as u64)]) { Some(v) => { let mut v: Vec<_> = v.iter().map(|x| match x { Some(Ok(n)) => Some(un(n)), _ => None }).collect(); if is_anon(c) { v = vec![None, None]; } v } None => { check(false, "batch-answers"); vec![] } },
        2 => { let mut x = xfrom(o, a, t, 0); x.memo = memo.clone(); x.created_at_time = ct; ids(transfer_from(c, vec![x, xfrom(a, b, u, 0)])) }
        3 => { let mut x = appr(t, a, 0, None); x.approval_info.memo = memo.clone(); if let Some(z) = ct { x.approval_info.created_at_time = z; } ids(approve(c, vec![x, appr(u, b, 0, None)])) }
        _ => ids(revoke(c, vec![RevokeTokenArg { spender: Some(a.acct()), from_subaccount: None, token_id: nat(t as u64), memo: memo.clone(), created_at_time: ct }, RevokeTokenArg { spender: None, from_subaccount: None, token_id: nat(u as u64), memo: None, created_at_time: None }])),
    };
    check(r.len() == 2, "one-answer-per-request");
    let mut next = l0;
    for (i, x) in r.iter().enumerate() {
        let Some(answer) = *x else { continue };
        cover(["first", "second"][i]);
        // the answers count blocks from 1, the log from 0
        check(m == 0 || answer == next + 1, "block-number");
        let n = next;
        next += 1;
        let (tid, p, mm) = if i == 0 { (ta, a.p, Some(w)) } else { (tb, b.p, None) };
        let cc = if i == 0 { ct } else { None };
        match m {
            0 => { check_block(n, "7mint", Some(3 + i as u64), None, Some(p), None, None); check_extra(n, mm, Some(now)); }
            1 => { check_block(n, "7xfer", tid, Some(c), Some(p), None, None); check_extra(n, mm, Some(cc.unwrap_or(now))); }
            2 => { check_block(n, "37xfer", tid, Some(if i == 0 { o.p } else { a.p }), Some(p), Some(c), None); check_extra(n, mm, cc); }
            3 => { check_block(n, "37approve", tid, Some(c), None, Some(p), None); check_extra(n, mm, Some(cc.unwrap_or(now))); }
            _ => { check_block(n, "37revoke", tid, Some(c), None, if i == 0 { Some(p) } else { None }, None); check_extra(n, mm, cc); }
        }
    }
    check(log_len() == next, "one-block-per-success");
    if r[0].is_none() && r[1].is_none() { cover("none"); }
}
fn allow_both(o: Ac) {
    for t in 1..3 { tick(); check(ok1(&approve(o.p, vec![appr(t, Ac::new(9, 0), 0, None)])), "setup-approve"); }
}
fn same(a: &[BlockWithId], b: &[BlockWithId]) -> bool {
    if a.len() != b.len() { return false; }
    let (x, y) = (enc(a.to_vec()), enc(b.to_vec()));
    x == y
}
/// The log in ranges: five blocks of history, two ranges with any start and length
#[no_mangle]
pub extern "C" fn h_c14_ranges() {
    let mut i = init_args();
    i.max_query_batch_size = None;
    boot_ok(i);
    let mut all: Vec<BlockWithId> = vec![];
    for k in 0..4u64 {
        tick();
        if k < 3 { mint1(Ac::plain(7 + k as u8)); } else { check(ok1t(&transfer(7, vec![xfer_arg(Ac::plain(9), 1)])), "owner-not-refused"); }
        let r = get_blocks(k, 9).unwrap();
        check(un(&r.log_length) == k + 1, "log-length");
        check(r.blocks.len() == 1, "new-block-visible");
        all.push(r.blocks[0].clone());
    }
    let (s1, n1, s2, n2) = (below("start", 7) as u64, below("length", 7) as u64, below("start", 7) as u64, below("length", 7) as u64);
    let two = param(0) == 1;
    let mut q = vec![GetBlocksReq { start: nat(s1), length: nat(n1) }];
    if two { q.push(GetBlocksReq { start: nat(s2), length: nat(n2) }); }
    let r: Option<GetBlocksRes> = call(QUERY, "icrc3_get_blocks", (q,), ADMIN);
    let r = match r { Some(r) => r, None => { check(false, "get-blocks-answers"); return } };
    check(un(&r.log_length) == 4, "log-length");
    let mut want = vec![];
    for (s, n) in [(s1, n1), (s2, n2)].iter().take(1 + two as usize) { for k in *s..(*s + *n).min(4) { want.push(k); } }
    let got: Vec<u64> = r.blocks.iter().map(|b| un(&b.id)).collect();
    check(got == want, "range");
    for b in &r.blocks { let k = un(&b.id); check(k < 4 && same(&[b.clone()], &[all[k as usize].clone()]), "block-stable"); }
    cover("asked");
    if !got.is_empty() { cover("some-blocks"); }
}
