//! The index canister (C27 - C30). The harness plays the ledger and its archive.
use crate::world::*;
use crate::ledger::fld;
use candid::{define_function, types::reference::Func};
use serde_bytes::ByteBuf;

pub const IX: u32 = 2;
pub const IX_ID: &[u8] = &[0x1D, 1];
pub const LEDGER: u8 = 60;
pub const ARCH: u8 = 61;
const EXEC: &str = "<ic-cdk internal> timer_executor";
const MINUTE: u64 = 60_000_000_000;
const DAY: u64 = 86_400_000_000_000;

#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct IxInit { pub test_mode: bool, pub version: BuildVersion, pub commit_hash: String, pub authorized_principals: Vec<Principal>, pub ledger_canister_id: Principal }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct IxUp { pub version: BuildVersion, pub commit_hash: String }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub enum IxArgs { Init(IxInit), Upgrade(IxUp) }
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
pub enum SortBy { Ascending, Descending }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub enum Filter { Account(Account), BlockType(String), TokenId(Nat) }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct IxGet { pub start: u64, pub length: u64, pub filters: Vec<Filter>, pub sort_by: Option<SortBy> }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct IxRes { pub total: u64, pub blocks: Vec<BlockWithId> }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct IxStatus { pub last_block_id: u64 }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct IxLedger { pub ledger_id: Principal }
define_function!(pub ArchFn : (Vec<GetBlocksReq>) -> (LedgerRes) query);
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct Archived { pub args: Vec<GetBlocksReq>, pub callback: ArchFn }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct LedgerRes { pub log_length: Nat, pub blocks: Vec<BlockWithId>, pub archived_blocks: Vec<Archived> }

pub const KINDS: [&str; 9] = ["7mint", "7burn", "7xfer", "37approve", "37approve_coll", "37revoke", "37revoke_coll", "37xfer", "7update_token"];
/// which of token, from, to, spender a block of the kind names
pub const HAS: [[bool; 4]; 9] = [
    [true, false, true, false], [true, true, false, false], [true, true, true, false], [true, true, false, true], [false, true, false, true],
    [true, true, false, true], [false, true, false, true], [true, true, true, true], [true, true, false, false]];
/// A ledger block in short.
#[derive(Clone, Copy, Debug)]
pub struct B { pub k: usize, pub t: u64, pub p: [u8; 3] }
impl B {
    pub fn mint(p: u8, t: u64) -> B { B { k: 0, t, p: [p, p, p] } }
    pub fn names(&self, q: u8) -> bool { let mut r = false; for i in 0..3 { if HAS[self.k][i + 1] { r |= self.p[i] == q; } } r }
    pub fn token(&self, t: u64) -> bool { HAS[self.k][0] & (self.t == t) }
    pub fn value(&self, id: u64) -> Value {
        let txt = |x: &str| Value::Text(x.to_string());
        let mut t = vec![];
        let h = HAS[self.k];
        // candid maps in the ledger's order (sorted by key)
        if h[1] { t.push(("from".to_string(), txt(&pr(self.p[0]).to_text()))); }
        t.push(("op".to_string(), txt(KINDS[self.k])));
        if h[3] { t.push(("spender".to_string(), txt(&pr(self.p[2]).to_text()))); }
        if h[0] { t.push(("tid".to_string(), Value::Nat(nat(self.t)))); }
        if h[2] { t.push(("to".to_string(), txt(&pr(self.p[1]).to_text()))); }
        Value::Map(vec![("btype".into(), txt(KINDS[self.k])), ("phash".into(), Value::Blob(ByteBuf::from(vec![id as u8; 32]))), ("timestamp".into(), Value::Nat(nat(T0 + id))), ("tx".into(), Value::Map(t))])
    }
}
/// How the ledger answers one request.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Srv { All, First(u64), Archive(u64), Dead }

/// module number of the index canister
static mut IXM: u32 = 1;
pub struct Ix { pub log: Vec<B>, pub done: u32, pub asked: u32, pub odd: Option<Value>, pub real: bool }
impl Ix {
    pub fn boot(log: Vec<B>) -> Ix {
        install(IX, unsafe { IXM });
        set_id(IX, IX_ID);
        at(T0);
        let c = msg(2, IX, "", &enc(IxArgs::Init(IxInit { test_mode: false, version: BuildVersion { major: 1, minor: 0, patch: 0 }, commit_hash: "c".into(), authorized_principals: vec![pr(ADMIN)], ledger_canister_id: pr(LEDGER) })), pr(ADMIN).as_slice());
        check(st(c) == St::Replied, "index-starts");
        Ix { log, done: ncalls(), asked: 0, odd: None, real: false }
    }
    pub fn status(&self) -> u64 {
        let c = msg(QUERY, IX, "status", &encs(()), &[9]);
        check(st(c) == St::Replied, "status-answers");
        dec::<IxStatus>(&field(0, c)).last_block_id
    }
    pub fn open(&self) -> bool { self.done < ncalls() }
    /// Answer outgoing call i as the ledger or its archive would.
    pub fn serve(&mut self, i: u32, how: Srv) {
        check(String::from_utf8(field(3, i)).unwrap() == "icrc3_get_blocks", "asks-for-blocks");
        let arch = field(2, i) == pr(ARCH).as_slice();
        check(arch || field(2, i) == pr(LEDGER).as_slice(), "asks-the-ledger");
        if how == Srv::Dead { respond(i, 4, b"no"); return; }
        self.asked += 1;
        if self.real { let c = msg(QUERY, CORE, "icrc3_get_blocks", &field(4, i), IX_ID); let r = field(0, c); respond(i, 0, &r); return; }
        let a: Vec<GetBlocksReq> = dec(&field(4, i));
        let mut r = LedgerRes { log_length: nat(self.log.len() as u64), blocks: vec![], archived_blocks: vec![] };
        for q in a {
            let (s, mut l) = (un(&q.start), un(&q.length));
            if let Srv::First(n) = how { if l > n { l = n; } }
            let e = (s.saturating_add(l)).min(self.log.len() as u64);
            // the archive holds the first n blocks
            let cut = if let (false, Srv::Archive(n)) = (arch, how) { n.clamp(s, e.max(s)) } else { s };
            if cut > s { r.archived_blocks.push(Archived { args: vec![GetBlocksReq { start: nat(s), length: nat(cut - s) }], callback: ArchFn(Func { principal: pr(ARCH), method: "icrc3_get_blocks".into() }) }); }
            for b in cut..e { r.blocks.push(BlockWithId { id: nat(b), block: match &self.odd { Some(v) if b == 0 => v.clone(), _ => self.log[b as usize].value(b) } }); }
        }
        respond(i, 0, &enc(r));
    }
    pub fn run(&mut self, how: Srv) { let mut n = 0; while self.open() { let i = self.done; self.done += 1; self.serve(i, how); n += 1; if n > 40 { check(false, "finite-calls"); kill() } } }
    /// Let time pass until the index job starts; its calls stay open.
    pub fn job(&mut self, after: u64) {
        at(clock() + after);
        let due = timer(IX);
        if due == 0 || clock() < due { check(false, "job-scheduled"); return; }
        let c = msg(5, IX, "", &[], &[]);
        check(st(c) == St::Replied || st(c) == St::Pending, "timer-runs");
        let mut own = vec![];
        while self.open() { own.push(self.done); self.done += 1; }
        for i in own {
            check(String::from_utf8(field(3, i)).unwrap() == EXEC && field(2, i) == IX_ID, "timer-runs");
            let c = msg(UPDATE, IX, EXEC, &field(4, i), IX_ID);
            check(st(c) != St::Trapped, "job-runs");
            if st(c) == St::Replied { let r = field(0, c); respond(i, 0, &r); } else { respond(i, 5, b"trapped"); }
        }
    }
    pub fn sync(&mut self) { self.job(MINUTE); self.run(Srv::All); }
    pub fn ask(&mut self, start: u64, length: u64, filters: Vec<Filter>, sort_by: Option<SortBy>) -> u32 {
        msg(UPDATE, IX, "get_blocks", &enc(IxGet { start, length, filters, sort_by }), &[9])
    }
    pub fn get(&mut self, start: u64, length: u64, filters: Vec<Filter>, sort_by: Option<SortBy>, how: Srv) -> Option<IxRes> {
        let c = self.ask(start, length, filters, sort_by);
        self.run(how);
        if st(c) == St::Replied { Some(dec(&field(0, c))) } else { None }
    }
    pub fn ids(&mut self, f: Vec<Filter>) -> Option<Vec<u64>> { self.get(0, 100, f, None, Srv::All).map(|r| r.blocks.iter().map(|b| un(&b.id)).collect()) }
    /// The filtered answer holds exactly the blocks for which `m` holds, once each, in ascending order.
    pub fn exact<F: Fn(&B) -> bool>(&mut self, f: Vec<Filter>, m: F, l: &str) {
        match self.ids(f) {
            None => check(false, "filter-answers"),
            Some(v) => {
                let mut ok = true;
                for w in 1..v.len() { ok &= v[w - 1] < v[w]; }
                for (i, b) in self.log.iter().enumerate() { ok &= m(b) == v.contains(&(i as u64)); }
                ok &= v.iter().all(|x| (*x as usize) < self.log.len());
                check(ok, l);
            }
        }
    }
}
pub fn acc(q: u8) -> Filter { Filter::Account(Account { owner: pr(q), subaccount: None }) }
pub fn typ(k: usize) -> Filter { Filter::BlockType(KINDS[k].to_string()) }
pub fn tok(t: u64) -> Filter { Filter::TokenId(nat(t)) }

/// param 0: kind of the first block, with any parties and any token below 24; the second of one of three kinds; param 1: filters
#[no_mangle]
pub extern "C" fn h_c27_filters() {
    let k1 = param(0) as usize;
    let f = param(1);
    // only what the filter may look at is unknown
    let p = if f == 1 || f == 2 { [7, 9, 8] } else { [any_u8("from"), any_u8("to"), any_u8("spender")] };
    let t = if f == 1 { below("tid", 24) as u64 } else if f == 3 && flip() { 5 } else { 3 };
    let b0 = B { k: k1, t, p };
    let b1 = B { k: (k1 + [0, 4, 7][choose(3) as usize]) % 9, t: 3, p: [8; 3] };
    let mut x = Ix::boot(vec![b0, b1]);
    x.sync();
    check(x.status() == 2, "all-indexed");
    let q = any_u8("q");
    let z = if f == 3 { [3, 5, 6][choose(3) as usize] } else { below("z", 24) as u64 };
    match param(1) {
        0 => { x.exact(vec![acc(q)], |b| b.names(q), "account-filter-exact"); cover("account"); }
        1 => { x.exact(vec![tok(z)], |b| b.token(z), "token-filter-exact"); cover("token"); }
        2 => { let k = choose(9) as usize; x.exact(vec![typ(k)], |b| b.k == k, "type-filter-exact"); cover("type"); }
        3 => { x.exact(vec![acc(q), tok(z)], |b| b.names(q) & b.token(z), "filters-intersect"); cover("both"); }
        _ => { let k = if flip() { k1 } else { b1.k }; x.exact(vec![typ(k), acc(q)], |b| b.names(q) & (b.k == k), "filters-intersect"); cover("both"); }
    }
}
/// Whatever was indexed is exactly the first `status` blocks, each once.
fn indexed_prefix(x: &mut Ix) -> u64 {
    let n = x.status();
    check(n <= x.log.len() as u64, "index-not-ahead");
    // all blocks are of one kind here
    let v = x.ids(vec![typ(0)]);
    check(v == Some((0..n).collect()), "indexed-blocks-are-a-prefix");
    n
}
/// Any schedule of a growing ledger, index jobs, their answers in any order, and readers.
/// param 0, 1: the first two steps; the number of further steps is param 2
#[no_mangle]
pub extern "C" fn h_c28_progress() {
    let n0 = 1 + choose(2) as u64;
    let mut x = Ix::boot((0..n0).map(|i| B::mint(7, i)).collect());
    let mut open: Vec<u32> = vec![];
    let mut seen = 0;
    let steps = 2 + param(2);
    for s in 0..steps {
        let op = if s < 2 { param(s as u32) } else { choose(6) as u64 };
        match op {
            0 => { let i = x.log.len() as u64; x.log.push(B::mint(7, i)); }
            1 => { let k = x.done; x.job(MINUTE); for i in k..ncalls() { if field(2, i) == pr(LEDGER).as_slice() { open.push(i); } } x.done = ncalls(); if open.len() > 1 { cover("overlapping"); } }
            // answer the oldest or the newest open request; what follows is answered at once
            2 | 3 => {
                if open.is_empty() { kill(); }
                let i = if op == 2 { open.remove(0) } else { open.pop().unwrap() };
                let how = match choose(5) { 0 => Srv::All, 1 => Srv::First(1), 2 => Srv::Archive(1), 3 => Srv::Archive(9), _ => Srv::Dead };
                x.serve(i, how);
                x.run(Srv::All);
                if how == Srv::Dead { cover("unreachable"); }
            }
            // somebody reads one block, which puts it into the cache
            4 => { let b = choose(3) as u64; let n = x.log.len() as u64; let r = x.get(b, 1, vec![], None, Srv::All); check(matches!(r, Some(r) if r.blocks.len() == (b < n) as usize), "reader-served"); }
            _ => {
                if !open.is_empty() { kill(); }
                x.upgrade();
                cover("upgraded");
            }
        }
        let n = indexed_prefix(&mut x);
        check(n >= seen, "index-never-goes-back");
        seen = n;
    }
    while let Some(i) = open.pop() { x.serve(i, Srv::All); x.run(Srv::All); }
    // two undisturbed jobs reach the end of the log (a request may have begun before the last block)
    x.sync();
    let n = indexed_prefix(&mut x);
    check(n == x.log.len() as u64, "index-catches-up");
}
impl Ix {
    pub fn upgrade(&mut self) {
        let c = msg(3, IX, "", &[], pr(ADMIN).as_slice());
        check(st(c) == St::Replied, "upgrade-succeeds");
        upgrade(IX, unsafe { IXM });
        let c = msg(4, IX, "", &enc(IxArgs::Upgrade(IxUp { version: BuildVersion { major: 1, minor: 0, patch: 1 }, commit_hash: "d".into() })), pr(ADMIN).as_slice());
        check(st(c) == St::Replied, "upgrade-succeeds");
        self.done = ncalls();
    }
}
/// param 0: kind of value in the block. Blocks are passed on unchanged: fresh, cached, after an upgrade, after the cache was cleared.
#[no_mangle]
pub extern "C" fn h_c29_same() {
    let v = crate::admin::any_value(param(0));
    let mut x = Ix::boot(vec![]);
    let b = Value::Map(vec![("btype".into(), Value::Text(KINDS[8].into())), ("phash".into(), Value::Blob(ByteBuf::from(vec![any_u8("hash"); 2]))), ("timestamp".into(), Value::Nat(nat(T0))),
        ("tx".into(), Value::Map(vec![("from".into(), Value::Text(pr(7).to_text())), ("meta".into(), Value::Map(vec![("k".into(), v.clone())])), ("op".into(), Value::Text(KINDS[8].into())), ("tid".into(), Value::Nat(nat(5)))]))]);
    x.log.push(B { k: 8, t: 5, p: [7; 3] });
    x.log.push(B::mint(8, 6));
    x.odd = Some(b.clone());
    let want = [b, x.log[1].value(1)];
    let how = match choose(3) { 0 => Srv::All, 1 => Srv::Archive(1), _ => Srv::Archive(2) };
    for step in 0..5 {
        match step {
            2 => x.sync(),
            3 => if flip() { x.upgrade(); cover("upgraded"); },
            4 => { let (n, a) = (x.status(), x.asked); x.job(DAY); x.run(Srv::All); check(x.status() == n, "index-kept"); cover("cleared"); let _ = a; }
            _ => {}
        }
        let a = x.asked;
        let f = if step >= 2 && flip() { vec![acc(7)] } else { vec![] };
        let all = f.is_empty();
        match x.get(0, 2, f, None, how) {
            Some(r) if r.blocks.len() == 1 + all as usize => {
                for (i, b) in r.blocks.iter().enumerate() { check((un(&b.id) == i as u64) & same_value(&b.block, &want[i]), "block-unchanged"); }
                check(r.total == x.status(), "total-reported");
            }
            _ => check(false, "blocks-served"),
        }
        if x.asked == a { cover("from-cache"); } else { cover("from-ledger"); }
    }
}
/// Equality without deciding each byte separately; maps by key.
pub fn same_value(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Nat(x), Value::Nat(y)) => x == y,
        (Value::Int(x), Value::Int(y)) => x == y,
        (Value::Text(x), Value::Text(y)) => eq_bytes(x.as_bytes(), y.as_bytes()),
        (Value::Blob(x), Value::Blob(y)) => eq_bytes(x, y),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && { let mut r = true; for i in 0..x.len() { r &= same_value(&x[i], &y[i]); } r },
        (Value::Map(x), Value::Map(y)) => x.len() == y.len() && { let mut r = true; for (k, v) in x { r &= match fld(y, k) { Some(w) => same_value(v, w), None => false }; } r },
        _ => false,
    }
}
fn eq_bytes(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && { let mut d = 0u8; for i in 0..a.len() { d |= a[i] ^ b[i]; } d == 0 } }
/// param 0: how many of five blocks are indexed when the page is asked for; param 1: 0 unfiltered, 1 filtered (every other block)
#[no_mangle]
pub extern "C" fn h_c30_pages() {
    let mk = |i: u64| B { k: if i % 2 == 0 { 0 } else { 2 }, t: i, p: [7, 8, 9] };
    let m = param(0);
    let mut x = Ix::boot((0..m).map(mk).collect());
    if m > 0 { x.sync(); }
    for i in m..5 { x.log.push(mk(i)); }
    check(x.status() == m, "indexed");
    // some of it may be cached already
    if flip() { x.get(1, 2, vec![], None, Srv::All); cover("part-cached"); }
    let filtered = param(1) == 1;
    let sort = match choose(3) { 0 => None, 1 => Some(SortBy::Ascending), _ => Some(SortBy::Descending) };
    let down = sort == Some(SortBy::Descending);
    let (s, l) = if choose(2) == 0 { if filtered { (below("start", 7) as u64, below("length", 7) as u64) } else { (choose(7) as u64, choose(7) as u64) } } else {
        cover("large");
        let s = match choose(4) { 0 => 0, 1 => 1, 2 => 1 << 32, _ => u64::MAX };
        let l = if filtered { match choose(5) { 0 => 1, 1 => 2, 2 => 1 << 32, 3 => u64::MAX - 1, _ => u64::MAX } } else { 1 + choose(2) as u64 * 99 };
        (s, l)
    };
    let all: Vec<u64> = if filtered { (0..m).filter(|i| i % 2 == 0).collect() } else { (0..5).collect() };
    // the newest blocks come first when going down without filters, whatever `start` says
    let s = if down && !filtered { m.saturating_sub(l) } else { s };
    let mut want: Vec<u64> = vec![];
    for (i, id) in all.iter().enumerate() { if (i as u64 >= s) & ((i as u64) < s.saturating_add(l)) { want.push(*id); } }
    if down { want.reverse(); }
    let how = match choose(3) { 0 => Srv::All, 1 => Srv::Archive(2), _ => Srv::Dead };
    let a = x.asked;
    let r = x.get(s, l, if filtered { vec![typ(0)] } else { vec![] }, sort, how);
    match r {
        Some(r) => {
            check(r.blocks.iter().map(|b| un(&b.id)).collect::<Vec<_>>() == want, "page-exact");
            let mut ok = true;
            for b in &r.blocks { let i = un(&b.id); ok &= i < 5 && same_value(&b.block, &x.log[i as usize].value(i)); }
            check(ok, "page-content");
            check(r.total == m, "total-reported");
            cover("page");
            if down && want.len() > 1 { cover("descending"); }
        }
        // only an unreachable ledger excuses
        None => { check(how == Srv::Dead && x.asked == a, "page-served"); cover("unreachable"); }
    }
    check(x.status() == m, "reading-changes-nothing");
}

/// param 0: what happened last on the real ledger (nine kinds, any parties). The index, fed by the real ledger, finds it under
/// its type, its token and the principals it names, and passes on the ledger's own blocks.
#[no_mangle]
pub extern "C" fn h_c27_real() {
    use crate::appr::*;
    use crate::hist::burn;
    unsafe { IXM = 2; }
    boot_ok(init_args());
    let (a, b, c) = (any_p("a"), any_p("b"), any_p("c"));
    let m = param(0) as usize;
    mint_all(&[a, Ac::new(8, 0)]);
    if m == 5 || m == 7 { grant(a, 1, false, c, None); }
    if m == 6 { grant(a, 1, true, c, None); }
    tick();
    let l0 = log_len();
    let ok = match m {
        0 => matches!(mint(ADMIN, vec![mint_req(b.acct())]), Some(Ok(_))),
        1 => matches!(burn(a.p, 1), Some(Ok(()))),
        2 => ok1t(&transfer(a.p, vec![xfer_arg(b.acct(), 1)])),
        3 => ok1(&approve(a.p, vec![appr(1, c, 0, None)])),
        4 => ok1(&approve_coll(a.p, vec![ApproveCollArg { approval_info: ainfo(c, 0, None) }])),
        5 => ok1(&revoke(a.p, vec![RevokeTokenArg { spender: Some(c.acct()), from_subaccount: None, token_id: nat(1), memo: None, created_at_time: None }])),
        6 => ok1(&revoke_coll(a.p, vec![RevokeCollArg { spender: Some(c.acct()), from_subaccount: None, memo: None, created_at_time: None }])),
        7 => ok1(&transfer_from(c.p, vec![xfrom(a, b, 1, 0)])),
        _ => { let r: Option<Result<Nat, UpdateNftError>> = call(UPDATE, "update_nft_metadata", (UpdateNftArgs { token_id: nat(1), metadata: vec![("k".into(), Value::Nat(nat(7)))] },), ADMIN); matches!(r, Some(Ok(_))) }
    };
    if !ok { kill(); }
    let n = log_len();
    check(n == l0 + 1, "one-block");
    let t = clock();
    let mut x = Ix::boot(vec![]);
    at(t);
    x.real = true;
    x.sync();
    check(x.status() == n, "all-indexed");
    let mine = B { k: m, t: if m == 0 { 3 } else { 1 }, p: [if m == 8 { ADMIN } else { a.p }, b.p, c.p] };
    let has = |v: Option<Vec<u64>>| match v { Some(v) => v.contains(&(n - 1)), None => { check(false, "filter-answers"); false } };
    match choose(3) {
        0 => { for k in 0..9 { let r = x.ids(vec![typ(k)]); check(has(r) == (k == m), "found-by-type"); } }
        1 => { for z in 1..4 { let r = x.ids(vec![tok(z)]); check(has(r) == mine.token(z), "found-by-token"); } }
        _ => { let q = any_u8("q"); let r = x.ids(vec![acc(q)]); check(has(r) == mine.names(q), "found-by-account"); }
    }
    let want = get_blocks(0, n).unwrap();
    match x.get(0, 100, vec![], None, Srv::All) {
        Some(r) => { let mut ok = r.blocks.len() == want.blocks.len(); if ok { for i in 0..r.blocks.len() { ok &= (r.blocks[i].id == want.blocks[i].id) & same_value(&r.blocks[i].block, &want.blocks[i].block); } } check(ok, "ledger-blocks-passed-on"); }
        None => check(false, "blocks-served"),
    }
    cover("done");
}
