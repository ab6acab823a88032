//! Uploads, management exclusion, HTTP (C17 - C19, C26).
use crate::admin::*;
use crate::world::*;

#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
pub enum UpState { Init, InProgress, Finalized }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub enum UErr { ConcurrentManagementCall, FileAlreadyExists, UploadNotInitialized, UploadAlreadyFinalized, UploadNotStarted, IncompleteUpload, StorageCanisterError(String), InvalidChunkId, InvalidChunkData, InvalidFilePath, InvalidFileSize, InvalidFileHash, InvalidFileFormat, UploadNotFound }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct Nix {}
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct Url { pub url: String }
type U0 = Result<Nix, UErr>;
type U1 = Result<Url, UErr>;
#[derive(CandidType, Deserialize, Clone, Debug)]
pub enum SErr { FileAlreadyExists, NotEnoughStorage, UploadNotInitialized, UploadAlreadyFinalized, UploadNotStarted, IncompleteUpload, FileHashMismatch, InvalidChunkId }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct CreateRes { pub canister_id: Principal }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct InstallArg { pub canister_id: Principal }

pub fn stor(k: u8) -> Principal { Principal::from_slice(&[0xCC, k]) }
/// What the world around the canister does with a call.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ans { Ok, Err, Fail }
fn any_ans() -> Ans { match choose(3) { 0 => Ans::Ok, 1 => Ans::Err, _ => Ans::Fail } }

/// Calls answered so far, and canisters created.
pub struct Net { pub done: u32, pub made: u8, pub size: u64 }
impl Net {
    pub fn new() -> Net { Net { done: ncalls(), made: 0, size: 0 } }
    pub fn method(i: u32) -> String { String::from_utf8(field(3, i)).unwrap() }
    pub fn open(&self) -> bool { self.done < ncalls() }
    /// Answer the next open call: management calls and sizes with `mgmt`, the storage call proper with `a`.
    /// Returns its index.
    pub fn step(&mut self, mgmt: Ans, a: Ans) -> u32 {
        let i = self.done;
        self.done += 1;
        let m = Net::method(i);
        let mgmt = if mgmt == Ans::Ok { Ans::Ok } else { Ans::Fail };
        let (fail, data): (Ans, Vec<u8>) = match m.as_str() {
            "create_canister" => (mgmt, { if mgmt == Ans::Ok { self.made += 1; } enc(CreateRes { canister_id: stor(self.made) }) }),
            "install_code" => (mgmt, encs(())),
            "get_storage_size" => (mgmt, enc(nat(self.size))),
            "init_upload" => (a, if a == Ans::Ok { enc(Ok::<Nix, SErr>(Nix {})) } else { enc(Err::<Nix, SErr>(SErr::NotEnoughStorage)) }),
            "store_chunk" => (a, if a == Ans::Ok { enc(Ok::<Nix, SErr>(Nix {})) } else { enc(Err::<Nix, SErr>(SErr::InvalidChunkId)) }),
            "finalize_upload" => (a, if a == Ans::Ok { enc(Ok::<Url, SErr>(Url { url: "u".into() })) } else { enc(Err::<Url, SErr>(SErr::FileHashMismatch)) }),
            "cancel_upload" => (a, if a == Ans::Ok { enc(Ok::<Nix, SErr>(Nix {})) } else { enc(Err::<Nix, SErr>(SErr::UploadNotInitialized)) }),
            _ => { log(&m); check(false, "known-call"); kill() }
        };
        if fail == Ans::Fail { respond(i, 4, b"no"); } else { respond(i, 0, &data); }
        i
    }
    pub fn run(&mut self, mgmt: Ans, a: Ans) { let mut n = 0; while self.open() { self.step(mgmt, a); n += 1; if n > 12 { check(false, "finite-calls"); kill() } } }
}
pub fn iarg(path: &str, size: u64) -> InitUpload { InitUpload { file_hash: "h".into(), chunk_size: None, file_path: path.into(), file_size: size } }
pub fn send<A: candid::utils::ArgumentEncoder>(m: &str, a: A) -> u32 { tick(); raw(UPDATE, CORE, m, &encs(a), pr(ADMIN).as_slice()) }
pub fn reply<R: CandidType + for<'a> serde::Deserialize<'a>>(c: u32) -> Option<R> { match st(c) { St::Replied => Some(dec(&field(0, c))), _ => None } }
pub fn upload_status(p: &str) -> Option<UpState> {
    let r: Option<Result<UpState, UErr>> = call(QUERY, "get_upload_status", (p.to_string(),), ADMIN);
    match r { Some(Ok(s)) => Some(s), Some(Err(_)) => None, None => { check(false, "status-answers"); None } }
}
pub fn storages() -> Vec<Principal> { let r: Option<Vec<Principal>> = call(QUERY, "get_all_storage_subcanisters", (), ADMIN); r.unwrap_or_default() }


pub const FILES: [&str; 2] = ["/a", "b"];
pub const UOPS: [&str; 4] = ["init_upload", "store_chunk", "finalize_upload", "cancel_upload"];
/// How the storage canister answers: accepts, refuses, is unreachable, is unreachable once and then accepts.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How { Yes, No, Dead, Again }
fn any_how() -> How { match choose(4) { 0 => How::Yes, 1 => How::No, 2 => How::Dead, _ => How::Again } }

/// The upload ledger as it should be.
pub struct Up { pub st: [Option<UpState>; 2], pub at: [Vec<u8>; 2], pub net: Net, pub plain: bool }
impl Up {
    pub fn new() -> Up { Up { st: [None, None], at: [vec![], vec![]], net: Net::new(), plain: false } }
    fn allowed(&self, op: usize, f: usize) -> bool {
        match (&self.st[f], op) { (None, 0) => true, (Some(UpState::Init), 1 | 3) => true, (Some(UpState::InProgress), 1 | 2 | 3) => true, _ => false }
    }
    /// One management call with everything it leads to, checked against the ledger.
    pub fn step(&mut self, op: usize, f: usize, how: How) {
        let p = FILES[f];
        let (size, chunk, b0, b1) = if self.plain { (9, 1, 2, 3) } else { (any_u64("size"), below("chunk", 128), any_u8("data"), any_u8("data")) };
        assume(size <= 2 << 30);
        let first = ncalls();
        let c = match op {
            0 => send("init_upload", (iarg(p, size),)),
            1 => send("store_chunk", (StoreChunk { chunk_data: ByteBuf::from(vec![b0, b1]), file_path: p.into(), chunk_id: nat(chunk as u64) },)),
            _ => send(UOPS[op], (PathArg { file_path: p.into() },)),
        };
        let may = self.allowed(op, f);
        if !may { check(ncalls() == first, "no-call-when-not-allowed"); }
        let mut deaf = how == How::Again;
        let (mut last, mut n) = (0, 0);
        while self.net.open() {
            let i = self.net.done;
            let m = Net::method(i);
            let a = if how == How::Dead || (deaf && UOPS.contains(&m.as_str())) { Ans::Fail } else if how == How::No { Ans::Err } else { Ans::Ok };
            if UOPS.contains(&m.as_str()) { deaf = false; }
            last = self.net.step(Ans::Ok, a);
            if m == UOPS[op] {
                let arg = field(4, last);
                match op {
                    0 => { let x: InitUpload = dec(&arg); check((x.file_path == p) & (x.file_size == size) & (x.file_hash == "h") & x.chunk_size.is_none(), "request-forwarded"); }
                    1 => { let x: StoreChunk = dec(&arg); check((x.file_path == p) & (un(&x.chunk_id) == chunk as u64) & (x.chunk_data.len() == 2 && x.chunk_data[0] == b0 && x.chunk_data[1] == b1), "request-forwarded"); }
                    _ => { let x: PathArg = dec(&arg); check(x.file_path == p, "request-forwarded"); }
                }
                if op != 0 { check(field(2, last) == self.at[f], "asks-the-holder"); }
            } else { check(op == 0 && (m == "get_storage_size" || m == "create_canister" || m == "install_code"), "expected-calls"); }
            n += 1;
            if n > 20 { check(false, "finite-calls"); kill() }
        }
        let ok = if op == 2 {
            match reply::<U1>(c) {
                Some(Ok(u)) => { check(u.url == ["https://", &Principal::from_slice(CORE_ID).to_text(), ".raw.icp0.io", if f == 0 { "/a" } else { "/b" }].concat(), "url"); true }
                Some(Err(_)) => false, None => { check(false, "answers"); false } }
        } else { match reply::<U0>(c) { Some(r) => r.is_ok(), None => { check(false, "answers"); false } } };
        check(ok == (may && (how == How::Yes || how == How::Again)), "accepted-exactly-when-storage-accepts");
        if ok {
            cover(UOPS[op]);
            check(Net::method(last) == UOPS[op], "storage-asked-last");
            match op { 0 => { self.st[f] = Some(UpState::Init); self.at[f] = field(2, last); } 1 => self.st[f] = Some(UpState::InProgress), 2 => self.st[f] = Some(UpState::Finalized), _ => self.st[f] = None }
        } else { cover("refused"); }
        self.agree();
    }
    pub fn agree(&self) {
        let l: Option<Result<Vec<(String, UpState)>, UErr>> = call(QUERY, "get_all_uploads", (None::<Nat>, None::<Nat>), ADMIN);
        let l = match l { Some(Ok(l)) => l, _ => { check(false, "listing-answers"); kill() } };
        let mut n = 0;
        for f in 0..2 {
            check(upload_status(FILES[f]) == self.st[f], "status");
            if let Some(s) = &self.st[f] { n += 1; check(l.iter().any(|(q, t)| q == FILES[f] && t == s), "listing"); }
        }
        check(l.len() == n, "listing");
        let s = storages();
        check(s.len() == self.net.made as usize, "no-storage-canister-forgotten");
        for k in 1..self.net.made + 1 { check(s.contains(&stor(k)), "no-storage-canister-forgotten"); }
    }
}
/// param 0: how far "/a" has got; param 1: the next call; then any other; param 2: an upgrade in between.
#[no_mangle]
pub extern "C" fn h_c18_life() {
    boot_ok(init_args());
    let mut u = Up::new();
    for op in 0..param(0) as usize { u.step(op, 0, How::Yes); }
    if param(2) == 1 {
        u.step(param(1) as usize, choose(2) as usize, if flip() { How::Yes } else { How::No });
        tick();
        check(upgrade_core(), "upgrade");
        u.agree();
        u.step(choose(4) as usize, choose(2) as usize, How::Yes);
    } else {
        u.step(param(1) as usize, choose(2) as usize, any_how());
        u.step(choose(4) as usize, choose(2) as usize, any_how());
    }
}
/// Any file size, any fill of the one storage canister, any outcome of creating another one.
#[no_mangle]
pub extern "C" fn h_c18_room() {
    boot_ok(init_args());
    let mut u = Up::new();
    u.step(0, 0, How::Yes);
    let size = any_u64("size");
    const CAP: u64 = 500 << 30;
    u.net.size = match choose(4) { 0 => 0, 1 => CAP - (2 << 30), 2 => CAP, _ => CAP - 1 };
    let (a, b) = (any_ans(), any_ans());
    let c = send("init_upload", (iarg("b", size),));
    let big = size > 2 << 30;
    if big { check(ncalls() == u.net.done, "too-big-refused"); }
    let mut seen = vec![];
    while u.net.open() { let i = u.net.step(if u.net.made == 1 && Net::method(u.net.done) != "get_storage_size" { a } else if Net::method(u.net.done) == "install_code" { b } else { Ans::Ok }, Ans::Ok); seen.push(i); if seen.len() > 12 { check(false, "finite-calls"); kill() } }
    let ok = matches!(reply::<U0>(c), Some(Ok(_)));
    let fits = u.net.size.saturating_add(size) <= CAP;
    if big { check(!ok, "too-big-refused"); cover("too-big"); }
    else if fits { check(ok && u.net.made == 1, "room-used"); cover("room"); }
    else {
        cover("no-room");
        check(seen.iter().any(|i| Net::method(*i) == "create_canister"), "full-canister-left-alone");
        for i in &seen { if Net::method(*i) == "init_upload" { check(field(2, *i) == stor(2).as_slice(), "full-canister-left-alone"); } }
    }
    if ok { u.st[1] = Some(UpState::Init); u.at[1] = field(2, *seen.last().unwrap()); cover("ok"); } else { cover("refused"); }
    u.agree();
    // whatever happened, it can be tried again; a canister that was created is not wasted
    if !ok && !big {
        let made = u.net.made;
        u.net.size = CAP;
        let c = send("init_upload", (iarg("b", 1),));
        u.net.run(Ans::Ok, Ans::Ok);
        check(matches!(reply::<U0>(c), Some(Ok(_))), "tried-again");
        check(u.net.made == if made == 2 { 2 } else { made + 1 }, "created-canister-reused");
        u.st[1] = Some(UpState::Init);
        u.agree();
        cover("again");
    }
}

/// All the errors of management calls.
#[derive(CandidType, Deserialize, Clone, Debug)]
pub enum CErr { ConcurrentManagementCall, ExceedMaxAllowedSupplyCap, TokenAlreadyExists, InvalidMemo, NotTokenOwner, TokenDoesNotExist, DefaultError(String), UserNotFound,
    FileAlreadyExists, UploadNotInitialized, UploadAlreadyFinalized, UploadNotStarted, IncompleteUpload, StorageCanisterError(String), InvalidChunkId, InvalidChunkData, InvalidFilePath, InvalidFileSize, InvalidFileHash, InvalidFileFormat }
pub const MGMT: [&str; 10] = ["mint", "update_nft_metadata", "update_collection_metadata", "grant_permission", "revoke_permission", "burn_nft", "init_upload", "store_chunk", "finalize_upload", "cancel_upload"];
fn mgmt_call(m: usize, who: u8, path: &str) -> u32 {
    tick();
    let a = match m {
        0 => enc(MintArgs { mint_requests: vec![mint_req(Ac::plain(9))] }),
        1 => enc(UpdateNftArgs { token_id: nat(1), metadata: vec![("k".into(), Value::Text("v".into()))] }),
        2 => { let mut u = UpdateCollArgs::none(); u.name = Some("X".into()); enc(u) }
        3 => enc(PermArgs { principal: pr(77), permission: Permission::Minting }),
        4 => enc(PermArgs { principal: pr(99), permission: Permission::ReadUploads }),
        5 => enc(nat(1)),
        6 => enc(iarg(path, 1)),
        7 => enc(StoreChunk { chunk_data: ByteBuf::from(vec![1]), file_path: path.into(), chunk_id: nat(0) }),
        _ => enc(PathArg { file_path: path.into() }),
    };
    raw(UPDATE, CORE, MGMT[m], &a, pr(who).as_slice())
}
fn busy(c: u32) -> bool { match reply::<Result<candid::Reserved, CErr>>(c) { Some(Err(CErr::ConcurrentManagementCall)) => true, _ => false } }
/// param 0: the call in progress (0 - 3 of UOPS); param 1: how it ends (0 accepted, 1 refused, 2 unreachable, 3 an upgrade instead).
#[no_mangle]
pub extern "C" fn h_c17_busy() {
    let (op, end) = (param(0) as usize, param(1));
    let (x, y) = if end == 3 { (130, 131) } else { (any_u8("first"), any_u8("second")) };
    assume((x >= 128) & (y >= 128) & (x != ADMIN) & (y != ADMIN));
    let mut i = init_args();
    i.permissions.user_permissions = vec![(pr(ADMIN), PERMS.to_vec()), (pr(99), PERMS.to_vec())];
    if x == y { i.permissions.user_permissions.push((pr(x), PERMS.to_vec())); } else { i.permissions.user_permissions.extend([(pr(x), PERMS.to_vec()), (pr(y), PERMS.to_vec())]); }
    boot_ok(i);
    tick();
    assume(matches!(mint(ADMIN, vec![mint_req(Ac::plain(y)), mint_req(Ac::plain(7))]), Some(Ok(_))));
    let mut u = Up::new();
    for o in 0..(if op == 3 { 1 } else { op }) { u.step(o, 0, How::Yes); }
    // the long call, stopped somewhere on its way
    let c = mgmt_call(6 + op, x, FILES[0]);
    let stop = if op == 0 { choose(3) } else { 0 };
    for _ in 0..stop { u.net.step(Ans::Ok, Ans::Ok); }
    check(st(c) == St::Pending, "in-progress");
    let (s0, n0) = (snapshot(), ncalls());
    let m = choose(10) as usize;
    let f = if end == 3 || flip() { "/a" } else { "b" };
    let d = mgmt_call(m, y, f);
    check(busy(d), "second-call-refused");
    // being refused changes nothing about the next attempt, the same or another's
    check(busy(mgmt_call(m, y, f)), "second-call-refused");
    check(busy(mgmt_call(3, x, f)), "second-call-refused");
    check(ncalls() == n0, "refused-call-has-no-effect");
    check(snapshot() == s0, "refused-call-has-no-effect");
    check(st(c) == St::Pending, "in-progress");
    for g in 0..2 { check(upload_status(FILES[g]) == u.st[g], "refused-call-has-no-effect"); }
    // everybody else is served meanwhile
    tick();
    check(ok1t(&transfer(7, vec![xfer_arg(Ac::plain(8), 2)])), "others-served");
    check(owner_of(2).map_or(false, |o| o.is(8)), "others-served");
    match end {
        3 => { tick(); check(upgrade_core(), "upgrade"); }
        _ => { u.net.run(if end == 2 { Ans::Fail } else { Ans::Ok }, match end { 0 => Ans::Ok, 1 => Ans::Err, _ => Ans::Fail }); check(st(c) == St::Replied, "ends"); check(matches!(reply::<Result<candid::Reserved, CErr>>(c), Some(Ok(_))) == (end == 0), "ends-as-answered"); }
    }
    let d = mgmt_call(m, y, f);
    if st(d) == St::Pending { check(ncalls() > n0, "available-again"); } else { check(st(d) == St::Replied && !busy(d), "available-again"); }
    cover(MGMT[m]);
}

// ---- HTTP ----
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct HttpReq { pub method: String, pub url: String, pub headers: Vec<(String, String)>, pub body: ByteBuf, pub certificate_version: Option<u16> }
#[derive(CandidType, Deserialize, Clone, Debug)]
pub struct HttpRes { pub status_code: u16, pub headers: Vec<(String, String)>, pub body: ByteBuf }
pub fn http(url: &str) -> Option<HttpRes> {
    let r = HttpReq { method: "GET".into(), url: url.into(), headers: vec![], body: ByteBuf::new(), certificate_version: Some(2) };
    call(QUERY, "http_request", (r,), 1)
}
fn location(r: &Option<HttpRes>) -> Option<String> {
    match r { Some(r) if r.status_code == 307 => r.headers.iter().find(|h| h.0.to_lowercase() == "location").map(|h| h.1.clone()), _ => None }
}
impl Up {
    /// Finalized files, and only they, are redirected, each to the canister that holds it; the service pages work.
    pub fn serves(&self) {
        for f in 0..2 {
            let path = if f == 0 { "/a" } else { "/b" };
            let l = location(&http(path));
            if self.st[f] == Some(UpState::Finalized) {
                check(l == Some(["https://", &Principal::from_slice(&self.at[f]).to_text(), ".raw.icp0.io", path].concat()), "finalized-file-redirected");
                cover("redirected");
            } else { check(l.is_none(), "unfinished-file-not-redirected"); cover("not-redirected"); }
        }
        check(location(&http("/c")).is_none(), "unknown-file-not-redirected");
        for p in ["/metrics", "/logs", "/traces"] { check(matches!(http(p), Some(r) if r.status_code == 200), "service-pages"); }
        check(field(5, CORE).len() == 32, "certified");
    }
}
/// How far a file gets: not at all, begun, in progress, finalized, cancelled.
fn bring(u: &mut Up, f: usize, k: u32) { if k < 4 { for op in 0..k as usize { u.step(op, f, How::Yes); } } else { u.step(0, f, How::Yes); u.step(3, f, How::Yes); } }
/// param 0: how far the first file got; the other any way; then one of them one step further.
#[no_mangle]
pub extern "C" fn h_c19_http() {
    boot_ok(init_args());
    let mut u = Up::new();
    u.plain = true;
    bring(&mut u, 0, param(0) as u32);
    bring(&mut u, 1, choose(4));
    let (op, f) = (choose(4) as usize, choose(2) as usize);
    u.step(op, f, if flip() { How::Yes } else { How::No });
    u.serves();
}
/// param 0: how far the first file got; the other any way; then an upgrade.
#[no_mangle]
pub extern "C" fn h_c19_upgrade() {
    boot_ok(init_args());
    let mut u = Up::new();
    u.plain = true;
    bring(&mut u, 0, param(0) as u32);
    bring(&mut u, 1, choose(5));
    u.serves();
    let cert = field(5, CORE);
    tick();
    check(upgrade_core(), "upgrade");
    u.agree();
    u.serves();
    check(field(5, CORE) == cert, "certified-after-upgrade");
    cover("upgraded");
}

// ---- timers ----
pub const DAY: u64 = 86_400_000_000_000;
pub const EXEC: &str = "<ic-cdk internal> timer_executor";
/// Let the canister's timer fire if it is due, run the due tasks, and leave their own calls open.
/// Returns the number of tasks run.
pub fn fire(slot: u32, id: &[u8], net: &mut Net) -> u32 {
    let due = timer(slot);
    if due == 0 || clock() < due { return 0; }
    let c = msg(5, slot, "", &[], &[]);
    check(st(c) == St::Replied || st(c) == St::Pending, "timer-runs");
    let mut own = vec![];
    while net.open() { own.push(net.done); net.done += 1; }
    let mut n = 0;
    for i in own {
        check(Net::method(i) == EXEC && field(2, i) == id, "timer-runs");
        let c = msg(UPDATE, slot, EXEC, &field(4, i), id);
        // calls made by the task stay open behind net.done
        if st(c) == St::Trapped { respond(i, 5, b"trapped"); } else { let r = field(0, c); respond(i, 0, &r); }
        n += 1;
    }
    n
}
/// Two files of any kinds, begun at any times within two days; the daily clean-up.
/// param 0, 1: how far the files got.
#[no_mangle]
pub extern "C" fn h_c26_gc() {
    boot_ok(init_args());
    let t0 = clock();
    let mut u = Up::new();
    u.plain = true;
    // the first file is begun, then time passes, then the second
    let gap = any_u64("gap");
    assume(gap < DAY - 20 * TICK);
    bring(&mut u, 0, param(0) as u32);
    let begun0 = t0 + TICK;
    // (the clock is a symbol only while the second upload is begun: its age at the
    // clean-up is then any value up to a day and beyond)
    let begun1 = if param(1) == 0 { 0 } else { at(begun0 + 10 * TICK + gap); let b = clock() + TICK; bring(&mut u, 1, param(1) as u32); b };
    let begun = [begun0, begun1];
    let late = if choose(2) == 0 { 0 } else { 1_999_999_999 };
    let mut days = 0;
    let how = any_how2();
    for d in 1..3u64 {
        at(t0 + d * DAY + late + 500_000_000 * d);
        let now = clock();
        // exactly a day old may go either way
        for f in 0..2 { assume(begun[f] + DAY != now); }
        fire(CORE, CORE_ID, &mut u.net);
        days += 1;
        let mut asked = [false, false];
        while u.net.open() {
            let i = u.net.done;
            if Net::method(i) == "canister_status" { u.net.done += 1; respond(i, 4, b"no"); continue; } // cycle monitoring
            check(Net::method(i) == "cancel_upload", "only-cancels");
            let a: PathArg = dec(&field(4, i));
            let f = if a.file_path == FILES[0] { 0 } else { check(a.file_path == FILES[1], "cancels-known-file"); 1 };
            check(!asked[f], "asked-once");
            asked[f] = true;
            check(field(2, i) == u.at[f], "asks-the-holder");
            u.net.step(Ans::Ok, how);
        }
        for f in 0..2 {
            let stale = matches!(u.st[f], Some(UpState::Init) | Some(UpState::InProgress)) & (begun[f] + DAY < now);
            if u.st[f].is_some() { check(asked[f] == stale, "exactly-stale-uploads-cancelled"); }
            if asked[f] { cover("cancelled"); if how == Ans::Ok { u.st[f] = None; } } else { cover("kept"); }
        }
        u.agree();
    }
    check(days == 2, "done");
    // afterwards the path can be used again
    for f in 0..2 { if u.st[f].is_none() { u.step(0, f, How::Yes); cover("begun-again"); } }
}
fn any_how2() -> Ans { match choose(3) { 0 => Ans::Ok, 1 => Ans::Err, _ => Ans::Fail } }
/// Pages of get_all_uploads. param 0: how many uploads are begun (every third stored to, every other third finished, one cancelled); param 1: walk in pages, any one page, or both after an upgrade
#[no_mangle]
pub extern "C" fn h_c39_uploads() {
    boot_ok(init_args());
    let n = param(0) as u32;
    let mut net = Net::new();
    let name = |k: u32| -> String { ["/f", &((k * 7) % 1009).to_string(), if k % 2 == 0 { ".png" } else { "" }].concat() };
    let mut go = |m: &str, a: Vec<u8>| { tick(); let c = raw(UPDATE, CORE, m, &a, pr(ADMIN).as_slice()); net.run(Ans::Ok, Ans::Ok); check(st(c) == St::Replied, "setup-upload"); };
    let mut all: Vec<(String, UpState)> = vec![];
    for k in 0..n {
        let p = name(k);
        go("init_upload", enc(iarg(&p, 9)));
        let mut s = UpState::Init;
        if k % 3 > 0 { go("store_chunk", enc(StoreChunk { chunk_data: ByteBuf::from(vec![1]), file_path: p.clone(), chunk_id: nat(0) })); s = UpState::InProgress; }
        if k % 3 > 1 { go("finalize_upload", enc(PathArg { file_path: p.clone() })); s = UpState::Finalized; }
        if k == 3 { go("cancel_upload", enc(PathArg { file_path: p.clone() })); } else { all.push((p, s)); }
    }
    if param(1) == 2 { tick(); check(upgrade_core(), "upgrade"); }
    let ask = |prev: Option<u64>, take: Option<u64>| -> Vec<(String, UpState)> {
        let l: Option<Result<Vec<(String, UpState)>, UErr>> = call(QUERY, "get_all_uploads", (prev.map(nat), take.map(nat)), ADMIN);
        match l { Some(Ok(l)) => l, _ => { check(false, "listing-answers"); kill() } }
    };
    let total = all.len() as u64;
    if param(1) != 1 {
        for (p, s) in all.iter().take(12) { check(upload_status(p).as_ref() == Some(s), "status"); }
        let size = if total > 10 { [60u64, 100, 101, 1000][choose(4) as usize] } else { let x = below("take", 8) as u64; assume(x > 0); x };
        let mut left: Vec<&(String, UpState)> = all.iter().collect();
        let mut at = 0u64;
        loop {
            let l = ask(if at == 0 && flip() { None } else { Some(at) }, if size == 100 && flip() { None } else { Some(size) });
            check(l.len() as u64 == size.min(total - at), "page-length");
            if l.is_empty() { break; }
            at += l.len() as u64;
            for e in &l { match left.iter().position(|x| **x == *e) { Some(i) => { left.swap_remove(i); } None => check(false, "listed-once") } }
            if at > total { break; }
        }
        check(left.is_empty(), "none-left-out");
        cover("walked");
    } else {
        let big = |n: &str| match choose(5) { 0 => None, 1 => Some(any_u8(n) as u64), 2 => Some((1 << 32) + (any_u8(n) & 7) as u64), 3 => Some(u64::MAX), _ => Some(total) };
        let (prev, take) = (big("prev"), big("take"));
        let l = ask(prev, take);
        check(l.len() as u64 == take.unwrap_or(100).min(total.saturating_sub(prev.unwrap_or(0))), "page-length");
        for (k, e) in l.iter().enumerate() { check(all.contains(e) && !l[..k].contains(e), "listed-once"); }
        if l.is_empty() { cover("empty"); } else { cover("page"); }
    }
}
