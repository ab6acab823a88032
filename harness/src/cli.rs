//! The command line tool: what it sends to the collection for what was typed, and how it ends.
use crate::admin::{InitUpload, StoreChunk};
use crate::world::*;

const CLI: u32 = 1;
const COL: &[u8] = &[0xC0, 1];
#[derive(CandidType, Deserialize)]
struct Empty {}
#[derive(CandidType, Deserialize)]
enum Busy { ConcurrentManagementCall }
#[derive(CandidType, Deserialize)]
struct Link { url: String }
#[derive(CandidType, Deserialize)]
struct Path { file_path: String }

/// One command line, parsed.
#[derive(Default, Clone)]
pub struct Line { pub texts: Vec<(&'static str, Vec<Vec<u8>>)>, pub numbers: Vec<(&'static str, u64)>, pub flags: Vec<&'static str>, pub sub: Option<(&'static str, Box<Line>)> }
impl Line {
    pub fn one(mut self, n: &'static str, v: &[u8]) -> Line { self.texts.push((n, vec![v.to_vec()])); self }
    pub fn all(mut self, n: &'static str, v: Vec<Vec<u8>>) -> Line { self.texts.push((n, v)); self }
    pub fn num(mut self, n: &'static str, v: u64) -> Line { self.numbers.push((n, v)); self }
    pub fn flag(mut self, n: &'static str) -> Line { self.flags.push(n); self }
    fn put(&self, v: &mut Vec<u8>) {
        v.push(self.texts.len() as u8);
        for (n, l) in &self.texts { bytes(v, n.as_bytes()); v.push(l.len() as u8); for x in l { bytes(v, x) } }
        v.push(self.numbers.len() as u8);
        for (n, x) in &self.numbers { bytes(v, n.as_bytes()); v.extend_from_slice(&x.to_le_bytes()) }
        v.push(self.flags.len() as u8);
        for n in &self.flags { bytes(v, n.as_bytes()) }
        match &self.sub { None => v.push(0), Some((n, l)) => { v.push(1); bytes(v, n.as_bytes()); l.put(v) } }
    }
}
fn bytes(v: &mut Vec<u8>, b: &[u8]) { v.push(b.len() as u8); v.push((b.len() >> 8) as u8); v.extend_from_slice(b) }
#[derive(Default)]
pub struct Typed { pub files: Vec<(&'static str, Vec<u8>)>, pub reads: Vec<u64>, pub stdin: Vec<Vec<u8>>, pub line: Line }
pub struct Run { pub ctx: u32 }
pub struct End { pub ok: bool, pub files: Vec<(Vec<u8>, Vec<u8>)>, pub out: Vec<u8> }
pub fn start(cmd: u8, t: &Typed) -> Run {
    install(CLI, 1);
    set_id(CLI, &[0xC1]);
    set_time(T0);
    let mut v = vec![];
    bytes(&mut v, COL);
    v.push(cmd);
    v.push(t.files.len() as u8);
    for (n, b) in &t.files { bytes(&mut v, n.as_bytes()); bytes(&mut v, b) }
    v.push(t.reads.len() as u8);
    for r in &t.reads { v.extend_from_slice(&r.to_le_bytes()) }
    v.push(t.stdin.len() as u8);
    for l in &t.stdin { bytes(&mut v, l) }
    t.line.put(&mut v);
    Run { ctx: msg(UPDATE, CLI, "run", &v, &[9]) }
}
impl Run {
    pub fn open(&self) -> bool { st(self.ctx) == St::Pending }
    /// How the command ended; a crash is a failure too.
    pub fn end(&self) -> End {
        match st(self.ctx) {
            St::Replied => {
                let r = field(0, self.ctx);
                let mut p = 2usize;
                let mut take = || { let n = r[p] as usize + 256 * r[p + 1] as usize; let b = r[p + 2..p + 2 + n].to_vec(); p += 2 + n; b };
                let mut files = vec![];
                for _ in 0..r[1] { let n = take(); files.push((n, take())) }
                End { ok: r[0] == 1, files, out: take() }
            }
            St::Trapped => End { ok: false, files: vec![], out: vec![] },
            _ => { check(false, "the-command-ends"); kill() }
        }
    }
    fn next(&self, i: u32) -> (String, Vec<u8>) {
        check(ncalls() == i + 1, "one-call-at-a-time");
        check(field(2, i) == COL, "calls-the-collection");
        (String::from_utf8(field(3, i)).unwrap(), field(4, i))
    }
}
fn has(out: &[u8], s: &str) -> bool { out.windows(s.len()).any(|w| w == s.as_bytes()) }
/// sha-256 of the first n bytes of "nugget"
const SUMS: [&str; 7] = ["e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", "1b16b1df538ba12dc3f97edbb85caa7050d46c148134290feba80f8236c83db9", "3086cf468ccca87cc7840e0755947526a039eea35f486002d7f1c53d7c58686a", "6ab4b7eadce3f491a24fd928f1aa67b53a07e751845457cae467b5cc690d0cfb", "18edf22a5153a226a19e05704b54e4541ed341a03cd1c8d003d0af437e66c8b2", "53128d790d199befc1097ece2c338b1cb07908b77e3145f927fe136028f79b8a", "c9f400894a45846e0efba3a5172a28d2899f72c90dbfa9a1b5b45aba709fcf7b"];
/// A whole upload with answers of any kind: everything arrives as it is, and the first failure ends it.
fn upload(cmd: u8, t: &Typed, dest: &str, data: &[u8], chunk: u64, sum: Option<&str>, bad: u32, how: u32) {
    let r = start(cmd, t);
    if chunk == 0 { check(ncalls() == 0, "impossible-chunks-send-nothing"); check(!r.end().ok, "failure-reported"); cover("refused"); return }
    let n = (data.len() as u64).div_ceil(chunk) as u32;
    for i in 0..n + 2 {
        check(r.open(), "goes-on-until-done");
        let (m, a) = r.next(i);
        if i == 0 {
            check(m == "init_upload", "starts-with-init");
            let a: InitUpload = dec(&a);
            check((a.file_path == dest) & (a.file_size == data.len() as u64) & (a.chunk_size == Some(chunk)), "announces-the-file");
            if let Some(s) = sum { check(a.file_hash == s, "announces-the-hash") }
        } else if i <= n {
            check(m == "store_chunk", "sends-every-chunk");
            let a: StoreChunk = dec(&a);
            let (f, e) = (chunk as usize * (i as usize - 1), (chunk as usize * i as usize).min(data.len()));
            check((a.file_path == dest) & (un(&a.chunk_id) == i as u64 - 1), "chunk-numbered");
            check(a.chunk_data.len() == e - f, "chunk-whole");
            check(same(&a.chunk_data, &data[f..e]), "chunk-content");
        } else {
            check(m == "finalize_upload", "ends-with-finalize");
            let a: Path = dec(&a);
            check(a.file_path == dest, "finalizes-the-file");
        }
        if i == bad {
            if how == 0 { respond(i, 4, b"no"); } else if how == 1 { respond(i, 0, &enc(Err::<Empty, Busy>(Busy::ConcurrentManagementCall))); } else { respond(i, 0, b"junk"); }
            check(ncalls() == i + 1, "nothing-after-a-failure");
            check(!r.end().ok, "failure-reported");
            cover("failed");
            return;
        }
        if i <= n { respond(i, 0, &enc(Ok::<Empty, Busy>(Empty {}))); } else { respond(i, 0, &enc(Ok::<Link, Busy>(Link { url: "http://u/x".into() }))); }
    }
    check(ncalls() == n + 2, "nothing-else");
    let e = r.end();
    check(e.ok, "success-reported");
    check(has(&e.out, "http://u/x"), "shows-the-address");
    cover("done");
}
fn same(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false } let mut z = 0; for i in 0..a.len() { z |= a[i] ^ b[i]; } z == 0 }
#[no_mangle]
pub extern "C" fn h_c35_upload() {
    let n = choose(7) as usize;
    let any = param(0) == 1;
    let data: Vec<u8> = if any { (0..n).map(|_| any_u8("byte")).collect() } else { b"nugget"[..n].to_vec() };
    let chunk = choose(5) as u64;
    let chunk = if chunk == 4 { 1 << 20 } else { chunk };
    // what single reads return: whole pieces, or as little as the system pleases
    let reads: Vec<u64> = if param(1) == 0 { vec![] } else { (0..3).map(|_| 1 + choose(3) as u64).collect() };
    let calls = if chunk == 0 { 0 } else { (n as u64).div_ceil(chunk) as u32 + 2 };
    let bad = if param(1) == 0 { choose(calls + 1) } else { calls };
    let how = if bad < calls { choose(3) } else { 0 };
    let t = Typed { files: vec![("f", data.clone())], reads, line: Line::default().one("file_path", b"f").one("destination_path", b"/d").num("chunk_size", chunk), ..Default::default() };
    upload(0, &t, "/d", &data, chunk, if any { None } else { Some(SUMS[n]) }, bad, how);
}

/// A file of many chunks.
#[no_mangle]
pub extern "C" fn h_c35_long() {
    let n = [255usize, 256, 257, 300][choose(4) as usize];
    let b = any_u8("byte");
    let mut data: Vec<u8> = (0..n).map(|i| i as u8).collect();
    data[n - 1] = b;
    let t = Typed { files: vec![("f", data.clone())], line: Line::default().one("file_path", b"f").one("destination_path", b"/d").num("chunk_size", 1), ..Default::default() };
    upload(0, &t, "/d", &data, 1, None, u32::MAX, 0);
}
/// documents: text, whether it is valid metadata, its sha-256
const DOCS: [(&str, bool, &str); 6] = [
    (r#"{"name":"a"}"#, true, "d9d719b27480b55cd4918020e7473e716ed3569c8adafe926cf9b10b4f8ef064"),
    (r#"{"name":"a","attributes":[{"trait_type":"t","value":1}]}"#, true, "89b45901014ee981aafe1d68c56b8e68f5c71f9bb83e3b635ab82c0c7ad970e5"),
    (r#"{"name":5}"#, false, "3eaf442010abf8d01fd60dbddd7c45047e79a0f4aba16ecbd3977839e2de52d7"),
    (r#"{"name":"a""#, false, "344982bb3e54a37ec963d3765e1de142fba47017719078bb0a021a6abbbe4598"),
    (r#"[]"#, false, "4f53cda18c2baa0c0354bb5f9a3ecbe5ed12ab4d8e11ba873c2f11161202b945"),
    (r#"{"attributes":[{"value":1}]}"#, false, "a003a01f6310143b22c131cb68a5b6a4447d5e1661b944f7f98f6a127948f727"),
];

/// Metadata files go up under the hash of their content, invalid ones not at all.
#[no_mangle]
pub extern "C" fn h_c35_metadata() {
    let (text, valid, sum) = DOCS[choose(DOCS.len() as u32) as usize];
    let data = text.as_bytes();
    let chunk = [5u64, 1 << 20][choose(2) as usize];
    let t = Typed { files: vec![("m", data.to_vec())], line: Line::default().one("metadata_file", if flip() { b"m" } else { b"n" }).num("chunk_size", chunk), ..Default::default() };
    if !valid || t.line.texts[0].1[0] == b"n" {
        let r = start(3, &t);
        check(ncalls() == 0, "invalid-sends-nothing");
        check(!r.end().ok, "failure-reported");
        cover("refused");
        return;
    }
    let dest = format!("/{sum}.json");
    let calls = (data.len() as u64).div_ceil(chunk) as u32 + 2;
    let bad = choose(calls + 1);
    upload(3, &t, &dest, data, chunk, Some(sum), bad, if bad < calls { choose(3) } else { 0 });
}
/// Send one call, answer it, end. The answer: 0 yes, 1 no, 2 refused by the system, 3 nonsense.
fn one_call(r: &Run, method: &str, how: u32, yes: &[u8]) -> (Vec<u8>, End) {
    check(r.open(), "asks-the-collection");
    let (m, a) = r.next(0);
    check(m == method, "asks-the-right-thing");
    match how { 0 => respond(0, 0, yes), 1 => respond(0, 0, &enc(Err::<Empty, Busy>(Busy::ConcurrentManagementCall))), 2 => respond(0, 4, b"no"), _ => respond(0, 0, b"junk") };
    check(ncalls() == 1, "one-call-only");
    let e = r.end();
    check(e.ok == (how == 0), "failure-reported");
    cover(if how == 0 { "done" } else { "failed" });
    (a, e)
}
fn no_call(r: &Run) -> End {
    check(ncalls() == 0, "refused-sends-nothing");
    let e = r.end();
    check(!e.ok, "failure-reported");
    cover("refused");
    e
}
fn ascii(name: &str, n: usize) -> Vec<u8> { (0..n).map(|_| { let b = any_u8(name); assume(b < 128); b }).collect() }
/// What one metadata entry means: None when it is malformed.
fn entry(e: &[u8]) -> Option<(Vec<u8>, Value)> {
    let k = e.iter().position(|b| *b == b':')?;
    let v = &e[k + 1..];
    let digits = |d: &[u8]| !d.is_empty() && d.iter().all(|b| *b >= b'0' && *b <= b'9');
    let val = |d: &[u8]| d.iter().fold(0u64, |a, b| a * 10 + (*b - b'0') as u64);
    let neg = !v.is_empty() && v[0] == b'-';
    let pos = !v.is_empty() && v[0] == b'+';
    let w = if digits(v) { Value::Nat(nat(val(v))) } else if pos && digits(&v[1..]) { Value::Nat(nat(val(&v[1..]))) }
        else if neg && digits(&v[1..]) { Value::Int(Int::from(-(val(&v[1..]) as i64))) } else { Value::Text(unsafe { String::from_utf8_unchecked(v.to_vec()) }) };
    Some((e[..k].to_vec(), w))
}
fn eq_value(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Nat(x), Value::Nat(y)) => un(x) == un(y),
        (Value::Int(x), Value::Int(y)) => x == y,
        (Value::Text(x), Value::Text(y)) => same(x.as_bytes(), y.as_bytes()),
        _ => false,
    }
}
/// The mint command asks for exactly the token described.
#[no_mangle]
pub extern "C" fn h_c36_mint() {
    let what = param(0);
    let owners = [pr(7), Principal::management_canister(), Principal::from_slice(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10])];
    let o = if what == 0 { choose(4) as usize } else { 0 };
    let otext = if o == 3 { "aaaaa-ab".to_string() } else { owners[o].to_text() };
    let mut line = Line::default().one("owner", otext.as_bytes()).one("name", b"n");
    let (mut sub, mut good) = (None, o != 3);
    let mut memo = None;
    let mut meta: Vec<(Vec<u8>, Value)> = vec![];
    if what == 0 {
        match choose(4) {
            0 => {}
            k => {
                let n = [0, 62, 64, 66][k as usize];
                let mut s = vec![b'0'; n];
                s[1] = b'7';
                let l = ascii("hex", 2);
                let at = if flip() { n - 2 } else { 4 };
                s[at] = l[0]; s[at + 1] = l[1];
                line = line.one("subaccount", &s);
                let h = |c: u8| if (c >= b'0') & (c <= b'9') { Some(c - b'0') } else if ((c | 32) >= b'a') & ((c | 32) <= b'f') & (c >= b'A') { Some((c | 32) - b'a' + 10) } else { None };
                match (h(l[0]), h(l[1])) { (Some(x), Some(y)) if n == 64 => { let mut z = [0u8; 32]; z[0] = 7; z[at / 2] = 16 * x + y; sub = Some(z) } _ => good = false }
            }
        }
    }
    if what == 1 {
        let n = choose(5) as usize;
        if n < 4 { let m = ascii("memo", n); line = line.one("memo", &m); memo = Some(m); }
        let k = choose(3) as usize;
        // numbers at the borders of their kinds
        let big = [("z:18446744073709551615", Value::Nat(nat(u64::MAX))), ("z:9223372036854775808", Value::Nat(nat(1 << 63))), ("z:-9223372036854775808", Value::Int(Int::from(i64::MIN))), ("z:http://u:1/p", Value::Text("http://u:1/p".into()))];
        let es: Vec<Vec<u8>> = (0..k).map(|i| if i == 0 { ascii("entry", 1 + choose(4) as usize) } else { let (e, v) = &big[choose(4) as usize]; meta.push((b"z".to_vec(), v.clone())); e.as_bytes().to_vec() }).collect();
        for e in es.iter().take(1) { match entry(e) { Some(x) => meta.insert(0, x), None => good = false } }
        if k > 0 { line = line.all("metadata", es); }
    }
    let mut url = None;
    if what == 2 {
        let u = [&b"https://x/"[..], &ascii("url", 2)[..]].concat();
        line = line.one("icrc97_url", &u);
        if flip() { line = line.flag("interactive"); }
        if flip() { line = line.all("metadata", vec![b"k:v".to_vec()]); }
        url = Some(u);
    }
    if what == 3 {
        // typed in: the kind of value, and the value
        line = line.flag("interactive");
    }
    let mut t = Typed { line, ..Default::default() };
    if what == 3 {
        let kind = choose(4) as usize;
        let v = ascii("typed", 1 + choose(2) as usize);
        for b in &v { assume((*b > 32) & (*b < 127)); }
        let d = v.iter().all(|b| *b >= b'0' && *b <= b'9');
        let num = v.iter().fold(0u64, |a, b| a.wrapping_mul(10).wrapping_add((*b).wrapping_sub(b'0') as u64));
        t.stdin = vec![b"key".to_vec(), vec![b'1' + kind as u8]];
        match kind {
            0 => { t.stdin.push(v.clone()); meta.push((b"key".to_vec(), Value::Text(unsafe { String::from_utf8_unchecked(v) }))); }
            1 => { assume((v[0] != b'+') & (v[0] != b'-')); t.stdin.push(v.clone()); good = d; meta.push((b"key".to_vec(), Value::Nat(nat(num)))); }
            2 => { assume(v[0] != b'+'); let m = [b"-", &v[..]].concat(); let neg = flip(); if !neg { assume(v[0] != b'-') }; t.stdin.push(if neg { m } else { v.clone() }); good = d; meta.push((b"key".to_vec(), Value::Int(Int::from(if neg { -(num as i64) } else { num as i64 })))); }
            _ => { t.stdin.push(b"AQID".to_vec()); meta.push((b"key".to_vec(), Value::Blob(ByteBuf::from(vec![1, 2, 3])))); }
        }
        if flip() { t.stdin.push(b"n".to_vec()); } else { t.stdin.push(b"YES".to_vec()); t.stdin.push(b"".to_vec()); }
    }
    let r = start(4, &t);
    if !good { no_call(&r); return }
    let how = choose(4);
    let (a, e) = one_call(&r, "mint", how, &enc(Ok::<Nat, Busy>(nat(345))));
    if how == 0 { check(has(&e.out, "345"), "shows-the-id"); }
    let a: MintArgs = dec(&a);
    check(a.mint_requests.len() == 1, "one-token");
    let m = &a.mint_requests[0];
    check(m.token_owner.owner == owners[o], "owner");
    check(match (&m.token_owner.subaccount, &sub) { (None, None) => true, (Some(x), Some(y)) => same(x, y), _ => false }, "subaccount");
    check(match (&m.memo, &memo) { (None, None) => true, (Some(x), Some(y)) => same(x, y), _ => false }, "memo");
    if let Some(u) = url {
        check(m.metadata.len() == 1 && m.metadata[0].0 == "icrc97:metadata" && matches!(&m.metadata[0].1, Value::Array(v) if v.len() == 1 && matches!(&v[0], Value::Text(t) if same(t.as_bytes(), &u))), "metadata-url");
    } else {
        check(m.metadata.len() == meta.len(), "metadata-count");
        for (x, y) in m.metadata.iter().zip(&meta) {
            check(same(x.0.as_bytes(), &y.0), "metadata-key");
            check(match (&x.1, &y.1) { (Value::Blob(a), Value::Blob(b)) => same(a, b), (a, b) => eq_value(a, b) }, "metadata-value");
        }
    }
}
const NAMES: [(&str, usize); 16] = [("minting", 0), ("manage_authorities", 1), ("manage-authorities", 1), ("manageauthorities", 1), ("update_metadata", 2), ("update-metadata", 2), ("updatemetadata", 2),
    ("update_collection_metadata", 3), ("update-collection-metadata", 3), ("updatecollectionmetadata", 3), ("read_uploads", 4), ("read-uploads", 4), ("readuploads", 4), ("update_uploads", 5), ("update-uploads", 5), ("updateuploads", 5)];
/// The permission commands concern exactly the permission and the principal named.
#[no_mangle]
pub extern "C" fn h_c37_named() {
    let cmd = ["grant", "revoke", "has"][param(0) as usize];
    let (name, p) = NAMES[choose(16) as usize];
    let mut text = name.as_bytes().to_vec();
    // one character of it may be any other
    let at = [0, 1, name.len() / 2, name.len() - 1][choose(4) as usize];
    let c = ascii("char", 1)[0];
    let orig = text[at];
    text[at] = c;
    let up = |c: u8| if (c >= b'A') & (c <= b'Z') { c + 32 } else { c };
    let good = up(c) == orig;
    let mut l = Line::default();
    l.sub = Some((cmd, Box::new(Line::default().one("principal", pr(9).to_text().as_bytes()).one("permission", &text))));
    let r = start(5, &Typed { line: l, ..Default::default() });
    // the middle character of some names separates words and may be left out of the question
    if !good { no_call(&r); return }
    let how = choose(4);
    let yes = choose(2) == 1;
    let (a, e) = one_call(&r, if cmd == "grant" { "grant_permission" } else if cmd == "revoke" { "revoke_permission" } else { "has_permission" }, how, &if cmd == "has" { enc(Ok::<bool, Busy>(yes)) } else { enc(Ok::<(), Busy>(())) });
    let a: PermArgs = dec(&a);
    check(a.principal == pr(9), "principal");
    check(a.permission == PERMS[p], "permission");
    if how == 0 && cmd == "has" { check(has(&e.out, "true") == yes && has(&e.out, "false") != yes, "shows-the-answer"); }
}
/// Listing shows exactly what the collection answered.
#[no_mangle]
pub extern "C" fn h_c37_list() {
    let m = choose(64);
    let l: Vec<Permission> = (0..6).filter(|i| m >> i & 1 == 1).map(|i| PERMS[i]).collect();
    let mut line = Line::default();
    line.sub = Some(("list", Box::new(Line::default().one("principal", pr(9).to_text().as_bytes()))));
    let r = start(5, &Typed { line, ..Default::default() });
    let how = choose(4);
    let (a, e) = one_call(&r, "get_user_permissions", how, &enc(Ok::<Vec<Permission>, Busy>(l)));
    let a: UserArgs = dec(&a);
    check(a.principal == pr(9), "principal");
    if how != 0 { return }
    let lines: Vec<&[u8]> = e.out.split(|b| *b == b'\n').collect();
    for (i, n) in ["minting", "manage_authorities", "update_metadata", "update_collection_metadata", "read_uploads", "update_uploads"].iter().enumerate() {
        let shown = lines.iter().filter(|l| l.ends_with(n.as_bytes()) && !l.ends_with(&[b"_", n.as_bytes()].concat())).count();
        check(shown == (m >> i & 1) as usize, "listed-exactly");
    }
}
const KIND: [&str; 7] = ["", "\"s\"", "5", "null", "[]", "{}", "true"];
/// A document whose fields are of any kind, two of them at a time.
#[no_mangle]
pub extern "C" fn h_c38_validate() {
    let names = ["name", "description", "image", "external_url", "attributes", "element", "trait_type", "value", "display_type"];
    // the usual kinds
    let mut k = [1usize, 1, 0, 0, 9, 9, 1, 2, 0];
    let (a, b) = (param(0) as usize, choose(9) as usize);
    k[a] = choose(7) as usize;
    if b > a { k[b] = choose(7) as usize; }
    let field = |i: usize| if KIND[k[i]].is_empty() { None } else { Some(format!("\"{}\":{}", names[i], KIND[k[i]])) };
    let list = |v: Vec<Option<String>>| v.into_iter().flatten().collect::<Vec<_>>().join(",");
    let el = if k[5] == 9 { format!("{{{}}}", list(vec![field(6), field(7), field(8)])) } else { KIND[k[5]].to_string() };
    // a good attribute may come first
    let first = flip();
    let els = list(vec![if first { Some("{\"trait_type\":\"a\",\"value\":\"b\",\"display_type\":\"c\"}".to_string()) } else { None }, if el.is_empty() { None } else { Some(el.clone()) }]);
    let at = if k[4] == 9 { Some(format!("\"attributes\":[{els}]")) } else { field(4) };
    let doc = format!("{{{}}}", list(vec![field(0), field(1), field(2), field(3), at]));
    let text = |i: usize| k[i] <= 1;
    let good = text(0) && text(1) && text(2) && text(3) && match k[4] { 0 | 4 => true, 9 => el.is_empty() || match k[5] { 9 => k[6] == 1 && k[7] != 0 && text(8), _ => false }, _ => false };
    let r = start(1, &Typed { files: vec![("m", doc.into_bytes())], line: Line::default().one("metadata_file", b"m"), ..Default::default() });
    check(ncalls() == 0, "sends-nothing");
    check(r.end().ok == good, "accepts-exactly-valid-metadata");
    cover(if good { "valid" } else { "invalid" });
}
/// attribute as typed, its parts (value as JSON), or malformed
const ATTRS: [(&str, &str, &str, &str); 9] = [("Element:Fire", "Element", "\"Fire\"", ""), ("Power:95:number", "Power", "95", "number"), ("Ratio:-0.5", "Ratio", "-0.5", ""), ("Seen:1:date", "Seen", "1", "date"),
    ("Mood:inf", "Mood", "\"inf\"", ""), ("Of:nan:boost_number", "Of", "\"nan\"", "boost_number"), ("A:b:c", "A", "\"b\"", "c"), ("Empty:", "Empty", "\"\"", ""), ("plain", "", "", "")];
fn same_number(a: &serde_json::Value, b: &serde_json::Value) -> bool { if a.is_number() && b.is_number() { a.as_f64() == b.as_f64() } else { a == b } }
/// The metadata file says what was given, and nothing else.
fn described(w: &[u8], name: &[u8], desc: &str, image: Option<&str>, ext: Option<&str>, attrs: &[(&str, &str, &str, &str)]) {
    let v: serde_json::Value = match serde_json::from_slice(w) { Ok(v) => v, Err(_) => { check(false, "json"); kill() } };
    let o = v.as_object().unwrap();
    check(matches!(o.get("name"), Some(serde_json::Value::String(s)) if same(s.as_bytes(), name)), "name");
    check(o.get("description").and_then(|x| x.as_str()) == Some(desc), "description");
    check(o.get("image").map(|x| x.as_str()) == image.map(Some), "image");
    check(o.get("external_url").map(|x| x.as_str()) == ext.map(Some), "external-url");
    let none = vec![];
    let l = o.get("attributes").map_or(&none, |x| x.as_array().unwrap());
    check(l.len() == attrs.len(), "attribute-count");
    for (x, (_, t, val, d)) in l.iter().zip(attrs) {
        check(x["trait_type"].as_str() == Some(t), "trait");
        check(same_number(&x["value"], &serde_json::from_str(val).unwrap()), "value");
        check(x.get("display_type").map(|x| x.as_str()) == if d.is_empty() { None } else { Some(Some(d)) }, "display");
    }
    check(o.keys().all(|k| ["name", "description", "image", "external_url", "attributes"].contains(&k.as_str())), "nothing-else");
}
#[no_mangle]
pub extern "C" fn h_c38_create() {
    let name = ascii("name", 1 + choose(2) as usize);
    let (image, ext) = (if flip() { Some("http://i") } else { None }, if flip() { Some("e\"\\") } else { None });
    let n = choose(3) as usize;
    let attrs: Vec<_> = (0..n).map(|_| ATTRS[choose(9) as usize]).collect();
    let mut l = Line::default().one("output", b"o").one("name", &name);
    let desc = flip();
    if desc { l = l.one("description", b"d e"); }
    if let Some(i) = image { l = l.one("image", i.as_bytes()); }
    if let Some(i) = ext { l = l.one("external_url", i.as_bytes()); }
    if n > 0 { l = l.all("attribute", attrs.iter().map(|a| a.0.as_bytes().to_vec()).collect()); }
    let r = start(2, &Typed { line: l, ..Default::default() });
    check(ncalls() == 0, "sends-nothing");
    let e = r.end();
    let good = desc && attrs.iter().all(|a| !a.1.is_empty());
    check(e.ok == good, "created");
    check(e.files.len() == good as usize, "one-file");
    if !good { cover("refused"); return }
    check(e.files[0].0 == b"o", "file-name");
    described(&e.files[0].1, &name, "d e", image, ext, &attrs);
    cover("created");
}
/// The same, asked question by question.
#[no_mangle]
pub extern "C" fn h_c38_interactive() {
    let name = ascii("name", 1)[0];
    assume((name > 32) & (name < 127));
    let (image, ext) = (if flip() { Some("http://i") } else { None }, if flip() { Some("e") } else { None });
    let n = choose(3) as usize;
    let mut t = Typed { line: Line::default().one("output", b"o").flag("interactive"), ..Default::default() };
    t.stdin = vec![vec![name], b"d".to_vec(), image.unwrap_or("").into(), ext.unwrap_or("").into(), if n > 0 { b"y".to_vec() } else { b"no".to_vec() }];
    let mut attrs = vec![];
    for i in 0..n {
        let num = [("1", "number"), ("2", "boost_number"), ("3", "boost_percentage"), ("4", "date"), ("5", ""), ("", "")];
        let (v, val, isnum) = [("7.5", "7.5", true), ("Fire", "\"Fire\"", false), ("NaN", "\"NaN\"", false), ("-1e3", "-1000", true)][choose(4) as usize];
        t.stdin.push(b"tr".to_vec());
        t.stdin.push(v.into());
        let d = if isnum { let d = num[choose(6) as usize]; t.stdin.push(d.0.into()); d.1 } else { match choose(4) { 0 => { t.stdin.push(b"1".to_vec()); "" } 1 => { t.stdin.push(b"".to_vec()); "" } 2 => { t.stdin.push(b"2".to_vec()); t.stdin.push(b"own".to_vec()); "own" } _ => { t.stdin.push(b"x".to_vec()); t.stdin.push(b"2".to_vec()); t.stdin.push(b"".to_vec()); "" } } };
        attrs.push(("", "tr", val, d));
        t.stdin.push(if i + 1 < n { b"y".to_vec() } else { b"N".to_vec() });
    }
    let r = start(2, &t);
    check(ncalls() == 0, "sends-nothing");
    let e = r.end();
    check(e.ok && e.files.len() == 1, "created");
    described(&e.files[0].1, &[name], "d", image, ext, &attrs);
    cover("created");
}
