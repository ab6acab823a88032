//! Thin wrapper over the engine's "sym" imports.
#[link(wasm_import_module = "sym")]
extern "C" {
    fn sym(width: i32, p: *const u8, n: usize) -> i64;
    #[link_name = "assume"]
    fn assume_(b: i32);
    #[link_name = "check"]
    fn check_(b: i32, p: *const u8, n: usize);
    #[link_name = "cover"]
    fn cover_(p: *const u8, n: usize);
    #[link_name = "choose"]
    fn choose_(n: i32) -> i32;
    #[link_name = "install"]
    fn install_(slot: i32, module: i32);
    #[link_name = "set_id"]
    fn set_id_(slot: i32, p: *const u8, n: usize);
    #[link_name = "msg"]
    fn msg_(kind: i32, slot: i32, n: *const u8, nl: usize, a: *const u8, al: usize, c: *const u8, cl: usize) -> i32;
    #[link_name = "status"]
    fn status_(what: i32, i: i32) -> i32;
    #[link_name = "len"]
    fn len_(what: i32, i: i32) -> i32;
    #[link_name = "read"]
    fn read_(what: i32, i: i32, dst: *mut u8);
    #[link_name = "set_time"]
    fn set_time_(t: i64);
    #[link_name = "ncalls"]
    fn ncalls_() -> i32;
    #[link_name = "respond"]
    fn respond_(c: i32, code: i32, p: *const u8, n: usize) -> i32;
    #[link_name = "timer"]
    fn timer_(slot: i32) -> i64;
    #[link_name = "log"]
    fn log_(p: *const u8, n: usize);
    #[link_name = "upgrade"]
    fn upgrade_(slot: i32, module: i32);
    #[link_name = "kill"]
    fn kill_();
    #[link_name = "is_sym"]
    fn is_sym_(x: i64) -> i32;
    #[link_name = "param"]
    fn param_(i: i32) -> i64;
    #[link_name = "conc"]
    fn conc_(x: i64) -> i64;
}
pub fn any_u64(name: &str) -> u64 { unsafe { sym(64, name.as_ptr(), name.len()) as u64 } }
pub fn any_u8(name: &str) -> u8 { unsafe { sym(8, name.as_ptr(), name.len()) as u8 } }
pub fn any_u32(name: &str) -> u32 { unsafe { sym(32, name.as_ptr(), name.len()) as u32 } }
pub fn any_u16(name: &str) -> u16 { unsafe { sym(16, name.as_ptr(), name.len()) as u16 } }
/// 0..n, without forking
pub fn below(name: &str, n: u8) -> u8 { let x = any_u8(name); assume(x < n); x }
pub fn assume(b: bool) { unsafe { assume_(b as i32) } }
pub fn check(b: bool, l: &str) { unsafe { check_(b as i32, l.as_ptr(), l.len()) } }
pub fn cover(l: &str) { unsafe { cover_(l.as_ptr(), l.len()) } }
/// A case split decided by the solver: every feasible value below n is explored.
pub fn choose(n: u32) -> u32 { unsafe { choose_(n as i32) as u32 } }
pub fn flip() -> bool { choose(2) == 1 }
pub fn install(slot: u32, module: u32) { unsafe { install_(slot as i32, module as i32) } }
pub fn set_id(slot: u32, id: &[u8]) { unsafe { set_id_(slot as i32, id.as_ptr(), id.len()) } }
pub fn msg(kind: u32, slot: u32, name: &str, arg: &[u8], caller: &[u8]) -> u32 {
    unsafe { msg_(kind as i32, slot as i32, name.as_ptr(), name.len(), arg.as_ptr(), arg.len(), caller.as_ptr(), caller.len()) as u32 }
}
pub fn status(what: u32, i: u32) -> u32 { unsafe { status_(what as i32, i as i32) as u32 } }
pub fn field(what: u32, i: u32) -> Vec<u8> {
    let n = unsafe { len_(what as i32, i as i32) } as usize;
    let mut v = vec![0u8; n];
    if n > 0 { unsafe { read_(what as i32, i as i32, v.as_mut_ptr()) } }
    v
}
pub fn set_time(t: u64) { unsafe { set_time_(t as i64) } }
pub fn ncalls() -> u32 { unsafe { ncalls_() as u32 } }
pub fn respond(c: u32, code: u32, d: &[u8]) -> u32 { unsafe { respond_(c as i32, code as i32, d.as_ptr(), d.len()) as u32 } }
pub fn timer(slot: u32) -> u64 { unsafe { timer_(slot as i32) as u64 } }
pub fn log(s: &str) { unsafe { log_(s.as_ptr(), s.len()) } }
pub fn upgrade(slot: u32, module: u32) { unsafe { upgrade_(slot as i32, module as i32) } }
pub fn kill() -> ! { unsafe { kill_() }; loop {} }
pub fn is_sym(x: u64) -> bool { unsafe { is_sym_(x as i64) != 0 } }
pub fn conc(x: u64) -> u64 { unsafe { conc_(x as i64) as u64 } }
/// A number given on the command line (splits one harness over several runs).
pub fn param(i: u32) -> u64 { unsafe { param_(i as i32) as u64 } }
