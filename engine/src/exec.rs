//! The symbolic interpreter: path forking, message semantics of the Internet Computer, harness API.
use crate::expr::*;
use crate::mem::*;
use crate::solver::*;
use crate::wasm::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame { pub inst: u8, pub f: u32, pub pc: u32, pub base: u32, pub dst: u32, pub msg: bool, pub a0: u32, pub sp: u32 }

#[derive(Clone)]
pub struct Inst { pub module: usize, pub mem: Mem, pub stable: Mem, pub globals: Vec<Val>, pub id: Vec<u8>, pub timer: Val, pub cert: SB, pub cycles: u64 }

#[derive(Clone, Default)]
pub struct Ctx { pub can: u8, pub kind: u8, pub caller: SB, pub arg: SB, pub out: SB, pub reply: Option<SB>, pub reject: Option<(u32, SB)>, pub status: u8, pub open: u32, pub note: String }

#[derive(Clone)]
pub struct OutCall { pub can: u8, pub ctx: usize, pub callee: SB, pub method: SB, pub arg: SB, pub rf: (u32, u32), pub ef: (u32, u32), pub cf: Option<(u32, u32)>, pub state: u8, pub cycles: u64 }

#[derive(Clone)]
pub struct Msg { pub ctx: usize, pub kind: u8, pub snap: Rc<Inst>, pub depth: usize, pub staged: Vec<OutCall>, pub cur: Option<OutCall>, pub resp: Option<(u32, SB)>, pub hslot: u32, pub cleanup: Option<(u32, u32)>, pub ctx_snap: Ctx }

// message kinds
pub const M_UPDATE: u8 = 0; pub const M_QUERY: u8 = 1; pub const M_INIT: u8 = 2; pub const M_PREUP: u8 = 3; pub const M_POSTUP: u8 = 4; pub const M_TIMER: u8 = 5; pub const M_RAW: u8 = 6; pub const M_CALLBACK: u8 = 7; pub const M_CLEANUP: u8 = 8; pub const M_HEARTBEAT: u8 = 9; pub const M_INSPECT: u8 = 10;

#[derive(Clone)]
pub struct State {
    pub vals: Vec<Val>, pub frames: Vec<Frame>, pub insts: Vec<Option<Rc<Inst>>>,
    pub ctxs: Vec<Ctx>, pub calls: Vec<OutCall>, pub msg: Option<Box<Msg>>,
    pub pc: Vec<E>, pub model: Rc<Vec<u64>>,
    pub occ: Rc<BTreeMap<String, u32>>, pub vars: Vec<(String, E)>,
    pub time: Val, pub sha: Vec<(Rc<SB>, Rc<SB>)>, pub sha_n: u32, pub covers: BTreeSet<String>,
    pub instrs: u64, pub depth: u32, pub accepted: bool,
}

pub enum Stop { Done, Killed, Trap(String), FmtAbort, Err(String) }
type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Icpt { None, Hash, Memcmp, Sha, Fmt, Panic, Crc, CrcUpd, Alloc, Merge, Host(H) }

#[derive(Clone, Copy, PartialEq, Debug)]
#[allow(non_camel_case_types)]
pub enum H {
    call_new, call_data_append, call_on_cleanup, call_perform, call_cycles_add128, call_best_effort, cost_call,
    certified_data_set, msg_reject, debug_print, trap, msg_reply_data_append, msg_reply, stable64_write, stable64_size, stable64_grow, stable64_read,
    time, global_timer_set, msg_arg_data_size, msg_arg_data_copy, msg_caller_size, msg_caller_copy, msg_reject_code, msg_reject_msg_size, msg_reject_msg_copy,
    canister_self_size, canister_self_copy, cycle_balance128, liquid_cycle_balance128, canister_version, data_certificate_present, data_certificate_size, data_certificate_copy,
    performance_counter, is_controller, in_replicated, accept_message, method_name_size, method_name_copy, msg_deadline, zero128,
    h_sym, h_assume, h_check, h_cover, h_choose, h_install, h_msg, h_status, h_len, h_read, h_set_time, h_ncalls, h_respond, h_timer, h_log, h_upgrade, h_kill, h_is_sym, h_set_id, h_conc, h_param,
    unsupported,
}

fn host_of(m: &str, n: &str) -> H {
    match (m, n) {
        ("ic0", n) => match n {
            "call_new" => H::call_new, "call_data_append" => H::call_data_append, "call_on_cleanup" => H::call_on_cleanup, "call_perform" => H::call_perform,
            "call_cycles_add128" => H::call_cycles_add128, "call_with_best_effort_response" => H::call_best_effort, "cost_call" => H::cost_call,
            "certified_data_set" => H::certified_data_set, "msg_reject" => H::msg_reject, "debug_print" => H::debug_print, "trap" => H::trap,
            "msg_reply_data_append" => H::msg_reply_data_append, "msg_reply" => H::msg_reply, "stable64_write" => H::stable64_write, "stable64_size" => H::stable64_size,
            "stable64_grow" => H::stable64_grow, "stable64_read" => H::stable64_read, "time" => H::time, "global_timer_set" => H::global_timer_set,
            "msg_arg_data_size" => H::msg_arg_data_size, "msg_arg_data_copy" => H::msg_arg_data_copy, "msg_caller_size" => H::msg_caller_size, "msg_caller_copy" => H::msg_caller_copy,
            "msg_reject_code" => H::msg_reject_code, "msg_reject_msg_size" => H::msg_reject_msg_size, "msg_reject_msg_copy" => H::msg_reject_msg_copy,
            "canister_self_size" => H::canister_self_size, "canister_self_copy" => H::canister_self_copy, "canister_cycle_balance128" => H::cycle_balance128,
            "canister_liquid_cycle_balance128" => H::liquid_cycle_balance128, "canister_version" => H::canister_version, "data_certificate_present" => H::data_certificate_present,
            "data_certificate_size" => H::data_certificate_size, "data_certificate_copy" => H::data_certificate_copy, "performance_counter" => H::performance_counter,
            "is_controller" => H::is_controller, "in_replicated_execution" => H::in_replicated, "accept_message" => H::accept_message,
            "msg_method_name_size" => H::method_name_size, "msg_method_name_copy" => H::method_name_copy, "msg_deadline" => H::msg_deadline,
            "msg_cycles_available128" | "msg_cycles_refunded128" => H::zero128,
            _ => H::unsupported,
        },
        ("sym", n) => match n {
            "sym" => H::h_sym, "assume" => H::h_assume, "check" => H::h_check, "cover" => H::h_cover, "choose" => H::h_choose, "install" => H::h_install, "msg" => H::h_msg,
            "status" => H::h_status, "len" => H::h_len, "read" => H::h_read, "set_time" => H::h_set_time, "ncalls" => H::h_ncalls, "respond" => H::h_respond, "timer" => H::h_timer,
            "log" => H::h_log, "upgrade" => H::h_upgrade, "kill" => H::h_kill, "is_sym" => H::h_is_sym, "set_id" => H::h_set_id, "conc" => H::h_conc, "param" => H::h_param,
            _ => H::unsupported,
        },
        _ => H::unsupported,
    }
}

pub struct Violation { pub label: String, pub values: Vec<(String, u64)>, pub note: String }

pub struct Engine {
    pub ar: Arena, pub so: Solver, pub modules: Vec<Module>, pub icpt: Vec<Vec<Icpt>>, pub compiled_names: Vec<String>,
    pub work: Vec<State>,
    pub concrete: Option<HashMap<String, u64>>, pub no_icpt: bool,
    pub violations: Vec<Violation>, pub seen_viol: BTreeMap<String, usize>, pub max_viol: usize,
    pub checks: BTreeMap<String, (u64, u64)>, // label -> (evaluated, needed solver)
    pub covers: BTreeMap<String, u64>,
    pub errors: Vec<String>, pub incomplete: u64,
    pub paths: u64, pub killed: u64, pub forks: u64, pub instrs: u64, pub traps: BTreeMap<String, u64>,
    pub fork_sites: HashMap<(usize, u32, u32), u64>, pub funcs_run: Vec<Vec<bool>>, pub funcs_sym: BTreeSet<(usize, u32)>,
    pub varmap: HashMap<String, E>, pub fmt_aborts: u64, pub sha_sym: u64,
    pub verbose: bool, pub deadline: Instant, pub max_path_instrs: u64, pub params: Vec<u64>, pub logs: bool, pub prof: HashMap<(usize, u32, u32), (u64, f64)>, pub samples: Vec<(Vec<String>, Vec<(String, u64)>)>, pub stop_depth: usize, pub merges: u64,
}

impl Engine {
    pub fn new(mods: Vec<Module>, timeout_ms: u32, exact_crc: bool) -> Engine {
        let mut e = Engine { ar: Arena::new(), so: Solver::new(timeout_ms), modules: mods, icpt: vec![], compiled_names: vec![], work: vec![], concrete: None, no_icpt: false,
            violations: vec![], seen_viol: BTreeMap::new(), max_viol: 3, checks: BTreeMap::new(), covers: BTreeMap::new(), errors: vec![], incomplete: 0, paths: 0, killed: 0, forks: 0, instrs: 0,
            traps: BTreeMap::new(), fork_sites: HashMap::new(), funcs_run: vec![], funcs_sym: BTreeSet::new(), varmap: HashMap::new(), fmt_aborts: 0, sha_sym: 0, verbose: false,
            deadline: Instant::now() + std::time::Duration::from_secs(3600), max_path_instrs: 20_000_000_000, params: vec![], logs: false, prof: HashMap::new(), samples: vec![], stop_depth: 0, merges: 0 };
        for m in &e.modules {
            let mut v = vec![Icpt::None; m.funcs.len()];
            for (i, (a, b, _)) in m.imports.iter().enumerate() { v[i] = Icpt::Host(host_of(a, b)); }
            for (i, f) in m.funcs.iter().enumerate().skip(m.imports.len()) {
                let n = &f.name;
                if n == "memcmp" || n == "bcmp" { v[i] = Icpt::Memcmp }
                else if n == "sha2::sha256::compress256" { v[i] = Icpt::Sha }
                else if n == "alloc::fmt::format::format_inner" { v[i] = Icpt::Fmt }
                else if n == "core::hash::BuildHasher::hash_one" { v[i] = Icpt::Hash }
                else if n == "core::panicking::panic_fmt" { v[i] = Icpt::Panic }
                else if i > 0 && (n.ends_with("___rdl_alloc") || n.ends_with("___rdl_realloc") || n.ends_with("___rdl_dealloc") || n.ends_with("___rdl_alloc_zeroed")) { v[i] = Icpt::Alloc }
                else if i > 0 && n == "<icrc_ledger_types::icrc1::account::Account as core::cmp::PartialEq>::eq" { v[i] = Icpt::Merge }
                else if n == "crc32fast::hash" && !exact_crc { v[i] = Icpt::Crc }
                else if n == "crc32fast::Hasher::update" && !exact_crc { v[i] = Icpt::CrcUpd }
            }
            e.icpt.push(v);
            e.funcs_run.push(vec![false; m.funcs.len()]);
        }
        e
    }

    pub fn new_inst(&self, module: usize) -> Inst {
        let m = &self.modules[module];
        let mut mem = Mem::new(m.mem_min as u64 * 65536);
        for (o, d) in &m.data { mem.write(*o as u64, &SB::conc(d)); }
        Inst { module, mem, stable: Mem::default(), globals: m.globals.iter().map(|g| Val::c(g.1)).collect(), id: vec![], timer: Val::c(0), cert: SB::default(), cycles: 100_000_000_000_000 }
    }

    // ---------- solver glue ----------
    pub fn add_pc(&mut self, st: &mut State, c: E) { self.add(st, c) }
    pub fn upd_model(&self, m: &Rc<Vec<u64>>, d: Vec<(u32, u64)>) -> Rc<Vec<u64>> { Self::upd(m, d) }
    pub fn decide_pub(&mut self, st: &mut State, c: E) -> R<bool> { self.decide(st, c) }
    pub fn push_frame_pub(&mut self, st: &mut State, inst: u8, f: u32, args: &[Val], dst: u32, msg: bool) { self.push_frame(st, inst, f, args, dst, msg) }
    fn add(&mut self, st: &mut State, c: E) {
        if c == self.ar.tru { return; }
        if let N::Bin(Op::And, a, b) = self.ar.n(c) { if self.ar.w(c) == 1 { self.add(st, a); self.add(st, b); return; } }
        if !st.pc.contains(&c) { st.pc.push(c); }
    }
    fn known(&mut self, st: &State, c: E) -> Option<bool> {
        if let Some(k) = self.ar.as_const(c) { return Some(k == 1); }
        if st.pc.contains(&c) { return Some(true); }
        let n = self.ar.not(c);
        if st.pc.contains(&n) { return Some(false); }
        match self.ar.n(c) {
            N::Bin(Op::And, a, b) => match (self.known(st, a), self.known(st, b)) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None },
            N::Bin(Op::Or, a, b) => match (self.known(st, a), self.known(st, b)) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), Some(false)) => Some(false), _ => None },
            _ => None,
        }
    }
    fn upd(model: &Rc<Vec<u64>>, m: Vec<(u32, u64)>) -> Rc<Vec<u64>> {
        let mut v = (**model).clone();
        for (i, x) in m { if v.len() <= i as usize { v.resize(i as usize + 1, 0); } v[i as usize] = x; }
        Rc::new(v)
    }
    /// Truth of `c` on this path; if both are possible the other side is queued as a copy of this state.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(b) = self.known(st, c) { return Ok(b); }
        if Instant::now() > self.deadline { return Err(Stop::Err("time limit reached".into())); }
        let v = self.ar.eval(c, &st.model) == 1;
        let other = if v { self.ar.not(c) } else { c };
        let mine = if v { c } else { self.ar.not(c) };
        let f = st.frames.last().unwrap();
        let (fi, ff, fpc) = (f.inst as usize, f.f, f.pc);
        let mo = st.insts[fi].as_ref().unwrap().module;
        self.funcs_sym.insert((mo, ff));
        let t0 = self.so.time;
        let r = self.so.check(&self.ar, &st.pc, other);
        if self.verbose { let e = self.prof.entry((mo, ff, fpc)).or_default(); e.0 += 1; e.1 += (self.so.time - t0).as_secs_f64(); }
        match r {
            Res::Unsat => { self.add(st, mine); Ok(v) }
            Res::Unknown => { self.incomplete += 1; self.add(st, mine); Ok(v) }
            Res::Sat(m) => {
                if self.in_format(st) { return Err(Stop::FmtAbort); }
                self.forks += 1;
                *self.fork_sites.entry((mo, ff, fpc)).or_insert(0) += 1;
                let mut o = st.clone();
                o.model = Self::upd(&st.model, m);
                self.add(&mut o, other);
                o.depth += 1;
                self.work.push(o);
                self.add(st, mine);
                st.depth += 1;
                Ok(v)
            }
        }
    }
    fn in_format(&self, st: &State) -> bool {
        for f in st.frames.iter().rev() {
            let mo = st.insts[f.inst as usize].as_ref().unwrap().module;
            if self.icpt[mo][f.f as usize] == Icpt::Fmt { return true; }
            if f.msg { return false; }
        }
        false
    }
    pub fn conc(&mut self, st: &mut State, v: Val) -> R<u64> {
        if v.e == 0 { return Ok(v.c); }
        let w = self.ar.w(v.e);
        for _ in 0..1 {
            let x = self.ar.eval(v.e, &st.model);
            let k = self.ar.cst(x, w);
            let c = self.ar.eq(v.e, k);
            if self.decide(st, c)? { return Ok(x); }
        }
        Err(Stop::Err("concretize".into()))
    }
    fn truth(&mut self, st: &mut State, v: Val) -> R<bool> {
        if v.e == 0 { return Ok(v.c != 0); }
        let w = self.ar.w(v.e);
        let z = self.ar.cst(0, w);
        let e = self.ar.eq(v.e, z);
        let n = self.ar.not(e);
        self.decide(st, n)
    }
    fn ex(&mut self, v: Val, w: u8) -> E { if v.e == 0 { self.ar.cst(v.c, w) } else { v.e } }
    fn wrap(&self, e: E) -> Val { match self.ar.as_const(e) { Some(c) => Val::c(c), None => Val::sym(e) } }

    fn sym_bin(&mut self, st: &mut State, op: u8, a: Val, b: Val) -> R<Val> {
        let w = if (0x46..=0x4f).contains(&op) || (0x6a..=0x78).contains(&op) { 32 } else { 64 };
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let cmp = |s: &mut Self, o: Op, x, y| { let r = s.ar.bin(o, x, y); let z = s.ar.zext(r, 32); s.wrap(z) };
        let i = if w == 32 { if op <= 0x4f { op - 0x46 } else { op - 0x6a + 10 } } else { if op <= 0x5a { op - 0x51 } else { op - 0x7c + 10 } };
        Ok(match i {
            0 => cmp(self, Op::Eq, x, y),
            1 => { let r = self.ar.eq(x, y); let n = self.ar.not(r); let z = self.ar.zext(n, 32); self.wrap(z) }
            2 => cmp(self, Op::Slt, x, y), 3 => cmp(self, Op::Ult, x, y),
            4 => cmp(self, Op::Slt, y, x), 5 => cmp(self, Op::Ult, y, x),
            6 => cmp(self, Op::Sle, x, y), 7 => cmp(self, Op::Ule, x, y),
            8 => cmp(self, Op::Sle, y, x), 9 => cmp(self, Op::Ule, y, x),
            _ => {
                let o = match i { 10 => Op::Add, 11 => Op::Sub, 12 => Op::Mul, 13 => Op::SDiv, 14 => Op::UDiv, 15 => Op::SRem, 16 => Op::URem, 17 => Op::And, 18 => Op::Or, 19 => Op::Xor, 20 => Op::Shl, 21 => Op::AShr, 22 => Op::LShr, 23 => Op::Rotl, 24 => Op::Rotr, _ => return Err(Stop::Err(format!("symbolic float op {op:x}"))) };
                let mut y = y;
                match o {
                    Op::SDiv | Op::UDiv | Op::SRem | Op::URem => { let z = self.ar.cst(0, w); let e = self.ar.eq(y, z); if self.decide(st, e)? { return Err(Stop::Trap("division by zero".into())); } }
                    Op::Shl | Op::AShr | Op::LShr | Op::Rotl | Op::Rotr => { let m = self.ar.cst(w as u64 - 1, w); y = self.ar.and(y, m); }
                    _ => {}
                }
                if o == Op::SDiv { let (mn, m1) = (self.ar.cst(1 << (w - 1), w), self.ar.cst(!0, w)); let (p, q) = (self.ar.eq(x, mn), self.ar.eq(y, m1)); let c = self.ar.and(p, q); if self.decide(st, c)? { return Err(Stop::Trap("integer overflow".into())); } }
                let r = self.ar.bin(o, x, y);
                self.wrap(r)
            }
        })
    }
    fn sym_un(&mut self, st: &mut State, op: u8, a: Val) -> R<Val> {
        let e = a.e;
        let ar = &mut self.ar;
        let r = match op {
            0x45 => { let z = ar.cst(0, 32); let c = ar.eq(e, z); ar.zext(c, 32) }
            0x50 => { let z = ar.cst(0, 64); let c = ar.eq(e, z); ar.zext(c, 32) }
            0x67 | 0x79 => { let w = ar.w(e); let mut r = ar.cst(w as u64, w); let o = ar.ones(e); for i in 0..w { if o >> i & 1 == 1 { let b = ar.extract(i, i, e); let k = ar.cst((w - 1 - i) as u64, w); r = ar.ite(b, k, r); } } r }
            0x68 | 0x7a => { let w = ar.w(e); let mut r = ar.cst(w as u64, w); let o = ar.ones(e); for i in (0..w).rev() { if o >> i & 1 == 1 { let b = ar.extract(i, i, e); let k = ar.cst(i as u64, w); r = ar.ite(b, k, r); } } r }
            0x69 | 0x7b => { let w = ar.w(e); let mut r = ar.cst(0, w); let o = ar.ones(e); for i in 0..w { if o >> i & 1 == 1 { let b = ar.extract(i, i, e); let k = ar.zext(b, w); r = ar.bin(Op::Add, r, k); } } r }
            0xa7 => ar.extract(31, 0, e),
            0xac => ar.sext(e, 64),
            0xad => ar.zext(e, 64),
            0xc0 => { let x = ar.extract(7, 0, e); ar.sext(x, 32) }
            0xc1 => { let x = ar.extract(15, 0, e); ar.sext(x, 32) }
            0xc2 => { let x = ar.extract(7, 0, e); ar.sext(x, 64) }
            0xc3 => { let x = ar.extract(15, 0, e); ar.sext(x, 64) }
            0xc4 => { let x = ar.extract(31, 0, e); ar.sext(x, 64) }
            0xbc..=0xbf => e, // reinterpret
            _ => { let c = self.conc(st, a)?; return un(op, c).map(Val::c).ok_or(Stop::Err(format!("un op {op:x}"))); }
        };
        Ok(self.wrap(r))
    }

    // ---------- running ----------
    pub fn start(&mut self, export: &str) -> Result<State, String> {
        let inst = self.new_inst(0);
        let f = *self.modules[0].exports.get(export).ok_or(format!("no harness {export}"))?;
        let mut st = State { vals: vec![], frames: vec![], insts: vec![Some(Rc::new(inst))], ctxs: vec![], calls: vec![], msg: None, pc: vec![], model: Rc::new(vec![]), occ: Default::default(), vars: vec![],
            time: Val::c(1_700_000_000_000_000_000), sha: vec![], sha_n: 0, covers: Default::default(), instrs: 0, depth: 0, accepted: false };
        self.push_frame(&mut st, 0, f, &[], 0, false);
        Ok(st)
    }
    fn push_frame(&mut self, st: &mut State, inst: u8, f: u32, args: &[Val], dst: u32, msg: bool) {
        let mo = st.insts[inst as usize].as_ref().unwrap().module;
        if !self.modules[mo].funcs[f as usize].compiled { self.modules[mo].compile(f); }
        let fu = &self.modules[mo].funcs[f as usize];
        // hashing is intercepted in one place; a copy of the hasher inlined elsewhere would be inconsistent with it
        if mo > 0 && !self.no_icpt && !self.funcs_run[mo][f as usize] && fu.consts.contains(&0x736f6d6570736575) { self.errors.push(format!("inlined hasher in {}", fu.name)); }
        let fu = &self.modules[mo].funcs[f as usize];
        let base = match st.frames.last() { None => 0, Some(fr) => { let m2 = st.insts[fr.inst as usize].as_ref().unwrap().module; fr.base + self.modules[m2].funcs[fr.f as usize].fsize } };
        let need = (base + fu.fsize) as usize;
        if st.vals.len() < need { st.vals.resize(need + 1024, Val::default()); }
        for (i, a) in args.iter().enumerate() { st.vals[base as usize + i] = *a; }
        for i in args.len()..fu.nloc as usize { st.vals[base as usize + i] = Val::default(); }
        let sp = st.insts[inst as usize].as_ref().unwrap().globals.first().map(|g| g.c as u32).unwrap_or(0);
        st.frames.push(Frame { inst, f, pc: 0, base, dst, msg, a0: args.first().map(|a| a.c as u32).unwrap_or(0), sp });
        self.funcs_run[mo][f as usize] = true;
    }

    pub fn explore(&mut self, st: State) {
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if Instant::now() > self.deadline { self.errors.push("time limit reached before every path was explored".into()); return; }
            if self.seen_viol.iter().any(|(k, n)| !k.starts_with("known:") && *n >= 8) { self.errors.push("stopped: enough violations".into()); return; }
            let i0 = st.instrs;
            let r = self.path(&mut st);
            self.instrs += st.instrs - i0;
            match r {
                Stop::Done => {
                    self.paths += 1;
                    // a few finished paths as concrete inputs, to be replayed on the unabstracted code
                    if self.paths.is_power_of_two() && self.samples.len() < 16 {
                        let v = st.vars.iter().map(|(n, e)| (n.clone(), self.ar_eval(*e, &st.model))).collect();
                        self.samples.push((st.covers.iter().cloned().collect(), v));
                    }
                }
                Stop::Killed => { self.killed += 1; }
                Stop::Err(s) => { self.paths += 1; let w = self.where_(&st); self.errors.push(format!("{s} at {w}")); if self.errors.len() > 20 { return; } }
                _ => unreachable!(),
            }
        }
    }
    pub fn where_(&self, st: &State) -> String {
        st.frames.iter().rev().take(6).map(|f| { let mo = st.insts[f.inst as usize].as_ref().unwrap().module; format!("{}@{}", self.modules[mo].funcs[f.f as usize].name, f.pc) }).collect::<Vec<_>>().join(" < ")
    }
    fn path(&mut self, st: &mut State) -> Stop {
        loop {
            match self.run(st) {
                Err(Stop::Trap(why)) => {
                    if st.msg.is_some() {
                        if self.verbose { eprintln!("trap: {why} at {}", self.where_(st)); }
                        *self.traps.entry(why.clone()).or_insert(0) += 1;
                        if let Err(s) = self.trap_msg(st, why) { return s; }
                    } else { return Stop::Err(format!("harness trap: {why}")); }
                }
                Err(Stop::FmtAbort) => {
                    self.fmt_aborts += 1;
                    loop {
                        let f = st.frames.pop().unwrap();
                        let mo = st.insts[f.inst as usize].as_ref().unwrap().module;
                        if self.icpt[mo][f.f as usize] == Icpt::Fmt {
                            let inst = Rc::make_mut(st.insts[f.inst as usize].as_mut().unwrap());
                            inst.globals[0] = Val::c(f.sp as u64);
                            for (o, v) in [(0, 0u64), (4, 1), (8, 0)] { inst.mem.store(f.a0 as u64 + o, 4, Val::c(v), &mut self.ar); }
                            break;
                        }
                    }
                }
                Err(s) => return s,
                Ok(()) => return Stop::Done,
            }
        }
    }

    fn trap_msg(&mut self, st: &mut State, why: String) -> Result<(), Stop> {
        let m = st.msg.take().unwrap();
        st.frames.truncate(m.depth);
        let can = m.ctx_snap.can as usize;
        st.insts[can] = Some(m.snap.clone());
        st.ctxs[m.ctx] = m.ctx_snap.clone();
        if m.kind == M_CALLBACK {
            if let Some((f, env)) = m.cleanup {
                // run the cleanup callback, then finish as trapped
                let fi = self.table(st, can, f)?;
                let hslot = m.hslot;
                let ctx = m.ctx;
                st.msg = Some(Box::new(Msg { ctx, kind: M_CLEANUP, snap: st.insts[can].clone().unwrap(), depth: st.frames.len(), staged: vec![], cur: None, resp: None, hslot, cleanup: None, ctx_snap: st.ctxs[ctx].clone() }));
                self.push_frame(st, can as u8, fi, &[Val::c(env as u64)], 0, true);
                st.ctxs[ctx].note = why;
                return Ok(());
            }
        }
        let c = &mut st.ctxs[m.ctx];
        if m.kind != M_CLEANUP && c.status == 0 { if c.open == 0 { c.status = 3; c.note = why; } }
        st.vals[m.hslot as usize] = Val::c(m.ctx as u64);
        Ok(())
    }
    fn end_msg(&mut self, st: &mut State) {
        let m = st.msg.take().unwrap();
        let can = m.ctx_snap.can as usize;
        if m.kind == M_QUERY || m.kind == M_INSPECT { st.insts[can] = Some(m.snap.clone()); }
        for c in m.staged { st.ctxs[c.ctx].open += 1; st.calls.push(c); }
        let c = &mut st.ctxs[m.ctx];
        if c.status == 0 {
            if c.reply.is_some() { c.status = 1; }
            else if c.reject.is_some() { c.status = 2; }
            else if c.open == 0 { c.status = match m.kind { M_UPDATE | M_QUERY | M_CALLBACK => { c.note = "no reply".into(); 3 } M_CLEANUP => 3, _ => 1 }; }
        }
        st.vals[m.hslot as usize] = Val::c(m.ctx as u64);
    }
    fn table(&self, st: &State, inst: usize, i: u32) -> R<u32> {
        let mo = st.insts[inst].as_ref().unwrap().module;
        match self.modules[mo].table.get(i as usize) { Some(Some(f)) => Ok(*f), _ => Err(Stop::Trap("bad table index".into())) }
    }

    fn run(&mut self, st: &mut State) -> R<()> {
        'frame: loop {
            let (inst_ix, fidx, base, mut pc) = match st.frames.last() { Some(f) => (f.inst as usize, f.f as usize, f.base as usize, f.pc as usize), None => return Ok(()) };
            let mo = st.insts[inst_ix].as_ref().unwrap().module;
            // SAFETY: a compiled function's code and constants are never changed or moved while the module exists
            let (code, consts): (&'static [I], &'static [u64]) = { let f = &self.modules[mo].funcs[fidx]; unsafe { (std::mem::transmute(&f.code[..]), std::mem::transmute(&f.consts[..])) } };
            let inst: *mut Inst = Rc::make_mut(st.insts[inst_ix].as_mut().unwrap());
            macro_rules! inst { () => { unsafe { &mut *inst } } }
            macro_rules! get { ($o:expr) => { if $o & K != 0 { Val::c(unsafe { *consts.get_unchecked(($o & !K) as usize) }) } else { unsafe { *st.vals.get_unchecked(base + $o as usize) } } } }
            macro_rules! set { ($o:expr, $v:expr) => { { let v = $v; unsafe { *st.vals.get_unchecked_mut(base + $o as usize) = v; } } } }
            macro_rules! sync { () => { st.frames.last_mut().unwrap().pc = pc as u32; } }
            let mut n = 0u64;
            macro_rules! leave { () => { st.instrs += n; continue 'frame; } }
            macro_rules! tri { ($e:expr) => { match $e { Ok(v) => v, Err(s) => { st.instrs += n; return Err(s); } } } }
            loop {
                n += 1;
                let ins = unsafe { code.get_unchecked(pc) };
                match ins {
                    I::Copy { d, s } => set!(*d, get!(*s)),
                    I::Bin { op, d, a, b } => {
                        let (x, y) = (get!(*a), get!(*b));
                        if x.e == 0 && y.e == 0 {
                            match bin(*op, x.c, y.c) { Some(v) => set!(*d, Val::c(v)), None => { sync!(); st.instrs += n; return Err(Stop::Trap("arithmetic trap".into())); } }
                        } else {
                            sync!();
                            let nf = self.work.len();
                            let v = if is_float_bin(*op) { let p = tri!(self.conc(st, x)); let q = tri!(self.conc(st, y)); Val::c(bin(*op, p, q).unwrap()) } else { tri!(self.sym_bin(st, *op, x, y)) };
                            set!(*d, v);
                            if self.work.len() != nf { pc += 1; sync!(); leave!(); }
                        }
                    }
                    I::Un { op, d, a } => {
                        let x = get!(*a);
                        if x.e == 0 { match un(*op, x.c) { Some(v) => set!(*d, Val::c(v)), None => { sync!(); st.instrs += n; return Err(Stop::Trap("conversion trap".into())); } } }
                        else { sync!(); let nf = self.work.len(); let v = tri!(self.sym_un(st, *op, x)); set!(*d, v); if self.work.len() != nf { pc += 1; sync!(); leave!(); } }
                    }
                    I::FTrunc { op, d, a } => { sync!(); let nf = self.work.len(); let x = get!(*a); let c = tri!(self.conc(st, x)); set!(*d, Val::c(ftrunc(*op, c))); if self.work.len() != nf { pc += 1; sync!(); leave!(); } }
                    I::Load { op, d, a, off } => {
                        let x = get!(*a);
                        let nf = self.work.len();
                        let sz = LSZ[(*op - 0x28) as usize];
                        if x.e != 0 {
                            if let Some(v) = self.table_load(inst!(), x.e, *off as u64, sz, *op) { set!(*d, v); pc += 1; continue; }
                        }
                        let ad = if x.e == 0 { x.c } else { sync!(); tri!(self.conc(st, x)) } + *off as u64;
                        let mem = &inst!().mem;
                        if !mem.ok(ad, sz as u64) { sync!(); st.instrs += n; return Err(Stop::Trap("memory out of bounds".into())); }
                        let v = mem.load(ad, sz, &mut self.ar);
                        let v = if v.e == 0 { Val::c(match *op {
                            0x2c => v.c as u8 as i8 as i32 as u32 as u64, 0x2e => v.c as u16 as i16 as i32 as u32 as u64,
                            0x30 => v.c as u8 as i8 as i64 as u64, 0x32 => v.c as u16 as i16 as i64 as u64, 0x34 => v.c as u32 as i32 as i64 as u64, _ => v.c }) }
                        else {
                            let w = match *op { 0x28 | 0x2a | 0x2c..=0x2f => 32, _ => 64 };
                            let e = match *op { 0x2c | 0x2e | 0x30 | 0x32 | 0x34 => self.ar.sext(v.e, w), _ => self.ar.zext(v.e, w) };
                            self.wrap(e)
                        };
                        set!(*d, v);
                        if self.work.len() != nf { pc += 1; sync!(); leave!(); }
                    }
                    I::Store { op, a, v, off } => {
                        let (x, v) = (get!(*a), get!(*v));
                        let nf = self.work.len();
                        let ad = if x.e == 0 { x.c } else { sync!(); tri!(self.conc(st, x)) } + *off as u64;
                        if self.work.len() != nf { sync!(); leave!(); } // re-run on the now concrete address
                        let sz = SSZ[(*op - 0x36) as usize];
                        let mem = &mut inst!().mem;
                        if !mem.ok(ad, sz as u64) { sync!(); st.instrs += n; return Err(Stop::Trap("memory out of bounds".into())); }
                        mem.store(ad, sz, v, &mut self.ar);
                    }
                    I::Br(t) => { pc = *t as usize; continue; }
                    I::BrIf { c, t } => {
                        let x = get!(*c);
                        if x.e == 0 { if x.c != 0 { pc = *t as usize; continue; } }
                        else { sync!(); let nf = self.work.len(); let b = tri!(self.truth(st, x)); pc = if b { *t as usize } else { pc + 1 }; if self.work.len() != nf { sync!(); leave!(); } continue; }
                    }
                    I::BrIfZ { c, t } => {
                        let x = get!(*c);
                        if x.e == 0 { if x.c == 0 { pc = *t as usize; continue; } }
                        else { sync!(); let nf = self.work.len(); let b = tri!(self.truth(st, x)); pc = if !b { *t as usize } else { pc + 1 }; if self.work.len() != nf { sync!(); leave!(); } continue; }
                    }
                    I::BrTable { i, t } => {
                        let x = get!(*i);
                        let nf = self.work.len();
                        let i = if x.e == 0 { x.c as usize } else {
                            sync!();
                            // default first, then the individual targets
                            let lim = self.ar.cst(t.len() as u64 - 1, 32);
                            let c = self.ar.bin(Op::Ult, x.e, lim);
                            if !tri!(self.decide(st, c)) { t.len() - 1 } else { tri!(self.conc(st, x)) as usize }
                        };
                        pc = t[i.min(t.len() - 1)] as usize;
                        if self.work.len() != nf { sync!(); leave!(); }
                        continue;
                    }
                    I::Select { d, c, a, b, w64 } => {
                        let x = get!(*c);
                        if x.e == 0 { let v = if x.c != 0 { get!(*a) } else { get!(*b) }; set!(*d, v); }
                        else {
                            let (p, q) = (get!(*a), get!(*b));
                            let z = self.ar.cst(0, 32);
                            let e = self.ar.eq(x.e, z);
                            let v = if let Some(k) = self.known(st, e) { if k { q } else { p } } else {
                                let w = if p.e != 0 { self.ar.w(p.e) } else if q.e != 0 { self.ar.w(q.e) } else if (p.c | q.c) >> 32 != 0 { 64 } else { 0 };
                                if w == 0 {
                                    // both concrete and small: the width is not recorded; 32-bit if it came from an i32 select
                                    let wid = if *w64 { 64 } else { 32 };
                                    let (pe, qe) = (self.ar.cst(p.c, wid), self.ar.cst(q.c, wid));
                                    let r = self.ar.ite(e, qe, pe); self.wrap(r)
                                } else { let (pe, qe) = (self.ex(p, w), self.ex(q, w)); let r = self.ar.ite(e, qe, pe); self.wrap(r) }
                            };
                            set!(*d, v);
                        }
                    }
                    I::GGet { d, g } => set!(*d, inst!().globals[*g as usize]),
                    I::GSet { g, s } => inst!().globals[*g as usize] = get!(*s),
                    I::MemSize { d } => set!(*d, Val::c(inst!().mem.size / 65536)),
                    I::MemGrow { d, a } => { let x = get!(*a).c; let m = &mut inst!().mem; let old = m.size / 65536; if old + x > 65536 { set!(*d, Val::c(0xffff_ffff)) } else { m.grow_to((old + x) * 65536); set!(*d, Val::c(old)) } }
                    I::MemCopy { d, s, n: k } => {
                        let (d, s, k) = (get!(*d), get!(*s), get!(*k));
                        if d.e | s.e | k.e != 0 { sync!(); let nf = self.work.len(); tri!(self.conc(st, d)); tri!(self.conc(st, s)); tri!(self.conc(st, k)); if self.work.len() != nf { leave!(); } }
                        let (d, s, k) = (self.cv(st, d), self.cv(st, s), self.cv(st, k));
                        let m = &mut inst!().mem;
                        if !m.ok(d, k) || !m.ok(s, k) { sync!(); st.instrs += n; return Err(Stop::Trap("memory out of bounds".into())); }
                        if k > 0 { let b = m.read(s, k as usize); m.write(d, &b); }
                        n += k / 16;
                    }
                    I::MemFill { d, v, n: k } => {
                        let (d, v, k) = (get!(*d), get!(*v), get!(*k));
                        if d.e | k.e != 0 { sync!(); let nf = self.work.len(); tri!(self.conc(st, d)); tri!(self.conc(st, k)); if self.work.len() != nf { leave!(); } }
                        let (d, k) = (self.cv(st, d), self.cv(st, k));
                        let m = &mut inst!().mem;
                        if !m.ok(d, k) { sync!(); st.instrs += n; return Err(Stop::Trap("memory out of bounds".into())); }
                        if v.e == 0 { m.fill(d, k as usize, v.c as u8); } else { let b = self.ar.extract(7, 0, v.e); for i in 0..k { m.set_byte(d + i, Val::sym(b)); } }
                    }
                    I::Unreach => { sync!(); st.instrs += n; return Err(Stop::Trap("unreachable".into())); }
                    I::Ret(v) => {
                        let fr = st.frames.last().unwrap();
                        let (dst, msg) = (fr.dst as usize, fr.msg);
                        if v.len() == 1 { let x = get!(v[0]); if !msg { st.vals[dst] = x; } }
                        else if v.len() > 1 { let xs: Vec<Val> = v.iter().map(|o| get!(*o)).collect(); for (i, x) in xs.into_iter().enumerate() { st.vals[dst + i] = x; } }
                        st.frames.pop();
                        st.instrs += n;
                        if msg { self.end_msg(st); }
                        if self.stop_depth != 0 && st.frames.len() == self.stop_depth { return Ok(()); }
                        if st.instrs > self.max_path_instrs { return Err(Stop::Err("path instruction limit".into())); }
                        continue 'frame;
                    }
                    I::Call { .. } | I::CallInd { .. } => {
                        let (f, args, d) = match ins {
                            I::Call { f, args, d } => (*f, args, *d),
                            I::CallInd { ty, i, args, d } => {
                                let x = get!(*i);
                                let nf = self.work.len();
                                let ix = if x.e == 0 { x.c } else { sync!(); tri!(self.conc(st, x)) };
                                if self.work.len() != nf { sync!(); leave!(); }
                                sync!();
                                let f = tri!(self.table(st, inst_ix, ix as u32));
                                let (t1, t2) = (&self.modules[mo].types[*ty as usize], &self.modules[mo].types[self.modules[mo].funcs[f as usize].ty as usize]);
                                if t1 != t2 { st.instrs += n; return Err(Stop::Trap("indirect call type mismatch".into())); }
                                (f, args, *d)
                            }
                            _ => unreachable!(),
                        };
                        let ic = self.icpt[mo][f as usize];
                        if matches!(ic, Icpt::None | Icpt::Fmt | Icpt::Alloc) || self.no_icpt && !matches!(ic, Icpt::Host(_)) {
                            let mut av = [Val::default(); 32];
                            for (i, o) in args.iter().enumerate() { av[i] = get!(*o); }
                            if ic == Icpt::Alloc { for i in 0..args.len() { if av[i].e != 0 { sync!(); av[i] = Val::c(tri!(self.conc(st, av[i]))); } } }
                            pc += 1; sync!();
                            if st.frames.len() > 20000 { st.instrs += n; return Err(Stop::Trap("stack overflow".into())); }
                            let k = args.len();
                            self.push_frame(st, inst_ix as u8, f, &av[..k], (base as u32) + d, false);
                            leave!();
                        }
                        sync!();
                        let av: Vec<Val> = args.iter().map(|o| get!(*o)).collect();
                        match ic {
                            Icpt::Memcmp => { let nf = self.work.len(); let v = tri!(self.memcmp(st, inst_ix, &av)); set!(d, v); if self.work.len() != nf { pc += 1; sync!(); leave!(); } }
                            Icpt::Hash | Icpt::Crc => { set!(d, Val::c(0)); }
                            Icpt::CrcUpd => {}
                            Icpt::Merge => {
                                if let Some(v) = self.merged(st, inst_ix, f, &av, base as u32 + d) { set!(d, v); pc += 1; sync!(); leave!(); }
                                pc += 1; sync!();
                                self.push_frame(st, inst_ix as u8, f, &av, (base as u32) + d, false);
                                leave!();
                            }
                            Icpt::Panic => { st.instrs += n; return Err(Stop::Trap("panic".into())); }
                            Icpt::Sha => {
                                if tri!(self.sha(st, inst_ix, &av)) { pc += 1; sync!(); leave!(); }
                                pc += 1; sync!();
                                self.push_frame(st, inst_ix as u8, f, &av, (base as u32) + d, false);
                                leave!();
                            }
                            Icpt::Host(h) => {
                                st.instrs += n; n = 0;
                                // host functions may switch instance or fork; always re-enter through the frame loop
                                let r = tri!(self.host(st, inst_ix, h, &av, (base as u32) + d));
                                match r {
                                    Hr::None => {}
                                    Hr::V(v) => { st.vals[base + d as usize] = v; }
                                    Hr::Entered(depth) => { st.frames[depth - 1].pc = pc as u32 + 1; continue 'frame; }
                                }
                                pc += 1; sync!();
                                leave!();
                            }
                            _ => unreachable!(),
                        }
                    }
                }
                pc += 1;
            }
        }
    }
    /// A load whose address depends on one narrow value becomes a table over that value.
    fn table_load(&mut self, inst: &Inst, a: E, off: u64, sz: usize, op: u8) -> Option<Val> {
        if sz > 8 { return None; }
        let idx = self.ar.narrow(a)?;
        let wi = self.ar.w(idx);
        let mut t = Vec::with_capacity(1 << wi);
        for v in 0..1u64 << wi {
            let ad = (self.ar.val_at(a, idx, v, 8)? & 0xffff_ffff) + off;
            if !inst.mem.ok(ad, sz as u64) { return None; }
            let x = inst.mem.load(ad, sz, &mut self.ar);
            if x.e != 0 { return None; }
            t.push(match op {
                0x2c => x.c as u8 as i8 as i32 as u32 as u64, 0x2e => x.c as u16 as i16 as i32 as u32 as u64,
                0x30 => x.c as u8 as i8 as i64 as u64, 0x32 => x.c as u16 as i16 as i64 as u64, 0x34 => x.c as u32 as i32 as i64 as u64, _ => x.c });
        }
        let w = match op { 0x28 | 0x2a | 0x2c..=0x2f => 32, _ => 64 };
        let e = self.ar.table(idx, t, w);
        Some(self.wrap(e))
    }
    fn cv(&mut self, st: &State, v: Val) -> u64 { if v.e == 0 { v.c } else { self.ar.eval(v.e, &st.model) } }
    fn memcmp(&mut self, st: &mut State, inst: usize, a: &[Val]) -> R<Val> {
        let n = self.conc(st, a[2])?; let p = self.conc(st, a[0])?; let q = self.conc(st, a[1])?;
        let m = &st.insts[inst].as_ref().unwrap().mem;
        if !m.ok(p, n) || !m.ok(q, n) { return Err(Stop::Trap("memory out of bounds".into())); }
        let mut diffs: Vec<(Val, Val)> = vec![];
        for i in 0..n {
            let (x, y) = (m.byte(p + i), m.byte(q + i));
            if x.e == 0 && y.e == 0 { if x.c != y.c { diffs.push((x, y)); break; } }
            else if x.e != y.e { diffs.push((x, y)); }
        }
        let mut r = self.ar.cst(0, 32);
        for (x, y) in diffs.into_iter().rev() {
            let (x, y) = (self.ex(x, 8), self.ex(y, 8));
            let eq = self.ar.eq(x, y); let lt = self.ar.bin(Op::Ult, x, y);
            let (m1, p1) = (self.ar.cst(!0, 32), self.ar.cst(1, 32));
            let ne = self.ar.ite(lt, m1, p1);
            r = self.ar.ite(eq, r, ne);
        }
        Ok(self.wrap(r))
    }

    /// A comparison that writes nothing but its own stack frame: explore it to the end on the side and merge
    /// the outcomes into one value. None: nothing symbolic behind the arguments, or it cannot be merged.
    fn merged(&mut self, st: &mut State, inst: usize, f: u32, a: &[Val], dst: u32) -> Option<Val> {
        if self.stop_depth != 0 || a.iter().any(|v| v.e != 0) { return None; }
        let m = &st.insts[inst].as_ref().unwrap().mem;
        let any = a.iter().any(|v| m.ok(v.c, 64) && m.read(v.c, 64).s.len() > 0);
        if !any { return None; }
        let saved = std::mem::take(&mut self.work);
        let (n0, forks) = (st.pc.len(), self.forks);
        let mut s = st.clone();
        self.push_frame(&mut s, inst as u8, f, a, dst, false);
        self.stop_depth = st.frames.len();
        self.work.push(s);
        let mut outs = vec![];
        let mut good = true;
        while let Some(mut s) = self.work.pop() {
            match self.run(&mut s) { Ok(()) => outs.push(s), Err(_) => { good = false; break; } }
            if outs.len() > 12 { good = false; break; }
        }
        self.stop_depth = 0;
        self.forks = forks;
        self.work = saved;
                if !good || outs.is_empty() { return None; }
        self.merges += 1;
        st.instrs = outs.iter().map(|o| o.instrs).max().unwrap();
        let v0 = outs[0].vals[dst as usize];
        if outs.iter().all(|o| o.vals[dst as usize].e == v0.e && o.vals[dst as usize].c == v0.c) { return Some(v0); }
        let mut r = self.ex(v0, 32);
        for o in &outs[1..] {
            let mut c = self.ar.tru;
            for &x in &o.pc[n0..] { c = self.ar.and(c, x); }
            let x = self.ex(o.vals[dst as usize], 32);
            r = self.ar.ite(c, x, r);
        }
        Some(self.wrap(r))
    }
    /// SHA-256 compression as an injective function: a block containing symbolic bytes that equals no
    /// earlier input gets fresh distinct output; equal inputs (solver-decided) give equal outputs.
    /// Returns true when handled here; false lets the real code run (all-concrete input).
    fn sha(&mut self, st: &mut State, inst: usize, a: &[Val]) -> R<bool> {
        if self.concrete.is_some() { return Ok(false); }
        let (sp, bp, nb) = (self.conc(st, a[0])?, self.conc(st, a[1])?, self.conc(st, a[2])?);
        let m = &st.insts[inst].as_ref().unwrap().mem;
        if !m.ok(sp, 32) || !m.ok(bp, nb * 64) { return Err(Stop::Trap("memory out of bounds".into())); }
        let mut state = m.read(sp, 32);
        let data = m.read(bp, nb as usize * 64);
        // one 64-byte block at a time, so that equal inputs are recognised however they are chunked
        for b in 0..nb as usize {
            let mut key = state.clone(); key.append(&data.slice(b * 64, 64));
            let concrete = key.s.is_empty();
            let mut out: Option<Rc<SB>> = None;
            for j in 0..st.sha.len() {
                let (k, o) = st.sha[j].clone();
                if concrete && k.s.is_empty() { if k.d == key.d { out = Some(o); break; } continue; }
                let c = self.sb_eq(&k, &key);
                if self.decide(st, c)? { out = Some(o); break; }
            }
            state = match out {
                Some(o) => (*o).clone(),
                None => {
                    let o = if concrete { SB::conc(&crate::sha::compress(&key.d[..32], &key.d[32..])) } else {
                        self.sha_sym += 1;
                        st.sha_n += 1;
                        let mut b = vec![0xA5u8; 32];
                        b[..4].copy_from_slice(&st.sha_n.to_le_bytes());
                        let mut x = st.sha_n as u64;
                        for c in b[4..].iter_mut() { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); *c = (x >> 33) as u8; }
                        SB::conc(&b)
                    };
                    st.sha.push((Rc::new(key), Rc::new(o.clone())));
                    o
                }
            };
        }
        let out = state;
        Rc::make_mut(st.insts[inst].as_mut().unwrap()).mem.write(sp, &out);
        Ok(true)
    }
    fn sb_eq(&mut self, a: &SB, b: &SB) -> E {
        if a.d.len() != b.d.len() { return self.ar.fal; }
        let am: HashMap<u32, E> = a.s.iter().copied().collect();
        let bm: HashMap<u32, E> = b.s.iter().copied().collect();
        let mut r = self.ar.tru;
        for i in 0..a.d.len() as u32 {
            let (x, y) = (am.get(&i), bm.get(&i));
            if x.is_none() && y.is_none() { if a.d[i as usize] != b.d[i as usize] { return self.ar.fal; } continue; }
            let x = match x { Some(e) => *e, None => self.ar.cst(a.d[i as usize] as u64, 8) };
            let y = match y { Some(e) => *e, None => self.ar.cst(b.d[i as usize] as u64, 8) };
            let c = self.ar.eq(x, y);
            r = self.ar.and(r, c);
            if r == self.ar.fal { return r; }
        }
        r
    }
}

pub enum Hr { None, V(Val), Entered(usize) }
const LSZ: [usize; 14] = [4, 8, 4, 8, 1, 1, 2, 2, 1, 1, 2, 2, 4, 4];
const SSZ: [usize; 9] = [4, 8, 4, 8, 1, 2, 1, 2, 4];

fn is_float_bin(op: u8) -> bool { (0x5b..=0x66).contains(&op) || (0x92..=0x98).contains(&op) || (0xa0..=0xa6).contains(&op) }

#[inline(always)]
pub fn bin(op: u8, a: u64, b: u64) -> Option<u64> {
    let (x, y) = (a as u32, b as u32);
    Some(match op {
        0x46 => (x == y) as u64, 0x47 => (x != y) as u64,
        0x48 => ((x as i32) < (y as i32)) as u64, 0x49 => (x < y) as u64,
        0x4a => ((x as i32) > (y as i32)) as u64, 0x4b => (x > y) as u64,
        0x4c => ((x as i32) <= (y as i32)) as u64, 0x4d => (x <= y) as u64,
        0x4e => ((x as i32) >= (y as i32)) as u64, 0x4f => (x >= y) as u64,
        0x51 => (a == b) as u64, 0x52 => (a != b) as u64,
        0x53 => ((a as i64) < (b as i64)) as u64, 0x54 => (a < b) as u64,
        0x55 => ((a as i64) > (b as i64)) as u64, 0x56 => (a > b) as u64,
        0x57 => ((a as i64) <= (b as i64)) as u64, 0x58 => (a <= b) as u64,
        0x59 => ((a as i64) >= (b as i64)) as u64, 0x5a => (a >= b) as u64,
        0x6a => x.wrapping_add(y) as u64, 0x6b => x.wrapping_sub(y) as u64, 0x6c => x.wrapping_mul(y) as u64,
        0x6d => { if y == 0 || (x == 0x8000_0000 && y == !0) { return None; } ((x as i32) / (y as i32)) as u32 as u64 }
        0x6e => { if y == 0 { return None; } (x / y) as u64 }
        0x6f => { if y == 0 { return None; } (x as i32).wrapping_rem(y as i32) as u32 as u64 }
        0x70 => { if y == 0 { return None; } (x % y) as u64 }
        0x71 => (x & y) as u64, 0x72 => (x | y) as u64, 0x73 => (x ^ y) as u64,
        0x74 => x.wrapping_shl(y) as u64, 0x75 => (x as i32).wrapping_shr(y) as u32 as u64, 0x76 => x.wrapping_shr(y) as u64,
        0x77 => x.rotate_left(y % 32) as u64, 0x78 => x.rotate_right(y % 32) as u64,
        0x7c => a.wrapping_add(b), 0x7d => a.wrapping_sub(b), 0x7e => a.wrapping_mul(b),
        0x7f => { if b == 0 || (a == 1 << 63 && b == !0) { return None; } ((a as i64) / (b as i64)) as u64 }
        0x80 => { if b == 0 { return None; } a / b }
        0x81 => { if b == 0 { return None; } (a as i64).wrapping_rem(b as i64) as u64 }
        0x82 => { if b == 0 { return None; } a % b }
        0x83 => a & b, 0x84 => a | b, 0x85 => a ^ b,
        0x86 => a.wrapping_shl(b as u32), 0x87 => (a as i64).wrapping_shr(b as u32) as u64, 0x88 => a.wrapping_shr(b as u32),
        0x89 => a.rotate_left((b % 64) as u32), 0x8a => a.rotate_right((b % 64) as u32),
        _ => return fbin(op, a, b),
    })
}
#[cold]
fn fbin(op: u8, a: u64, b: u64) -> Option<u64> {
    let (f, g) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
    let (p, q) = (f64::from_bits(a), f64::from_bits(b));
    let r32 = |x: f32| x.to_bits() as u64;
    Some(match op {
        0x5b => (f == g) as u64, 0x5c => (f != g) as u64, 0x5d => (f < g) as u64, 0x5e => (f > g) as u64, 0x5f => (f <= g) as u64, 0x60 => (f >= g) as u64,
        0x61 => (p == q) as u64, 0x62 => (p != q) as u64, 0x63 => (p < q) as u64, 0x64 => (p > q) as u64, 0x65 => (p <= q) as u64, 0x66 => (p >= q) as u64,
        0x92 => r32(f + g), 0x93 => r32(f - g), 0x94 => r32(f * g), 0x95 => r32(f / g), 0x96 => r32(f.min(g)), 0x97 => r32(f.max(g)), 0x98 => r32(f.copysign(g)),
        0xa0 => (p + q).to_bits(), 0xa1 => (p - q).to_bits(), 0xa2 => (p * q).to_bits(), 0xa3 => (p / q).to_bits(), 0xa4 => p.min(q).to_bits(), 0xa5 => p.max(q).to_bits(), 0xa6 => p.copysign(q).to_bits(),
        _ => panic!("bin {op:x}"),
    })
}
#[inline(always)]
pub fn un(op: u8, a: u64) -> Option<u64> {
    let x = a as u32;
    Some(match op {
        0x45 => (x == 0) as u64, 0x50 => (a == 0) as u64,
        0x67 => x.leading_zeros() as u64, 0x68 => x.trailing_zeros() as u64, 0x69 => x.count_ones() as u64,
        0x79 => a.leading_zeros() as u64, 0x7a => a.trailing_zeros() as u64, 0x7b => a.count_ones() as u64,
        0xa7 => x as u64, 0xac => x as i32 as i64 as u64, 0xad => x as u64,
        0xc0 => x as u8 as i8 as i32 as u32 as u64, 0xc1 => x as u16 as i16 as i32 as u32 as u64,
        0xc2 => a as u8 as i8 as i64 as u64, 0xc3 => a as u16 as i16 as i64 as u64, 0xc4 => a as u32 as i32 as i64 as u64,
        0xbc..=0xbf => a,
        _ => return fun(op, a),
    })
}
#[cold]
fn fun(op: u8, a: u64) -> Option<u64> {
    let f = f32::from_bits(a as u32); let p = f64::from_bits(a);
    let r32 = |x: f32| x.to_bits() as u64;
    Some(match op {
        0x8b => r32(f.abs()), 0x8c => r32(-f), 0x8d => r32(f.ceil()), 0x8e => r32(f.floor()), 0x8f => r32(f.trunc()), 0x90 => r32(f.round_ties_even()), 0x91 => r32(f.sqrt()),
        0x99 => p.abs().to_bits(), 0x9a => (-p).to_bits(), 0x9b => p.ceil().to_bits(), 0x9c => p.floor().to_bits(), 0x9d => p.trunc().to_bits(), 0x9e => p.round_ties_even().to_bits(), 0x9f => p.sqrt().to_bits(),
        0xa8 => { if f.is_nan() || f >= 2147483648.0 || f < -2147483648.0 { return None; } f as i32 as u32 as u64 }
        0xa9 => { if f.is_nan() || f >= 4294967296.0 || f <= -1.0 { return None; } f as u32 as u64 }
        0xaa => { if p.is_nan() || p >= 2147483648.0 || p <= -2147483649.0 { return None; } p as i32 as u32 as u64 }
        0xab => { if p.is_nan() || p >= 4294967296.0 || p <= -1.0 { return None; } p as u32 as u64 }
        0xae => f as i64 as u64, 0xaf => f as u64, 0xb0 => p as i64 as u64, 0xb1 => p as u64,
        0xb2 => r32(a as u32 as i32 as f32), 0xb3 => r32(a as u32 as f32), 0xb4 => r32(a as i64 as f32), 0xb5 => r32(a as f32), 0xb6 => r32(p as f32),
        0xb7 => (a as u32 as i32 as f64).to_bits(), 0xb8 => (a as u32 as f64).to_bits(), 0xb9 => (a as i64 as f64).to_bits(), 0xba => (a as f64).to_bits(), 0xbb => (f as f64).to_bits(),
        _ => panic!("un {op:x}"),
    })
}
fn ftrunc(op: u8, a: u64) -> u64 {
    let f = f32::from_bits(a as u32); let p = f64::from_bits(a);
    match op { 0 => f as i32 as u32 as u64, 1 => f as u32 as u64, 2 => p as i32 as u32 as u64, 3 => p as u32 as u64, 4 => f as i64 as u64, 5 => f as u64, 6 => p as i64 as u64, _ => p as u64 }
}
