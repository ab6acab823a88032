//! WebAssembly module reader; function bodies become register code over frame slots.
pub const K: u32 = 0x8000_0000; // operand refers to the constant pool

#[derive(Clone, Debug)]
pub enum I {
    Copy { d: u32, s: u32 },
    Un { op: u8, d: u32, a: u32 },
    Bin { op: u8, d: u32, a: u32, b: u32 },
    FTrunc { op: u8, d: u32, a: u32 }, // 0xFC 0..7
    Load { op: u8, d: u32, a: u32, off: u32 },
    Store { op: u8, a: u32, v: u32, off: u32 },
    Br(u32),
    BrIf { c: u32, t: u32 },
    BrIfZ { c: u32, t: u32 },
    BrTable { i: u32, t: Box<[u32]> },
    Call { f: u32, args: Box<[u32]>, d: u32 },
    CallInd { ty: u32, i: u32, args: Box<[u32]>, d: u32 },
    Ret(Box<[u32]>),
    Select { d: u32, c: u32, a: u32, b: u32, w64: bool },
    GGet { d: u32, g: u32 },
    GSet { g: u32, s: u32 },
    MemSize { d: u32 },
    MemGrow { d: u32, a: u32 },
    MemCopy { d: u32, s: u32, n: u32 },
    MemFill { d: u32, v: u32, n: u32 },
    Unreach,
}

#[derive(Clone, Debug, PartialEq)]
pub struct FT { pub p: Vec<u8>, pub r: Vec<u8> }

pub struct Func {
    pub ty: u32, pub np: u32, pub nr: u32, pub nloc: u32, pub fsize: u32,
    pub code: Vec<I>, pub consts: Vec<u64>, pub name: String, pub compiled: bool,
    body: (usize, usize),
}

pub struct Module {
    pub types: Vec<FT>,
    pub imports: Vec<(String, String, u32)>,
    pub funcs: Vec<Func>, // includes imports (empty code)
    pub globals: Vec<(u8, u64)>,
    pub table: Vec<Option<u32>>,
    pub mem_min: u32,
    pub data: Vec<(u32, Vec<u8>)>,
    pub exports: std::collections::HashMap<String, u32>,
    pub bytes: Vec<u8>,
}

struct Rd<'a> { b: &'a [u8], p: usize }
impl<'a> Rd<'a> {
    fn u8(&mut self) -> u8 { let x = self.b[self.p]; self.p += 1; x }
    fn u(&mut self) -> u64 { let mut r = 0u64; let mut s = 0; loop { let x = self.u8(); r |= ((x & 0x7f) as u64) << s; s += 7; if x & 0x80 == 0 { return r; } } }
    fn u32(&mut self) -> u32 { self.u() as u32 }
    fn s(&mut self) -> i64 { let mut r = 0i64; let mut s = 0; loop { let x = self.u8(); r |= ((x & 0x7f) as i64) << s; s += 7; if x & 0x80 == 0 { if s < 64 && x & 0x40 != 0 { r |= -1i64 << s; } return r; } } }
    fn name(&mut self) -> String { let n = self.u() as usize; let s = String::from_utf8_lossy(&self.b[self.p..self.p + n]).into_owned(); self.p += n; s }
    fn bytes(&mut self, n: usize) -> &'a [u8] { let s = &self.b[self.p..self.p + n]; self.p += n; s }
    fn const_expr(&mut self, globals: &[(u8, u64)]) -> u64 {
        let mut v = 0;
        loop { match self.u8() { 0x41 => v = self.s() as i32 as u32 as u64, 0x42 => v = self.s() as u64, 0x43 => { v = u32::from_le_bytes(self.bytes(4).try_into().unwrap()) as u64 } 0x44 => { v = u64::from_le_bytes(self.bytes(8).try_into().unwrap()) }
            0x23 => { let g = self.u() as usize; v = globals[g].1; } 0xd2 => v = self.u(), 0xd0 => { self.u8(); v = u64::MAX; } 0x0b => return v, x => panic!("const expr op {x:x}") } }
    }
}

fn demangle(s: &str) -> String {
    // legacy mangling is enough for reporting and for the few intercepted functions
    let b = s.as_bytes();
    if !s.starts_with("_ZN") { return s.to_string(); }
    let mut p = 3; let mut parts: Vec<String> = vec![];
    while p < b.len() && b[p].is_ascii_digit() {
        let mut n = 0usize;
        while b[p].is_ascii_digit() { n = n * 10 + (b[p] - b'0') as usize; p += 1; }
        if p + n > b.len() { return s.to_string(); }
        let part = &s[p..p + n]; p += n;
        if n == 17 && part.starts_with('h') && p < b.len() && b[p] == b'E' { break; }
        parts.push(part.replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("$RF$", "&").replace("$C$", ",").replace("$u7b$", "{").replace("$u7d$", "}").replace("$LP$", "(").replace("$RP$", ")").replace("$BP$", "*").replace("$u5b$", "[").replace("$u5d$", "]").replace("$u27$", "'").replace("$u3b$", ";").replace("..", "::").trim_start_matches('_').to_string());
    }
    parts.join("::")
}

impl Module {
    pub fn parse(bytes: Vec<u8>) -> Module {
        let mut m = Module { types: vec![], imports: vec![], funcs: vec![], globals: vec![], table: vec![], mem_min: 0, data: vec![], exports: Default::default(), bytes: vec![] };
        let mut ftypes: Vec<u32> = vec![];
        let mut bodies: Vec<(usize, usize)> = vec![];
        let mut names: Vec<(u32, String)> = vec![];
        {
            let mut r = Rd { b: &bytes, p: 8 };
            while r.p < bytes.len() {
                let id = r.u8(); let len = r.u() as usize; let end = r.p + len;
                match id {
                    0 => { let n = r.name(); if n == "name" { while r.p < end { let k = r.u8(); let l = r.u() as usize; let e2 = r.p + l; if k == 1 { for _ in 0..r.u() { let i = r.u32(); let s = r.name(); names.push((i, s)); } } r.p = e2; } } }
                    1 => for _ in 0..r.u() { let t = r.u8(); assert_eq!(t, 0x60); let p = (0..r.u()).map(|_| r.u8()).collect(); let q = (0..r.u()).map(|_| r.u8()).collect(); m.types.push(FT { p, r: q }); },
                    2 => for _ in 0..r.u() { let a = r.name(); let b = r.name(); match r.u8() { 0 => { let t = r.u32(); m.imports.push((a, b, t)); ftypes.push(t); } x => panic!("import kind {x} {a}.{b}") } },
                    3 => for _ in 0..r.u() { ftypes.push(r.u32()); },
                    4 => for _ in 0..r.u() { r.u8(); let f = r.u8(); let min = r.u() as usize; if f & 1 != 0 { r.u(); } m.table = vec![None; min]; },
                    5 => for _ in 0..r.u() { let f = r.u8(); m.mem_min = r.u32(); if f & 1 != 0 { r.u(); } },
                    6 => for _ in 0..r.u() { let t = r.u8(); r.u8(); let v = r.const_expr(&m.globals); m.globals.push((t, v)); },
                    7 => for _ in 0..r.u() { let n = r.name(); let k = r.u8(); let i = r.u32(); if k == 0 { m.exports.insert(n, i); } },
                    9 => for _ in 0..r.u() {
                        let fl = r.u();
                        match fl { 0 => { let o = r.const_expr(&m.globals) as usize; for j in 0..r.u() as usize { let f = r.u32(); m.table[o + j] = Some(f); } } x => panic!("elem flags {x}") }
                    },
                    10 => for _ in 0..r.u() { let l = r.u() as usize; bodies.push((r.p, r.p + l)); r.p += l; },
                    11 => for _ in 0..r.u() { let fl = r.u(); match fl { 0 => { let o = r.const_expr(&m.globals) as u32; let n = r.u() as usize; let d = r.bytes(n).to_vec(); m.data.push((o, d)); } x => panic!("data flags {x}") } },
                    _ => {}
                }
                r.p = end;
            }
        }
        let ni = m.imports.len();
        for (i, &t) in ftypes.iter().enumerate() {
            let ft = &m.types[t as usize];
            let body = if i >= ni { bodies[i - ni] } else { (0, 0) };
            m.funcs.push(Func { ty: t, np: ft.p.len() as u32, nr: ft.r.len() as u32, nloc: 0, fsize: 0, code: vec![], consts: vec![], name: String::new(), compiled: i < ni, body });
        }
        for (i, n) in names { if let Some(f) = m.funcs.get_mut(i as usize) { f.name = demangle(&n); } }
        m.bytes = bytes;
        m
    }
    pub fn compile(&mut self, fi: u32) {
        let bytes = std::mem::take(&mut self.bytes);
        let mut c = Comp::new(self, &bytes, fi);
        c.run();
        let (code, consts, nloc, maxh) = (std::mem::take(&mut c.code), std::mem::take(&mut c.consts), c.nloc, c.maxh);
        drop(c);
        let f = &mut self.funcs[fi as usize];
        f.code = code; f.consts = consts; f.nloc = nloc; f.fsize = nloc + maxh + 1; f.compiled = true;
        self.bytes = bytes;
    }
}

enum Fix { At(usize), Tab(usize, usize) }
struct Ctl { kind: u8, h: u32, np: u32, nr: u32, pt: Vec<u8>, rt: Vec<u8>, start: u32, fix: Vec<Fix>, els: Option<usize>, dead: bool }

struct Comp<'a> {
    m: &'a Module, r: Rd<'a>, end: usize, code: Vec<I>, consts: Vec<u64>, nloc: u32, maxh: u32,
    vs: Vec<u32>, vt: Vec<u8>, lt: Vec<u8>, ctl: Vec<Ctl>, f: u32, barrier: usize,
}

impl<'a> Comp<'a> {
    fn new(m: &'a Module, b: &'a [u8], f: u32) -> Self {
        let (s, e) = m.funcs[f as usize].body;
        Comp { m, r: Rd { b, p: s }, end: e, code: vec![], consts: vec![], nloc: 0, maxh: 0, vs: vec![], vt: vec![], lt: vec![], ctl: vec![], f, barrier: 0 }
    }
    fn konst(&mut self, v: u64) -> u32 {
        if let Some(p) = self.consts.iter().rev().take(16).position(|&x| x == v) { return K | (self.consts.len() - 1 - p) as u32; }
        self.consts.push(v); K | (self.consts.len() - 1) as u32
    }
    fn slot(&self, h: usize) -> u32 { self.nloc + h as u32 }
    fn push_slot(&mut self, t: u8) -> u32 { let s = self.slot(self.vs.len()); self.vs.push(s); self.vt.push(t); if self.vs.len() as u32 > self.maxh { self.maxh = self.vs.len() as u32; } s }
    fn push(&mut self, o: u32, t: u8) { self.vs.push(o); self.vt.push(t); if self.vs.len() as u32 > self.maxh { self.maxh = self.vs.len() as u32; } }
    fn pop(&mut self) -> u32 { self.vt.pop(); self.vs.pop().expect("stack underflow") }
    fn flush(&mut self) { for h in 0..self.vs.len() { self.mat(h); } }
    fn mat(&mut self, h: usize) { let s = self.slot(h); if self.vs[h] != s { let v = self.vs[h]; self.code.push(I::Copy { d: s, s: v }); self.vs[h] = s; } }
    fn flush_local(&mut self, l: u32) { for h in 0..self.vs.len() { if self.vs[h] == l { self.mat(h); } } }
    fn block_type(&mut self) -> (Vec<u8>, Vec<u8>) {
        let b = self.r.b[self.r.p];
        if b == 0x40 { self.r.p += 1; (vec![], vec![]) } else if b & 0xc0 == 0x40 { self.r.p += 1; (vec![], vec![b]) } else { let t = self.r.s() as usize; (self.m.types[t].p.clone(), self.m.types[t].r.clone()) }
    }
    /// moves the label's values into place; returns whether any move was emitted
    fn moves(&mut self, depth: usize) -> bool {
        let c = &self.ctl[self.ctl.len() - 1 - depth];
        let n = if c.kind == 3 { c.np } else { c.nr } as usize;
        let base = c.h as usize; let from = self.vs.len() - n;
        if n == 0 || base == from { return false; }
        for i in 0..n { let (d, s) = (self.slot(base + i), self.slot(from + i)); self.code.push(I::Copy { d, s }); }
        true
    }
    fn needs_moves(&self, depth: usize) -> bool {
        let c = &self.ctl[self.ctl.len() - 1 - depth];
        let n = if c.kind == 3 { c.np } else { c.nr } as usize;
        n != 0 && c.h as usize != self.vs.len() - n
    }
    fn br_to(&mut self, depth: usize) { // emits Br
        let ix = self.ctl.len() - 1 - depth;
        let pc = self.code.len();
        if self.ctl[ix].kind == 3 { let s = self.ctl[ix].start; self.code.push(I::Br(s)); }
        else { self.code.push(I::Br(u32::MAX)); self.ctl[ix].fix.push(Fix::At(pc)); }
    }
    fn ret(&mut self) { let n = self.m.funcs[self.f as usize].nr as usize; let from = self.vs.len() - n; let v: Vec<u32> = self.vs[from..].to_vec(); self.code.push(I::Ret(v.into())); }
    fn patch(&mut self, fix: Vec<Fix>) {
        let t = self.code.len() as u32;
        self.barrier = self.code.len();
        for f in fix { match f {
            Fix::At(p) => match &mut self.code[p] { I::Br(x) => *x = t, I::BrIf { t: x, .. } => *x = t, I::BrIfZ { t: x, .. } => *x = t, _ => unreachable!() },
            Fix::Tab(p, j) => if let I::BrTable { t: v, .. } = &mut self.code[p] { v[j] = t },
        } }
    }
    fn dead(&mut self) { // skip to the matching else/end
        let l = self.ctl.len() - 1; self.ctl[l].dead = true;
        let mut depth = 0;
        loop {
            let save = self.r.p;
            let op = self.r.u8();
            match op {
                0x02 | 0x03 | 0x04 => { self.block_type(); depth += 1; }
                0x0b => { if depth == 0 { self.r.p = save; return; } depth -= 1; }
                0x05 => if depth == 0 { self.r.p = save; return; },
                _ => self.skip_imm(op),
            }
        }
    }
    fn skip_imm(&mut self, op: u8) {
        match op {
            0x0c | 0x0d | 0x10 | 0x20..=0x24 | 0xd2 => { self.r.u(); }
            0x0e => { for _ in 0..self.r.u() + 1 { self.r.u(); } }
            0x11 => { self.r.u(); self.r.u(); }
            0x1c => { for _ in 0..self.r.u() { self.r.u8(); } }
            0x28..=0x3e => { self.r.u(); self.r.u(); }
            0x3f | 0x40 => { self.r.u(); }
            0x41 | 0x42 => { self.r.s(); }
            0x43 => { self.r.p += 4; }
            0x44 => { self.r.p += 8; }
            0xfc => match self.r.u() { 0..=7 => {} 10 => { self.r.u(); self.r.u(); } 11 => { self.r.u(); } x => panic!("fc {x}") },
            0xd0 => { self.r.u8(); }
            _ => {}
        }
    }
    fn run(&mut self) {
        let f = &self.m.funcs[self.f as usize];
        self.nloc = f.np;
        let nr = f.nr;
        let ft = self.m.types[f.ty as usize].clone();
        self.lt = ft.p.clone();
        for _ in 0..self.r.u() { let n = self.r.u32(); let t = self.r.u8(); for _ in 0..n { self.lt.push(t); } self.nloc += n; }
        self.ctl.push(Ctl { kind: 2, h: 0, np: 0, nr, pt: vec![], rt: ft.r, start: 0, fix: vec![], els: None, dead: false });
        while self.r.p < self.end {
            let op = self.r.u8();
            match op {
                0x00 => { self.code.push(I::Unreach); self.dead(); }
                0x01 => {}
                0x02 | 0x03 => {
                    let (pt, rt) = self.block_type();
                    let (np, nr) = (pt.len() as u32, rt.len() as u32);
                    self.flush();
                    let h = self.vs.len() as u32 - np;
                    let start = self.code.len() as u32;
                    self.barrier = self.code.len();
                    self.ctl.push(Ctl { kind: op, h, np, nr, pt, rt, start, fix: vec![], els: None, dead: false });
                }
                0x04 => {
                    let (pt, rt) = self.block_type();
                    let (np, nr) = (pt.len() as u32, rt.len() as u32);
                    let c = self.pop();
                    self.flush();
                    let h = self.vs.len() as u32 - np;
                    let pc = self.code.len();
                    self.code.push(I::BrIfZ { c, t: u32::MAX });
                    self.ctl.push(Ctl { kind: 4, h, np, nr, pt, rt, start: 0, fix: vec![], els: Some(pc), dead: false });
                }
                0x05 => {
                    let l = self.ctl.len() - 1;
                    if !self.ctl[l].dead { self.flush(); let pc = self.code.len(); self.code.push(I::Br(u32::MAX)); self.ctl[l].fix.push(Fix::At(pc)); }
                    let e = self.ctl[l].els.take().unwrap();
                    self.patch(vec![Fix::At(e)]);
                    self.ctl[l].dead = false;
                    let (h, pt) = (self.ctl[l].h as usize, self.ctl[l].pt.clone());
                    self.vs.truncate(h); self.vt.truncate(h);
                    assert!(self.vs.len() == h);
                    for t in pt { self.push_slot(t); }
                }
                0x0b => {
                    let dead = self.ctl.last().unwrap().dead;
                    if !dead { self.flush(); }
                    let c = self.ctl.pop().unwrap();
                    if let Some(e) = c.els { self.patch(vec![Fix::At(e)]); }
                    self.patch(c.fix);
                    self.vs.truncate(c.h as usize); self.vt.truncate(c.h as usize);
                    assert!(self.vs.len() == c.h as usize);
                    for t in c.rt { self.push_slot(t); }
                    if self.ctl.is_empty() { self.ret(); break; }
                }
                0x0c => { let d = self.r.u() as usize; self.flush(); self.moves(d); self.br_to(d); self.dead(); }
                0x0d => {
                    let d = self.r.u() as usize; let c = self.pop(); self.flush();
                    if self.needs_moves(d) {
                        let pc = self.code.len(); self.code.push(I::BrIfZ { c, t: u32::MAX });
                        self.moves(d); self.br_to(d); self.patch(vec![Fix::At(pc)]);
                    } else {
                        let ix = self.ctl.len() - 1 - d; let pc = self.code.len();
                        let t = if self.ctl[ix].kind == 3 { self.ctl[ix].start } else { self.ctl[ix].fix.push(Fix::At(pc)); u32::MAX };
                        self.code.push(I::BrIf { c, t });
                    }
                }
                0x0e => {
                    let n = self.r.u() as usize + 1; let ts: Vec<usize> = (0..n).map(|_| self.r.u() as usize).collect();
                    let i = self.pop(); self.flush();
                    let pc = self.code.len(); self.code.push(I::BrTable { i, t: vec![u32::MAX; n].into() });
                    for (j, &d) in ts.iter().enumerate() {
                        if self.needs_moves(d) {
                            let t = self.code.len() as u32; self.barrier = self.code.len(); if let I::BrTable { t: v, .. } = &mut self.code[pc] { v[j] = t; }
                            self.moves(d); self.br_to(d);
                        } else {
                            let ix = self.ctl.len() - 1 - d;
                            if self.ctl[ix].kind == 3 { let s = self.ctl[ix].start; if let I::BrTable { t: v, .. } = &mut self.code[pc] { v[j] = s; } }
                            else { self.ctl[ix].fix.push(Fix::Tab(pc, j)); }
                        }
                    }
                    self.dead();
                }
                0x0f => { self.ret(); self.dead(); }
                0x10 => {
                    let g = self.r.u32(); let (np, nr) = { let t = &self.m.types[self.m.funcs[g as usize].ty as usize]; (t.p.len(), t.r.clone()) };
                    let at = self.vs.len() - np; let args: Vec<u32> = self.vs.drain(at..).collect(); self.vt.truncate(at);
                    let d = self.slot(at); for t in nr { self.push_slot(t); }
                    self.code.push(I::Call { f: g, args: args.into(), d });
                }
                0x11 => {
                    let ty = self.r.u32(); self.r.u(); let i = self.pop();
                    let (np, nr) = { let t = &self.m.types[ty as usize]; (t.p.len(), t.r.clone()) };
                    let at = self.vs.len() - np; let args: Vec<u32> = self.vs.drain(at..).collect(); self.vt.truncate(at);
                    let d = self.slot(at); for t in nr { self.push_slot(t); }
                    self.code.push(I::CallInd { ty, i, args: args.into(), d });
                }
                0x1a => { self.pop(); }
                0x1b | 0x1c => {
                    if op == 0x1c { for _ in 0..self.r.u() { self.r.u8(); } }
                    let c = self.pop(); let b = self.pop(); let t = *self.vt.last().unwrap(); let a = self.pop(); let d = self.push_slot(t);
                    self.code.push(I::Select { d, c, a, b, w64: t == 0x7e || t == 0x7c });
                }
                0x20 => { let l = self.r.u32(); let t = self.lt[l as usize]; self.push(l, t); }
                0x21 => { let l = self.r.u32(); let s = self.pop(); self.flush_local(l); self.set_local(l, s); }
                0x22 => { let l = self.r.u32(); let s = self.pop(); self.flush_local(l); self.set_local(l, s); let t = self.lt[l as usize]; self.push(l, t); }
                0x23 => { let g = self.r.u32(); let t = self.m.globals[g as usize].0; let d = self.push_slot(t); self.code.push(I::GGet { d, g }); }
                0x24 => { let g = self.r.u32(); let s = self.pop(); self.code.push(I::GSet { g, s }); }
                0x28..=0x35 => { self.r.u(); let off = self.r.u32(); let a = self.pop(); let t = match op { 0x28 | 0x2c..=0x2f => 0x7f, 0x2a => 0x7d, 0x2b => 0x7c, _ => 0x7e }; let d = self.push_slot(t); self.code.push(I::Load { op, d, a, off }); }
                0x36..=0x3e => { self.r.u(); let off = self.r.u32(); let v = self.pop(); let a = self.pop(); self.code.push(I::Store { op, a, v, off }); }
                0x3f => { self.r.u(); let d = self.push_slot(0x7f); self.code.push(I::MemSize { d }); }
                0x40 => { self.r.u(); let a = self.pop(); let d = self.push_slot(0x7f); self.code.push(I::MemGrow { d, a }); }
                0x41 => { let v = self.r.s() as i32 as u32 as u64; let k = self.konst(v); self.push(k, 0x7f); }
                0x42 => { let v = self.r.s() as u64; let k = self.konst(v); self.push(k, 0x7e); }
                0x43 => { let v = u32::from_le_bytes(self.r.bytes(4).try_into().unwrap()) as u64; let k = self.konst(v); self.push(k, 0x7d); }
                0x44 => { let v = u64::from_le_bytes(self.r.bytes(8).try_into().unwrap()); let k = self.konst(v); self.push(k, 0x7c); }
                0x45 | 0x50 | 0x67..=0x69 | 0x79..=0x7b | 0x8b..=0x91 | 0x99..=0x9f | 0xa7..=0xc4 => { let a = self.pop(); let d = self.push_slot(un_ty(op)); self.code.push(I::Un { op, d, a }); }
                0x46..=0x4f | 0x51..=0x66 | 0x6a..=0x78 | 0x7c..=0x8a | 0x92..=0x98 | 0xa0..=0xa6 => { let b = self.pop(); let a = self.pop(); let d = self.push_slot(bin_ty(op)); self.code.push(I::Bin { op, d, a, b }); }
                0xfc => match self.r.u() {
                    k @ 0..=7 => { let a = self.pop(); let d = self.push_slot(if k < 4 { 0x7f } else { 0x7e }); self.code.push(I::FTrunc { op: k as u8, d, a }); }
                    10 => { self.r.u(); self.r.u(); let n = self.pop(); let s = self.pop(); let d = self.pop(); self.code.push(I::MemCopy { d, s, n }); }
                    11 => { self.r.u(); let n = self.pop(); let v = self.pop(); let d = self.pop(); self.code.push(I::MemFill { d, v, n }); }
                    x => panic!("fc {x}"),
                },
                x => panic!("opcode {x:x} in {}", self.m.funcs[self.f as usize].name),
            }
        }
    }
    fn set_local(&mut self, l: u32, s: u32) {
        if s == l { return; }
        // retarget the producing instruction when the value was just computed into a stack slot
        if s & K == 0 && s >= self.nloc && self.code.len() > self.barrier {
            if let Some(last) = self.code.last_mut() {
                match last {
                    I::Un { d, .. } | I::Bin { d, .. } | I::Load { d, .. } | I::GGet { d, .. } | I::Select { d, .. } if *d == s => { *d = l; return; }
                    _ => {}
                }
            }
        }
        self.code.push(I::Copy { d: l, s });
    }
}

fn un_ty(op: u8) -> u8 { match op { 0x45 | 0x50 | 0x67..=0x69 | 0xa7..=0xab | 0xbc | 0xc0 | 0xc1 => 0x7f, 0x79..=0x7b | 0xac..=0xb1 | 0xbd | 0xc2..=0xc4 => 0x7e, 0x8b..=0x91 | 0xb2..=0xb6 | 0xbe => 0x7d, _ => 0x7c } }
fn bin_ty(op: u8) -> u8 { match op { 0x46..=0x66 | 0x6a..=0x78 => 0x7f, 0x7c..=0x8a => 0x7e, 0x92..=0x98 => 0x7d, _ => 0x7c } }
