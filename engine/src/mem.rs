//! Copy-on-write byte memory with per-byte symbolic overlay.
use crate::expr::*;
use std::rc::Rc;

pub const PS: usize = 4096;

#[derive(Clone)]
pub struct Page { pub d: [u8; PS], pub s: Option<Box<std::collections::HashMap<u16, E, std::hash::BuildHasherDefault<Fx>>>> }

#[derive(Clone, Default)]
pub struct Mem { pub pages: Vec<Rc<Page>>, pub size: u64 }

#[derive(Clone, Copy, Default, Debug)]
pub struct Val { pub c: u64, pub e: E }
impl Val { pub fn c(c: u64) -> Val { Val { c, e: 0 } } pub fn sym(e: E) -> Val { Val { c: 0, e } } pub fn is_sym(&self) -> bool { self.e != 0 } }

/// a byte string some of whose bytes are symbolic
#[derive(Clone, Default, Debug)]
pub struct SB { pub d: Vec<u8>, pub s: Vec<(u32, E)> }
impl SB {
    pub fn conc(d: &[u8]) -> SB { SB { d: d.to_vec(), s: vec![] } }
    pub fn append(&mut self, o: &SB) { let b = self.d.len() as u32; self.d.extend_from_slice(&o.d); self.s.extend(o.s.iter().map(|(i, e)| (i + b, *e))); }
    pub fn slice(&self, a: usize, n: usize) -> SB { SB { d: self.d[a..a + n].to_vec(), s: self.s.iter().filter(|(i, _)| (*i as usize) >= a && (*i as usize) < a + n).map(|(i, e)| (i - a as u32, *e)).collect() } }
}

impl Mem {
    pub fn new(bytes: u64) -> Mem { let mut m = Mem::default(); m.grow_to(bytes); m }
    pub fn grow_to(&mut self, bytes: u64) {
        thread_local!(static ZERO: Rc<Page> = Rc::new(Page { d: [0; PS], s: None }));
        let n = (bytes as usize + PS - 1) / PS;
        ZERO.with(|z| while self.pages.len() < n { self.pages.push(z.clone()); });
        self.size = bytes;
    }
    #[inline(always)]
    pub fn ok(&self, a: u64, n: u64) -> bool { a + n <= self.size }
    #[inline(always)]
    pub fn load(&self, a: u64, n: usize, ar: &mut Arena) -> Val {
        let (p, o) = ((a as usize) / PS, (a as usize) % PS);
        if o + n <= PS {
            let pg = &self.pages[p];
            if pg.s.is_none() { return Val::c(rd(&pg.d[o..o + n])); }
        }
        self.load_slow(a, n, ar)
    }
    #[cold]
    pub fn load_slow(&self, a: u64, n: usize, ar: &mut Arena) -> Val {
        let mut any = false;
        let mut bs = [Val::default(); 8];
        for i in 0..n { bs[i] = self.byte(a + i as u64); any |= bs[i].e != 0; }
        if !any { let mut r = 0; for i in (0..n).rev() { r = (r << 8) | bs[i].c; } return Val::c(r); }
        let mut acc = if bs[0].e != 0 { bs[0].e } else { ar.cst(bs[0].c, 8) };
        for b in &bs[1..n] { let x = if b.e != 0 { b.e } else { ar.cst(b.c, 8) }; acc = ar.concat(x, acc); }
        if let Some(c) = ar.as_const(acc) { return Val::c(c); }
        Val::sym(acc) // width 8*n
    }
    pub fn byte(&self, a: u64) -> Val {
        let (p, o) = ((a as usize) / PS, (a as usize) % PS);
        let pg = &self.pages[p];
        if let Some(s) = &pg.s { if let Some(&e) = s.get(&(o as u16)) { return Val::sym(e); } }
        Val::c(pg.d[o] as u64)
    }
    pub fn set_byte(&mut self, a: u64, v: Val) {
        let (p, o) = ((a as usize) / PS, (a as usize) % PS);
        let pg = Rc::make_mut(&mut self.pages[p]);
        if v.e != 0 { pg.s.get_or_insert_with(Default::default).insert(o as u16, v.e); pg.d[o] = 0; }
        else { if let Some(s) = &mut pg.s { s.remove(&(o as u16)); if s.is_empty() { pg.s = None; } } pg.d[o] = v.c as u8; }
    }
    #[inline(always)]
    pub fn store(&mut self, a: u64, n: usize, v: Val, ar: &mut Arena) {
        let (p, o) = ((a as usize) / PS, (a as usize) % PS);
        if v.e == 0 && o + n <= PS {
            let pg = Rc::make_mut(&mut self.pages[p]);
            if pg.s.is_none() { pg.d[o..o + n].copy_from_slice(&v.c.to_le_bytes()[..n]); return; }
        }
        self.store_slow(a, n, v, ar)
    }
    #[cold]
    fn store_slow(&mut self, a: u64, n: usize, v: Val, ar: &mut Arena) {
        for i in 0..n {
            let b = if v.e == 0 { Val::c((v.c >> (8 * i)) & 0xff) } else {
                let x = ar.extract(8 * i as u8 + 7, 8 * i as u8, v.e);
                match ar.as_const(x) { Some(c) => Val::c(c), None => Val::sym(x) }
            };
            self.set_byte(a + i as u64, b);
        }
    }
    pub fn read(&self, a: u64, n: usize) -> SB {
        let mut r = SB { d: Vec::with_capacity(n), s: vec![] };
        let mut i = 0;
        while i < n {
            let (p, o) = ((a as usize + i) / PS, (a as usize + i) % PS);
            let k = (PS - o).min(n - i);
            let pg = &self.pages[p];
            r.d.extend_from_slice(&pg.d[o..o + k]);
            if let Some(s) = &pg.s { if s.len() < k { let mut v: Vec<(u32, E)> = s.iter().filter(|(q, _)| (**q as usize) >= o && (**q as usize) < o + k).map(|(q, e)| ((*q as usize - o + i) as u32, *e)).collect(); v.sort(); r.s.extend(v); }
                else { for q in 0..k { if let Some(&e) = s.get(&((o + q) as u16)) { r.s.push(((i + q) as u32, e)); } } } }
            i += k;
        }
        r
    }
    pub fn write(&mut self, a: u64, sb: &SB) {
        let n = sb.d.len();
        let mut i = 0;
        while i < n {
            let (p, o) = ((a as usize + i) / PS, (a as usize + i) % PS);
            let k = (PS - o).min(n - i);
            let pg = Rc::make_mut(&mut self.pages[p]);
            pg.d[o..o + k].copy_from_slice(&sb.d[i..i + k]);
            if let Some(s) = &mut pg.s {
                if k < s.len() { for q in o..o + k { s.remove(&(q as u16)); } } else { s.retain(|q, _| (*q as usize) < o || (*q as usize) >= o + k); }
                if s.is_empty() { pg.s = None; }
            }
            i += k;
        }
        for &(j, e) in &sb.s { self.set_byte(a + j as u64, Val::sym(e)); }
    }
    pub fn fill(&mut self, a: u64, n: usize, v: u8) {
        let mut i = 0;
        while i < n {
            let (p, o) = ((a as usize + i) / PS, (a as usize + i) % PS);
            let k = (PS - o).min(n - i);
            let pg = Rc::make_mut(&mut self.pages[p]);
            for x in &mut pg.d[o..o + k] { *x = v; }
            if let Some(s) = &mut pg.s { s.retain(|q, _| (*q as usize) < o || (*q as usize) >= o + k); if s.is_empty() { pg.s = None; } }
            i += k;
        }
    }
}
fn rd(b: &[u8]) -> u64 { let mut x = [0u8; 8]; x[..b.len()].copy_from_slice(b); u64::from_le_bytes(x) }
