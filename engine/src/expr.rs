//! Hash-consed bit-vector expressions (width 1..=64) with aggressive local simplification.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Rotl, Rotr,
    Eq, Ult, Ule, Slt, Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u64),
    Var(u32),
    Bin(Op, E, E),
    Not(E),                // width-1 negation or bitwise complement
    Extract(u8, u8, E),    // hi, lo
    Concat(E, E),          // hi part, lo part
    Zext(E),
    Sext(E),
    Ite(E, E, E),
    Table(E, u32),         // index (at most 8 bits), table number
}

#[derive(Clone, Copy)]
pub struct Node { pub n: N, pub w: u8, pub ones: u64 }

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<(N, u8), E, std::hash::BuildHasherDefault<Fx>>,
    pub vars: Vec<(String, u8)>,
    pub varset: Vec<std::rc::Rc<Vec<u32>>>,
    pub tru: E,
    pub fal: E,
    pub tabs: Vec<std::rc::Rc<Vec<u64>>>, tabmap: HashMap<Vec<u64>, u32>,
    evc: Vec<(u32, u64)>, // eval cache: stamp, value
    evstamp: u32,
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
}

pub fn mask(w: u8) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
pub fn sx(v: u64, w: u8) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

pub fn eval_bin(op: Op, a: u64, b: u64, w: u8) -> u64 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u64) & m } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u64) & m } }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u64 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u64 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u64 { 63 } else { b }; ((sx(a, w) >> s) as u64) & m }
        Op::Rotl => { let s = b % w as u64; if s == 0 { a } else { ((a << s) | (a >> (w as u64 - s))) & m } }
        Op::Rotr => { let s = b % w as u64; if s == 0 { a } else { ((a >> s) | (a << (w as u64 - s))) & m } }
        Op::Eq => (a == b) as u64,
        Op::Ult => (a < b) as u64,
        Op::Ule => (a <= b) as u64,
        Op::Slt => (sx(a, w) < sx(b, w)) as u64,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u64,
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { nodes: vec![Node { n: N::Const(0), w: 0, ones: 0 }], map: Default::default(), vars: vec![],
            varset: vec![Default::default()], tru: 0, fal: 0, tabs: vec![], tabmap: HashMap::new(), evc: vec![(0, 0)], evstamp: 0 };
        a.fal = a.cst(0, 1);
        a.tru = a.cst(1, 1);
        a
    }
    pub fn w(&self, e: E) -> u8 { self.nodes[e as usize].w }
    pub fn n(&self, e: E) -> N { self.nodes[e as usize].n }
    pub fn ones(&self, e: E) -> u64 { self.nodes[e as usize].ones }
    pub fn as_const(&self, e: E) -> Option<u64> { if let N::Const(c) = self.n(e) { Some(c) } else { None } }

    fn mk(&mut self, n: N, w: u8) -> E {
        if let Some(&e) = self.map.get(&(n, w)) { return e; }
        if let Some(e) = self.collapse(n, w) { return e; }
        let m = mask(w);
        let o = |x: E| self.nodes[x as usize].ones;
        let ones = match n {
            N::Const(c) => c,
            N::Var(_) => m,
            N::Zext(a) => o(a),
            N::Sext(_) => m,
            N::Extract(_, lo, a) => (o(a) >> lo) & m,
            N::Concat(a, b) => (o(a) << self.w(b)) | o(b),
            N::Ite(_, a, b) => o(a) | o(b),
            N::Table(_, t) => self.tabs[t as usize].iter().fold(0, |a, b| a | b),
            N::Not(_) => m,
            N::Bin(op, a, b) => match op {
                Op::And => o(a) & o(b),
                Op::Or | Op::Xor => o(a) | o(b),
                Op::Add => { let s = (o(a) as u128) + (o(b) as u128); if s == 0 { 0 } else { let bits = 128 - s.leading_zeros() as u8; mask(bits.min(64)) & m } }
                Op::Mul => { let s = (o(a) as u128).saturating_mul(o(b) as u128); if s == 0 { 0 } else { let bits = 128 - s.leading_zeros() as u8; mask(bits.min(64)) & m } }
                Op::UDiv => { if let N::Const(k) = self.n(b) { if k > 0 { let s = o(a) / k; if s == 0 { 0 } else { mask(64 - s.leading_zeros() as u8) } } else { m } } else { let s = o(a); if s == 0 {0} else { m } } }
                Op::URem => { if let N::Const(k) = self.n(b) { if k > 1 { mask(64 - (k - 1).leading_zeros() as u8) & m } else { m } } else { m } }
                Op::Shl => if let N::Const(k) = self.n(b) { if k < 64 { (o(a) << k) & m } else { 0 } } else { m },
                Op::LShr => if let N::Const(k) = self.n(b) { if k < 64 { o(a) >> k } else { 0 } } else { let s = o(a); if s == 0 { 0 } else { mask(64 - s.leading_zeros() as u8) } },
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
                _ => m,
            },
        };
        let vs: std::rc::Rc<Vec<u32>> = match n {
            N::Const(_) => self.varset[0].clone(),
            N::Var(v) => std::rc::Rc::new(vec![v]),
            N::Not(a) | N::Extract(_, _, a) | N::Zext(a) | N::Sext(a) | N::Table(a, _) => self.varset[a as usize].clone(),
            N::Concat(a, b) | N::Bin(_, a, b) => self.union(a, b),
            N::Ite(c, a, b) => { let x = self.union(a, b); Self::union_v(&x, &self.varset[c as usize].clone()) }
        };
        let e = self.nodes.len() as E;
        self.nodes.push(Node { n, w, ones });
        self.varset.push(vs);
        self.evc.push((0, 0));
        self.map.insert((n, w), e);
        e
    }
    /// Value of `e` when `idx` is `v`, if `e` is built from constants, `idx` and tables over `idx` only.
    pub fn val_at(&self, e: E, idx: E, v: u64, d: u32) -> Option<u64> {
        if e == idx { return Some(v); }
        let w = self.w(e);
        match self.n(e) {
            N::Const(c) => Some(c),
            N::Table(i, t) if i == idx => Some(self.tabs[t as usize][v as usize]),
            _ if d == 0 => None,
            N::Table(i, t) => self.val_at(i, idx, v, d - 1).map(|x| self.tabs[t as usize][x as usize]),
            N::Zext(a) => self.val_at(a, idx, v, d - 1),
            N::Sext(a) => { let wa = self.w(a); self.val_at(a, idx, v, d - 1).map(|x| sx(x, wa) as u64 & mask(w)) }
            N::Extract(_, lo, a) => self.val_at(a, idx, v, d - 1).map(|x| (x >> lo) & mask(w)),
            N::Not(a) => self.val_at(a, idx, v, d - 1).map(|x| !x & mask(w)),
            N::Concat(a, b) => { let wb = self.w(b); Some((self.val_at(a, idx, v, d - 1)? << wb) | self.val_at(b, idx, v, d - 1)?) }
            N::Bin(op, a, b) => { let wa = self.w(a); Some(eval_bin(op, self.val_at(a, idx, v, d - 1)?, self.val_at(b, idx, v, d - 1)?, wa)) }
            N::Ite(c, a, b) => if self.val_at(c, idx, v, d - 1)? == 1 { self.val_at(a, idx, v, d - 1) } else { self.val_at(b, idx, v, d - 1) },
            N::Var(_) => None,
        }
    }
    fn collapse(&mut self, n: N, w: u8) -> Option<E> {
        let ops: [E; 3] = match n { N::Bin(_, a, b) | N::Concat(a, b) => [a, b, 0], N::Not(a) | N::Extract(_, _, a) | N::Zext(a) | N::Sext(a) => [a, 0, 0], N::Ite(c, a, b) => [c, a, b], _ => return None };
        let mut idx = 0;
        for &o in &ops { if o != 0 { if let N::Table(i, _) = self.n(o) { idx = i; break; } } }
        if idx == 0 { return None; }
        let wi = self.w(idx);
        let f = |s: &Self, v: u64| -> Option<u64> {
            let x = s.val_at(ops[0], idx, v, 3)?;
            Some(match n {
                N::Not(_) => !x & mask(w), N::Extract(_, lo, _) => (x >> lo) & mask(w), N::Zext(_) => x, N::Sext(a) => sx(x, s.w(a)) as u64 & mask(w),
                N::Concat(_, b) => (x << s.w(b)) | s.val_at(b, idx, v, 3)?,
                N::Bin(op, a, b) => eval_bin(op, x, s.val_at(b, idx, v, 3)?, s.w(a)),
                N::Ite(_, a, b) => s.val_at(if x == 1 { a } else { b }, idx, v, 3)?,
                _ => return None,
            })
        };
        f(self, 0)?;
        let mut t = Vec::with_capacity(1 << wi);
        for v in 0..1u64 << wi { t.push(f(self, v)?); }
        Some(self.table(idx, t, w))
    }
    /// The `w`-bit value tab[idx].
    pub fn table(&mut self, idx: E, tab: Vec<u64>, w: u8) -> E {
        let wi = self.w(idx);
        debug_assert_eq!(tab.len(), 1 << wi);
        if let Some(c) = self.as_const(idx) { return self.cst(tab[c as usize], w); }
        if let N::Table(i2, t2) = self.n(idx) { let t: Vec<u64> = self.tabs[t2 as usize].iter().map(|x| tab[*x as usize]).collect(); return self.table(i2, t, w); }
        if tab.iter().all(|x| *x == tab[0]) { return self.cst(tab[0], w); }
        if tab.iter().enumerate().all(|(i, x)| *x == i as u64) { return if w >= wi { self.zext(idx, w) } else { self.extract(w - 1, 0, idx) }; }
        if w == 1 {
            let ones: Vec<u64> = (0..tab.len() as u64).filter(|i| tab[*i as usize] == 1).collect();
            if ones.len() == 1 { let k = self.cst(ones[0], wi); return self.eq(idx, k); }
            if ones.len() + 1 == tab.len() { let z = tab.iter().position(|x| *x == 0).unwrap() as u64; let k = self.cst(z, wi); let e = self.eq(idx, k); return self.not(e); }
            let (lo, hi) = (ones[0], *ones.last().unwrap());
            if hi - lo + 1 == ones.len() as u64 {
                let (l, h) = (self.cst(lo, wi), self.cst(hi, wi));
                let a = self.bin(Op::Ule, l, idx); let b = self.bin(Op::Ule, idx, h);
                return self.and(a, b);
            }
        }
        let t = match self.tabmap.get(&tab) { Some(t) => *t, None => { let t = self.tabs.len() as u32; self.tabmap.insert(tab.clone(), t); self.tabs.push(std::rc::Rc::new(tab)); t } };
        self.mk(N::Table(idx, t), w)
    }
    /// The one narrow (at most 8 bit) sub-expression an address or offset is computed from.
    pub fn narrow(&mut self, e: E) -> Option<E> {
        if self.as_const(e).is_some() { return None; }
        if self.w(e) <= 8 { return Some(e); }
        let r = match self.n(e) {
            N::Zext(a) => self.narrow(a),
            N::Table(i, _) => Some(i),
            N::Concat(a, b) | N::Bin(Op::Add | Op::Sub | Op::Mul | Op::Shl | Op::Or | Op::And | Op::Xor | Op::LShr, a, b) => {
                if self.as_const(a).is_some() { self.narrow(b) } else if self.as_const(b).is_some() { self.narrow(a) } else { None }
            }
            _ => None,
        };
        if r.is_some() { return r; }
        let o = self.ones(e);
        if o != 0 && o <= 0xff { let x = self.extract(7, 0, e); if self.w(x) <= 8 { return Some(x); } }
        None
    }
    fn union(&self, a: E, b: E) -> std::rc::Rc<Vec<u32>> { Self::union_v(&self.varset[a as usize], &self.varset[b as usize]) }
    fn union_v(a: &std::rc::Rc<Vec<u32>>, b: &std::rc::Rc<Vec<u32>>) -> std::rc::Rc<Vec<u32>> {
        if a.is_empty() || std::rc::Rc::ptr_eq(a, b) { return b.clone(); }
        if b.is_empty() { return a.clone(); }
        let mut v: Vec<u32> = Vec::with_capacity(a.len() + b.len());
        v.extend(a.iter()); v.extend(b.iter());
        v.sort(); v.dedup();
        if v.len() == a.len() { return a.clone(); }
        if v.len() == b.len() { return b.clone(); }
        std::rc::Rc::new(v)
    }
    pub fn cst(&mut self, c: u64, w: u8) -> E { self.mk(N::Const(c & mask(w)), w) }
    pub fn var(&mut self, name: String, w: u8) -> E {
        let id = self.vars.len() as u32;
        self.vars.push((name, w));
        self.mk(N::Var(id), w)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        match self.n(a) {
            N::Const(c) => self.cst(!c, w),
            N::Not(b) => b,
            N::Bin(Op::Ult, x, y) if w == 1 => self.bin(Op::Ule, y, x),
            N::Bin(Op::Ule, x, y) if w == 1 => self.bin(Op::Ult, y, x),
            N::Bin(Op::Slt, x, y) if w == 1 => self.bin(Op::Sle, y, x),
            N::Bin(Op::Sle, x, y) if w == 1 => self.bin(Op::Slt, y, x),
            _ => self.mk(N::Not(a), w),
        }
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let wa = self.w(a);
        if wa == w { return a; }
        debug_assert!(wa < w);
        match self.n(a) {
            N::Const(c) => self.cst(c, w),
            N::Zext(b) => self.zext(b, w),
            _ => {
                // narrow if top bits known zero
                let o = self.ones(a);
                if o == 0 { return self.cst(0, w); }
                self.mk(N::Zext(a), w)
            }
        }
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let wa = self.w(a);
        if wa == w { return a; }
        if self.ones(a) >> (wa - 1) & 1 == 0 { return self.zext(a, w); }
        match self.n(a) {
            N::Const(c) => self.cst(sx(c, wa) as u64, w),
            N::Sext(b) => self.sext(b, w),
            _ => self.mk(N::Sext(a), w),
        }
    }
    pub fn extract(&mut self, hi: u8, lo: u8, a: E) -> E {
        let wa = self.w(a);
        let w = hi - lo + 1;
        if w == wa { return a; }
        if (self.ones(a) >> lo) & mask(w) == 0 { return self.cst(0, w); }
        match self.n(a) {
            N::Const(c) => self.cst(c >> lo, w),
            N::Extract(_, l2, b) => self.extract(hi + l2, lo + l2, b),
            N::Concat(h, l) => {
                let wl = self.w(l);
                if hi < wl { self.extract(hi, lo, l) }
                else if lo >= wl { self.extract(hi - wl, lo - wl, h) }
                else { let x = self.extract(hi - wl, 0, h); let y = self.extract(wl - 1, lo, l); self.concat(x, y) }
            }
            N::Zext(b) => {
                let wb = self.w(b);
                if hi < wb { self.extract(hi, lo, b) }
                else if lo >= wb { self.cst(0, w) }
                else { let x = self.extract(wb - 1, lo, b); self.zext(x, w) }
            }
            N::Sext(b) => {
                let wb = self.w(b);
                if hi < wb { self.extract(hi, lo, b) }
                else if lo == 0 { self.sext(b, w) }
                else { self.mk(N::Extract(hi, lo, a), w) }
            }
            N::Not(b) => { let x = self.extract(hi, lo, b); self.not(x) }
            N::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => { let p = self.extract(hi, lo, x); let q = self.extract(hi, lo, y); self.bin(op, p, q) }
            N::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => { let p = self.extract(hi, 0, x); let q = self.extract(hi, 0, y); self.bin(op, p, q) }
            N::Ite(c, x, y) if self.as_const(x).is_some() || self.as_const(y).is_some() => { let p = self.extract(hi, lo, x); let q = self.extract(hi, lo, y); self.ite(c, p, q) }
            _ => self.mk(N::Extract(hi, lo, a), w),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        debug_assert!(w <= 64);
        let (ch, cl) = (self.as_const(h), self.as_const(l));
        if let (Some(a), Some(b)) = (ch, cl) { return self.cst((a << wl) | b, w); }
        if ch == Some(0) { return self.zext(l, w); }
        if let (N::Extract(h1, l1, x), N::Extract(h2, l2, y)) = (self.n(h), self.n(l)) {
            if x == y && l1 == h2 + 1 { return self.extract(h1, l2, x); }
        }
        // (extract(h,m+1,x) ++ (extract(m,l,x) ++ r))
        if let N::Concat(l_hi, l_lo) = self.n(l) {
            if let (N::Extract(h1, l1, x), N::Extract(h2, l2, y)) = (self.n(h), self.n(l_hi)) {
                if x == y && l1 == h2 + 1 { let m = self.extract(h1, l2, x); return self.concat(m, l_lo); }
            }
            if let (Some(a), Some(b)) = (ch, self.as_const(l_hi)) {
                let wb = self.w(l_hi);
                let m = self.cst((a << wb) | b, wh + wb);
                return self.concat(m, l_lo);
            }
        }
        // zext(x') ++ extract: if h = zext(extract(.., m+1, x)) and l = extract(m, l, x)
        if let N::Zext(hi) = self.n(h) {
            let x = self.concat(hi, l);
            return self.zext(x, w);
        }
        // low part is extract(m..0) of x and h is all of the top
        if let N::Concat(hh, hl) = self.n(h) {
            // right-nest
            let r = self.concat(hl, l);
            return self.concat(hh, r);
        }
        // sign replication: h = extract of sext etc. is left alone
        self.mk(N::Concat(h, l), w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if c == self.tru { return a; }
        if c == self.fal { return b; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        if let N::Not(d) = self.n(c) { return self.ite(d, b, a); }
        if let N::Ite(c2, x, _) = self.n(a) { if c2 == c { return self.ite(c, x, b); } }
        if let N::Ite(c2, _, y) = self.n(b) { if c2 == c { return self.ite(c, a, y); } }
        // 0/1 selects become zext(bool)
        if self.as_const(a) == Some(1) && self.as_const(b) == Some(0) { return self.zext(c, w); }
        if self.as_const(a) == Some(0) && self.as_const(b) == Some(1) { let n = self.not(c); return self.zext(n, w); }
        // common known-zero high bits: keep narrow
        let o = self.ones(a) | self.ones(b);
        let nb = if o == 0 { 1 } else { 64 - o.leading_zeros() as u8 };
        if nb < w {
            let x = self.extract(nb - 1, 0, a);
            let y = self.extract(nb - 1, 0, b);
            let i = self.ite(c, x, y);
            return self.zext(i, w);
        }
        self.mk(N::Ite(c, a, b), w)
    }
    fn cannot_be(&self, e: E, k: u64, d: u32) -> bool {
        if k & !self.ones(e) != 0 { return true; }
        match self.n(e) {
            N::Const(c) => c != k,
            N::Ite(_, a, b) if d > 0 => self.cannot_be(a, k, d - 1) && self.cannot_be(b, k, d - 1),
            N::Zext(a) => self.cannot_be(a, k, d),
            N::Sext(a) if d > 0 => { let w = self.w(a); let t = k & mask(w); (sx(t, w) as u64) & mask(self.w(e)) != k || self.cannot_be(a, t, d - 1) }
            N::Concat(h, l) => { let wl = self.w(l); self.cannot_be(h, k >> wl, d) || self.cannot_be(l, k & mask(wl), d) }
            N::Bin(Op::Or, a, b) if d > 0 => self.must_bits(a) & !k != 0 || self.must_bits(b) & !k != 0,
            _ => false,
        }
    }
    /// bits known to be one
    fn must_bits(&self, e: E) -> u64 {
        match self.n(e) {
            N::Const(c) => c,
            N::Zext(a) => self.must_bits(a),
            N::Concat(h, l) => (self.must_bits(h) << self.w(l)) | self.must_bits(l),
            N::Bin(Op::Or, a, b) => self.must_bits(a) | self.must_bits(b),
            _ => 0,
        }
    }
    pub fn min_val(&self, e: E) -> u64 { self.must_bits(e) }
    pub fn eq(&mut self, a: E, b: E) -> E { self.bin(Op::Eq, a, b) }
    pub fn and(&mut self, a: E, b: E) -> E { self.bin(Op::And, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bin(Op::Or, a, b) }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => w };
            return self.cst(eval_bin(op, x, y, w), rw);
        }
        let op = if w == 1 { match op { Op::Add | Op::Sub => Op::Xor, Op::Mul => Op::And, o => o } } else { op };
        match op {
            Op::And => {
                if a == b { return a; }
                if ca.is_some() { return self.bin(Op::And, b, a); }
                if self.ones(a) & self.ones(b) == 0 { return self.cst(0, w); }
                if let Some(m) = cb {
                    let o = self.ones(a);
                    if o & m == o { return a; }
                    if w == 1 { return a; } // m==1
                    let m = m & o;
                    // contiguous run of ones (as seen through possible ones)
                    let mm = cb.unwrap();
                    let lo = mm.trailing_zeros() as u8;
                    let run = (mm >> lo).trailing_ones() as u8;
                    if mm >> lo == mask(run) {
                        let x = self.extract(lo + run - 1, lo, a);
                        let x = if lo > 0 { let z = self.cst(0, lo); self.concat(x, z) } else { x };
                        return self.zext(x, w);
                    }
                    if let N::Bin(Op::And, x, y) = self.n(a) { if let Some(k) = self.as_const(y) { let c = self.cst(k & mm, w); return self.bin(Op::And, x, c); } }
                    let _ = m;
                    // split by runs: and is concat of pieces
                    if let N::Concat(h, l) = self.n(a) {
                        let wl = self.w(l);
                        let (mh, ml) = (self.cst(mm >> wl, w - wl), self.cst(mm, wl));
                        let (x, y) = (self.bin(Op::And, h, mh), self.bin(Op::And, l, ml));
                        return self.concat(x, y);
                    }
                    if let N::Zext(x) = self.n(a) { let wx = self.w(x); let c = self.cst(mm, wx); let y = self.bin(Op::And, x, c); return self.zext(y, w); }
                    return self.mk(N::Bin(Op::And, a, b), w);
                }
                if w == 1 {
                    let (na, nb) = (self.not(a), self.not(b));
                    if na == b || nb == a { return self.fal; }
                    // eq(x,c1) & eq(x,c2)
                    if let (N::Bin(Op::Eq, x, k1), N::Bin(Op::Eq, y, k2)) = (self.n(a), self.n(b)) {
                        if x == y { if let (Some(p), Some(q)) = (self.as_const(k1), self.as_const(k2)) { if p != q { return self.fal; } } }
                    }
                }
                if let (N::Zext(x), N::Zext(y)) = (self.n(a), self.n(b)) {
                    if self.w(x) == self.w(y) { let z = self.bin(Op::And, x, y); return self.zext(z, w); }
                    let (x, y) = if self.w(x) < self.w(y) { (x, y) } else { (y, x) };
                    let y2 = self.extract(self.w(x) - 1, 0, y);
                    let z = self.bin(Op::And, x, y2); return self.zext(z, w);
                }
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                self.mk(N::Bin(op, a, b), w)
            }
            Op::Or => {
                if a == b { return a; }
                if ca.is_some() { return self.bin(Op::Or, b, a); }
                if cb == Some(0) { return a; }
                if cb == Some(mask(w)) { return b; }
                let (oa, ob) = (self.ones(a), self.ones(b));
                if oa & ob == 0 && w > 1 { if let Some(r) = self.disjoint(a, b) { return r; } }
                if w == 1 {
                    let (na, nb) = (self.not(a), self.not(b));
                    if na == b || nb == a { return self.tru; }
                }
                if let (N::Zext(x), N::Zext(y)) = (self.n(a), self.n(b)) {
                    let m = self.w(x).max(self.w(y));
                    let (x, y) = (self.zext(x, m), self.zext(y, m));
                    let z = self.bin(Op::Or, x, y);
                    return self.zext(z, w);
                }
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                self.mk(N::Bin(op, a, b), w)
            }
            Op::Xor => {
                if a == b { return self.cst(0, w); }
                if ca.is_some() { return self.bin(Op::Xor, b, a); }
                if cb == Some(0) { return a; }
                if cb == Some(mask(w)) { return self.not(a); }
                let (oa, ob) = (self.ones(a), self.ones(b));
                if oa & ob == 0 && w > 1 { if let Some(r) = self.disjoint(a, b) { return r; } }
                if let (N::Zext(x), Some(k)) = (self.n(a), cb) {
                    let wx = self.w(x);
                    if k & !mask(wx) == 0 { let c = self.cst(k, wx); let z = self.bin(Op::Xor, x, c); return self.zext(z, w); }
                }
                if let (N::Zext(x), N::Zext(y)) = (self.n(a), self.n(b)) {
                    let m = self.w(x).max(self.w(y));
                    let (x, y) = (self.zext(x, m), self.zext(y, m));
                    let z = self.bin(Op::Xor, x, y);
                    return self.zext(z, w);
                }
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                self.mk(N::Bin(op, a, b), w)
            }
            Op::Add => {
                if ca.is_some() { return self.bin(Op::Add, b, a); }
                if cb == Some(0) { return a; }
                let (oa, ob) = (self.ones(a), self.ones(b));
                if oa & ob == 0 { if let Some(r) = self.disjoint(a, b) { return r; } }
                if let Some(k) = cb {
                    if let N::Bin(Op::Add, x, y) = self.n(a) { if let Some(j) = self.as_const(y) { let c = self.cst(j.wrapping_add(k), w); return self.bin(Op::Add, x, c); } }
                    if let N::Ite(c, x, y) = self.n(a) { if self.as_const(x).is_some() && self.as_const(y).is_some() {
                        let p = self.bin(Op::Add, x, b); let q = self.bin(Op::Add, y, b); return self.ite(c, p, q); } }
                    return self.mk(N::Bin(op, a, b), w);
                }
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                self.mk(N::Bin(op, a, b), w)
            }
            Op::Sub => {
                if a == b { return self.cst(0, w); }
                if let Some(k) = cb { let c = self.cst(k.wrapping_neg(), w); return self.bin(Op::Add, a, c); }
                self.mk(N::Bin(op, a, b), w)
            }
            Op::Mul => {
                if ca.is_some() { return self.bin(Op::Mul, b, a); }
                if let Some(k) = cb {
                    if k == 0 { return b; }
                    if k == 1 { return a; }
                    if k.is_power_of_two() { let c = self.cst(k.trailing_zeros() as u64, w); return self.bin(Op::Shl, a, c); }
                }
                self.mk(N::Bin(op, a, b), w)
            }
            Op::UDiv => {
                if let Some(k) = cb {
                    if k == 1 { return a; }
                    if k.is_power_of_two() { let c = self.cst(k.trailing_zeros() as u64, w); return self.bin(Op::LShr, a, c); }
                    if self.ones(a) < k { return self.cst(0, w); }
                }
                self.mk(N::Bin(op, a, b), w)
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k == 1 { return self.cst(0, w); }
                    if k.is_power_of_two() { let c = self.cst(k - 1, w); return self.bin(Op::And, a, c); }
                    if self.ones(a) < k { return a; }
                }
                self.mk(N::Bin(op, a, b), w)
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k == 0 { return a; }
                    if k >= w as u64 { return self.cst(0, w); }
                    let k = k as u8;
                    let x = self.extract(w - 1 - k, 0, a);
                    let z = self.cst(0, k);
                    return self.concat(x, z);
                }
                self.mk(N::Bin(op, a, b), w)
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k == 0 { return a; }
                    if k >= w as u64 { return self.cst(0, w); }
                    let x = self.extract(w - 1, k as u8, a);
                    return self.zext(x, w);
                }
                self.mk(N::Bin(op, a, b), w)
            }
            Op::AShr => {
                if self.ones(a) >> (w - 1) & 1 == 0 { return self.bin(Op::LShr, a, b); }
                if let Some(k) = cb {
                    if k == 0 { return a; }
                    let k = k.min(w as u64 - 1);
                    let x = self.extract(w - 1, k as u8, a);
                    return self.sext(x, w);
                }
                self.mk(N::Bin(op, a, b), w)
            }
            Op::Rotl => {
                if let Some(k) = cb { let k = (k % w as u64) as u8; if k == 0 { return a; }
                    let (x, y) = (self.extract(w - 1 - k, 0, a), self.extract(w - 1, w - k, a)); return self.concat(x, y); }
                self.mk(N::Bin(op, a, b), w)
            }
            Op::Rotr => {
                if let Some(k) = cb { let k = (k % w as u64) as u8; if k == 0 { return a; }
                    let (x, y) = (self.extract(k - 1, 0, a), self.extract(w - 1, k, a)); return self.concat(x, y); }
                self.mk(N::Bin(op, a, b), w)
            }
            Op::SDiv | Op::SRem => self.mk(N::Bin(op, a, b), w),
            Op::Eq => {
                if a == b { return self.tru; }
                if ca.is_some() { return self.bin(Op::Eq, b, a); }
                if let Some(k) = cb {
                    if self.cannot_be(a, k, 6) { return self.fal; }
                    if w == 1 { return if k == 1 { a } else { self.not(a) }; }
                    match self.n(a) {
                        N::Zext(x) => { let c = self.cst(k, self.w(x)); return self.bin(Op::Eq, x, c); }
                        N::Sext(x) => { let c = self.cst(k, self.w(x)); return self.bin(Op::Eq, x, c); }
                        N::Not(x) => { let c = self.cst(!k, w); return self.bin(Op::Eq, x, c); }
                        N::Concat(h, l) => {
                            let wl = self.w(l);
                            let (c1, c2) = (self.cst(k >> wl, w - wl), self.cst(k, wl));
                            let (p, q) = (self.bin(Op::Eq, h, c1), self.bin(Op::Eq, l, c2));
                            return self.bin(Op::And, p, q);
                        }
                        N::Bin(Op::Add, x, y) => if let Some(j) = self.as_const(y) { let c = self.cst(k.wrapping_sub(j), w); return self.bin(Op::Eq, x, c); },
                        N::Bin(Op::Xor, x, y) => {
                            if k == 0 { return self.bin(Op::Eq, x, y); }
                            if let Some(j) = self.as_const(y) { let c = self.cst(k ^ j, w); return self.bin(Op::Eq, x, c); }
                        }
                        N::Bin(Op::Sub, x, y) => if k == 0 { return self.bin(Op::Eq, x, y); },
                        N::Bin(Op::Or, x, y) => if k == 0 { let (p, q) = (self.bin(Op::Eq, x, b), self.bin(Op::Eq, y, b)); return self.bin(Op::And, p, q); },
                        N::Ite(c, x, y) => {
                            if self.cannot_be(y, k, 6) { let p = self.bin(Op::Eq, x, b); return self.bin(Op::And, c, p); }
                            if self.cannot_be(x, k, 6) { let p = self.bin(Op::Eq, y, b); let n = self.not(c); return self.bin(Op::And, n, p); }
                            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                                let p = self.bin(Op::Eq, x, b); let q = self.bin(Op::Eq, y, b); return self.ite(c, p, q);
                            }
                        }
                        _ => {}
                    }
                    return self.mk(N::Bin(op, a, b), 1);
                }
                match (self.n(a), self.n(b)) {
                    (N::Zext(x), N::Zext(y)) => {
                        let (wx, wy) = (self.w(x), self.w(y));
                        let m = wx.max(wy);
                        if m < w { let (x, y) = (self.zext(x, m), self.zext(y, m)); return self.bin(Op::Eq, x, y); }
                    }
                    (N::Concat(h, l), N::Concat(h2, l2)) if self.w(l) == self.w(l2) => {
                        let (p, q) = (self.bin(Op::Eq, h, h2), self.bin(Op::Eq, l, l2));
                        return self.bin(Op::And, p, q);
                    }
                    (N::Concat(h, l), N::Zext(_)) | (N::Zext(_), N::Concat(h, l)) => {
                        let z = if matches!(self.n(a), N::Zext(_)) { a } else { b };
                        let wl = self.w(l);
                        let (zh, zl) = (self.extract(w - 1, wl, z), self.extract(wl - 1, 0, z));
                        let (p, q) = (self.bin(Op::Eq, h, zh), self.bin(Op::Eq, l, zl));
                        return self.bin(Op::And, p, q);
                    }
                    _ => {}
                }
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                self.mk(N::Bin(op, a, b), 1)
            }
            Op::Ult => {
                if a == b { return self.fal; }
                if let Some(k) = cb {
                    if k == 0 { return self.fal; }
                    if self.ones(a) < k { return self.tru; }
                    if self.min_val(a) >= k { return self.fal; }
                    if k == 1 { let z = self.cst(0, w); return self.bin(Op::Eq, a, z); }
                    if k == mask(w) { let e = self.bin(Op::Eq, a, b); return self.not(e); }
                    if w == 1 { return self.not(a); }
                    if let N::Zext(x) = self.n(a) { let wx = self.w(x); let c = self.cst(k, wx); return self.bin(Op::Ult, x, c); }
                }
                if let Some(k) = ca {
                    if k == mask(w) { return self.fal; }
                    if self.ones(b) <= k { return self.fal; }
                    if self.min_val(b) > k { return self.tru; }
                    if k == 0 { let z = self.cst(0, w); let e = self.bin(Op::Eq, b, z); return self.not(e); }
                    if let N::Zext(x) = self.n(b) { let wx = self.w(x); let c = self.cst(k, wx); return self.bin(Op::Ult, c, x); }
                }
                if let (N::Zext(x), N::Zext(y)) = (self.n(a), self.n(b)) {
                    let m = self.w(x).max(self.w(y));
                    let (x, y) = (self.zext(x, m), self.zext(y, m));
                    return self.bin(Op::Ult, x, y);
                }
                self.mk(N::Bin(op, a, b), 1)
            }
            Op::Ule => {
                if a == b { return self.tru; }
                if let Some(k) = cb { if k == mask(w) { return self.tru; } let c = self.cst(k + 1, w); return self.bin(Op::Ult, a, c); }
                if let Some(k) = ca { if k == 0 { return self.tru; } let c = self.cst(k - 1, w); return self.bin(Op::Ult, c, b); }
                if let (N::Zext(x), N::Zext(y)) = (self.n(a), self.n(b)) {
                    let m = self.w(x).max(self.w(y));
                    let (x, y) = (self.zext(x, m), self.zext(y, m));
                    return self.bin(Op::Ule, x, y);
                }
                self.mk(N::Bin(op, a, b), 1)
            }
            Op::Slt | Op::Sle => {
                if a == b { return if op == Op::Sle { self.tru } else { self.fal }; }
                let top = 1u64 << (w - 1);
                if self.ones(a) & top == 0 && self.ones(b) & top == 0 {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                // slt(x,0) is the sign bit
                if op == Op::Slt && cb == Some(0) { return self.extract(w - 1, w - 1, a); }
                if op == Op::Slt && ca == Some(mask(w)) { let e = self.extract(w - 1, w - 1, b); return self.not(e); }
                if op == Op::Sle && ca == Some(0) { let e = self.extract(w - 1, w - 1, b); return self.not(e); }
                if op == Op::Sle && cb == Some(mask(w)) { return self.extract(w - 1, w - 1, a); }
                if let N::Ite(c, x, y) = self.n(a) { if cb.is_some() && self.as_const(x).is_some() && self.as_const(y).is_some() {
                    let p = self.bin(op, x, b); let q = self.bin(op, y, b); return self.ite(c, p, q); } }
                self.mk(N::Bin(op, a, b), 1)
            }
        }
    }
    /// a|b, a+b, a^b with no common possible ones
    fn disjoint(&mut self, a: E, b: E) -> Option<E> {
        let (oa, ob) = (self.ones(a), self.ones(b));
        if oa == 0 { return Some(b); }
        if ob == 0 { return Some(a); }
        let w = self.w(a);
        for (x, ox, y, oy) in [(a, oa, b, ob), (b, ob, a, oa)] {
            // y strictly below x
            let k = 64 - oy.leading_zeros() as u8;
            if ox.trailing_zeros() as u8 >= k && k < w {
                let h = self.extract(w - 1, k, x);
                let l = self.extract(k - 1, 0, y);
                return Some(self.concat(h, l));
            }
        }
        None
    }

    pub fn eval(&mut self, e: E, model: &[u64]) -> u64 {
        self.evstamp += 1;
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u64]) -> u64 {
        let nd = self.nodes[e as usize];
        if let N::Const(c) = nd.n { return c; }
        if let N::Var(v) = nd.n { return model.get(v as usize).copied().unwrap_or(0) & mask(nd.w); }
        let (st, v) = self.evc[e as usize];
        if st == self.evstamp { return v; }
        let r = match nd.n {
            N::Const(_) | N::Var(_) => unreachable!(),
            N::Not(a) => !self.ev(a, model) & mask(nd.w),
            N::Extract(_, lo, a) => (self.ev(a, model) >> lo) & mask(nd.w),
            N::Concat(a, b) => { let wb = self.w(b); (self.ev(a, model) << wb) | self.ev(b, model) }
            N::Zext(a) => self.ev(a, model),
            N::Sext(a) => { let wa = self.w(a); (sx(self.ev(a, model), wa) as u64) & mask(nd.w) }
            N::Table(i, t) => { let x = self.ev(i, model); self.tabs[t as usize][x as usize] }
            N::Ite(c, a, b) => if self.ev(c, model) == 1 { self.ev(a, model) } else { self.ev(b, model) },
            N::Bin(op, a, b) => { let wa = self.w(a); let x = self.ev(a, model); let y = self.ev(b, model); eval_bin(op, x, y, wa) }
        };
        self.evc[e as usize] = (self.evstamp, r);
        r
    }
    pub fn show(&self, e: E, d: u32) -> String {
        if d == 0 { return "..".into(); }
        match self.n(e) {
            N::Const(c) => format!("{}", c),
            N::Var(v) => self.vars[v as usize].0.clone(),
            N::Not(a) => format!("!{}", self.show(a, d - 1)),
            N::Extract(h, l, a) => format!("{}[{}:{}]", self.show(a, d - 1), h, l),
            N::Concat(a, b) => format!("({}++{})", self.show(a, d - 1), self.show(b, d - 1)),
            N::Zext(a) => format!("z{}({})", self.w(e), self.show(a, d - 1)),
            N::Sext(a) => format!("s{}({})", self.w(e), self.show(a, d - 1)),
            N::Ite(c, a, b) => format!("ite({},{},{})", self.show(c, d - 1), self.show(a, d - 1), self.show(b, d - 1)),
            N::Table(i, t) => format!("T{}[{}]", t, self.show(i, d - 1)),
            N::Bin(o, a, b) => format!("({:?} {} {})", o, self.show(a, d - 1), self.show(b, d - 1)),
        }
    }
}
