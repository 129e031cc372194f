//! Hash-consed bit-vector expressions with light simplification, plus the Z3 back end.
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_uint, c_void};

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Bin(B, Id, Id),
    Ite(Id, Id, Id),
    Ext(Id, u16),
    Cat(Id, Id),
    Zx(Id),
    Sx(Id),
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn bin_c(op: B, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        B::Add => a.wrapping_add(b) & m,
        B::Sub => a.wrapping_sub(b) & m,
        B::Mul => a.wrapping_mul(b) & m,
        B::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        B::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        B::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        B::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        B::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        B::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => {
            let x = sx(a, w);
            let k = if b >= w as u128 { w - 1 } else { b as u32 };
            ((x >> k.min(127)) as u128) & m
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Eq => (a == b) as u128,
        B::Ult => (a < b) as u128,
        B::Ule => (a <= b) as u128,
        B::Slt => (sx(a, w) < sx(b, w)) as u128,
        B::Sle => (sx(a, w) <= sx(b, w)) as u128,
    }
}
fn is_cmp(op: B) -> bool {
    matches!(op, B::Eq | B::Ult | B::Ule | B::Slt | B::Sle)
}

pub struct Pool {
    pub nodes: Vec<(N, u16)>,
    map: HashMap<(N, u16), Id, std::hash::BuildHasherDefault<Fx>>,
    ev_gen: Vec<u32>,
    ev_val: Vec<u128>,
    gen: u32,
    sup: Vec<u32>, // NONE, MANY or the only byte variable the node depends on
}
pub const NONE: u32 = u32::MAX;
pub const MANY: u32 = u32::MAX - 1;

#[derive(Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            nodes: vec![],
            map: HashMap::default(),
            ev_gen: vec![],
            ev_val: vec![],
            gen: 0,
            sup: vec![],
        };
        p.raw(N::Const(0), 1); // id 0 reserved
        p
    }
    #[inline]
    pub fn w(&self, i: Id) -> u32 {
        self.nodes[i as usize].1 as u32
    }
    #[inline]
    pub fn n(&self, i: Id) -> N {
        self.nodes[i as usize].0
    }
    pub fn c(&self, i: Id) -> Option<u128> {
        match self.n(i) {
            N::Const(c) => Some(c),
            _ => None,
        }
    }
    fn raw(&mut self, n: N, w: u32) -> Id {
        let k = (n, w as u16);
        if let Some(i) = self.map.get(&k) {
            return *i;
        }
        let i = self.nodes.len() as Id;
        self.nodes.push(k);
        self.ev_gen.push(0);
        self.ev_val.push(0);
        let j = |x: u32, y: u32| if x == NONE { y } else if y == NONE || x == y { x } else { MANY };
        let s = |q: Id| self.sup[q as usize];
        let sp = match n {
            N::Const(_) => NONE,
            N::Var(v) => v,
            N::Bin(_, a, b) | N::Cat(a, b) => j(s(a), s(b)),
            N::Ite(c, a, b) => j(s(c), j(s(a), s(b))),
            N::Ext(a, _) | N::Zx(a) | N::Sx(a) => s(a),
        };
        self.sup.push(sp);
        self.map.insert(k, i);
        i
    }
    pub fn sup(&self, i: Id) -> u32 {
        self.sup[i as usize]
    }
    /// replace byte variables by constants
    pub fn subst(&mut self, e: Id, f: &dyn Fn(u32) -> Option<u8>, memo: &mut HashMap<Id, Id>) -> Id {
        match self.sup(e) {
            NONE => return e,
            MANY => {}
            v => {
                if f(v).is_none() {
                    return e;
                }
            }
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let w = self.w(e);
        let r = match self.n(e) {
            N::Const(_) => e,
            N::Var(k) => match f(k) {
                Some(v) => self.konst(v as u128, 8),
                None => e,
            },
            N::Bin(op, a, b) => {
                let x = self.subst(a, f, memo);
                let y = self.subst(b, f, memo);
                if (x, y) == (a, b) { e } else { self.bin(op, x, y) }
            }
            N::Ite(c, a, b) => {
                let q = self.subst(c, f, memo);
                match self.c(q) {
                    Some(0) => self.subst(b, f, memo),
                    Some(_) => self.subst(a, f, memo),
                    None => {
                        let x = self.subst(a, f, memo);
                        let y = self.subst(b, f, memo);
                        if (q, x, y) == (c, a, b) { e } else { self.ite(q, x, y) }
                    }
                }
            }
            N::Ext(a, lo) => {
                let x = self.subst(a, f, memo);
                if x == a { e } else { self.ext(x, lo as u32, w) }
            }
            N::Cat(h, l) => {
                let x = self.subst(h, f, memo);
                let y = self.subst(l, f, memo);
                if (x, y) == (h, l) { e } else { self.cat(x, y) }
            }
            N::Zx(a) => {
                let x = self.subst(a, f, memo);
                if x == a { e } else { self.zx(x, w) }
            }
            N::Sx(a) => {
                let x = self.subst(a, f, memo);
                if x == a { e } else { self.sxt(x, w) }
            }
        };
        memo.insert(e, r);
        r
    }
    /// all byte variables of an expression
    pub fn vars(&self, i: Id, out: &mut Vec<u32>) {
        let mut seen = std::collections::HashSet::new();
        let mut w = vec![i];
        while let Some(x) = w.pop() {
            match self.sup(x) {
                NONE => continue,
                MANY => {}
                v => {
                    if !out.contains(&v) {
                        out.push(v);
                    }
                    continue;
                }
            }
            if !seen.insert(x) {
                continue;
            }
            match self.n(x) {
                N::Const(_) | N::Var(_) => {}
                N::Bin(_, a, b) | N::Cat(a, b) => {
                    w.push(a);
                    w.push(b)
                }
                N::Ite(c, a, b) => {
                    w.push(c);
                    w.push(a);
                    w.push(b)
                }
                N::Ext(a, _) | N::Zx(a) | N::Sx(a) => w.push(a),
            }
        }
    }
    pub fn konst(&mut self, v: u128, w: u32) -> Id {
        self.raw(N::Const(v & mask(w)), w)
    }
    pub fn var(&mut self, k: u32) -> Id {
        self.raw(N::Var(k), 8)
    }
    pub fn not(&mut self, a: Id) -> Id {
        let w = self.w(a);
        let m = self.konst(mask(w), w);
        self.bin(B::Xor, a, m)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(v) = self.c(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        assert_eq!(w, self.w(b));
        if w == 1 {
            if let (Some(x), Some(y)) = (self.c(a), self.c(b)) {
                if x == 1 && y == 0 {
                    return c;
                }
                if x == 0 && y == 1 {
                    return self.not(c);
                }
            }
            // boolean forms
            if self.c(a) == Some(1) {
                return self.bin(B::Or, c, b);
            }
            if self.c(a) == Some(0) {
                let nc = self.not(c);
                return self.bin(B::And, nc, b);
            }
            if self.c(b) == Some(0) {
                return self.bin(B::And, c, a);
            }
            if self.c(b) == Some(1) {
                let nc = self.not(c);
                return self.bin(B::Or, nc, a);
            }
        }
        self.raw(N::Ite(c, a, b), w)
    }
    pub fn zx(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        assert!(w > aw);
        match self.n(a) {
            N::Const(c) => self.konst(c, w),
            N::Zx(b) => self.raw(N::Zx(b), w),
            _ => self.raw(N::Zx(a), w),
        }
    }
    pub fn sxt(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.n(a) {
            N::Const(c) => self.konst(sx(c, aw) as u128, w),
            N::Zx(b) => self.zx(b, w),
            N::Sx(b) => self.raw(N::Sx(b), w),
            _ => self.raw(N::Sx(a), w),
        }
    }
    /// extract `w` bits starting at bit `lo`
    pub fn ext(&mut self, a: Id, lo: u32, w: u32) -> Id {
        let aw = self.w(a);
        assert!(lo + w <= aw, "ext {lo}+{w} of {aw}");
        if w == aw {
            return a;
        }
        match self.n(a) {
            N::Const(c) => self.konst(c >> lo, w),
            N::Ext(b, l2) => self.ext(b, lo + l2 as u32, w),
            N::Cat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    self.ext(h, lo - lw, w)
                } else if lo + w <= lw {
                    self.ext(l, lo, w)
                } else {
                    let lp = self.ext(l, lo, lw - lo);
                    let hp = self.ext(h, 0, lo + w - lw);
                    self.cat(hp, lp)
                }
            }
            N::Zx(b) => {
                let bw = self.w(b);
                if lo >= bw {
                    self.konst(0, w)
                } else if lo + w <= bw {
                    self.ext(b, lo, w)
                } else {
                    let p = self.ext(b, lo, bw - lo);
                    self.zx(p, w)
                }
            }
            N::Sx(b) if lo + w <= self.w(b) => self.ext(b, lo, w),
            N::Ite(c, x, y) if self.c(x).is_some() || self.c(y).is_some() => {
                let x = self.ext(x, lo, w);
                let y = self.ext(y, lo, w);
                self.ite(c, x, y)
            }
            N::Bin(op @ (B::And | B::Or | B::Xor), x, y) => {
                let x = self.ext(x, lo, w);
                let y = self.ext(y, lo, w);
                self.bin(op, x, y)
            }
            // (a product of two unknowns keeps its identity)
            N::Bin(op @ (B::Add | B::Sub | B::Mul), x, y)
                if lo == 0 && (op != B::Mul || self.c(x).is_some() || self.c(y).is_some()) =>
            {
                let x = self.ext(x, 0, w);
                let y = self.ext(y, 0, w);
                self.bin(op, x, y)
            }
            _ => self.raw(N::Ext(a, lo as u16), w),
        }
    }
    /// extract that keeps the identity of an arithmetic expression, so that the bytes
    /// of a stored value merge back into it
    pub fn ext_keep(&mut self, a: Id, lo: u32, w: u32) -> Id {
        if w == self.w(a) {
            return a;
        }
        let e = self.ext(a, lo, w);
        match (self.n(a), self.n(e)) {
            (_, N::Const(_) | N::Ext(..) | N::Var(_)) => e,
            (N::Bin(..) | N::Ite(..), _) => self.raw(N::Ext(a, lo as u16), w),
            _ => e,
        }
    }
    pub fn cat(&mut self, h: Id, l: Id) -> Id {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        assert!(w <= 128, "concat too wide");
        match (self.n(h), self.n(l)) {
            (N::Const(a), N::Const(b)) => return self.konst((a << lw) | b, w),
            (N::Const(0), _) => return self.zx(l, w),
            (N::Ext(a, la), N::Ext(b, lb)) if a == b && la as u32 == lb as u32 + lw => {
                return self.ext_keep(a, lb as u32, w)
            }
            (N::Ext(a, la), _) if a == l && la as u32 == lw => return self.ext_keep(a, 0, w),
            (N::Ext(a, la), N::Bin(B::Add | B::Sub | B::Mul, ..))
                if la as u32 == lw && matches!(self.n(a), N::Bin(B::Add | B::Sub | B::Mul, ..)) && self.ext(a, 0, lw) == l =>
            {
                return self.ext_keep(a, 0, w)
            }
            (N::Zx(a), _) => {
                let x = self.cat(a, l);
                return self.zx(x, w);
            }
            (_, N::Cat(b, c)) => {
                // right-assoc normalise to merge adjacent extracts
                let merged = match (self.n(h), self.n(b)) {
                    (N::Ext(x, lx), N::Ext(y, ly)) => {
                        x == y && lx as u32 == ly as u32 + self.w(b)
                    }
                    (N::Const(_), N::Const(_)) => true,
                    _ => false,
                };
                if merged {
                    let hb = self.cat(h, b);
                    return self.cat(hb, c);
                }
            }
            (N::Ite(c, x, y), N::Ite(c2, x2, y2)) if c == c2 => {
                let x = self.cat(x, x2);
                let y = self.cat(y, y2);
                return self.ite(c, x, y);
            }
            _ => {}
        }
        self.raw(N::Cat(h, l), w)
    }
    /// width outside which the value is known to be zero
    fn zw(&self, a: Id) -> u32 {
        match self.n(a) {
            N::Const(k) => 128 - k.leading_zeros(),
            N::Zx(x) => self.w(x),
            N::Bin(B::Add, x, y) => (self.zw(x).max(self.zw(y)) + 1).min(self.w(a)),
            N::Bin(B::UDiv, x, _) => self.zw(x),
            _ => self.w(a),
        }
    }
    /// width outside which the value is known to be its sign
    fn sw(&self, a: Id) -> u32 {
        let w = self.w(a);
        match self.n(a) {
            N::Const(k) => {
                let v = ((k << (128 - w)) as i128) >> (128 - w);
                129 - (if v < 0 { !v } else { v }).leading_zeros()
            }
            N::Zx(x) => self.w(x) + 1,
            N::Sx(x) => self.w(x),
            _ => w,
        }
    }
    pub fn bin(&mut self, op: B, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        assert_eq!(w, self.w(b), "width mismatch {:?}", op);
        let rw = if is_cmp(op) { 1 } else { w };
        if let (Some(x), Some(y)) = (self.c(a), self.c(b)) {
            let v = bin_c(op, w, x, y);
            return self.konst(v, rw);
        }
        let comm = matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor | B::Eq);
        if comm && (self.c(a).is_some() || (self.c(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let cb = self.c(b);
        let ca = self.c(a);
        let m = mask(w);
        // ite with constant arms against a constant: push inside
        if let (Some(_), N::Ite(c, x, y)) = (cb, self.n(a)) {
            if (self.c(x).is_some() && self.c(y).is_some()) || (rw == 1 && (self.c(x).is_some() || self.c(y).is_some())) {
                let x = self.bin(op, x, b);
                let y = self.bin(op, y, b);
                return self.ite(c, x, y);
            }
        }
        if let (Some(_), N::Ite(c, x, y)) = (ca, self.n(b)) {
            if self.c(x).is_some() && self.c(y).is_some() {
                let x = self.bin(op, a, x);
                let y = self.bin(op, a, y);
                return self.ite(c, x, y);
            }
        }
        // narrow multiplications and divisions of zero- (or sign-) extended operands
        if w > 8 && matches!(op, B::Mul | B::UDiv | B::URem) {
            let (za, zb) = (self.zw(a), self.zw(b));
            let nw = if op == B::Mul { za + zb } else { za.max(zb) };
            if nw < w && nw > 0 && !(op == B::Mul && cb.is_some_and(|k| k.is_power_of_two())) {
                let (x, y) = (self.ext(a, 0, nw), self.ext(b, 0, nw));
                let r = self.bin(op, x, y);
                return self.zx(r, w);
            }
        }
        if w > 8 && matches!(op, B::SDiv | B::SRem | B::Mul) {
            let (za, zb) = (self.sw(a), self.sw(b));
            let nw = if op == B::Mul { za + zb } else { za.max(zb) + 1 };
            if nw < w && !(op == B::Mul && cb.is_some_and(|k| k.is_power_of_two())) {
                let (x, y) = (self.ext(a, 0, nw), self.ext(b, 0, nw));
                let r = self.bin(op, x, y);
                return self.sxt(r, w);
            }
        }
        match op {
            B::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let (Some(k), N::Bin(B::Add, x, y)) = (cb, self.n(a)) {
                    if let Some(k2) = self.c(y) {
                        let k = self.konst(k.wrapping_add(k2), w);
                        return self.bin(B::Add, x, k);
                    }
                }
                if let Some(r) = self.disjoint_or(a, b) {
                    return r;
                }
            }
            B::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = cb {
                    let k = self.konst(k.wrapping_neg(), w);
                    return self.bin(B::Add, a, k);
                }
            }
            B::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(B::Shl, a, s);
                    }
                }
            }
            B::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(B::LShr, a, s);
                    }
                }
            }
            B::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(k - 1, w);
                        return self.bin(B::And, a, s);
                    }
                }
            }
            B::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    // low mask
                    let t = (k + 1).trailing_zeros();
                    if k & (k + 1) == 0 {
                        let x = self.ext(a, 0, t);
                        return self.zx(x, w);
                    }
                    match self.n(a) {
                        N::Zx(x) => {
                            let xw = self.w(x);
                            let kk = self.konst(k, xw);
                            let r = self.bin(B::And, x, kk);
                            return self.zx(r, w);
                        }
                        N::Bin(B::And, x, y) if self.c(y).is_some() => {
                            let kk = self.konst(k & self.c(y).unwrap(), w);
                            return self.bin(B::And, x, kk);
                        }
                        N::Cat(h, l) => {
                            let (hw, lw) = (self.w(h), self.w(l));
                            let kh = self.konst(k >> lw, hw);
                            let kl = self.konst(k, lw);
                            let h = self.bin(B::And, h, kh);
                            let l = self.bin(B::And, l, kl);
                            return self.cat(h, l);
                        }
                        _ => {}
                    }
                    // contiguous mask
                    let lo = k.trailing_zeros();
                    let kk = k >> lo;
                    if kk & (kk + 1) == 0 {
                        let n = (kk + 1).trailing_zeros();
                        let x = self.ext(a, lo, n);
                        let z = self.konst(0, lo);
                        let x = self.cat(x, z);
                        return self.zx(x, w);
                    }
                }
                if w == 1 {
                    let nb = self.not(b);
                    if nb == a {
                        return self.konst(0, 1);
                    }
                }
            }
            B::Or => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if w == 1 {
                    let nb = self.not(b);
                    if nb == a {
                        return self.konst(1, 1);
                    }
                }
                if let Some(r) = self.disjoint_or(a, b) {
                    return r;
                }
            }
            B::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if cb == Some(0) {
                    return a;
                }
                if let (Some(k), N::Bin(B::Xor, x, y)) = (cb, self.n(a)) {
                    if let Some(k2) = self.c(y) {
                        let k = self.konst(k ^ k2, w);
                        return self.bin(B::Xor, x, k);
                    }
                }
                if w == 1 && cb == Some(1) {
                    // push negation into comparisons
                    if let N::Bin(o @ (B::Ult | B::Ule | B::Slt | B::Sle), x, y) = self.n(a) {
                        let o2 = match o {
                            B::Ult => B::Ule,
                            B::Ule => B::Ult,
                            B::Slt => B::Sle,
                            _ => B::Slt,
                        };
                        return self.bin(o2, y, x);
                    }
                }
                if let (Some(k), N::Zx(x)) = (cb, self.n(a)) {
                    let xw = self.w(x);
                    if k <= mask(xw) {
                        let kk = self.konst(k, xw);
                        let r = self.bin(B::Xor, x, kk);
                        return self.zx(r, w);
                    }
                }
            }
            B::Shl => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let x = self.ext(a, 0, w - k as u32);
                    let z = self.konst(0, k as u32);
                    return self.cat(x, z);
                }
            }
            B::LShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let x = self.ext(a, k as u32, w - k as u32);
                    return self.zx(x, w);
                }
            }
            B::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    let k = k.min(w as u128 - 1) as u32;
                    let x = self.ext(a, k, w - k);
                    return self.sxt(x, w);
                }
            }
            B::Eq => {
                // x = zero-extended low part of x: x is no larger than that part can be
                for (p, q) in [(a, b), (b, a)] {
                    if let N::Zx(l) = self.n(q) {
                        if let N::Ext(e, 0) = self.n(l) {
                            if e == p {
                                let k = self.konst(mask(self.w(l)), w);
                                return self.bin(B::Ule, p, k);
                            }
                        }
                    }
                }
                if a == b {
                    return self.konst(1, 1);
                }
                if let Some(k) = cb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match self.n(a) {
                        N::Zx(x) => {
                            let xw = self.w(x);
                            if k > mask(xw) {
                                return self.konst(0, 1);
                            }
                            let kk = self.konst(k, xw);
                            return self.bin(B::Eq, x, kk);
                        }
                        N::Sx(x) => {
                            let xw = self.w(x);
                            let low = k & mask(xw);
                            if (sx(low, xw) as u128) & m != k {
                                return self.konst(0, 1);
                            }
                            let kk = self.konst(low, xw);
                            return self.bin(B::Eq, x, kk);
                        }
                        N::Cat(h, l) => {
                            let (hw, lw) = (self.w(h), self.w(l));
                            let kh = self.konst(k >> lw, hw);
                            let kl = self.konst(k, lw);
                            let x = self.bin(B::Eq, h, kh);
                            let y = self.bin(B::Eq, l, kl);
                            return self.bin(B::And, x, y);
                        }
                        N::Bin(B::Add, x, y) if self.c(y).is_some() => {
                            let kk = self.konst(k.wrapping_sub(self.c(y).unwrap()), w);
                            return self.bin(B::Eq, x, kk);
                        }
                        N::Bin(B::Xor, x, y) if self.c(y).is_some() => {
                            let kk = self.konst(k ^ self.c(y).unwrap(), w);
                            return self.bin(B::Eq, x, kk);
                        }
                        _ => {}
                    }
                } else if let (N::Zx(x), N::Zx(y)) = (self.n(a), self.n(b)) {
                    if self.w(x) == self.w(y) {
                        return self.bin(B::Eq, x, y);
                    }
                }
            }
            B::Ult | B::Ule => {
                if a == b {
                    return self.konst((op == B::Ule) as u128, 1);
                }
                if op == B::Ult && cb == Some(0) {
                    return self.konst(0, 1);
                }
                if op == B::Ule && ca == Some(0) {
                    return self.konst(1, 1);
                }
                if op == B::Ule && cb == Some(m) {
                    return self.konst(1, 1);
                }
                if op == B::Ult && cb == Some(1) {
                    let z = self.konst(0, w);
                    return self.bin(B::Eq, a, z);
                }
                if op == B::Ule && cb == Some(0) {
                    return self.bin(B::Eq, a, b);
                }
                if let (Some(k), N::Zx(x)) = (cb, self.n(a)) {
                    let xw = self.w(x);
                    if k > mask(xw) {
                        return self.konst(1, 1);
                    }
                    let kk = self.konst(k, xw);
                    return self.bin(op, x, kk);
                }
                if let (Some(k), N::Zx(x)) = (ca, self.n(b)) {
                    let xw = self.w(x);
                    if k > mask(xw) {
                        return self.konst(0, 1);
                    }
                    let kk = self.konst(k, xw);
                    return self.bin(op, kk, x);
                }
                if let (N::Zx(x), N::Zx(y)) = (self.n(a), self.n(b)) {
                    if self.w(x) == self.w(y) {
                        return self.bin(op, x, y);
                    }
                }
            }
            B::Slt | B::Sle => {
                if a == b {
                    return self.konst((op == B::Sle) as u128, 1);
                }
                let nonneg = |p: &Pool, i: Id| match p.n(i) {
                    N::Zx(_) => true,
                    N::Const(c) => c >> (w - 1) == 0,
                    _ => false,
                };
                if nonneg(self, a) && nonneg(self, b) {
                    let o = if op == B::Slt { B::Ult } else { B::Ule };
                    return self.bin(o, a, b);
                }
                let neg = |p: &Pool, i: Id| matches!(p.n(i), N::Const(c) if c >> (w - 1) == 1);
                if nonneg(self, a) && neg(self, b) {
                    return self.konst(0, 1);
                }
                if neg(self, a) && nonneg(self, b) {
                    return self.konst(1, 1);
                }
            }
            _ => {}
        }
        self.raw(N::Bin(op, a, b), rw)
    }
    /// known-zero low bits count / high zero bits to merge `or`/`add` of disjoint fields
    fn disjoint_or(&mut self, a: Id, b: Id) -> Option<Id> {
        let w = self.w(a);
        // split point: one has k low zero bits (as Cat(_,0_k) possibly under Zx), the other is < 2^k
        let lowz = |p: &Pool, i: Id| -> u32 {
            let i = match p.n(i) {
                N::Zx(x) => x,
                _ => i,
            };
            match p.n(i) {
                N::Cat(_, l) => match p.n(l) {
                    N::Const(0) => p.w(l),
                    N::Const(c) => c.trailing_zeros(),
                    _ => 0,
                },
                N::Const(c) if c != 0 => c.trailing_zeros(),
                _ => 0,
            }
        };
        let used = |p: &Pool, i: Id| -> u32 {
            match p.n(i) {
                N::Zx(x) => p.w(x),
                N::Const(c) => 128 - c.leading_zeros(),
                _ => w,
            }
        };
        let (hi, lo, k) = {
            let (la, ub) = (lowz(self, a), used(self, b));
            let (lb, ua) = (lowz(self, b), used(self, a));
            if la > 0 && ub <= la {
                (a, b, la)
            } else if lb > 0 && ua <= lb {
                (b, a, lb)
            } else {
                return None;
            }
        };
        if k >= w {
            return None;
        }
        let h = self.ext(hi, k, w - k);
        let l = self.ext(lo, 0, k);
        Some(self.cat(h, l))
    }

    /// sound unsigned range of an expression, given a range per byte variable
    pub fn range(&self, e: Id, dom: &dyn Fn(u32) -> (u8, u8), memo: &mut HashMap<Id, (u128, u128)>) -> (u128, u128) {
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let w = self.w(e);
        let full = (0, mask(w));
        let mut r = |p: &Pool, x: Id| p.range(x, dom, memo);
        let v = match self.n(e) {
            N::Const(c) => (c, c),
            N::Var(k) => {
                let (a, b) = dom(k);
                (a as u128, b as u128)
            }
            N::Zx(a) => r(self, a),
            N::Sx(a) => {
                let x = r(self, a);
                if x.1 >> (self.w(a) - 1) == 0 { x } else { full }
            }
            N::Ext(a, lo) => {
                let x = r(self, a);
                let y = (x.0 >> lo, x.1 >> lo);
                if y.1 <= mask(w) { y } else { full }
            }
            N::Cat(h, l) => {
                let x = r(self, h);
                let y = r(self, l);
                let lw = self.w(l);
                ((x.0 << lw) | y.0, (x.1 << lw) | y.1)
            }
            N::Ite(c, a, b) => {
                let q = r(self, c);
                if q.0 == 1 {
                    r(self, a)
                } else if q.1 == 0 {
                    r(self, b)
                } else {
                    let x = r(self, a);
                    let y = r(self, b);
                    (x.0.min(y.0), x.1.max(y.1))
                }
            }
            N::Bin(op, a, b) => {
                let x = r(self, a);
                let y = r(self, b);
                let m = mask(w);
                let yes = (1, 1);
                let no = (0, 0);
                match op {
                    B::Add => match x.1.checked_add(y.1) {
                        Some(h) if h <= m => (x.0 + y.0, h),
                        // every sum wraps exactly once (e.g. subtraction written as addition)
                        _ if w < 128 && x.0 + y.0 > m => (x.0 + y.0 - m - 1, x.1 + y.1 - m - 1),
                        _ => full,
                    },
                    B::Sub if x.0 >= y.1 => (x.0 - y.1, x.1 - y.0),
                    B::Mul => match x.1.checked_mul(y.1) {
                        Some(h) if h <= m => (x.0 * y.0, h),
                        _ => full,
                    },
                    B::UDiv if y.0 > 0 => (x.0 / y.1, x.1 / y.0),
                    B::URem if y.0 > 0 => {
                        if x.1 < y.0 { x } else { (0, (y.1 - 1).min(x.1)) }
                    }
                    B::LShr if y.0 == y.1 => {
                        if y.0 < 128 { (x.0 >> y.0, x.1 >> y.0) } else { no }
                    }
                    B::LShr => (0, x.1),
                    B::Shl if y.0 == y.1 && y.0 < 128 && x.1 <= (m >> y.0) => (x.0 << y.0, x.1 << y.0),
                    B::And => (0, x.1.min(y.1)),
                    B::Or | B::Xor if !(op == B::Xor && w == 1) => {
                        let top = x.1 | y.1;
                        let h = if top == 0 { 0 } else { mask(128 - top.leading_zeros()) };
                        if op == B::Or { (x.0.max(y.0), h) } else { (0, h) }
                    }
                    B::Xor if x.0 == x.1 && y.0 == y.1 => (x.0 ^ y.0, x.0 ^ y.0),
                    B::Eq => {
                        if x.1 < y.0 || y.1 < x.0 { no } else if x.0 == x.1 && x == y { yes } else { full }
                    }
                    B::Ult => {
                        if x.1 < y.0 { yes } else if x.0 >= y.1 { no } else { full }
                    }
                    B::Ule => {
                        if x.1 <= y.0 { yes } else if x.0 > y.1 { no } else { full }
                    }
                    B::Slt | B::Sle => {
                        let aw = self.w(a);
                        if x.1 >> (aw - 1) == 0 && y.1 >> (aw - 1) == 0 {
                            if op == B::Slt {
                                if x.1 < y.0 { yes } else if x.0 >= y.1 { no } else { full }
                            } else if x.1 <= y.0 {
                                yes
                            } else if x.0 > y.1 {
                                no
                            } else {
                                full
                            }
                        } else {
                            full
                        }
                    }
                    _ => full,
                }
            }
        };
        memo.insert(e, v);
        v
    }
    pub fn eval(&mut self, e: Id, model: &[u8]) -> u128 {
        self.gen += 1;
        self.ev(e, model)
    }
    pub fn eval_more(&mut self, e: Id, model: &[u8]) -> u128 {
        self.ev(e, model)
    }
    fn ev(&mut self, e: Id, m: &[u8]) -> u128 {
        let ix = e as usize;
        let (n, w) = self.nodes[ix];
        let w = w as u32;
        match n {
            N::Const(c) => return c,
            N::Var(k) => return m.get(k as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if self.ev_gen[ix] == self.gen {
            return self.ev_val[ix];
        }
        let v = match n {
            N::Bin(op, a, b) => {
                let x = self.ev(a, m);
                let y = self.ev(b, m);
                bin_c(op, self.w(a), x, y)
            }
            N::Ite(c, a, b) => {
                if self.ev(c, m) != 0 {
                    self.ev(a, m)
                } else {
                    self.ev(b, m)
                }
            }
            N::Ext(a, lo) => (self.ev(a, m) >> lo) & mask(w),
            N::Cat(h, l) => {
                let lw = self.w(l);
                let x = self.ev(h, m);
                let y = self.ev(l, m);
                (x << lw) | y
            }
            N::Zx(a) => self.ev(a, m),
            N::Sx(a) => {
                let aw = self.w(a);
                (sx(self.ev(a, m), aw) as u128) & mask(w)
            }
            _ => unreachable!(),
        };
        self.ev_gen[ix] = self.gen;
        self.ev_val[ix] = v;
        v
    }
}

// ---------------------------------------------------------------- Z3
type Ast = *mut c_void;
type Ctx = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_uint)>);
    fn Z3_mk_solver_for_logic(c: Ctx, s: *mut c_void) -> *mut c_void;
    fn Z3_mk_simple_solver(c: Ctx) -> *mut c_void;
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: *mut c_void, p: *mut c_void);
    fn Z3_solver_dec_ref(c: Ctx, s: *mut c_void);
    fn Z3_solver_inc_ref(c: Ctx, s: *mut c_void);
    fn Z3_solver_reset(c: Ctx, s: *mut c_void);
    fn Z3_solver_push(c: Ctx, s: *mut c_void);
    fn Z3_solver_pop(c: Ctx, s: *mut c_void, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: *mut c_void, a: Ast);
    fn Z3_solver_check(c: Ctx, s: *mut c_void) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: *mut c_void) -> *mut c_void;
    fn Z3_model_inc_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_dec_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_eval(c: Ctx, m: *mut c_void, a: Ast, completion: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, o: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> *mut c_void;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, ty: *mut c_void) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, ty: *mut c_void) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
}

extern "C" fn z3_err(_c: Ctx, code: c_uint) {
    eprintln!("z3 error {code}");
    std::process::exit(4);
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub struct Smt {
    c: Ctx,
    s: *mut c_void,
    p1: *mut c_void,
    s2: *mut c_void,
    pub renewed: u64,
    bv: HashMap<Id, Ast>,
    bl: HashMap<Id, Ast>,
    stack: Vec<Id>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: std::time::Duration,
}

impl Pool {
    pub fn show(&self, e: Id, depth: u32) -> String {
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        match self.n(e) {
            N::Const(c) => format!("{c:#x}"),
            N::Var(k) => format!("b{k}"),
            N::Bin(op, a, b) => format!("({op:?}{} {} {})", self.w(a), self.show(a, d), self.show(b, d)),
            N::Ite(c, a, b) => format!("(ite {} {} {})", self.show(c, d), self.show(a, d), self.show(b, d)),
            N::Ext(a, lo) => format!("{}[{}+:{}]", self.show(a, d), lo, self.w(e)),
            N::Cat(a, b) => format!("({}::{})", self.show(a, d), self.show(b, d)),
            N::Zx(a) => format!("zx{}({})", self.w(e), self.show(a, d)),
            N::Sx(a) => format!("sx{}({})", self.w(e), self.show(a, d)),
        }
    }
}

impl Smt {
    pub fn new(timeout_ms: u32) -> Smt {
        unsafe {
            let cfg = Z3_mk_config();
            // plain context: asts are owned by the context (never collected)
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(z3_err));
            let sym = |s: &str| {
                let cs = std::ffi::CString::new(s).unwrap();
                Z3_mk_string_symbol(c, cs.as_ptr())
            };
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            // a short attempt with the incremental core first; what it leaves open goes to the bit-blasting solver.
            // The attempt is limited by work, not by time, so that a busy machine does not change the exploration.
            let first = std::env::var("LLSYM_FIRST").ok().and_then(|x| x.parse().ok()).unwrap_or(1_000_000);
            Z3_params_set_uint(c, p, sym("rlimit"), first);
            Z3_params_set_uint(c, p, sym("timeout"), timeout_ms);
            let s = Self::core(c, p);
            let s2 = Z3_mk_solver_for_logic(c, sym("QF_BV"));
            Z3_solver_inc_ref(c, s2);
            let p2 = Z3_mk_params(c);
            Z3_params_inc_ref(c, p2);
            Z3_params_set_uint(c, p2, sym("timeout"), timeout_ms);
            Z3_solver_set_params(c, s2, p2);
            Smt {
                c,
                s,
                p1: p,
                s2,
                bv: HashMap::new(),
                bl: HashMap::new(),
                stack: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                renewed: 0,
                time: Default::default(),
            }
        }
    }
    unsafe fn core(c: Ctx, p: *mut c_void) -> *mut c_void {
        let s = Z3_mk_simple_solver(c);
        Z3_solver_inc_ref(c, s);
        Z3_solver_set_params(c, s, p);
        s
    }
    /// forget the incremental solver: one interrupted inside a check may have lost assertions
    pub fn renew(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            self.s = Self::core(self.c, self.p1);
        }
        self.stack.clear();
        self.renewed += 1;
    }
    fn tobool(&mut self, p: &Pool, e: Id) -> Ast {
        if let Some(a) = self.bl.get(&e) {
            return *a;
        }
        let c = self.c;
        let r = unsafe {
            match p.n(e) {
                N::Const(v) => {
                    if v != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                N::Bin(op, a, b) if is_cmp(op) => {
                    if p.w(a) == 1 && op == B::Eq {
                        let x = self.tobool(p, a);
                        let y = self.tobool(p, b);
                        Z3_mk_eq(c, x, y)
                    } else {
                        let x = self.tobv(p, a);
                        let y = self.tobv(p, b);
                        match op {
                            B::Eq => Z3_mk_eq(c, x, y),
                            B::Ult => Z3_mk_bvult(c, x, y),
                            B::Ule => Z3_mk_bvule(c, x, y),
                            B::Slt => Z3_mk_bvslt(c, x, y),
                            _ => Z3_mk_bvsle(c, x, y),
                        }
                    }
                }
                N::Bin(B::And, a, b) => {
                    let v = [self.tobool(p, a), self.tobool(p, b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                N::Bin(B::Or, a, b) => {
                    let v = [self.tobool(p, a), self.tobool(p, b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                N::Bin(B::Xor, a, b) => {
                    if p.c(b) == Some(1) {
                        let x = self.tobool(p, a);
                        Z3_mk_not(c, x)
                    } else {
                        let x = self.tobool(p, a);
                        let y = self.tobool(p, b);
                        Z3_mk_xor(c, x, y)
                    }
                }
                N::Ite(q, a, b) => {
                    let q = self.tobool(p, q);
                    let x = self.tobool(p, a);
                    let y = self.tobool(p, b);
                    Z3_mk_ite(c, q, x, y)
                }
                _ => {
                    let x = self.tobv(p, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        self.bl.insert(e, r);
        r
    }
    fn num(&self, v: u128, w: u32) -> Ast {
        unsafe {
            let s = std::ffi::CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w))
        }
    }
    fn tobv(&mut self, p: &Pool, e: Id) -> Ast {
        if let Some(a) = self.bv.get(&e) {
            return *a;
        }
        let c = self.c;
        let w = p.w(e);
        let r = unsafe {
            match p.n(e) {
                N::Const(v) => self.num(v, w),
                N::Var(k) => {
                    let s = std::ffi::CString::new(format!("b{k}")).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, 8))
                }
                N::Bin(op, a, b) if !is_cmp(op) => {
                    let x = self.tobv(p, a);
                    let y = self.tobv(p, b);
                    (match op {
                        B::Add => Z3_mk_bvadd,
                        B::Sub => Z3_mk_bvsub,
                        B::Mul => Z3_mk_bvmul,
                        B::UDiv => Z3_mk_bvudiv,
                        B::SDiv => Z3_mk_bvsdiv,
                        B::URem => Z3_mk_bvurem,
                        B::SRem => Z3_mk_bvsrem,
                        B::Shl => Z3_mk_bvshl,
                        B::LShr => Z3_mk_bvlshr,
                        B::AShr => Z3_mk_bvashr,
                        B::And => Z3_mk_bvand,
                        B::Or => Z3_mk_bvor,
                        B::Xor => Z3_mk_bvxor,
                        _ => unreachable!(),
                    })(c, x, y)
                }
                N::Bin(..) => {
                    let b = self.tobool(p, e);
                    let one = self.num(1, 1);
                    let zero = self.num(0, 1);
                    Z3_mk_ite(c, b, one, zero)
                }
                N::Ite(q, a, b) => {
                    let q = self.tobool(p, q);
                    let x = self.tobv(p, a);
                    let y = self.tobv(p, b);
                    Z3_mk_ite(c, q, x, y)
                }
                N::Ext(a, lo) => {
                    let x = self.tobv(p, a);
                    Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, x)
                }
                N::Cat(h, l) => {
                    let x = self.tobv(p, h);
                    let y = self.tobv(p, l);
                    Z3_mk_concat(c, x, y)
                }
                N::Zx(a) => {
                    let x = self.tobv(p, a);
                    Z3_mk_zero_ext(c, w - p.w(a), x)
                }
                N::Sx(a) => {
                    let x = self.tobv(p, a);
                    Z3_mk_sign_ext(c, w - p.w(a), x)
                }
            }
        };
        self.bv.insert(e, r);
        r
    }
    fn sync(&mut self, p: &Pool, pc: &[Id]) {
        let mut k = 0;
        while k < pc.len() && k < self.stack.len() && pc[k] == self.stack[k] {
            k += 1;
        }
        unsafe {
            if self.stack.len() > k {
                Z3_solver_pop(self.c, self.s, (self.stack.len() - k) as u32);
                self.stack.truncate(k);
            }
            for &e in &pc[k..] {
                Z3_solver_push(self.c, self.s);
                let a = self.tobool(p, e);
                Z3_solver_assert(self.c, self.s, a);
                self.stack.push(e);
            }
        }
    }
    /// is pc /\ cond satisfiable?  On Sat returns a model of the first `nv` byte variables.
    pub fn check(&mut self, p: &Pool, pc: &[Id], cond: Id, nv: usize) -> (Sat, Vec<u8>) {
        let t0 = std::time::Instant::now();
        self.sync(p, pc);
        self.queries += 1;
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            let a = self.tobool(p, cond);
            Z3_solver_assert(self.c, self.s, a);
            let mut r = Z3_solver_check(self.c, self.s);
            let mut used = self.s;
            if r == 0 {
                used = self.s2;
                Z3_solver_reset(self.c, used);
                for &e in pc {
                    let b = self.tobool(p, e);
                    Z3_solver_assert(self.c, used, b);
                }
                Z3_solver_assert(self.c, used, a);
                r = Z3_solver_check(self.c, used);
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, used);
                    Z3_model_inc_ref(self.c, m);
                    let mut v = vec![0u8; nv];
                    for k in 0..nv {
                        let s = std::ffi::CString::new(format!("b{k}")).unwrap();
                        let a = Z3_mk_const(
                            self.c,
                            Z3_mk_string_symbol(self.c, s.as_ptr()),
                            Z3_mk_bv_sort(self.c, 8),
                        );
                        let mut o: Ast = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, a, true, &mut o) {
                            let mut x = 0u64;
                            if Z3_get_numeral_uint64(self.c, o, &mut x) {
                                v[k] = x as u8;
                            }
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    (Sat::Sat, v)
                }
                -1 => (Sat::Unsat, vec![]),
                _ => (Sat::Unknown, vec![]),
            };
            if used == self.s {
                Z3_solver_pop(self.c, self.s, 1);
            } else {
                self.renew();
            }
            out
        };
        match r.0 {
            Sat::Sat => self.sat += 1,
            Sat::Unsat => self.unsat += 1,
            Sat::Unknown => self.unknown += 1,
        }
        self.time += t0.elapsed();
        r
    }
}
