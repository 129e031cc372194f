//! llsym: path-wise symbolic executor for whole-program LLVM IR produced by rustc.
//!
//! Input bytes requested through `sym_bytes` are bit-vector variables; every branch on them is
//! decided by Z3 and both feasible sides are explored.  A run is a verdict over *all* values of
//! the symbolic bytes only if it ends with `complete=true` (no path dropped, no unknown answer).
mod expr;
mod ir;
use expr::*;
use ir::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

const PAGE: usize = 512;
const CHUNK: usize = 128;
const GLOBAL_BASE: u64 = 0x80_0000;
const STACK_BASE: u64 = 0x800_0000;
const HEAP_BASE: u64 = 0x1000_0000;

#[derive(Clone)]
struct Page {
    d: [u8; PAGE],
    s: Option<Box<[Id; PAGE]>>,
}
type Chunk = [Option<Rc<Page>>; CHUNK];
#[derive(Clone)]
struct Mem {
    c: Vec<Option<Rc<Chunk>>>,
}
const NOP: Option<Rc<Page>> = None;
impl Mem {
    fn page(&self, a: u64) -> Option<&Rc<Page>> {
        let pn = a as usize / PAGE;
        self.c.get(pn / CHUNK)?.as_ref()?[pn % CHUNK].as_ref()
    }
    fn page_mut(&mut self, a: u64) -> Option<&mut Page> {
        let pn = a as usize / PAGE;
        let c = Rc::make_mut(self.c.get_mut(pn / CHUNK)?.as_mut()?);
        Some(Rc::make_mut(c[pn % CHUNK].as_mut()?))
    }
    fn map(&mut self, a: u64, n: u64) {
        let mut p = a as usize / PAGE;
        let e = (a + n.max(1) - 1) as usize / PAGE;
        while p <= e {
            if self.c.len() <= p / CHUNK {
                self.c.resize(p / CHUNK + 1, None);
            }
            let c = self.c[p / CHUNK].get_or_insert_with(|| Rc::new([NOP; CHUNK]));
            let c = Rc::make_mut(c);
            if c[p % CHUNK].is_none() {
                c[p % CHUNK] = Some(Rc::new(Page { d: [0; PAGE], s: None }));
            }
            p += 1;
        }
    }
    /// concrete value or expression id of one byte
    #[inline]
    fn get(&self, a: u64) -> Result<Result<u8, Id>, String> {
        let p = self.page(a).ok_or_else(|| format!("invalid read at {a:#x}"))?;
        let o = a as usize % PAGE;
        if let Some(s) = &p.s {
            if s[o] != 0 {
                return Ok(Err(s[o]));
            }
        }
        Ok(Ok(p.d[o]))
    }
    fn put(&mut self, a: u64, v: Result<u8, Id>) -> Result<(), String> {
        let p = self.page_mut(a).ok_or_else(|| format!("invalid write at {a:#x}"))?;
        let o = a as usize % PAGE;
        match v {
            Ok(b) => {
                p.d[o] = b;
                if let Some(s) = &mut p.s {
                    s[o] = 0;
                }
            }
            Err(i) => {
                p.s.get_or_insert_with(|| Box::new([0; PAGE]))[o] = i;
            }
        }
        Ok(())
    }
    /// read n<=16 concrete bytes, None if any symbolic
    fn read_c(&self, a: u64, n: usize) -> Result<Option<u128>, String> {
        let o = a as usize % PAGE;
        if o + n <= PAGE {
            let p = self.page(a).ok_or_else(|| format!("invalid read at {a:#x}"))?;
            if let Some(s) = &p.s {
                if s[o..o + n].iter().any(|x| *x != 0) {
                    return Ok(None);
                }
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&p.d[o..o + n]);
            return Ok(Some(u128::from_le_bytes(b)));
        }
        let mut v = 0u128;
        for k in 0..n {
            match self.get(a + k as u64)? {
                Ok(b) => v |= (b as u128) << (8 * k),
                Err(_) => return Ok(None),
            }
        }
        Ok(Some(v))
    }
    fn write_c(&mut self, a: u64, v: u128, n: usize) -> Result<(), String> {
        let o = a as usize % PAGE;
        let b = v.to_le_bytes();
        if o + n <= PAGE {
            let p = self.page_mut(a).ok_or_else(|| format!("invalid write at {a:#x}"))?;
            p.d[o..o + n].copy_from_slice(&b[..n]);
            if let Some(s) = &mut p.s {
                s[o..o + n].fill(0);
            }
            return Ok(());
        }
        for k in 0..n {
            self.put(a + k as u64, Ok(b[k]))?;
        }
        Ok(())
    }
    fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), String> {
        let mut buf = Vec::with_capacity(n as usize);
        for k in 0..n {
            buf.push(self.get(s + k)?);
        }
        for (k, v) in buf.into_iter().enumerate() {
            self.put(d + k as u64, v)?;
        }
        Ok(())
    }
}

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    b: u32,
    ip: u32,
    regs: Vec<V>,
    sp: u64,
    dst: Option<u32>,
    normal: Option<u32>,
}
#[derive(Clone)]
struct State {
    fr: Vec<Frame>,
    mem: Mem,
    heap: u64,
    sp: u64,
    pc: Vec<Id>,
    refuted: Vec<Id>, // conditions found infeasible on this path by byte-domain reasoning
    /// per byte variable: values allowed by its single-variable constraints, and
    /// whether it also occurs in a constraint with other variables
    dom: Rc<Vec<([u64; 4], bool)>>,
    model: Rc<Vec<u8>>,
    nv: u32,
    inputs: Vec<Result<u8, Id>>,
    outs: Vec<Result<u8, Id>>,
    covers: Vec<Rc<str>>,
    steps: u64,
    pending: Option<u64>, // pre-decided result for sym_choose
    shard: (u64, u64),    // part of the remaining leading choices this process explores
    may_panic: bool,      // from here on a panic is an allowed way to end
    nofmt: u64,           // address of an empty String: format!() yields it (0: formatting is executed)
}

enum End {
    Ok,
    Fail(String),
    Panic(String),
    Assume,
    Engine(String),
    Limit(String),
    Fork, // state was replaced by forked copies
}

struct Ex {
    m: Module,
    p: Pool,
    z: Smt,
    fcache: HashMap<Rc<str>, Rc<Func>>,
    work: Vec<State>,
    covers: BTreeMap<String, u64>,
    used: BTreeSet<String>,
    instrs: u64,
    forks: u64,
    max_enum: usize,
    max_steps: u64,
    errno: u64,
    merge: bool,
    trace: bool,
    shard: (u64, u64),
    qcache: HashMap<Vec<Id>, Option<Rc<Vec<u8>>>>,
    vcache: HashMap<Id, Rc<Vec<u32>>>,
    qhits: u64,
    slow: u64,
    confirmed: std::collections::HashSet<Vec<Id>>,
    dom_sat: u64,
    dom_unsat: u64,
    joins: HashMap<(usize, u32), Option<u32>>,
    merged: u64,
}

type XR<T> = Result<T, End>;
fn eng<T>(s: impl Into<String>) -> XR<T> {
    Err(End::Engine(s.into()))
}

impl Ex {
    fn ids(&mut self, v: &V, w: u32) -> XR<Id> {
        match v {
            V::I(c) => Ok(self.p.konst(*c, w)),
            V::S(i) => Ok(*i),
            _ => eng("aggregate where scalar expected"),
        }
    }
    fn val(&self, i: Id) -> V {
        match self.p.c(i) {
            Some(c) => V::I(c),
            None => V::S(i),
        }
    }
    #[inline]
    fn op(&self, st: &State, o: &Op) -> V {
        match o {
            Op::R(r) => st.fr.last().unwrap().regs[*r as usize].clone(),
            Op::C(v) => v.clone(),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: V) {
        if d != u32::MAX {
            st.fr.last_mut().unwrap().regs[d as usize] = v;
        }
    }

    fn load(&mut self, mem: &Mem, ty: &Ty, a: u64) -> XR<V> {
        match ty {
            Ty::Int(w) if *w > 128 => {
                let mut v = vec![];
                for k in 0..ty.store_size() {
                    v.push(match mem.get(a + k).map_err(End::Engine)? {
                        Ok(b) => V::I(b as u128),
                        Err(i) => V::S(i),
                    });
                }
                Ok(V::W(Rc::new(v)))
            }
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let n = ty.store_size() as usize;
                let w = ty.width();
                if let Some(c) = mem.read_c(a, n).map_err(End::Engine)? {
                    return Ok(V::I(c & mask(w)));
                }
                let mut acc: Option<Id> = None;
                for k in 0..n {
                    let b = match mem.get(a + k as u64).map_err(End::Engine)? {
                        Ok(b) => self.p.konst(b as u128, 8),
                        Err(i) => i,
                    };
                    acc = Some(match acc {
                        None => b,
                        Some(l) => self.p.cat(b, l),
                    });
                }
                let mut e = acc.unwrap();
                if self.p.w(e) > w {
                    e = self.p.ext(e, 0, w);
                }
                if let N::Ext(b, lo) = self.p.n(e) {
                    e = self.p.ext(b, lo as u32, w);
                }
                Ok(self.val(e))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for (k, t) in f.iter().enumerate() {
                    v.push(self.load(mem, t, a + ty.field_off(k))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Array(n, t) | Ty::Vector(n, t) => {
                if matches!(ty, Ty::Vector(..)) && matches!(**t, Ty::Int(w) if w % 8 != 0) {
                    let w = *n as u32 * t.width();
                    let v = self.load(mem, &Ty::Int(w), a)?;
                    return self.from_bits(ty, &v);
                }
                let mut v = vec![];
                for k in 0..*n {
                    v.push(self.load(mem, t, a + k * t.size())?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => eng(format!("load {ty:?}")),
        }
    }
    fn store(&mut self, mem: &mut Mem, ty: &Ty, a: u64, v: &V) -> XR<()> {
        match (ty, v) {
            (Ty::Int(w), V::W(b)) if *w > 128 => {
                for (k, x) in b.iter().enumerate() {
                    self.store(mem, &Ty::Int(8), a + k as u64, x)?;
                }
                Ok(())
            }
            (Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64, V::I(c)) => mem.write_c(a, *c, ty.store_size() as usize).map_err(End::Engine),
            (Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64, V::S(i)) => {
                let n = ty.store_size();
                let mut i = *i;
                let w = self.p.w(i);
                if (w as u64) < n * 8 {
                    i = self.p.zx(i, n as u32 * 8);
                }
                for k in 0..n {
                    let b = self.p.ext_keep(i, k as u32 * 8, 8);
                    let x = match self.p.c(b) {
                        Some(c) => Ok(c as u8),
                        None => Err(b),
                    };
                    mem.put(a + k, x).map_err(End::Engine)?;
                }
                Ok(())
            }
            (Ty::Struct(f, _), V::A(vs)) => {
                for (k, t) in f.iter().enumerate() {
                    self.store(mem, t, a + ty.field_off(k), &vs[k])?;
                }
                Ok(())
            }
            (Ty::Array(_, t) | Ty::Vector(_, t), V::A(vs)) => {
                if matches!(**t, Ty::Int(w) if w % 8 != 0) && matches!(ty, Ty::Vector(..)) {
                    let w = vs.len() as u32 * t.width();
                    let x = self.to_bits(ty, v)?;
                    return self.store(mem, &Ty::Int(w), a, &x);
                }
                for (k, x) in vs.iter().enumerate() {
                    self.store(mem, t, a + k as u64 * t.size(), x)?;
                }
                Ok(())
            }
            _ => eng(format!("store {ty:?} {v:?}")),
        }
    }

    /// Ask whether `c` can hold on this path; refreshes nothing.
    fn sat(&mut self, st: &mut State, c: Id) -> XR<Option<Rc<Vec<u8>>>> {
        match self.p.c(c) {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some(st.model.clone())),
            None => {}
        }
        if self.p.eval(c, &st.model) != 0 {
            return Ok(Some(st.model.clone()));
        }
        let sv = self.p.sup(c);
        if sv != MANY {
            // condition on one byte: its domain is exact unless the byte is tied to others
            let (d, tied) = st.dom[sv as usize];
            let mut m = (*st.model).clone();
            let mut any = false;
            for v in 0..256usize {
                if (d[v >> 6] >> (v & 63)) & 1 == 1 {
                    m[sv as usize] = v as u8;
                    if self.p.eval(c, &m) != 0 {
                        any = true;
                        break;
                    }
                }
            }
            if !any {
                self.dom_unsat += 1;
                if !st.refuted.contains(&c) {
                    st.refuted.push(c);
                }
                return Ok(None);
            }
            if !tied {
                self.dom_sat += 1;
                return Ok(Some(Rc::new(m)));
            }
        }
        {
            // range of the condition under the byte domains
            let dom = st.dom.clone();
            let rng = |k: u32| -> (u8, u8) {
                let d = dom[k as usize].0;
                let lo = (0..4).find(|q| d[*q] != 0).map(|q| q as u32 * 64 + d[q].trailing_zeros()).unwrap_or(0);
                let hi = (0..4).rev().find(|q| d[*q] != 0).map(|q| q as u32 * 64 + 63 - d[q].leading_zeros()).unwrap_or(255);
                (lo as u8, hi as u8)
            };
            let mut memo = HashMap::new();
            if self.p.range(c, &rng, &mut memo) == (0, 0) {
                self.dom_unsat += 1;
                if !st.refuted.contains(&c) {
                    st.refuted.push(c);
                }
                return Ok(None);
            }
        }
        // bytes with a single possible value become constants
        let dom = st.dom.clone();
        let fixed = |k: u32| -> Option<u8> {
            let d = dom[k as usize].0;
            if d[0].count_ones() + d[1].count_ones() + d[2].count_ones() + d[3].count_ones() == 1 {
                (0..4).find(|q| d[*q] != 0).map(|q| (q as u32 * 64 + d[q].trailing_zeros()) as u8)
            } else {
                None
            }
        };
        let mut memo = HashMap::new();
        let c2 = self.p.subst(c, &fixed, &mut memo);
        match self.p.c(c2) {
            Some(0) => {
                self.dom_unsat += 1;
                if !st.refuted.contains(&c) {
                    st.refuted.push(c);
                }
                return Ok(None);
            }
            Some(_) => return eng("substituted condition is true but false in the model"),
            None => {}
        }
        // slice: constraints connected to the condition's variables
        let mut vars = vec![];
        self.p.vars(c2, &mut vars);
        let mut inn = vec![false; st.nv as usize];
        for v in &vars {
            inn[*v as usize] = true;
        }
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut grew = false;
            for (i, &q) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let qv = self.pcvars(q);
                if qv.iter().any(|v| inn[*v as usize] && fixed(*v).is_none()) {
                    used[i] = true;
                    for v in qv.iter() {
                        if !inn[*v as usize] && fixed(*v).is_none() {
                            inn[*v as usize] = true;
                            grew = true;
                        }
                    }
                }
            }
            if !grew {
                break;
            }
        }
        let mut pc: Vec<Id> = vec![];
        for (i, &q) in st.pc.iter().enumerate() {
            if used[i] {
                let q2 = self.p.subst(q, &fixed, &mut memo);
                if self.p.c(q2) != Some(1) && !pc.contains(&q2) {
                    pc.push(q2);
                }
            }
        }
        let free: Vec<usize> = (0..st.nv as usize).filter(|k| inn[*k]).collect();
        if free.len() == 1 {
            // one unknown byte: exact
            let v = free[0];
            let d = dom[v].0;
            let mut m = (*st.model).clone();
            for k in 0..256usize {
                if (d[k >> 6] >> (k & 63)) & 1 == 1 {
                    m[v] = k as u8;
                    if self.p.eval(c2, &m) != 0 && pc.iter().all(|q| self.p.eval(*q, &m) != 0) {
                        self.dom_sat += 1;
                        return Ok(Some(Rc::new(m)));
                    }
                }
            }
            self.dom_unsat += 1;
            if !st.refuted.contains(&c) {
                st.refuted.push(c);
            }
            return Ok(None);
        }
        let mut key: Vec<Id> = pc.clone();
        key.push(c2);
        let r = match self.qcache.get(&key) {
            Some(r) => {
                self.qhits += 1;
                r.clone()
            }
            None => {
                let t0 = std::time::Instant::now();
                let zr = self.z.check(&self.p, &pc, c2, st.nv as usize);
                if self.slow > 0 && t0.elapsed().as_millis() as u64 >= self.slow {
                    eprintln!("SLOW {:?} {} ms\n  ? {}", zr.0, t0.elapsed().as_millis(), self.p.show(c2, 14));
                    for q in &pc {
                        eprintln!("   & {}", self.p.show(*q, 10));
                    }
                }
                let r = match zr {
                    (Sat::Sat, m) => Some(Rc::new(m)),
                    (Sat::Unsat, _) => None,
                    (Sat::Unknown, _) => return Err(End::Limit("solver unknown".into())),
                };
                self.qcache.insert(key, r.clone());
                r
            }
        };
        match r {
            None => Ok(None),
            Some(m) => {
                let mut n = (*st.model).clone();
                for k in 0..n.len() {
                    if inn[k] {
                        n[k] = m[k];
                    }
                }
                if self.p.eval(c, &n) == 0 {
                    eprintln!("MISMATCH after {} renewals", self.z.renewed);
                    return eng("model does not satisfy the query (engine/solver mismatch)");
                }
                Ok(Some(Rc::new(n)))
            }
        }
    }
    fn pcvars(&mut self, q: Id) -> Rc<Vec<u32>> {
        if let Some(v) = self.vcache.get(&q) {
            return v.clone();
        }
        let mut v = vec![];
        self.p.vars(q, &mut v);
        let v = Rc::new(v);
        self.vcache.insert(q, v.clone());
        v
    }
    fn add_pc(&mut self, st: &mut State, c: Id) {
        if self.p.c(c).is_some() || st.pc.contains(&c) {
            return;
        }
        // split conjunctions
        if self.p.w(c) == 1 {
            match self.p.n(c) {
                N::Bin(B::And, a, b) => {
                    self.add_pc(st, a);
                    self.add_pc(st, b);
                    return;
                }
                N::Bin(B::Xor, a, b) if self.p.c(b) == Some(1) => {
                    if let N::Bin(B::Or, x, y) = self.p.n(a) {
                        let x = self.p.not(x);
                        let y = self.p.not(y);
                        self.add_pc(st, x);
                        self.add_pc(st, y);
                        return;
                    }
                }
                _ => {}
            }
        }
        st.pc.push(c);
        match self.p.sup(c) {
            MANY => {
                let vs = self.pcvars(c);
                let d = Rc::make_mut(&mut st.dom);
                for v in vs.iter() {
                    d[*v as usize].1 = true;
                }
            }
            v => {
                let d = st.dom[v as usize].0;
                let mut n = [0u64; 4];
                let mut m = (*st.model).clone();
                for k in 0..256usize {
                    if (d[k >> 6] >> (k & 63)) & 1 == 1 {
                        m[v as usize] = k as u8;
                        if self.p.eval(c, &m) != 0 {
                            n[k >> 6] |= 1 << (k & 63);
                        }
                    }
                }
                Rc::make_mut(&mut st.dom)[v as usize].0 = n;
            }
        }
    }
    /// Decide boolean `c`. Forks if both are possible: the clone (other side) re-executes
    /// the same instruction with the negated condition in its path condition.
    fn decide(&mut self, st: &mut State, c: Id) -> XR<bool> {
        if let Some(v) = self.p.c(c) {
            return Ok(v != 0);
        }
        let here = self.p.eval(c, &st.model) != 0;
        let nc = self.p.not(c);
        let (mine, other) = if here { (c, nc) } else { (nc, c) };
        // already decided on this path?
        if st.pc.contains(&mine) {
            return Ok(here);
        }
        if let Some(m) = self.sat(st, other)? {
            let mut o = st.clone();
            o.model = m;
            self.add_pc(&mut o, other);
            o.fr.last_mut().unwrap().ip -= 1; // re-execute
            self.work.push(o);
            self.forks += 1;
            self.add_pc(st, mine);
        }
        Ok(here)
    }
    /// Make an expression concrete, forking over its feasible values.
    fn concretize(&mut self, st: &mut State, v: &V) -> XR<u128> {
        match v {
            V::I(c) => Ok(*c),
            V::S(i) => {
                if self.trace {
                    eprintln!("concretize in {}", st.fr.iter().rev().take(3).map(|f| f.f.name.to_string()).collect::<Vec<_>>().join(" < "));
                }
                let k = self.p.eval(*i, &st.model);
                let w = self.p.w(*i);
                let kc = self.p.konst(k, w);
                let eq = self.p.bin(B::Eq, *i, kc);
                let r = self.decide(st, eq)?;
                debug_assert!(r);
                Ok(k)
            }
            _ => eng("concretize aggregate"),
        }
    }
    /// All feasible values of an expression, if there are at most `lim`.
    fn values(&mut self, st: &mut State, i: Id, lim: usize) -> XR<Option<Vec<u128>>> {
        let w = self.p.w(i);
        let mut vs = vec![];
        let sv = self.p.sup(i);
        if sv != MANY && sv != NONE && !st.dom[sv as usize].1 {
            let d = st.dom[sv as usize].0;
            let mut m = (*st.model).clone();
            for k in 0..256usize {
                if (d[k >> 6] >> (k & 63)) & 1 == 1 {
                    m[sv as usize] = k as u8;
                    let x = self.p.eval(i, &m);
                    if !vs.contains(&x) {
                        vs.push(x);
                        if vs.len() > lim {
                            return Ok(None);
                        }
                    }
                }
            }
            self.dom_sat += 1;
            return Ok(Some(vs));
        }
        let mut cond = self.p.konst(1, 1);
        loop {
            let m = match self.sat(st, cond)? {
                None => return Ok(Some(vs)),
                Some(m) => m,
            };
            let k = self.p.eval(i, &m);
            vs.push(k);
            if vs.len() > lim {
                return Ok(None);
            }
            let kc = self.p.konst(k, w);
            let eq = self.p.bin(B::Eq, i, kc);
            let ne = self.p.not(eq);
            cond = self.p.bin(B::And, cond, ne);
        }
    }
    fn load_at(&mut self, st: &mut State, ty: &Ty, a: &V) -> XR<V> {
        match a {
            V::I(a) => {
                let m = Mem { c: std::mem::take(&mut st.mem.c) };
                let r = self.load(&m, ty, *a as u64);
                st.mem = m;
                r
            }
            V::S(i) => {
                if !matches!(ty, Ty::Int(w) if *w <= 128) {
                    let k = self.concretize(st, a)?;
                    return self.load_at(st, ty, &V::I(k));
                }
                let w = ty.width();
                match self.values(st, *i, self.max_enum)? {
                    None => {
                        let k = self.concretize(st, a)?;
                        self.load_at(st, ty, &V::I(k))
                    }
                    Some(vs) => {
                        let mut acc: Option<Id> = None;
                        for k in vs {
                            let v = self.load_at(st, ty, &V::I(k))?;
                            let v = self.ids(&v, w)?;
                            acc = Some(match acc {
                                None => v,
                                Some(r) => {
                                    let kc = self.p.konst(k, 64);
                                    let eq = self.p.bin(B::Eq, *i, kc);
                                    self.p.ite(eq, v, r)
                                }
                            });
                        }
                        Ok(self.val(acc.unwrap()))
                    }
                }
            }
            _ => eng("load addr"),
        }
    }
    fn store_at(&mut self, st: &mut State, ty: &Ty, a: &V, v: &V) -> XR<()> {
        match a {
            V::I(a) => {
                let mut m = Mem { c: std::mem::take(&mut st.mem.c) };
                let r = self.store(&mut m, ty, *a as u64, v);
                st.mem = m;
                r
            }
            V::S(i) => {
                if let (Ty::Int(w), V::I(_) | V::S(_)) = (ty, v) {
                    if let Some(vs) = self.values(st, *i, self.max_enum)? {
                        let nv = self.ids(v, *w)?;
                        for k in vs {
                            let old = self.load_at(st, ty, &V::I(k))?;
                            let old = self.ids(&old, *w)?;
                            let kc = self.p.konst(k, 64);
                            let eq = self.p.bin(B::Eq, *i, kc);
                            let x = self.p.ite(eq, nv, old);
                            let x = self.val(x);
                            self.store_at(st, ty, &V::I(k), &x)?;
                        }
                        return Ok(());
                    }
                }
                let k = self.concretize(st, a)?;
                self.store_at(st, ty, &V::I(k), v)
            }
            _ => eng("store addr"),
        }
    }

    fn bin1(&mut self, op: B, w: u32, a: &V, b: &V) -> XR<V> {
        match (a, b) {
            (V::I(x), V::I(y)) => Ok(V::I(bin_c(op, w, *x, *y))),
            (V::A(x), V::A(y)) => {
                let mut o = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y.iter()) {
                    o.push(self.bin1(op, w, p, q)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            (V::W(x), V::I(_) | V::W(_)) => {
                if op == B::LShr {
                    let k = match b {
                        V::W(y) => match &y[0] {
                            V::I(k) => *k as usize,
                            _ => return eng("wide shift"),
                        },
                        V::I(k) => *k as usize,
                        _ => unreachable!(),
                    };
                    if k % 8 == 0 {
                        let mut o: Vec<V> = x.iter().skip(k / 8).cloned().collect();
                        o.resize(x.len(), V::I(0));
                        return Ok(V::W(Rc::new(o)));
                    }
                }
                if let (V::W(y), B::And | B::Or | B::Xor) = (b, op) {
                    let mut o = vec![];
                    for (p, q) in x.iter().zip(y.iter()) {
                        o.push(self.bin1(op, 8, p, q)?);
                    }
                    return Ok(V::W(Rc::new(o)));
                }
                eng(format!("wide {op:?}"))
            }
            _ => {
                let x = self.ids(a, w)?;
                let y = self.ids(b, w)?;
                let r = self.p.bin(op, x, y);
                Ok(self.val(r))
            }
        }
    }
    fn icmp1(&mut self, pr: Pred, w: u32, a: &V, b: &V) -> XR<V> {
        if let (V::A(x), V::A(y)) = (a, b) {
            let mut o = Vec::with_capacity(x.len());
            for (p, q) in x.iter().zip(y.iter()) {
                o.push(self.icmp1(pr, w, p, q)?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        if let (V::W(x), V::W(y)) = (a, b) {
            let mut acc = self.p.konst(1, 1);
            for (p, q) in x.iter().zip(y.iter()) {
                let p = self.ids(p, 8)?;
                let q = self.ids(q, 8)?;
                let e = self.p.bin(B::Eq, p, q);
                acc = self.p.bin(B::And, acc, e);
            }
            return match pr {
                Pred::Eq => Ok(self.val(acc)),
                Pred::Ne => {
                    let n = self.p.not(acc);
                    Ok(self.val(n))
                }
                _ => eng("wide icmp"),
            };
        }
        let (op, sw, neg) = match pr {
            Pred::Eq => (B::Eq, false, false),
            Pred::Ne => (B::Eq, false, true),
            Pred::Ult => (B::Ult, false, false),
            Pred::Ule => (B::Ule, false, false),
            Pred::Ugt => (B::Ult, true, false),
            Pred::Uge => (B::Ule, true, false),
            Pred::Slt => (B::Slt, false, false),
            Pred::Sle => (B::Sle, false, false),
            Pred::Sgt => (B::Slt, true, false),
            Pred::Sge => (B::Sle, true, false),
        };
        let (x, y) = if sw { (b, a) } else { (a, b) };
        let r = self.bin1(op, w, x, y)?;
        if neg {
            return match r {
                V::I(v) => Ok(V::I(v ^ 1)),
                V::S(i) => {
                    let n = self.p.not(i);
                    Ok(self.val(n))
                }
                _ => unreachable!(),
            };
        }
        Ok(r)
    }
    fn cast1(&mut self, k: Cast, fw: u32, tw: u32, v: &V) -> XR<V> {
        if let V::A(x) = v {
            let mut o = vec![];
            for e in x.iter() {
                o.push(self.cast1(k, fw, tw, e)?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        if fw > 128 || tw > 128 {
            return match (k, v) {
                (Cast::Trunc, V::W(b)) if tw <= 128 => {
                    let n = (tw + 7) / 8;
                    let mut acc: Option<Id> = None;
                    for x in b.iter().take(n as usize) {
                        let x = self.ids(x, 8)?;
                        acc = Some(match acc {
                            None => x,
                            Some(l) => self.p.cat(x, l),
                        });
                    }
                    let e = self.p.ext(acc.unwrap(), 0, tw);
                    Ok(self.val(e))
                }
                (Cast::Zext, _) if fw <= 128 => {
                    let fw8 = (fw + 7) / 8 * 8;
                    let x = self.ids(v, fw)?;
                    let x = self.p.zx(x, fw8);
                    let mut o = vec![];
                    for q in 0..(tw + 7) / 8 {
                        if q * 8 < fw8 {
                            let b = self.p.ext(x, q * 8, 8);
                            o.push(self.val(b));
                        } else {
                            o.push(V::I(0));
                        }
                    }
                    Ok(V::W(Rc::new(o)))
                }
                _ => eng(format!("wide cast {k:?} {fw} {tw}")),
            };
        }
        let f64v = |c: u128| {
            if fw == 32 {
                f32::from_bits(c as u32) as f64
            } else {
                f64::from_bits(c as u64)
            }
        };
        let fout = |f: f64| {
            if tw == 32 {
                (f as f32).to_bits() as u128
            } else {
                f.to_bits() as u128
            }
        };
        match (k, v) {
            (Cast::Zext | Cast::Same, V::I(c)) => Ok(V::I(*c)),
            (Cast::Sext, V::I(c)) => Ok(V::I((sx(*c, fw) as u128) & mask(tw))),
            (Cast::Trunc, V::I(c)) => Ok(V::I(*c & mask(tw))),
            (Cast::Zext, V::S(i)) => {
                let r = self.p.zx(*i, tw);
                Ok(self.val(r))
            }
            (Cast::Sext, V::S(i)) => {
                let r = self.p.sxt(*i, tw);
                Ok(self.val(r))
            }
            (Cast::Trunc, V::S(i)) => {
                let r = self.p.ext(*i, 0, tw);
                Ok(self.val(r))
            }
            (Cast::Same, V::S(_)) => Ok(v.clone()),
            (Cast::UiToFp, V::I(c)) => Ok(V::I(fout(*c as f64))),
            (Cast::SiToFp, V::I(c)) => Ok(V::I(fout(sx(*c, fw) as f64))),
            (Cast::FpToUi, V::I(c)) => Ok(V::I((f64v(*c) as u128) & mask(tw))),
            (Cast::FpToSi, V::I(c)) => Ok(V::I((f64v(*c) as i128 as u128) & mask(tw))),
            (Cast::FpExt | Cast::FpTrunc, V::I(c)) => Ok(V::I(fout(f64v(*c)))),
            _ => eng(format!("cast {k:?} on symbolic")),
        }
    }
    fn to_bits(&mut self, ty: &Ty, v: &V) -> XR<V> {
        match ty {
            Ty::Vector(_, t) => {
                let w = t.width();
                if let V::A(x) = v {
                    if x.len() as u32 * w > 128 {
                        // wide: to bytes
                        let mut o = vec![];
                        for e in x.iter() {
                            let e = self.ids(e, w)?;
                            for k in 0..w / 8 {
                                let b = self.p.ext_keep(e, k * 8, 8);
                                o.push(self.val(b));
                            }
                        }
                        return Ok(V::W(Rc::new(o)));
                    }
                    let mut acc: Option<Id> = None;
                    for e in x.iter() {
                        let e = self.ids(e, w)?;
                        acc = Some(match acc {
                            None => e,
                            Some(l) => self.p.cat(e, l),
                        });
                    }
                    return Ok(self.val(acc.unwrap()));
                }
                eng("bitcast")
            }
            _ => Ok(v.clone()),
        }
    }
    fn from_bits(&mut self, ty: &Ty, v: &V) -> XR<V> {
        match ty {
            Ty::Vector(n, t) => {
                let w = t.width();
                let tot = *n as u32 * w;
                let mut o = vec![];
                if let V::W(b) = v {
                    for k in 0..*n as usize {
                        let mut acc: Option<Id> = None;
                        for q in 0..(w / 8) as usize {
                            let x = self.ids(&b[k * (w / 8) as usize + q], 8)?;
                            acc = Some(match acc {
                                None => x,
                                Some(l) => self.p.cat(x, l),
                            });
                        }
                        o.push(self.val(acc.unwrap()));
                    }
                    return Ok(V::A(Rc::new(o)));
                }
                let i = self.ids(v, tot)?;
                for k in 0..*n as u32 {
                    let e = self.p.ext(i, k * w, w);
                    o.push(self.val(e));
                }
                Ok(V::A(Rc::new(o)))
            }
            _ => Ok(v.clone()),
        }
    }

    fn func(&mut self, n: &Rc<str>) -> XR<Rc<Func>> {
        if let Some(f) = self.fcache.get(n) {
            return Ok(f.clone());
        }
        let f = Rc::new(self.m.parse_func(n).map_err(End::Engine)?);
        self.fcache.insert(n.clone(), f.clone());
        let pr = &self.m.funcs[n].pretty;
        self.used.insert(if pr.is_empty() { n.to_string() } else { pr.clone() });
        Ok(f)
    }
    fn resolve(&mut self, n: &Rc<str>) -> XR<Target> {
        if let Some(src) = self.m.funcs.get(n) {
            let pr = src.pretty.as_str();
            let n2: &str = n;
            let is_panic = pr.starts_with("core::panicking::")
                || pr.starts_with("core::option::unwrap_failed")
                || pr.starts_with("core::option::expect_failed")
                || pr.starts_with("core::result::unwrap_failed")
                || pr.starts_with("core::slice::index::slice_")
                || pr.starts_with("core::str::slice_error_fail")
                || pr.starts_with("core::cell::panic_already")
                || pr.starts_with("alloc::raw_vec::handle_error")
                || pr.starts_with("alloc::raw_vec::capacity_overflow")
                || pr.starts_with("alloc::alloc::handle_alloc_error")
                || pr.contains("panic_const")
                || pr.contains("rust_begin_unwind")
                || n2.contains("17rust_begin_unwind")
                || n2.contains("9panicking9panic_fmt");
            if is_panic {
                return Ok(Target::Panic(n.clone()));
            }
            let n: &str = n;
            if n.contains("___rust_alloc_zeroed") || n.contains("18___rust_alloc_zeroed") {
                return Ok(Target::Builtin("__rust_alloc_zeroed".into()));
            }
            if n.ends_with("12___rust_alloc") {
                return Ok(Target::Builtin("__rust_alloc".into()));
            }
            if n.ends_with("14___rust_dealloc") {
                return Ok(Target::Builtin("__rust_dealloc".into()));
            }
            if n.ends_with("14___rust_realloc") {
                return Ok(Target::Builtin("__rust_realloc".into()));
            }
            let k: Rc<str> = n.into();
            if n.ends_with("3fmt6format12format_inner") {
                return Ok(Target::Fmt(self.func(&k)?));
            }
            return Ok(Target::Func(self.func(&k)?));
        }
        Ok(Target::Builtin(n.clone()))
    }

    fn malloc(&mut self, st: &mut State, n: u64, al: u64) -> XR<u64> {
        if n > 1 << 28 {
            return Ok(0);
        }
        let al = al.max(16);
        let mut a = st.heap + 16;
        a = (a + al - 1) / al * al;
        st.heap = a + n.max(1);
        st.mem.map(a - 16, n + 16);
        st.mem.write_c(a - 16, n as u128, 8).map_err(End::Engine)?;
        if st.heap > 0xf000_0000 {
            return Err(End::Limit("heap".into()));
        }
        Ok(a)
    }

    fn jump(&mut self, st: &mut State, to: u32) -> XR<()> {
        let fr = st.fr.last_mut().unwrap();
        let from = fr.b;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut tmp: Vec<(u32, V)> = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let o = inc
                    .iter()
                    .find(|x| x.0 == from)
                    .ok_or_else(|| End::Engine("phi edge".into()))?;
                let v = match &o.1 {
                    Op::R(r) => fr.regs[*r as usize].clone(),
                    Op::C(v) => v.clone(),
                };
                tmp.push((*d, v));
            }
            for (d, v) in tmp {
                fr.regs[d as usize] = v;
            }
        }
        fr.b = to;
        fr.ip = 0;
        Ok(())
    }

    fn rd_str(&mut self, st: &State, a: u64, n: u64) -> String {
        let mut v = vec![];
        for k in 0..n.min(4000) {
            match st.mem.get(a + k) {
                Ok(Ok(b)) => v.push(b),
                Ok(Err(i)) => v.push(self.p.eval(i, &st.model) as u8),
                _ => break,
            }
        }
        String::from_utf8_lossy(&v).to_string()
    }
    fn panic_info(&mut self, st: &State, n: &str, args: &[V]) -> String {
        let mut s = self
            .m
            .funcs
            .get(n)
            .map(|f| f.pretty.clone())
            .unwrap_or_default();
        if s.is_empty() {
            s = n.to_string();
        }
        for v in args.iter().rev() {
            if let V::I(a) = v {
                let a = *a as u64;
                if let (Ok(Some(p)), Ok(Some(l)), Ok(Some(lc))) = (st.mem.read_c(a, 8), st.mem.read_c(a + 8, 8), st.mem.read_c(a + 16, 8)) {
                    if l > 3 && l < 400 && st.mem.page(p as u64).is_some() {
                        let f = self.rd_str(st, p as u64, l as u64);
                        if f.ends_with(".rs") {
                            s = format!("{s} at {f}:{}", lc as u32);
                            break;
                        }
                    }
                }
            }
        }
        // innermost application frame, for context
        for f in st.fr.iter().rev() {
            let pr = self.m.funcs.get(&f.f.name).map(|f| f.pretty.clone()).unwrap_or_default();
            if pr.contains("doodle") || pr.contains("smallsorts") {
                s = format!("{s} in {pr}");
                break;
            }
        }
        s
    }

    /// The block where all paths from block `b` meet again, if everything before it is a small region without effects.
    fn join_of(&mut self, f: &Rc<Func>, b: u32) -> Option<u32> {
        fn pure(b: &crate::ir::Block) -> bool {
            let n = b.ins.len();
            n <= 24
                && b.ins[..n - 1].iter().all(|i| match i {
                    Ins::Bin(BinOp::B(op), ..) => !matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem),
                    Ins::Icmp(..) | Ins::Load(..) | Ins::Gep(..) | Ins::Cast(..) | Ins::Select(..) | Ins::Freeze(..) | Ins::ExtractV(..) | Ins::Nop => true,
                    _ => false,
                })
        }
        fn succs(b: &crate::ir::Block) -> Vec<u32> {
            match b.ins.last().unwrap() {
                Ins::Br(t) => vec![*t],
                Ins::CondBr(_, x, y) => vec![*x, *y],
                Ins::Switch(_, _, d, cs) => {
                    let mut v = vec![*d];
                    for c in cs {
                        if !v.contains(&c.1) {
                            v.push(c.1);
                        }
                    }
                    v
                }
                _ => vec![],
            }
        }
        fn walk(f: &Func, b: u32, path: &mut Vec<u32>, out: &mut Vec<Vec<u32>>) -> bool {
            if out.len() > 40 || path.len() > 10 {
                return false;
            }
            if path.contains(&b) {
                return false;
            }
            path.push(b);
            let blk = &f.blocks[b as usize];
            let ss = succs(blk);
            if !pure(blk) || ss.is_empty() {
                // nothing after this block can be part of the region
                out.push(path.clone());
            } else {
                for s in ss {
                    if !walk(f, s, path, out) {
                        // keep what was seen of the path: it ends here
                        out.push(path.clone());
                    }
                }
            }
            path.pop();
            true
        }
        let key = (Rc::as_ptr(f) as usize, b);
        if let Some(r) = self.joins.get(&key) {
            return *r;
        }
        let mut out = vec![];
        let mut path = vec![b];
        for s in succs(&f.blocks[b as usize]) {
            if !walk(f, s, &mut path, &mut out) {
                out.push(path.clone());
            }
        }
        let r = out[0][1..].iter().copied().find(|j| out.iter().all(|p| p[1..].contains(j)));
        // every block before the join must be free of effects
        let r = r.filter(|j| {
            out.len() <= 40
                && out.iter().all(|p| {
                    let k = p.iter().position(|x| x == j).unwrap();
                    p[1..k].iter().all(|x| pure(&f.blocks[*x as usize]))
                })
        });
        self.joins.insert(key, r);
        r
    }
    /// Values of the join's phis when control reaches `b` from `from` (None: give up).
    fn region(&mut self, st: &mut State, f: &Rc<Func>, from: u32, b: u32, join: u32, var: u32, fuel: &mut u32) -> XR<Option<Vec<V>>> {
        let blk = &f.blocks[b as usize];
        let mut tmp = Vec::with_capacity(blk.phis.len());
        for (_, inc) in &blk.phis {
            let o = inc.iter().find(|x| x.0 == from).ok_or_else(|| End::Engine("phi edge".into()))?;
            tmp.push(self.op(st, &o.1));
        }
        if b == join {
            return Ok(Some(tmp));
        }
        if *fuel == 0 {
            return Ok(None);
        }
        *fuel -= 1;
        for (v, (d, _)) in tmp.into_iter().zip(&blk.phis) {
            self.set(st, *d, v);
        }
        {
            let fr = st.fr.last_mut().unwrap();
            fr.b = b;
            fr.ip = 0;
        }
        for i in &blk.ins[..blk.ins.len() - 1] {
            match i {
                Ins::Load(_, _, a) => {
                    let V::I(a) = self.op(st, a) else { return Ok(None) };
                    if (a as u64) < 0x1000 {
                        return Ok(None);
                    }
                }
                Ins::Select(_, _, Ty::Int(_), ..) => {}
                Ins::Select(_, _, _, c, ..) => {
                    if !matches!(self.op(st, c), V::I(_)) {
                        return Ok(None);
                    }
                }
                _ => {}
            }
            if self.step(st).is_err() {
                return Ok(None);
            }
        }
        self.branch(st, f, b, join, var, fuel)
    }
    fn branch(&mut self, st: &mut State, f: &Rc<Func>, b: u32, join: u32, var: u32, fuel: &mut u32) -> XR<Option<Vec<V>>> {
        let term = f.blocks[b as usize].ins.last().unwrap();
        let arms: Vec<(Option<Id>, u32)> = match term {
            Ins::Br(t) => vec![(None, *t)],
            Ins::CondBr(c, x, y) => match self.op(st, c) {
                V::I(k) => vec![(None, if k != 0 { *x } else { *y })],
                V::S(i) => vec![(Some(i), *x), (None, *y)],
                _ => return Ok(None),
            },
            Ins::Switch(v, w, d, cs) => match self.op(st, v) {
                V::I(k) => vec![(None, cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d))],
                V::S(i) => {
                    if cs.len() > 8 {
                        return Ok(None);
                    }
                    let mut r = vec![];
                    for (c, t) in cs {
                        let kc = self.p.konst(*c, *w);
                        r.push((Some(self.p.bin(B::Eq, i, kc)), *t));
                    }
                    r.push((None, *d));
                    r
                }
                _ => return Ok(None),
            },
            _ => return Ok(None),
        };
        for (c, _) in &arms {
            if let Some(c) = c {
                if self.p.c(*c).is_none() && self.p.sup(*c) != var {
                    return Ok(None);
                }
            }
        }
        let mut acc: Option<Vec<V>> = None;
        for (c, t) in arms.into_iter().rev() {
            let Some(r) = self.region(st, f, b, t, join, var, fuel)? else { return Ok(None) };
            acc = Some(match (acc, c) {
                (None, _) => r,
                (Some(e), None) => {
                    let _ = e;
                    r
                }
                (Some(e), Some(c)) => {
                    let tys = &f.blocks[join as usize].phi_ty;
                    let mut o = vec![];
                    for (k, (x, y)) in r.iter().zip(&e).enumerate() {
                        let same = match (x, y) {
                            (V::I(p), V::I(q)) => p == q,
                            (V::S(p), V::S(q)) => p == q,
                            _ => false,
                        };
                        if same {
                            o.push(x.clone());
                            continue;
                        }
                        match &tys[k] {
                            Ty::Int(w) if *w <= 128 => {
                                let (p, q) = (self.ids(x, *w)?, self.ids(y, *w)?);
                                let z = self.p.ite(c, p, q);
                                if self.p.c(z).is_none() && self.p.sup(z) == MANY {
                                    return Ok(None);
                                }
                                o.push(self.val(z));
                            }
                            _ => return Ok(None),
                        }
                    }
                    o
                }
            });
        }
        Ok(acc)
    }
    /// A branch on one input byte whose arms have no effects and meet again: compute both arms and select, instead of forking.
    fn if_convert(&mut self, st: &mut State) -> XR<bool> {
        if !self.merge {
            return Ok(false);
        }
        let (f, b, ip) = {
            let fr = st.fr.last().unwrap();
            (fr.f.clone(), fr.b, fr.ip)
        };
        let term = f.blocks[b as usize].ins.last().unwrap();
        let c = match term {
            Ins::CondBr(c, ..) => self.op(st, c),
            Ins::Switch(v, ..) => self.op(st, v),
            _ => return Ok(false),
        };
        let V::S(c) = c else { return Ok(false) };
        let var = self.p.sup(c);
        if var == MANY {
            return Ok(false);
        }
        let Some(j) = self.join_of(&f, b) else { return Ok(false) };
        // the phis of the join may feed only data: a join without phis gains nothing but is fine
        let mut fuel = 40;
        let saved = st.fr.last().unwrap().regs.clone();
        let r = self.branch(st, &f, b, j, var, &mut fuel)?;
        let fr = st.fr.last_mut().unwrap();
        match r {
            None => {
                fr.regs = saved;
                fr.b = b;
                fr.ip = ip;
                Ok(false)
            }
            Some(vs) => {
                for (v, (d, _)) in vs.into_iter().zip(&f.blocks[j as usize].phis) {
                    fr.regs[*d as usize] = v;
                }
                fr.b = j;
                fr.ip = 0;
                self.merged += 1;
                Ok(true)
            }
        }
    }

    fn step(&mut self, st: &mut State) -> XR<()> {
        let fr = st.fr.last_mut().unwrap();
        let f = fr.f.clone();
        let ins = &f.blocks[fr.b as usize].ins[fr.ip as usize];
        fr.ip += 1;
        st.steps += 1;
        self.instrs += 1;
        if st.steps > self.max_steps {
            return Err(End::Limit("steps".into()));
        }
        match ins {
            Ins::Bin(BinOp::B(op), ty, d, a, b) => {
                let w = match ty {
                    Ty::Vector(_, t) => t.width(),
                    t => t.width(),
                };
                let x = self.op(st, a);
                let y = self.op(st, b);
                let r = self.bin1(*op, w, &x, &y)?;
                self.set(st, *d, r);
            }
            Ins::Icmp(pr, ty, d, a, b) => {
                let w = match ty {
                    Ty::Vector(_, t) => t.width(),
                    t => t.width(),
                };
                let x = self.op(st, a);
                let y = self.op(st, b);
                let r = self.icmp1(*pr, w, &x, &y)?;
                self.set(st, *d, r);
            }
            Ins::Load(ty, d, a) => {
                let x = self.op(st, a);
                let r = self.load_at(st, ty, &x)?;
                self.set(st, *d, r);
            }
            Ins::Store(ty, v, a) => {
                let x = self.op(st, a);
                let v = self.op(st, v);
                self.store_at(st, ty, &x, &v)?;
            }
            Ins::Gep(d, base, off, dy) => {
                let b = self.op(st, base);
                let mut acc = b;
                if *off != 0 {
                    acc = self.bin1(B::Add, 64, &acc, &V::I(*off as u64 as u128))?;
                }
                for (o, sc, w) in dy {
                    let i = self.op(st, o);
                    let i = if *w < 64 {
                        self.cast1(Cast::Sext, *w, 64, &i)?
                    } else if *w > 64 {
                        self.cast1(Cast::Trunc, *w, 64, &i)?
                    } else {
                        i
                    };
                    let i = self.bin1(B::Mul, 64, &i, &V::I(*sc as u128))?;
                    acc = self.bin1(B::Add, 64, &acc, &i)?;
                }
                self.set(st, *d, acc);
            }
            Ins::Alloca(d, sz, al, cnt) => {
                let n = match cnt {
                    None => 1,
                    Some(o) => {
                        let v = self.op(st, o);
                        self.concretize(st, &v)? as u64
                    }
                };
                let a = (st.sp + al - 1) / al * al;
                st.sp = a + sz * n;
                if st.sp > HEAP_BASE - 0x1000 {
                    return Err(End::Limit("stack overflow".into()));
                }
                st.mem.map(a, sz * n);
                self.set(st, *d, V::I(a as u128));
            }
            Ins::Cast(k, from, to, d, a) => {
                let v = self.op(st, a);
                let r = if *k == Cast::Bit {
                    let b = self.to_bits(from, &v)?;
                    self.from_bits(to, &b)?
                } else {
                    let fw = match from {
                        Ty::Vector(_, t) => t.width(),
                        t => t.width(),
                    };
                    let tw = match to {
                        Ty::Vector(_, t) => t.width(),
                        t => t.width(),
                    };
                    self.cast1(*k, fw, tw, &v)?
                };
                self.set(st, *d, r);
            }
            Ins::Select(ct, d, ty, c, a, b) => {
                let cv = self.op(st, c);
                let x = self.op(st, a);
                let y = self.op(st, b);
                let r = self.select(st, ct, ty, &cv, &x, &y)?;
                self.set(st, *d, r);
            }
            Ins::Br(t) => self.jump(st, *t)?,
            Ins::CondBr(c, a, b) => {
                let v = self.op(st, c);
                let t = match v {
                    V::I(x) => x != 0,
                    V::S(i) => {
                        if self.if_convert(st)? {
                            return Ok(());
                        }
                        self.decide(st, i)?
                    }
                    _ => return eng("br"),
                };
                self.jump(st, if t { *a } else { *b })?;
            }
            Ins::Switch(v, w, dflt, cs) => {
                let x = self.op(st, v);
                match x {
                    V::I(k) => {
                        let t = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*dflt);
                        self.jump(st, t)?;
                    }
                    V::S(i) => {
                        if self.if_convert(st)? {
                            return Ok(());
                        }
                        // follow the model's target; fork the rest as "not this target"
                        let k = self.p.eval(i, &st.model);
                        let t = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*dflt);
                        let mut cond = self.p.konst(0, 1);
                        let mut any = self.p.konst(0, 1);
                        for (c, tt) in cs {
                            let kc = self.p.konst(*c, *w);
                            let eq = self.p.bin(B::Eq, i, kc);
                            if *tt == t {
                                cond = self.p.bin(B::Or, cond, eq);
                            }
                            any = self.p.bin(B::Or, any, eq);
                        }
                        if t == *dflt {
                            let na = self.p.not(any);
                            cond = self.p.bin(B::Or, cond, na);
                        }
                        let r = self.decide(st, cond)?;
                        debug_assert!(r);
                        self.jump(st, t)?;
                    }
                    _ => return eng("switch"),
                }
            }
            Ins::Ret(v) => {
                let r = v.as_ref().map(|o| self.op(st, o));
                let fr = st.fr.pop().unwrap();
                st.sp = fr.sp;
                if st.fr.is_empty() {
                    return Err(End::Ok);
                }
                if let (Some(d), Some(r)) = (fr.dst, r) {
                    self.set(st, d, r);
                }
                if let Some(n) = fr.normal {
                    self.jump(st, n)?;
                }
            }
            Ins::Call(c) => self.call(st, c)?,
            Ins::ExtractV(d, a, ix) => {
                let mut v = self.op(st, a);
                for i in ix {
                    v = match &v {
                        V::A(x) => x[*i].clone(),
                        _ => return eng("extractvalue"),
                    };
                }
                self.set(st, *d, v);
            }
            Ins::InsertV(d, a, v, ix, _) => {
                let a = self.op(st, a);
                let v = self.op(st, v);
                fn ins(a: &V, v: V, ix: &[usize]) -> V {
                    if ix.is_empty() {
                        return v;
                    }
                    match a {
                        V::A(x) => {
                            let mut y = (**x).clone();
                            y[ix[0]] = ins(&x[ix[0]], v, &ix[1..]);
                            V::A(Rc::new(y))
                        }
                        _ => a.clone(),
                    }
                }
                let r = ins(&a, v, ix);
                self.set(st, *d, r);
            }
            Ins::ExtractE(d, _, a, i) => {
                let a = self.op(st, a);
                let i = self.op(st, i);
                let k = self.concretize(st, &i)? as usize;
                let r = match &a {
                    V::A(x) => x[k].clone(),
                    _ => return eng("extractelement"),
                };
                self.set(st, *d, r);
            }
            Ins::InsertE(d, _, a, v, i) => {
                let a = self.op(st, a);
                let v = self.op(st, v);
                let i = self.op(st, i);
                let k = self.concretize(st, &i)? as usize;
                let r = match &a {
                    V::A(x) => {
                        let mut y = (**x).clone();
                        y[k] = v;
                        V::A(Rc::new(y))
                    }
                    _ => return eng("insertelement"),
                };
                self.set(st, *d, r);
            }
            Ins::Shuffle(d, _, a, b, mk) => {
                let a = self.op(st, a);
                let b = self.op(st, b);
                let r = match (&a, &b) {
                    (V::A(x), V::A(y)) => {
                        let n = x.len();
                        V::A(Rc::new(
                            mk.iter()
                                .map(|k| {
                                    let k = *k as usize;
                                    if k < n {
                                        x[k].clone()
                                    } else {
                                        y[k - n].clone()
                                    }
                                })
                                .collect(),
                        ))
                    }
                    _ => return eng("shuffle"),
                };
                self.set(st, *d, r);
            }
            Ins::Freeze(d, a) => {
                let v = self.op(st, a);
                self.set(st, *d, v);
            }
            Ins::Rmw(o, ty, d, a, v) => {
                let ad = self.op(st, a);
                let v = self.op(st, v);
                let old = self.load_at(st, ty, &ad)?;
                let w = ty.width();
                let nv = match o.as_str() {
                    "xchg" => v,
                    "add" => self.bin1(B::Add, w, &old, &v)?,
                    "sub" => self.bin1(B::Sub, w, &old, &v)?,
                    "or" => self.bin1(B::Or, w, &old, &v)?,
                    "and" => self.bin1(B::And, w, &old, &v)?,
                    "xor" => self.bin1(B::Xor, w, &old, &v)?,
                    _ => return eng(format!("rmw {o}")),
                };
                self.store_at(st, ty, &ad, &nv)?;
                self.set(st, *d, old);
            }
            Ins::CmpXchg(ty, d, a, c, n) => {
                let ad = self.op(st, a);
                let c = self.op(st, c);
                let n = self.op(st, n);
                let old = self.load_at(st, ty, &ad)?;
                let eq = self.icmp1(Pred::Eq, ty.width(), &old, &c)?;
                let e = self.concretize(st, &eq)?;
                if e != 0 {
                    self.store_at(st, ty, &ad, &n)?;
                }
                self.set(st, *d, V::A(Rc::new(vec![old, V::I(e)])));
            }
            Ins::FBin(k, ty, d, a, b) => {
                let x = self.op(st, a);
                let y = self.op(st, b);
                let (x, y) = (self.concretize(st, &x)?, self.concretize(st, &y)?);
                let r = if *ty == Ty::F32 {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    (match k {
                        b'a' => x + y,
                        b's' => x - y,
                        b'm' => x * y,
                        b'd' => x / y,
                        _ => x % y,
                    })
                    .to_bits() as u128
                } else {
                    let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                    (match k {
                        b'a' => x + y,
                        b's' => x - y,
                        b'm' => x * y,
                        b'd' => x / y,
                        _ => x % y,
                    })
                    .to_bits() as u128
                };
                self.set(st, *d, V::I(r));
            }
            Ins::FNeg(ty, d, a) => {
                let x = self.op(st, a);
                let x = self.concretize(st, &x)?;
                let w = ty.width();
                self.set(st, *d, V::I(x ^ (1u128 << (w - 1))));
            }
            Ins::Fcmp(p, ty, d, a, b) => {
                let x = self.op(st, a);
                let y = self.op(st, b);
                let (x, y) = (self.concretize(st, &x)?, self.concretize(st, &y)?);
                let g = |v: u128| {
                    if *ty == Ty::F32 {
                        f32::from_bits(v as u32) as f64
                    } else {
                        f64::from_bits(v as u64)
                    }
                };
                let (x, y) = (g(x), g(y));
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "one" => !un && x != y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "une" => un || x != y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    _ => return eng("fcmp"),
                };
                self.set(st, *d, V::I(r as u128));
            }
            Ins::Nop => {}
            Ins::Unreachable => return eng(format!("reached unreachable in {}", f.name)),
            Ins::Bad(s) => return eng(format!("undecoded instruction: {s}")),
        }
        Ok(())
    }

    fn select(&mut self, st: &mut State, ct: &Ty, ty: &Ty, c: &V, x: &V, y: &V) -> XR<V> {
        if let (V::A(cs), V::A(xs), V::A(ys), Ty::Vector(..)) = (c, x, y, ct) {
            let et = ty.elem(0);
            let mut o = vec![];
            for k in 0..cs.len() {
                o.push(self.select(st, &Ty::Int(1), &et, &cs[k], &xs[k], &ys[k])?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        match c {
            V::I(k) => Ok(if *k != 0 { x.clone() } else { y.clone() }),
            V::S(i) => {
                let scalar = matches!(ty, Ty::Int(w) if *w <= 128);
                if scalar {
                    let w = ty.width();
                    let a = self.ids(x, w)?;
                    let b = self.ids(y, w)?;
                    let r = self.p.ite(*i, a, b);
                    Ok(self.val(r))
                } else {
                    if let (V::I(a), V::I(b)) = (x, y) {
                        if a == b {
                            return Ok(x.clone());
                        }
                    }
                    let t = self.decide(st, *i)?;
                    Ok(if t { x.clone() } else { y.clone() })
                }
            }
            _ => eng("select"),
        }
    }

    fn call(&mut self, st: &mut State, c: &CallI) -> XR<()> {
        let tgt = match &c.callee {
            Callee::Direct(n) => match c.cache.get() {
                Some(t) => t.clone(),
                None => {
                    let t = self.resolve(n)?;
                    let _ = c.cache.set(t.clone());
                    t
                }
            },
            Callee::Indirect(o) => {
                let v = self.op(st, o);
                let a = self.concretize(st, &v)? as u64;
                let n = self.m.fn_at.get(&a).cloned().ok_or_else(|| End::Engine(format!("call to {a:#x}")))?;
                self.resolve(&n)?
            }
            Callee::Asm(s) => {
                if s.starts_with("div ") {
                    // {dx, ax} = {remainder, quotient} of dx:ax by the first operand
                    let mut v = vec![];
                    for (_, o) in &c.args {
                        let x = self.op(st, o);
                        v.push(self.ids(&x, 64)?);
                    }
                    let (n, d) = if self.p.c(v[1]) == Some(0) {
                        (v[2], v[0])
                    } else {
                        (self.p.cat(v[1], v[2]), self.p.zx(v[0], 128))
                    };
                    let r = self.p.bin(B::URem, n, d);
                    let q = self.p.bin(B::UDiv, n, d);
                    let (r, q) = (self.p.ext(r, 0, 64), self.p.ext(q, 0, 64));
                    let r = V::A(Rc::new(vec![self.val(r), self.val(q)]));
                    if let Some(d) = c.dst {
                        self.set(st, d, r);
                    }
                    return Ok(());
                }
                if s.is_empty() {
                    return Ok(());
                }
                return eng(format!("asm {s}"));
            }
        };
        let tgt = match tgt {
            Target::Fmt(_) if st.nofmt != 0 => Target::Builtin("format_inner".into()),
            Target::Fmt(f) => Target::Func(f),
            t => t,
        };
        match tgt {
            Target::Fmt(_) => unreachable!(),
            Target::Func(f) => {
                let mut regs = vec![V::I(0); f.nregs as usize];
                for (k, (_, o)) in c.args.iter().enumerate() {
                    if k < f.params.len() {
                        regs[f.params[k] as usize] = self.op(st, o);
                    }
                }
                if st.fr.len() > 3000 {
                    return Err(End::Limit("call depth".into()));
                }
                if self.trace {
                    eprintln!("{}call {}", " ".repeat(st.fr.len()), f.name);
                }
                st.fr.push(Frame {
                    f,
                    b: 0,
                    ip: 0,
                    regs,
                    sp: st.sp,
                    dst: c.dst,
                    normal: c.normal,
                });
                Ok(())
            }
            Target::Panic(n) => {
                let args: Vec<V> = c.args.iter().map(|(_, o)| self.op(st, o)).collect();
                let s = self.panic_info(st, &n, &args);
                Err(End::Panic(s))
            }
            Target::Builtin(n) => {
                let args: Vec<V> = c.args.iter().map(|(_, o)| self.op(st, o)).collect();
                let r = self.builtin(st, &n, c, &args)?;
                if let (Some(d), Some(r)) = (c.dst, r) {
                    self.set(st, d, r);
                }
                if let Some(b) = c.normal {
                    self.jump(st, b)?;
                }
                Ok(())
            }
        }
    }

    fn lanes(&mut self, ty: &Ty, args: &[V], f: &mut dyn FnMut(&mut Ex, u32, &[V]) -> XR<V>) -> XR<V> {
        match ty {
            Ty::Vector(n, t) => {
                let w = t.width();
                let mut o = vec![];
                for k in 0..*n as usize {
                    let a: Vec<V> = args
                        .iter()
                        .map(|v| match v {
                            V::A(x) => x[k].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    o.push(f(self, w, &a)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            t => f(self, t.width(), args),
        }
    }

    fn bytes_at(&mut self, st: &State, a: u64, n: u64) -> XR<Vec<Id>> {
        let mut v = vec![];
        for k in 0..n {
            v.push(match st.mem.get(a + k).map_err(End::Engine)? {
                Ok(b) => self.p.konst(b as u128, 8),
                Err(i) => i,
            });
        }
        Ok(v)
    }

    fn builtin(&mut self, st: &mut State, n: &str, c: &CallI, a: &[V]) -> XR<Option<V>> {
        let one = |v: V| Ok(Some(v));
        if let Some(i) = n.strip_prefix("llvm.") {
            return self.intrinsic(st, i, c, a);
        }
        match n {
            "__rust_alloc" | "__rust_alloc_zeroed" => {
                let sz = self.concretize(st, &a[0])? as u64;
                let al = self.concretize(st, &a[1])? as u64;
                let p = self.malloc(st, sz, al)?;
                one(V::I(p as u128))
            }
            "__rust_dealloc" | "free" => Ok(None),
            "__rust_realloc" | "realloc" => {
                let old = self.concretize(st, &a[0])? as u64;
                let (al, sz) = if n == "realloc" {
                    (16, self.concretize(st, &a[1])? as u64)
                } else {
                    (self.concretize(st, &a[2])? as u64, self.concretize(st, &a[3])? as u64)
                };
                let p = self.malloc(st, sz, al)?;
                if old != 0 && p != 0 {
                    let on = st.mem.read_c(old - 16, 8).map_err(End::Engine)?.unwrap_or(0) as u64;
                    st.mem.copy(p, old, on.min(sz)).map_err(End::Engine)?;
                }
                one(V::I(p as u128))
            }
            "malloc" => {
                let sz = self.concretize(st, &a[0])? as u64;
                let p = self.malloc(st, sz, 16)?;
                one(V::I(p as u128))
            }
            "calloc" => {
                let x = self.concretize(st, &a[0])? as u64;
                let y = self.concretize(st, &a[1])? as u64;
                let p = self.malloc(st, x * y, 16)?;
                one(V::I(p as u128))
            }
            "posix_memalign" => {
                let al = self.concretize(st, &a[1])? as u64;
                let sz = self.concretize(st, &a[2])? as u64;
                let p = self.malloc(st, sz, al)?;
                self.store_at(st, &Ty::Ptr, &a[0], &V::I(p as u128))?;
                one(V::I(0))
            }
            "bcmp" | "memcmp" => {
                let x = self.concretize(st, &a[0])? as u64;
                let y = self.concretize(st, &a[1])? as u64;
                let k = self.concretize(st, &a[2])? as u64;
                let p = self.bytes_at(st, x, k)?;
                let q = self.bytes_at(st, y, k)?;
                let mut acc = self.p.konst(0, 32);
                let (neg, pos) = (self.p.konst(u32::MAX as u128, 32), self.p.konst(1, 32));
                for j in (0..k as usize).rev() {
                    let eq = self.p.bin(B::Eq, p[j], q[j]);
                    let d = if n == "bcmp" {
                        pos
                    } else {
                        let lt = self.p.bin(B::Ult, p[j], q[j]);
                        self.p.ite(lt, neg, pos)
                    };
                    acc = self.p.ite(eq, acc, d);
                }
                one(self.val(acc))
            }
            "memchr" | "memrchr" => {
                let x = self.concretize(st, &a[0])? as u64;
                let ch = self.concretize(st, &a[1])? as u8;
                let k = self.concretize(st, &a[2])? as u64;
                let rng: Vec<u64> = if n == "memchr" { (0..k).collect() } else { (0..k).rev().collect() };
                for j in rng {
                    let b = match st.mem.get(x + j).map_err(End::Engine)? {
                        Ok(b) => b == ch,
                        Err(i) => {
                            let kc = self.p.konst(ch as u128, 8);
                            let eq = self.p.bin(B::Eq, i, kc);
                            self.decide(st, eq)?
                        }
                    };
                    if b {
                        return one(V::I((x + j) as u128));
                    }
                }
                one(V::I(0))
            }
            "strlen" => {
                let x = self.concretize(st, &a[0])? as u64;
                let mut k = 0;
                while st.mem.read_c(x + k, 1).map_err(End::Engine)? != Some(0) {
                    k += 1;
                }
                one(V::I(k as u128))
            }
            "getenv" => one(V::I(0)),
            "getrandom" => {
                let x = self.concretize(st, &a[0])? as u64;
                let k = self.concretize(st, &a[1])? as u64;
                for j in 0..k {
                    st.mem.put(x + j, Ok((j * 37 + 11) as u8)).map_err(End::Engine)?;
                }
                one(V::I(k as u128))
            }
            "syscall" => one(V::I(1)),
            "gettid" | "getpid" => one(V::I(1)),
            "write" => one(a[2].clone()),
            "writev" => {
                let p = self.concretize(st, &a[1])? as u64;
                let k = self.concretize(st, &a[2])? as u64;
                let mut t = 0;
                for j in 0..k {
                    t += st.mem.read_c(p + j * 16 + 8, 8).map_err(End::Engine)?.unwrap_or(0);
                }
                one(V::I(t))
            }
            "__errno_location" => one(V::I(self.errno as u128)),
            "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" | "_Unwind_Backtrace" => {
                one(V::I(0))
            }
            "abort" => Err(End::Panic("abort".into())),
            // ---- harness interface
            "sym_bytes" => {
                let x = self.concretize(st, &a[0])? as u64;
                let k = self.concretize(st, &a[1])? as u64;
                for j in 0..k {
                    let v = self.p.var(st.nv);
                    st.nv += 1;
                    st.mem.put(x + j, Err(v)).map_err(End::Engine)?;
                    st.inputs.push(Err(v));
                }
                let mut m = (*st.model).clone();
                m.resize(st.nv as usize, 0);
                st.model = Rc::new(m);
                Rc::make_mut(&mut st.dom).resize(st.nv as usize, ([u64::MAX; 4], false));
                Ok(None)
            }
            "sym_choose" => {
                let k = self.concretize(st, &a[0])? as u64;
                if k == 0 {
                    return Err(End::Assume);
                }
                let pick = match st.pending.take() {
                    Some(p) => p,
                    None => {
                        // sharding: the leading choices of a path, before any symbolic
                        // byte, are split between processes
                        let (si, sn) = if st.inputs.iter().all(|x| x.is_ok()) { st.shard } else { (0, 1) };
                        if sn > k {
                            // this process belongs to one value of this choice
                            let j = si % k;
                            st.shard = (si / k, (sn - j + k - 1) / k);
                            st.inputs.push(Ok(j as u8));
                            return one(V::I(j as u128));
                        }
                        st.shard = (0, 1);
                        if si >= k {
                            return Err(End::Assume);
                        }
                        for j in (si + 1..k).filter(|j| j % sn == si).collect::<Vec<_>>().into_iter().rev() {
                            let mut o = st.clone();
                            o.pending = Some(j);
                            o.fr.last_mut().unwrap().ip -= 1;
                            self.work.push(o);
                            self.forks += 1;
                        }
                        si
                    }
                };
                st.inputs.push(Ok(pick as u8));
                one(V::I(pick as u128))
            }
            "sym_nofmt" => {
                st.nofmt = self.concretize(st, &a[0])? as u64;
                Ok(None)
            }
            "format_inner" => {
                let d = self.concretize(st, &a[0])? as u64;
                for j in 0..24 {
                    let b = st.mem.get(st.nofmt + j).map_err(End::Engine)?;
                    st.mem.put(d + j, b).map_err(End::Engine)?;
                }
                Ok(None)
            }
            "sym_may_panic" => {
                st.may_panic = true;
                Ok(None)
            }
            "sym_pin" => {
                let k = self.concretize(st, &a[0])?;
                one(V::I(k))
            }
            "sym_is_sym" => one(V::I(1)),
            "sym_assume" => {
                match &a[0] {
                    V::I(0) => return Err(End::Assume),
                    V::I(_) => {}
                    V::S(i) => {
                        let i = if self.p.w(*i) > 1 {
                            let z = self.p.konst(0, self.p.w(*i));
                            let e = self.p.bin(B::Eq, *i, z);
                            self.p.not(e)
                        } else {
                            *i
                        };
                        match self.sat(st, i)? {
                            None => return Err(End::Assume),
                            Some(m) => {
                                st.model = m;
                                self.add_pc(st, i);
                            }
                        }
                    }
                    _ => return eng("assume"),
                }
                Ok(None)
            }
            "sym_fail" => {
                let p = self.concretize(st, &a[0])? as u64;
                let k = self.concretize(st, &a[1])? as u64;
                let s = self.rd_str(st, p, k);
                Err(End::Fail(s))
            }
            "sym_cover" => {
                let p = self.concretize(st, &a[0])? as u64;
                let k = self.concretize(st, &a[1])? as u64;
                let s = self.rd_str(st, p, k);
                st.covers.push(s.into());
                Ok(None)
            }
            "sym_out" => {
                let p = self.concretize(st, &a[0])? as u64;
                let k = self.concretize(st, &a[1])? as u64;
                for j in 0..k {
                    let b = st.mem.get(p + j).map_err(End::Engine)?;
                    st.outs.push(b);
                }
                Ok(None)
            }
            _ => eng(format!("external function {n}")),
        }
    }

    fn intrinsic(&mut self, st: &mut State, i: &str, c: &CallI, a: &[V]) -> XR<Option<V>> {
        let one = |v: V| Ok(Some(v));
        let head = i.split('.').next().unwrap();
        match head {
            "memcpy" | "memmove" => {
                let d = self.concretize(st, &a[0])? as u64;
                let s = self.concretize(st, &a[1])? as u64;
                let n = self.concretize(st, &a[2])? as u64;
                if n > 1 << 28 {
                    return eng("huge memcpy");
                }
                st.mem.copy(d, s, n).map_err(End::Engine)?;
                Ok(None)
            }
            "memset" => {
                let d = self.concretize(st, &a[0])? as u64;
                let n = self.concretize(st, &a[2])? as u64;
                let b = match &a[1] {
                    V::I(c) => Ok(*c as u8),
                    V::S(i) => Err(*i),
                    _ => return eng("memset"),
                };
                for k in 0..n {
                    st.mem.put(d + k, b).map_err(End::Engine)?;
                }
                Ok(None)
            }
            "threadlocal" => one(a[0].clone()),
            "trap" | "ubsantrap" => Err(End::Panic("trap".into())),
            "expect" => one(a[0].clone()),
            "is" => one(V::I(0)),
            "objectsize" => one(V::I(u64::MAX as u128)),
            "umin" | "umax" | "smin" | "smax" => {
                let op = head.to_string();
                let ty = c.ret.clone();
                let r = self.lanes(&ty, a, &mut |x, w, v| {
                    let p = x.ids(&v[0], w)?;
                    let q = x.ids(&v[1], w)?;
                    let o = if op.starts_with('u') { B::Ult } else { B::Slt };
                    let lt = x.p.bin(o, p, q);
                    let r = if op.ends_with("min") { x.p.ite(lt, p, q) } else { x.p.ite(lt, q, p) };
                    Ok(x.val(r))
                })?;
                one(r)
            }
            "abs" => {
                let ty = c.ret.clone();
                let r = self.lanes(&ty, a, &mut |x, w, v| {
                    let p = x.ids(&v[0], w)?;
                    let z = x.p.konst(0, w);
                    let ng = x.p.bin(B::Sub, z, p);
                    let lt = x.p.bin(B::Slt, p, z);
                    let r = x.p.ite(lt, ng, p);
                    Ok(x.val(r))
                })?;
                one(r)
            }
            "ucmp" | "scmp" => {
                let w = c.args[0].0.width();
                let rw = c.ret.width();
                let p = self.ids(&a[0], w)?;
                let q = self.ids(&a[1], w)?;
                let o = if head == "ucmp" { B::Ult } else { B::Slt };
                let lt = self.p.bin(o, p, q);
                let gt = self.p.bin(o, q, p);
                let (m1, z, p1) = (self.p.konst(u128::MAX, rw), self.p.konst(0, rw), self.p.konst(1, rw));
                let r = self.p.ite(gt, p1, z);
                let r = self.p.ite(lt, m1, r);
                one(self.val(r))
            }
            "bswap" | "bitreverse" => {
                let w = c.ret.width();
                let p = self.ids(&a[0], w)?;
                let g = if head == "bswap" { 8 } else { 1 };
                let mut acc: Option<Id> = None;
                for k in 0..w / g {
                    let b = self.p.ext(p, k * g, g);
                    acc = Some(match acc {
                        None => b,
                        Some(h) => self.p.cat(h, b),
                    });
                }
                one(self.val(acc.unwrap()))
            }
            "ctpop" => {
                let ty = c.ret.clone();
                let r = self.lanes(&ty, a, &mut |x, w, v| {
                    if let V::I(k) = v[0] {
                        return Ok(V::I(k.count_ones() as u128));
                    }
                    let p = x.ids(&v[0], w)?;
                    let mut acc = x.p.konst(0, w);
                    for k in 0..w {
                        let b = x.p.ext(p, k, 1);
                        let b = x.p.zx(b, w);
                        acc = x.p.bin(B::Add, acc, b);
                    }
                    Ok(x.val(acc))
                })?;
                one(r)
            }
            "ctlz" | "cttz" => {
                let h = head.to_string();
                let ty = c.ret.clone();
                let r = self.lanes(&ty, &a[..1], &mut |x, w, v| {
                    if let V::I(k) = v[0] {
                        let r = if h == "ctlz" { k.leading_zeros() - (128 - w) } else { k.trailing_zeros().min(w) };
                        return Ok(V::I(r as u128));
                    }
                    let p = x.ids(&v[0], w)?;
                    let mut acc = x.p.konst(w as u128, w);
                    for k in 0..w {
                        // last assigned wins: for ctlz go from low to high
                        let bit = if h == "ctlz" { k } else { w - 1 - k };
                        let b = x.p.ext(p, bit, 1);
                        let n = if h == "ctlz" { w - 1 - bit } else { bit };
                        let n = x.p.konst(n as u128, w);
                        acc = x.p.ite(b, n, acc);
                    }
                    Ok(x.val(acc))
                })?;
                one(r)
            }
            "fshl" | "fshr" => {
                let h = head.to_string();
                let ty = c.ret.clone();
                let mut args: Vec<V> = a.to_vec();
                if !matches!(ty, Ty::Vector(..)) {
                    args[2] = V::I(self.concretize(st, &a[2])?);
                }
                let r = self.lanes(&ty, &args, &mut |x, w, v| {
                    let k = match v[2] {
                        V::I(k) => (k % w as u128) as u32,
                        _ => return eng("fshl sym"),
                    };
                    let p = x.ids(&v[0], w)?;
                    let q = x.ids(&v[1], w)?;
                    if k == 0 {
                        return Ok(if h == "fshl" { v[0].clone() } else { v[1].clone() });
                    }
                    let r = if h == "fshl" {
                        let hi = x.p.ext(p, 0, w - k);
                        let lo = x.p.ext(q, w - k, k);
                        x.p.cat(hi, lo)
                    } else {
                        let hi = x.p.ext(p, 0, k);
                        let lo = x.p.ext(q, k, w - k);
                        x.p.cat(hi, lo)
                    };
                    Ok(x.val(r))
                })?;
                one(r)
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let sat = i.contains(".sat.");
                let w = c.args[0].0.width();
                let sg = head.starts_with('s');
                let op = match &head[1..] {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    _ => B::Mul,
                };
                let p = self.ids(&a[0], w)?;
                let q = self.ids(&a[1], w)?;
                let mut r = self.p.bin(op, p, q);
                let ov = if op == B::Mul {
                    if w <= 64 {
                        let (pp, qq) = if sg {
                            (self.p.sxt(p, 2 * w), self.p.sxt(q, 2 * w))
                        } else {
                            (self.p.zx(p, 2 * w), self.p.zx(q, 2 * w))
                        };
                        let full = self.p.bin(B::Mul, pp, qq);
                        if !sg {
                            // overflow exactly when the full product exceeds the width
                            let m = self.p.konst(mask(w), 2 * w);
                            let fits = self.p.bin(B::Ule, full, m);
                            r = self.p.ext(full, 0, w);
                            self.p.not(fits)
                        } else {
                        let back = if sg { self.p.sxt(r, 2 * w) } else { self.p.zx(r, 2 * w) };
                        let e = self.p.bin(B::Eq, full, back);
                        self.p.not(e)
                        }
                    } else if let (V::I(x), V::I(y)) = (&a[0], &a[1]) {
                        let o = if sg {
                            let z = sx(*x, w).checked_mul(sx(*y, w));
                            match z {
                                None => true,
                                Some(z) => sx((z as u128) & mask(w), w) != z,
                            }
                        } else {
                            match x.checked_mul(*y) {
                                None => true,
                                Some(z) => z > mask(w),
                            }
                        };
                        self.p.konst(o as u128, 1)
                    } else {
                        // division check
                        let z = self.p.konst(0, w);
                        let pz = self.p.bin(B::Eq, p, z);
                        if sg {
                            let m1 = self.p.konst(u128::MAX, w);
                            let mn = self.p.konst(1u128 << (w - 1), w);
                            let dv = self.p.bin(B::SDiv, r, p);
                            let e = self.p.bin(B::Eq, dv, q);
                            let ne = self.p.not(e);
                            let a1 = self.p.bin(B::Eq, p, m1);
                            let a2 = self.p.bin(B::Eq, q, mn);
                            let sp = self.p.bin(B::And, a1, a2);
                            let nz = self.p.not(pz);
                            let t = self.p.bin(B::Or, ne, sp);
                            self.p.bin(B::And, nz, t)
                        } else {
                            let dv = self.p.bin(B::UDiv, r, p);
                            let e = self.p.bin(B::Eq, dv, q);
                            let ne = self.p.not(e);
                            let nz = self.p.not(pz);
                            self.p.bin(B::And, nz, ne)
                        }
                    }
                } else if !sg {
                    if op == B::Add {
                        self.p.bin(B::Ult, r, p)
                    } else {
                        self.p.bin(B::Ult, p, q)
                    }
                } else {
                    // sign-based overflow
                    let z = self.p.konst(0, w);
                    let sp = self.p.bin(B::Slt, p, z);
                    let sq = self.p.bin(B::Slt, q, z);
                    let sr = self.p.bin(B::Slt, r, z);
                    let d1 = self.p.bin(B::Xor, sp, sr);
                    let d2 = if op == B::Add {
                        self.p.bin(B::Xor, sq, sr)
                    } else {
                        self.p.bin(B::Xor, sp, sq)
                    };
                    self.p.bin(B::And, d1, d2)
                };
                if sat {
                    let lim = if !sg {
                        if op == B::Sub {
                            self.p.konst(0, w)
                        } else {
                            self.p.konst(u128::MAX, w)
                        }
                    } else {
                        let mx = self.p.konst(mask(w - 1), w);
                        let mn = self.p.konst(1u128 << (w - 1), w);
                        let z = self.p.konst(0, w);
                        let sp = self.p.bin(B::Slt, p, z);
                        self.p.ite(sp, mn, mx)
                    };
                    let r = self.p.ite(ov, lim, r);
                    return one(self.val(r));
                }
                one(V::A(Rc::new(vec![self.val(r), self.val(ov)])))
            }
            "x86" => {
                if i.starts_with("x86.addcarry") || i.starts_with("x86.subborrow") {
                    let add = i.starts_with("x86.addcarry");
                    let w = 64;
                    let cin = self.ids(&a[0], 8)?;
                    let x = self.ids(&a[1], w)?;
                    let y = self.ids(&a[2], w)?;
                    let z8 = self.p.konst(0, 8);
                    let none = self.p.bin(B::Eq, cin, z8);
                    let (one64, zero64) = (self.p.konst(1, w), self.p.konst(0, w));
                    let cin = self.p.ite(none, zero64, one64);
                    let op = if add { B::Add } else { B::Sub };
                    let s1 = self.p.bin(op, x, y);
                    let c1 = if add { self.p.bin(B::Ult, s1, x) } else { self.p.bin(B::Ult, x, y) };
                    let s2 = self.p.bin(op, s1, cin);
                    let c2 = if add { self.p.bin(B::Ult, s2, s1) } else { self.p.bin(B::Ult, s1, cin) };
                    let co = self.p.bin(B::Or, c1, c2);
                    let (one8, zero8) = (self.p.konst(1, 8), self.p.konst(0, 8));
                    let co = self.p.ite(co, one8, zero8);
                    let (co, r) = (self.val(co), self.val(s2));
                    return one(V::A(Rc::new(vec![co, r])));
                }
                if i.starts_with("x86.sse2.pause") {
                    return Ok(None);
                }
                eng(format!("intrinsic {i}"))
            }
            "vector" => {
                // reductions
                let p: Vec<&str> = i.split('.').collect();
                if p.get(1) == Some(&"reduce") {
                    let et = c.args[0].0.elem(0);
                    let w = et.width();
                    if let V::A(x) = &a[0] {
                        let mut acc = x[0].clone();
                        for e in x.iter().skip(1) {
                            acc = match p[2] {
                                "add" => self.bin1(B::Add, w, &acc, e)?,
                                "or" => self.bin1(B::Or, w, &acc, e)?,
                                "and" => self.bin1(B::And, w, &acc, e)?,
                                "xor" => self.bin1(B::Xor, w, &acc, e)?,
                                "mul" => self.bin1(B::Mul, w, &acc, e)?,
                                o @ ("umax" | "umin" | "smax" | "smin") => {
                                    let u = self.ids(&acc, w)?;
                                    let v = self.ids(e, w)?;
                                    let lt = self.p.bin(if o.starts_with('u') { B::Ult } else { B::Slt }, u, v);
                                    let r = if o.ends_with("max") { self.p.ite(lt, v, u) } else { self.p.ite(lt, u, v) };
                                    self.val(r)
                                }
                                _ => return eng(format!("intrinsic {i}")),
                            };
                        }
                        return one(acc);
                    }
                }
                eng(format!("intrinsic {i}"))
            }
            "ceil" | "floor" | "log2" | "sqrt" | "fabs" | "trunc" | "rint" | "round" => {
                let x = self.concretize(st, &a[0])?;
                let f = if c.ret == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
                let r = match head {
                    "ceil" => f.ceil(),
                    "floor" => f.floor(),
                    "log2" => f.log2(),
                    "sqrt" => f.sqrt(),
                    "trunc" => f.trunc(),
                    "round" => f.round(),
                    "rint" => f.round_ties_even(),
                    _ => f.abs(),
                };
                one(V::I(if c.ret == Ty::F32 { (r as f32).to_bits() as u128 } else { r.to_bits() as u128 }))
            }
            "fptoui" => {
                let x = self.concretize(st, &a[0])?;
                let w = c.ret.width();
                let f = f64::from_bits(x as u64);
                one(V::I((f as u128).min(mask(w))))
            }
            "fptosi" => {
                let x = self.concretize(st, &a[0])?;
                let w = c.ret.width();
                let f = f64::from_bits(x as u64);
                let lim = (mask(w - 1)) as i128;
                one(V::I(((f as i128).clamp(-lim - 1, lim) as u128) & mask(w)))
            }
            _ => eng(format!("intrinsic {i}")),
        }
    }

    fn init_mem(&mut self) -> State {
        let mut mem = Mem { c: vec![] };
        let mut at = GLOBAL_BASE;
        // addresses first
        let gl = std::mem::take(&mut self.m.globals);
        let mut todo = vec![];
        for (n, rest) in &gl {
            let toks = lex(rest);
            if rest.contains(" alias ") {
                self.m.aliases.push((n.clone(), rest.clone()));
                continue;
            }
            // skip until global/constant
            let mut i = 0;
            let mut external = false;
            while i < toks.len() {
                match &toks[i] {
                    T::Word(w) if w == "global" || w == "constant" => break,
                    T::Word(w) if w == "external" || w == "extern_weak" => external = true,
                    _ => {}
                }
                i += 1;
            }
            i += 1;
            let (ty, j) = {
                let mut p = P::new(&toks, &self.m);
                p.i = i;
                match p.ty() {
                    Ok(t) => (t, p.i),
                    Err(e) => {
                        eprintln!("global {n}: {e}");
                        continue;
                    }
                }
            };
            at = (at + 15) / 16 * 16;
            self.m.addr.insert(n.clone(), at);
            let sz = ty.size();
            mem.map(at, sz);
            if !external {
                todo.push((n.clone(), toks, j, ty, at));
            }
            at += sz.max(1);
        }
        for (n, rest) in self.m.aliases.clone() {
            let tgt = rest.rfind('@').map(|p| global_name(&rest[p..]));
            if let Some(a) = tgt.and_then(|t| self.m.addr.get(&t).copied()) {
                self.m.addr.insert(n, a);
            }
        }
        assert!(at < STACK_BASE);
        for (n, toks, j, ty, a) in todo {
            let r = {
                let mut p = P::new(&toks, &self.m);
                p.i = j;
                p.constant(&ty)
            };
            match r {
                Ok(v) => {
                    if let Err(End::Engine(e)) = self.store(&mut mem, &ty, a, &v) {
                        eprintln!("global {n}: {e}");
                    }
                }
                Err(e) => eprintln!("global {n}: {e}"),
            }
        }
        let heap = HEAP_BASE;
        mem.map(heap, 64);
        self.errno = heap;
        State {
            fr: vec![],
            mem,
            heap: heap + 64,
            sp: STACK_BASE,
            pc: vec![],
            refuted: vec![],
            dom: Rc::new(vec![]),
            model: Rc::new(vec![]),
            nv: 0,
            inputs: vec![],
            outs: vec![],
            covers: vec![],
            steps: 0,
            pending: None,
            shard: self.shard,
            nofmt: 0,
            may_panic: false,
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(v: &[u8]) -> String {
    v.iter().map(|b| format!("{b:02x}")).collect()
}

fn real_main() {
    let mut ll = String::new();
    let mut entry = String::new();
    let mut timeout = 600u64;
    let mut qtimeout = 60_000u32;
    let mut max_steps = 400_000_000u64;
    let mut samples = 20usize;
    let mut max_viol = 5usize;
    let mut max_enum = 300usize;
    let mut trace = false;
    let mut merge = true;
    let mut shard = (0u64, 1u64);
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--entry" => entry = it.next().unwrap(),
            "--timeout" => timeout = it.next().unwrap().parse().unwrap(),
            "--qtimeout" => qtimeout = it.next().unwrap().parse().unwrap(),
            "--max-steps" => max_steps = it.next().unwrap().parse().unwrap(),
            "--samples" => samples = it.next().unwrap().parse().unwrap(),
            "--max-viol" => max_viol = it.next().unwrap().parse().unwrap(),
            "--max-enum" => max_enum = it.next().unwrap().parse().unwrap(),
            "--trace" => trace = true,
            "--fork" => merge = false,
            "--shard" => {
                let s = it.next().unwrap();
                let (a, b) = s.split_once('/').unwrap();
                shard = (a.parse().unwrap(), b.parse().unwrap());
            }
            _ => ll = a,
        }
    }
    let t0 = std::time::Instant::now();
    let m = Module::load(&ll);
    let mut ex = Ex {
        m,
        p: Pool::new(),
        z: Smt::new(qtimeout),
        fcache: HashMap::new(),
        work: vec![],
        covers: BTreeMap::new(),
        used: BTreeSet::new(),
        instrs: 0,
        forks: 0,
        max_enum,
        max_steps,
        errno: 0,
        trace,
        merge,
        shard,
        qcache: HashMap::new(),
        vcache: HashMap::new(),
        qhits: 0,
        slow: std::env::var("LLSYM_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(0),
        confirmed: Default::default(),
        dom_sat: 0,
        dom_unsat: 0,
        joins: HashMap::new(),
        merged: 0,
    };
    let mut st = ex.init_mem();
    let en: Rc<str> = Rc::from(entry.as_str());
    let f = match ex.func(&en) {
        Ok(f) => f,
        _ => {
            println!("{{\"entry\":{},\"complete\":false,\"error\":\"no such entry\"}}", esc(&entry));
            std::process::exit(3);
        }
    };
    st.fr.push(Frame {
        regs: vec![V::I(0); f.nregs as usize],
        f,
        b: 0,
        ip: 0,
        sp: STACK_BASE,
        dst: None,
        normal: None,
    });
    ex.work.push(st);
    let load_s = t0.elapsed().as_secs_f64();
    let (mut ok, mut assumed, mut panics, mut fails) = (0u64, 0u64, 0u64, 0u64);
    let mut incomplete: Vec<String> = vec![];
    let mut viol: Vec<(String, String, Vec<u8>)> = vec![];
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    let mut smp: Vec<(Vec<u8>, Vec<u8>, Vec<String>)> = vec![];
    let mut timed_out = false;
    let conf_budget: f64 = std::env::var("LLSYM_CONF").ok().and_then(|x| x.parse().ok()).unwrap_or(40.0);
    let mut nconf = 0u64;
    let mut conf_t = std::time::Duration::ZERO;
    'outer: while let Some(mut st) = ex.work.pop() {
        let mut cnt = 0u32;
        let end = loop {
            cnt += 1;
            if cnt & 0xffff == 0 && t0.elapsed().as_secs() > timeout {
                timed_out = true;
                break 'outer;
            }
            match ex.step(&mut st) {
                Ok(()) => {}
                Err(End::Panic(_)) if st.may_panic => break End::Ok,
                Err(e) => break e,
            }
        };
        if t0.elapsed().as_secs() > timeout {
            timed_out = true;
            break;
        }
        let inp: Vec<u8> = st
            .inputs
            .clone()
            .iter()
            .map(|x| match x {
                Ok(b) => *b,
                Err(i) => ex.p.eval(*i, &st.model) as u8,
            })
            .collect();
        if std::env::var_os("LLSYM_NOCONF").is_none() && !st.refuted.is_empty() && matches!(end, End::Ok | End::Assume) {
            // the solver confirms (every distinct path within a time budget, then one in 64) everything the byte-domain fast path refuted
            let mut any = ex.p.konst(0, 1);
            for c in st.refuted.clone() {
                any = ex.p.bin(B::Or, any, c);
            }
            let mut key = st.pc.clone();
            key.push(any);
            if !ex.confirmed.contains(&key) && {
                nconf += 1;
                conf_t.as_secs_f64() < conf_budget && nconf <= 3000 || nconf % 64 == 0
            } {
                let t0 = std::time::Instant::now();
                let r = ex.z.check(&ex.p, &st.pc, any, st.nv as usize).0;
                conf_t += t0.elapsed();
                match r {
                    Sat::Unsat => {
                        ex.confirmed.insert(key);
                    }
                    Sat::Sat => incomplete.push(format!("engine: byte-domain refutation not confirmed by the solver input={}", hex(&inp))),
                    Sat::Unknown => incomplete.push(format!("limit: solver unknown on confirmation input={}", hex(&inp))),
                }
            }
        }
        match end {
            End::Ok => {
                ok += 1;
                for c in &st.covers {
                    *ex.covers.entry(c.to_string()).or_default() += 1;
                }
                // reservoir-free thinning: keep an evenly spread sample
                if smp.len() < samples || (ok.is_power_of_two() && samples > 0) {
                    let out: Vec<u8> = st
                        .outs
                        .clone()
                        .iter()
                        .map(|x| match x {
                            Ok(b) => *b,
                            Err(i) => ex.p.eval(*i, &st.model) as u8,
                        })
                        .collect();
                    smp.push((inp, out, st.covers.iter().map(|s| s.to_string()).collect()));
                }
            }
            End::Assume => assumed += 1,
            End::Fail(s) => {
                fails += 1;
                let k = seen.entry(format!("F{s}")).or_default();
                *k += 1;
                if *k <= max_viol {
                    viol.push(("fail".into(), s, inp));
                }
            }
            End::Panic(s) => {
                panics += 1;
                let k = seen.entry(format!("P{s}")).or_default();
                *k += 1;
                if *k <= max_viol {
                    viol.push(("panic".into(), s, inp));
                }
            }
            End::Engine(s) => {
                let stk: Vec<String> = st
                    .fr
                    .iter()
                    .rev()
                    .take(4)
                    .map(|f| ex.m.funcs.get(&f.f.name).map(|x| x.pretty.clone()).unwrap_or_default())
                    .collect();
                if incomplete.len() < 20 {
                    incomplete.push(format!("engine: {s} [{}] input={}", stk.join(" < "), hex(&inp)));
                }
            }
            End::Limit(s) => {
                if incomplete.len() < 20 {
                    incomplete.push(format!("limit: {s} input={}", hex(&inp)));
                }
            }
            End::Fork => {}
        }
    }
    if timed_out {
        incomplete.push(format!("time limit {timeout}s"));
    }
    let mut o = String::new();
    o.push_str(&format!("{{\"entry\":{},\"complete\":{},", esc(&entry), incomplete.is_empty()));
    o.push_str(&format!(
        "\"paths_ok\":{ok},\"paths_assumed_away\":{assumed},\"paths_fail\":{fails},\"paths_panic\":{panics},\"forks\":{},\"instructions\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"load_s\":{load_s:.2},\"wall_s\":{:.3},\"exprs\":{},\"cache_hits\":{},\"byte_domain_sat\":{},\"byte_domain_unsat\":{},",
        ex.forks, ex.instrs, ex.z.queries, ex.z.sat, ex.z.unsat, ex.z.unknown, ex.z.time.as_secs_f64(), t0.elapsed().as_secs_f64(), ex.p.nodes.len(), ex.qhits, ex.dom_sat, ex.dom_unsat
    ));
    o.push_str(&format!("\"incomplete\":[{}],", incomplete.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!(
        "\"violations\":[{}],",
        viol.iter().map(|(k, s, i)| format!("{{\"kind\":{},\"msg\":{},\"input\":\"{}\"}}", esc(k), esc(s), hex(i))).collect::<Vec<_>>().join(",")
    ));
    o.push_str(&format!("\"covers\":{{{}}},", ex.covers.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(",")));
    o.push_str(&format!(
        "\"samples\":[{}],",
        smp.iter()
            .map(|(i, u, c)| format!(
                "{{\"input\":\"{}\",\"out\":\"{}\",\"covers\":[{}]}}",
                hex(i),
                hex(u),
                c.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    ));
    o.push_str(&format!("\"functions\":[{}]}}", ex.used.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")));
    println!("{o}");
    std::process::exit(if !incomplete.is_empty() { 3 } else if viol.is_empty() { 0 } else { 1 });
}

fn main() {
    std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(real_main)
        .unwrap()
        .join()
        .unwrap();
}
