//! Reference meaning of the format language: what a format denotes, stated as the (ordered) set of its parses, independently of
//! the compiler, the match trees and the interpreters under test.
pub mod cat;
pub mod gen2;
use doodle::decoder::Value;
use doodle::decoder::seq_kind::SeqKind;
use doodle::{
    Arith, BaseKind, DynFormat, Endian, Expr, Format, FormatModule, IntRel, Label, Pattern, UnaryOp, ViewExpr, ViewFormat,
};
use std::rc::Rc;

/// Values up to the interpreter's provenance wrappers (which branch, pre-image of a map, permitted failure).
#[derive(Clone, PartialEq, Debug)]
pub enum CV {
    Bool(bool),
    /// bit width (0: usize) and value
    Num(u8, u64),
    Char(u32),
    View(usize),
    Phantom,
    Opt(Option<Box<CV>>),
    Tup(Vec<CV>),
    Rec(Vec<(Label, CV)>),
    Var(Label, Box<CV>),
    Seq(Vec<CV>),
    Other,
}

pub fn cv(v: &Value) -> CV {
    match v {
        Value::Bool(b) => CV::Bool(*b),
        Value::U8(n) => CV::Num(8, *n as u64),
        Value::U16(n) => CV::Num(16, *n as u64),
        Value::U32(n) => CV::Num(32, *n as u64),
        Value::U64(n) => CV::Num(64, *n),
        Value::Usize(n) => CV::Num(0, *n as u64),
        Value::Char(c) => CV::Char(*c as u32),
        Value::View { offset } => CV::View(*offset),
        Value::PhantomData => CV::Phantom,
        Value::EnumFromTo(r) => CV::Seq((r.start..r.end).map(|n| CV::Num(0, n as u64)).collect()),
        Value::Option(o) => CV::Opt(o.as_ref().map(|v| Box::new(cv(v)))),
        Value::Tuple(vs) => CV::Tup(vs.iter().map(cv).collect()),
        Value::Record(fs) => CV::Rec(fs.iter().map(|(l, v)| (l.clone(), cv(v))).collect()),
        Value::Variant(l, v) => CV::Var(l.clone(), Box::new(cv(v))),
        Value::Seq(SeqKind::Strict(vs)) => CV::Seq(vs.iter().map(cv).collect()),
        Value::Seq(SeqKind::Dup(n, v)) => {
            let v = cv(v);
            CV::Seq((0..*n).map(|_| v.clone()).collect())
        }
        Value::Mapped(_, v) | Value::Branch(_, v) => cv(v),
        Value::Permit(Ok(v)) => cv(v),
        Value::Permit(Err(Some(v))) => cv(v),
        Value::Permit(Err(None)) | Value::Numeric(_) => CV::Other,
    }
}

/// Equality of canonical values; one (short-circuiting) structural walk.
pub fn same(a: &CV, b: &CV) -> bool {
    match (a, b) {
        (CV::Num(k, x), CV::Num(l, y)) => (k == l || *k == 0 || *l == 0) && x == y,
        (CV::Opt(Some(x)), CV::Opt(Some(y))) => same(x, y),
        (CV::Tup(x), CV::Tup(y)) | (CV::Seq(x), CV::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (CV::Rec(x), CV::Rec(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && same(&p.1, &q.1)),
        (CV::Var(l, x), CV::Var(m, y)) => l == m && same(x, y),
        _ => a == b,
    }
}

/// The expression has no meaning on these operands (overflow, failed cast, out-of-range index, no matching pattern, ...).
#[derive(Debug)]
pub struct Undef;
type R<T> = Result<T, Undef>;

#[derive(Clone)]
pub enum Bind {
    Val(CV),
    View(Inp),
    Code(Rc<Vec<(usize, usize, u64)>>), // canonical codes: length, code, symbol
}
pub type Env = Option<Rc<EnvNode>>;
pub struct EnvNode {
    name: Label,
    b: Bind,
    up: Env,
}
pub fn push(env: &Env, name: &Label, b: Bind) -> Env {
    Some(Rc::new(EnvNode { name: name.clone(), b, up: env.clone() }))
}
fn find<'a>(env: &'a Env, name: &str, k: u8) -> R<&'a Bind> {
    let mut e = env;
    while let Some(n) = e {
        if n.name == name && k == match n.b { Bind::Val(_) => 0, Bind::View(_) => 1, Bind::Code(_) => 2 } {
            return Ok(&n.b);
        }
        e = &n.up;
    }
    Err(Undef)
}

/// A window of a buffer: absolute position and the end it may not pass.
#[derive(Clone)]
pub struct Inp {
    pub buf: Rc<Vec<u8>>,
    pub off: usize,
    pub end: usize,
}
impl Inp {
    pub fn new(b: &[u8]) -> Inp {
        Inp { buf: Rc::new(b.to_vec()), off: 0, end: b.len() }
    }
    fn at(&self, off: usize) -> Inp {
        Inp { buf: self.buf.clone(), off, end: self.end }
    }
    fn left(&self) -> usize {
        self.end - self.off
    }
    fn skip(&self, n: u64) -> Option<Inp> {
        if n <= self.left() as u64 { Some(self.at(self.off + n as usize)) } else { None }
    }
}

fn num(v: CV) -> R<(u8, u64)> {
    match v {
        CV::Num(k, n) => Ok((k, n)),
        _ => Err(Undef),
    }
}
fn nat(v: CV) -> R<u64> {
    Ok(num(v)?.1)
}
fn boolean(v: CV) -> R<bool> {
    match v {
        CV::Bool(b) => Ok(b),
        _ => Err(Undef),
    }
}
fn seqv(v: CV) -> R<Vec<CV>> {
    match v {
        CV::Seq(s) => Ok(s),
        _ => Err(Undef),
    }
}
fn tupv(v: CV) -> R<Vec<CV>> {
    match v {
        CV::Tup(s) => Ok(s),
        _ => Err(Undef),
    }
}
fn max_of(k: u8) -> u64 {
    match k {
        8 => 0xff,
        16 => 0xffff,
        32 => 0xffff_ffff,
        _ => u64::MAX,
    }
}
fn fit(k: u8, x: u64) -> R<CV> {
    if x <= max_of(k) { Ok(CV::Num(k, x)) } else { Err(Undef) }
}
pub fn arith(op: Arith, a: CV, b: CV) -> R<CV> {
    match op {
        Arith::BoolOr => return Ok(CV::Bool(boolean(a)? | boolean(b)?)),
        Arith::BoolAnd => return Ok(CV::Bool(boolean(a)? & boolean(b)?)),
        _ => {}
    }
    let ((k, x), (l, y)) = (num(a)?, num(b)?);
    if k != l {
        return Err(Undef);
    }
    let bits = if k == 0 { 64 } else { k as u64 };
    match op {
        Arith::Add => fit(k, x.checked_add(y).ok_or(Undef)?),
        Arith::Sub => {
            if y > x { Err(Undef) } else { Ok(CV::Num(k, x - y)) }
        }
        Arith::Mul => {
            if bits <= 32 { fit(k, x.wrapping_mul(y)) } else { Ok(CV::Num(k, x.checked_mul(y).ok_or(Undef)?)) }
        }
        Arith::Div => if y == 0 { Err(Undef) } else { Ok(CV::Num(k, x / y)) },
        Arith::Rem => if y == 0 { Err(Undef) } else { Ok(CV::Num(k, x % y)) },
        Arith::BitAnd => Ok(CV::Num(k, x & y)),
        Arith::BitOr => Ok(CV::Num(k, x | y)),
        // bits shifted out at the top are lost, as in the machine operation
        Arith::Shl => if y >= bits { Err(Undef) } else { Ok(CV::Num(k, (x << y) & max_of(k))) },
        Arith::Shr => if y >= bits { Err(Undef) } else { Ok(CV::Num(k, x >> y)) },
        Arith::BoolOr | Arith::BoolAnd => Err(Undef),
    }
}
pub fn rel(op: IntRel, a: CV, b: CV) -> R<CV> {
    let ((k, x), (l, y)) = (num(a)?, num(b)?);
    if k != l {
        return Err(Undef);
    }
    Ok(CV::Bool(match op {
        IntRel::Eq => x == y,
        IntRel::Ne => x != y,
        IntRel::Lt => x < y,
        IntRel::Gt => x > y,
        IntRel::Lte => x <= y,
        IntRel::Gte => x >= y,
    }))
}
fn cast(k: u8, v: CV) -> R<CV> {
    fit(k, nat(v)?)
}
fn bytes_of(v: CV, n: usize, be: bool) -> R<CV> {
    let t = tupv(v)?;
    if t.len() != n {
        return Err(Undef);
    }
    let mut r: u64 = 0;
    for i in 0..n {
        let b = match &t[if be { i } else { n - 1 - i }] {
            CV::Num(8, b) => *b,
            _ => return Err(Undef),
        };
        r = (r << 8) | b;
    }
    Ok(CV::Num(8 * n as u8, r))
}
pub fn matches(v: &CV, p: &Pattern, env: &Env) -> Option<Env> {
    let yes = |b: bool| if b { Some(env.clone()) } else { None };
    match (p, v) {
        (Pattern::Binding(n), _) => Some(push(env, n, Bind::Val(v.clone()))),
        (Pattern::Wildcard, _) => Some(env.clone()),
        (Pattern::Bool(b), CV::Bool(c)) => yes(b == c),
        (Pattern::U8(n), CV::Num(8, m)) => yes(*n as u64 == *m),
        (Pattern::U16(n), CV::Num(16, m)) => yes(*n as u64 == *m),
        (Pattern::U32(n), CV::Num(32, m)) => yes(*n as u64 == *m),
        (Pattern::U64(n), CV::Num(64, m)) => yes(*n == *m),
        (Pattern::Int(b), CV::Num(_, m)) => yes(b.contains(*m as usize)),
        (Pattern::Char(c), CV::Char(d)) => yes(*c as u32 == *d),
        (Pattern::Tuple(ps), CV::Tup(vs)) | (Pattern::Seq(ps), CV::Seq(vs)) => {
            if ps.len() != vs.len() {
                return None;
            }
            let mut e = env.clone();
            for (p, v) in ps.iter().zip(vs) {
                e = matches(v, p, &e)?;
            }
            Some(e)
        }
        (Pattern::Variant(l, p), CV::Var(m, v)) => if l == m { matches(v, p, env) } else { None },
        (Pattern::Option(None), CV::Opt(None)) => Some(env.clone()),
        (Pattern::Option(Some(p)), CV::Opt(Some(v))) => matches(v, p, env),
        _ => None,
    }
}
fn lam(f: &Expr, env: &Env, arg: CV) -> R<CV> {
    match f {
        Expr::Lambda(n, b) => ev(b, &push(env, n, Bind::Val(arg))),
        _ => Err(Undef),
    }
}
pub fn ev(e: &Expr, env: &Env) -> R<CV> {
    Ok(match e {
        Expr::Var(n) => match find(env, n, 0)? {
            Bind::Val(v) => v.clone(),
            _ => return Err(Undef),
        },
        Expr::Bool(b) => CV::Bool(*b),
        Expr::U8(n) => CV::Num(8, *n as u64),
        Expr::U16(n) => CV::Num(16, *n as u64),
        Expr::U32(n) => CV::Num(32, *n as u64),
        Expr::U64(n) => CV::Num(64, *n),
        Expr::Tuple(es) => CV::Tup(es.iter().map(|e| ev(e, env)).collect::<R<_>>()?),
        Expr::Seq(es) => CV::Seq(es.iter().map(|e| ev(e, env)).collect::<R<_>>()?),
        Expr::Record(fs) => CV::Rec(fs.iter().map(|(l, e)| Ok((l.clone(), ev(e, env)?))).collect::<R<_>>()?),
        Expr::Variant(l, e) => CV::Var(l.clone(), Box::new(ev(e, env)?)),
        Expr::TupleProj(e, i) => tupv(ev(e, env)?)?.get(*i).cloned().ok_or(Undef)?,
        Expr::RecordProj(e, l) => match ev(e, env)? {
            CV::Rec(fs) => fs.into_iter().find(|(m, _)| m == l).ok_or(Undef)?.1,
            _ => return Err(Undef),
        },
        Expr::Numeric(_) => return Err(Undef),
        Expr::Match(h, bs) => {
            let h = ev(h, env)?;
            for (p, b) in bs {
                if let Some(e) = matches(&h, p, env) {
                    return ev(b, &e);
                }
            }
            return Err(Undef);
        }
        Expr::Destructure(h, p, b) => {
            let h = ev(h, env)?;
            ev(b, &matches(&h, p, env).ok_or(Undef)?)?
        }
        Expr::Lambda(..) => return Err(Undef),
        Expr::IntRel(op, a, b) => rel(*op, ev(a, env)?, ev(b, env)?)?,
        Expr::Arith(op, a, b) => arith(*op, ev(a, env)?, ev(b, env)?)?,
        Expr::Unary(UnaryOp::BoolNot, a) => CV::Bool(!boolean(ev(a, env)?)?),
        Expr::Unary(op, a) => {
            let (k, x) = num(ev(a, env)?)?;
            arith(if *op == UnaryOp::IntSucc { Arith::Add } else { Arith::Sub }, CV::Num(k, x), CV::Num(k, 1))?
        }
        Expr::AsU8(a) => cast(8, ev(a, env)?)?,
        Expr::AsU16(a) => cast(16, ev(a, env)?)?,
        Expr::AsU32(a) => cast(32, ev(a, env)?)?,
        Expr::AsU64(a) => cast(64, ev(a, env)?)?,
        Expr::AsChar(a) => {
            let n = nat(ev(a, env)?)?;
            if n > u32::MAX as u64 {
                return Err(Undef);
            }
            // a number that is no Unicode scalar value is shown as U+FFFD
            CV::Char(if n < 0xD800 || (n > 0xDFFF && n <= 0x10FFFF) { n as u32 } else { 0xFFFD })
        }
        Expr::U16Be(a) => bytes_of(ev(a, env)?, 2, true)?,
        Expr::U16Le(a) => bytes_of(ev(a, env)?, 2, false)?,
        Expr::U32Be(a) => bytes_of(ev(a, env)?, 4, true)?,
        Expr::U32Le(a) => bytes_of(ev(a, env)?, 4, false)?,
        Expr::U64Be(a) => bytes_of(ev(a, env)?, 8, true)?,
        Expr::U64Le(a) => bytes_of(ev(a, env)?, 8, false)?,
        Expr::SeqLength(s) => CV::Num(32, seqv(ev(s, env)?)?.len() as u64),
        Expr::SeqIx(s, i) => {
            let (s, i) = (seqv(ev(s, env)?)?, nat(ev(i, env)?)?);
            let mut k = 0u64;
            for x in s {
                if k == i {
                    return Ok(x);
                }
                k += 1;
            }
            return Err(Undef);
        }
        Expr::SubSeq(s, a, n) => {
            let (s, a, n) = (seqv(ev(s, env)?)?, nat(ev(a, env)?)?, nat(ev(n, env)?)?);
            let len = s.len() as u64;
            if a > len || n > len - a {
                return Err(Undef);
            }
            let mut r = vec![];
            let mut k = 0u64;
            for x in s {
                if k >= a && k - a < n {
                    r.push(x);
                }
                k += 1;
            }
            CV::Seq(r)
        }
        Expr::SubSeqInflate(s, a, n) => {
            let (mut s, a, n) = (seqv(ev(s, env)?)?, nat(ev(a, env)?)?, nat(ev(n, env)?)?);
            let len = s.len();
            // copy byte by byte from a, each copied element becoming available to later copies
            let mut r = vec![];
            let mut k = 0u64;
            while k < n {
                let i = a.checked_add(k).ok_or(Undef)?;
                if i >= s.len() as u64 {
                    return Err(Undef);
                }
                let x = s[i as usize].clone();
                s.push(x.clone());
                r.push(x);
                k += 1;
            }
            let _ = len;
            CV::Seq(r)
        }
        Expr::FlatMap(f, s) => {
            let mut r = vec![];
            for x in seqv(ev(s, env)?)? {
                r.extend(seqv(lam(f, env, x)?)?);
            }
            CV::Seq(r)
        }
        Expr::FlatMapAccum(f, a, _, s) => {
            let mut r = vec![];
            let s = seqv(ev(s, env)?)?;
            let mut acc = ev(a, env)?;
            for x in s {
                let mut t = tupv(lam(f, env, CV::Tup(vec![acc, x]))?)?;
                if t.len() != 2 {
                    return Err(Undef);
                }
                r.extend(seqv(t.pop().ok_or(Undef)?)?);
                acc = t.pop().ok_or(Undef)?;
            }
            CV::Seq(r)
        }
        Expr::FlatMapList(f, _, s) => {
            let mut r = vec![];
            for x in seqv(ev(s, env)?)? {
                let more = seqv(lam(f, env, CV::Tup(vec![CV::Seq(r.clone()), x]))?)?;
                r.extend(more);
            }
            CV::Seq(r)
        }
        Expr::LeftFold(f, a, _, s) => {
            let s = seqv(ev(s, env)?)?;
            let mut acc = ev(a, env)?;
            for x in s {
                acc = lam(f, env, CV::Tup(vec![acc, x]))?;
            }
            acc
        }
        Expr::FindByKey(sorted, f, q, s) => {
            let s = seqv(ev(s, env)?)?;
            let q = num(ev(q, env)?)?;
            let keys = s.iter().map(|x| num(lam(f, env, x.clone())?)).collect::<R<Vec<_>>>()?;
            if *sorted && keys.windows(2).any(|w| w[0].1 >= w[1].1) {
                return Err(Undef);
            }
            if keys.iter().any(|k| k.0 != q.0) {
                return Err(Undef);
            }
            CV::Opt(s.into_iter().zip(keys).find(|(_, k)| k.1 == q.1).map(|(x, _)| Box::new(x)))
        }
        Expr::Dup(n, e) => {
            let (n, x) = (nat(ev(n, env)?)?, ev(e, env)?);
            let mut r = vec![];
            let mut k = 0u64;
            while k < n {
                r.push(x.clone());
                k += 1;
                if k > 40 {
                    return Err(Undef);
                }
            }
            CV::Seq(r)
        }
        Expr::EnumFromTo(a, b) => {
            let (a, b) = (nat(ev(a, env)?)?, nat(ev(b, env)?)?);
            let mut r = vec![];
            let mut k = a;
            while k < b {
                r.push(CV::Num(0, k));
                k += 1;
                if r.len() > 40 {
                    return Err(Undef);
                }
            }
            CV::Seq(r)
        }
        Expr::LiftOption(None) => CV::Opt(None),
        Expr::LiftOption(Some(e)) => CV::Opt(Some(Box::new(ev(e, env)?))),
        Expr::Append(a, b) => {
            let mut a = seqv(ev(a, env)?)?;
            a.extend(seqv(ev(b, env)?)?);
            CV::Seq(a)
        }
    })
}

/// Called with each parse in order of preference; true stops the search.
pub type K<'k> = &'k mut dyn FnMut(CV, Inp) -> R<bool>;

pub struct Sem<'m> {
    pub module: &'m FormatModule,
    /// argument names of each item: (value parameters, view parameters)
    pub args: Vec<(Vec<Label>, Vec<Label>)>,
    pub fuel: usize,
    /// A repetition whose next element starts like an element goes on (the whole input is not required to be consumed).
    pub cut: bool,
    /// an ordered choice commits to its first parsing branch and a condition sees only the preferred parse
    pub commit: bool,
}

impl<'m> Sem<'m> {
    fn view(&self, e: &ViewExpr, env: &Env) -> R<Option<Inp>> {
        Ok(match e {
            ViewExpr::Var(n) => match find(env, n, 1)? {
                Bind::View(v) => Some(v.clone()),
                _ => return Err(Undef),
            },
            ViewExpr::Offset(b, o) => {
                let o = nat(ev(o, env)?)?;
                match self.view(b, env)? {
                    None => None,
                    Some(v) => v.skip(o),
                }
            }
        })
    }
    /// The most preferred parse of `f` on its own.
    pub fn first(&self, f: &Format, env: &Env, inp: &Inp) -> R<Option<(CV, Inp)>> {
        let mut r = None;
        self.parses(f, env, inp, &mut |v, i| {
            r = Some((v, i));
            Ok(true)
        })?;
        Ok(r)
    }
    fn list(&self, fs: &[Format], env: &Env, inp: &Inp, acc: Vec<CV>, k: &mut dyn FnMut(Vec<CV>, Inp) -> R<bool>) -> R<bool> {
        match fs.split_first() {
            None => k(acc, inp.clone()),
            Some((f, rest)) => self.parses(f, env, inp, &mut |v, i| {
                let mut a = acc.clone();
                a.push(v);
                self.list(rest, env, &i, a, k)
            }),
        }
    }
    /// between `min` and `max` elements, more of them preferred
    fn rep(&self, f: &Format, env: &Env, inp: &Inp, acc: Vec<CV>, min: u64, max: u64, k: K) -> R<bool> {
        let n = acc.len() as u64;
        if n < max {
            let mut any = false;
            let stop = self.parses(f, env, inp, &mut |v, i| {
                if i.off == inp.off && n >= min {
                    return Ok(false);
                }
                any = true;
                let mut a = acc.clone();
                a.push(v);
                self.rep(f, env, &i, a, min, max, k)
            })?;
            if stop {
                return Ok(true);
            }
            if any && self.cut {
                return Ok(false);
            }
        }
        if n >= min { k(CV::Seq(acc), inp.clone()) } else { Ok(false) }
    }
    pub fn parses(&self, f: &Format, env: &Env, inp: &Inp, k: K) -> R<bool> {
        match f {
            Format::ItemVar(level, es, vs) => {
                let (an, vn) = &self.args[*level];
                let mut e2 = None;
                for (n, e) in an.iter().zip(es) {
                    e2 = push(&e2, n, Bind::Val(ev(e, env)?));
                }
                for (n, v) in vn.iter().zip(vs) {
                    match self.view(v, env)? {
                        Some(v) => e2 = push(&e2, n, Bind::View(v)),
                        None => return Ok(false),
                    }
                }
                self.parses(self.module.get_format(*level), &e2, inp, k)
            }
            Format::Fail => Ok(false),
            Format::EndOfInput => if inp.left() == 0 { k(CV::Tup(vec![]), inp.clone()) } else { Ok(false) },
            Format::Align(n) => {
                let mut o = inp.off;
                while o % n != 0 {
                    o += 1;
                }
                if o <= inp.end { k(CV::Tup(vec![]), inp.at(o)) } else { Ok(false) }
            }
            Format::Byte(bs) => {
                if inp.left() == 0 {
                    return Ok(false);
                }
                let b = inp.buf[inp.off];
                if bs.contains(b) { k(CV::Num(8, b as u64), inp.at(inp.off + 1)) } else { Ok(false) }
            }
            Format::Variant(l, f) => self.parses(f, env, inp, &mut |v, i| k(CV::Var(l.clone(), Box::new(v)), i)),
            Format::Union(bs) => {
                for b in bs {
                    if self.parses(b, env, inp, k)? {
                        return Ok(true);
                    }
                }
                Ok(false)
            }
            Format::UnionNondet(bs) => {
                for b in bs {
                    if self.commit {
                        if let Some((v, i)) = self.first(b, env, inp)? {
                            return k(v, i);
                        }
                    } else if self.parses(b, env, inp, k)? {
                        return Ok(true);
                    }
                }
                Ok(false)
            }
            Format::Tuple(fs) => self.list(fs, env, inp, vec![], &mut |vs, i| k(CV::Tup(vs), i)),
            Format::Sequence(fs) => self.list(fs, env, inp, vec![], &mut |vs, i| k(CV::Seq(vs), i)),
            Format::Repeat(f) => self.rep(f, env, inp, vec![], 0, u64::MAX, k),
            Format::Repeat1(f) => self.rep(f, env, inp, vec![], 1, u64::MAX, k),
            Format::RepeatCount(n, f) => {
                let n = nat(ev(n, env)?)?;
                self.rep(f, env, inp, vec![], n, n, k)
            }
            Format::RepeatBetween(a, b, f) => self.rep(f, env, inp, vec![], nat(ev(a, env)?)?, nat(ev(b, env)?)?, k),
            Format::RepeatUntilLast(p, f) => self.until(f, env, inp, vec![], &|_, x| boolean(lam(p, env, x.clone())?), k),
            Format::RepeatUntilSeq(p, f) => {
                self.until(f, env, inp, vec![], &|xs, _| boolean(lam(p, env, CV::Seq(xs.to_vec()))?), k)
            }
            Format::AccumUntil(done, upd, init, _, f) => self.accum(done, upd, f, env, inp, ev(init, env)?, vec![], k),
            Format::ForEach(s, l, f) => self.each(&seqv(ev(s, env)?)?, l, f, env, inp, vec![], k),
            Format::Maybe(c, f) => {
                if boolean(ev(c, env)?)? {
                    self.parses(f, env, inp, &mut |v, i| k(CV::Opt(Some(Box::new(v))), i))
                } else {
                    k(CV::Opt(None), inp.clone())
                }
            }
            Format::Peek(f) => match self.first(f, env, inp)? {
                Some((v, _)) => k(v, inp.clone()),
                None => Ok(false),
            },
            Format::PeekNot(f) => match self.first(f, env, inp)? {
                Some(_) => Ok(false),
                None => k(CV::Tup(vec![]), inp.clone()),
            },
            Format::Slice(n, f) => {
                let n = nat(ev(n, env)?)?;
                let Some(after) = inp.skip(n) else { return Ok(false) };
                let w = Inp { end: after.off, ..inp.clone() };
                match self.first(f, env, &w)? {
                    Some((v, _)) => k(v, after),
                    None => Ok(false),
                }
            }
            Format::Bits(f) => {
                let mut bits = vec![];
                for i in inp.off..inp.end {
                    for j in 0..8 {
                        bits.push((inp.buf[i] >> j) & 1);
                    }
                }
                let w = Inp { end: bits.len(), buf: Rc::new(bits), off: 0 };
                match self.first(f, env, &w)? {
                    Some((v, i)) => k(v, inp.at(inp.off + i.off.div_ceil(8))),
                    None => Ok(false),
                }
            }
            Format::WithRelativeOffset(b, o, f) => {
                let (b, o) = (nat(ev(b, env)?)?, nat(ev(o, env)?)?);
                match b.checked_add(o) {
                    Some(a) if a <= inp.end as u64 => match self.first(f, env, &inp.at(a as usize))? {
                        Some((v, _)) => k(v, inp.clone()),
                        None => Ok(false),
                    },
                    _ => Ok(false),
                }
            }
            Format::Map(f, e) => self.parses(f, env, inp, &mut |v, i| k(lam(e, env, v)?, i)),
            Format::Where(f, c) if self.commit => match self.first(f, env, inp)? {
                Some((v, i)) => if boolean(lam(c.as_ref(), env, v.clone())?)? || !c.is_required() { k(v, i) } else { Ok(false) },
                None => Ok(false),
            },
            Format::Where(f, c) => self.parses(f, env, inp, &mut |v, i| {
                if boolean(lam(c.as_ref(), env, v.clone())?)? || !c.is_required() { k(v, i) } else { Ok(false) }
            }),
            Format::Compute(e) => k(ev(e, env)?, inp.clone()),
            Format::Let(n, e, f) => self.parses(f, &push(env, n, Bind::Val(ev(e, env)?)), inp, k),
            Format::Match(h, bs) => {
                let h = ev(h, env)?;
                for (p, f) in bs {
                    if let Some(e) = matches(&h, p, env) {
                        return self.parses(f, &e, inp, k);
                    }
                }
                Err(Undef)
            }
            Format::Dynamic(n, DynFormat::Huffman(ls, vs), f) => {
                let ls = seqv(ev(ls, env)?)?.into_iter().map(nat).collect::<R<Vec<_>>>()?;
                let vs = match vs {
                    None => None,
                    Some(e) => Some(seqv(ev(e, env)?)?.into_iter().map(nat).collect::<R<Vec<_>>>()?),
                };
                let code = huffman(&ls, vs.as_deref())?;
                self.parses(f, &push(env, n, Bind::Code(Rc::new(code))), inp, k)
            }
            Format::Apply(n) => match find(env, n, 2)? {
                Bind::Code(codes) => {
                    for (len, code, sym) in codes.iter() {
                        if *len <= inp.left() && (0..*len).all(|i| inp.buf[inp.off + i] as usize == (code >> (len - 1 - i)) & 1) {
                            return k(CV::Num(16, *sym), inp.at(inp.off + len));
                        }
                    }
                    Ok(false)
                }
                _ => Err(Undef),
            },
            Format::Pos => k(CV::Num(64, inp.off as u64), inp.clone()),
            Format::SkipRemainder => k(CV::Tup(vec![]), inp.at(inp.end)),
            Format::DecodeBytes(e, f) => {
                let mut b = vec![];
                for x in seqv(ev(e, env)?)? {
                    match x {
                        CV::Num(8, n) => b.push(n as u8),
                        _ => return Err(Undef),
                    }
                }
                match self.first(f, env, &Inp::new(&b))? {
                    Some((v, _)) => k(v, inp.clone()),
                    None => Ok(false),
                }
            }
            Format::LetFormat(f, n, g) => self.parses(f, env, inp, &mut |v, i| self.parses(g, &push(env, n, Bind::Val(v)), &i, k)),
            Format::MonadSeq(f, g) => self.parses(f, env, inp, &mut |_, i| self.parses(g, env, &i, k)),
            Format::Hint(_, f) => self.parses(f, env, inp, k),
            Format::LiftedOption(None) => k(CV::Opt(None), inp.clone()),
            Format::LiftedOption(Some(f)) => self.parses(f, env, inp, &mut |v, i| k(CV::Opt(Some(Box::new(v))), i)),
            Format::LetView(n, f) => self.parses(f, &push(env, n, Bind::View(inp.clone())), inp, k),
            Format::WithView(v, w) => {
                let Some(v) = self.view(v, env)? else { return Ok(false) };
                match w {
                    ViewFormat::ReifyView => k(CV::View(v.off), inp.clone()),
                    ViewFormat::CaptureBytes(n) => match self.array(&v, nat(ev(n, env)?)?, 1) {
                        Some(a) => k(a, inp.clone()),
                        None => Ok(false),
                    },
                    ViewFormat::ReadArray(n, kind) => {
                        let w = match kind {
                            BaseKind::U8 => 1,
                            BaseKind::U16Ext(Endian::Be) => 2,
                            BaseKind::U32Ext(Endian::Be) => 4,
                            BaseKind::U64Ext(Endian::Be) => 8,
                            _ => return Err(Undef),
                        };
                        match self.array(&v, nat(ev(n, env)?)?, w) {
                            Some(a) => k(a, inp.clone()),
                            None => Ok(false),
                        }
                    }
                }
            }
            Format::ParseFromView(v, f) => {
                let Some(v) = self.view(v, env)? else { return Ok(false) };
                match self.first(f, env, &v)? {
                    Some((x, _)) => k(x, inp.clone()),
                    None => Ok(false),
                }
            }
            Format::Phantom(_) => k(CV::Phantom, inp.clone()),
            Format::Permit(f, e) => match self.first(f, env, inp)? {
                Some(_) => self.parses(f, env, inp, k),
                None => k(ev(e, env)?, inp.clone()),
            },
            #[allow(unreachable_patterns)]
            _ => Err(Undef),
        }
    }
    fn array(&self, v: &Inp, n: u64, w: usize) -> Option<CV> {
        let mut r = vec![];
        let mut o = v.off;
        let mut i = 0u64;
        while i < n {
            if v.end - o < w {
                return None;
            }
            let mut x = 0u64;
            for j in 0..w {
                x = (x << 8) | v.buf[o + j] as u64;
            }
            r.push(CV::Num(8 * w as u8, x));
            o += w;
            i += 1;
        }
        Some(CV::Seq(r))
    }
    fn until(&self, f: &Format, env: &Env, inp: &Inp, acc: Vec<CV>, done: &dyn Fn(&[CV], &CV) -> R<bool>, k: K) -> R<bool> {
        if acc.len() > self.fuel {
            return Err(Undef);
        }
        self.parses(f, env, inp, &mut |v, i| {
            let mut a = acc.clone();
            a.push(v.clone());
            if done(&a, &v)? { k(CV::Seq(a), i) } else { self.until(f, env, &i, a, done, k) }
        })
    }
    fn accum(&self, done: &Expr, upd: &Expr, f: &Format, env: &Env, inp: &Inp, st: CV, acc: Vec<CV>, k: K) -> R<bool> {
        if acc.len() > self.fuel {
            return Err(Undef);
        }
        if boolean(lam(done, env, CV::Tup(vec![st.clone(), CV::Seq(acc.clone())]))?)? {
            return k(CV::Tup(vec![st, CV::Seq(acc)]), inp.clone());
        }
        self.parses(f, env, inp, &mut |v, i| {
            let st2 = lam(upd, env, CV::Tup(vec![st.clone(), v.clone()]))?;
            let mut a = acc.clone();
            a.push(v);
            self.accum(done, upd, f, env, &i, st2, a, k)
        })
    }
    fn each(&self, xs: &[CV], l: &Label, f: &Format, env: &Env, inp: &Inp, acc: Vec<CV>, k: K) -> R<bool> {
        match xs.split_first() {
            None => k(CV::Seq(acc), inp.clone()),
            Some((x, rest)) => self.parses(f, &push(env, l, Bind::Val(x.clone())), inp, &mut |v, i| {
                let mut a = acc.clone();
                a.push(v);
                self.each(rest, l, f, env, &i, a, k)
            }),
        }
    }
}

/// Canonical prefix code (RFC 1951, 3.2.2) for the lengths; lengths `ls[i]` belong to symbol `vs[i]` (or `i`). An over-subscribed
/// list of lengths has no code.
pub fn huffman(ls: &[u64], vs: Option<&[u64]>) -> R<Vec<(usize, usize, u64)>> {
    let n = vs.map_or(ls.len(), |v| v.len());
    let mut len = vec![0u64; n];
    for i in 0..ls.len() {
        let s = match vs {
            None => i as u64,
            Some(v) => *v.get(i).ok_or(Undef)?,
        };
        if s >= n as u64 {
            return Err(Undef);
        }
        len[s as usize] = ls[i];
    }
    let mut r = vec![];
    let mut code = 0usize;
    for l in 1..=15u64 {
        for s in 0..n {
            if len[s] == l {
                if code >= 1 << l {
                    return Err(Undef);
                }
                r.push((l as usize, code, s as u64));
                code += 1;
            }
        }
        code <<= 1;
    }
    if len.iter().any(|l| *l > 15) {
        return Err(Undef);
    }
    Ok(r)
}
