//! Parser for the textual LLVM IR rustc emits (whole program after fat LTO).
//! Function bodies are parsed on first use; an instruction we cannot decode becomes
//! `Ins::Bad` and is only an error if a path actually executes it.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Struct(Vec<Ty>, bool),
    Array(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Meta,
    Label,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Label => 1,
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.store_size().next_power_of_two(),
        }
    }
    /// bytes touched by load/store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vector(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.store_size(),
            },
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Label => 0,
            Ty::Int(_) => {
                let s = self.store_size();
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f {
                    if !p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(..) => self.store_size(),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Array(_, t) => i as u64 * t.size(),
            Ty::Vector(_, t) => i as u64 * t.size(),
            _ => panic!("field_off"),
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("width of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
}

/// run-time value
#[derive(Clone, Debug)]
pub enum V {
    I(u128),
    S(crate::expr::Id),
    A(Rc<Vec<V>>),
    /// integer wider than 128 bits, as little-endian bytes
    W(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    C(V),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(Rc<str>),
    Indirect(Op),
    Asm(String),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<(Ty, Op)>,
    pub ret: Ty,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
    pub cache: std::cell::OnceCell<Target>,
}
#[derive(Clone)]
pub enum Target {
    Fmt(Rc<Func>),
    Func(Rc<Func>),
    Builtin(Rc<str>),
    Panic(Rc<str>),
}
impl std::fmt::Debug for Target {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("target")
    }
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(BinOp, Ty, u32, Op, Op),
    FBin(u8, Ty, u32, Op, Op),
    FNeg(Ty, u32, Op),
    Icmp(Pred, Ty, u32, Op, Op),
    Fcmp(String, Ty, u32, Op, Op),
    Cast(Cast, Ty, Ty, u32, Op),
    Load(Ty, u32, Op),
    Store(Ty, Op, Op),
    Gep(u32, Op, i64, Vec<(Op, u64, u32)>),
    Alloca(u32, u64, u64, Option<Op>),
    Call(Box<CallI>),
    Select(Ty, u32, Ty, Op, Op, Op),
    ExtractV(u32, Op, Vec<usize>),
    InsertV(u32, Op, Op, Vec<usize>, Ty),
    ExtractE(u32, Ty, Op, Op),
    InsertE(u32, Ty, Op, Op, Op),
    Shuffle(u32, Ty, Op, Op, Vec<i64>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u32, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    Rmw(String, Ty, u32, Op, Op),
    CmpXchg(Ty, u32, Op, Op, Op),
    Freeze(u32, Op),
    Nop,
    Bad(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    B(crate::expr::B),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    Bit,
    Same,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub phi_ty: Vec<Ty>,
    pub ins: Vec<Ins>,
}
pub struct Func {
    pub name: Rc<str>,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct FuncSrc {
    pub header: String,
    pub body: (usize, usize),
    pub pretty: String,
}
pub struct Module {
    pub lines: Vec<String>,
    pub funcs: HashMap<Rc<str>, FuncSrc>,
    pub types: HashMap<String, String>,
    pub globals: Vec<(String, String)>, // name, rest
    pub addr: HashMap<String, u64>,     // globals and functions
    pub fn_at: HashMap<u64, Rc<str>>,
    pub aliases: Vec<(String, String)>,
}

// ------------------------------------------------------------ lexer
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Word(String),
    Local(String),
    Global(String),
    Str(Vec<u8>),
    Num(String),
    P(char),
    Meta(String),
    Attr,
}

pub fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if s[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
                o.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

pub fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut o = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' {
            i += 1;
        } else if c == b';' {
            break;
        } else if c == b'%' || c == b'@' {
            let name;
            if i + 1 < b.len() && b[i + 1] == b'"' {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1;
                }
                name = s[i + 2..j].to_string();
                i = j + 1;
            } else {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                name = s[i + 1..j].to_string();
                i = j;
            }
            o.push(if c == b'%' {
                T::Local(name)
            } else {
                T::Global(name)
            });
        } else if c == b'"' || (c == b'c' && i + 1 < b.len() && b[i + 1] == b'"') {
            let st = if c == b'"' { i + 1 } else { i + 2 };
            let mut j = st;
            while b[j] != b'"' {
                j += 1;
            }
            o.push(T::Str(unescape(&b[st..j])));
            i = j + 1;
        } else if c == b'!' {
            let mut j = i + 1;
            while j < b.len() && (idc(b[j])) {
                j += 1;
            }
            o.push(T::Meta(s[i + 1..j].to_string()));
            i = j;
        } else if c == b'#' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            o.push(T::Attr);
            i = j;
        } else if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || ((b[j] == b'+' || b[j] == b'-') && (b[j - 1] == b'e'))) {
                j += 1;
            }
            o.push(T::Num(s[i..j].to_string()));
            i = j;
        } else if idc(c) {
            let mut j = i + 1;
            while j < b.len() && idc(b[j]) {
                j += 1;
            }
            o.push(T::Word(s[i..j].to_string()));
            i = j;
        } else {
            o.push(T::P(c as char));
            i += 1;
        }
    }
    o
}

pub struct P<'a> {
    pub t: &'a [T],
    pub i: usize,
    pub m: &'a Module,
}
pub type R<X> = Result<X, String>;

impl<'a> P<'a> {
    pub fn new(t: &'a [T], m: &'a Module) -> P<'a> {
        P { t, i: 0, m }
    }
    fn peek(&self) -> Option<&'a T> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<&'a T> {
        let r = self.t.get(self.i).ok_or("eol")?;
        self.i += 1;
        Ok(r)
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(T::P(x)) if *x == c)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {c} got {:?}", self.peek()))
        }
    }
    fn word(&self) -> Option<&'a str> {
        match self.peek() {
            Some(T::Word(w)) => Some(w),
            _ => None,
        }
    }
    fn eat_w(&mut self, s: &str) -> bool {
        if self.word() == Some(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            T::Num(n) => n.parse::<i128>().map_err(|e| e.to_string()),
            x => Err(format!("num? {x:?}")),
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        self.exp_p('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                T::P('(') => d += 1,
                T::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    pub fn is_ty(&self) -> bool {
        match self.peek() {
            Some(T::Word(w)) => {
                matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "label" | "metadata" | "half" | "x86_fp80" | "fp128")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(T::P('{')) | Some(T::P('[')) | Some(T::P('<')) => true,
            Some(T::Local(_)) => true,
            _ => false,
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            T::Word(w) => match w.as_str() {
                "ptr" => {
                    if self.eat_w("addrspace") {
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {w}"))?),
                _ => return Err(format!("type {w}")),
            },
            T::Local(n) => {
                let s = self.m.types.get(n).ok_or(format!("named type {n}"))?;
                let toks = lex(s);
                let mut p = P::new(&toks, self.m);
                p.ty()?
            }
            T::P('{') => {
                let mut f = vec![];
                if !self.eat_p('}') {
                    loop {
                        f.push(self.ty()?);
                        if self.eat_p('}') {
                            break;
                        }
                        self.exp_p(',')?;
                    }
                }
                Ty::Struct(f, false)
            }
            T::P('<') => {
                if self.eat_p('{') {
                    let mut f = vec![];
                    if !self.eat_p('}') {
                        loop {
                            f.push(self.ty()?);
                            if self.eat_p('}') {
                                break;
                            }
                            self.exp_p(',')?;
                        }
                    }
                    self.exp_p('>')?;
                    Ty::Struct(f, true)
                } else {
                    let n = self.num()? as u64;
                    self.i += 1; // x
                    let t = self.ty()?;
                    self.exp_p('>')?;
                    Ty::Vector(n, Rc::new(t))
                }
            }
            T::P('[') => {
                let n = self.num()? as u64;
                self.i += 1;
                let t = self.ty()?;
                self.exp_p(']')?;
                Ty::Array(n, Rc::new(t))
            }
            x => return Err(format!("type? {x:?}")),
        };
        Ok(t)
    }
    /// skip parameter / return attributes until something that can start a type or operand
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(T::Word(w)) => {
                    match w.as_str() {
                        "align" => {
                            self.i += 1;
                            if self.is_p('(') {
                                self.skip_parens()?;
                            } else {
                                self.i += 1;
                            }
                        }
                        "noundef" | "noalias" | "nofree" | "nonnull" | "readonly" | "readnone" | "writeonly" | "nocapture"
                        | "zeroext" | "signext" | "inreg" | "returned" | "immarg" | "swiftself" | "nest" | "dead_on_unwind"
                        | "dead_on_return" | "writable" | "allocptr" | "allocalign" | "nocallback" | "fastcc" | "coldcc" | "ccc"
                        | "allockind" | "unnamed_addr" | "local_unnamed_addr" | "inbounds" | "nuw" | "nsw" | "nusw" | "exact"
                        | "disjoint" | "nneg" | "samesign" | "volatile" | "fast" | "nnan" | "ninf" | "nsz" | "reassoc" | "contract"
                        | "arcp" | "afn" | "internal" | "private" | "hidden" | "dso_local" | "protected" | "weak" | "linkonce_odr"
                        | "noext" | "cold" | "preserve_mostcc" | "preserve_nonecc" | "tailcc" | "external" | "linkonce" | "weak_odr" => self.i += 1,
                        "dereferenceable" | "dereferenceable_or_null" | "captures" | "range" | "sret" | "byval" | "initializes"
                        | "nofpclass" | "elementtype" | "memory" | "inalloca" | "byref" | "inrange" => {
                            self.i += 1;
                            if self.is_p('(') {
                                self.skip_parens()?;
                            }
                        }
                        _ => return Ok(()),
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    pub fn zero(ty: &Ty) -> V {
        match ty {
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(P::zero).collect())),
            Ty::Array(n, t) | Ty::Vector(n, t) => V::A(Rc::new((0..*n).map(|_| P::zero(t)).collect())),
            Ty::Int(w) if *w > 128 => V::W(Rc::new(vec![V::I(0); ((*w + 7) / 8) as usize])),
            _ => V::I(0),
        }
    }
    pub fn constant(&mut self, ty: &Ty) -> R<V> {
        match self.next()? {
            T::Num(n) => match ty {
                Ty::Int(w) => {
                    if *w > 128 {
                        return if n == "0" { Ok(P::zero(ty)) } else { Err("wide const".into()) };
                    }
                    let v: u128 = if let Some(x) = n.strip_prefix('-') {
                        (x.parse::<u128>().map_err(|e| e.to_string())?).wrapping_neg()
                    } else {
                        n.parse::<u128>().map_err(|e| e.to_string())?
                    };
                    Ok(V::I(v & crate::expr::mask(*w)))
                }
                Ty::F64 | Ty::F32 => {
                    let bits: u64 = if let Some(h) = n.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).map_err(|e| e.to_string())?
                    } else {
                        n.parse::<f64>().map_err(|e| e.to_string())?.to_bits()
                    };
                    if *ty == Ty::F32 {
                        Ok(V::I((f64::from_bits(bits) as f32).to_bits() as u128))
                    } else {
                        Ok(V::I(bits as u128))
                    }
                }
                _ => Err(format!("num const of {ty:?}")),
            },
            T::Global(g) => Ok(V::I(*self.m.addr.get(g.as_str()).ok_or(format!("global {g}"))? as u128)),
            T::Str(s) => Ok(V::A(Rc::new(s.iter().map(|b| V::I(*b as u128)).collect()))),
            T::Word(w) => match w.as_str() {
                "true" => Ok(V::I(1)),
                "false" => Ok(V::I(0)),
                "null" => Ok(V::I(0)),
                "undef" | "poison" | "zeroinitializer" => Ok(P::zero(ty)),
                "splat" => {
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let v = self.constant(&t)?;
                    self.exp_p(')')?;
                    if let Ty::Vector(n, _) | Ty::Array(n, _) = ty {
                        Ok(V::A(Rc::new(vec![v; *n as usize])))
                    } else {
                        Err("splat".into())
                    }
                }
                "getelementptr" => {
                    self.skip_attrs()?;
                    self.exp_p('(')?;
                    let st = self.ty()?;
                    self.exp_p(',')?;
                    self.ty()?;
                    let mut base = match self.constant(&Ty::Ptr)? {
                        V::I(x) => x as u64,
                        _ => return Err("gep".into()),
                    };
                    let mut cur = st;
                    let mut first = true;
                    while self.eat_p(',') {
                        let t = self.ty()?;
                        let v = match self.constant(&t)? {
                            V::I(x) => crate::expr::sx(x, t.width()) as i64,
                            _ => return Err("gep".into()),
                        };
                        if first {
                            base = base.wrapping_add((v as u64).wrapping_mul(cur.size()));
                            first = false;
                        } else {
                            base = base.wrapping_add(cur.field_off(v as usize));
                            cur = cur.elem(v as usize);
                        }
                    }
                    self.exp_p(')')?;
                    Ok(V::I(base as u128))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" => {
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let v = self.constant(&t)?;
                    if !self.eat_w("to") {
                        return Err("to".into());
                    }
                    let to = self.ty()?;
                    self.exp_p(')')?;
                    match v {
                        V::I(x) => Ok(V::I(x & crate::expr::mask(to.width()))),
                        v => Ok(v),
                    }
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" => {
                    self.skip_attrs()?;
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let a = self.constant(&t)?;
                    self.exp_p(',')?;
                    let t2 = self.ty()?;
                    let b = self.constant(&t2)?;
                    self.exp_p(')')?;
                    use crate::expr::B;
                    let op = match w.as_str() {
                        "add" => B::Add,
                        "sub" => B::Sub,
                        "mul" => B::Mul,
                        "xor" => B::Xor,
                        "and" => B::And,
                        "or" => B::Or,
                        _ => B::Shl,
                    };
                    match (a, b) {
                        (V::I(a), V::I(b)) => Ok(V::I(crate::expr::bin_c(op, t.width(), a, b))),
                        _ => Err("cexpr".into()),
                    }
                }
                _ => Err(format!("const word {w}")),
            },
            T::P('{') => self.agg('}'),
            T::P('[') => self.agg(']'),
            T::P('<') => {
                if self.eat_p('{') {
                    let r = self.agg('}')?;
                    self.exp_p('>')?;
                    Ok(r)
                } else {
                    self.agg('>')
                }
            }
            x => Err(format!("const? {x:?}")),
        }
    }
    fn agg(&mut self, close: char) -> R<V> {
        let mut v = vec![];
        if !self.eat_p(close) {
            loop {
                let t = self.ty()?;
                v.push(self.constant(&t)?);
                if self.eat_p(close) {
                    break;
                }
                self.exp_p(',')?;
            }
        }
        Ok(V::A(Rc::new(v)))
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("read ll");
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module {
            lines: vec![],
            funcs: HashMap::new(),
            types: HashMap::new(),
            globals: vec![],
            addr: HashMap::new(),
            fn_at: HashMap::new(),
            aliases: vec![],
        };
        let mut i = 0;
        let mut faddr = 0x1000u64;
        let mut pretty = String::new();
        while i < lines.len() {
            let l = &lines[i];
            if let Some(c) = l.strip_prefix("; ") {
                if !c.starts_with("Function Attrs") {
                    pretty = c.to_string();
                }
            } else if l.starts_with("define ") {
                let name: Rc<str> = Rc::from(global_name(l));
                let st = i + 1;
                let mut j = st;
                while lines[j] != "}" {
                    j += 1;
                }
                m.funcs.insert(
                    name.clone(),
                    FuncSrc {
                        header: l.clone(),
                        body: (st, j),
                        pretty: std::mem::take(&mut pretty),
                    },
                );
                m.addr.insert(name.to_string(), faddr);
                m.fn_at.insert(faddr, name);
                faddr += 16;
                i = j;
            } else if l.starts_with("declare ") {
                let name: Rc<str> = Rc::from(global_name(l));
                m.addr.insert(name.to_string(), faddr);
                m.fn_at.insert(faddr, name);
                faddr += 16;
            } else if l.starts_with('@') {
                let n = global_name(l);
                let eq = l.find(" = ").unwrap();
                m.globals.push((n, l[eq + 3..].to_string()));
            } else if l.starts_with('%') && l.contains(" = type ") {
                let t = lex(l);
                if let T::Local(n) = &t[0] {
                    let p = l.find(" = type ").unwrap();
                    m.types.insert(n.clone(), l[p + 8..].to_string());
                }
            } else if l.is_empty() {
                pretty.clear();
            }
            i += 1;
        }
        m.lines = lines;
        assert!(faddr < 0x80_0000);
        m
    }

    pub fn parse_func(&self, name: &Rc<str>) -> R<Func> {
        let src = self.funcs.get(name).ok_or(format!("no body for {name}"))?;
        let mut regs: HashMap<String, u32> = HashMap::new();
        // params
        let hd = lex(&src.header);
        let mut p = P::new(&hd, self);
        while !matches!(p.peek(), Some(T::Global(_))) {
            p.i += 1;
        }
        p.i += 1;
        p.exp_p('(')?;
        let mut params = vec![];
        let mut k = 0u32;
        if !p.eat_p(')') {
            loop {
                if p.eat_p('.') {
                    return Err("varargs def".into());
                }
                p.ty()?;
                p.skip_attrs()?;
                if let Some(T::Local(n)) = p.peek() {
                    regs.insert(n.clone(), k);
                    p.i += 1;
                }
                params.push(k);
                k += 1;
                if p.eat_p(')') {
                    break;
                }
                p.exp_p(',')?;
            }
        }
        // split blocks
        let (s, e) = src.body;
        let mut blocks_txt: Vec<(String, Vec<String>)> = vec![];
        let mut i = s;
        while i < e {
            let l = &self.lines[i];
            i += 1;
            if l.is_empty() || l.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let lab = l.split(':').next().unwrap();
                let lab = if l.starts_with('"') {
                    let q = l[1..].find('"').unwrap();
                    l[1..q + 1].to_string()
                } else {
                    lab.to_string()
                };
                blocks_txt.push((lab, vec![]));
                continue;
            }
            if blocks_txt.is_empty() {
                let unnamed = regs.keys().filter(|k| k.bytes().all(|c| c.is_ascii_digit())).count();
                blocks_txt.push((unnamed.to_string(), vec![]));
            }
            let mut t = l.trim().to_string();
            if t.starts_with("switch ") && !t.contains(']') {
                loop {
                    t.push(' ');
                    t.push_str(self.lines[i].trim());
                    i += 1;
                    if self.lines[i - 1].trim().starts_with(']') {
                        break;
                    }
                }
            } else if t.starts_with("invoke ") || t.contains(" = invoke ") {
                t.push(' ');
                t.push_str(self.lines[i].trim());
                i += 1;
            } else if t.contains("landingpad") {
                while self.lines[i].starts_with("     ") {
                    i += 1;
                }
            }
            blocks_txt.last_mut().unwrap().1.push(t);
        }
        let bix: HashMap<String, u32> = blocks_txt
            .iter()
            .enumerate()
            .map(|(i, (n, _))| (n.clone(), i as u32))
            .collect();
        let mut cx = FCx { regs, nregs: k, bix };
        let mut blocks = vec![];
        for (_, ls) in &blocks_txt {
            let mut b = Block {
                phis: vec![],
                phi_ty: vec![],
                ins: vec![],
            };
            for l in ls {
                let toks = lex(l);
                match parse_ins(self, &mut cx, &toks, &mut b) {
                    Ok(Some(i)) => b.ins.push(i),
                    Ok(None) => {}
                    Err(er) => b.ins.push(Ins::Bad(format!("{er}: {l}"))),
                }
            }
            blocks.push(b);
        }
        Ok(Func {
            name: name.clone(),
            nregs: cx.nregs,
            params,
            blocks,
        })
    }
}

pub fn global_name(l: &str) -> String {
    let p = l.find('@').unwrap();
    let b = &l[p + 1..];
    if let Some(r) = b.strip_prefix('"') {
        r[..r.find('"').unwrap()].to_string()
    } else {
        let e = b
            .find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-'))
            .unwrap_or(b.len());
        b[..e].to_string()
    }
}

struct FCx {
    regs: HashMap<String, u32>,
    nregs: u32,
    bix: HashMap<String, u32>,
}
impl FCx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
}

fn operand(p: &mut P, cx: &mut FCx, ty: &Ty) -> R<Op> {
    p.skip_attrs()?;
    if let Some(T::Local(n)) = p.peek() {
        p.i += 1;
        return Ok(Op::R(cx.reg(n)));
    }
    Ok(Op::C(p.constant(ty)?))
}
fn typed(p: &mut P, cx: &mut FCx) -> R<(Ty, Op)> {
    let t = p.ty()?;
    let o = operand(p, cx, &t)?;
    Ok((t, o))
}
fn label(p: &mut P, cx: &FCx) -> R<u32> {
    if !p.eat_w("label") {
        return Err("label".into());
    }
    match p.next()? {
        T::Local(n) => cx.bix.get(n).copied().ok_or(format!("block {n}")),
        x => Err(format!("label {x:?}")),
    }
}

fn parse_ins(m: &Module, cx: &mut FCx, toks: &[T], blk: &mut Block) -> R<Option<Ins>> {
    let mut p = P::new(toks, m);
    let mut dst = None;
    if let (Some(T::Local(n)), Some(T::P('='))) = (toks.get(0), toks.get(1)) {
        dst = Some(cx.reg(n));
        p.i = 2;
    }
    let op = match p.next()? {
        T::Word(w) => w.clone(),
        x => return Err(format!("op {x:?}")),
    };
    let d = dst.unwrap_or(u32::MAX);
    use crate::expr::B;
    let bop = |o: &str| {
        Some(match o {
            "add" => B::Add,
            "sub" => B::Sub,
            "mul" => B::Mul,
            "udiv" => B::UDiv,
            "sdiv" => B::SDiv,
            "urem" => B::URem,
            "srem" => B::SRem,
            "shl" => B::Shl,
            "lshr" => B::LShr,
            "ashr" => B::AShr,
            "and" => B::And,
            "or" => B::Or,
            "xor" => B::Xor,
            _ => return None,
        })
    };
    if let Some(b) = bop(&op) {
        p.skip_attrs()?;
        let (t, a) = typed(&mut p, cx)?;
        p.exp_p(',')?;
        let c = operand(&mut p, cx, &t)?;
        return Ok(Some(Ins::Bin(BinOp::B(b), t, d, a, c)));
    }
    match op.as_str() {
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            p.skip_attrs()?;
            let (t, a) = typed(&mut p, cx)?;
            p.exp_p(',')?;
            let c = operand(&mut p, cx, &t)?;
            Ok(Some(Ins::FBin(op.as_bytes()[1], t, d, a, c)))
        }
        "fneg" => {
            p.skip_attrs()?;
            let (t, a) = typed(&mut p, cx)?;
            Ok(Some(Ins::FNeg(t, d, a)))
        }
        "icmp" => {
            p.skip_attrs()?;
            let pr = match p.next()? {
                T::Word(w) => match w.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => return Err(format!("pred {x}")),
                },
                x => return Err(format!("pred {x:?}")),
            };
            let (t, a) = typed(&mut p, cx)?;
            p.exp_p(',')?;
            let c = operand(&mut p, cx, &t)?;
            Ok(Some(Ins::Icmp(pr, t, d, a, c)))
        }
        "fcmp" => {
            p.skip_attrs()?;
            let pr = match p.next()? {
                T::Word(w) => w.clone(),
                x => return Err(format!("pred {x:?}")),
            };
            let (t, a) = typed(&mut p, cx)?;
            p.exp_p(',')?;
            let c = operand(&mut p, cx, &t)?;
            Ok(Some(Ins::Fcmp(pr, t, d, a, c)))
        }
        "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext"
        | "fptrunc" | "addrspacecast" | "ptrtoaddr" => {
            p.skip_attrs()?;
            let (t, a) = typed(&mut p, cx)?;
            if !p.eat_w("to") {
                return Err("to".into());
            }
            let to = p.ty()?;
            let c = match op.as_str() {
                "zext" => Cast::Zext,
                "sext" => Cast::Sext,
                "trunc" => Cast::Trunc,
                "bitcast" => Cast::Bit,
                "uitofp" => Cast::UiToFp,
                "sitofp" => Cast::SiToFp,
                "fptoui" => Cast::FpToUi,
                "fptosi" => Cast::FpToSi,
                "fpext" => Cast::FpExt,
                "fptrunc" => Cast::FpTrunc,
                _ => {
                    let (a, b) = (t.width(), to.width());
                    if a < b {
                        Cast::Zext
                    } else if a > b {
                        Cast::Trunc
                    } else {
                        Cast::Same
                    }
                }
            };
            Ok(Some(Ins::Cast(c, t, to, d, a)))
        }
        "load" => {
            if p.eat_w("atomic") {}
            p.skip_attrs()?;
            let t = p.ty()?;
            p.exp_p(',')?;
            let (_, a) = typed(&mut p, cx)?;
            Ok(Some(Ins::Load(t, d, a)))
        }
        "store" => {
            if p.eat_w("atomic") {}
            p.skip_attrs()?;
            let (t, v) = typed(&mut p, cx)?;
            p.exp_p(',')?;
            let (_, a) = typed(&mut p, cx)?;
            Ok(Some(Ins::Store(t, v, a)))
        }
        "getelementptr" => {
            p.skip_attrs()?;
            let mut cur = p.ty()?;
            p.exp_p(',')?;
            let (bt, base) = typed(&mut p, cx)?;
            if bt != Ty::Ptr {
                return Err("vector gep".into());
            }
            let mut off = 0i64;
            let mut dynv = vec![];
            let mut first = true;
            while p.eat_p(',') {
                if matches!(p.peek(), Some(T::Meta(_))) {
                    break;
                }
                let (t, o) = typed(&mut p, cx)?;
                let scale = if first {
                    cur.size()
                } else {
                    match &cur {
                        Ty::Struct(..) => {
                            let k = match &o {
                                Op::C(V::I(k)) => *k as usize,
                                _ => return Err("struct gep".into()),
                            };
                            off += cur.field_off(k) as i64;
                            cur = cur.elem(k);
                            continue;
                        }
                        _ => {
                            cur = cur.elem(0);
                            cur.size()
                        }
                    }
                };
                first = false;
                match &o {
                    Op::C(V::I(k)) => {
                        off = off.wrapping_add((crate::expr::sx(*k, t.width()) as i64).wrapping_mul(scale as i64))
                    }
                    _ => dynv.push((o, scale, t.width())),
                }
            }
            Ok(Some(Ins::Gep(d, base, off, dynv)))
        }
        "alloca" => {
            p.skip_attrs()?;
            let t = p.ty()?;
            let mut cnt = None;
            let mut al = t.align();
            while p.eat_p(',') {
                if p.eat_w("align") {
                    al = p.num()? as u64;
                } else if p.is_ty() {
                    let (_, o) = typed(&mut p, cx)?;
                    cnt = Some(o);
                } else {
                    break;
                }
            }
            Ok(Some(Ins::Alloca(d, t.size(), al, cnt)))
        }
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            let inv = op == "invoke";
            if op != "call" && op != "invoke" {
                p.eat_w("call");
            }
            p.skip_attrs()?;
            let ret = p.ty()?;
            // function type for varargs
            if p.is_p('(') {
                p.skip_parens()?;
            }
            let callee = match p.next()? {
                T::Global(g) => Callee::Direct(Rc::from(g.as_str())),
                T::Local(n) => Callee::Indirect(Op::R(cx.reg(n))),
                T::Word(w) if w == "asm" => {
                    while let Some(T::Word(_)) = p.peek() {
                        p.i += 1;
                    }
                    let a = match p.next()? {
                        T::Str(s) => String::from_utf8_lossy(s).to_string(),
                        _ => return Err("asm".into()),
                    };
                    p.exp_p(',')?;
                    p.next()?;
                    Callee::Asm(a)
                }
                x => return Err(format!("callee {x:?}")),
            };
            if let Callee::Direct(n) = &callee {
                if n.starts_with("llvm.lifetime")
                    || n.starts_with("llvm.experimental.noalias")
                    || n.starts_with("llvm.dbg")
                    || n.starts_with("llvm.assume")
                    || n.starts_with("llvm.invariant")
                    || n.starts_with("llvm.prefetch")
                    || n.starts_with("llvm.fake.use")
                {
                    return Ok(None);
                }
            }
            p.exp_p('(')?;
            let mut args = vec![];
            if !p.eat_p(')') {
                loop {
                    let t = p.ty()?;
                    if t == Ty::Meta {
                        p.i += 1;
                        args.push((t, Op::C(V::I(0))));
                    } else {
                        let o = operand(&mut p, cx, &t)?;
                        args.push((t, o));
                    }
                    if p.eat_p(')') {
                        break;
                    }
                    p.exp_p(',')?;
                }
            }
            let mut normal = None;
            if inv {
                while p.word() != Some("to") {
                    if p.peek().is_none() {
                        return Err("invoke to".into());
                    }
                    p.i += 1;
                }
                p.i += 1;
                normal = Some(label(&mut p, cx)?);
            }
            Ok(Some(Ins::Call(Box::new(CallI {
                callee,
                args,
                ret,
                dst,
                normal,
                cache: Default::default(),
            }))))
        }
        "select" => {
            p.skip_attrs()?;
            let (ct, c) = typed(&mut p, cx)?;
            p.exp_p(',')?;
            let (t, a) = typed(&mut p, cx)?;
            p.exp_p(',')?;
            let (_, b) = typed(&mut p, cx)?;
            Ok(Some(Ins::Select(ct, d, t, c, a, b)))
        }
        "extractvalue" => {
            let (_, a) = typed(&mut p, cx)?;
            let mut ix = vec![];
            while p.eat_p(',') {
                if matches!(p.peek(), Some(T::Meta(_))) {
                    break;
                }
                ix.push(p.num()? as usize);
            }
            Ok(Some(Ins::ExtractV(d, a, ix)))
        }
        "insertvalue" => {
            let (t, a) = typed(&mut p, cx)?;
            p.exp_p(',')?;
            let (_, v) = typed(&mut p, cx)?;
            let mut ix = vec![];
            while p.eat_p(',') {
                if matches!(p.peek(), Some(T::Meta(_))) {
                    break;
                }
                ix.push(p.num()? as usize);
            }
            Ok(Some(Ins::InsertV(d, a, v, ix, t)))
        }
        "extractelement" => {
            let (t, a) = typed(&mut p, cx)?;
            p.exp_p(',')?;
            let (_, i) = typed(&mut p, cx)?;
            Ok(Some(Ins::ExtractE(d, t, a, i)))
        }
        "insertelement" => {
            let (t, a) = typed(&mut p, cx)?;
            p.exp_p(',')?;
            let (_, v) = typed(&mut p, cx)?;
            p.exp_p(',')?;
            let (_, i) = typed(&mut p, cx)?;
            Ok(Some(Ins::InsertE(d, t, a, v, i)))
        }
        "shufflevector" => {
            let (t, a) = typed(&mut p, cx)?;
            p.exp_p(',')?;
            let (_, b) = typed(&mut p, cx)?;
            p.exp_p(',')?;
            let mt = p.ty()?;
            let mv = p.constant(&mt)?;
            let mut mk = vec![];
            if let V::A(x) = mv {
                for e in x.iter() {
                    if let V::I(k) = e {
                        mk.push(*k as i64)
                    }
                }
            }
            Ok(Some(Ins::Shuffle(d, t, a, b, mk)))
        }
        "br" => {
            if p.word() == Some("label") {
                return Ok(Some(Ins::Br(label(&mut p, cx)?)));
            }
            let (_, c) = typed(&mut p, cx)?;
            p.exp_p(',')?;
            let a = label(&mut p, cx)?;
            p.exp_p(',')?;
            let b = label(&mut p, cx)?;
            Ok(Some(Ins::CondBr(c, a, b)))
        }
        "switch" => {
            let (t, v) = typed(&mut p, cx)?;
            p.exp_p(',')?;
            let dflt = label(&mut p, cx)?;
            p.exp_p('[')?;
            let mut cs = vec![];
            while !p.eat_p(']') {
                let t = p.ty()?;
                let k = match p.constant(&t)? {
                    V::I(k) => k,
                    _ => return Err("case".into()),
                };
                p.exp_p(',')?;
                cs.push((k, label(&mut p, cx)?));
            }
            Ok(Some(Ins::Switch(v, t.width(), dflt, cs)))
        }
        "ret" => {
            let t = p.ty()?;
            if t == Ty::Void {
                return Ok(Some(Ins::Ret(None)));
            }
            Ok(Some(Ins::Ret(Some(operand(&mut p, cx, &t)?))))
        }
        "unreachable" => Ok(Some(Ins::Unreachable)),
        "phi" => {
            p.skip_attrs()?;
            let t = p.ty()?;
            let mut v = vec![];
            loop {
                p.exp_p('[')?;
                let o = operand(&mut p, cx, &t)?;
                p.exp_p(',')?;
                let b = match p.next()? {
                    T::Local(n) => *cx.bix.get(n).ok_or(format!("phi block {n}"))?,
                    x => return Err(format!("phi {x:?}")),
                };
                p.exp_p(']')?;
                v.push((b, o));
                if !p.eat_p(',') || !p.is_p('[') {
                    break;
                }
            }
            blk.phis.push((d, v));
            blk.phi_ty.push(t);
            Ok(None)
        }
        "atomicrmw" => {
            p.skip_attrs()?;
            let o = match p.next()? {
                T::Word(w) => w.clone(),
                _ => return Err("rmw".into()),
            };
            let (_, a) = typed(&mut p, cx)?;
            p.exp_p(',')?;
            let (t, v) = typed(&mut p, cx)?;
            Ok(Some(Ins::Rmw(o, t, d, a, v)))
        }
        "cmpxchg" => {
            p.eat_w("weak");
            p.skip_attrs()?;
            let (_, a) = typed(&mut p, cx)?;
            p.exp_p(',')?;
            let (t, c) = typed(&mut p, cx)?;
            p.exp_p(',')?;
            let (_, n) = typed(&mut p, cx)?;
            Ok(Some(Ins::CmpXchg(t, d, a, c, n)))
        }
        "fence" => Ok(Some(Ins::Nop)),
        "freeze" => {
            let (_, a) = typed(&mut p, cx)?;
            Ok(Some(Ins::Freeze(d, a)))
        }
        x => Err(format!("unsupported {x}")),
    }
}
