//! C02: fixed-lookahead decisions against the grammar's own (exhaustive) set of parses.
use crate::rt::*;
use doodle::byte_set::ByteSet;
use doodle::decoder::seq_kind::SeqKind;
use doodle::decoder::{Compiler, Value};
use doodle::helper::*;
use doodle::read::ReadCtxt;
use doodle::{Expr, Format, FormatModule};

#[derive(Clone)]
enum G {
    Set(&'static [u8]),
    Empty,
    Seq(Box<G>, Box<G>),
    Alt(Box<G>, Box<G>),
    Alt3([Box<G>; 3]),
    /// a call of the module's item with the given definition
    Item(Box<G>),
    Rep(Box<G>),
    Rep1(Box<G>),
    Opt(Box<G>),
    Count(usize, Box<G>),
    Between(usize, usize, Box<G>),
    /// a slice filled by its content
    Slice(usize, Box<G>),
    /// a slice whose content may stop early (the content's extent must not be ambiguous)
    Open(usize, Box<G>),
}
use G::*;
/// `rec`: sequences are records (whose fields are bound one after another) rather than tuples
fn format(m: &mut FormatModule, g: &G, rec: bool) -> Format {
    let mut fmt = |g: &G| format(m, g, rec);
    match g {
        Seq(a, b) if rec => record([("x", fmt(a)), ("y", fmt(b))]),
        Alt3([a, b, c]) => alts([("1", fmt(a)), ("2", fmt(b)), ("3", fmt(c))]),
        Item(a) => {
            let f = fmt(a);
            let known = m.iter_formats().next();
            match known {
                Some((_, r)) => r,
                None => m.define_format("i", f).call(),
            }
        }
        Set(s) => Format::Byte(s.iter().copied().collect::<ByteSet>()),
        Empty => Format::EMPTY,
        Seq(a, b) => tuple([fmt(a), fmt(b)]),
        Alt(a, b) => alts([("l", fmt(a)), ("r", fmt(b))]),
        Rep(a) => repeat(fmt(a)),
        Rep1(a) => repeat1(fmt(a)),
        Opt(a) => optional(fmt(a)),
        Count(n, a) => repeat_count(Expr::U8(*n as u8), fmt(a)),
        Between(n, m, a) => repeat_between(Expr::U32(*n as u32), Expr::U32(*m as u32), fmt(a)),
        Slice(n, a) => slice(Expr::U8(*n as u8), record([("c", fmt(a)), ("e", Format::EndOfInput)])),
        Open(n, a) => slice(Expr::U8(*n as u8), fmt(a)),
    }
}
/// every position at which a parse that starts in one of `from` (a bit set of positions) can end
fn ends(g: &G, buf: &[u8], from: u32) -> u32 {
    let star = |a: &G, from: u32, max: usize| {
        let (mut all, mut new) = (from, from);
        for _ in 0..max.min(buf.len() + 1) {
            new = ends(a, buf, new) & !all;
            if new == 0 {
                break;
            }
            all |= new;
        }
        all
    };
    match g {
        Set(s) => {
            let mut r = 0;
            for p in 0..buf.len() {
                if from >> p & 1 == 1 && s.contains(&buf[p]) {
                    r |= 2 << p;
                }
            }
            r
        }
        Empty => from,
        Seq(a, b) => ends(b, buf, ends(a, buf, from)),
        Alt(a, b) => ends(a, buf, from) | ends(b, buf, from),
        Alt3(gs) => gs.iter().fold(0, |r, a| r | ends(a, buf, from)),
        Item(a) => ends(a, buf, from),
        Rep(a) => star(a, from, usize::MAX),
        Rep1(a) => star(a, ends(a, buf, from), usize::MAX),
        Opt(a) => from | ends(a, buf, from),
        Count(n, a) => (0..*n).fold(from, |f, _| ends(a, buf, f)),
        Between(n, m, a) => {
            let mut f = (0..*n).fold(from, |f, _| ends(a, buf, f));
            let mut all = f;
            for _ in *n..*m {
                f = ends(a, buf, f);
                all |= f;
            }
            all
        }
        Slice(n, a) | Open(n, a) => {
            let mut r = 0;
            for p in 0..=buf.len() {
                if from >> p & 1 == 1 && p + n <= buf.len() {
                    let e = ends(a, &buf[..p + n], 1 << p);
                    if if matches!(g, Open(..)) { e != 0 } else { e >> (p + n) & 1 == 1 } {
                        r |= 1 << (p + n);
                    }
                }
            }
            r
        }
    }
}
/// where a parse with the given value ends, if the grammar allows that value there
fn derives(g: &G, v: &Value, buf: &[u8], p: usize) -> Option<usize> {
    let v = match v {
        Value::Branch(_, v) | Value::Mapped(_, v) => return derives(g, v, buf, p),
        v => v,
    };
    let elems = |a: &G, min: usize, max: usize| {
        let Value::Seq(SeqKind::Strict(vs)) = v else { return None };
        if vs.len() < min || vs.len() > max {
            return None;
        }
        vs.iter().try_fold(p, |p, v| derives(a, v, buf, p))
    };
    match (g, v) {
        (Set(s), Value::U8(b)) => (p < buf.len() && *b == buf[p] && s.contains(b)).then_some(p + 1),
        (Empty, Value::Tuple(vs)) if vs.is_empty() => Some(p),
        (Alt3(gs), Value::Variant(l, v)) => derives(&gs[l.parse::<usize>().ok()? - 1], v, buf, p),
        (Item(a), v) => derives(a, v, buf, p),
        (Seq(a, b), Value::Record(fs)) if fs.len() == 2 => derives(b, &fs[1].1, buf, derives(a, &fs[0].1, buf, p)?),
        (Seq(a, b), Value::Tuple(vs)) if vs.len() == 2 => derives(b, &vs[1], buf, derives(a, &vs[0], buf, p)?),
        (Alt(a, b), Value::Variant(l, v)) => derives(if l == "l" { a } else { b }, v, buf, p),
        (Rep(a), _) => elems(a, 0, usize::MAX),
        (Rep1(a), _) => elems(a, 1, usize::MAX),
        (Opt(_), Value::Option(None)) => Some(p),
        (Opt(a), Value::Option(Some(v))) => derives(a, v, buf, p),
        (Count(n, a), _) => elems(a, *n, *n),
        (Between(n, m, a), _) => elems(a, *n, *m),
        (Slice(n, a), Value::Record(fs)) if fs.len() == 2 && p + n <= buf.len() => {
            derives(a, &fs[0].1, &buf[..p + n], p).filter(|e| *e == p + n)
        }
        (Open(n, a), v) if p + n <= buf.len() => derives(a, v, &buf[..p + n], p).map(|_| p + n),
        _ => None,
    }
}
fn bx(g: G) -> Box<G> { Box::new(g) }
fn leaf() -> G {
    match choose(3) {
        0 => Set(b"a"),
        1 => Set(b"b"),
        _ => Set(b"ab"),
    }
}
fn un(k: usize, g: G) -> G {
    match k {
        0 => Rep(bx(g)),
        1 => Rep1(bx(g)),
        2 => Opt(bx(g)),
        3 => Count(2, bx(g)),
        4 => Between(1, 2, bx(g)),
        5 => Between(0, 2, bx(g)),
        7 => Between(2, 3, bx(g)),
        8 => Between(0, 1, bx(g)),
        _ => Slice(2, bx(g)),
    }
}
fn bin(k: usize, a: G, b: G) -> G {
    if k == 0 { Seq(bx(a), bx(b)) } else { Alt(bx(a), bx(b)) }
}
fn small() -> G {
    match choose(5) {
        4 => Open(2, bx(match choose(4) {
            0 => Rep(bx(leaf())),
            1 => Rep1(bx(leaf())),
            2 => Opt(bx(leaf())),
            _ => leaf(),
        })),
        0 => leaf(),
        1 => un(choose(7), leaf()),
        2 => bin(0, leaf(), leaf()),
        _ => Alt(bx(leaf()), bx(if choose(4) == 0 { Empty } else { leaf() })),
    }
}
fn decide(g: G, len: usize, rec: bool) {
    let mut m = FormatModule::new();
    let f = tuple([format(&mut m, &g, rec), Format::EndOfInput]);
    let Ok(prog) = nofmt(|| Compiler::compile_program(&m, &f)) else {
        cover("refused");
        return;
    };
    let all: [u8; 6] = bytes();
    let buf = &all[..choose(len + 1)];
    let got = nofmt(|| prog.run(ReadCtxt::new(buf)));
    let want = ends(&g, buf, 1) >> buf.len() & 1 == 1;
    match got {
        Ok((v, rest)) => {
            cover("accepted");
            if !want || rest.offset != buf.len() {
                fail("an input is accepted of which the grammar has no parse");
            }
            let Value::Tuple(vs) = &v else { fail("not a pair") };
            if derives(&g, &vs[0], buf, 0) != Some(buf.len()) {
                fail("the value is not one the grammar allows");
            }
        }
        Err(_) => {
            cover("rejected");
            if want {
                fail("an input is rejected of which the grammar has a parse");
            }
        }
    }
}
/// one operator over small grammars
#[unsafe(no_mangle)]
pub extern "C" fn h_one() {
    let k = choose(9);
    decide(un(k, small()), 4, false)
}
/// sequence or choice of two small grammars
#[unsafe(no_mangle)]
pub extern "C" fn h_two() {
    let k = choose(2);
    let (a, b) = (small(), small());
    decide(bin(k, a, b), LEN, true)
}
/// two operators over small grammars
#[unsafe(no_mangle)]
pub extern "C" fn h_nest() {
    let (j, k) = (choose(9), choose(9));
    decide(un(j, un(k, small())), 4, true)
}
/// an operator over a sequence or choice, or a sequence or choice with an operator inside
#[unsafe(no_mangle)]
pub extern "C" fn h_mixed() {
    let (j, k) = (choose(9), choose(2));
    let shape = choose(3);
    let (a, b) = (small(), leaf());
    decide(match shape {
        0 => un(j, bin(k, a, b)),
        1 => bin(k, un(j, a), b),
        _ => bin(k, b, un(j, a)),
    }, LEN, false)
}
/// choice of two sequences that start alike
#[unsafe(no_mangle)]
pub extern "C" fn h_factor() {
    let (a, b, c) = (small(), leaf(), leaf());
    let d = if cfg!(feature = "deep") { small() } else { un([0, 2, 3, 6][choose(4)], leaf()) };
    decide(Alt(bx(Seq(bx(a.clone()), bx(b))), bx(Seq(bx(d), bx(c)))), LEN, false)
}
fn word() -> G {
    let (a, b) = (|| bx(Set(b"a")), || bx(Set(b"b")));
    match choose(WORDS) {
        0 => *a(),
        1 => *b(),
        2 => Seq(a(), b()),
        3 => Seq(b(), a()),
        4 => Seq(a(), bx(Seq(a(), b()))),
        5 => Empty,
        6 => Seq(a(), bx(Opt(b()))),
        7 => Seq(bx(Rep(a())), b()),
        _ => Rep1(a()),
    }
}
/// three-way choice, alone, repeated and followed by something
#[unsafe(no_mangle)]
pub extern "C" fn h_three() {
    let g = Alt3([bx(word()), bx(word()), bx(word())]);
    decide(match choose(3) {
        0 => g,
        1 => Rep(bx(g)),
        _ => Seq(bx(g), bx(Set(b"a"))),
    }, 4, true)
}
/// one definition called in different contexts
#[unsafe(no_mangle)]
pub extern "C" fn h_item() {
    let i = || bx(Item(bx(small())));
    let i = i();
    let (x, y) = (bx(leaf()), bx(leaf()));
    decide(match choose(5) {
        0 => Alt(bx(Seq(i.clone(), x)), bx(Seq(y, i))),
        1 => Seq(i.clone(), bx(Seq(x, i))),
        2 => Rep(bx(Seq(x, i))),
        3 => Seq(i.clone(), bx(Opt(bx(Seq(x, i))))),
        _ => Seq(bx(Rep(i.clone())), bx(Seq(x, i))),
    }, LEN, false)
}
#[cfg(not(feature = "deep"))]
const LEN: usize = 3;
#[cfg(not(feature = "deep"))]
const WORDS: usize = 8;
#[cfg(feature = "deep")]
const WORDS: usize = 9;
#[cfg(feature = "deep")]
const LEN: usize = 5;
