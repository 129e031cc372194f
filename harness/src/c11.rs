//! C11: both expression evaluators (plain and location-tracking) against the reference meaning of every operator.
use crate::rt::*;
use doodle::bounds::Bounds;
use doodle::decoder::{Scope, Value};
use doodle::helper::*;
use doodle::loc_decoder::LocScope;
use doodle::{Arith, BaseType, Expr, IntRel, Pattern, UnaryOp, ValueType};
use sem::{CV, cv, ev, same};

fn x(e: Expr) -> Box<Expr> { Box::new(e) }
/// a symbolic literal of width index 0..4
fn lit(w: usize) -> Expr {
    match w {
        0 => Expr::U8(any_u8()),
        1 => Expr::U16(any_u16()),
        2 => Expr::U32(any_u32()),
        _ => Expr::U64(any_u64()),
    }
}
fn check(name: &str, e: Expr) {
    let loc = choose(2) == 1;
    let want = ev(&e, &None);
    if want.is_err() {
        // a search by bisection presupposes sorted keys
        assume(!name.starts_with("find sorted"));
        cover("undefined");
        may_panic();
    }
    let got = nofmt(|| if loc { e.eval_value_with_loc(&LocScope::Empty) } else { e.eval_value(&Scope::Empty) });
    match want {
        Ok(w) => {
            cover("defined");
            if !same(&cv(&got), &w) {
                fail(&format!("[{name}] evaluates to the wrong value (with locations: {loc})"))
            }
        }
        Err(_) => fail(&format!("[{name}] yields a value where it is undefined (with locations: {loc})")),
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_arith() {
    let ops = [Arith::Add, Arith::Sub, Arith::Mul, Arith::Div, Arith::Rem, Arith::BitAnd, Arith::BitOr, Arith::Shl, Arith::Shr];
    let i = choose(ops.len());
    let w = choose(4);
    let (a, b) = (lit(w), lit(w));
    check(&format!("{:?} u{}", ops[i], 8 << w), Expr::Arith(ops[i], x(a), x(b)));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_rel() {
    let ops = [IntRel::Eq, IntRel::Ne, IntRel::Lt, IntRel::Gt, IntRel::Lte, IntRel::Gte];
    let i = choose(ops.len());
    let w = choose(4);
    let (a, b) = (lit(w), lit(w));
    check(&format!("{:?} u{}", ops[i], 8 << w), Expr::IntRel(ops[i], x(a), x(b)));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_unary() {
    let i = choose(7);
    let w = choose(4);
    let a = x(lit(w));
    let (n, e) = match i {
        0 => ("succ", Expr::Unary(UnaryOp::IntSucc, a)),
        1 => ("pred", Expr::Unary(UnaryOp::IntPred, a)),
        2 => ("as u8", Expr::AsU8(a)),
        3 => ("as u16", Expr::AsU16(a)),
        4 => ("as u32", Expr::AsU32(a)),
        5 => ("as u64", Expr::AsU64(a)),
        _ => ("as char", Expr::AsChar(a)),
    };
    check(&format!("{n} u{}", 8 << w), e);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_bool() {
    let (a, b) = (Expr::Bool(any_bool()), Expr::Bool(any_bool()));
    match choose(4) {
        0 => check("and", Expr::Arith(Arith::BoolAnd, x(a), x(b))),
        1 => check("or", Expr::Arith(Arith::BoolOr, x(a), x(b))),
        2 => check("not", Expr::Unary(UnaryOp::BoolNot, x(a))),
        _ => check("if", expr_if_else(a, lit(0), lit(1))),
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_endian() {
    let i = choose(6);
    let n = [2, 2, 4, 4, 8, 8][i];
    let t = x(Expr::Tuple((0..n).map(|_| lit(0)).collect()));
    let (s, e) = match i {
        0 => ("u16be", Expr::U16Be(t)),
        1 => ("u16le", Expr::U16Le(t)),
        2 => ("u32be", Expr::U32Be(t)),
        3 => ("u32le", Expr::U32Le(t)),
        4 => ("u64be", Expr::U64Be(t)),
        _ => ("u64le", Expr::U64Le(t)),
    };
    check(s, e);
}
/// sequences in each of their representations, with symbolic elements
fn seq8() -> Expr {
    let b = || Expr::U8(any_u8());
    match choose(7) {
        k @ 0..=3 => Expr::Seq((0..k).map(|_| b()).collect()),
        4 => Expr::Dup(x(Expr::U32(3)), x(b())),
        5 => Expr::Append(x(Expr::Seq(vec![b(), b()])), x(Expr::Dup(x(Expr::U32(2)), x(b())))),
        _ => Expr::SubSeq(x(Expr::Seq(vec![b(), b(), b(), b()])), x(Expr::U32(1)), x(Expr::U32(3))),
    }
}
fn small() -> Expr {
    let n = any_u32();
    assume(n < 6);
    Expr::U32(n)
}
fn lam2(a: &'static str, b: &'static str, e: Expr) -> Expr { lambda_tuple([a, b], e) }
const U8T: ValueType = ValueType::Base(BaseType::U8);
const U16T: ValueType = ValueType::Base(BaseType::U16);
#[unsafe(no_mangle)]
pub extern "C" fn h_seq() {
    let k = choose(SEQ.len());
    let s = seq8();
    check(SEQ[k].0, (SEQ[k].1)(s));
}
const SEQ: &[(&str, fn(Expr) -> Expr)] = &[
    ("seq", |s| s),
    ("seq length", |s| seq_length(s)),
    ("seq ix", |s| Expr::SeqIx(x(s), x(Expr::U32(any_u32())))),
    ("seq ix checked", |s| index_checked(s, Expr::U32(any_u32()))),
    ("sub seq", |s| Expr::SubSeq(x(s), x(Expr::U32(any_u32())), x(Expr::U32(any_u32())))),
    ("sub seq inflate", |s| Expr::SubSeqInflate(x(s), x(Expr::U32(any_u32())), x(small()))),
    ("sub sub seq", |s| Expr::SubSeq(x(Expr::SubSeq(x(s), x(small()), x(small()))), x(small()), x(small()))),
    ("inflate of inflate", |s| Expr::SubSeqInflate(x(Expr::SubSeqInflate(x(s), x(small()), x(small()))), x(small()), x(small()))),
    ("flat map", |s| flat_map(lambda("e", expr_if_else(expr_lt(var("e"), Expr::U8(any_u8())), Expr::Seq(vec![var("e"), Expr::U8(0)]), seq_empty())), s)),
    ("flat map accum", |s| flat_map_accum(lam2("a", "e", pair(as_u16(var("e")), Expr::Seq(vec![var("a"), as_u16(var("e"))]))), Expr::U16(any_u16()), U16T, s)),
    ("flat map list", |s| flat_map_list(lam2("l", "e", expr_if_else(expr_eq(seq_length(var("l")), Expr::U32(0)), Expr::Seq(vec![var("e")]), Expr::Seq(vec![var("e"), index_unchecked(var("l"), Expr::U32(0))]))), U8T, s)),
    ("left fold", |s| left_fold(lam2("a", "e", bit_or(shl(var("a"), Expr::U16(1)), as_u16(var("e")))), Expr::U16(any_u16()), U16T, s)),
    ("left fold sub", |s| left_fold(lam2("a", "e", sub(var("a"), var("e"))), Expr::U8(any_u8()), U8T, s)),
    ("find", |s| find_by_key(false, |e| bit_and(e, Expr::U8(0x3f)), Expr::U8(any_u8()), s)),
    ("find sorted", |s| find_by_key(true, |e| e, Expr::U8(any_u8()), s)),
    ("find sorted key", |s| find_by_key(true, |e| as_u16(e), Expr::U16(any_u16()), s)),
    ("dup", |s| Expr::Dup(x(small()), x(s))),
    ("dup length", |s| seq_length(Expr::Dup(x(Expr::U32(3)), x(s)))),
    ("dup ix", |_| Expr::SeqIx(x(Expr::Dup(x(small()), x(Expr::U8(any_u8())))), x(Expr::U32(any_u32())))),
    ("dup sub", |_| Expr::SubSeq(x(Expr::Dup(x(small()), x(Expr::U8(any_u8())))), x(Expr::U32(any_u32())), x(Expr::U32(any_u32())))),
    ("dup inflate", |_| Expr::SubSeqInflate(x(Expr::Dup(x(small()), x(Expr::U8(any_u8())))), x(Expr::U32(any_u32())), x(small()))),
    ("enum", |_| enum_from_to(small(), small())),
    ("enum length", |_| seq_length(enum_from_to(small(), small()))),
    ("enum ix", |_| Expr::SeqIx(x(enum_from_to(small(), small())), x(Expr::U32(any_u32())))),
    ("enum sub", |_| Expr::SubSeq(x(enum_from_to(small(), small())), x(small()), x(small()))),
    ("enum map", |s| flat_map(lambda("i", Expr::Seq(vec![var("i")])), enum_from_to(small(), as_u32(seq_length(s))))),
    ("enum index", |s| flat_map(lambda("i", Expr::Seq(vec![index_unchecked(s.clone(), as_u32(var("i")))])), enum_from_to(Expr::U32(0), seq_length(s.clone())))),
    ("append", |s| Expr::Append(x(s.clone()), x(s))),
    ("append right", |s| Expr::Append(x(Expr::Seq(vec![Expr::U8(any_u8())])), x(s))),
    ("append dup", |s| Expr::Append(x(Expr::Dup(x(small()), x(Expr::U8(any_u8())))), x(s))),
    ("append empty", |s| Expr::Append(x(seq_empty()), x(s))),
    ("append length", |s| seq_length(Expr::Append(x(s.clone()), x(s)))),
    ("match seq", |s| expr_match(s, [(Pattern::Seq(vec![]), Expr::U8(0)), (Pattern::Seq(vec![bind("a")]), var("a")), (Pattern::Seq(vec![Pattern::U8(3), bind("b")]), var("b")), (Pattern::Seq(vec![bind("b"), Pattern::Wildcard]), var("b")), (Pattern::Wildcard, Expr::U8(9))])),
    ("match seq partial", |s| expr_match(s, [(Pattern::Seq(vec![Pattern::Wildcard, Pattern::U8(1), bind("c")]), var("c"))])),
    ("last", |s| seq_last_unchecked(s)),
];
/// searches over sequences of every length up to 7: the bisection on ascending keys, the scan on any
#[unsafe(no_mangle)]
pub extern "C" fn h_find() {
    let n = choose(8);
    let sorted = choose(2) == 1;
    let v: Vec<u8> = (0..n).map(|_| any_u8()).collect();
    if sorted {
        for i in 1..n {
            assume(v[i - 1] < v[i]);
        }
    } else {
        assume(n < 6);
    }
    let q = any_u8();
    let rec = |b: &u8| Expr::Record(vec![("k".into(), Expr::U8(*b)), ("v".into(), Expr::U8(b.wrapping_add(100)))]);
    if choose(2) == 1 {
        let s = Expr::Seq(v.iter().map(rec).collect());
        check("search record", find_by_key(sorted, |e| record_proj(e, "k"), Expr::U8(q), s));
    } else {
        let s = Expr::Seq(v.iter().map(|b| Expr::U8(*b)).collect());
        check("search byte", find_by_key(sorted, |e| e, Expr::U8(q), s));
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_match() {
    let k = choose(11);
    let (a, b) = (any_u8(), any_u8());
    let t = pair(Expr::U8(a), Expr::U16(b as u16));
    match k {
        0 => check("match u8", expr_match(Expr::U8(a), [(Pattern::U8(b), Expr::U8(1)), (Pattern::Int(Bounds::new(3, 40)), Expr::U8(2)), (bind("z"), var("z"))])),
        1 => check("match u16", expr_match(Expr::U16(any_u16()), [(Pattern::U16(700), Expr::U8(1)), (Pattern::Int(Bounds::at_least(0x1000)), Expr::U8(2)), (Pattern::Wildcard, Expr::U8(3))])),
        2 => check("match u32", expr_match(Expr::U32(any_u32()), [(Pattern::U32(70000), Expr::U8(1)), (Pattern::Int(Bounds::exact(9)), Expr::U8(2))])),
        3 => check("match u64", expr_match(Expr::U64(any_u64()), [(Pattern::U64(1 << 40), Expr::U8(1)), (Pattern::Int(Bounds::new(0, 1 << 40)), Expr::U8(2)), (Pattern::Wildcard, Expr::U8(3))])),
        4 => check("match tuple", expr_match(t, [(Pattern::Tuple(vec![Pattern::U8(1), bind("q")]), var("q")), (Pattern::Tuple(vec![Pattern::Wildcard, Pattern::U16(2)]), Expr::U16(5))])),
        5 => check("match variant", expr_match(expr_if_else(expr_lt(Expr::U8(a), Expr::U8(b)), variant("lo", Expr::U8(a)), variant("hi", Expr::U8(b))), [(Pattern::variant("lo", Pattern::U8(7)), Expr::U8(0)), (Pattern::variant("hi", bind("h")), var("h")), (Pattern::variant("lo", bind("l")), var("l"))])),
        6 => check("match option", expr_match(expr_opt_if(expr_lt(Expr::U8(a), Expr::U8(b)), Expr::U8(a)), [(pat_none(), Expr::U8(0)), (pat_some(bind("v")), var("v"))])),
        7 => check("match bool", expr_match(Expr::Bool(a & 1 == 1), [(Pattern::Bool(true), Expr::U8(a)), (Pattern::Bool(false), Expr::U8(b))])),
        8 => check("match char", expr_match(as_char(Expr::U32(any_u32() & 0x1fffff)), [(Pattern::Char('a'), Expr::U8(1)), (Pattern::Char('\u{fffd}'), Expr::U8(2)), (Pattern::Wildcard, Expr::U8(3))])),
        9 => check("destructure", expr_destruct(t, Pattern::Tuple(vec![bind("p"), bind("q")]), pair(var("q"), var("p")))),
        _ => check("shadow", expr_match(Expr::U8(a), [(bind("z"), expr_match(Expr::U8(b), [(Pattern::U8(4), var("z")), (bind("z"), var("z"))]))])),
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_record() {
    let (a, b) = (any_u8(), any_u16());
    let r = Expr::Record(vec![("p".into(), Expr::U8(a)), ("q".into(), pair(Expr::U16(b), Expr::U8(a)))]);
    match choose(4) {
        0 => check("record", r),
        1 => check("record proj", record_proj(r, "p")),
        2 => check("record tuple proj", tuple_proj(record_proj(r, "q"), 0)),
        _ => check("variant record", variant("v", r)),
    }
}
