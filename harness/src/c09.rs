//! C09: the size bounds computed for a format enclose what decoding with it consumes; the bounds of an expression enclose its value.
use crate::rt::*;
use doodle::bounds::Bounds;
use doodle::decoder::{Compiler, Scope, Value};
use doodle::helper::*;
use doodle::read::ReadCtxt;
use doodle::{Arith, Expr, Format, UnaryOp};
use sem::cat::{CASES, Case, INNER, WRAP, case, composed};
use sem::{CV, ev};

fn within(b: &Bounds, n: usize) -> bool { b.min() <= n && b.max().is_none_or(|m| n <= m) }
fn size(name: &str, c: Case, extra: usize) {
    let all: [u8; 16] = bytes();
    let buf = &all[..c.len + extra];
    let prog = nofmt(|| Compiler::compile_program(&c.module, &c.format));
    let Ok(prog) = prog else { return };
    // the reference only rules out inputs on which the format's own expressions are undefined
    let s = sem::Sem { module: &c.module, args: c.args.clone(), fuel: 40, cut: false, commit: true };
    if s.first(&c.format, &None, &sem::Inp::new(buf)).is_err() {
        assume(false);
    }
    let Ok((_, rest)) = nofmt(|| prog.run(ReadCtxt::new(buf))) else { return };
    cover("decoded");
    let b = nofmt(|| c.format.verif_match_bounds(&c.module));
    if b.max().is_some() {
        cover("bounded");
    }
    if !within(&b, rest.offset) {
        fail(&format!("[{name}] consumes a number of bytes outside the bounds computed for it"));
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_size() {
    let i = choose(CASES.len());
    size(CASES[i].0, case(i), EXTRA)
}
#[unsafe(no_mangle)]
pub extern "C" fn h_size_composed() {
    let w = choose(WRAP.len());
    let i = choose(INNER.len());
    size(&format!("{} / {}", WRAP[w].0, INNER[i].0), composed(w, i), 0)
}
fn x(e: Expr) -> Box<Expr> { Box::new(e) }
/// a symbolic operand of 32 bits: a literal, a value nothing is known about, one known to fit 8 bits, one masked by a literal
fn operand() -> Expr {
    let n = any_u8();
    let unknown = |e: Expr| Expr::SeqIx(x(Expr::Seq(vec![e])), x(Expr::U32(0)));
    match choose(4) {
        0 => Expr::U32(n as u32),
        1 => unknown(Expr::U32(n as u32)),
        2 => as_u32(as_u8(unknown(Expr::U32(n as u32)))),
        _ => bit_and(unknown(Expr::U32(n as u32)), Expr::U32([0x0f, 0x18, 0x81][choose(3)])),
    }
}
const OPS: [Arith; 9] = [Arith::Add, Arith::Sub, Arith::Mul, Arith::Div, Arith::Rem, Arith::BitAnd, Arith::BitOr, Arith::Shl, Arith::Shr];
fn expr(e: Expr) {
    let n = match ev(&e, &None) {
        Ok(CV::Num(_, n)) => n as usize,
        _ => return,
    };
    cover("value");
    let b = nofmt(|| e.verif_bounds());
    if b.max().is_some() {
        cover("bounded");
    }
    if !within(&b, n) {
        fail("the value of an expression is outside the bounds computed for it");
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_expr() {
    let i = choose(OPS.len());
    let (a, b) = (operand(), operand());
    expr(Expr::Arith(OPS[i], x(a), x(b)))
}
#[unsafe(no_mangle)]
pub extern "C" fn h_expr_nested() {
    let (i, j) = (choose(OPS.len()), choose(OPS.len()));
    let unknown = |n: u8| bit_and(Expr::SeqIx(x(Expr::Seq(vec![Expr::U32(n as u32)])), x(Expr::U32(0))), Expr::U32(7));
    let (a, b) = (unknown(any_u8()), Expr::U32((any_u8() & 7) as u32));
    let c = if choose(2) == 1 { unknown(any_u8()) } else { Expr::U32((any_u8() & 7) as u32) };
    let inner = Expr::Arith(OPS[i], x(a), x(b));
    expr(if choose(2) == 1 { Expr::Arith(OPS[j], x(inner), x(c)) } else { Expr::Arith(OPS[j], x(c), x(inner)) })
}
#[unsafe(no_mangle)]
pub extern "C" fn h_expr_unary() {
    let a = match choose(5) {
        0 => Expr::U8(any_u8()),
        1 => Expr::U16(any_u16()),
        2 => Expr::U32(any_u32()),
        3 => Expr::U64(any_u64()),
        _ => bit_and(Expr::SeqIx(x(Expr::Seq(vec![Expr::U64(any_u64())])), x(Expr::U32(0))), Expr::U64(any_u64())),
    };
    expr(match choose(7) {
        0 => Expr::Unary(UnaryOp::IntSucc, x(a)),
        1 => Expr::Unary(UnaryOp::IntPred, x(a)),
        2 => as_u8(a),
        3 => as_u16(a),
        4 => as_u32(a),
        5 => as_u64(a),
        _ => a,
    })
}
#[cfg(not(feature = "deep"))]
const EXTRA: usize = 1;
#[cfg(feature = "deep")]
const EXTRA: usize = 3;
