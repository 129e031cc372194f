//! C03: the generated decoder against the interpreter, over the catalogue and its compositions.
use crate::rt::*;
use doodle::decoder::Compiler;
use doodle::prelude::Parser;
use doodle::read::ReadCtxt;
use sem::cat::{gen_case, gen_count, gen_name};
use sem::{CV, Inp, Sem, cv};

pub mod generated {
    include!(env!("VERIF_GEN"));
}
use generated::{DEEP, GEN};

/// equality up to what the generated type does not keep (the position of a view; the width of an enumeration's elements)
fn same(a: &CV, b: &CV) -> bool {
    match (a, b) {
        (_, CV::Other) | (CV::Other, _) => true,
        (CV::Num(k, x), CV::Num(l, y)) => (k == l || *k == 0 || *l == 0) && x == y,
        (CV::Opt(Some(x)), CV::Opt(Some(y))) => same(x, y),
        (CV::Tup(x), CV::Tup(y)) | (CV::Seq(x), CV::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (CV::Rec(x), CV::Rec(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && same(&p.1, &q.1)),
        (CV::Var(l, x), CV::Var(m, y)) => l == m && same(x, y),
        _ => a == b,
    }
}
fn compare(k: usize, short: bool, extra: usize) {
    let (name, cat) = gen_name(DEEP, k);
    let Some(f) = GEN[k] else { return };
    let c = gen_case(DEEP, k);
    let all: [u8; 16] = bytes();
    let max = c.len + if cat { extra } else { 0 };
    let len = if short { choose(max) } else { max };
    let buf = &all[..len];
    let prog = nofmt(|| Compiler::compile_program(&c.module, &c.format));
    let Ok(prog) = prog else { return };
    // the reference only rules out inputs on which the format's own expressions are undefined
    let s = Sem { module: &c.module, args: c.args.clone(), fuel: 40, cut: false, commit: true };
    if s.first(&c.format, &None, &Inp::new(buf)).is_err() {
        assume(false);
    }
    let want = nofmt(|| prog.run(ReadCtxt::new(buf)));
    let mut p = Parser::new(buf);
    let got = nofmt(|| f(&mut p));
    match (got, want) {
        (Ok(g), Ok((v, rest))) => {
            cover("accepted");
            if !same(&g, &cv(&v)) {
                fail(&format!("[{name}] the generated decoder yields another value"));
            }
            if nofmt(|| p.get_offset_u64()) != rest.offset as u64 {
                fail(&format!("[{name}] the generated decoder consumes another length"));
            }
        }
        (Err(_), Err(_)) => cover("rejected"),
        (Ok(_), Err(_)) => fail(&format!("[{name}] only the generated decoder accepts")),
        (Err(_), Ok(_)) => fail(&format!("[{name}] only the interpreter accepts")),
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_gen_cat() {
    let k = choose(sem::cat::CASES.len());
    let short = choose(2) == 1;
    compare(k, short, EXTRA);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_gen_comp() {
    let k = choose2(gen_count(DEEP) - sem::cat::CASES.len());
    let short = choose(2) == 1;
    compare(sem::cat::CASES.len() + k, short, 0);
}
/// choices of more than 255 alternatives
fn choose2(n: usize) -> usize {
    let hi = choose(n.div_ceil(200));
    let lo = choose(200);
    assume(hi * 200 + lo < n);
    hi * 200 + lo
}
#[cfg(not(feature = "deep"))]
const EXTRA: usize = 1;
#[cfg(feature = "deep")]
const EXTRA: usize = 3;
