//! C01: the interpreter against the reference meaning of the format language, over the catalogue.
use crate::rt::*;
use doodle::decoder::Compiler;
use doodle::read::ReadCtxt;
use sem::cat::{CASES, Case, INNER, WRAP, case, composed, composed2};
use sem::{CV, Inp, Sem, cv, same};

pub enum Expect {
    Parse(CV, usize),
    Reject,
}
/// The reference's answer; paths on which the format's own expressions have no meaning are discarded.
pub fn reference(name: &str, c: &Case, buf: &[u8]) -> Expect {
    let run = |commit| {
        let s = Sem { module: &c.module, args: c.args.clone(), fuel: 40, cut: false, commit };
        s.first(&c.format, &None, &Inp::new(buf))
    };
    let r = run(true);
    if name.contains("nondet") || name.contains("where") {
        // ordered choice and conditions: only where committing to the first alternative and backtracking into it agree
        let agree = match (&r, &run(false)) {
            (Ok(None), Ok(None)) => true,
            (Ok(Some((v, i))), Ok(Some((w, j)))) => i.off == j.off && same(v, w),
            _ => false,
        };
        assume(agree);
    }
    match r {
        Ok(Some((v, i))) => Expect::Parse(v, i.off),
        Ok(None) => Expect::Reject,
        Err(_) => {
            assume(false);
            Expect::Reject
        }
    }
}

fn run(name: &str, c: &Case, short: bool, extra: usize, must: bool) {
    let all: [u8; 16] = bytes();
    let max = c.len + extra;
    let len = if short { choose(max) } else { max };
    let buf = &all[..len];
    let prog = nofmt(|| Compiler::compile_program(&c.module, &c.format));
    let Ok(prog) = prog else {
        if must {
            fail(&format!("[{name}] does not compile"))
        }
        cover("ambiguous");
        return;
    };
    let want = reference(name, c, buf);
    let got = nofmt(|| prog.run(ReadCtxt::new(buf)));
    match (got, want) {
        (Ok((v, rest)), Expect::Parse(w, end)) => {
            cover("accepted");
            if rest.offset != end {
                fail(&format!("[{name}] consumed the wrong number of bytes"));
            }
            if !same(&cv(&v), &w) {
                fail(&format!("[{name}] decoded the wrong value"));
            }
        }
        (Ok(_), Expect::Reject) => fail(&format!("[{name}] accepted an input outside the format")),
        (Err(_), Expect::Parse(..)) => fail(&format!("[{name}] rejected an input of the format")),
        (Err(_), Expect::Reject) => cover("rejected"),
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_interp() {
    let i = choose(CASES.len());
    let short = choose(2) == 1;
    run(CASES[i].0, &case(i), short, EXTRA, true);
}
/// What a choice sees of a permitted failure by looking ahead is left open by the library's documentation.
fn open_question(w: usize, i: usize) -> bool {
    INNER[i].0 != "permit" || !(WRAP[w].0 == "optional" || WRAP[w].0 == "union bare")
}
#[unsafe(no_mangle)]
pub extern "C" fn h_composed() {
    let w = choose(WRAP.len());
    let i = choose(INNER.len());
    assume(open_question(w, i));
    let short = choose(2) == 1;
    run(&format!("{} / {}", WRAP[w].0, INNER[i].0), &composed(w, i), short, 0, false);
}
#[cfg(feature = "deep")]
#[unsafe(no_mangle)]
pub extern "C" fn h_composed2() {
    let w = choose(WRAP.len() - 1);
    let v = choose(WRAP.len() - 1);
    let i = choose(INNER.len());
    assume(open_question(w, i) && open_question(v, i) && WRAP[v].0 != "permit");
    run(&format!("{} / {} / {}", WRAP[w].0, WRAP[v].0, INNER[i].0), &composed2(w, v, i), false, 0, false);
}
#[cfg(not(feature = "deep"))]
const EXTRA: usize = 2;
#[cfg(feature = "deep")]
const EXTRA: usize = 4;
