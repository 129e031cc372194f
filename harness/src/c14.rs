//! C14: canonical prefix codes, in the interpreter, the location-tracking interpreter and the runtime of generated code.
use crate::rt::*;
use doodle::decoder::{Compiler, Value};
use doodle::helper::*;
use doodle::prelude::{Parser, parse_huffman};
use doodle::read::ReadCtxt;
use doodle::{DynFormat, Expr, Format, FormatModule, Label};

/// (length, code) per symbol by the definition: codes in the order of (length, symbol) are consecutive values, extended with zeroes on the right.
/// None if the lengths ask for more codes than there are.
fn canonical(lens: &[u8]) -> Option<Vec<(u8, u32)>> {
    let mut out = vec![(0, 0); lens.len()];
    let mut next: u64 = 0; // as a 32-bit fraction of the code space
    for l in 1..=32u8 {
        for (i, &x) in lens.iter().enumerate() {
            if x == l {
                if next >= 1 << 32 {
                    return None;
                }
                out[i] = (l, (next >> (32 - l)) as u32);
                next += 1 << (32 - l);
            }
        }
    }
    if next > 1 << 32 { None } else { Some(out) }
}
/// Symbol and number of bits consumed from bit `at` of the (least significant bit first) input.
fn decode(codes: &[(u8, u32)], buf: &[u8], at: usize) -> Option<(u16, usize)> {
    let (mut v, mut n, mut p) = (0u32, 0u8, at);
    while p < buf.len() * 8 && n < 24 {
        v = v << 1 | (buf[p / 8] >> (p % 8) & 1) as u32;
        n += 1;
        p += 1;
        for (s, &(l, c)) in codes.iter().enumerate() {
            if l == n && c == v {
                return Some((s as u16, p));
            }
        }
    }
    None
}
fn lbl() -> Label { Label::Borrowed("h") }
fn huff(lens: &[u8], vals: Option<&[u8]>, k: usize) -> Format {
    // (an empty literal has no element type)
    let lit = |v: &[u8]| Box::new(if v.is_empty() { dup(Expr::U32(0), Expr::U8(0)) } else { Expr::Seq(v.iter().map(|&x| Expr::U8(x)).collect()) });
    let d = DynFormat::Huffman(lit(lens), vals.map(lit));
    Format::Bits(Box::new(Format::Dynamic(lbl(), d, Box::new(tuple_repeat(k, Format::Apply(lbl()))))))
}
fn check(lens: &[u8], vals: Option<&[u8]>, buf: &[u8], k: usize) {
    // the table the decoder is asked to build, in symbol order
    let mut table = lens.to_vec();
    if let Some(v) = vals {
        table = vec![0; v.len()];
        for i in 0..lens.len() {
            table[v[i] as usize] = lens[i];
        }
    }
    let codes = canonical(&table);
    let mut want: Option<(Vec<u16>, usize)> = Some((vec![], 0));
    for _ in 0..k {
        want = match (&codes, want) {
            (Some(c), Some((mut vs, at))) => decode(c, buf, at).map(|(s, p)| {
                vs.push(s);
                (vs, p)
            }),
            _ => None,
        };
    }
    match (&codes, &want) {
        (None, _) => cover("over-subscribed"),
        (_, Some(_)) => cover("decoded"),
        _ => cover("no code"),
    }
    let f = huff(lens, vals, k);
    let m = FormatModule::new();
    let prog = nofmt(|| Compiler::compile_program(&m, &f));
    let Ok(prog) = prog else { fail("does not compile") };
    let syms = |v: &Value| -> Option<Vec<u16>> {
        let Value::Tuple(vs) = v else { return None };
        vs.iter().map(|v| match v.coerce_mapped_value() { Value::U16(s) => Some(*s), _ => None }).collect()
    };
    let whole = |bits: usize| bits.div_ceil(8);
    match nofmt(|| prog.run(ReadCtxt::new(buf))) {
        Ok((v, rest)) => match &want {
            Some((vs, p)) => {
                chk!(syms(&v).as_ref() == Some(vs), "interpreter: another symbol");
                chk!(rest.offset == whole(*p), "interpreter: another length");
            }
            None => fail("interpreter: decodes bits no code covers"),
        },
        Err(_) => chk!(want.is_none(), "interpreter: rejects a code"),
    }
    match nofmt(|| prog.run_with_loc(ReadCtxt::new(buf))) {
        Ok((v, rest)) => match &want {
            Some((vs, p)) => {
                chk!(syms(&v.clone_into_value()).as_ref() == Some(vs), "with locations: another symbol");
                chk!(rest.offset == whole(*p), "with locations: another length");
            }
            None => fail("with locations: decodes bits no code covers"),
        },
        Err(_) => chk!(want.is_none(), "with locations: rejects a code"),
    }
    let d = nofmt(|| parse_huffman(lens, vals.map(|v| v.to_vec())));
    let mut p = Parser::new(buf);
    chk!(p.enter_bits_mode().is_ok(), "runtime: bits-mode");
    let mut got = Some(vec![]);
    for _ in 0..k {
        got = match (got, nofmt(|| d(&mut p))) {
            (Some(mut g), Ok(s)) => {
                g.push(s);
                Some(g)
            }
            _ => None,
        };
        if got.is_none() {
            break;
        }
    }
    match (&got, &want) {
        (Some(g), Some((w, at))) => {
            chk!(g == w, "runtime: another symbol");
            chk!(p.get_bits_read() == Some(*at), "runtime: another length");
        }
        (None, None) => {}
        (Some(_), None) => fail("runtime: decodes bits no code covers"),
        (None, Some(_)) => fail("runtime: rejects a code"),
    }
}
/// every table of up to N lengths below M
#[unsafe(no_mangle)]
pub extern "C" fn h_huff_small() {
    let n = choose(N + 1);
    let mut lens = vec![];
    for _ in 0..n {
        lens.push(choose(M) as u8);
    }
    let buf: [u8; 2] = bytes();
    check(&lens, None, &buf[..1 + (n > 2) as usize], 2);
}
/// tables given out of order
#[unsafe(no_mangle)]
pub extern "C" fn h_huff_values() {
    const PERM: [[u8; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let v = PERM[choose(6)];
    let n = 1 + choose(3);
    let mut lens = vec![];
    for _ in 0..n {
        lens.push(choose(4) as u8);
    }
    let buf: [u8; 1] = bytes();
    check(&lens, Some(&v), &buf, 2);
}
/// long codes: one code of each length, or several of the greatest
#[unsafe(no_mangle)]
pub extern "C" fn h_huff_long() {
    let max = [7u8, 8, 9, 15, 16][choose(5)];
    let shape = choose(4);
    let lens: Vec<u8> = match shape {
        0 => (1..=max).chain([max]).collect(),
        1 => (1..=max).rev().collect(),
        2 => vec![max, 0, max, 1, max],
        _ => vec![2, max, 3, 0, max, max - 1],
    };
    let buf: [u8; 3] = bytes();
    check(&lens, None, &buf, 1);
}
#[cfg(not(feature = "deep"))]
const N: usize = 4;
#[cfg(feature = "deep")]
const N: usize = 5;
#[cfg(not(feature = "deep"))]
const M: usize = 4;
#[cfg(feature = "deep")]
const M: usize = 5;
