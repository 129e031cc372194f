//! C10: machine-integer kernels and the numeric expression evaluator against exact integers.
use crate::rt::*;
use doodle::numeric::core::{BasicBinOp, BasicUnaryOp, BinOp, CastOp, Expr, MachineRep, NumRep, TypedConst, UnaryOp, VOID, Value, bitwise_cast};
use doodle::numeric::eval::{self as k, Eval, EvalError};
use num_bigint::BigInt;
use num_traits::ToPrimitive;

trait Num: Copy {
    const MIN: i128;
    const MAX: i128;
    fn any() -> Self;
    fn big(self) -> i128;
}
macro_rules! num { ($($t:ty),*) => { $(impl Num for $t {
    const MIN: i128 = <$t>::MIN as i128;
    const MAX: i128 = <$t>::MAX as i128;
    fn any() -> Self { <$t>::from_le_bytes(bytes()) }
    fn big(self) -> i128 { self as i128 }
})* } }
num!(u8, u16, u32, u64, i8, i16, i32, i64);

/// an exact integer whose magnitude is at most 2^128 - 1
#[derive(Clone, Copy, PartialEq)]
struct Exact { neg: bool, mag: u128 }
impl Exact {
    fn of(x: i128) -> Exact { Exact { neg: x < 0, mag: x.unsigned_abs() } }
    fn is(self, b: &BigInt) -> bool {
        (b.sign() == num_bigint::Sign::Minus) == (self.neg && self.mag != 0) && b.magnitude().to_u128() == Some(self.mag)
    }
}
/// `None`: the operation has no result at all; `Some(None)`: its magnitude exceeds 127 bits
fn judge<T: Num>(name: &str, want: Option<Option<i128>>, got: Eval<T>) {
    let Some(x) = want else {
        chk!(got.is_nan() && matches!(got.eval(), Err(EvalError::NotANumber)), "[{name}] yields a number where there is none");
        return;
    };
    let fits = matches!(x, Some(v) if v >= T::MIN && v <= T::MAX);
    match got {
        Eval::Direct(g) => {
            cover("exact");
            chk!(fits, "[{name}] wraps an unrepresentable result");
            chk!(Some(g.big()) == x, "[{name}] yields a wrong result");
            chk!(matches!(got.eval(), Ok(h) if h.big() == g.big()), "[{name}] changes its result");
        }
        Eval::Indirect(_) => {
            cover("refused");
            chk!(!fits, "[{name}] refuses a representable result");
            // the reported product of wide factors is beyond the solver
            if !name.starts_with("mul") {
                match got.eval() {
                    Err(EvalError::Indirect(b)) => chk!(Exact::of(x.unwrap()).is(&b), "[{name}] reports a wrong out-of-range value"),
                    _ => fail(&format!("[{name}] yields a number that does not fit")),
                }
            }
        }
        Eval::NaN => fail(&format!("[{name}] reports a sound operation as not a number")),
    }
}
fn add<A: Num, B: Num>(a: A, b: B) -> Option<i128> { Some(a.big() + b.big()) }
fn sub<A: Num, B: Num>(a: A, b: B) -> Option<i128> { Some(a.big() - b.big()) }
fn mul<A: Num, B: Num>(a: A, b: B) -> Option<i128> {
    let (x, y) = (a.big(), b.big());
    if A::MIN < 0 || B::MIN < 0 { return Some(x * y); }
    let p = x as u128 * y as u128;
    if p >> 127 == 1 { None } else { Some(p as i128) }
}
fn bin<A: Num, B: Num, T: Num>(name: &str, f: fn(A, B) -> Eval<T>, want: fn(A, B) -> Option<i128>) {
    let (a, b) = (A::any(), B::any());
    judge(name, Some(want(a, b)), nofmt(|| f(a, b)));
}
macro_rules! quotient { ($f:ident, $a:ty, $b:ty, $o:ty, $op:tt) => { {
    let (a, b) = (<$a>::any(), <$b>::any());
    let want = if b == 0 { None }
        else if b.big() == -1 { Some(Some(if 7 $op 2 == 3 { -a.big() } else { 0 })) }
        else { Some(Some(((a as $o) $op (b as $o)) as i128)) };
    judge(stringify!($f), want, nofmt(|| k::$f(a, b)))
} } }
fn neg<A: Num>(a: A) -> i128 { -a.big() }
fn abs<A: Num>(a: A) -> i128 { a.big().abs() }
fn cast<A: Num>(a: A) -> i128 { a.big() }
fn un<A: Num, T: Num>(name: &str, f: fn(A) -> Eval<T>, want: fn(A) -> i128) {
    let a = A::any();
    judge(name, Some(Some(want(a))), nofmt(|| f(a)));
}

#[unsafe(no_mangle)]
pub extern "C" fn h_kernel_linear() {
    match choose(192) {
        0 => bin::<u8, u8, u8>("add_u8", k::add_u8, add),
        1 => bin::<u16, u16, u16>("add_u16", k::add_u16, add),
        2 => bin::<u32, u32, u32>("add_u32", k::add_u32, add),
        3 => bin::<u64, u64, u64>("add_u64", k::add_u64, add),
        4 => bin::<i8, i8, i8>("add_i8", k::add_i8, add),
        5 => bin::<i16, i16, i16>("add_i16", k::add_i16, add),
        6 => bin::<i32, i32, i32>("add_i32", k::add_i32, add),
        7 => bin::<i64, i64, i64>("add_i64", k::add_i64, add),
        8 => bin::<u8, u8, u8>("sub_u8", k::sub_u8, sub),
        9 => bin::<u16, u16, u16>("sub_u16", k::sub_u16, sub),
        10 => bin::<u32, u32, u32>("sub_u32", k::sub_u32, sub),
        11 => bin::<u64, u64, u64>("sub_u64", k::sub_u64, sub),
        12 => bin::<i8, i8, i8>("sub_i8", k::sub_i8, sub),
        13 => bin::<i16, i16, i16>("sub_i16", k::sub_i16, sub),
        14 => bin::<i32, i32, i32>("sub_i32", k::sub_i32, sub),
        15 => bin::<i64, i64, i64>("sub_i64", k::sub_i64, sub),
        16 => bin::<u8, u8, u16>("add_u8_u16", k::add_u8_u16, add),
        17 => bin::<u8, u8, u32>("add_u8_u32", k::add_u8_u32, add),
        18 => bin::<u8, u8, u64>("add_u8_u64", k::add_u8_u64, add),
        19 => bin::<u8, u8, i16>("add_u8_i16", k::add_u8_i16, add),
        20 => bin::<u8, u8, i32>("add_u8_i32", k::add_u8_i32, add),
        21 => bin::<u8, u8, i64>("add_u8_i64", k::add_u8_i64, add),
        22 => bin::<u16, u16, u32>("add_u16_u32", k::add_u16_u32, add),
        23 => bin::<u16, u16, u64>("add_u16_u64", k::add_u16_u64, add),
        24 => bin::<u16, u16, i32>("add_u16_i32", k::add_u16_i32, add),
        25 => bin::<u16, u16, i64>("add_u16_i64", k::add_u16_i64, add),
        26 => bin::<u32, u32, u64>("add_u32_u64", k::add_u32_u64, add),
        27 => bin::<u32, u32, i64>("add_u32_i64", k::add_u32_i64, add),
        28 => bin::<i8, i8, i16>("add_i8_i16", k::add_i8_i16, add),
        29 => bin::<i8, i8, i32>("add_i8_i32", k::add_i8_i32, add),
        30 => bin::<i8, i8, i64>("add_i8_i64", k::add_i8_i64, add),
        31 => bin::<i16, i16, i32>("add_i16_i32", k::add_i16_i32, add),
        32 => bin::<i16, i16, i64>("add_i16_i64", k::add_i16_i64, add),
        33 => bin::<i32, i32, i64>("add_i32_i64", k::add_i32_i64, add),
        34 => bin::<u8, u8, u16>("sub_u8_u16", k::sub_u8_u16, sub),
        35 => bin::<u8, u8, u32>("sub_u8_u32", k::sub_u8_u32, sub),
        36 => bin::<u8, u8, u64>("sub_u8_u64", k::sub_u8_u64, sub),
        37 => bin::<u8, u8, i16>("sub_u8_i16", k::sub_u8_i16, sub),
        38 => bin::<u8, u8, i32>("sub_u8_i32", k::sub_u8_i32, sub),
        39 => bin::<u8, u8, i64>("sub_u8_i64", k::sub_u8_i64, sub),
        40 => bin::<u16, u16, u32>("sub_u16_u32", k::sub_u16_u32, sub),
        41 => bin::<u16, u16, u64>("sub_u16_u64", k::sub_u16_u64, sub),
        42 => bin::<u16, u16, i32>("sub_u16_i32", k::sub_u16_i32, sub),
        43 => bin::<u16, u16, i64>("sub_u16_i64", k::sub_u16_i64, sub),
        44 => bin::<u32, u32, u64>("sub_u32_u64", k::sub_u32_u64, sub),
        45 => bin::<u32, u32, i64>("sub_u32_i64", k::sub_u32_i64, sub),
        46 => bin::<i8, i8, i16>("sub_i8_i16", k::sub_i8_i16, sub),
        47 => bin::<i8, i8, i32>("sub_i8_i32", k::sub_i8_i32, sub),
        48 => bin::<i8, i8, i64>("sub_i8_i64", k::sub_i8_i64, sub),
        49 => bin::<i16, i16, i32>("sub_i16_i32", k::sub_i16_i32, sub),
        50 => bin::<i16, i16, i64>("sub_i16_i64", k::sub_i16_i64, sub),
        51 => bin::<i32, i32, i64>("sub_i32_i64", k::sub_i32_i64, sub),
        52 => bin::<u8, i8, i16>("add_u8_i8_i16", k::add_u8_i8_i16, add),
        53 => bin::<u8, i8, i32>("add_u8_i8_i32", k::add_u8_i8_i32, add),
        54 => bin::<u8, i8, i64>("add_u8_i8_i64", k::add_u8_i8_i64, add),
        55 => bin::<i8, u8, i16>("add_i8_u8_i16", k::add_i8_u8_i16, add),
        56 => bin::<i8, u8, i32>("add_i8_u8_i32", k::add_i8_u8_i32, add),
        57 => bin::<i8, u8, i64>("add_i8_u8_i64", k::add_i8_u8_i64, add),
        58 => bin::<u16, u8, u16>("add_u16_u8_u16", k::add_u16_u8_u16, add),
        59 => bin::<u16, u8, u32>("add_u16_u8_u32", k::add_u16_u8_u32, add),
        60 => bin::<u16, u8, u64>("add_u16_u8_u64", k::add_u16_u8_u64, add),
        61 => bin::<u16, u8, i32>("add_u16_u8_i32", k::add_u16_u8_i32, add),
        62 => bin::<u16, u8, i64>("add_u16_u8_i64", k::add_u16_u8_i64, add),
        63 => bin::<u8, u16, u16>("add_u8_u16_u16", k::add_u8_u16_u16, add),
        64 => bin::<u8, u16, u32>("add_u8_u16_u32", k::add_u8_u16_u32, add),
        65 => bin::<u8, u16, u64>("add_u8_u16_u64", k::add_u8_u16_u64, add),
        66 => bin::<u8, u16, i32>("add_u8_u16_i32", k::add_u8_u16_i32, add),
        67 => bin::<u8, u16, i64>("add_u8_u16_i64", k::add_u8_u16_i64, add),
        68 => bin::<u16, i8, i32>("add_u16_i8_i32", k::add_u16_i8_i32, add),
        69 => bin::<u16, i8, i64>("add_u16_i8_i64", k::add_u16_i8_i64, add),
        70 => bin::<i8, u16, i32>("add_i8_u16_i32", k::add_i8_u16_i32, add),
        71 => bin::<i8, u16, i64>("add_i8_u16_i64", k::add_i8_u16_i64, add),
        72 => bin::<i16, u8, i16>("add_i16_u8_i16", k::add_i16_u8_i16, add),
        73 => bin::<i16, u8, i32>("add_i16_u8_i32", k::add_i16_u8_i32, add),
        74 => bin::<i16, u8, i64>("add_i16_u8_i64", k::add_i16_u8_i64, add),
        75 => bin::<u8, i16, i16>("add_u8_i16_i16", k::add_u8_i16_i16, add),
        76 => bin::<u8, i16, i32>("add_u8_i16_i32", k::add_u8_i16_i32, add),
        77 => bin::<u8, i16, i64>("add_u8_i16_i64", k::add_u8_i16_i64, add),
        78 => bin::<i16, i8, i16>("add_i16_i8_i16", k::add_i16_i8_i16, add),
        79 => bin::<i16, i8, i32>("add_i16_i8_i32", k::add_i16_i8_i32, add),
        80 => bin::<i16, i8, i64>("add_i16_i8_i64", k::add_i16_i8_i64, add),
        81 => bin::<i8, i16, i16>("add_i8_i16_i16", k::add_i8_i16_i16, add),
        82 => bin::<i8, i16, i32>("add_i8_i16_i32", k::add_i8_i16_i32, add),
        83 => bin::<i8, i16, i64>("add_i8_i16_i64", k::add_i8_i16_i64, add),
        84 => bin::<u16, i16, i32>("add_u16_i16_i32", k::add_u16_i16_i32, add),
        85 => bin::<u16, i16, i64>("add_u16_i16_i64", k::add_u16_i16_i64, add),
        86 => bin::<i16, u16, i32>("add_i16_u16_i32", k::add_i16_u16_i32, add),
        87 => bin::<i16, u16, i64>("add_i16_u16_i64", k::add_i16_u16_i64, add),
        88 => bin::<u32, u8, u32>("add_u32_u8_u32", k::add_u32_u8_u32, add),
        89 => bin::<u32, u8, u64>("add_u32_u8_u64", k::add_u32_u8_u64, add),
        90 => bin::<u32, u8, i64>("add_u32_u8_i64", k::add_u32_u8_i64, add),
        91 => bin::<u8, u32, u32>("add_u8_u32_u32", k::add_u8_u32_u32, add),
        92 => bin::<u8, u32, u64>("add_u8_u32_u64", k::add_u8_u32_u64, add),
        93 => bin::<u8, u32, i64>("add_u8_u32_i64", k::add_u8_u32_i64, add),
        94 => bin::<u32, i8, i64>("add_u32_i8_i64", k::add_u32_i8_i64, add),
        95 => bin::<i8, u32, i64>("add_i8_u32_i64", k::add_i8_u32_i64, add),
        96 => bin::<u32, u16, u32>("add_u32_u16_u32", k::add_u32_u16_u32, add),
        97 => bin::<u32, u16, u64>("add_u32_u16_u64", k::add_u32_u16_u64, add),
        98 => bin::<u32, u16, i64>("add_u32_u16_i64", k::add_u32_u16_i64, add),
        99 => bin::<u16, u32, u32>("add_u16_u32_u32", k::add_u16_u32_u32, add),
        100 => bin::<u16, u32, u64>("add_u16_u32_u64", k::add_u16_u32_u64, add),
        101 => bin::<u16, u32, i64>("add_u16_u32_i64", k::add_u16_u32_i64, add),
        102 => bin::<u32, i16, i64>("add_u32_i16_i64", k::add_u32_i16_i64, add),
        103 => bin::<i16, u32, i64>("add_i16_u32_i64", k::add_i16_u32_i64, add),
        104 => bin::<i32, u8, i32>("add_i32_u8_i32", k::add_i32_u8_i32, add),
        105 => bin::<i32, u8, i64>("add_i32_u8_i64", k::add_i32_u8_i64, add),
        106 => bin::<u8, i32, i32>("add_u8_i32_i32", k::add_u8_i32_i32, add),
        107 => bin::<u8, i32, i64>("add_u8_i32_i64", k::add_u8_i32_i64, add),
        108 => bin::<i32, i8, i32>("add_i32_i8_i32", k::add_i32_i8_i32, add),
        109 => bin::<i32, i8, i64>("add_i32_i8_i64", k::add_i32_i8_i64, add),
        110 => bin::<i8, i32, i32>("add_i8_i32_i32", k::add_i8_i32_i32, add),
        111 => bin::<i8, i32, i64>("add_i8_i32_i64", k::add_i8_i32_i64, add),
        112 => bin::<i32, u16, i32>("add_i32_u16_i32", k::add_i32_u16_i32, add),
        113 => bin::<i32, u16, i64>("add_i32_u16_i64", k::add_i32_u16_i64, add),
        114 => bin::<u16, i32, i32>("add_u16_i32_i32", k::add_u16_i32_i32, add),
        115 => bin::<u16, i32, i64>("add_u16_i32_i64", k::add_u16_i32_i64, add),
        116 => bin::<i32, i16, i32>("add_i32_i16_i32", k::add_i32_i16_i32, add),
        117 => bin::<i32, i16, i64>("add_i32_i16_i64", k::add_i32_i16_i64, add),
        118 => bin::<i16, i32, i32>("add_i16_i32_i32", k::add_i16_i32_i32, add),
        119 => bin::<i16, i32, i64>("add_i16_i32_i64", k::add_i16_i32_i64, add),
        120 => bin::<u32, i32, i64>("add_u32_i32_i64", k::add_u32_i32_i64, add),
        121 => bin::<i32, u32, i64>("add_i32_u32_i64", k::add_i32_u32_i64, add),
        122 => bin::<u8, i8, i16>("sub_u8_i8_i16", k::sub_u8_i8_i16, sub),
        123 => bin::<u8, i8, i32>("sub_u8_i8_i32", k::sub_u8_i8_i32, sub),
        124 => bin::<u8, i8, i64>("sub_u8_i8_i64", k::sub_u8_i8_i64, sub),
        125 => bin::<i8, u8, i16>("sub_i8_u8_i16", k::sub_i8_u8_i16, sub),
        126 => bin::<i8, u8, i32>("sub_i8_u8_i32", k::sub_i8_u8_i32, sub),
        127 => bin::<i8, u8, i64>("sub_i8_u8_i64", k::sub_i8_u8_i64, sub),
        128 => bin::<u16, u8, u16>("sub_u16_u8_u16", k::sub_u16_u8_u16, sub),
        129 => bin::<u16, u8, u32>("sub_u16_u8_u32", k::sub_u16_u8_u32, sub),
        130 => bin::<u16, u8, u64>("sub_u16_u8_u64", k::sub_u16_u8_u64, sub),
        131 => bin::<u16, u8, i32>("sub_u16_u8_i32", k::sub_u16_u8_i32, sub),
        132 => bin::<u16, u8, i64>("sub_u16_u8_i64", k::sub_u16_u8_i64, sub),
        133 => bin::<u8, u16, u16>("sub_u8_u16_u16", k::sub_u8_u16_u16, sub),
        134 => bin::<u8, u16, u32>("sub_u8_u16_u32", k::sub_u8_u16_u32, sub),
        135 => bin::<u8, u16, u64>("sub_u8_u16_u64", k::sub_u8_u16_u64, sub),
        136 => bin::<u8, u16, i32>("sub_u8_u16_i32", k::sub_u8_u16_i32, sub),
        137 => bin::<u8, u16, i64>("sub_u8_u16_i64", k::sub_u8_u16_i64, sub),
        138 => bin::<u16, i8, i32>("sub_u16_i8_i32", k::sub_u16_i8_i32, sub),
        139 => bin::<u16, i8, i64>("sub_u16_i8_i64", k::sub_u16_i8_i64, sub),
        140 => bin::<i8, u16, i32>("sub_i8_u16_i32", k::sub_i8_u16_i32, sub),
        141 => bin::<i8, u16, i64>("sub_i8_u16_i64", k::sub_i8_u16_i64, sub),
        142 => bin::<u8, i16, i16>("sub_u8_i16_i16", k::sub_u8_i16_i16, sub),
        143 => bin::<u8, i16, i32>("sub_u8_i16_i32", k::sub_u8_i16_i32, sub),
        144 => bin::<u8, i16, i64>("sub_u8_i16_i64", k::sub_u8_i16_i64, sub),
        145 => bin::<i16, u8, i16>("sub_i16_u8_i16", k::sub_i16_u8_i16, sub),
        146 => bin::<i16, u8, i32>("sub_i16_u8_i32", k::sub_i16_u8_i32, sub),
        147 => bin::<i16, u8, i64>("sub_i16_u8_i64", k::sub_i16_u8_i64, sub),
        148 => bin::<i8, i16, i16>("sub_i8_i16_i16", k::sub_i8_i16_i16, sub),
        149 => bin::<i8, i16, i32>("sub_i8_i16_i32", k::sub_i8_i16_i32, sub),
        150 => bin::<i8, i16, i64>("sub_i8_i16_i64", k::sub_i8_i16_i64, sub),
        151 => bin::<i16, i8, i16>("sub_i16_i8_i16", k::sub_i16_i8_i16, sub),
        152 => bin::<i16, i8, i32>("sub_i16_i8_i32", k::sub_i16_i8_i32, sub),
        153 => bin::<i16, i8, i64>("sub_i16_i8_i64", k::sub_i16_i8_i64, sub),
        154 => bin::<u16, i16, i32>("sub_u16_i16_i32", k::sub_u16_i16_i32, sub),
        155 => bin::<u16, i16, i64>("sub_u16_i16_i64", k::sub_u16_i16_i64, sub),
        156 => bin::<i16, u16, i32>("sub_i16_u16_i32", k::sub_i16_u16_i32, sub),
        157 => bin::<i16, u16, i64>("sub_i16_u16_i64", k::sub_i16_u16_i64, sub),
        158 => bin::<u32, u8, u32>("sub_u32_u8_u32", k::sub_u32_u8_u32, sub),
        159 => bin::<u32, u8, u64>("sub_u32_u8_u64", k::sub_u32_u8_u64, sub),
        160 => bin::<u32, u8, i64>("sub_u32_u8_i64", k::sub_u32_u8_i64, sub),
        161 => bin::<u8, u32, u32>("sub_u8_u32_u32", k::sub_u8_u32_u32, sub),
        162 => bin::<u8, u32, u64>("sub_u8_u32_u64", k::sub_u8_u32_u64, sub),
        163 => bin::<u8, u32, i64>("sub_u8_u32_i64", k::sub_u8_u32_i64, sub),
        164 => bin::<u32, i8, i64>("sub_u32_i8_i64", k::sub_u32_i8_i64, sub),
        165 => bin::<i8, u32, i64>("sub_i8_u32_i64", k::sub_i8_u32_i64, sub),
        166 => bin::<u32, u16, u32>("sub_u32_u16_u32", k::sub_u32_u16_u32, sub),
        167 => bin::<u32, u16, u64>("sub_u32_u16_u64", k::sub_u32_u16_u64, sub),
        168 => bin::<u32, u16, i64>("sub_u32_u16_i64", k::sub_u32_u16_i64, sub),
        169 => bin::<u16, u32, u32>("sub_u16_u32_u32", k::sub_u16_u32_u32, sub),
        170 => bin::<u16, u32, u64>("sub_u16_u32_u64", k::sub_u16_u32_u64, sub),
        171 => bin::<u16, u32, i64>("sub_u16_u32_i64", k::sub_u16_u32_i64, sub),
        172 => bin::<u32, i16, i64>("sub_u32_i16_i64", k::sub_u32_i16_i64, sub),
        173 => bin::<i16, u32, i64>("sub_i16_u32_i64", k::sub_i16_u32_i64, sub),
        174 => bin::<i32, u8, i32>("sub_i32_u8_i32", k::sub_i32_u8_i32, sub),
        175 => bin::<i32, u8, i64>("sub_i32_u8_i64", k::sub_i32_u8_i64, sub),
        176 => bin::<u8, i32, i32>("sub_u8_i32_i32", k::sub_u8_i32_i32, sub),
        177 => bin::<u8, i32, i64>("sub_u8_i32_i64", k::sub_u8_i32_i64, sub),
        178 => bin::<i32, i8, i32>("sub_i32_i8_i32", k::sub_i32_i8_i32, sub),
        179 => bin::<i32, i8, i64>("sub_i32_i8_i64", k::sub_i32_i8_i64, sub),
        180 => bin::<i8, i32, i32>("sub_i8_i32_i32", k::sub_i8_i32_i32, sub),
        181 => bin::<i8, i32, i64>("sub_i8_i32_i64", k::sub_i8_i32_i64, sub),
        182 => bin::<i32, u16, i32>("sub_i32_u16_i32", k::sub_i32_u16_i32, sub),
        183 => bin::<i32, u16, i64>("sub_i32_u16_i64", k::sub_i32_u16_i64, sub),
        184 => bin::<u16, i32, i32>("sub_u16_i32_i32", k::sub_u16_i32_i32, sub),
        185 => bin::<u16, i32, i64>("sub_u16_i32_i64", k::sub_u16_i32_i64, sub),
        186 => bin::<i32, i16, i32>("sub_i32_i16_i32", k::sub_i32_i16_i32, sub),
        187 => bin::<i32, i16, i64>("sub_i32_i16_i64", k::sub_i32_i16_i64, sub),
        188 => bin::<i16, i32, i32>("sub_i16_i32_i32", k::sub_i16_i32_i32, sub),
        189 => bin::<i16, i32, i64>("sub_i16_i32_i64", k::sub_i16_i32_i64, sub),
        190 => bin::<u32, i32, i64>("sub_u32_i32_i64", k::sub_u32_i32_i64, sub),
        _ => bin::<i32, u32, i64>("sub_i32_u32_i64", k::sub_i32_u32_i64, sub),
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn h_kernel_mul() {
    match choose(96) {
        0 => bin::<u8, u8, u8>("mul_u8", k::mul_u8, mul),
        1 => bin::<u16, u16, u16>("mul_u16", k::mul_u16, mul),
        2 => bin::<u32, u32, u32>("mul_u32", k::mul_u32, mul),
        3 => bin::<u64, u64, u64>("mul_u64", k::mul_u64, mul),
        4 => bin::<i8, i8, i8>("mul_i8", k::mul_i8, mul),
        5 => bin::<i16, i16, i16>("mul_i16", k::mul_i16, mul),
        6 => bin::<i32, i32, i32>("mul_i32", k::mul_i32, mul),
        7 => bin::<i64, i64, i64>("mul_i64", k::mul_i64, mul),
        8 => bin::<u8, u8, u16>("mul_u8_u16", k::mul_u8_u16, mul),
        9 => bin::<u8, u8, u32>("mul_u8_u32", k::mul_u8_u32, mul),
        10 => bin::<u8, u8, u64>("mul_u8_u64", k::mul_u8_u64, mul),
        11 => bin::<u8, u8, i16>("mul_u8_i16", k::mul_u8_i16, mul),
        12 => bin::<u8, u8, i32>("mul_u8_i32", k::mul_u8_i32, mul),
        13 => bin::<u8, u8, i64>("mul_u8_i64", k::mul_u8_i64, mul),
        14 => bin::<u16, u16, u32>("mul_u16_u32", k::mul_u16_u32, mul),
        15 => bin::<u16, u16, u64>("mul_u16_u64", k::mul_u16_u64, mul),
        16 => bin::<u16, u16, i32>("mul_u16_i32", k::mul_u16_i32, mul),
        17 => bin::<u16, u16, i64>("mul_u16_i64", k::mul_u16_i64, mul),
        18 => bin::<u32, u32, u64>("mul_u32_u64", k::mul_u32_u64, mul),
        19 => bin::<u32, u32, i64>("mul_u32_i64", k::mul_u32_i64, mul),
        20 => bin::<i8, i8, i16>("mul_i8_i16", k::mul_i8_i16, mul),
        21 => bin::<i8, i8, i32>("mul_i8_i32", k::mul_i8_i32, mul),
        22 => bin::<i8, i8, i64>("mul_i8_i64", k::mul_i8_i64, mul),
        23 => bin::<i16, i16, i32>("mul_i16_i32", k::mul_i16_i32, mul),
        24 => bin::<i16, i16, i64>("mul_i16_i64", k::mul_i16_i64, mul),
        25 => bin::<i32, i32, i64>("mul_i32_i64", k::mul_i32_i64, mul),
        26 => bin::<u8, i8, i16>("mul_u8_i8_i16", k::mul_u8_i8_i16, mul),
        27 => bin::<u8, i8, i32>("mul_u8_i8_i32", k::mul_u8_i8_i32, mul),
        28 => bin::<u8, i8, i64>("mul_u8_i8_i64", k::mul_u8_i8_i64, mul),
        29 => bin::<i8, u8, i16>("mul_i8_u8_i16", k::mul_i8_u8_i16, mul),
        30 => bin::<i8, u8, i32>("mul_i8_u8_i32", k::mul_i8_u8_i32, mul),
        31 => bin::<i8, u8, i64>("mul_i8_u8_i64", k::mul_i8_u8_i64, mul),
        32 => bin::<u16, u8, u16>("mul_u16_u8_u16", k::mul_u16_u8_u16, mul),
        33 => bin::<u16, u8, u32>("mul_u16_u8_u32", k::mul_u16_u8_u32, mul),
        34 => bin::<u16, u8, u64>("mul_u16_u8_u64", k::mul_u16_u8_u64, mul),
        35 => bin::<u16, u8, i32>("mul_u16_u8_i32", k::mul_u16_u8_i32, mul),
        36 => bin::<u16, u8, i64>("mul_u16_u8_i64", k::mul_u16_u8_i64, mul),
        37 => bin::<u8, u16, u16>("mul_u8_u16_u16", k::mul_u8_u16_u16, mul),
        38 => bin::<u8, u16, u32>("mul_u8_u16_u32", k::mul_u8_u16_u32, mul),
        39 => bin::<u8, u16, u64>("mul_u8_u16_u64", k::mul_u8_u16_u64, mul),
        40 => bin::<u8, u16, i32>("mul_u8_u16_i32", k::mul_u8_u16_i32, mul),
        41 => bin::<u8, u16, i64>("mul_u8_u16_i64", k::mul_u8_u16_i64, mul),
        42 => bin::<u16, i8, i32>("mul_u16_i8_i32", k::mul_u16_i8_i32, mul),
        43 => bin::<u16, i8, i64>("mul_u16_i8_i64", k::mul_u16_i8_i64, mul),
        44 => bin::<i8, u16, i32>("mul_i8_u16_i32", k::mul_i8_u16_i32, mul),
        45 => bin::<i8, u16, i64>("mul_i8_u16_i64", k::mul_i8_u16_i64, mul),
        46 => bin::<u8, i16, i16>("mul_u8_i16_i16", k::mul_u8_i16_i16, mul),
        47 => bin::<u8, i16, i32>("mul_u8_i16_i32", k::mul_u8_i16_i32, mul),
        48 => bin::<u8, i16, i64>("mul_u8_i16_i64", k::mul_u8_i16_i64, mul),
        49 => bin::<i16, u8, i16>("mul_i16_u8_i16", k::mul_i16_u8_i16, mul),
        50 => bin::<i16, u8, i32>("mul_i16_u8_i32", k::mul_i16_u8_i32, mul),
        51 => bin::<i16, u8, i64>("mul_i16_u8_i64", k::mul_i16_u8_i64, mul),
        52 => bin::<i8, i16, i16>("mul_i8_i16_i16", k::mul_i8_i16_i16, mul),
        53 => bin::<i8, i16, i32>("mul_i8_i16_i32", k::mul_i8_i16_i32, mul),
        54 => bin::<i8, i16, i64>("mul_i8_i16_i64", k::mul_i8_i16_i64, mul),
        55 => bin::<i16, i8, i16>("mul_i16_i8_i16", k::mul_i16_i8_i16, mul),
        56 => bin::<i16, i8, i32>("mul_i16_i8_i32", k::mul_i16_i8_i32, mul),
        57 => bin::<i16, i8, i64>("mul_i16_i8_i64", k::mul_i16_i8_i64, mul),
        58 => bin::<u16, i16, i32>("mul_u16_i16_i32", k::mul_u16_i16_i32, mul),
        59 => bin::<u16, i16, i64>("mul_u16_i16_i64", k::mul_u16_i16_i64, mul),
        60 => bin::<i16, u16, i32>("mul_i16_u16_i32", k::mul_i16_u16_i32, mul),
        61 => bin::<i16, u16, i64>("mul_i16_u16_i64", k::mul_i16_u16_i64, mul),
        62 => bin::<u32, u8, u32>("mul_u32_u8_u32", k::mul_u32_u8_u32, mul),
        63 => bin::<u32, u8, u64>("mul_u32_u8_u64", k::mul_u32_u8_u64, mul),
        64 => bin::<u32, u8, i64>("mul_u32_u8_i64", k::mul_u32_u8_i64, mul),
        65 => bin::<u8, u32, u32>("mul_u8_u32_u32", k::mul_u8_u32_u32, mul),
        66 => bin::<u8, u32, u64>("mul_u8_u32_u64", k::mul_u8_u32_u64, mul),
        67 => bin::<u8, u32, i64>("mul_u8_u32_i64", k::mul_u8_u32_i64, mul),
        68 => bin::<u32, i8, i64>("mul_u32_i8_i64", k::mul_u32_i8_i64, mul),
        69 => bin::<i8, u32, i64>("mul_i8_u32_i64", k::mul_i8_u32_i64, mul),
        70 => bin::<u32, u16, u32>("mul_u32_u16_u32", k::mul_u32_u16_u32, mul),
        71 => bin::<u32, u16, u64>("mul_u32_u16_u64", k::mul_u32_u16_u64, mul),
        72 => bin::<u32, u16, i64>("mul_u32_u16_i64", k::mul_u32_u16_i64, mul),
        73 => bin::<u16, u32, u32>("mul_u16_u32_u32", k::mul_u16_u32_u32, mul),
        74 => bin::<u16, u32, u64>("mul_u16_u32_u64", k::mul_u16_u32_u64, mul),
        75 => bin::<u16, u32, i64>("mul_u16_u32_i64", k::mul_u16_u32_i64, mul),
        76 => bin::<u32, i16, i64>("mul_u32_i16_i64", k::mul_u32_i16_i64, mul),
        77 => bin::<i16, u32, i64>("mul_i16_u32_i64", k::mul_i16_u32_i64, mul),
        78 => bin::<i32, u8, i32>("mul_i32_u8_i32", k::mul_i32_u8_i32, mul),
        79 => bin::<i32, u8, i64>("mul_i32_u8_i64", k::mul_i32_u8_i64, mul),
        80 => bin::<u8, i32, i32>("mul_u8_i32_i32", k::mul_u8_i32_i32, mul),
        81 => bin::<u8, i32, i64>("mul_u8_i32_i64", k::mul_u8_i32_i64, mul),
        82 => bin::<i32, i8, i32>("mul_i32_i8_i32", k::mul_i32_i8_i32, mul),
        83 => bin::<i32, i8, i64>("mul_i32_i8_i64", k::mul_i32_i8_i64, mul),
        84 => bin::<i8, i32, i32>("mul_i8_i32_i32", k::mul_i8_i32_i32, mul),
        85 => bin::<i8, i32, i64>("mul_i8_i32_i64", k::mul_i8_i32_i64, mul),
        86 => bin::<i32, u16, i32>("mul_i32_u16_i32", k::mul_i32_u16_i32, mul),
        87 => bin::<i32, u16, i64>("mul_i32_u16_i64", k::mul_i32_u16_i64, mul),
        88 => bin::<u16, i32, i32>("mul_u16_i32_i32", k::mul_u16_i32_i32, mul),
        89 => bin::<u16, i32, i64>("mul_u16_i32_i64", k::mul_u16_i32_i64, mul),
        90 => bin::<i32, i16, i32>("mul_i32_i16_i32", k::mul_i32_i16_i32, mul),
        91 => bin::<i32, i16, i64>("mul_i32_i16_i64", k::mul_i32_i16_i64, mul),
        92 => bin::<i16, i32, i32>("mul_i16_i32_i32", k::mul_i16_i32_i32, mul),
        93 => bin::<i16, i32, i64>("mul_i16_i32_i64", k::mul_i16_i32_i64, mul),
        94 => bin::<u32, i32, i64>("mul_u32_i32_i64", k::mul_u32_i32_i64, mul),
        _ => bin::<i32, u32, i64>("mul_i32_u32_i64", k::mul_i32_u32_i64, mul),
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn h_kernel_quotient() {
    match choose(192) {
        0 => quotient!(div_u8, u8, u8, u8, /),
        1 => quotient!(div_u16, u16, u16, u16, /),
        2 => quotient!(div_u32, u32, u32, u32, /),
        3 => quotient!(div_u64, u64, u64, u64, /),
        4 => quotient!(div_i8, i8, i8, i8, /),
        5 => quotient!(div_i16, i16, i16, i16, /),
        6 => quotient!(div_i32, i32, i32, i32, /),
        7 => quotient!(div_i64, i64, i64, i64, /),
        8 => quotient!(rem_u8, u8, u8, u8, %),
        9 => quotient!(rem_u16, u16, u16, u16, %),
        10 => quotient!(rem_u32, u32, u32, u32, %),
        11 => quotient!(rem_u64, u64, u64, u64, %),
        12 => quotient!(rem_i8, i8, i8, i8, %),
        13 => quotient!(rem_i16, i16, i16, i16, %),
        14 => quotient!(rem_i32, i32, i32, i32, %),
        15 => quotient!(rem_i64, i64, i64, i64, %),
        16 => quotient!(div_u8_u16, u8, u8, u16, /),
        17 => quotient!(div_u8_u32, u8, u8, u32, /),
        18 => quotient!(div_u8_u64, u8, u8, u64, /),
        19 => quotient!(div_u8_i16, u8, u8, i16, /),
        20 => quotient!(div_u8_i32, u8, u8, i32, /),
        21 => quotient!(div_u8_i64, u8, u8, i64, /),
        22 => quotient!(div_u16_u32, u16, u16, u32, /),
        23 => quotient!(div_u16_u64, u16, u16, u64, /),
        24 => quotient!(div_u16_i32, u16, u16, i32, /),
        25 => quotient!(div_u16_i64, u16, u16, i64, /),
        26 => quotient!(div_u32_u64, u32, u32, u64, /),
        27 => quotient!(div_u32_i64, u32, u32, i64, /),
        28 => quotient!(div_i8_i16, i8, i8, i16, /),
        29 => quotient!(div_i8_i32, i8, i8, i32, /),
        30 => quotient!(div_i8_i64, i8, i8, i64, /),
        31 => quotient!(div_i16_i32, i16, i16, i32, /),
        32 => quotient!(div_i16_i64, i16, i16, i64, /),
        33 => quotient!(div_i32_i64, i32, i32, i64, /),
        34 => quotient!(rem_u8_u16, u8, u8, u16, %),
        35 => quotient!(rem_u8_u32, u8, u8, u32, %),
        36 => quotient!(rem_u8_u64, u8, u8, u64, %),
        37 => quotient!(rem_u8_i16, u8, u8, i16, %),
        38 => quotient!(rem_u8_i32, u8, u8, i32, %),
        39 => quotient!(rem_u8_i64, u8, u8, i64, %),
        40 => quotient!(rem_u16_u32, u16, u16, u32, %),
        41 => quotient!(rem_u16_u64, u16, u16, u64, %),
        42 => quotient!(rem_u16_i32, u16, u16, i32, %),
        43 => quotient!(rem_u16_i64, u16, u16, i64, %),
        44 => quotient!(rem_u32_u64, u32, u32, u64, %),
        45 => quotient!(rem_u32_i64, u32, u32, i64, %),
        46 => quotient!(rem_i8_i16, i8, i8, i16, %),
        47 => quotient!(rem_i8_i32, i8, i8, i32, %),
        48 => quotient!(rem_i8_i64, i8, i8, i64, %),
        49 => quotient!(rem_i16_i32, i16, i16, i32, %),
        50 => quotient!(rem_i16_i64, i16, i16, i64, %),
        51 => quotient!(rem_i32_i64, i32, i32, i64, %),
        52 => quotient!(div_u8_i8_i16, u8, i8, i16, /),
        53 => quotient!(div_u8_i8_i32, u8, i8, i32, /),
        54 => quotient!(div_u8_i8_i64, u8, i8, i64, /),
        55 => quotient!(div_i8_u8_i16, i8, u8, i16, /),
        56 => quotient!(div_i8_u8_i32, i8, u8, i32, /),
        57 => quotient!(div_i8_u8_i64, i8, u8, i64, /),
        58 => quotient!(div_u16_u8_u16, u16, u8, u16, /),
        59 => quotient!(div_u16_u8_u32, u16, u8, u32, /),
        60 => quotient!(div_u16_u8_u64, u16, u8, u64, /),
        61 => quotient!(div_u16_u8_i32, u16, u8, i32, /),
        62 => quotient!(div_u16_u8_i64, u16, u8, i64, /),
        63 => quotient!(div_u8_u16_u16, u8, u16, u16, /),
        64 => quotient!(div_u8_u16_u32, u8, u16, u32, /),
        65 => quotient!(div_u8_u16_u64, u8, u16, u64, /),
        66 => quotient!(div_u8_u16_i32, u8, u16, i32, /),
        67 => quotient!(div_u8_u16_i64, u8, u16, i64, /),
        68 => quotient!(div_u16_i8_i32, u16, i8, i32, /),
        69 => quotient!(div_u16_i8_i64, u16, i8, i64, /),
        70 => quotient!(div_i8_u16_i32, i8, u16, i32, /),
        71 => quotient!(div_i8_u16_i64, i8, u16, i64, /),
        72 => quotient!(div_i16_u8_i16, i16, u8, i16, /),
        73 => quotient!(div_i16_u8_i32, i16, u8, i32, /),
        74 => quotient!(div_i16_u8_i64, i16, u8, i64, /),
        75 => quotient!(div_u8_i16_i16, u8, i16, i16, /),
        76 => quotient!(div_u8_i16_i32, u8, i16, i32, /),
        77 => quotient!(div_u8_i16_i64, u8, i16, i64, /),
        78 => quotient!(div_i16_i8_i16, i16, i8, i16, /),
        79 => quotient!(div_i16_i8_i32, i16, i8, i32, /),
        80 => quotient!(div_i16_i8_i64, i16, i8, i64, /),
        81 => quotient!(div_i8_i16_i16, i8, i16, i16, /),
        82 => quotient!(div_i8_i16_i32, i8, i16, i32, /),
        83 => quotient!(div_i8_i16_i64, i8, i16, i64, /),
        84 => quotient!(div_u16_i16_i32, u16, i16, i32, /),
        85 => quotient!(div_u16_i16_i64, u16, i16, i64, /),
        86 => quotient!(div_i16_u16_i32, i16, u16, i32, /),
        87 => quotient!(div_i16_u16_i64, i16, u16, i64, /),
        88 => quotient!(div_u32_u8_u32, u32, u8, u32, /),
        89 => quotient!(div_u32_u8_u64, u32, u8, u64, /),
        90 => quotient!(div_u32_u8_i64, u32, u8, i64, /),
        91 => quotient!(div_u8_u32_u32, u8, u32, u32, /),
        92 => quotient!(div_u8_u32_u64, u8, u32, u64, /),
        93 => quotient!(div_u8_u32_i64, u8, u32, i64, /),
        94 => quotient!(div_u32_i8_i64, u32, i8, i64, /),
        95 => quotient!(div_i8_u32_i64, i8, u32, i64, /),
        96 => quotient!(div_u32_u16_u32, u32, u16, u32, /),
        97 => quotient!(div_u32_u16_u64, u32, u16, u64, /),
        98 => quotient!(div_u32_u16_i64, u32, u16, i64, /),
        99 => quotient!(div_u16_u32_u32, u16, u32, u32, /),
        100 => quotient!(div_u16_u32_u64, u16, u32, u64, /),
        101 => quotient!(div_u16_u32_i64, u16, u32, i64, /),
        102 => quotient!(div_u32_i16_i64, u32, i16, i64, /),
        103 => quotient!(div_i16_u32_i64, i16, u32, i64, /),
        104 => quotient!(div_i32_u8_i32, i32, u8, i32, /),
        105 => quotient!(div_i32_u8_i64, i32, u8, i64, /),
        106 => quotient!(div_u8_i32_i32, u8, i32, i32, /),
        107 => quotient!(div_u8_i32_i64, u8, i32, i64, /),
        108 => quotient!(div_i32_i8_i32, i32, i8, i32, /),
        109 => quotient!(div_i32_i8_i64, i32, i8, i64, /),
        110 => quotient!(div_i8_i32_i32, i8, i32, i32, /),
        111 => quotient!(div_i8_i32_i64, i8, i32, i64, /),
        112 => quotient!(div_i32_u16_i32, i32, u16, i32, /),
        113 => quotient!(div_i32_u16_i64, i32, u16, i64, /),
        114 => quotient!(div_u16_i32_i32, u16, i32, i32, /),
        115 => quotient!(div_u16_i32_i64, u16, i32, i64, /),
        116 => quotient!(div_i32_i16_i32, i32, i16, i32, /),
        117 => quotient!(div_i32_i16_i64, i32, i16, i64, /),
        118 => quotient!(div_i16_i32_i32, i16, i32, i32, /),
        119 => quotient!(div_i16_i32_i64, i16, i32, i64, /),
        120 => quotient!(div_u32_i32_i64, u32, i32, i64, /),
        121 => quotient!(div_i32_u32_i64, i32, u32, i64, /),
        122 => quotient!(rem_u8_i8_i16, u8, i8, i16, %),
        123 => quotient!(rem_u8_i8_i32, u8, i8, i32, %),
        124 => quotient!(rem_u8_i8_i64, u8, i8, i64, %),
        125 => quotient!(rem_i8_u8_i16, i8, u8, i16, %),
        126 => quotient!(rem_i8_u8_i32, i8, u8, i32, %),
        127 => quotient!(rem_i8_u8_i64, i8, u8, i64, %),
        128 => quotient!(rem_u16_u8_u16, u16, u8, u16, %),
        129 => quotient!(rem_u16_u8_u32, u16, u8, u32, %),
        130 => quotient!(rem_u16_u8_u64, u16, u8, u64, %),
        131 => quotient!(rem_u16_u8_i32, u16, u8, i32, %),
        132 => quotient!(rem_u16_u8_i64, u16, u8, i64, %),
        133 => quotient!(rem_u8_u16_u16, u8, u16, u16, %),
        134 => quotient!(rem_u8_u16_u32, u8, u16, u32, %),
        135 => quotient!(rem_u8_u16_u64, u8, u16, u64, %),
        136 => quotient!(rem_u8_u16_i32, u8, u16, i32, %),
        137 => quotient!(rem_u8_u16_i64, u8, u16, i64, %),
        138 => quotient!(rem_u16_i8_i32, u16, i8, i32, %),
        139 => quotient!(rem_u16_i8_i64, u16, i8, i64, %),
        140 => quotient!(rem_i8_u16_i32, i8, u16, i32, %),
        141 => quotient!(rem_i8_u16_i64, i8, u16, i64, %),
        142 => quotient!(rem_u8_i16_i16, u8, i16, i16, %),
        143 => quotient!(rem_u8_i16_i32, u8, i16, i32, %),
        144 => quotient!(rem_u8_i16_i64, u8, i16, i64, %),
        145 => quotient!(rem_i16_u8_i16, i16, u8, i16, %),
        146 => quotient!(rem_i16_u8_i32, i16, u8, i32, %),
        147 => quotient!(rem_i16_u8_i64, i16, u8, i64, %),
        148 => quotient!(rem_i8_i16_i16, i8, i16, i16, %),
        149 => quotient!(rem_i8_i16_i32, i8, i16, i32, %),
        150 => quotient!(rem_i8_i16_i64, i8, i16, i64, %),
        151 => quotient!(rem_i16_i8_i16, i16, i8, i16, %),
        152 => quotient!(rem_i16_i8_i32, i16, i8, i32, %),
        153 => quotient!(rem_i16_i8_i64, i16, i8, i64, %),
        154 => quotient!(rem_u16_i16_i32, u16, i16, i32, %),
        155 => quotient!(rem_u16_i16_i64, u16, i16, i64, %),
        156 => quotient!(rem_i16_u16_i32, i16, u16, i32, %),
        157 => quotient!(rem_i16_u16_i64, i16, u16, i64, %),
        158 => quotient!(rem_u32_u8_u32, u32, u8, u32, %),
        159 => quotient!(rem_u32_u8_u64, u32, u8, u64, %),
        160 => quotient!(rem_u32_u8_i64, u32, u8, i64, %),
        161 => quotient!(rem_u8_u32_u32, u8, u32, u32, %),
        162 => quotient!(rem_u8_u32_u64, u8, u32, u64, %),
        163 => quotient!(rem_u8_u32_i64, u8, u32, i64, %),
        164 => quotient!(rem_u32_i8_i64, u32, i8, i64, %),
        165 => quotient!(rem_i8_u32_i64, i8, u32, i64, %),
        166 => quotient!(rem_u32_u16_u32, u32, u16, u32, %),
        167 => quotient!(rem_u32_u16_u64, u32, u16, u64, %),
        168 => quotient!(rem_u32_u16_i64, u32, u16, i64, %),
        169 => quotient!(rem_u16_u32_u32, u16, u32, u32, %),
        170 => quotient!(rem_u16_u32_u64, u16, u32, u64, %),
        171 => quotient!(rem_u16_u32_i64, u16, u32, i64, %),
        172 => quotient!(rem_u32_i16_i64, u32, i16, i64, %),
        173 => quotient!(rem_i16_u32_i64, i16, u32, i64, %),
        174 => quotient!(rem_i32_u8_i32, i32, u8, i32, %),
        175 => quotient!(rem_i32_u8_i64, i32, u8, i64, %),
        176 => quotient!(rem_u8_i32_i32, u8, i32, i32, %),
        177 => quotient!(rem_u8_i32_i64, u8, i32, i64, %),
        178 => quotient!(rem_i32_i8_i32, i32, i8, i32, %),
        179 => quotient!(rem_i32_i8_i64, i32, i8, i64, %),
        180 => quotient!(rem_i8_i32_i32, i8, i32, i32, %),
        181 => quotient!(rem_i8_i32_i64, i8, i32, i64, %),
        182 => quotient!(rem_i32_u16_i32, i32, u16, i32, %),
        183 => quotient!(rem_i32_u16_i64, i32, u16, i64, %),
        184 => quotient!(rem_u16_i32_i32, u16, i32, i32, %),
        185 => quotient!(rem_u16_i32_i64, u16, i32, i64, %),
        186 => quotient!(rem_i32_i16_i32, i32, i16, i32, %),
        187 => quotient!(rem_i32_i16_i64, i32, i16, i64, %),
        188 => quotient!(rem_i16_i32_i32, i16, i32, i32, %),
        189 => quotient!(rem_i16_i32_i64, i16, i32, i64, %),
        190 => quotient!(rem_u32_i32_i64, u32, i32, i64, %),
        _ => quotient!(rem_i32_u32_i64, i32, u32, i64, %),
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn h_kernel_unary() {
    match choose(134) {
        0 => un::<i8, i8>("neg_i8", k::neg_i8, neg),
        1 => un::<i16, i16>("neg_i16", k::neg_i16, neg),
        2 => un::<i32, i32>("neg_i32", k::neg_i32, neg),
        3 => un::<i64, i64>("neg_i64", k::neg_i64, neg),
        4 => un::<u8, i16>("neg_u8_i16", k::neg_u8_i16, neg),
        5 => un::<u8, i32>("neg_u8_i32", k::neg_u8_i32, neg),
        6 => un::<u8, i64>("neg_u8_i64", k::neg_u8_i64, neg),
        7 => un::<u16, i32>("neg_u16_i32", k::neg_u16_i32, neg),
        8 => un::<u16, i64>("neg_u16_i64", k::neg_u16_i64, neg),
        9 => un::<u32, i64>("neg_u32_i64", k::neg_u32_i64, neg),
        10 => un::<i8, i16>("neg_i8_i16", k::neg_i8_i16, neg),
        11 => un::<i8, i32>("neg_i8_i32", k::neg_i8_i32, neg),
        12 => un::<i8, i64>("neg_i8_i64", k::neg_i8_i64, neg),
        13 => un::<i16, i32>("neg_i16_i32", k::neg_i16_i32, neg),
        14 => un::<i16, i64>("neg_i16_i64", k::neg_i16_i64, neg),
        15 => un::<i32, i64>("neg_i32_i64", k::neg_i32_i64, neg),
        16 => un::<u8, u8>("neg_u8", k::neg_u8, neg),
        17 => un::<u8, u16>("neg_u8_u16", k::neg_u8_u16, neg),
        18 => un::<u8, u32>("neg_u8_u32", k::neg_u8_u32, neg),
        19 => un::<u8, u64>("neg_u8_u64", k::neg_u8_u64, neg),
        20 => un::<u16, u8>("neg_u16_u8", k::neg_u16_u8, neg),
        21 => un::<u16, u16>("neg_u16", k::neg_u16, neg),
        22 => un::<u16, u32>("neg_u16_u32", k::neg_u16_u32, neg),
        23 => un::<u16, u64>("neg_u16_u64", k::neg_u16_u64, neg),
        24 => un::<u32, u8>("neg_u32_u8", k::neg_u32_u8, neg),
        25 => un::<u32, u16>("neg_u32_u16", k::neg_u32_u16, neg),
        26 => un::<u32, u32>("neg_u32", k::neg_u32, neg),
        27 => un::<u32, u64>("neg_u32_u64", k::neg_u32_u64, neg),
        28 => un::<u64, u8>("neg_u64_u8", k::neg_u64_u8, neg),
        29 => un::<u64, u16>("neg_u64_u16", k::neg_u64_u16, neg),
        30 => un::<u64, u32>("neg_u64_u32", k::neg_u64_u32, neg),
        31 => un::<u64, u64>("neg_u64", k::neg_u64, neg),
        32 => un::<i8, u8>("neg_i8_u8", k::neg_i8_u8, neg),
        33 => un::<i8, u16>("neg_i8_u16", k::neg_i8_u16, neg),
        34 => un::<i8, u32>("neg_i8_u32", k::neg_i8_u32, neg),
        35 => un::<i8, u64>("neg_i8_u64", k::neg_i8_u64, neg),
        36 => un::<i16, u16>("neg_i16_u16", k::neg_i16_u16, neg),
        37 => un::<i16, u32>("neg_i16_u32", k::neg_i16_u32, neg),
        38 => un::<i16, u64>("neg_i16_u64", k::neg_i16_u64, neg),
        39 => un::<i32, u32>("neg_i32_u32", k::neg_i32_u32, neg),
        40 => un::<i32, u64>("neg_i32_u64", k::neg_i32_u64, neg),
        41 => un::<i64, u64>("neg_i64_u64", k::neg_i64_u64, neg),
        42 => un::<i8, i8>("abs_i8", k::abs_i8, abs),
        43 => un::<i16, i16>("abs_i16", k::abs_i16, abs),
        44 => un::<i32, i32>("abs_i32", k::abs_i32, abs),
        45 => un::<i64, i64>("abs_i64", k::abs_i64, abs),
        46 => un::<u8, i16>("abs_u8_i16", k::abs_u8_i16, abs),
        47 => un::<u8, i32>("abs_u8_i32", k::abs_u8_i32, abs),
        48 => un::<u8, i64>("abs_u8_i64", k::abs_u8_i64, abs),
        49 => un::<u16, i32>("abs_u16_i32", k::abs_u16_i32, abs),
        50 => un::<u16, i64>("abs_u16_i64", k::abs_u16_i64, abs),
        51 => un::<u32, i64>("abs_u32_i64", k::abs_u32_i64, abs),
        52 => un::<i8, i16>("abs_i8_i16", k::abs_i8_i16, abs),
        53 => un::<i8, i32>("abs_i8_i32", k::abs_i8_i32, abs),
        54 => un::<i8, i64>("abs_i8_i64", k::abs_i8_i64, abs),
        55 => un::<i16, i32>("abs_i16_i32", k::abs_i16_i32, abs),
        56 => un::<i16, i64>("abs_i16_i64", k::abs_i16_i64, abs),
        57 => un::<i32, i64>("abs_i32_i64", k::abs_i32_i64, abs),
        58 => un::<i8, u8>("abs_i8_u8", k::abs_i8_u8, abs),
        59 => un::<i8, u16>("abs_i8_u16", k::abs_i8_u16, abs),
        60 => un::<i8, u32>("abs_i8_u32", k::abs_i8_u32, abs),
        61 => un::<i8, u64>("abs_i8_u64", k::abs_i8_u64, abs),
        62 => un::<i16, u16>("abs_i16_u16", k::abs_i16_u16, abs),
        63 => un::<i16, u32>("abs_i16_u32", k::abs_i16_u32, abs),
        64 => un::<i16, u64>("abs_i16_u64", k::abs_i16_u64, abs),
        65 => un::<i32, u32>("abs_i32_u32", k::abs_i32_u32, abs),
        66 => un::<i32, u64>("abs_i32_u64", k::abs_i32_u64, abs),
        67 => un::<i64, u64>("abs_i64_u64", k::abs_i64_u64, abs),
        68 => un::<u8, u8>("abs_u8", k::abs_u8, abs),
        69 => un::<u16, u16>("abs_u16", k::abs_u16, abs),
        70 => un::<u32, u32>("abs_u32", k::abs_u32, abs),
        71 => un::<u64, u64>("abs_u64", k::abs_u64, abs),
        72 => un::<u8, u16>("abs_u8_u16", k::abs_u8_u16, abs),
        73 => un::<u8, u32>("abs_u8_u32", k::abs_u8_u32, abs),
        74 => un::<u8, u64>("abs_u8_u64", k::abs_u8_u64, abs),
        75 => un::<u16, u32>("abs_u16_u32", k::abs_u16_u32, abs),
        76 => un::<u16, u64>("abs_u16_u64", k::abs_u16_u64, abs),
        77 => un::<u32, u64>("abs_u32_u64", k::abs_u32_u64, abs),
        78 => un::<u8, u16>("cast_u8_u16", k::cast_u8_u16, cast),
        79 => un::<u8, u32>("cast_u8_u32", k::cast_u8_u32, cast),
        80 => un::<u8, u64>("cast_u8_u64", k::cast_u8_u64, cast),
        81 => un::<u8, i16>("cast_u8_i16", k::cast_u8_i16, cast),
        82 => un::<u8, i32>("cast_u8_i32", k::cast_u8_i32, cast),
        83 => un::<u8, i64>("cast_u8_i64", k::cast_u8_i64, cast),
        84 => un::<u16, u32>("cast_u16_u32", k::cast_u16_u32, cast),
        85 => un::<u16, u64>("cast_u16_u64", k::cast_u16_u64, cast),
        86 => un::<u16, i32>("cast_u16_i32", k::cast_u16_i32, cast),
        87 => un::<u16, i64>("cast_u16_i64", k::cast_u16_i64, cast),
        88 => un::<u32, u64>("cast_u32_u64", k::cast_u32_u64, cast),
        89 => un::<u32, i64>("cast_u32_i64", k::cast_u32_i64, cast),
        90 => un::<i8, i16>("cast_i8_i16", k::cast_i8_i16, cast),
        91 => un::<i8, i32>("cast_i8_i32", k::cast_i8_i32, cast),
        92 => un::<i8, i64>("cast_i8_i64", k::cast_i8_i64, cast),
        93 => un::<i16, i32>("cast_i16_i32", k::cast_i16_i32, cast),
        94 => un::<i16, i64>("cast_i16_i64", k::cast_i16_i64, cast),
        95 => un::<i32, i64>("cast_i32_i64", k::cast_i32_i64, cast),
        96 => un::<u8, i8>("cast_u8_i8", k::cast_u8_i8, cast),
        97 => un::<u16, u8>("cast_u16_u8", k::cast_u16_u8, cast),
        98 => un::<u16, i8>("cast_u16_i8", k::cast_u16_i8, cast),
        99 => un::<u16, i16>("cast_u16_i16", k::cast_u16_i16, cast),
        100 => un::<u32, u8>("cast_u32_u8", k::cast_u32_u8, cast),
        101 => un::<u32, u16>("cast_u32_u16", k::cast_u32_u16, cast),
        102 => un::<u32, i8>("cast_u32_i8", k::cast_u32_i8, cast),
        103 => un::<u32, i16>("cast_u32_i16", k::cast_u32_i16, cast),
        104 => un::<u32, i32>("cast_u32_i32", k::cast_u32_i32, cast),
        105 => un::<u64, u8>("cast_u64_u8", k::cast_u64_u8, cast),
        106 => un::<u64, u16>("cast_u64_u16", k::cast_u64_u16, cast),
        107 => un::<u64, u32>("cast_u64_u32", k::cast_u64_u32, cast),
        108 => un::<u64, i8>("cast_u64_i8", k::cast_u64_i8, cast),
        109 => un::<u64, i16>("cast_u64_i16", k::cast_u64_i16, cast),
        110 => un::<u64, i32>("cast_u64_i32", k::cast_u64_i32, cast),
        111 => un::<u64, i64>("cast_u64_i64", k::cast_u64_i64, cast),
        112 => un::<i8, u8>("cast_i8_u8", k::cast_i8_u8, cast),
        113 => un::<i8, u16>("cast_i8_u16", k::cast_i8_u16, cast),
        114 => un::<i8, u32>("cast_i8_u32", k::cast_i8_u32, cast),
        115 => un::<i8, u64>("cast_i8_u64", k::cast_i8_u64, cast),
        116 => un::<i16, u8>("cast_i16_u8", k::cast_i16_u8, cast),
        117 => un::<i16, u16>("cast_i16_u16", k::cast_i16_u16, cast),
        118 => un::<i16, u32>("cast_i16_u32", k::cast_i16_u32, cast),
        119 => un::<i16, u64>("cast_i16_u64", k::cast_i16_u64, cast),
        120 => un::<i16, i8>("cast_i16_i8", k::cast_i16_i8, cast),
        121 => un::<i32, u8>("cast_i32_u8", k::cast_i32_u8, cast),
        122 => un::<i32, u16>("cast_i32_u16", k::cast_i32_u16, cast),
        123 => un::<i32, u32>("cast_i32_u32", k::cast_i32_u32, cast),
        124 => un::<i32, u64>("cast_i32_u64", k::cast_i32_u64, cast),
        125 => un::<i32, i8>("cast_i32_i8", k::cast_i32_i8, cast),
        126 => un::<i32, i16>("cast_i32_i16", k::cast_i32_i16, cast),
        127 => un::<i64, u8>("cast_i64_u8", k::cast_i64_u8, cast),
        128 => un::<i64, u16>("cast_i64_u16", k::cast_i64_u16, cast),
        129 => un::<i64, u32>("cast_i64_u32", k::cast_i64_u32, cast),
        130 => un::<i64, u64>("cast_i64_u64", k::cast_i64_u64, cast),
        131 => un::<i64, i8>("cast_i64_i8", k::cast_i64_i8, cast),
        132 => un::<i64, i16>("cast_i64_i16", k::cast_i64_i16, cast),
        _ => un::<i64, i32>("cast_i64_i32", k::cast_i64_i32, cast),
    }
}

// ---- the expression evaluator ----
const MREPS: [MachineRep; 8] = [
    MachineRep::U8, MachineRep::U16, MachineRep::U32, MachineRep::U64, MachineRep::I8, MachineRep::I16, MachineRep::I32, MachineRep::I64,
];
fn nrep(i: usize) -> NumRep { if i < 8 { NumRep::Concrete(MREPS[i]) } else { NumRep::Auto } }
/// the inclusive limits of a machine integer
fn limits(i: usize) -> (i128, i128) {
    let bits = [8, 16, 32, 64][i % 4];
    if i < 4 { (0, (1i128 << bits) - 1) } else { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) }
}
fn representable(x: Exact, i: usize) -> bool {
    if i >= 8 { return true; }
    let bits = [8, 16, 32, 64][i % 4];
    let top = match (i < 4, x.neg) {
        (true, false) => u64::MAX >> (64 - bits),
        (true, true) => 0,
        (false, false) => (1u64 << (bits - 1)) - 1,
        (false, true) => 1u64 << (bits - 1),
    };
    (x.mag >> 64) as u64 == 0 && x.mag as u64 <= top
}
/// sum, on magnitudes of at most 64 bits
fn plus(l: Exact, r: Exact) -> Exact {
    let (x, y) = (l.mag as u64, r.mag as u64);
    if l.neg == r.neg {
        let (s, c) = x.overflowing_add(y);
        if c { Exact { neg: l.neg, mag: 1 << 64 | s as u128 } } else { Exact { neg: l.neg, mag: s as u128 } }
    } else if x > y {
        Exact { neg: l.neg, mag: (x - y) as u128 }
    } else if x < y {
        Exact { neg: r.neg, mag: (y - x) as u128 }
    } else {
        Exact { neg: false, mag: 0 }
    }
}
fn negated(x: Exact) -> Exact { Exact { neg: !x.neg && x.mag != 0, mag: x.mag } }
/// a value, the representation it claims, and whether every part of the computation fits the representation it claims
#[derive(Clone, Copy)]
struct Term { v: Exact, rep: usize, ok: bool }
fn leaf(v: Exact, rep: usize) -> (Expr, Result<Term, ()>) {
    let n = if v.neg { -BigInt::from(v.mag as u64) } else { BigInt::from(v.mag as u64) };
    (Expr::Const(TypedConst(n, nrep(rep))), Ok(Term { v, rep, ok: representable(v, rep) }))
}
const BIN: [BasicBinOp; 5] = [BasicBinOp::Add, BasicBinOp::Sub, BasicBinOp::Mul, BasicBinOp::Div, BasicBinOp::Rem];
const UN: [BasicUnaryOp; 4] = [BasicUnaryOp::Negate, BasicUnaryOp::AbsVal, BasicUnaryOp::IntSucc, BasicUnaryOp::IntPred];
type T = (Expr, Result<Term, ()>);
fn node(op: usize, out: usize, a: T, b: T) -> T {
    let out_rep = if out < 8 { Some(MREPS[out]) } else { None };
    let e = Expr::BinOp(BinOp { op: BIN[op], out_rep }, Box::new(a.0), Box::new(b.0));
    let (Ok(l), Ok(r)) = (a.1, b.1) else { return (e, Err(())) };
    let v = match op {
        0 => plus(l.v, r.v),
        1 => plus(l.v, negated(r.v)),
        2 => Exact { neg: l.v.neg != r.v.neg, mag: l.v.mag as u64 as u128 * r.v.mag as u64 as u128 },
        // the sign of a remainder's divisor has to be positive, as documented by `EvalError::RemainderNonPositive`
        _ if r.v.mag == 0 || (op == 4 && r.v.neg) => return (e, Err(())),
        3 => Exact { neg: l.v.neg != r.v.neg, mag: (l.v.mag as u64 / r.v.mag as u64) as u128 },
        _ => Exact { neg: l.v.neg, mag: (l.v.mag as u64 % r.v.mag as u64) as u128 },
    };
    let v = if v.mag == 0 { Exact { neg: false, mag: 0 } } else { v };
    let rep = if out < 8 { out } else if l.rep == r.rep || r.rep == 8 { l.rep } else if l.rep == 8 { r.rep } else { return (e, Err(())) };
    (e, Ok(Term { v, rep, ok: l.ok && r.ok && representable(v, rep) }))
}
fn unary(op: usize, out: usize, a: T) -> T {
    let out_rep = if out < 8 { Some(MREPS[out]) } else { None };
    let e = Expr::UnaryOp(UnaryOp { op: UN[op], out_rep }, Box::new(a.0));
    let Ok(t) = a.1 else { return (e, Err(())) };
    let v = match op {
        0 => negated(t.v),
        1 => Exact { neg: false, mag: t.v.mag },
        2 => plus(t.v, Exact { neg: false, mag: 1 }),
        _ => plus(t.v, Exact { neg: true, mag: 1 }),
    };
    let rep = if out < 8 { out } else { t.rep };
    (e, Ok(Term { v, rep, ok: t.ok && representable(v, rep) }))
}
fn casted(out: usize, a: T) -> T {
    let e = Expr::Cast(CastOp::arith(MREPS[out]), Box::new(a.0));
    let Ok(t) = a.1 else { return (e, Err(())) };
    (e, Ok(Term { v: t.v, rep: out, ok: t.ok && representable(t.v, out) }))
}
fn check(name: &str, t: T) {
    let (e, want) = t;
    let (got, strict) = nofmt(|| (e.eval(VOID), e.eval_strict(VOID)));
    match (want, got, strict) {
        (Err(()), Err(_), Err(_)) => cover("no result"),
        (Err(()), ..) => fail(&format!("[{name}] yields a value where there is none")),
        (Ok(_), Err(_), _) | (Ok(_), _, Err(_)) => fail(&format!("[{name}] refuses an operation that has a result")),
        (Ok(w), Ok(g), Ok(s)) => {
            let Value::Const(c) = &g;
            chk!(w.v.is(c.as_raw_value()), "[{name}] evaluates to a wrong number");
            chk!(c.get_rep() == nrep(w.rep), "[{name}] evaluates to a wrong type");
            chk!(g.is_representable() == representable(w.v, w.rep), "[{name}] misjudges whether the result fits its type");
            chk!(s.value == g, "[{name}] evaluates strictly to another number");
            chk!(s.is_valid() == w.ok, "[{name}] misjudges whether every step fits its type");
            if w.ok { cover("valid") } else { cover("does not fit") }
        }
    }
}
fn num64() -> Exact {
    let mag = any_u64() as u128;
    if choose(2) == 1 { assume(mag != 0 && mag <= 1 << 63); Exact { neg: true, mag } } else { Exact { neg: false, mag } }
}
fn num16() -> Exact { signed(any_u16() as u128) }
fn num8() -> Exact { signed(any_u8() as u128) }
fn num5() -> Exact { signed((any_u8() & 31) as u128) }
fn signed(mag: u128) -> Exact {
    if choose(2) == 1 { assume(mag != 0); Exact { neg: true, mag } } else { Exact { neg: false, mag } }
}
/// one operation, any representations, small numbers
#[unsafe(no_mangle)]
pub extern "C" fn h_tree_reps() {
    let op = choose(5);
    let (ra, rb, out) = (choose(9), choose(9), choose(9));
    #[cfg(not(feature = "deep"))]
    assume(op == 0 || (ra % 3 == rb % 3 && out >= 6));
    check(&format!("{} {} {} -> {}", BIN[op], nrep(ra), nrep(rb), nrep(out)), node(op, out, leaf(num8(), ra), leaf(num8(), rb)))
}
/// one operation on wide numbers
#[unsafe(no_mangle)]
pub extern "C" fn h_tree_wide() {
    let op = choose(5);
    let out = choose(9);
    let (a, b) = match op { 0 | 1 => (num64(), num64()), 2 if choose(2) == 0 => (num64(), num5()), _ => (num16(), num8()) };
    check(&format!("{} -> {}", BIN[op], nrep(out)), node(op, out, leaf(a, 8), leaf(b, 7)))
}
#[unsafe(no_mangle)]
pub extern "C" fn h_tree_unary() {
    let op = choose(5);
    let (ra, out) = (choose(9), choose(9));
    let a = leaf(num64(), ra);
    if op == 4 {
        assume(out < 8);
        check(&format!("cast {} -> {}", nrep(ra), nrep(out)), casted(out, a))
    } else {
        check(&format!("{} {} -> {}", UN[op], nrep(ra), nrep(out)), unary(op, out, a))
    }
}
/// two or three operations
#[unsafe(no_mangle)]
pub extern "C" fn h_tree_nested() {
    const OUT: [usize; 4] = [8, 0, 4, 5];
    let (p, q) = (choose(9), choose(9));
    let (o, r) = (OUT[choose(4)], OUT[choose(4)]);
    #[cfg(not(feature = "deep"))]
    assume((p + q + o + r) % 3 == 0 && !(2..5).contains(&q) || p >= 5 && o == 8);
    let a = leaf(num5(), 5);
    let inner = if p < 5 { node(p, o, a, leaf(num5(), 5)) } else { unary(p - 5, o, a) };
    let name = format!("{p}:{} under {q}:{}", nrep(o), nrep(r));
    let whole = if q < 5 {
        let c = leaf(num5(), 8);
        if choose(2) == 0 { node(q, r, inner, c) } else { node(q, r, c, inner) }
    } else {
        unary(q - 5, r, inner)
    };
    check(&name, whole)
}
/// bitwise casts reinterpret
#[unsafe(no_mangle)]
pub extern "C" fn h_bitwise() {
    let (i, o) = (choose(8), choose(8));
    let raw = any_u64();
    let bits = |i: usize| [8u32, 16, 32, 64][i % 4];
    let as_rep = |x: u64, i: usize| -> i128 {
        let s = 64 - bits(i);
        if i < 4 { ((x << s) >> s) as i128 } else { (((x << s) as i64) >> s) as i128 }
    };
    let a = as_rep(raw, i);
    // reinterpreting extends by the sign of the source and then keeps the low bits
    let want = as_rep(a as u64, o);
    let big = |v: i128| if v < 0 { -BigInt::from(v.unsigned_abs() as u64) } else { BigInt::from(v as u64) };
    let e = Expr::Cast(CastOp::bitwise(MREPS[o]), Box::new(Expr::Const(TypedConst(big(a), nrep(i)))));
    let (direct, whole) = nofmt(|| (bitwise_cast(big(a), nrep(i), MREPS[o]), e.eval(VOID)));
    chk!(Exact::of(want).is(&direct), "[bitwise {} -> {}] wrong bits", nrep(i), nrep(o));
    match whole {
        Ok(Value::Const(c)) => chk!(Exact::of(want).is(c.as_raw_value()) && c.get_rep() == nrep(o), "[bitwise {} -> {}] wrong value", nrep(i), nrep(o)),
        Err(_) => fail("a bitwise cast is refused"),
    }
    cover("cast");
}
/// reading a typed number as a machine integer, and matching it against patterns
#[unsafe(no_mangle)]
pub extern "C" fn h_typed() {
    let i = choose(9);
    let v = num64();
    let (Expr::Const(c), _) = leaf(v, i) else { unreachable!() };
    let y = any_u64();
    let pat = |w: usize, m: u64| i == w && !v.neg && v.mag == m as u128;
    match choose(7) {
        0 => {
            let fits = |t: usize| representable(v, t) && (i == t || i == 8);
            let (b, h, w, d) = nofmt(|| (c.get_as_u8(), c.get_as_unsized::<u16>(), c.get_as_unsized::<u32>(), c.get_as_unsized::<u64>()));
            chk!(b.ok().map(|x| x as u128) == fits(0).then_some(v.mag), "get_as_u8");
            chk!(h.ok().map(|x| x as u128) == fits(1).then_some(v.mag), "get_as_unsized u16");
            chk!(w.ok().map(|x| x as u128) == fits(2).then_some(v.mag), "get_as_unsized u32");
            chk!(d.ok().map(|x| x as u128) == fits(3).then_some(v.mag), "get_as_unsized u64");
        }
        1 => {
            let u = nofmt(|| c.as_usize());
            chk!(u.ok().map(|x| x as u128) == (!v.neg).then_some(v.mag), "as_usize");
        }
        2 => {
            chk!(c.matches_u8(y as u8) == pat(0, y as u8 as u64), "matches_u8");
            chk!(c.matches_u16(y as u16) == pat(1, y as u16 as u64), "matches_u16");
            chk!(c.matches_u32(y as u32) == pat(2, y as u32 as u64), "matches_u32");
            chk!(c.matches_u64(y) == pat(3, y), "matches_u64");
        }
        3 => {
            let hi = any_u64();
            assume(hi >= y);
            let b = doodle::bounds::Bounds::new(y as usize, hi as usize);
            chk!(c.matches_int_range(b) == (!v.neg && v.mag >= y as u128 && v.mag <= hi as u128), "matches_int_range");
            chk!(c.matches_int_range(doodle::bounds::Bounds::at_least(y as usize)) == (!v.neg && v.mag >= y as u128), "matches_int_range open");
        }
        4 => {
            let o = num64();
            let (Expr::Const(d), _) = leaf(o, choose(2)) else { unreachable!() };
            chk!(c.eq_val(&d) == (v == o) && c.eq_num(d.as_raw_value()) == (v == o), "equality of typed numbers");
        }
        5 => chk!(c.is_representable() == representable(v, i), "is_representable"),
        _ => {
            assume(i < 8);
            let j = choose(8);
            let inside = limits(i).0 <= limits(j).0 && limits(j).1 <= limits(i).1;
            chk!(MREPS[i].encompasses(MREPS[j]) == inside, "encompasses");
            chk!(MREPS[i].is_superset(MREPS[j]) == inside, "is_superset");
            let b = MREPS[i].as_bounds();
            chk!(Exact::of(limits(i).0).is(&b.min) && Exact::of(limits(i).1).is(&b.max), "as_bounds");
        }
    }
    cover("typed");
}
