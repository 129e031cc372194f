//! Interval arithmetic: every member result lies in the result interval.
use crate::rt::*;
use doodle::bounds::Bounds;
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul};

struct Iv {
    b: Bounds,
    lo: usize,
    hi: Option<usize>,
}
/// bits of a symbolic end
const E: usize = if cfg!(feature = "deep") { 16 } else { 10 };
fn low() -> usize {
    any_u16() as usize & ((1 << E) - 1)
}
/// a number near 0, near 2^32, near 2^63 or near usize::MAX
fn num(shape: usize) -> usize {
    let v = low();
    match shape {
        0 => v,
        1 => (1 << 32) - (1 << (E - 1)) + v,
        2 => (1 << 63) - (1 << (E - 1)) + v,
        _ => usize::MAX - v,
    }
}
fn mk(k: usize, lo: usize, hi: usize) -> Iv {
    match k {
        0 => Iv { b: Bounds::exact(lo), lo, hi: Some(lo) },
        1 => {
            assume(lo <= hi);
            Iv { b: Bounds::new(lo, hi), lo, hi: Some(hi) }
        }
        _ => Iv { b: Bounds::at_least(lo), lo, hi: None },
    }
}
/// any interval whose ends are any machine word
fn iv() -> Iv {
    let k = choose(3);
    mk(k, any_usize(), any_usize())
}
/// any interval whose ends have the shapes of `num`
fn iv_shaped() -> Iv {
    let k = choose(3);
    let s = choose(4);
    let t = if k == 1 { s + choose(4 - s) } else { 0 };
    mk(k, num(s), num(t))
}
fn member(i: &Iv) -> usize {
    let a = any_usize();
    assume(i.lo <= a && i.hi.is_none_or(|h| a <= h));
    a
}
fn member_shaped(i: &Iv) -> usize {
    let a = num(choose(4));
    assume(i.lo <= a && i.hi.is_none_or(|h| a <= h));
    a
}
fn inside(r: Bounds, x: usize) -> bool {
    r.min() <= x && r.max().is_none_or(|h| x <= h)
}

#[unsafe(no_mangle)]
pub extern "C" fn h_bounds_lin() {
    let op = choose(5);
    let x = iv();
    if op == 0 {
        let n = any_usize();
        chk!(x.b.min() == x.lo && x.b.max() == x.hi, "constructor");
        chk!(x.b.contains(n) == (x.lo <= n && x.hi.is_none_or(|h| n <= h)), "contains");
        chk!(x.b.as_exact() == if x.hi == Some(x.lo) { Some(x.lo) } else { None }, "as_exact");
        chk!(Bounds::any().contains(n) && Bounds::at_most(x.lo).contains(n) == (n <= x.lo), "any/at_most");
        cover("done");
        return;
    }
    if op == 1 {
        // bits to bytes: n bits need ceil(n/8) bytes
        let n = member(&x);
        chk!(inside(x.b.bits_to_bytes(), n / 8 + (n % 8 != 0) as usize), "bits_to_bytes");
        let r = x.b.bits_to_bytes();
        chk!(r.min() == x.lo / 8 + (x.lo % 8 != 0) as usize, "bits_to_bytes minimum");
        cover("done");
        return;
    }
    if op == 2 {
        let (lo, hi, n) = (any_usize(), any_usize(), any_usize());
        assume(lo <= hi);
        match x.b.clamp(lo, hi) {
            None => chk!(!(x.b.contains(n) && lo <= n && n <= hi), "clamp drops a member"),
            Some(r) => {
                chk!(inside(r, n) == (x.b.contains(n) && lo <= n && n <= hi), "clamp is not the intersection");
            }
        }
        cover("done");
        return;
    }
    if op == 3 {
        let (lo, hi): (u32, u32) = (any_u32(), any_u32());
        let n = any_usize();
        assume(lo <= hi);
        chk!(Bounds::from(lo..=hi).contains(n) == (lo as usize <= n && n <= hi as usize), "from range");
        chk!(Bounds::from(lo).contains(n) == (lo as usize == n), "from value");
        chk!(Bounds::from(lo..).contains(n) == (n >= lo as usize), "from open range");
        match <(u8, Option<u8>)>::try_from(x.b) {
            Ok((a, b)) => chk!(a as usize == x.lo && b.map(|b| b as usize) == x.hi, "narrowing"),
            Err(_) => chk!(x.lo > 255 || x.hi.is_some_and(|h| h > 255), "narrowing refuses"),
        }
        match <(u32, Option<u32>)>::try_from(x.b) {
            Ok((a, b)) => chk!(a as usize == x.lo && b.map(|b| b as usize) == x.hi, "narrowing"),
            Err(_) => chk!(x.lo > u32::MAX as usize || x.hi.is_some_and(|h| h > u32::MAX as usize), "narrowing refuses"),
        }
        cover("done");
        return;
    }
    let y = iv();
    let (a, b) = (member(&x), member(&y));
    let u = Bounds::union(x.b, y.b);
    chk!(inside(u, a) && inside(u, b), "union drops a member");
    chk!(u.min() == if x.lo < y.lo { x.lo } else { y.lo }, "union minimum");
    chk!(u.max() == if let (Some(p), Some(q)) = (x.hi, y.hi) { Some(if p < q { q } else { p }) } else { None }, "union maximum");
    cover("done");
}

#[unsafe(no_mangle)]
pub extern "C" fn h_bounds_ops() {
    let op = choose(6);
    let x = iv_shaped();
    let y = if op >= 4 {
        // shift distances
        let k = choose(3);
        mk(k, any_u8() as usize, any_u8() as usize)
    } else {
        iv_shaped()
    };
    let a = member_shaped(&x);
    let b = if op >= 4 {
        let b = any_u8() as usize;
        assume(y.lo <= b && y.hi.is_none_or(|h| b <= h));
        b
    } else {
        member_shaped(&y)
    };
    let ex = x.hi == Some(x.lo) && y.hi == Some(y.lo);
    match op {
        0 => {
            let r = x.b + y.b;
            if let Some(s) = a.checked_add(b) {
                chk!(inside(r, s), "sum outside");
                if ex {
                    chk!(r.as_exact() == Some(s), "sum of exact operands");
                }
                if let Some(c) = x.b.checked_add(&y.b) {
                    chk!(inside(c, s), "checked sum outside");
                }
                cover("sum");
            }
        }
        1 => {
            let r = x.b - y.b;
            chk!(inside(r, a.saturating_sub(b)), "difference outside");
            if ex {
                chk!(r.as_exact() == Some(a.saturating_sub(b)), "difference of exact operands");
            }
        }
        2 => {
            chk!(inside(x.b | y.b, a | b), "bitwise or outside");
        }
        3 => {
            chk!(inside(x.b & y.b, a & b), "bitwise and outside");
            if ex {
                chk!((x.b & y.b).as_exact() == Some(a & b), "bitwise and of exact operands");
            }
        }
        4 => {
            let r = x.b << y.b;
            // a shift that loses no bits
            if b < 64 && a.leading_zeros() as usize >= b {
                chk!(inside(r, a << b), "left shift outside");
                if ex {
                    chk!(r.as_exact() == Some(a << b), "left shift of exact operands");
                }
                cover("shl");
            }
        }
        _ => {
            let r = x.b >> y.b;
            if b < 64 {
                chk!(inside(r, a >> b), "right shift outside");
                if ex {
                    chk!(r.as_exact() == Some(a >> b), "right shift of exact operands");
                }
                cover("shr");
            }
        }
    }
    cover("done");
}

/// one operand symbolic, the other any interval below K (each member in turn)
const K: usize = if cfg!(feature = "deep") { 20 } else { 8 };
#[unsafe(no_mangle)]
pub extern "C" fn h_bounds_mul() {
    let op = choose(4);
    let lo = choose(K);
    let hi = lo + choose(K - lo + 1);
    let small = if hi == K { Iv { b: Bounds::at_least(lo), lo, hi: None } } else { Iv { b: Bounds::new(lo, hi), lo, hi: Some(hi) } };
    let m = lo + choose(hi - lo + 1);
    let k = choose(3);
    let (p, q) = (low(), low());
    let big = mk(k, p, q);
    let n = low();
    assume(big.lo <= n && big.hi.is_none_or(|h| n <= h));
    let (x, y, a, b) = if op % 2 == 0 { (small, big, m, n) } else { (big, small, n, m) };
    let ex = x.hi == Some(x.lo) && y.hi == Some(y.lo);
    if op < 2 {
        let r = x.b * y.b;
        chk!(inside(r, a * b), "product outside");
        if ex {
            chk!(r.as_exact() == Some(a * b), "product of exact operands");
        }
        match x.b.checked_mul(&y.b) {
            Some(r) => chk!(inside(r, a * b), "checked product outside"),
            None => fail("checked product refused"),
        }
        cover("product");
    } else {
        let r = x.b / y.b;
        if b != 0 {
            let q = a / b;
            chk!(inside(r, q), "quotient outside");
            if ex {
                chk!(r.as_exact() == Some(q), "quotient of exact operands");
            }
            if let Some(r) = x.b.checked_div(&y.b) {
                chk!(inside(r, q), "checked quotient outside");
            }
            cover("quotient");
        } else {
            cover("zero");
        }
    }
}
/// products whose ends overflow
#[unsafe(no_mangle)]
pub extern "C" fn h_bounds_mul_edge() {
    const V: [usize; 7] = [0, 1, 2, 1 << 32, (1 << 32) + 1, usize::MAX / 2 + 1, usize::MAX];
    let (i, j, k, l) = (choose(7), choose(7), choose(7), choose(7));
    let (x, y) = (
        if i <= j { Bounds::new(V[i], V[j]) } else { Bounds::at_least(V[i]) },
        if k <= l { Bounds::new(V[k], V[l]) } else { Bounds::at_least(V[k]) },
    );
    let (r, q, s) = (x * y, x / y, x + y);
    let d: u8 = any_u8();
    for a in [V[i] + d as usize % 2 * (V[i] < V[j]) as usize, V[j]] {
        for b in [V[k] + d as usize % 2 * (V[k] < V[l]) as usize, V[l]] {
            if x.contains(a) && y.contains(b) {
                if let Some(m) = a.checked_mul(b) {
                    chk!(inside(r, m), "product outside");
                }
                if let Some(m) = a.checked_div(b) {
                    chk!(inside(q, m), "quotient outside");
                }
                if let Some(m) = a.checked_add(b) {
                    chk!(inside(s, m), "sum outside");
                }
                cover("done");
            }
        }
    }
}
