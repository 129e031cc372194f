//! ByteSet is exactly a set of bytes.
use crate::rt::*;
use doodle::byte_set::ByteSet;
use doodle::byte_set::pretty_print::PartitionedByteSet;

fn any_bits() -> [u64; 4] {
    [any_u64(), any_u64(), any_u64(), any_u64()]
}
/// independent membership oracle on the documented bit layout
fn has(bits: &[u64; 4], b: u8) -> bool {
    let w = match b >> 6 { 0 => bits[0], 1 => bits[1], 2 => bits[2], _ => bits[3] };
    (w >> (b & 63)) & 1 == 1
}
fn popcount(bits: &[u64; 4]) -> u32 {
    let mut n = 0u32;
    for w in bits {
        let mut c = 0u64;
        for i in 0..64 {
            c = c.wrapping_add((*w >> i) & 1);
        }
        n = n.wrapping_add(c as u32);
    }
    n
}

/// Boolean algebra, membership, construction: symbolic sets, symbolic byte.
#[unsafe(no_mangle)]
pub extern "C" fn h_bs_algebra() {
    let k = choose(15);
    let a = any_bits();
    let c = any_bits();
    let (sa, sc) = (ByteSet::from_bits(a), ByteSet::from_bits(c));
    let x = any_u8();
    let (ha, hc) = (has(&a, x), has(&c, x));
    match k {
        0 => chk!(sa.contains(x) == ha && sa.to_bits() == a, "contains"),
        1 => chk!(sa.union(&sc).contains(x) == (ha || hc), "union"),
        2 => chk!(sa.intersection(&sc).contains(x) == (ha && hc), "intersection"),
        3 => chk!(sa.difference(&sc).contains(x) == (ha && !hc), "difference"),
        4 => chk!(sa.complement().contains(x) != ha && (!sa).contains(x) != ha && (!&sa).contains(x) != ha, "complement"),
        5 => {
            let y = any_u8();
            let mut s = sa;
            s.insert(y);
            chk!(s.contains(x) == (ha || x == y), "insert");
        }
        6 => {
            let y = any_u8();
            let mut s = sa;
            s.remove(y);
            chk!(s.contains(x) == (ha && x != y), "remove");
        }
        7 => chk!(ByteSet::singleton(x).contains(x), "singleton contains"),
        8 => {
            let y = any_u8();
            chk!(ByteSet::singleton(y).contains(x) == (x == y), "singleton only");
            chk!(!ByteSet::empty().contains(x) && !ByteSet::new().contains(x) && ByteSet::full().contains(x), "empty/full");
        }
        9 => {
            let e = a == [0; 4];
            chk!(sa.is_empty() == e, "is_empty");
            chk!(sa.is_full() == (a == [!0; 4]), "is_full");
            chk!((sa == sc) == (a == c), "eq");
        }
        10 => {
            let d = (0..4).all(|i| a[i] & c[i] == 0);
            chk!(sa.is_disjoint(&sc) == d, "is_disjoint");
        }
        11 => {
            chk!(sa.len() == popcount(&a), "len");
        }
        12 => {
            let v: [u8; 3] = bytes();
            let s = ByteSet::from(v);
            let m = v.iter().any(|y| *y == x);
            chk!(s.contains(x) == m, "from array");
            chk!(ByteSet::from(&v[..]) == s, "from slice");
            chk!(v.iter().copied().collect::<ByteSet>() == s, "from iter");
        }
        14 => {
            // span, bounds: from the extremes (themselves checked below)
            match (sa.min_elem(), sa.max_elem()) {
                (Some(lo), Some(hi)) => {
                    chk!(lo <= hi, "extremes out of order");
                    chk!(sa.span() == hi as u32 - lo as u32 + 1, "span");
                    chk!(sa.bounds() == Some((lo, hi)), "bounds");
                }
                _ => chk!(sa.span() == 0 && sa.bounds().is_none(), "span/bounds of empty"),
            }
        }
        _ => {
            // an element is never below the minimum / above the maximum, and both belong
            match sa.min_elem() {
                None => chk!(!ha, "min_elem None on nonempty"),
                Some(m) => chk!(has(&a, m) && !(ha && x < m), "min_elem"),
            }
            match sa.max_elem() {
                None => chk!(!ha, "max_elem None on nonempty"),
                Some(m) => chk!(has(&a, m) && !(ha && x > m), "max_elem"),
            }
        }
    }
    cover("checked");
}

/// Ranges: both ends symbolic.
#[unsafe(no_mangle)]
pub extern "C" fn h_bs_range() {
    let k = choose(16);
    let (lo, hi, x) = (any_u8(), any_u8(), any_u8());
    assume((lo >> 6) as usize == k & 3 && (hi >> 6) as usize == k >> 2);
    #[cfg(not(feature = "deep"))]
    assume(hi < lo || hi - lo < 20 || (k == 15 && hi == 255 && lo > 216));
    let s = ByteSet::from(lo..=hi);
    chk!(s.contains(x) == (lo <= x && x <= hi), "from ..=");
    if lo <= hi {
        cover("nonempty");
    } else {
        cover("empty");
    }
}
/// Ranges between word-boundary bytes, any length (the symbolic-ended check above is length-bounded).
#[unsafe(no_mangle)]
pub extern "C" fn h_bs_range_bnd() {
    const B: [u8; 15] = [0, 1, 62, 63, 64, 65, 127, 128, 129, 190, 191, 192, 193, 254, 255];
    let k = choose(225);
    let (lo, hi, x) = (B[k / 15], B[k % 15], any_u8());
    let s = ByteSet::from(lo..=hi);
    chk!(s.contains(x) == (lo <= x && x <= hi), "from ..=");
    let e = ByteSet::from(lo..hi);
    chk!(e.contains(x) == (lo <= x && x < hi), "from ..");
    if lo <= hi {
        chk!(s.contains_range(lo..=hi), "contains_range of itself");
        chk!(ByteSet::full().contains_range(lo..=hi), "contains_range of full");
        chk!(e.contains_range(lo..=hi) == false, "contains_range without its end");
        chk!(s.is_contiguous() && s.span() == hi as u32 - lo as u32 + 1, "a range is contiguous");
        let mut h = s;
        h.remove(x);
        chk!(h.is_contiguous() == !(lo < x && x < hi), "is_contiguous of a punctured range");
        chk!(s.find_enclosing_range(x) == if lo <= x && x <= hi { Some((lo, hi)) } else { None }, "find_enclosing_range");
    }
    cover("range");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_bs_range_excl() {
    let (lo, hi, x) = (any_u8(), any_u8(), any_u8());
    assume(hi < lo || hi - lo < 12);
    let s = ByteSet::from(lo..hi);
    chk!(s.contains(x) == (lo <= x && x < hi), "from ..");
    cover("range");
}

/// Observers used for display: bounds, span, contiguity, enclosing ranges, iteration.
#[unsafe(no_mangle)]
pub extern "C" fn h_bs_observers() {
    let k = choose(4);
    // symbolic windows of 8 consecutive bytes in each quadrant position k
    let w = [any_u8(), any_u8()];
    #[cfg(not(feature = "deep"))]
    assume(w[0] & 0xc0 == 0 && w[1] & 0xf9 == 0x10);
    #[cfg(feature = "deep")]
    assume(w[1] & 0xc0 == 0x40);
    let pos = [0usize, 60, 124, 248][k];
    let mut bits = [0u64; 4];
    let mut put = |b: usize, v: u8| {
        for i in 0..8 {
            bits[(b + i) >> 6] |= (((v >> i) & 1) as u64) << ((b + i) & 63);
        }
    };
    put(pos, w[0]);
    put([100usize, 30, 190, 2][k], w[1]);
    let s = ByteSet::from_bits(bits);
    let v: Vec<u8> = s.iter().collect();
    let n = w[0].count_ones() + w[1].count_ones();
    chk!(v.len() as u32 == n, "iter length");
    for i in 0..v.len() {
        chk!(has(&bits, v[i]) && (i == 0 || v[i - 1] < v[i]), "iter order/membership");
    }
    chk!(s.bounds() == v.first().map(|f| (*f, *v.last().unwrap())), "bounds");
    let span = v.first().map(|f| *v.last().unwrap() as u32 - *f as u32 + 1).unwrap_or(0);
    chk!(s.span() == span, "span");
    let contiguous = span == n;
    chk!(s.is_contiguous() == contiguous, "is_contiguous");
    match s.partition_ranges() {
        PartitionedByteSet::Contiguous(t) => chk!(contiguous && t == s, "partition contiguous"),
        PartitionedByteSet::Partitioned(m) => {
            chk!(!contiguous, "partitioned contiguous");
            let mut back = ByteSet::new();
            for (rank, los) in m {
                for lo in los {
                    chk!(s.contains_range(lo..=lo + (rank - 1)), "partition has foreign byte");
                    chk!(s.find_enclosing_range(lo) == Some((lo, lo + (rank - 1))), "partition range not maximal");
                    back = back.union(&ByteSet::from(lo..=lo + (rank - 1)));
                }
            }
            chk!(back == s, "partition loses bytes");
        }
    }
    if contiguous { cover("contiguous") } else { cover("partitioned") }
}

#[unsafe(no_mangle)]
pub extern "C" fn h_bs_contains_range() {
    let a = any_bits();
    let s = ByteSet::from_bits(a);
    let (lo, hi, x) = (any_u8(), any_u8(), any_u8());
    assume(lo <= hi && hi - lo < if cfg!(feature = "deep") { 8 } else { 6 });
    if s.contains_range(lo..=hi) {
        chk!(!(lo <= x && x <= hi) || has(&a, x), "contains_range accepts a missing byte");
        cover("yes");
    } else {
        let mut all = true;
        for i in 0..8u8 {
            if i <= hi - lo {
                all &= has(&a, lo + i);
            }
        }
        chk!(!all, "contains_range rejects a covered range");
        cover("no");
    }
}

/// The printed form denotes exactly the set (evaluated by an independent reader).
fn denote(s: &str) -> Option<ByteSet> {
    let mut acc = [false; 256];
    let named = |n: &str| -> Option<Vec<u8>> {
        Some(match n {
            "U8" => (0..=255).collect(),
            "∅" => vec![],
            "ASCII" => (0..=127).collect(),
            "ASCII.Decimal" => (b'0'..=b'9').collect(),
            "ASCII.Octal" => (b'0'..=b'7').collect(),
            "ASCII.HexLower" => (b'0'..=b'9').chain(b'a'..=b'f').collect(),
            "ASCII.HexUpper" => (b'0'..=b'9').chain(b'A'..=b'F').collect(),
            "ASCII.Hex" => (b'0'..=b'9').chain(b'a'..=b'f').chain(b'A'..=b'F').collect(),
            _ => return None,
        })
    };
    fn list(n: &str) -> Option<Vec<u8>> {
        n.split(", ").map(|x| x.parse().ok()).collect()
    }
    for part in s.split(" ∪ ") {
        let v: Vec<u8> = if let Some(v) = named(part) {
            v
        } else if let Some(r) = part.strip_prefix("⟦").and_then(|r| r.strip_suffix("⟧")) {
            let (a, b) = r.split_once(',')?;
            (a.parse().ok()?..=b.parse().ok()?).collect()
        } else if let Some(r) = part.strip_prefix("[= ").and_then(|r| r.strip_suffix("]")) {
            vec![r.parse().ok()?]
        } else if let Some(r) = part.strip_prefix("[!= ").and_then(|r| r.strip_suffix("]")) {
            let k: u8 = r.parse().ok()?;
            (0..=255).filter(|x| *x != k).collect()
        } else if let Some(r) = part.strip_prefix("∁({").and_then(|r| r.strip_suffix("})")) {
            let l = list(r)?;
            (0..=255).filter(|x| !l.contains(x)).collect()
        } else if let Some(r) = part.strip_prefix("{").and_then(|r| r.strip_suffix("}")) {
            list(r)?
        } else {
            return None;
        };
        for b in v {
            acc[b as usize] = true;
        }
    }
    let mut r = ByteSet::new();
    for i in 0..256 {
        if acc[i] {
            r.insert(i as u8);
        }
    }
    Some(r)
}
#[unsafe(no_mangle)]
pub extern "C" fn h_bs_display() {
    let k = choose(8);
    let w = any_u8();
    #[cfg(not(feature = "deep"))]
    assume(w & 0x0c == 0x0c || w & 0x0c == 0);
    // a symbolic 8-byte window around quadrant edges, over four backgrounds
    let pos = [60usize, 124, 188, 0][k & 3];
    let bg: [u64; 4] = if k < 4 { [0, 0xff << 20, 0, 0] } else { [!0, !0, !(1 << 40), !0] };
    let mut bits = bg;
    for i in 0..8 {
        bits[(pos + i) >> 6] ^= (((w >> i) & 1) as u64) << ((pos + i) & 63);
    }
    let s = ByteSet::from_bits(bits);
    let t = s.to_string();
    match denote(&t) {
        None => fail(&format!("display unreadable: {t}")),
        Some(r) => chk!(r == s, "display denotes another set: {t}"),
    }
    cover("display");
}
