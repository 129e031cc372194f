//! Read contexts, views and fixed-width arrays against a plain byte-slice oracle.
use crate::rt::*;
use doodle::parser::{Parser, View};
use doodle::prelude::allsorts::binary::read::{CheckIndex, ReadArray, ReadArrayCow, ReadCtxt as SCtxt, ReadScope, ReadUnchecked};
use doodle::prelude::allsorts::binary::{I8, I16Be, I32Be, I64Be, U8, U16Be, U24Be, U32Be, U64Be};
use doodle::read::ReadCtxt;

const N: usize = 9;

/// big-endian value of `w` bytes at `at`
fn be(buf: &[u8], at: usize, w: usize) -> u64 {
    let mut v = 0u64;
    for i in 0..w {
        v = (v << 8) | buf[at + i] as u64;
    }
    v
}
/// an arbitrary size: any 64-bit value
fn any_n() -> usize {
    any_usize()
}
/// two symbolic arguments make products of ranges; keep one of them small or astronomically large
fn any_edge() -> usize {
    let a = any_u8() as usize;
    match choose(3) {
        0 => a,
        1 => usize::MAX - a,
        _ => (usize::MAX / 2 + 1) / [1, 2, 4][choose(3)] + a,
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn h_readctxt() {
    let op = choose(7);
    let len = choose(N + 1);
    let data: [u8; N] = bytes();
    let buf = &data[..len];
    let c0 = ReadCtxt::new(buf);
    chk!(c0.offset == 0 && c0.remaining() == buf, "new");
    let n = any_n();
    let Some(c) = c0.seek_to(n) else {
        chk!(n > len, "seek_to refuses an offset inside the buffer");
        cover("refused");
        return;
    };
    chk!(n <= len && c.offset == n, "seek_to accepts an offset outside the buffer");
    let n = pin(n);
    cover("seek");
    match op {
        0 => match c.read_byte() {
            Some((b, r)) => chk!(n < len && b == data[n] && r.offset == n + 1 && r.input == buf, "read_byte"),
            None => chk!(n == len, "read_byte refuses"),
        },
        1 => match c.read_u16be() {
            Some((b, r)) => chk!(n + 2 <= len && b as u64 == be(&data, n, 2) && r.offset == n + 2 && r.input == buf, "read_u16be"),
            None => chk!(n + 2 > len, "read_u16be refuses"),
        },
        2 => match c.read_u32be() {
            Some((b, r)) => chk!(n + 4 <= len && b as u64 == be(&data, n, 4) && r.offset == n + 4 && r.input == buf, "read_u32be"),
            None => chk!(n + 4 > len, "read_u32be refuses"),
        },
        3 => match c.read_u64be() {
            Some((b, r)) => chk!(n + 8 <= len && b == be(&data, n, 8) && r.offset == n + 8 && r.input == buf, "read_u64be"),
            None => chk!(n + 8 > len, "read_u64be refuses"),
        },
        4 => {
            let m = any_n();
            match c.split_at(m) {
                Some((a, b)) => {
                    chk!(m <= len - n, "split_at past the end");
                    let m = pin(m);
                    chk!(a.offset == n && a.input == &buf[..n + m] && b.offset == n + m && b.input == buf, "split_at");
                    cover("split");
                }
                None => {
                    chk!(m > len - n, "split_at refuses");
                    cover("split refused");
                }
            }
        }
        5 => chk!(c.remaining() == &buf[n..], "remaining"),
        _ => {
            // nested: a split context is limited to its part
            let m = any_n();
            let k = any_n();
            if let Some((a, _)) = c.split_at(m) {
                let m = pin(m);
                match a.split_at(k) {
                    Some((x, y)) => {
                        chk!(k <= m, "nested split_at past the outer end");
                        let k = pin(k);
                        chk!(x.remaining() == &buf[n..n + k] && y.remaining() == &buf[n + k..n + m], "nested split_at");
                    }
                    None => chk!(k > m, "nested split_at refuses"),
                }
                if m == 0 {
                    chk!(a.read_byte().is_none() && a.read_u16be().is_none(), "read past a split");
                }
                if m < 4 {
                    chk!(a.read_u32be().is_none() && a.read_u64be().is_none(), "read past a split");
                }
                cover("nested");
            }
        }
    }
}

fn arr<T>(a: &ReadArray<'_, T>, data: &[u8], at: usize, n: usize, w: usize, conv: fn(T::HostType) -> u64)
where
    T: ReadUnchecked,
{
    chk!(a.len() == n && a.is_empty() == (n == 0), "array length");
    let v: Vec<u64> = a.iter().map(conv).collect();
    chk!(v.len() == n, "array iteration length");
    for i in 0..n {
        chk!(v[i] == be(data, at + i * w, w), "array iteration element");
    }
    let i = any_n();
    match a.get_item(i) {
        Some(x) => {
            chk!(i < n, "get_item past the end");
            let i = pin(i);
            chk!(conv(x) == v[i], "get_item");
            cover("item");
        }
        None => {
            chk!(i >= n, "get_item refuses");
            cover("item refused");
        }
    }
    match a.read_item(i) {
        Ok(x) => {
            chk!(i < n, "read_item past the end");
            let i = pin(i);
            chk!(conv(x) == v[i], "read_item");
        }
        Err(_) => chk!(i >= n, "read_item refuses"),
    }
    chk!(a.check_index(i).is_ok() == (i < n), "check_index");
    match a.last() {
        Some(x) => chk!(n > 0 && conv(x) == v[n - 1], "last"),
        None => chk!(n == 0, "last refuses"),
    }
    let w2: Vec<u64> = a.to_vec().into_iter().map(conv).collect();
    chk!(w2 == v, "to_vec");
    match a.read_to_vec() {
        Ok(x) => chk!(x.into_iter().map(conv).collect::<Vec<_>>() == v, "read_to_vec"),
        Err(_) => fail("read_to_vec fails"),
    }
    let mut it = a.iter();
    let mut left = n;
    loop {
        chk!(it.len() == left, "size_hint of the array iterator");
        if it.next().is_none() {
            break;
        }
        left -= 1;
    }
    chk!(left == 0, "array iterator ends early");
}

#[unsafe(no_mangle)]
pub extern "C" fn h_view() {
    let op = choose(6);
    let len = choose(N + 1);
    let data: [u8; N] = bytes();
    let buf = &data[..len];
    let v0 = View::new(buf);
    let n = any_n();
    let v = match v0.offset(n) {
        Ok(v) => v,
        Err(_) => {
            chk!(n > len, "offset refuses a position inside the view");
            cover("refused");
            return;
        }
    };
    chk!(n <= len, "offset accepts a position outside the view");
    let n = pin(n);
    cover("offset");
    let room = len - n;
    match op {
        0 => match v.read_u16be() {
            Ok(x) => chk!(room >= 2 && x as u64 == be(&data, n, 2), "read_u16be"),
            Err(_) => chk!(room < 2, "read_u16be refuses"),
        },
        1 => {
            let w = [1, 2, 4, 8][choose(4)];
            let k = any_n();
            let ok = k <= room / w;
            macro_rules! go {
                ($t:ty, $f:ident) => {
                    match v.$f(k) {
                        Ok(a) => {
                            chk!(ok, "array past the end of the view");
                            let k = pin(k);
                            arr::<$t>(&a, &data, n, k, w, |x| x as u64);
                            cover("array");
                        }
                        Err(_) => {
                            chk!(!ok, "array refused although it fits");
                            cover("array refused");
                        }
                    }
                };
            }
            match w {
                1 => go!(U8, read_array_u8),
                2 => go!(U16Be, read_array_u16be),
                4 => go!(U32Be, read_array_u32be),
                _ => go!(U64Be, read_array_u64be),
            }
        }
        2 => {
            let m = any_n();
            match v.offset(m) {
                Ok(x) => {
                    chk!(m <= room, "nested offset past the end");
                    let m = pin(m);
                    chk!(x == v0.offset(n + m).ok().unwrap(), "nested offset differs from the direct one");
                    cover("nested");
                }
                Err(_) => chk!(m > room, "nested offset refuses"),
            }
        }
        3 => {
            // a parser over the view reads the view's bytes, and its positions are those of the view
            let mut p = Parser::from(v);
            chk!(p.remaining() == room, "parser over view: remaining");
            for i in 0..room {
                chk!(p.read_byte().ok() == Some(data[n + i]), "parser over view: byte");
            }
            chk!(p.read_byte().is_err(), "parser over view: reads past the end");
            let d = any_n();
            let mut q = Parser::from(v);
            match q.advance_or_seek(d) {
                Ok(_) => {
                    chk!(n <= d && d <= len, "parser over view: absolute seek outside the view");
                    let d = pin(d);
                    chk!(q.read_byte().ok() == buf.get(d).copied(), "parser over view: absolute seek lands elsewhere");
                    cover("seek");
                }
                Err(_) => {
                    chk!(d < n || d > len, "parser over view: absolute seek refused");
                    cover("seek refused");
                }
            }
        }
        4 => {
            // a view taken from a parser starts at the parser's position
            let mut p = Parser::new(buf);
            chk!(p.advance_by(n).is_ok(), "advance");
            let x = p.view();
            chk!(x == v, "view of the parser differs from the offset view");
            cover("parser view");
        }
        _ => {
            let k = any_n();
            let r = RL::rl(&v, k);
            match r {
                Some(s) => {
                    chk!(k <= room, "read_len past the end");
                    let k = pin(k);
                    chk!(s == &data[n..n + k], "read_len");
                }
                None => chk!(k > room, "read_len refuses"),
            }
            cover("read_len");
        }
    }
}
struct RL;
impl RL {
    fn rl<'a>(v: &View<'a>, k: usize) -> Option<&'a [u8]> {
        v.read_len(k).ok()
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn h_scope() {
    let op = choose(18);
    let len = [0, 1, 2, 3, 4, 7, 8, 9][choose(8)];
    let data: [u8; N] = bytes();
    let buf = &data[..len];
    let sub = choose(2) == 1;
    let s = ReadScope::new(buf);
    // optionally, a scope that does not start at the beginning
    let (s, at) = if sub && len >= 1 { (s.offset(1), 1) } else { (s, 0) };
    let len = len - at;
    let data = &data[at..];
    let buf = &buf[at..];
    macro_rules! prim {
        ($m:ident, $w:expr, $conv:expr) => {{
            let mut c = s.ctxt();
            let mut i = 0;
            loop {
                chk!(c.bytes_available() == (i < len), "bytes_available");
                match c.$m() {
                    Ok(x) => {
                        chk!(i + $w <= len, "integer read past the end");
                        let want = be(data, i, $w);
                        chk!($conv(x) == want, "integer read");
                        i += $w;
                    }
                    Err(_) => {
                        chk!(i + $w > len, "integer read refused");
                        break;
                    }
                }
                chk!(c.scope().data() == &buf[i..], "scope of the context");
            }
            cover("prim");
        }};
    }
    macro_rules! array {
        ($t:ty, $w:expr, $conv:expr) => {{
            let k = any_n();
            match s.ctxt().read_array::<$t>(k) {
                Ok(a) => {
                    chk!(k <= len / $w, "array past the end of the scope");
                    let k = pin(k);
                    arr::<$t>(&a, data, 0, k, $w, $conv);
                    cover("array");
                }
                Err(_) => chk!(k > len / $w, "array refused although it fits"),
            }
        }};
    }
    match op {
        0 => prim!(read_u8, 1, |x| x as u64),
        1 => prim!(read_i8, 1, |x: i8| x as u8 as u64),
        2 => prim!(read_u16be, 2, |x| x as u64),
        3 => prim!(read_i16be, 2, |x: i16| x as u16 as u64),
        4 => prim!(read_u32be, 4, |x| x as u64),
        5 => prim!(read_i32be, 4, |x: i32| x as u32 as u64),
        6 => prim!(read_u64be, 8, |x| x),
        7 => prim!(read_i64be, 8, |x: i64| x as u64),
        8 => array!(U24Be, 3, |x| x as u64),
        9 => array!(I16Be, 2, |x| x as u16 as u64),
        10 => array!(I8, 1, |x| x as u8 as u64),
        11 => array!((U8, U16Be), 3, |(a, b)| (a as u64) << 16 | b as u64),
        12 => {
            let o = any_n();
            let t = s.offset(o);
            if o <= len {
                let o = pin(o);
                chk!(t.data() == &buf[o..], "offset");
            } else {
                chk!(t.data().is_empty(), "offset outside is not empty");
            }
        }
        13 => {
            let (o, l) = (any_edge(), any_n());
            match s.offset_length(o, l) {
                Ok(t) => {
                    chk!(l == 0 || (o <= len && l <= len - o), "offset_length past the end");
                    if o <= len {
                        let (o, l) = (pin(o), pin(l));
                        chk!(t.data() == &buf[o..o + l], "offset_length");
                        cover("offset_length");
                    } else {
                        chk!(t.data().is_empty(), "offset_length outside is not empty");
                    }
                }
                Err(_) => chk!(l != 0 && (o > len || l > len - o), "offset_length refuses"),
            }
        }
        14 => {
            // strided arrays: the elements lie `stride` apart
            let stride = [0, 1, 2, 3, 4][choose(5)];
            let k = any_n();
            match s.ctxt().read_array_stride::<U16Be>(k, stride) {
                Ok(a) => {
                    chk!(stride >= 2 && k <= len / stride, "strided array past the end");
                    let k = pin(k);
                    chk!(a.len() == k, "strided length");
                    let mut it = a.iter();
                    for i in 0..k {
                        let want = be(data, i * stride, 2);
                        chk!(a.get_item(i).map(|x| x as u64) == Some(want), "strided get_item");
                        chk!(a.read_item(i).ok().map(|x| x as u64) == Some(want), "strided read_item");
                        chk!(it.next().map(|x| x as u64) == Some(want), "strided iteration");
                    }
                    chk!(it.next().is_none(), "strided iteration too long");
                    cover("stride");
                }
                Err(_) => chk!(stride < 2 || k > len / stride, "strided array refused"),
            }
        }
        15 => {
            let k = any_n();
            match s.ctxt().read_array_upto_hack::<U16Be>(k) {
                Ok(a) => {
                    let m = if k < len / 2 { k } else { len / 2 };
                    let m = pin(m);
                    chk!(a.len() == m, "upto length");
                    arr::<U16Be>(&a, data, 0, m, 2, |x| x as u64);
                }
                Err(_) => fail("read_array_upto_hack refused"),
            }
            let l = any_n();
            let mut c = s.ctxt();
            match c.read_slice(l) {
                Ok(x) => {
                    chk!(l <= len, "read_slice past the end");
                    let l = pin(l);
                    chk!(x == &buf[..l] && c.scope().data() == &buf[l..], "read_slice");
                }
                Err(_) => chk!(l > len, "read_slice refused"),
            }
        }
        16 => {
            let nib = any_u8() & 15;
            let mut c = s.ctxt();
            let r = c.read_until_nibble(nib);
            let mut want = None;
            for i in (0..len).rev() {
                if data[i] >> 4 == nib || data[i] & 15 == nib {
                    want = Some(i + 1);
                }
            }
            match (r, want) {
                (Ok(x), Some(k)) => chk!(x == &buf[..k], "read_until_nibble"),
                (Err(_), None) => {}
                _ => fail("read_until_nibble verdict"),
            }
        }
        _ => {
            // binary search over a sorted array finds exactly the members
            let n = if len > 4 { 4 } else { len };
            for i in 1..n {
                assume(data[i - 1] <= data[i]);
            }
            let a = match s.ctxt().read_array::<U8>(n) {
                Ok(a) => a,
                Err(_) => return fail("array"),
            };
            let q = any_u8();
            match a.binary_search_by(|x| x.cmp(&q)) {
                Ok(i) => chk!(i < n && data[i] == q, "binary search hit"),
                Err(i) => {
                    chk!(i <= n, "binary search position");
                    chk!((i == 0 || data[i - 1] < q) && (i == n || data[i] > q), "binary search miss");
                    cover("miss");
                }
            }
            let cow = ReadArrayCow::Borrowed(a);
            let own: ReadArrayCow<'_, U8> = ReadArrayCow::Owned(buf[..n].to_vec());
            let i = any_n();
            chk!(cow.len() == n && own.len() == n && cow.is_empty() == (n == 0), "cow length");
            chk!(cow.get_item(i) == own.get_item(i) && cow.get_item(i).is_some() == (i < n), "cow item");
            chk!(cow.iter().collect::<Vec<_>>() == own.iter().collect::<Vec<_>>(), "cow iteration");
        }
    }
    cover("done");
}
