//! Runtime parser cursor against an independent bit-position model.
use crate::rt::*;
use doodle::parser::Parser;
use doodle::parser::error::{ParseError, StateError};
use doodle::parser::offset::ByteOffset;

const N: usize = 4;

#[derive(Clone, Copy)]
struct Pos {
    /// byte at which the current mode started (bytes mode: current byte)
    byte: usize,
    bits: Option<usize>,
}
impl Pos {
    fn abs(&self) -> usize {
        self.byte * 8 + self.bits.unwrap_or(0)
    }
    fn unit(&self) -> usize {
        if self.bits.is_some() { 1 } else { 8 }
    }
    fn plus(&self, n: usize) -> Pos {
        match self.bits {
            None => Pos { byte: self.byte + n, bits: None },
            Some(b) => Pos { byte: self.byte, bits: Some(b + n) },
        }
    }
}
#[derive(Clone, Copy)]
enum Ctx {
    Slice(Pos),
    Peek(Pos),
    Not(Pos),
    Alt(Pos),
    Seek(Pos),
}
struct Model {
    pos: Pos,
    stack: Vec<Ctx>,
}
impl Model {
    /// bit position past which nothing may be read
    fn limit(&self) -> usize {
        for c in self.stack.iter().rev() {
            match c {
                Ctx::Slice(e) => return e.abs(),
                Ctx::Seek(_) => return N * 8,
                _ => {}
            }
        }
        N * 8
    }
    /// how many units of the current mode can be consumed
    fn room(&self) -> usize {
        let l = self.limit();
        let a = self.pos.abs();
        (l - a) / self.pos.unit()
    }
}
fn same(o: ByteOffset, p: &Pos) -> bool {
    match (o, p.bits) {
        (ByteOffset::Bytes(b), None) => b == p.byte,
        (ByteOffset::Bits { starting_byte, bits_advanced }, Some(k)) => starting_byte == p.byte && bits_advanced == k,
        _ => false,
    }
}
static mut PIN: bool = false;
fn amount(deep: bool) -> usize {
    let a = any_u8();
    if unsafe { PIN } {
        // prefix: every position of the small buffer, one path each
        assume(a as usize <= N);
        return pin(a as usize);
    }
    if deep && choose(2) == 1 {
        cover("huge");
        usize::MAX - a as usize
    } else {
        a as usize
    }
}

/// one operation on both; false = stop exploring this history
fn step(buf: &[u8; N], p: &mut Parser<'_>, m: &mut Model, op: usize, big: bool) -> bool {
    match op {
        0 => {
            let r = p.read_byte();
            if m.room() >= 1 {
                let abs = m.pos.abs();
                let byte = buf[abs / 8];
                let want = if m.pos.bits.is_some() { (byte >> (abs % 8)) & 1 } else { byte };
                match r {
                    Ok(x) => chk!(x == want, "read_byte returns another value"),
                    Err(_) => fail("read_byte fails although input remains"),
                }
                m.pos = m.pos.plus(1);
                cover("read ok");
            } else {
                chk!(matches!(r, Err(ParseError::Overrun(_))), "read_byte past the limit is not an overrun");
                cover("read overrun");
            }
        }
        1 => {
            let n = amount(big);
            let r = p.advance_by(n);
            if n <= m.room() {
                chk!(r.is_ok(), "advance within the limit fails");
                m.pos = m.pos.plus(n);
            } else {
                chk!(matches!(r, Err(ParseError::Overrun(_))), "advance past the limit is not an overrun");
                cover("advance overrun");
            }
        }
        2 => {
            let n = [2, 3, 8][choose(3)];
            let at = m.pos.bits.unwrap_or(m.pos.byte);
            let d = (n - at % n) % n;
            let r = p.skip_align(n);
            if d <= m.room() {
                chk!(r.is_ok(), "skip_align within the limit fails");
                m.pos = m.pos.plus(d);
                cover("align");
            } else {
                chk!(matches!(r, Err(ParseError::Overrun(_))), "skip_align past the limit is not an overrun");
            }
        }
        3 => {
            let r = p.enter_bits_mode();
            if m.pos.bits.is_none() {
                chk!(r.is_ok(), "enter_bits_mode fails in bytes mode");
                m.pos.bits = Some(0);
            } else {
                chk!(matches!(r, Err(ParseError::InternalError(StateError::BinaryModeError))), "enter_bits_mode twice");
            }
        }
        4 => {
            if m.stack.iter().any(|c| matches!(c, Ctx::Slice(e) if e.bits.is_some())) {
                return false; // a bit-level slice must be closed before leaving bits mode
            }
            let r = p.escape_bits_mode();
            match m.pos.bits {
                Some(k) => {
                    chk!(matches!(r, Ok(x) if x == k), "escape_bits_mode bit count");
                    m.pos = Pos { byte: m.pos.byte + (k + 7) / 8, bits: None };
                    cover("escape");
                }
                None => chk!(r.is_err(), "escape_bits_mode in bytes mode"),
            }
        }
        5 => {
            let n = amount(big);
            let r = p.start_slice(n);
            if n <= m.room() {
                chk!(r.is_ok(), "start_slice that fits is refused");
                m.stack.push(Ctx::Slice(m.pos.plus(n)));
                cover("slice");
            } else {
                chk!(r.is_err(), "start_slice that does not fit is accepted");
                cover("slice refused");
            }
        }
        6 => {
            // alternatives opened inside the slice end with it
            while let Some(Ctx::Alt(_)) = m.stack.last() {
                m.stack.pop();
            }
            match m.stack.last() {
                Some(Ctx::Slice(e)) => {
                    let e = *e;
                    m.stack.pop();
                    let r = p.end_slice();
                    chk!(r.is_ok(), "end_slice fails");
                    m.pos = e;
                    cover("end slice");
                }
                // closing a slice from inside a peek/seek is a caller error
                _ => return false,
            }
        }
        7 => {
            p.open_peek_context();
            m.stack.push(Ctx::Peek(m.pos));
        }
        8 => {
            let r = p.close_peek_context();
            loop {
                match m.stack.pop() {
                    Some(Ctx::Peek(q) | Ctx::Seek(q)) => {
                        chk!(r.is_ok(), "close_peek_context fails");
                        m.pos = q;
                        cover("close peek");
                        break;
                    }
                    Some(_) => {}
                    None => {
                        chk!(r.is_err(), "close_peek_context without a peek");
                        return false;
                    }
                }
            }
        }
        9 => {
            p.open_peek_not_context();
            m.stack.push(Ctx::Not(m.pos));
        }
        10 | 12 => {
            let last = op == 10 || choose(2) == 1;
            let r = if op == 10 { p.close_peek_not_context() } else { p.next_alt(last) };
            loop {
                match m.stack.pop() {
                    Some(Ctx::Not(q) | Ctx::Alt(q)) => {
                        chk!(r.is_ok(), "recovery fails");
                        m.pos = q;
                        if !last {
                            m.stack.push(Ctx::Alt(q));
                        }
                        cover("recover");
                        break;
                    }
                    Some(_) => {}
                    None => {
                        chk!(r.is_err(), "recovery without a checkpoint");
                        return false;
                    }
                }
            }
        }
        11 => {
            p.start_alt();
            m.stack.push(Ctx::Alt(m.pos));
        }
        13 => {
            if m.pos.bits.is_some() {
                return false; // documented as unsupported
            }
            let n = amount(big);
            let r = p.advance_or_seek(n);
            if n >= m.pos.byte {
                m.stack.push(Ctx::Peek(m.pos));
                if n - m.pos.byte <= m.room() {
                    chk!(matches!(r, Ok(true)), "advance_or_seek forward");
                    m.pos.byte = n;
                    cover("seek forward");
                } else {
                    chk!(matches!(r, Err(ParseError::Overrun(_))), "advance_or_seek past the limit");
                }
            } else {
                chk!(matches!(r, Ok(false)), "advance_or_seek backward");
                m.stack.push(Ctx::Seek(m.pos));
                m.pos.byte = n;
                cover("seek backward");
            }
        }
        _ => {
            p.skip_remainder();
            m.pos = m.pos.plus(m.room());
            cover("skip remainder");
        }
    }
    chk!(same(p.get_current_offset(), &m.pos), "offset after operation {op}");
    chk!(p.remaining() == m.room(), "remaining after operation {op}");
    chk!(p.finish().is_ok() == (m.room() == 0), "finish after operation {op}");
    chk!(p.get_bits_read() == m.pos.bits, "bits read after operation {op}");
    true
}

#[unsafe(no_mangle)]
pub extern "C" fn h_cursor() {
    let pre = choose(180);
    let (pre, first) = (pre % 12, pre / 12);
    let buf: [u8; N] = bytes();
    let mut p = Parser::new(&buf);
    let mut m = Model { pos: Pos { byte: 0, bits: None }, stack: vec![] };
    // reach an arbitrary position inside zero or one slice, in either mode
    let mut ops: Vec<usize> = vec![1];
    if pre % 2 == 1 {
        ops.push(5);
    }
    if (pre / 2) % 2 == 1 {
        ops.push(3);
        ops.push(1);
    }
    match pre / 4 {
        0 => {}
        1 => ops.push(7),
        _ => ops.push(11),
    }
    let last = ops.iter().rposition(|o| *o == 1).unwrap();
    for (i, op) in ops.into_iter().enumerate() {
        unsafe { PIN = i != last || pre % 4 < 2 };
        if !step(&buf, &mut p, &mut m, op, false) {
            return;
        }
    }
    unsafe { PIN = false };
    let k = if cfg!(feature = "deep") { 3 } else { 2 };
    for i in 0..k {
        let op = if i == 0 { first } else { choose(15) };
        if !step(&buf, &mut p, &mut m, op, i + 1 == k) {
            return;
        }
    }
    cover("end");
}
/// Longer histories from the start, small concrete steps.
#[unsafe(no_mangle)]
pub extern "C" fn h_cursor_hist() {
    let o0 = choose(15);
    let buf: [u8; N] = bytes();
    let mut p = Parser::new(&buf);
    let mut m = Model { pos: Pos { byte: 0, bits: None }, stack: vec![] };
    let k = if cfg!(feature = "deep") { 6 } else { 5 };
    // a step of 1, 2 or 9 where an amount is needed
    let mut op = o0;
    for i in 0..k {
        if i > 0 {
            op = [0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14][choose(14)];
        }
        if op == 1 {
            return;
        }
        if op == 0 && i + 1 < k && choose(2) == 1 {
            // skip ahead instead of reading
            let r = p.advance_by(9usize);
            if 9 <= m.room() {
                m.pos = m.pos.plus(9);
            } else {
                chk!(r.is_err(), "advance 9 past the limit");
            }
            continue;
        }
        let r = match op {
            5 => {
                let n = [1usize, 2, 11][choose(3)];
                let ok = n <= m.room();
                let r = p.start_slice(n);
                chk!(r.is_ok() == ok, "start_slice");
                if ok {
                    m.stack.push(Ctx::Slice(m.pos.plus(n)));
                }
                ok
            }
            13 => {
                if m.pos.bits.is_some() {
                    false
                } else {
                    let n = choose(3);
                    let fwd = n >= m.pos.byte;
                    let ok = !fwd || n - m.pos.byte <= m.room();
                    let r = p.advance_or_seek(n);
                    chk!(matches!(r, Ok(x) if x == fwd) || (!ok && r.is_err()), "advance_or_seek");
                    m.stack.push(if fwd { Ctx::Peek(m.pos) } else { Ctx::Seek(m.pos) });
                    if ok {
                        m.pos.byte = n;
                    }
                    ok
                }
            }
            _ => step(&buf, &mut p, &mut m, op, false),
        };
        if !r {
            return;
        }
        chk!(same(p.get_current_offset(), &m.pos), "offset in history");
        chk!(p.remaining() == m.room(), "remaining in history");
    }
    cover("end");
}
