//! C04: decoding with locations against plain decoding, over the catalogue; locations against the input.
use crate::rt::*;
use doodle::Format;
use doodle::decoder::{Compiler, Value};
use doodle::decoder::seq_kind::SeqKind;
use doodle::loc_decoder::{ParseLoc, ParsedValue};
use doodle::read::ReadCtxt;
use sem::cat::{CASES, INNER, WRAP, case, composed};
use sem::{cv, same};

/// Formats all of whose parts are read from the one buffer (no bit mode, no re-decoded bytes).
fn one_buffer(c: &sem::cat::Case, f: &Format) -> bool {
    match f {
        Format::Bits(_) | Format::DecodeBytes(..) => false,
        _ => subs(c, f).into_iter().all(|g| one_buffer(c, g)),
    }
}
/// ... and read from left to right, none of them copied from an earlier one.
fn in_order(c: &sem::cat::Case, f: &Format) -> bool {
    match f {
        Format::Bits(_) | Format::DecodeBytes(..) | Format::Compute(_) | Format::Peek(_) | Format::WithRelativeOffset(..) | Format::Permit(..)
        | Format::WithView(..) | Format::ParseFromView(..) => false,
        _ => subs(c, f).into_iter().all(|g| in_order(c, g)),
    }
}
fn subs<'a>(c: &'a sem::cat::Case, f: &'a Format) -> Vec<&'a Format> {
    match f {
        Format::ItemVar(l, ..) => vec![c.module.get_format(*l)],
        Format::Variant(_, f) | Format::Repeat(f) | Format::Repeat1(f) | Format::RepeatCount(_, f) | Format::RepeatBetween(_, _, f)
        | Format::RepeatUntilLast(_, f) | Format::RepeatUntilSeq(_, f) | Format::AccumUntil(_, _, _, _, f) | Format::ForEach(_, _, f)
        | Format::Maybe(_, f) | Format::Slice(_, f) | Format::Map(f, _) | Format::Where(f, _) | Format::Let(_, _, f) | Format::Hint(_, f)
        | Format::LiftedOption(Some(f)) | Format::Peek(f) | Format::PeekNot(f) | Format::WithRelativeOffset(_, _, f) | Format::Permit(f, _)
        | Format::LetView(_, f) | Format::ParseFromView(_, f) | Format::Dynamic(_, _, f) => vec![f],
        Format::Union(fs) | Format::UnionNondet(fs) | Format::Tuple(fs) | Format::Sequence(fs) => fs.iter().collect(),
        Format::Match(_, bs) => bs.iter().map(|(_, f)| f).collect(),
        Format::LetFormat(f, _, g) | Format::MonadSeq(f, g) => vec![f, g],
        _ => vec![],
    }
}
fn span(l: ParseLoc) -> Option<(usize, usize)> {
    match l {
        ParseLoc::Synthesized => None,
        ParseLoc::InBuffer { offset, length } => Some((offset, length)),
    }
}
/// the span of a record is documented to be meaningful only when its fields are contiguous (checked below)
fn is_record(v: &ParsedValue) -> bool {
    match v {
        ParsedValue::Record(_) => true,
        ParsedValue::Variant(_, p) | ParsedValue::Branch(_, p) | ParsedValue::Option(Some(p)) | ParsedValue::Permit(Ok(p)) => is_record(p),
        ParsedValue::Mapped(p, q) => is_record(p) || is_record(q),
        _ => false,
    }
}
/// every location lies inside the input; a located byte is the byte at its location
fn inside(name: &str, ord: bool, v: &ParsedValue, buf: &[u8]) {
    if is_record(v) {
    } else if let Some((o, n)) = span(v.get_loc()) {
        if o > buf.len() || n > buf.len() - o {
            fail(&format!("[{name}] a location lies outside the input"));
        }
    }
    match v {
        ParsedValue::Flat(p) => {
            if let (Some((o, n)), Value::U8(b)) = (span(v.get_loc()), p.as_ref()) {
                if n == 1 && buf[o] != *b {
                    fail(&format!("[{name}] a byte is not the one at its location"));
                }
            }
        }
        // the image of a map is reported at the location of what it was computed from
        ParsedValue::Mapped(p, q) => {
            inside(name, ord, p, buf);
            if let (Some(a), Some(b)) = (span(p.get_loc()), span(q.get_loc())) {
                if a != b {
                    fail(&format!("[{name}] a mapped value is not located where its source is"));
                }
            }
        }
        ParsedValue::Variant(_, p) | ParsedValue::Branch(_, p) | ParsedValue::Option(Some(p)) | ParsedValue::Permit(Ok(p)) => inside(name, ord, p, buf),
        ParsedValue::Option(None) | ParsedValue::Permit(_) => {}
        ParsedValue::Tuple(p) => {
            cover("located tuple");
            parts(name, ord, v, p.as_ref().iter(), buf)
        }
        ParsedValue::Seq(p) => match p.as_ref() {
            SeqKind::Strict(xs) => {
                cover("located sequence");
                parts(name, ord, v, xs.iter(), buf)
            }
            SeqKind::Dup(..) => {}
        },
        ParsedValue::Record(p) => {
            // a record whose located fields follow one another spans them
            let mut at: Option<(usize, usize)> = None;
            let mut tight = true;
            for (_, f) in p.as_ref() {
                inside(name, ord, f, buf);
                if let Some((o, n)) = span(f.get_loc()) {
                    match at {
                        None => at = Some((o, o + n)),
                        Some((s, e)) if e == o => at = Some((s, o + n)),
                        _ => tight = false,
                    }
                }
            }
            if tight {
                let want = at.map(|(s, e)| (s, e - s));
                if let Some(w) = want {
                    cover("located record");
                    if span(v.get_loc()) != Some(w) {
                        fail(&format!("[{name}] a record does not span its fields"));
                    }
                }
            }
        }
    }
}
/// the located parts of a located tuple or sequence follow one another inside it
fn parts<'a>(name: &str, ord: bool, v: &ParsedValue, ps: impl Iterator<Item = &'a ParsedValue>, buf: &[u8]) {
    let at = span(v.get_loc());
    let mut end = at.map(|(o, _)| o);
    for p in ps {
        inside(name, ord, p, buf);
        if let (Some(e), Some((o, n))) = (end, span(p.get_loc())) {
            if is_record(p) {
                continue;
            }
            if ord && o < e {
                fail(&format!("[{name}] a part is located before the end of the one before it"));
            }
            end = Some(o + n);
        }
    }
    if let (true, Some((o, n)), Some(e)) = (ord, at, end) {
        if e > o + n {
            fail(&format!("[{name}] a part is located outside the whole"));
        }
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn h_located() {
    let i = choose(CASES.len());
    let short = choose(2) == 1;
    located(CASES[i].0, case(i), short, EXTRA)
}
#[unsafe(no_mangle)]
pub extern "C" fn h_located_composed() {
    let w = choose(WRAP.len());
    let i = choose(INNER.len());
    let short = choose(2) == 1;
    located(&format!("{} / {}", WRAP[w].0, INNER[i].0), composed(w, i), short, 0)
}
fn located(name: &str, c: sem::cat::Case, short: bool, extra: usize) {
    let all: [u8; 14] = bytes();
    let max = c.len + extra;
    let len = if short { choose(max) } else { max };
    let buf = &all[..len];
    let prog = nofmt(|| Compiler::compile_program(&c.module, &c.format));
    let Ok(prog) = prog else { return };
    // the reference only rules out inputs on which the format's own expressions are undefined
    let s = sem::Sem { module: &c.module, args: c.args.clone(), fuel: 40, cut: false, commit: true };
    if s.first(&c.format, &None, &sem::Inp::new(buf)).is_err() {
        assume(false);
    }
    let plain = nofmt(|| prog.run(ReadCtxt::new(buf)));
    let loc = nofmt(|| prog.run_with_loc(ReadCtxt::new(buf)));
    match (plain, loc) {
        (Ok((v, r)), Ok((p, q))) => {
            cover("accepted");
            if r.offset != q.offset {
                fail(&format!("[{name}] different lengths consumed"));
            }
            if one_buffer(&c, &c.format) {
                let ord = in_order(&c, &c.format);
                inside(name, ord, &p, buf);
                // the whole value starts at the beginning and ends where decoding stopped
                match (&p, span(p.get_loc())) {
                    (ParsedValue::Tuple(_) | ParsedValue::Seq(_) | ParsedValue::Flat(_), Some((o, n))) => {
                        cover("whole");
                        if whole(&c.format) && (o != 0 || n != r.offset) {
                            fail(&format!("[{name}] the whole value is not located where it was read"));
                        }
                    }
                    _ => {}
                }
            }
            let e: Value = p.into();
            if !same(&cv(&e), &cv(&v)) {
                fail(&format!("[{name}] different values"));
            }
        }
        (Err(_), Err(_)) => cover("rejected"),
        (Ok(_), Err(_)) => fail(&format!("[{name}] rejected only with locations")),
        (Err(_), Ok(_)) => fail(&format!("[{name}] accepted only with locations")),
    }
}
fn whole(f: &Format) -> bool {
    matches!(f, Format::Tuple(_) | Format::Sequence(_) | Format::Byte(_) | Format::Repeat(_) | Format::Repeat1(_) | Format::RepeatCount(..)
        | Format::RepeatBetween(..) | Format::RepeatUntilLast(..) | Format::RepeatUntilSeq(..) | Format::AccumUntil(..) | Format::ForEach(..))
}
#[cfg(not(feature = "deep"))]
const EXTRA: usize = 1;
#[cfg(feature = "deep")]
const EXTRA: usize = 3;
