//! C12: every decoded value belongs to the type inferred for its format, over the catalogue.
use crate::rt::*;
use doodle::decoder::{Compiler, Value};
use doodle::decoder::seq_kind::SeqKind;
use doodle::read::ReadCtxt;
use doodle::{BaseType, ValueType, typecheck};
use sem::cat::{CASES, INNER, WRAP, case, composed};

fn of(v: &Value, t: &ValueType) -> bool {
    match (v, t) {
        (Value::Mapped(_, v) | Value::Branch(_, v) | Value::Permit(Ok(v) | Err(Some(v))), t) => of(v, t),
        (_, ValueType::Any) => true,
        (Value::Bool(_), ValueType::Base(BaseType::Bool)) => true,
        (Value::U8(_), ValueType::Base(BaseType::U8)) => true,
        (Value::U16(_), ValueType::Base(BaseType::U16)) => true,
        (Value::U32(_), ValueType::Base(BaseType::U32)) => true,
        (Value::U64(_), ValueType::Base(BaseType::U64)) => true,
        (Value::Char(_), ValueType::Base(BaseType::Char)) => true,
        // an enumeration's elements are held in the widest representation
        (Value::Usize(_), ValueType::Base(BaseType::U8 | BaseType::U16 | BaseType::U32 | BaseType::U64)) => true,
        (Value::Tuple(vs), ValueType::Tuple(ts)) => vs.len() == ts.len() && vs.iter().zip(ts).all(|(v, t)| of(v, t)),
        (Value::Record(fs), ValueType::Record(ts)) => {
            fs.len() == ts.len() && fs.iter().zip(ts).all(|((l, v), (m, t))| l == m && of(v, t))
        }
        (Value::Variant(l, v), ValueType::Union(m)) => match m.get(l) {
            Some(t) => of(v, t),
            None => false,
        },
        (Value::Seq(SeqKind::Strict(vs)), ValueType::Seq(t)) => vs.iter().all(|v| of(v, t)),
        (Value::Seq(SeqKind::Dup(n, v)), ValueType::Seq(t)) => *n == 0 || of(v, t),
        (Value::EnumFromTo(r), ValueType::Seq(t)) => r.start >= r.end || matches!(**t, ValueType::Base(BaseType::U8 | BaseType::U16 | BaseType::U32 | BaseType::U64)),
        (Value::Option(None), ValueType::Option(_)) => true,
        (Value::Option(Some(v)), ValueType::Option(t)) => of(v, t),
        (Value::PhantomData, ValueType::PhantomData(_)) => true,
        (Value::View { .. }, ValueType::ViewObj) => true,
        (Value::U8(_) | Value::U16(_) | Value::U32(_) | Value::U64(_) | Value::Usize(_), ValueType::NumericHole) => true,
        (Value::Numeric(_), ValueType::NumericHole | ValueType::Signed(_) | ValueType::Base(_)) => true,
        _ => false,
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn h_typed() {
    let i = choose(CASES.len());
    typed(CASES[i].0, case(i), EXTRA)
}
#[unsafe(no_mangle)]
pub extern "C" fn h_typed_composed() {
    let w = choose(WRAP.len());
    let i = choose(INNER.len());
    typed(&format!("{} / {}", WRAP[w].0, INNER[i].0), composed(w, i), 0)
}
fn typed(name: &str, c: sem::cat::Case, extra: usize) {
    let all: [u8; 14] = bytes();
    let buf = &all[..c.len + extra];
    let prog = nofmt(|| Compiler::compile_program(&c.module, &c.format));
    let Ok(prog) = prog else { return };
    // the reference only rules out inputs on which the format's own expressions are undefined
    let s = sem::Sem { module: &c.module, args: c.args.clone(), fuel: 40, cut: false, commit: true };
    if s.first(&c.format, &None, &sem::Inp::new(buf)).is_err() {
        assume(false);
    }
    let Ok((v, _)) = nofmt(|| prog.run(ReadCtxt::new(buf))) else { return };
    cover("value");
    if !of(&v, &prog.decoders[0].1) {
        fail(&format!("[{name}] the value is not of the type inferred by the interpreter's compiler"));
    }
    if let Ok(Some(t)) = nofmt(|| typecheck(&c.module, &c.format)) {
        cover("typechecked");
        if !of(&v, &t) {
            fail(&format!("[{name}] the value is not of the type the type checker infers"));
        }
    }
}
#[cfg(not(feature = "deep"))]
const EXTRA: usize = 1;
#[cfg(feature = "deep")]
const EXTRA: usize = 3;

fn bx(t: ValueType) -> Box<ValueType> { Box::new(t) }
const U8T: ValueType = ValueType::Base(BaseType::U8);
fn union_of(v: Vec<(&'static str, ValueType)>) -> ValueType { ValueType::Union(v.into_iter().map(|(l, t)| (l.into(), t)).collect()) }
fn atom() -> ValueType {
    match choose(7) {
        0 => U8T,
        1 => ValueType::Base(BaseType::U16),
        2 => ValueType::Any,
        3 => union_of(vec![("X", U8T)]),
        4 => union_of(vec![("Y", ValueType::Base(BaseType::Bool))]),
        5 => ValueType::Seq(bx(U8T)),
        _ => ValueType::NumericHole,
    }
}
fn ty() -> ValueType {
    match choose(11) {
        0 => atom(),
        1 => ValueType::Tuple(vec![atom()]),
        2 => ValueType::Tuple(vec![U8T, atom()]),
        3 => ValueType::Record(vec![("p".into(), atom())]),
        4 => ValueType::Record(vec![("q".into(), atom()), ("p".into(), U8T)]),
        5 => union_of(vec![("A", atom())]),
        6 => union_of(vec![("A", atom()), ("B", U8T)]),
        7 => union_of(vec![("B", atom())]),
        8 => ValueType::Seq(bx(atom())),
        9 => ValueType::Option(bx(atom())),
        _ => ValueType::PhantomData(bx(atom())),
    }
}
/// an arbitrary value of the type, if it is fully known
fn inhabitant(t: &ValueType) -> Option<Value> {
    Some(match t {
        ValueType::Base(BaseType::Bool) => Value::Bool(any_bool()),
        ValueType::Base(BaseType::U8) => Value::U8(any_u8()),
        ValueType::Base(BaseType::U16) => Value::U16(any_u16()),
        ValueType::Tuple(ts) => Value::Tuple(ts.iter().map(inhabitant).collect::<Option<_>>()?),
        ValueType::Record(fs) => Value::Record(fs.iter().map(|(l, t)| Some((l.clone(), inhabitant(t)?))).collect::<Option<_>>()?),
        ValueType::Union(m) => {
            let (l, t) = m.iter().nth(choose(m.len()))?;
            Value::Variant(l.clone(), Box::new(inhabitant(t)?))
        }
        ValueType::Seq(t) => match choose(2) {
            0 => Value::Seq(SeqKind::Strict(vec![inhabitant(t)?, inhabitant(t)?])),
            _ => Value::Seq(SeqKind::Strict(vec![])),
        },
        ValueType::Option(t) => Value::Option(match choose(2) {
            0 => Some(Box::new(inhabitant(t)?)),
            _ => None,
        }),
        ValueType::PhantomData(_) => Value::PhantomData,
        _ => return None,
    })
}
/// unifying the types of two alternatives gives a type that the values of either belong to
#[unsafe(no_mangle)]
pub extern "C" fn h_unify() {
    let (a, b) = (ty(), ty());
    let Ok(u) = nofmt(|| a.unify(&b)) else {
        cover("no common type");
        return;
    };
    let Some(v) = inhabitant(if choose(2) == 0 { &a } else { &b }) else { return };
    cover("unified");
    if !of(&v, &u) {
        fail("a value of one of two types does not belong to the type they unify to");
    }
}
