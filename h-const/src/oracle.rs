//! An independent traversal.
use postcard_schema::schema::{DataModelType as D, DataModelVariant as V, NamedType as T};

pub const PRIMS: [(&str, D); 20] = [
    ("bool", D::Bool), ("i8", D::I8), ("u8", D::U8), ("i16", D::I16), ("i32", D::I32), ("i64", D::I64), ("i128", D::I128),
    ("u16", D::U16), ("u32", D::U32), ("u64", D::U64), ("u128", D::U128), ("usize", D::Usize), ("isize", D::Isize),
    ("f32", D::F32), ("f64", D::F64), ("char", D::Char), ("String", D::String), ("[u8]", D::ByteArray), ("()", D::Unit),
    ("Schema", D::Schema),
];

pub fn prim(d: &D) -> bool {
    PRIMS.iter().any(|p| p.1 == *d)
}

/// The oracle: every distinct non-primitive type reachable.
pub fn reach<'a>(t: &'a T, out: &mut Vec<&'a T>) {
    if prim(t.ty) || out.iter().any(|o| *o == t) {
        return;
    }
    out.push(t);
    match t.ty {
        D::Option(a) | D::NewtypeStruct(a) | D::Seq(a) => reach(a, out),
        D::Tuple(l) | D::TupleStruct(l) => l.iter().for_each(|a| reach(a, out)),
        D::Map { key, val } => {
            reach(key, out);
            reach(val, out)
        }
        D::Struct(f) => f.iter().for_each(|f| reach(f.ty, out)),
        D::Enum(vs) => {
            for v in vs.iter() {
                match v.ty {
                    V::UnitVariant => {}
                    V::NewtypeVariant(a) => reach(a, out),
                    V::TupleVariant(l) => l.iter().for_each(|a| reach(a, out)),
                    V::StructVariant(f) => f.iter().for_each(|f| reach(f.ty, out)),
                }
            }
        }
        _ => {}
    }
}

pub fn shape(t: &T) -> String {
    format!("{}", postcard_schema::schema::owned::OwnedNamedType::from(t))
}

pub fn same(what: &str, at: &dyn Fn() -> String, got: &[&T], want: &[&T]) {
    for w in want {
        let n = got.iter().filter(|g| *g == w).count();
        assert!(n == 1, "{what} of {}: {} listed {n} times", at(), shape(w));
    }
    for g in got {
        assert!(want.iter().any(|w| w == g), "{what} of {}: {} does not belong there", at(), shape(g));
    }
}
