//! Bridge between the generated declarations and dynamic values.

use crate::schema::Val;
use cbored::{CborDataOf, DataOwned, Decode, DecodeErrorKind, Encode, Reader, Scalar};

pub trait Dv {
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Self;
}

/// what decoding gave: the value and the bytes consumed, or the context (innermost first), the path form, the
/// printed error and the printed cause
pub type Dec = Result<(Val, usize), DecErr>;
pub struct DecErr {
    pub context: Vec<String>,
    pub path: String,
    pub display: String,
    pub kind: String,
    pub error: DecodeErrorKind,
}

pub fn enc<T: Dv + Encode>(v: &Val) -> Vec<u8> {
    mc::real::written(|w| w.encode(&T::from_val(v)))
}
pub fn dec<T: Dv + Decode>(b: &[u8]) -> Dec {
    let mut r = Reader::new(b);
    match r.decode::<T>() {
        Ok(t) => Ok((t.to_val(), r.consumed_bytes())),
        Err(e) => Err(DecErr {
            context: e.context().iter().map(|c| c.to_string()).collect(),
            path: e.context_as_path(),
            display: e.to_string(),
            kind: format!("{:?}", e.error()),
            error: e.error().clone(),
        }),
    }
}
/// the cause given by decoding that element alone as that type
pub fn alone<T: Decode>(b: &[u8]) -> Option<String> {
    Reader::new(b).decode_one::<T>().err().map(|e| format!("{:?}", e.error()))
}

macro_rules! uint {
    ($($to:ident $from:ident $t:ty),*) => { $(
        pub fn $to(x: &$t) -> Val { Val::U(*x as u64) }
        pub fn $from(v: &Val) -> $t { match v { Val::U(x) => *x as $t, _ => panic!("value of another type") } }
    )* };
}
uint!(to_u8 from_u8 u8, to_u16 from_u16 u16, to_u32 from_u32 u32, to_u64 from_u64 u64);
pub fn to_bool(x: &bool) -> Val {
    Val::Bool(*x)
}
pub fn from_bool(v: &Val) -> bool {
    matches!(v, Val::Bool(true))
}
pub fn to_str(x: &String) -> Val {
    Val::Str(x.as_bytes().to_vec())
}
pub fn from_str(v: &Val) -> String {
    match v {
        Val::Str(x) => String::from_utf8(x.clone()).unwrap(),
        _ => panic!("value of another type"),
    }
}
pub fn to_bytes(x: &Vec<u8>) -> Val {
    Val::Bytes(x.clone())
}
pub fn from_bytes(v: &Val) -> Vec<u8> {
    match v {
        Val::Bytes(x) => x.clone(),
        _ => panic!("value of another type"),
    }
}
pub fn to_arr2(x: &[u8; 2]) -> Val {
    Val::Bytes(x.to_vec())
}
pub fn from_arr2(v: &Val) -> [u8; 2] {
    from_bytes(v).try_into().unwrap()
}
fn raw(v: &Val) -> &[u8] {
    match v {
        Val::Raw(x) => x,
        _ => panic!("value of another type"),
    }
}
pub fn to_scalar(x: &Scalar) -> Val {
    Val::Raw(mc::real::written(|w| w.scalar(*x)))
}
pub fn from_scalar(v: &Val) -> Scalar {
    Reader::new(raw(v)).scalar().unwrap()
}
pub fn to_data(x: &DataOwned) -> Val {
    Val::Raw(mc::real::written(|w| w.encode(x)))
}
pub fn from_data(v: &Val) -> DataOwned {
    Reader::new(raw(v)).data().unwrap().owned()
}
pub fn to_ofu64(x: &CborDataOf<u64>) -> Val {
    Val::Raw(mc::real::written(|w| w.encode(x)))
}
pub fn from_ofu64(v: &Val) -> CborDataOf<u64> {
    Reader::new(raw(v)).exact_decodable_data().unwrap()
}

pub fn field(v: &Val, i: usize) -> &Val {
    opt(v, i).expect("a field")
}
pub fn opt(v: &Val, i: usize) -> Option<&Val> {
    match v {
        Val::Rec(f) => f[i].as_ref(),
        _ => panic!("value of another type"),
    }
}
pub fn items(v: &Val) -> &[Val] {
    match v {
        Val::List(f) => f,
        _ => panic!("value of another type"),
    }
}
pub fn variant(v: &Val) -> usize {
    match v {
        Val::Var(i, _) => *i,
        _ => panic!("value of another type"),
    }
}
pub fn sub(v: &Val, i: usize) -> &Val {
    match v {
        Val::Var(_, f) => &f[i],
        _ => panic!("value of another type"),
    }
}
