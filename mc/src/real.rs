//! Bridges from values of the real library to the reference model.

use crate::refm::*;
use cbored::state::HeaderValue;
use cbored::*;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err(format!($($a)*));
        }
    };
}

pub fn hv(h: HeaderValue) -> (W, u64) {
    match h {
        HeaderValue::Imm(v) => (W::Imm, v as u64),
        HeaderValue::U8(v) => (W::B1, v as u64),
        HeaderValue::U16(v) => (W::B2, v as u64),
        HeaderValue::U32(v) => (W::B4, v as u64),
        HeaderValue::U64(v) => (W::B8, v),
    }
}
pub fn to_hv(w: W, v: u64) -> HeaderValue {
    match w {
        W::Imm => HeaderValue::Imm(v as u8),
        W::B1 => HeaderValue::U8(v as u8),
        W::B2 => HeaderValue::U16(v as u16),
        W::B4 => HeaderValue::U32(v as u32),
        W::B8 => HeaderValue::U64(v),
    }
}
pub fn slen(s: StructureLength) -> Option<(W, u64)> {
    match s {
        StructureLength::Indefinite => None,
        StructureLength::Definite(h) => Some(hv(h)),
    }
}
pub fn to_slen(l: Option<(W, u64)>) -> StructureLength {
    match l {
        None => StructureLength::Indefinite,
        Some((w, v)) => StructureLength::Definite(to_hv(w, v)),
    }
}

pub fn kind_of_type(t: Type) -> K {
    match t {
        Type::Positive => K::Pos,
        Type::Negative => K::Neg,
        Type::Bytes => K::Bytes,
        Type::Text => K::Text,
        Type::Array => K::Array,
        Type::Map => K::Map,
        Type::Tag => K::Tag,
        Type::False => K::False,
        Type::True => K::True,
        Type::Null => K::Null,
        Type::Undefined => K::Undef,
        Type::Float => K::Float,
        Type::Byte => K::Byte,
        Type::Break => K::Break,
    }
}

pub fn written(f: impl FnOnce(&mut Writer)) -> Vec<u8> {
    let mut w = Writer::new();
    f(&mut w);
    w.finalize()
}

pub fn float_of(f: Float) -> (W, u64) {
    match f {
        Float::FP16(v) => (W::B2, v as u64),
        Float::FP32(v) => (W::B4, v as u64),
        Float::FP64(v) => (W::B8, v),
    }
}

type R = Result<(), String>;

pub fn chk_float(f: Float, w: W, v: u64) -> R {
    ensure!(float_of(f) == (w, v), "float is {:?}, want {:?} {:x}", f, w, v);
    Ok(())
}
pub fn chk_byte(x: Byte, w: W, v: u8) -> R {
    ensure!(x.to_u8() == v, "byte value {} want {}", x.to_u8(), v);
    let e = written(|wr| wr.byte(x));
    let want = if w == W::Imm { vec![0xe0 | v] } else { vec![0xf8, v] };
    ensure!(e == want, "byte is written as {:02x?}, want {:02x?}", e, want);
    Ok(())
}
pub fn chk_bytes(b: &[u8], x: &Bytes, indef: bool, ch: &[(W, Rng)]) -> R {
    let got: Vec<(W, u64, &[u8])> = match x {
        Bytes::Imm(d) => {
            ensure!(!indef, "definite string for an indefinite one");
            vec![(hv(d.value()).0, hv(d.value()).1, d.as_slice())]
        }
        Bytes::Chunks(v) => {
            ensure!(indef, "chunks for a definite string");
            v.iter().map(|d| (hv(d.value()).0, hv(d.value()).1, d.as_slice())).collect()
        }
    };
    ensure!(got.len() == ch.len(), "{} chunks, want {}", got.len(), ch.len());
    for (i, (g, (w, (s, e)))) in got.iter().zip(ch).enumerate() {
        ensure!(g.0 == *w && g.1 == (*e - *s) as u64, "chunk {}: length header {:?} {}, want {:?} {}", i, g.0, g.1, w, e - s);
        ensure!(g.2 == &b[*s..*e], "chunk {}: content differs", i);
    }
    let total: usize = ch.iter().map(|(_, (s, e))| e - s).sum();
    ensure!(x.len() == total, "len {} want {}", x.len(), total);
    let mut all = Vec::with_capacity(total);
    for (_, (s, e)) in ch {
        all.extend_from_slice(&b[*s..*e])
    }
    ensure!(x.to_vec() == all, "to_vec differs from the payload");
    Ok(())
}
pub fn chk_text(b: &[u8], x: &Text, indef: bool, ch: &[(W, Rng)]) -> R {
    let got: Vec<(W, u64, &str)> = match x {
        Text::Imm(d) => {
            ensure!(!indef, "definite text for an indefinite one");
            vec![(hv(d.value()).0, hv(d.value()).1, d.as_str())]
        }
        Text::Chunks(v) => {
            ensure!(indef, "chunks for a definite text");
            v.iter().map(|d| (hv(d.value()).0, hv(d.value()).1, d.as_str())).collect()
        }
    };
    ensure!(got.len() == ch.len(), "{} text chunks, want {}", got.len(), ch.len());
    let strs = x.to_str_chunks();
    ensure!(strs.len() == ch.len(), "to_str_chunks has {} entries, want {}", strs.len(), ch.len());
    let mut all = Vec::new();
    for (i, (g, (w, (s, e)))) in got.iter().zip(ch).enumerate() {
        ensure!(g.0 == *w && g.1 == (*e - *s) as u64, "text chunk {}: length header {:?} {}, want {:?} {}", i, g.0, g.1, w, e - s);
        ensure!(g.2.as_bytes() == &b[*s..*e], "text chunk {}: content differs", i);
        ensure!(strs[i].as_bytes() == &b[*s..*e], "to_str_chunks[{}] differs", i);
        all.extend_from_slice(&b[*s..*e]);
    }
    ensure!(x.to_string().as_bytes() == &all[..], "to_string differs from the payload");
    Ok(())
}
pub fn chk_array(b: &[u8], x: &Array, len: Option<(W, u64)>, items: &[Rng]) -> R {
    ensure!(slen(x.struct_len()) == len, "array length style {:?}, want {:?}", slen(x.struct_len()), len);
    ensure!(x.struct_len().is_indefinite() == len.is_none(), "array says indefinite {}", x.struct_len().is_indefinite());
    ensure!(x.len() == items.len(), "array len {}, want {}", x.len(), items.len());
    for (i, (s, e)) in items.iter().enumerate() {
        ensure!(x[i].as_ref() == &b[*s..*e], "array element {}: {:02x?}, want {:02x?}", i, short(x[i].as_ref()), short(&b[*s..*e]));
    }
    Ok(())
}
pub fn chk_map(b: &[u8], x: &Map, len: Option<(W, u64)>, items: &[(Rng, Rng)]) -> R {
    ensure!(slen(x.struct_len()) == len, "map length style {:?}, want {:?}", slen(x.struct_len()), len);
    ensure!(x.struct_len().is_indefinite() == len.is_none(), "map says indefinite {}", x.struct_len().is_indefinite());
    ensure!(x.len() == items.len(), "map len {}, want {}", x.len(), items.len());
    for (i, ((s, e), (s2, e2))) in items.iter().enumerate() {
        let (k, v) = x[i];
        ensure!(k.as_ref() == &b[*s..*e], "map key {} differs", i);
        ensure!(v.as_ref() == &b[*s2..*e2], "map value {} differs", i);
    }
    Ok(())
}
pub fn chk_tag(b: &[u8], x: &Tag, w: W, val: u64, item: Rng) -> R {
    ensure!(x.value() == val && x.tag_repr().to_u64() == val, "tag number {}, want {}", x.value(), val);
    ensure!(hv(x.tag_repr().raw_value()) == (w, val), "tag header {:?}, want {:?}", hv(x.tag_repr().raw_value()), (w, val));
    ensure!(x.data().as_ref() == &b[item.0..item.1], "tag content {:02x?}, want {:02x?}", short(x.data().as_ref()), short(&b[item.0..item.1]));
    Ok(())
}
/// a reader of b that has read k elements
pub fn past<'a>(b: &'a [u8], k: usize) -> Reader<'a> {
    let mut r = Reader::new(b);
    for _ in 0..k {
        let _ = r.data();
    }
    r
}
pub fn short(b: &[u8]) -> &[u8] {
    &b[..b.len().min(40)]
}

/// does the value read stand for exactly that node?
pub fn chk_data(b: &[u8], d: &Data, n: &Node) -> R {
    match (d, n) {
        (Data::Positive(p), Node::Pos(w, v)) => {
            ensure!(hv(p.raw_value()) == (*w, *v) && p.to_u64() == *v, "positive {:?}, want {:?} {}", p, w, v);
            Ok(())
        }
        (Data::Negative(p), Node::Neg(w, v)) => {
            ensure!(hv(p.raw_value()) == (*w, *v) && p.negative_u64() == *v, "negative {:?}, want {:?} {}", p, w, v);
            Ok(())
        }
        (Data::Float(f), Node::Float(w, v)) => chk_float(*f, *w, *v),
        (Data::Byte(x), Node::Byte(w, v)) => chk_byte(*x, *w, *v),
        (Data::Bytes(x), Node::Str { text: false, indef, chunks }) => chk_bytes(b, x, *indef, chunks),
        (Data::Text(x), Node::Str { text: true, indef, chunks }) => chk_text(b, x, *indef, chunks),
        (Data::Array(x), Node::Array { len, items }) => chk_array(b, x, *len, items),
        (Data::Map(x), Node::Map { len, items }) => chk_map(b, x, *len, items),
        (Data::Tag(x), Node::Tag { w, val, item }) => chk_tag(b, x, *w, *val, *item),
        (Data::False, Node::Const(K::False)) | (Data::True, Node::Const(K::True)) | (Data::Null, Node::Const(K::Null)) | (Data::Undefined, Node::Const(K::Undef)) => Ok(()),
        _ => Err(format!("read {:?}, want {:?}", d, n)),
    }
}

/// the 14 typed reads
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Positive,
    Negative,
    Scalar,
    Byte,
    Float,
    Constant,
    Null,
    Undefined,
    Bool,
    Bytes,
    Text,
    Array,
    Map,
    Tag,
    Data,
}
pub const OPS: [Op; 15] = [
    Op::Positive,
    Op::Negative,
    Op::Scalar,
    Op::Byte,
    Op::Float,
    Op::Constant,
    Op::Null,
    Op::Undefined,
    Op::Bool,
    Op::Bytes,
    Op::Text,
    Op::Array,
    Op::Map,
    Op::Tag,
    Op::Data,
];
impl Op {
    pub fn applies(self, k: K) -> bool {
        match self {
            Op::Positive => k == K::Pos,
            Op::Negative => k == K::Neg,
            Op::Scalar => matches!(k, K::Pos | K::Neg),
            Op::Byte => k == K::Byte,
            Op::Float => k == K::Float,
            Op::Constant => matches!(k, K::False | K::True | K::Null | K::Undef),
            Op::Null => k == K::Null,
            Op::Undefined => k == K::Undef,
            Op::Bool => matches!(k, K::False | K::True),
            Op::Bytes => k == K::Bytes,
            Op::Text => k == K::Text,
            Op::Array => k == K::Array,
            Op::Map => k == K::Map,
            Op::Tag => k == K::Tag,
            Op::Data => k != K::Break,
        }
    }
}

/// perform a typed read and, when it succeeds, compare its value with the node expected
/// returns Ok(true) success, Ok(false) the read failed, Err = wrong value
pub fn do_op(b: &[u8], r: &mut Reader, op: Op, n: Option<&Node>) -> Result<bool, String> {
    macro_rules! go {
        ($e:expr, $v:ident => $chk:expr) => {
            match $e {
                Err(_) => Ok(false),
                Ok($v) => {
                    if n.is_some() {
                        $chk?;
                    }
                    Ok(true)
                }
            }
        };
    }
    let bad = |what: String| -> Result<(), String> { Err(format!("{:?} read returned {}, element is {:?}", op, what, n)) };
    match op {
        Op::Positive => go!(r.positive(), v => chk_data(b, &Data::Positive(v), n.unwrap())),
        Op::Negative => go!(r.negative(), v => chk_data(b, &Data::Negative(v), n.unwrap())),
        Op::Scalar => go!(r.scalar(), v => match (v, n.unwrap()) {
            (Scalar::Positive(p), Node::Pos(..)) => chk_data(b, &Data::Positive(p), n.unwrap())
                .and_then(|_| if v.is_positive() && !v.is_negative() && hv(v.raw_value()) == hv(p.raw_value()) { Ok(()) } else { bad(format!("{:?}", v)) }),
            (Scalar::Negative(p), Node::Neg(..)) => chk_data(b, &Data::Negative(p), n.unwrap())
                .and_then(|_| if !v.is_positive() && v.is_negative() && hv(v.raw_value()) == hv(p.raw_value()) { Ok(()) } else { bad(format!("{:?}", v)) }),
            _ => bad(format!("{:?}", v)),
        }),
        Op::Byte => go!(r.byte(), v => chk_data(b, &Data::Byte(v), n.unwrap())),
        Op::Float => go!(r.float(), v => chk_data(b, &Data::Float(v), n.unwrap())),
        Op::Constant => go!(r.constant(), v => match (v, n.unwrap()) {
            (Constant::False, Node::Const(K::False)) | (Constant::True, Node::Const(K::True)) | (Constant::Null, Node::Const(K::Null)) | (Constant::Undefined, Node::Const(K::Undef)) => Ok(()),
            _ => bad(format!("{:?}", v)),
        }),
        Op::Null => go!(r.null(), _v => if *n.unwrap() == Node::Const(K::Null) { Ok(()) } else { bad("null".into()) }),
        Op::Undefined => go!(r.undefined(), _v => if *n.unwrap() == Node::Const(K::Undef) { Ok(()) } else { bad("undefined".into()) }),
        Op::Bool => go!(r.bool(), v => if *n.unwrap() == Node::Const(if v { K::True } else { K::False }) { Ok(()) } else { bad(format!("{}", v)) }),
        Op::Bytes => go!(r.bytes(), v => chk_data(b, &Data::Bytes(v), n.unwrap())),
        Op::Text => go!(r.text(), v => chk_data(b, &Data::Text(v), n.unwrap())),
        Op::Array => go!(r.array(), v => chk_data(b, &Data::Array(v), n.unwrap())),
        Op::Map => go!(r.map(), v => chk_data(b, &Data::Map(v), n.unwrap())),
        Op::Tag => go!(r.tag(), v => chk_data(b, &Data::Tag(v), n.unwrap())),
        Op::Data => go!(r.data(), v => chk_data(b, &v, n.unwrap())),
    }
}
