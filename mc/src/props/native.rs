//! C13, C14, C23 (lists): native values, typed exact data, error contexts.

use super::bytes::{VecOf, A_STD};
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::real::*;
use crate::refm::*;
use cbored::validate::Validator;
use cbored::*;
use std::borrow::Borrow;
use std::fmt::Debug;

type R = Result<(), String>;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C13", rule: "for every enumerated input and each of 22 native types: every decoding entry point succeeds iff the reference model reads a value of that type from it, with the model's value; every enumerated value is written with the shortest definite encoding and read back", families: c13_fams, assumptions: A_STD },
        Prop { id: "C14", rule: "for every enumerated input and each of 14 types: typed exact data is obtainable iff the reference model decodes the whole as that type, and every sequence of up to n conversions (clone, borrow and own, untype and retype, write and reread alone, in an array, in a tag) keeps bytes and value", families: c14_fams, assumptions: A_STD },
        Prop { id: "C23", rule: "for every enumerated input and each of 9 (nested) list types: the integer entries of the error context are exactly the model's index path of the first undecodable element, innermost first, the path form lists all entries outermost first, the cause equals the error of decoding the innermost element alone; every sequence of up to n context pushes is kept in order", families: c23_fams, assumptions: &["the record part (field names) is decided by the derive explorer, in the same check"] },
    ]
}

/// A type whose decoding the reference model predicts
pub trait Nat: Decode {
    type V: PartialEq + Debug;
    fn v(&self) -> Self::V;
    /// value and end position of the value of that type at pos
    fn model(b: &[u8], pos: usize) -> Option<(Self::V, usize)>;
    /// when it does not decode: the path of list indices to the first undecodable element, that element's
    /// range, and the debug form of the error kind it gives when decoded alone
    fn fail(b: &[u8], pos: usize) -> (Vec<usize>, String) {
        (vec![], kind_of(Self::decode(&mut Reader::new(&b[pos..])).map(|_| ())))
    }
}
fn kind_of(r: Result<(), DecodeError>) -> String {
    match r {
        Ok(()) => "decodes".into(),
        Err(e) => format!("{:?}", e.error()),
    }
}

macro_rules! uint {
    ($t:ty) => {
        impl Nat for $t {
            type V = $t;
            fn v(&self) -> $t {
                *self
            }
            fn model(b: &[u8], pos: usize) -> Option<($t, usize)> {
                match node(b, pos) {
                    Ok((Node::Pos(_, v), _, e)) if v <= <$t>::MAX as u64 => Some((v as $t, e)),
                    _ => None,
                }
            }
        }
    };
}
uint!(u8);
uint!(u16);
uint!(u32);
uint!(u64);
impl Nat for bool {
    type V = bool;
    fn v(&self) -> bool {
        *self
    }
    fn model(b: &[u8], pos: usize) -> Option<(bool, usize)> {
        match node(b, pos) {
            Ok((Node::Const(K::True), _, e)) => Some((true, e)),
            Ok((Node::Const(K::False), _, e)) => Some((false, e)),
            _ => None,
        }
    }
}
fn payload(b: &[u8], pos: usize, want_text: bool) -> Option<(Vec<u8>, usize)> {
    match node(b, pos) {
        Ok((n, _, e)) => {
            let ok = readable(b, &n);
            match n {
                Node::Str { text, chunks, .. } if text == want_text && ok => {
                    let mut v = vec![];
                    for (_, (s, e)) in chunks {
                        v.extend_from_slice(&b[s..e])
                    }
                    Some((v, e))
                }
                _ => None,
            }
        }
        _ => None,
    }
}
impl Nat for String {
    type V = Vec<u8>;
    fn v(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
    fn model(b: &[u8], pos: usize) -> Option<(Vec<u8>, usize)> {
        payload(b, pos, true)
    }
}
impl Nat for Vec<u8> {
    type V = Vec<u8>;
    fn v(&self) -> Vec<u8> {
        self.clone()
    }
    fn model(b: &[u8], pos: usize) -> Option<(Vec<u8>, usize)> {
        payload(b, pos, false)
    }
}
impl<const N: usize> Nat for [u8; N] {
    type V = Vec<u8>;
    fn v(&self) -> Vec<u8> {
        self.to_vec()
    }
    fn model(b: &[u8], pos: usize) -> Option<(Vec<u8>, usize)> {
        payload(b, pos, false).filter(|(v, _)| v.len() == N)
    }
}
impl Nat for Scalar {
    type V = (bool, W, u64);
    fn v(&self) -> Self::V {
        let (w, v) = hv(self.raw_value());
        (self.is_negative(), w, v)
    }
    fn model(b: &[u8], pos: usize) -> Option<(Self::V, usize)> {
        match node(b, pos) {
            Ok((Node::Pos(w, v), _, e)) => Some(((false, w, v), e)),
            Ok((Node::Neg(w, v), _, e)) => Some(((true, w, v), e)),
            _ => None,
        }
    }
}
impl Nat for DataOwned {
    type V = Vec<u8>;
    fn v(&self) -> Vec<u8> {
        encode_to_bytes(self)
    }
    fn model(b: &[u8], pos: usize) -> Option<(Vec<u8>, usize)> {
        match node(b, pos) {
            Ok((n, _, e)) if readable(b, &n) => Some((b[pos..e].to_vec(), e)),
            _ => None,
        }
    }
}
impl<T: Nat> Nat for CborDataOf<T> {
    type V = (Vec<u8>, T::V);
    fn v(&self) -> Self::V {
        (self.as_ref().to_vec(), self.unserialize().v())
    }
    fn model(b: &[u8], pos: usize) -> Option<(Self::V, usize)> {
        let e = item(b, pos).ok()?;
        match T::model(&b[..e], pos) {
            Some((v, e2)) if e2 == e => Some(((b[pos..e].to_vec(), v), e)),
            _ => None,
        }
    }
}
impl<T: Nat> Nat for VecOf<T> {
    type V = Vec<T::V>;
    fn v(&self) -> Self::V {
        self.0.iter().map(|x| x.v()).collect()
    }
    fn model(b: &[u8], pos: usize) -> Option<(Self::V, usize)> {
        match node(b, pos) {
            Ok((Node::Array { items, .. }, _, e)) => {
                let mut v = vec![];
                for (s, e) in items {
                    v.push(T::model(&b[..e], s)?.0)
                }
                Some((v, e))
            }
            _ => None,
        }
    }
    fn fail(b: &[u8], pos: usize) -> (Vec<usize>, String) {
        match node(b, pos) {
            Ok((Node::Array { items, .. }, _, _)) => {
                for (i, (s, e)) in items.into_iter().enumerate() {
                    if T::model(&b[..e], s).is_none() {
                        let (mut p, m) = T::fail(&b[..e], s);
                        p.insert(0, i);
                        return (p, m);
                    }
                }
                (vec![], "decodes".into())
            }
            _ => (vec![], kind_of(Reader::new(&b[pos..]).array().map(|_| ()).map_err(|e| DecodeErrorKind::ReaderError(e).context_str("x")))),
        }
    }
}
/// consumes two elements
#[derive(Clone, PartialEq, Debug)]
pub struct Two(u8, u8);
impl Decode for Two {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        Ok(Two(r.decode()?, r.decode()?))
    }
}
impl Encode for Two {
    fn encode(&self, w: &mut Writer) {
        w.encode(&self.0);
        w.encode(&self.1);
    }
}
impl Nat for Two {
    type V = (u8, u8);
    fn v(&self) -> (u8, u8) {
        (self.0, self.1)
    }
    fn model(b: &[u8], pos: usize) -> Option<((u8, u8), usize)> {
        let (x, e) = u8::model(b, pos)?;
        let (y, e) = u8::model(b, e)?;
        Some(((x, y), e))
    }
}
/// consumes nothing
#[derive(Clone, PartialEq, Debug)]
pub struct Nothing;
impl Decode for Nothing {
    fn decode<'a>(_: &mut Reader<'a>) -> Result<Self, DecodeError> {
        Ok(Nothing)
    }
}
impl Encode for Nothing {
    fn encode(&self, _: &mut Writer) {}
}
impl Nat for Nothing {
    type V = ();
    fn v(&self) {}
    fn model(_: &[u8], pos: usize) -> Option<((), usize)> {
        Some(((), pos))
    }
}
impl<T: Encode> Encode for VecOf<T> {
    fn encode(&self, w: &mut Writer) {
        encode_vec(&self.0, w)
    }
}

// ------------------------------------------------------------------ C13

fn name<T>() -> &'static str {
    std::any::type_name::<T>()
}

fn dec<T: Nat>(b: &[u8], end: Option<usize>, c: &mut Ctx) -> R {
    let m = T::model(b, 0);
    let whole = matches!(&m, Some((_, e)) if *e == b.len());
    fn same<T: Nat>(how: &str, got: Result<T, DecodeError>, want: Option<&T::V>) -> R {
        match (got, want) {
            (Ok(g), Some(w)) => {
                let g = g.v();
                ensure!(g == *w, "{} gives {:?} for {}, want {:?}", how, g, name::<T>(), w);
                Ok(())
            }
            (Err(_), None) => Ok(()),
            (Ok(g), None) => Err(format!("{} gives {} {:?} for something else", how, name::<T>(), g.v())),
            (Err(e), Some(w)) => Err(format!("{} fails for {} {:?}: {:?}", how, name::<T>(), w, e)),
        }
    }
    let val = m.as_ref().map(|(v, _)| v);
    let val_whole = if whole { val } else { None };
    same("decode_from_bytes", decode_from_bytes::<T>(b), val_whole)?;
    let mut r = Reader::new(b);
    same("Reader::decode", r.decode::<T>(), val)?;
    if let Some((_, e)) = &m {
        ensure!(r.consumed_bytes() == *e, "Reader::decode of {} consumes {}, want {}", name::<T>(), r.consumed_bytes(), e);
    }
    same("Reader::decode_one", Reader::new(b).decode_one::<T>(), val_whole)?;
    c.execs += 3;
    if end == Some(b.len()) {
        let (s, _) = Validator::new(b).next().map_err(|e| format!("well-formed element is not validated: {:?}", e))?;
        same("CborSlice::decode", s.decode::<T>(), val_whole)?;
        let d = s.to_owned();
        same("CborData::decode", d.decode::<T>(), val_whole)?;
        c.execs += 2;
    } else if b.len() <= 8 {
        let d = Writer::new_from_vec(b.to_vec()).finalize_data();
        same("CborData::decode", d.decode::<T>(), val_whole)?;
        c.execs += 1;
    }
    c.out(if whole {
        "value"
    } else if m.is_some() {
        "value and more"
    } else {
        "error"
    });
    Ok(())
}

fn c13(b: &[u8], c: &mut Ctx) -> R {
    let m = c.model_item(b, 0).ok();
    macro_rules! all {
        ($($t:ty),* $(,)?) => { $( dec::<$t>(b, m, c)?; )* };
    }
    all!(
        bool, u8, u16, u32, u64, String, Vec<u8>, [u8; 0], [u8; 1], [u8; 2], [u8; 3], [u8; 24], [u8; 32], [u8; 256], Scalar, DataOwned, CborDataOf<u64>, VecOf<u8>,
        VecOf<String>, VecOf<Vec<u8>>, VecOf<VecOf<u64>>, VecOf<CborDataOf<DataOwned>>
    );
    Ok(())
}

/// written as expected, and reads back
fn rt<T: Nat>(how: &str, got: &[u8], want: &[u8], v: &T::V) -> R {
    ensure!(got == want, "{} of {} writes {:02x?}, shortest definite encoding is {:02x?}", how, name::<T>(), short(got), short(want));
    let x = decode_from_bytes::<T>(got).map_err(|e| format!("{} written by {} does not decode: {:?}", name::<T>(), how, e))?;
    ensure!(x.v() == *v, "{} reads back as {:?}", name::<T>(), x.v());
    Ok(())
}
fn v_rt<T: Nat + Encode>(x: &T, want: &[u8]) -> R {
    rt::<T>("encode_to_bytes", &encode_to_bytes(x), want, &x.v())?;
    rt::<T>("Writer::encode", &written(|w| w.encode(x)), want, &x.v())
}

/// case: 8 bytes, an integer
fn c13_int(case: &[u8], c: &mut Ctx) -> R {
    let mut a = [0u8; 8];
    a.copy_from_slice(case);
    let v = u64::from_be_bytes(a);
    c.state(13 << 56 ^ v);
    c.trans += 1;
    let mut want = vec![];
    put_short(&mut want, 0, v);
    v_rt(&v, &want)?;
    let mut n = 1;
    if v <= u8::MAX as u64 {
        v_rt(&(v as u8), &want)?;
        n += 1;
    }
    if v <= u16::MAX as u64 {
        v_rt(&(v as u16), &want)?;
        n += 1;
    }
    if v <= u32::MAX as u64 {
        v_rt(&(v as u32), &want)?;
        n += 1;
    }
    v_rt(&Scalar::canonical_positive(v), &want)?;
    let mut neg = vec![];
    put_short(&mut neg, 1, v);
    v_rt(&Scalar::canonical_negative(v), &neg)?;
    // every width of the value decodes into each type it fits, and errors in the others
    for w in WIDTHS {
        if w.fits(v) {
            let mut b = vec![];
            put_head(&mut b, 0, w, v);
            let e = Some(b.len());
            dec::<u8>(&b, e, c)?;
            dec::<u16>(&b, e, c)?;
            dec::<u32>(&b, e, c)?;
            dec::<u64>(&b, e, c)?;
            dec::<Scalar>(&b, e, c)?;
            let mut l = vec![0x82, 0x00];
            l.extend_from_slice(&b);
            dec::<VecOf<u8>>(&l, Some(l.len()), c)?;
            dec::<VecOf<u16>>(&l, Some(l.len()), c)?;
            dec::<VecOf<u32>>(&l, Some(l.len()), c)?;
        }
    }
    c.execs += n + 2;
    Ok(())
}

/// case: kind, 3 bytes n
fn c13_size(case: &[u8], c: &mut Ctx) -> R {
    let n = (case[1] as usize) << 16 | (case[2] as usize) << 8 | case[3] as usize;
    c.state_bytes(1313, case);
    c.trans += n as u64;
    c.execs += 2;
    match case[0] {
        0 => {
            let x: Vec<u8> = (0..n).map(|i| (i * 7) as u8).collect();
            let mut want = vec![];
            put_short(&mut want, 2, n as u64);
            want.extend_from_slice(&x);
            v_rt(&x, &want)?;
            rt::<Vec<u8>>("encode of [u8]", &written(|w| w.encode(&x[..])), &want, &x)?;
            macro_rules! arr {
                ($($k:literal)*) => { $( if n == $k {
                    let mut a = [0u8; $k];
                    a.copy_from_slice(&x);
                    v_rt(&a, &want)?;
                } else if n < 40 || n % 64 < 2 {
                    ensure!(decode_from_bytes::<[u8; $k]>(&want).is_err(), "{} bytes decode as [u8; {}]", n, $k);
                } )* };
            }
            arr!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 48 63 64 65 96 127 128 129 255 256 257 512 1000 65535 65536);
            c.out("bytes");
        }
        1 => {
            // text mixing 1..4-byte characters
            let mut s = String::new();
            const CH: [char; 6] = ['a', '\u{0}', 'é', '€', '\u{10ffff}', '\u{7f}'];
            let mut i = 0;
            while s.len() < n {
                let ch = CH[i % 6];
                if s.len() + ch.len_utf8() <= n {
                    s.push(ch)
                } else {
                    s.push('z')
                }
                i += 1;
            }
            let mut want = vec![];
            put_short(&mut want, 3, s.len() as u64);
            want.extend_from_slice(s.as_bytes());
            v_rt(&s, &want)?;
            rt::<String>("encode of str", &written(|w| w.encode(s.as_str())), &want, &s.as_bytes().to_vec())?;
            c.out("text");
        }
        2 => {
            let x: Vec<u64> = (0..n as u64).map(|i| i * i).collect();
            let mut want = vec![];
            put_short(&mut want, 4, n as u64);
            for i in &x {
                put_short(&mut want, 0, *i)
            }
            v_rt(&VecOf(x.clone()), &want)?;
            // other length styles of the same list
            for st in [Some(W::B1), Some(W::B2), Some(W::B4), Some(W::B8), None] {
                let mut b = vec![];
                match st {
                    Some(w) if w.fits(n as u64) => put_head(&mut b, 4, w, n as u64),
                    Some(_) => continue,
                    None => b.push(0x9f),
                }
                for i in &x {
                    put_head(&mut b, 0, W::B8, *i)
                }
                if st.is_none() {
                    b.push(0xff)
                }
                let y = decode_from_bytes::<VecOf<u64>>(&b).map_err(|e| format!("list of {} in style {:?} does not decode: {:?}", n, st, e))?;
                ensure!(y.0 == x, "list of {} in style {:?} decodes differently", n, st);
            }
            c.out("list");
        }
        3 => {
            let x = VecOf((0..n).map(|i| VecOf((0..i % 4).map(|j| vec![j as u8; i % 3]).collect::<Vec<Vec<u8>>>())).collect::<Vec<_>>());
            let mut want = vec![];
            put_short(&mut want, 4, n as u64);
            for i in 0..n {
                put_short(&mut want, 4, (i % 4) as u64);
                for j in 0..i % 4 {
                    put_short(&mut want, 2, (i % 3) as u64);
                    want.extend(std::iter::repeat(j as u8).take(i % 3));
                }
            }
            v_rt(&x, &want)?;
            c.out("nested list");
        }
        _ => {
            let x = n % 2 == 1;
            v_rt(&x, &[0xf4 | x as u8])?;
            let l: Vec<bool> = (0..n).map(|i| i % 3 == 0).collect();
            let mut want = vec![];
            put_short(&mut want, 4, n as u64);
            want.extend(l.iter().map(|b| 0xf4 | *b as u8));
            v_rt(&VecOf(l), &want)?;
            c.out("booleans");
        }
    }
    Ok(())
}

pub fn int_values(check: CheckFn, lim: u64, span: u64) -> Vec<Family> {
    vec![
        fam(
            "values-low",
            format!("every value 0..{}", lim),
            256,
            Box::new(move |u, f| {
                let n = lim / 256;
                for x in u as u64 * n..(u as u64 + 1) * n {
                    f(&x.to_be_bytes())
                }
            }),
            check,
        ),
        fam(
            "values-around-powers",
            format!("2^k + d for k in 0..=64, |d| <= {}", span),
            65,
            Box::new(move |u, f| {
                let p: u128 = 1u128 << u;
                for d in 0..=2 * span {
                    let x = p as i128 + d as i128 - span as i128;
                    if (0..1i128 << 64).contains(&x) {
                        f(&(x as u64).to_be_bytes())
                    }
                }
            }),
            check,
        ),
    ]
}

fn c13_fams(t: Tier) -> Vec<Family> {
    let th = t == Tier::Thorough;
    let mut v = inputs(t, th as usize, c13);
    v.extend(int_values(c13_int, t.pick(1 << 17, 1 << 21), t.pick(300, 2000)));
    let mut ns: Vec<usize> = (0..=300).collect();
    ns.extend_from_slice(&[511, 512, 513, 1000, 1023, 1024, 4096, 65534, 65535, 65536, 65537]);
    if th {
        ns.extend(301..2500);
        ns.extend_from_slice(&[100_000, 1 << 20]);
    }
    let cases = (0..5u8).flat_map(|k| ns.iter().map(move |n| vec![k, (n >> 16) as u8, (n >> 8) as u8, *n as u8])).collect();
    v.push(list("sizes-of-values", "byte vectors, texts, lists, nested lists, booleans of each size".into(), cases, c13_size));
    v
}

// ------------------------------------------------------------------ C14

fn chain<T: Nat + Encode>(x: CborDataOf<T>, b: &[u8], v: &T::V, left: usize, single: bool, path: &mut Vec<&'static str>, c: &mut Ctx) -> R {
    c.execs += 1;
    ensure!(x.as_ref() == b, "after {:?} the bytes are {:02x?}, want {:02x?}", path, short(x.as_ref()), short(b));
    ensure!(x.unserialize().v() == *v, "after {:?} {} unserializes to {:?}, want {:?}", path, name::<T>(), x.unserialize().v(), v);
    if left == 0 {
        return Ok(());
    }
    for op in 0..if single { 8 } else { 4 } {
        let nm = ["clone", "borrow+own", "untype+retype", "slice untype+retype+own", "write+exact", "array element", "tag content", "slice write+exact"][op];
        path.push(nm);
        c.trans += 1;
        let fail = |e: DecodeError| format!("{:?} of {} fails: {:?}", nm, name::<T>(), e);
        let y: CborDataOf<T> = match op {
            0 => x.clone(),
            1 => {
                let s: &CborSliceOf<T> = x.borrow();
                s.to_owned()
            }
            2 => {
                let d = x.clone().untype();
                ensure!(d.as_ref() == b, "untyped bytes differ");
                d.validate_as::<T>().map_err(fail)?
            }
            3 => {
                let s: &CborSliceOf<T> = x.borrow();
                let s = s.untype();
                ensure!(s.as_ref() == b, "untyped slice differs");
                s.validate_as::<T>().map_err(fail)?.to_owned()
            }
            4 => {
                let e = encode_to_bytes(&x);
                ensure!(e == b, "encoded as {:02x?}", short(&e));
                decode_from_bytes::<CborDataOf<T>>(&e).map_err(fail)?
            }
            5 => {
                let e = written(|w| {
                    w.array_build(StructureLength::Indefinite, |w| {
                        w.encode(&1u8);
                        w.encode(&x);
                        let s: &CborSliceOf<T> = x.borrow();
                        w.encode(s);
                    })
                });
                let mut want = vec![0x9f, 0x01];
                want.extend_from_slice(b);
                want.extend_from_slice(b);
                want.push(0xff);
                ensure!(e == want, "written inside an array as {:02x?}", short(&e));
                let mut r = Reader::new(&e);
                let a = r.array().map_err(|e| format!("{:?}", e))?;
                let y = a[1].reader().decode::<CborDataOf<T>>().map_err(fail)?;
                let z = a[2].validate_as::<T>().map_err(fail)?;
                let yb: &CborSliceOf<T> = y.borrow();
                ensure!(z.untype() == yb.untype(), "array elements differ");
                y
            }
            6 => {
                let e = written(|w| w.tag_build(TagValue::from_u64(24), |w| w.encode(&x)));
                let mut want = vec![0xd8, 24];
                want.extend_from_slice(b);
                ensure!(e == want, "written inside a tag as {:02x?}", short(&e));
                let mut r = Reader::new(&e);
                let t = r.tag().map_err(|e| format!("{:?}", e))?;
                t.decode_data::<CborDataOf<T>>().map_err(fail)?
            }
            _ => {
                let s: &CborSliceOf<T> = x.borrow();
                let mut w = Writer::new();
                w.encode(s);
                w.encode(&0u8);
                let e = w.finalize();
                let mut r = Reader::new(&e);
                let s = r.exact_decodable_slice::<T>().map_err(fail)?;
                ensure!(s.untype().as_ref() == b, "exact slice of the written slice differs");
                r.decode_one::<u8>().map_err(fail)?;
                s.to_owned()
            }
        };
        chain(y, b, v, left - 1, single, path, c)?;
        path.pop();
    }
    Ok(())
}

fn typed<T: Nat + Encode>(b: &[u8], end: Option<usize>, depth: usize, c: &mut Ctx) -> R {
    let m = T::model(b, 0);
    let whole = matches!(&m, Some((_, e)) if *e == b.len());
    let n = name::<T>();
    let mut got: Vec<CborDataOf<T>> = vec![];
    // from unchecked or checked owned data
    let d = Writer::new_from_vec(b.to_vec()).finalize_data();
    match d.validate_as::<T>() {
        Ok(x) => {
            ensure!(whole, "CborData::validate_as accepts {:02x?} as {}", short(b), n);
            got.push(x)
        }
        Err(e) => ensure!(!whole, "CborData::validate_as refuses {:02x?} as {}: {:?}", short(b), n, e),
    }
    c.execs += 1;
    // from a validated slice
    if let Some(e) = end {
        let me = T::model(&b[..e], 0);
        let ok = matches!(&me, Some((_, x)) if *x == e);
        let (s, _) = Validator::new(b).next().map_err(|e| format!("well-formed element is not validated: {:?}", e))?;
        match s.validate_as::<T>() {
            Ok(x) => {
                ensure!(ok, "CborSlice::validate_as accepts {:02x?} as {}", short(&b[..e]), n);
                ensure!(x.untype().as_ref() == &b[..e], "typed slice differs from the bytes");
                if whole {
                    got.push(x.to_owned())
                }
            }
            Err(e) => ensure!(!ok, "CborSlice::validate_as refuses {}: {:?}", n, e),
        }
        let mut r = Reader::new(b);
        match r.exact_decodable_slice::<T>() {
            Ok(x) => {
                ensure!(ok, "exact_decodable_slice accepts {:02x?} as {}", short(&b[..e]), n);
                ensure!(x.untype().as_ref() == &b[..e] && r.consumed_bytes() == e, "exact slice differs from the bytes");
            }
            Err(e) => ensure!(!ok, "exact_decodable_slice refuses {}: {:?}", n, e),
        }
        let mut r = Reader::new(b);
        match r.exact_decodable_data::<T>() {
            Ok(x) => {
                ensure!(ok, "exact_decodable_data accepts {:02x?} as {}", short(&b[..e]), n);
                ensure!(x.as_ref() == &b[..e] && r.consumed_bytes() == e, "exact data differs from the bytes");
                ensure!(x.unserialize().v() == me.unwrap().0, "exact data unserializes to another value");
            }
            Err(e) => ensure!(!ok, "exact_decodable_data refuses {}: {:?}", n, e),
        }
        match decode_from_bytes::<CborDataOf<T>>(b) {
            Ok(x) => {
                ensure!(ok && e == b.len(), "decoding exact data accepts {:02x?} as {}", short(b), n);
                got.push(x)
            }
            Err(x) => ensure!(!(ok && e == b.len()), "decoding exact data refuses {}: {:?}", n, x),
        }
        c.execs += 4;
    } else {
        ensure!(Reader::new(b).exact_decodable_slice::<T>().is_err(), "exact slice of something that is no element");
        ensure!(Reader::new(b).exact_decodable_data::<T>().is_err(), "exact data of something that is no element");
        c.execs += 2;
    }
    if whole {
        c.out("typed");
        let v = m.unwrap().0;
        let single = end == Some(b.len());
        // from the value itself: the canonical bytes
        let x = decode_from_bytes::<T>(b).map_err(|e| format!("{:?}", e))?;
        let canon = encode_to_bytes(&x);
        let from = CborDataOf::from(&x);
        chain::<T>(from, &canon, &v, depth.min(1), item(&canon, 0) == Ok(canon.len()), &mut vec!["from value"], c)?;
        for (i, x) in got.into_iter().enumerate() {
            chain::<T>(x, b, &v, if i == 0 { depth } else { depth.min(1) }, single, &mut vec!["obtained"], c)?;
        }
    } else {
        c.out("refused");
    }
    Ok(())
}

fn c14_depth(b: &[u8], depth: usize, c: &mut Ctx) -> R {
    let e = c.model_item(b, 0).ok();
    macro_rules! all {
        ($($t:ty),* $(,)?) => { $( typed::<$t>(b, e, depth, c)?; )* };
    }
    all!(u8, u16, u64, bool, String, Vec<u8>, [u8; 1], Scalar, DataOwned, VecOf<u8>, VecOf<VecOf<DataOwned>>, CborDataOf<u8>, Two, Nothing);
    Ok(())
}
fn c14(b: &[u8], c: &mut Ctx) -> R {
    c14_depth(b, if b.len() < 4096 { 1 } else { 0 }, c)
}
fn c14_deep(b: &[u8], c: &mut Ctx) -> R {
    c14_depth(b, 3, c)
}
fn c14_deeper(b: &[u8], c: &mut Ctx) -> R {
    c14_depth(b, 5, c)
}
fn c14_fams(t: Tier) -> Vec<Family> {
    let mut v = inputs(t, 0, c14);
    v.push(trees("conversions-3", small_shape, t.pick(2, 3), c14_deep));
    v.push(trees("conversions-3-wide", wide_shape, t.pick(1, 2), c14_deep));
    v.push(sequences("streams", Trees::new(wide_shape(), 1).all(), 2, c14));
    if t == Tier::Thorough {
        v.push(trees("conversions-5", wide_shape, 1, c14_deeper));
    }
    v
}

// ------------------------------------------------------------------ C23

fn path_ok(e: &DecodeError) -> R {
    let ctx: Vec<String> = e.context().iter().map(|s| s.to_string()).collect();
    let path = e.context_as_path();
    let mut at = 0;
    for s in ctx.iter().rev() {
        match path[at..].find(s.as_str()) {
            Some(i) => at += i + s.len(),
            None => return Err(format!("path form {:?} does not list {:?} from outermost to innermost", path, ctx)),
        }
    }
    Ok(())
}

fn ctx_of<T: Nat>(b: &[u8], c: &mut Ctx) -> R {
    if T::model(b, 0).is_some() {
        c.out("decodes");
        return Ok(());
    }
    let e = match Reader::new(b).decode::<T>() {
        Ok(_) => return Err(format!("decodes as {}", name::<T>())),
        Err(e) => e,
    };
    let (want, cause) = T::fail(b, 0);
    let got: Vec<usize> = e.context().iter().rev().filter_map(|s| s.parse().ok()).collect();
    c.execs += 1;
    ensure!(got == want, "{}: context {:?} names indices {:?}, the first undecodable element is at {:?}", name::<T>(), e.context(), got, want);
    path_ok(&e)?;
    // in the path form an index stands inside the list it counts in, directly after it
    let segs: Vec<&str> = e.context().iter().rev().map(|s| s.as_ref()).collect();
    for (i, s) in segs.iter().enumerate() {
        if s.parse::<usize>().is_ok() {
            ensure!(i > 0 && segs[i - 1].parse::<usize>().is_err(), "{}: context path {:?} has an index that no list precedes", name::<T>(), e.context_as_path());
        }
    }
    ensure!(format!("{:?}", e.error()) == cause, "{}: cause is {:?}, decoding the element alone gives {}", name::<T>(), e.error(), cause);
    c.out(match want.len() {
        0 => "fails outside a list",
        1 => "fails at an index",
        2 => "fails at a nested index",
        _ => "fails deeper",
    });
    Ok(())
}
fn c23(b: &[u8], c: &mut Ctx) -> R {
    let _ = c.model_item(b, 0);
    macro_rules! all {
        ($($t:ty),* $(,)?) => { $( ctx_of::<$t>(b, c)?; )* };
    }
    all!(
        VecOf<u8>, VecOf<u64>, VecOf<bool>, VecOf<String>, VecOf<Vec<u8>>, VecOf<[u8; 1]>, VecOf<DataOwned>, VecOf<VecOf<u8>>, VecOf<VecOf<VecOf<bool>>>
    );
    Ok(())
}

/// case: sequence of context operations
fn c23_push(case: &[u8], c: &mut Ctx) -> R {
    let kind = || DecodeErrorKind::OutOfRange { min: 1, max: 2, got: 77 };
    let (mut e, first) = match case[0] {
        0 => (DecodeError::new::<u8>(kind()), "u8".to_string()),
        1 => (DecodeError::new_str("lit", kind()), "lit".to_string()),
        2 => (DecodeError::new_string("own".into(), kind()), "own".to_string()),
        3 => (kind().context::<u64>(), "u64".to_string()),
        4 => (kind().context_str("ctx"), "ctx".to_string()),
        _ => return Ok(()),
    };
    let mut want = vec![first];
    for (i, op) in case[1..].iter().enumerate() {
        match op % 5 {
            0 => {
                e = e.push::<bool>();
                want.push("bool".into());
            }
            1 => {
                e = e.push_str("a");
                want.push("a".into());
            }
            2 => {
                e = e.push_string(format!("{}", i));
                want.push(format!("{}", i));
            }
            3 => {
                e = e.push_str("b");
                want.push("b".into());
            }
            _ => e = e.clone(),
        }
        c.trans += 1;
        c.execs += 1;
        if case.len() > 300 && i + 2 != case.len() {
            continue;
        }
        let got: Vec<String> = e.context().iter().map(|s| s.to_string()).collect();
        ensure!(got == want, "context is {:?}, want {:?}", got, want);
        path_ok(&e)?;
        ensure!(format!("{:?}", e.error()) == format!("{:?}", kind()), "cause changed to {:?}", e.error());
    }
    c.state_bytes(23, case);
    c.out("pushes");
    Ok(())
}

fn c23_fams(t: Tier) -> Vec<Family> {
    let th = t == Tier::Thorough;
    let mut v = vec![
        all_bytes(t.pick(2, 3), c23),
        trees("trees", small_shape, t.pick(4, 5), c23),
        trees("trees-wide", wide_shape, 2 + th as usize, c23),
        trees("trees-deep", tiny_shape, 6 + th as usize, c23),
        mutants("mutants", small_shape, 2 + th as usize, true, c23),
        lying(c23),
    ];
    // lists of elements, good and bad
    let els: Vec<Vec<u8>> = ["00", "1903e8", "f5", "6161", "4101", "40", "80", "8100", "81f4", "8180", "8181f4", "8181f400", "9f00f5ff", "61ff", "f6"]
        .iter()
        .filter(|s| **s != "8181f400")
        .map(|s| unhex(s))
        .collect();
    let k = els.len();
    let depth = t.pick(4, 5);
    v.push(fam(
        "lists",
        format!("every list of <= {} of {} elements x 3 length styles", depth, k),
        k * 3 + 1,
        Box::new(move |u, f| {
            fn rec(els: &[Vec<u8>], items: &mut Vec<u8>, n: usize, left: usize, st: usize, f: &mut dyn FnMut(&[u8])) {
                let mut b = vec![];
                match st {
                    0 => put_short(&mut b, 4, n as u64),
                    1 => put_head(&mut b, 4, W::B2, n as u64),
                    _ => b.push(0x9f),
                }
                b.extend_from_slice(items);
                if st == 2 {
                    b.push(0xff)
                }
                f(&b);
                if n > 0 {
                    // nested one more level, after a list that decodes
                    let mut w = vec![0x82, 0x80];
                    w.extend_from_slice(&b);
                    f(&w);
                }
                if left > 0 {
                    for e in els {
                        let l = items.len();
                        items.extend_from_slice(e);
                        rec(els, items, n + 1, left - 1, st, f);
                        items.truncate(l);
                    }
                }
            }
            if u == k * 3 {
                return f(&[0x80]);
            }
            let mut items = els[u / 3].clone();
            rec(&els, &mut items, 1, depth - 1, u % 3, f)
        }),
        c23,
    ));
    // one bad element at every index of long lists
    let mut cases = vec![];
    for n in [1usize, 2, 9, 10, 11, 23, 24, 25, 99, 100, 101, 255, 256, 257, 300] {
        for bad in 0..n {
            for (good, wrong) in [(0x05u8, 0xf6u8), (0xf4, 0x00), (0x80, 0x01), (0x60, 0x40)] {
                let mut b = vec![];
                put_short(&mut b, 4, n as u64);
                for i in 0..n {
                    b.push(if i == bad { wrong } else { good })
                }
                cases.push(b.clone());
                if bad % 7 == 3 {
                    // a second bad element later
                    let l = b.len();
                    b[l - 1] = wrong;
                    cases.push(b);
                }
            }
        }
    }
    for n in [1000usize, 65536, 70000] {
        for bad in [0, n / 2, n - 1] {
            let mut b = vec![];
            put_short(&mut b, 4, n as u64);
            for i in 0..n {
                b.push(if i == bad { 0xf6 } else { 0x01 })
            }
            cases.push(b);
        }
    }
    v.push(list("long-lists", "one undecodable element at every index of lists of 1..=300 elements and some longer".into(), cases, c23));
    let d = t.pick(6, 8);
    v.push(fam(
        "context-pushes",
        format!("every sequence of <= {} context operations", d),
        25,
        Box::new(move |u, f| {
            fn rec(b: &mut Vec<u8>, left: usize, f: &mut dyn FnMut(&[u8])) {
                if left == 0 {
                    return f(b);
                }
                for o in 0..5 {
                    b.push(o);
                    rec(b, left - 1, f);
                    b.pop();
                }
            }
            rec(&mut vec![(u / 5) as u8, (u % 5) as u8], d - 2, f)
        }),
        c23_push,
    ));
    // long histories; only the end is compared
    let mut cases = vec![];
    for first in 0..5u8 {
        for pat in [&[0u8][..], &[1], &[2], &[1, 2], &[2, 4], &[0, 1, 2, 3, 4]] {
            for n in (7..300).chain([1000, 65535, 65536, 70000]) {
                if n > 300 && pat.contains(&4) {
                    continue; // a clone copies them all
                }
                let mut b = vec![first];
                b.extend(pat.iter().cycle().take(n));
                cases.push(b);
            }
        }
    }
    v.push(list("many-pushes", "6 patterns of context operations 7 to 300 and up to 70000 times".into(), cases, c23_push));
    v
}
