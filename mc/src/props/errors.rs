//! C26: what a refusal reports is what is there.

use super::bytes::A_STD;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::real::*;
use crate::refm::*;
use cbored::tagged::*;
use cbored::*;

type R = Result<(), String>;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        rule: "each of 14 typed reads, 10 native decodings, 5 tagged types and 4 whole-input decodings that is refused: the types, tag numbers, counts, lengths, range, positions and UTF-8 error in the returned error equal those the model finds in the input",
        families,
        assumptions: A_STD,
    }]
}

/// why the model says a read is refused
#[derive(Debug, Clone)]
enum Why {
    /// no byte there, or not the whole header
    NoHeader,
    Reserved,
    /// the kinds asked for, the kind there
    Kind(Vec<K>, K),
    /// a chunk of another kind inside a text or byte string
    Chunk { text: bool, got: K },
    Nested { text: bool },
    Utf8(std::str::Utf8Error),
    /// a chunk, its header or a payload ends early
    Short,
    /// one of the wanted numbers, the number there
    TagNo(&'static [u64], u64),
    Count(usize, usize),
    /// refused, for a reason that is not described here
    Other,
}

fn kinds_of(op: Op) -> Vec<K> {
    use K::*;
    [Pos, Neg, Bytes, Text, Array, Map, Tag, False, True, Null, Undef, Float, Byte].into_iter().filter(|k| op.applies(*k)).collect()
}

/// None: the read succeeds
fn why(b: &[u8], pos: usize, op: Op) -> Option<Why> {
    let h = match head(b, pos) {
        Ok(h) => h,
        Err(E::Missing { .. }) => return Some(Why::NoHeader),
        Err(E::Bad) => return Some(Why::Reserved),
    };
    let k = kind(h.mt, h.ai);
    if !op.applies(k) {
        return Some(Why::Kind(kinds_of(op), k));
    }
    let text = k == K::Text;
    if matches!(k, K::Bytes | K::Text) {
        let mut p = pos + h.n;
        if !h.indef {
            return payload(b, p, h.val, text).err();
        }
        loop {
            let c = match head(b, p) {
                Ok(c) => c,
                Err(E::Missing { .. }) => return Some(Why::Short),
                Err(E::Bad) => return Some(Why::Reserved),
            };
            let ck = kind(c.mt, c.ai);
            if ck == K::Break {
                return None;
            }
            if ck != k {
                return Some(Why::Chunk { text, got: ck });
            }
            if c.indef {
                return Some(Why::Nested { text });
            }
            p = match payload(b, p + c.n, c.val, text) {
                Ok(e) => e,
                Err(w) => return Some(w),
            };
        }
    }
    match item(b, pos) {
        Ok(_) => None,
        Err(_) => Some(Why::Other),
    }
}
fn payload(b: &[u8], p: usize, n: u64, text: bool) -> Result<usize, Why> {
    if n > (b.len() - p) as u64 {
        return Err(Why::Short);
    }
    let e = p + n as usize;
    if text {
        std::str::from_utf8(&b[p..e]).map_err(Why::Utf8)?;
    }
    Ok(e)
}

fn same_kinds(want: &[K], got: &[Type]) -> bool {
    want.len() == got.len() && want.iter().all(|k| got.iter().any(|t| kind_of_type(*t) == *k))
}

fn matches(e: &ReaderError, w: &Why) -> bool {
    use ReaderError as X;
    match (w, e) {
        (Why::Other, _) => true,
        (Why::NoHeader | Why::Short, X::DataMissing(_)) => true,
        (Why::Reserved, X::LeadError(_)) => true,
        (Why::Kind(want, k), X::WrongExpectedType { expected, got }) => same_kinds(want, &[*expected]) && kind_of_type(*got) == *k,
        (Why::Kind(want, k), X::WrongExpectedTypes { expected, got }) => same_kinds(want, expected) && kind_of_type(*got) == *k,
        (Why::Chunk { text: true, got: k }, X::WrongExpectedTypeInText { got }) => kind_of_type(*got) == *k,
        (Why::Chunk { text: false, got: k }, X::WrongExpectedTypeInBytes { got }) => kind_of_type(*got) == *k,
        (Why::Nested { text: true }, X::TextChunksInTextChunks) => true,
        (Why::Nested { text: false }, X::BytesChunksInBytesChunks) => true,
        (Why::Utf8(u), X::TextUTF8Error(v)) => u == v,
        (Why::TagNo(want, no), X::WrongExpectedTag { expected, got }) => want.contains(expected) && got == no,
        (Why::TagNo(want, no), X::WrongExpectedTags { expected, got }) => *expected == *want && got == no,
        (Why::Count(n, m), X::WrongExpectedLength { expected, got }) => n == expected && m == got,
        _ => false,
    }
}

fn reads(b: &[u8], c: &mut Ctx) -> R {
    macro_rules! op {
        ($($op:ident $call:ident),*) => { $(
            let w = why(b, 0, Op::$op);
            c.execs += 1;
            match (Reader::new(b).$call(), w) {
                // whether it is refused at all is the business of C06
                (Err(e), Some(w)) => {
                    ensure!(matches(&e, &w), "{} read: the error is {:?}, found is {:?}", stringify!($call), e, w);
                    c.out(name(&w));
                }
                _ => c.out("read"),
            }
        )* };
    }
    op!(Positive positive, Negative negative, Scalar scalar, Byte byte, Float float, Constant constant, Null null, Undefined undefined, Bool bool, Bytes bytes, Text text, Array array, Map map, Tag tag);
    Ok(())
}
fn name(w: &Why) -> &'static str {
    match w {
        Why::NoHeader | Why::Short => "data missing",
        Why::Reserved => "reserved",
        Why::Kind(..) => "wrong type",
        Why::Chunk { .. } => "wrong chunk",
        Why::Nested { .. } => "chunks in chunks",
        Why::Utf8(_) => "bad text",
        Why::TagNo(..) => "wrong tag",
        Why::Count(..) => "wrong count",
        Why::Other => "other",
    }
}

fn decodes(b: &[u8], c: &mut Ctx) -> R {
    macro_rules! nat {
        ($($t:ty, $op:ident, $max:expr);*) => { $(
            c.execs += 1;
            if let Err(e) = Reader::new(b).decode::<$t>() {
                let t = stringify!($t);
                match why(b, 0, Op::$op) {
                    Some(w) => match e.error() {
                        DecodeErrorKind::ReaderError(x) => ensure!(matches(x, &w), "decoding {}: the error is {:?}, found is {:?}", t, x, w),
                        x => return Err(format!("decoding {}: the error is {:?}, found is {:?}", t, x, w)),
                    },
                    None => {
                        let max: Option<u64> = $max;
                        let n = match node(b, 0).map(|n| n.0) { Ok(Node::Pos(_, v)) => v, _ => 0 };
                        if let Some(max) = max {
                            if n > max {
                                match e.error() {
                                    DecodeErrorKind::OutOfRange { min, max: m, got } => ensure!(*min == 0 && *m == max && *got == n, "decoding {}: the error is {:?}, the number is {}", t, e.error(), n),
                                    x => return Err(format!("decoding {}: the error is {:?}, the number is {}", t, x, n)),
                                }
                                c.out("out of range");
                            }
                        }
                    }
                }
            }
        )* };
    }
    nat!(u8, Positive, Some(255); u16, Positive, Some(65535); u32, Positive, Some(0xffff_ffff); u64, Positive, None; bool, Bool, None; String, Text, None; Vec<u8>, Bytes, None; Scalar, Scalar, None);
    macro_rules! arr {
        ($($n:literal),*) => { $(
            c.execs += 1;
            if let Err(e) = Reader::new(b).decode::<[u8; $n]>() {
                match (why(b, 0, Op::Bytes), e.error()) {
                    (Some(w), DecodeErrorKind::ReaderError(x)) => ensure!(matches(x, &w), "decoding {} bytes: the error is {:?}, found is {:?}", $n, x, w),
                    (None, DecodeErrorKind::UnexpectedLength { expected, got }) => {
                        let Ok((Node::Str { chunks, .. }, _, _)) = node(b, 0) else { return Err("no byte string there".into()) };
                        let n: usize = chunks.iter().map(|c| c.1 .1 - c.1 .0).sum();
                        ensure!(*expected == $n && *got == n, "decoding {} bytes: the error is {:?}, the length is {}", $n, e.error(), n);
                        c.out("wrong length");
                    }
                    (w, x) => return Err(format!("decoding {} bytes: the error is {:?}, found is {:?}", $n, x, w)),
                }
            }
        )* };
    }
    arr!(0, 1, 2, 300);
    Ok(())
}

/// what is wrong with the tag at pos as tag of one of those numbers
fn tagged(b: &[u8], pos: usize, nos: &'static [u64]) -> Result<(u64, usize), Why> {
    if let Some(w) = why(b, pos, Op::Tag) {
        return Err(w);
    }
    match node(b, pos) {
        Ok((Node::Tag { val, item, .. }, _, _)) if nos.contains(&val) => Ok((val, item.0)),
        Ok((Node::Tag { val, .. }, _, _)) => Err(Why::TagNo(nos, val)),
        _ => Err(Why::Other),
    }
}
fn bignum(b: &[u8], pos: usize, nos: &'static [u64]) -> Option<Why> {
    match tagged(b, pos, nos) {
        Ok((_, p)) => why(b, p, Op::Bytes),
        Err(w) => Some(w),
    }
}
fn rational(b: &[u8]) -> Option<Why> {
    let p = match tagged(b, 0, &[30]) {
        Ok((_, p)) => p,
        Err(w) => return Some(w),
    };
    if let Some(w) = why(b, p, Op::Array) {
        return Some(w);
    }
    let Ok((Node::Array { items, .. }, _, _)) = node(b, p) else { return Some(Why::Other) };
    if items.len() != 2 {
        return Some(Why::Count(2, items.len()));
    }
    for (i, (s, _)) in items.iter().enumerate() {
        let h = head(b, *s).unwrap();
        let k = kind(h.mt, h.ai);
        let w = match (k, i) {
            (K::Pos, _) | (K::Neg, 0) => None,
            (K::Tag, 0) => bignum(b, *s, &[2, 3]),
            (K::Tag, _) => bignum(b, *s, &[2]),
            (_, 0) => Some(Why::Kind(vec![K::Pos, K::Neg, K::Tag], k)),
            _ => Some(Why::Kind(vec![K::Pos, K::Tag], k)),
        };
        if w.is_some() {
            return w;
        }
    }
    None
}
fn tags(b: &[u8], c: &mut Ctx) -> R {
    macro_rules! ty {
        ($t:ty, $w:expr) => {
            c.execs += 2;
            if let Some(w) = $w {
                if let Err(e) = <$t>::read(&mut Reader::new(b)) {
                    ensure!(matches(&e, &w), "{}: the error is {:?}, found is {:?}", stringify!($t), e, w);
                    c.out(name(&w));
                }
                if let Err(e) = Reader::new(b).decode::<$t>() {
                    match e.error() {
                        DecodeErrorKind::ReaderError(x) => ensure!(matches(x, &w), "{}: the error is {:?}, found is {:?}", stringify!($t), x, w),
                        x => return Err(format!("{}: the error is {:?}, found is {:?}", stringify!($t), x, w)),
                    }
                }
            }
        };
    }
    let text = match tagged(b, 0, &[0]) {
        Ok((_, p)) => why(b, p, Op::Text),
        Err(w) => Some(w),
    };
    ty!(StandardDateTime, text);
    ty!(PositiveBignum, bignum(b, 0, &[2]));
    ty!(NegativeBignum, bignum(b, 0, &[3]));
    ty!(EncodedCBOR, bignum(b, 0, &[24]));
    ty!(RationalNumber, rational(b));
    Ok(())
}

/// bytes left over after the element
fn rest(b: &[u8], c: &mut Ctx) -> R {
    let Ok(end) = item(b, 0) else { return Ok(()) };
    let left = b.len() - end;
    if left == 0 {
        return Ok(());
    }
    macro_rules! ty {
        ($($t:ty),*) => { $(
            if Reader::new(b).decode::<$t>().is_ok() {
                c.execs += 2;
                if let Err(e) = decode_from_bytes::<$t>(b) {
                    match e.error() {
                        DecodeErrorKind::ReaderError(ReaderError::NotTerminated { at, remaining_bytes, next_byte }) => {
                            ensure!(*at == end && *remaining_bytes == left && *next_byte == b[end], "the error is {:?}; {} bytes are left at {}", e.error(), left, end)
                        }
                        DecodeErrorKind::ReaderNotTerminated { remaining_bytes } => ensure!(*remaining_bytes == left, "the error is {:?}; {} bytes are left at {}", e.error(), left, end),
                        x => return Err(format!("the error is {:?}; {} bytes are left at {}", x, left, end)),
                    }
                    c.out("bytes left over");
                }
                if let Err(e) = Reader::new(b).decode_one::<$t>() {
                    match e.error() {
                        DecodeErrorKind::ReaderError(ReaderError::NotTerminated { remaining_bytes, .. }) | DecodeErrorKind::ReaderNotTerminated { remaining_bytes } => {
                            ensure!(*remaining_bytes == left, "decode_one: the error is {:?}; {} bytes are left at {}", e.error(), left, end)
                        }
                        x => return Err(format!("decode_one: the error is {:?}; {} bytes are left at {}", x, left, end)),
                    }
                }
            }
        )* };
    }
    ty!(DataOwned, u64, String, bool);
    Ok(())
}

fn c26(b: &[u8], c: &mut Ctx) -> R {
    let _ = c.model_item(b, 0);
    reads(b, c)?;
    decodes(b, c)?;
    tags(b, c)?;
    rest(b, c)
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = inputs(t, 0, c26);
    // tag numbers of every width, over each kind of content
    let contents: Vec<Vec<u8>> = ["00", "20", "4101", "5f4101ff", "5f00ff", "5f5fffff", "6161", "61ff", "7f61617f", "7f6161ff", "80", "820102", "82f602", "8201f6", "83010203", "82c10102", "82c20002", "8201c34101", "8202c24101", "82c3410102", "82c4f602", "a0", "c24101", "f6", "fb0000000000000000"]
        .iter()
        .map(|s| unhex(s))
        .collect();
    let mut cases = vec![];
    let mut nos: Vec<u64> = (0..300).collect();
    for s in 8..64 {
        for d in [0u64, 1, 2, 3, 24, 30] {
            nos.push((1 << s) + d);
        }
    }
    nos.push(u64::MAX);
    for n in &nos {
        for w in WIDTHS {
            if w.fits(*n) && (w == W::shortest(*n) || *n < 32) {
                for x in &contents {
                    let mut b = vec![];
                    put_head(&mut b, 6, w, *n);
                    b.extend_from_slice(x);
                    cases.push(b);
                }
            }
        }
    }
    v.push(list("tag-numbers", format!("{} tag numbers over {} contents", nos.len(), contents.len()), cases, c26));
    // rationals of every pair of parts and of every item count
    let mut cases = vec![];
    for x in &contents {
        for y in &contents {
            for w in [0x82u8, 0x9f] {
                let mut b = vec![0xd8, 30, w];
                b.extend_from_slice(x);
                b.extend_from_slice(y);
                if w == 0x9f {
                    b.push(0xff)
                }
                cases.push(b);
            }
        }
    }
    for n in (0..300usize).chain([65535, 65536, 65538]) {
        for indef in [false, true] {
            let mut b = vec![0xd8, 30];
            if indef {
                b.push(0x9f)
            } else {
                put_short(&mut b, 4, n as u64)
            }
            b.resize(b.len() + n, 0x01);
            if indef {
                b.push(0xff)
            }
            cases.push(b);
        }
    }
    v.push(list("rationals", "every pair of 25 parts, and 0..300 and up to 65538 items".into(), cases, c26));
    // numbers around every power of two
    let mut cases = vec![];
    for s in 0..64u32 {
        for d in [0u64, 1, u64::MAX] {
            let n = (1u64 << s).wrapping_add(d);
            for w in WIDTHS {
                if w.fits(n) {
                    for mt in 0..2 {
                        for tail in [&[][..], &[0x00], &[0xff, 0x01]] {
                            let mut b = vec![];
                            put_head(&mut b, mt, w, n);
                            b.extend_from_slice(tail);
                            cases.push(b);
                        }
                    }
                }
            }
        }
    }
    v.push(list("numbers", "positive and negative numbers around every power of two in every width, with 0 to 2 bytes after them".into(), cases, c26));
    v.push(many("leftovers", ["00", "f5", "6161", "80"].iter().map(|s| unhex(s)).collect(), ["", "ff", "f6"].iter().map(|s| unhex(s)).collect(), [&[1, 2, 3][..], MANY, MANY_MORE].concat(), rest));
    v
}
