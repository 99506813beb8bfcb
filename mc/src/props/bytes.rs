//! C01-C07, C10, C11, C21, C24: what reading arbitrary bytes may do.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::real::*;
use crate::refm::*;
use cbored::validate::{ValidateError, Validator};
use cbored::*;

type R = Result<(), String>;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", rule: "for every enumerated input: read generically, write back (borrowed, owned, typed, rebuilt level by level) and compare with the consumed bytes", families: c01_fams, assumptions: A_STD },
        Prop { id: "C02", rule: "for every enumerated input: Validator::next accepts iff the RFC 8949 appendix C reference recogniser does, same length, same bytes; every slice handed out by up to 4 further calls (300 after long streams) is one well-formed element", families: c02_fams, assumptions: A_STD },
        Prop { id: "C03", rule: "for every enumerated input: Reader::data succeeds iff the reference model says the element is well-formed (and its chunks UTF-8), consumes exactly it, and hands out exactly the model's elements", families: |t| inputs(t, 2, c03), assumptions: A_STD },
        Prop { id: "C04", rule: "every reading, validating, decoding entry point on every enumerated input, with overflow checks and debug assertions on; a panic, abort, stack overflow or a case running more than 60 s is a violation", families: c04_fams, assumptions: &["the code is built with overflow checks and debug assertions, which a release build may not have", "worker threads have the default 2 MiB stack"] },
        Prop { id: "C05", rule: "peak of live heap bytes during each call, measured by a counting global allocator, is at most 256 bytes per input byte + 8 KiB", families: c05_fams, assumptions: &["bound: 256 bytes per input byte + 8 KiB; what the code uses today is far below it"] },
        Prop { id: "C06", rule: "each of 15 reads, then each of 15 reads on the same reader, compared with the model: value and position, or failure without movement when type/header do not apply", families: c06_fams, assumptions: A_STD },
        Prop { id: "C07", rule: "every prefix the model classifies as incomplete must give DataMissing with 0 < expecting - got <= the fewest bytes that can complete it; a complete element reads the same whatever follows", families: c07_fams, assumptions: A_STD },
        Prop { id: "C10", rule: "content, length and chunks of every string read (borrowed and owned), text accepted iff every chunk is UTF-8 by an independent RFC 3629 recogniser; strings built from memory have the shortest definite header", families: c10_fams, assumptions: A_STD },
        Prop { id: "C11", rule: "every accessor of arrays, maps and tags, borrowed and owned, compared with the element ranges computed by the reference model", families: c11_fams, assumptions: A_STD },
        Prop { id: "C21", rule: "owned().borrow() and borrow().owned() are the identity, same encoding, same accessors, after the input buffer was overwritten and freed", families: |t| inputs(t, 1, c21), assumptions: A_STD },
        Prop { id: "C24", rule: "all pairs of elements of the tree set: equality of the values read (borrowed, owned, slices) iff equality of bytes", families: c24_fams, assumptions: A_STD },
    ]
}

pub const A_STD: &[&str] = &["the reference model is RFC 8949 appendix C with the two-byte simple value form accepted for every payload (documented leniency)"];

/// the check at the start of the input, and at up to three further elements of the stream it may be
fn elements(b: &[u8], c: &mut Ctx, f: fn(&[u8], usize, usize, &mut Ctx) -> R) -> R {
    let mut pos = 0;
    for k in 0..4 {
        f(b, k, pos, c).map_err(|m| if k == 0 { m } else { format!("element {} at {}: {}", k, pos, m) })?;
        match node(b, pos) {
            Ok((n, _, e)) if e < b.len() && readable(b, &n) => pos = e,
            _ => break,
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C01

/// rebuild the element at the reader level by level from what it hands out
fn rebuild(src: &[u8], w: &mut Writer, depth: usize) -> Result<(), String> {
    let mut r = Reader::new(src);
    // elements handed out raw stay raw when they cannot be read any further (text that is not UTF-8)
    // or are too deep for the harness' own recursion
    let d = match r.data() {
        Ok(d) if depth < 40 => d,
        _ => {
            let mut v = Validator::new(src);
            let (s, _) = v.next().map_err(|e| format!("element handed out does not validate: {:?}", e))?;
            w.encode(s);
            return Ok(());
        }
    };
    if !r.is_finished() {
        return Err(format!("element handed out leaves {} bytes", r.remaining_bytes()));
    }
    let mut err = None;
    match &d {
        Data::Array(a) => w.array_build(a.struct_len(), |w| {
            for i in 0..a.len() {
                if let Err(e) = rebuild(a[i].as_ref(), w, depth + 1) {
                    err = Some(e)
                }
            }
        }),
        Data::Map(m) => w.map_build(m.struct_len(), |w| {
            for i in 0..m.len() {
                let (k, v) = m[i];
                for x in [k, v] {
                    if let Err(e) = rebuild(x.as_ref(), w, depth + 1) {
                        err = Some(e)
                    }
                }
            }
        }),
        Data::Tag(t) => w.tag_build(t.tag_repr(), |w| {
            if let Err(e) = rebuild(t.data().as_ref(), w, depth + 1) {
                err = Some(e)
            }
        }),
        Data::Positive(v) => w.scalar(Scalar::Positive(*v)),
        Data::Negative(v) => w.scalar(Scalar::Negative(*v)),
        Data::Float(v) => w.float(*v),
        Data::Byte(v) => w.byte(*v),
        Data::Bytes(v) => w.bytes(v),
        Data::Text(v) => w.text(v),
        Data::True => w.constant(Constant::True),
        Data::False => w.bool(false),
        Data::Null => w.constant(Constant::Null),
        Data::Undefined => w.constant(Constant::Undefined),
    }
    match err {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

fn c01(b: &[u8], c: &mut Ctx) -> R {
    elements(b, c, c01_at)
}
fn c01_at(b: &[u8], k: usize, pos: usize, c: &mut Ctx) -> R {
    let m = c.model_item(b, pos);
    let mut r = past(b, k);
    c.execs += 1;
    let d = match r.data() {
        Ok(d) => d,
        Err(_) => {
            c.out(if m.is_ok() { "not readable" } else { "rejected" });
            return Ok(());
        }
    };
    c.out("round trip");
    let n = r.consumed_bytes();
    ensure!(n > pos, "nothing consumed");
    let want = &b[pos..n];
    let cmp = |what: &str, got: &[u8]| -> R {
        ensure!(got == want, "{}: wrote {:02x?} for {:02x?} ({} and {} bytes)", what, short(got), short(want), got.len(), want.len());
        Ok(())
    };
    cmp("Writer::data", &written(|w| w.data(&d)))?;
    cmp("encode Data", &encode_to_bytes(&d))?;
    let o = d.owned();
    cmp("encode DataOwned", &encode_to_bytes(&o))?;
    // the typed form of the same element, through its own Encode and Writer method
    let mut r2 = past(b, k);
    let typed: (Vec<u8>, Vec<u8>) = match &d {
        Data::Positive(_) => {
            let x = r2.positive().map_err(dbg)?;
            (encode_to_bytes(&x), written(|w| w.positive(x)))
        }
        Data::Negative(_) => {
            let x = r2.negative().map_err(dbg)?;
            (encode_to_bytes(&x), written(|w| w.negative(x)))
        }
        Data::Float(_) => {
            let x = r2.float().map_err(dbg)?;
            (encode_to_bytes(&x), written(|w| w.float(x)))
        }
        Data::Byte(_) => {
            let x = r2.byte().map_err(dbg)?;
            (encode_to_bytes(&x), written(|w| w.byte(x)))
        }
        Data::Bytes(_) => {
            let x = r2.bytes().map_err(dbg)?;
            (encode_to_bytes(&x), encode_to_bytes(&x.owned()))
        }
        Data::Text(_) => {
            let x = r2.text().map_err(dbg)?;
            (encode_to_bytes(&x), written(|w| w.text(&x.owned().borrow())))
        }
        Data::Array(_) => {
            let x = r2.array().map_err(dbg)?;
            (encode_to_bytes(&x), written(|w| w.array(&x.owned().borrow())))
        }
        Data::Map(_) => {
            let x = r2.map().map_err(dbg)?;
            (encode_to_bytes(&x), written(|w| w.map(&x.owned().borrow())))
        }
        Data::Tag(_) => {
            let x = r2.tag().map_err(dbg)?;
            (encode_to_bytes(&x), written(|w| w.tag(&x.owned().borrow())))
        }
        _ => {
            let x = r2.constant().map_err(dbg)?;
            (encode_to_bytes(&x), written(|w| w.constant(x)))
        }
    };
    cmp("typed encode", &typed.0)?;
    cmp("typed write", &typed.1)?;
    ensure!(r2.consumed_bytes() == n, "typed read consumed {}, generic {}", r2.consumed_bytes(), n);
    if let Data::Positive(_) | Data::Negative(_) = &d {
        let x = past(b, k).scalar().map_err(dbg)?;
        cmp("scalar", &encode_to_bytes(&x))?;
    }
    let mut w = Writer::new();
    rebuild(want, &mut w, 0)?;
    cmp("rebuild", &w.finalize())?;
    c.execs += 5;
    Ok(())
}
fn dbg<E: std::fmt::Debug>(e: E) -> String {
    format!("typed read fails where the generic one succeeds: {:?}", e)
}
fn c01_fams(t: Tier) -> Vec<Family> {
    let mut v = inputs(t, 1, c01);
    v.push(header_args(c01));
    v
}

/// header argument bytes: every major type and width with every boundary argument and some content
pub fn header_args(check: CheckFn) -> Family {
    let gen: Gen = Box::new(move |u, f| {
        let mt = (u / 4) as u8;
        let w = [W::B1, W::B2, W::B4, W::B8][u % 4];
        let n = w.extra();
        // argument bytes: all combinations of a few values per byte (all 256 for one byte, all pairs for two)
        let vals: &[u8] = match n {
            1 | 2 => &[],
            4 => &[0x00, 0x01, 0x17, 0x18, 0x7f, 0x80, 0xfe, 0xff],
            _ => &[0x00, 0x01, 0x80, 0xff],
        };
        let total: usize = if n <= 2 { 1 << (8 * n) } else { vals.len().pow(n as u32) };
        for i in 0..total {
            let mut b = vec![mt << 5 | (23 + [0, 1, 2, 0, 3, 0, 0, 0, 4][n]) as u8];
            let mut k = i;
            for j in 0..n {
                if n <= 2 {
                    b.push((i >> (8 * (n - 1 - j))) as u8);
                } else {
                    b.push(vals[k % vals.len()]);
                    k /= vals.len();
                }
            }
            if mt == 6 {
                b.push(0xf6);
            }
            f(&b);
            b.push(0x00);
            f(&b);
        }
    });
    fam(
        "header-arguments",
        "8 major types x 4 widths x argument bytes: all 2^8 and 2^16, 8^4 and 4^8 combinations".into(),
        32,
        gen,
        check,
    )
}

// ------------------------------------------------------------------ C02

fn c02(b: &[u8], c: &mut Ctx) -> R {
    let m = c.model_item(b, 0);
    let mut v = Validator::new(b);
    c.execs += 1;
    ensure!(v.remaining_bytes() == b.len(), "remaining_bytes {} before anything was read", v.remaining_bytes());
    let mut ok_run = true;
    match (v.next(), m) {
        (Ok((s, n)), Ok(end)) => {
            c.out("accepted");
            ensure!(n == end, "accepted with length {}, the element has {} bytes", n, end);
            ensure!(s.as_ref() == &b[..end], "slice handed out is not the element");
            ensure!(v.remaining_bytes() == b.len() - end, "remaining_bytes {} want {}", v.remaining_bytes(), b.len() - end);
        }
        (Err(_), Err(_)) => {
            ok_run = false;
            c.out("rejected");
        }
        (Ok((_, n)), Err(e)) => return Err(format!("accepts {} bytes that are not well-formed ({:?})", n, e)),
        (Err(x), Ok(end)) => return Err(format!("rejects a well-formed element of {} bytes: {:?}", end, x)),
    }
    // later calls, also after an error
    for call in 1..=4 {
        let before = v.remaining_bytes();
        let pos = b.len() - before;
        let r = v.next();
        let after = v.remaining_bytes();
        ensure!(after <= before, "call {}: remaining bytes grow", call);
        match r {
            Ok((s, n)) => {
                let s = s.as_ref();
                ensure!(s.len() == n, "call {}: slice of {} bytes with length {}", call, s.len(), n);
                ensure!(item(s, 0) == Ok(s.len()), "call {}: slice handed out is not one well-formed element: {:02x?}", call, short(s));
                ensure!(&b[pos..pos + n] == s && before - after == n, "call {}: slice is not the bytes passed over", call);
                if ok_run {
                    c.execs += 1;
                }
            }
            Err(_) => {
                if ok_run {
                    ensure!(item(b, pos).is_err(), "call {}: rejects a well-formed element at {}", call, pos);
                }
                ok_run = false;
            }
        }
        if after == 0 && before == 0 {
            break;
        }
    }
    Ok(())
}

/// one validator over a whole stream, and again past its end
fn c02_stream(b: &[u8], c: &mut Ctx) -> R {
    let mut v = Validator::new(b);
    let mut pos = 0;
    let mut n = 0usize;
    loop {
        let m = c.model_item(b, pos);
        c.execs += 1;
        match (v.next(), m) {
            (Ok((s, l)), Ok(e)) => {
                ensure!(s.as_ref() == &b[pos..e] && l == e - pos, "element {} at {} differs", n, pos);
                ensure!(v.remaining_bytes() == b.len() - e, "remaining_bytes {} want {}", v.remaining_bytes(), b.len() - e);
                pos = e;
                n += 1;
            }
            (Err(_), Err(_)) => break,
            (x, m) => return Err(format!("element {} at {}: {:?}, model {:?}", n, pos, x.map(|x| x.1), m)),
        }
    }
    for _ in 0..300 {
        let p = b.len() - v.remaining_bytes();
        if let Ok((s, l)) = v.next() {
            ensure!(s.as_ref().len() == l && item(s.as_ref(), 0) == Ok(l) && b[p..].starts_with(s.as_ref()), "after a failure a slice handed out is not one well-formed element");
        }
        ensure!(b.len() - v.remaining_bytes() >= p, "remaining bytes grow");
    }
    c.out(if pos == b.len() { "whole stream" } else { "up to a bad element" });
    Ok(())
}
fn c02_fams(t: Tier) -> Vec<Family> {
    let mut v = inputs(t, 2, c02);
    let els = ["00", "1903e8", "f4", "f820", "4101", "5f4101ff", "7f6161ff", "820102", "9f00ff", "bf0000ff", "a10020", "c1f6"].iter().map(|s| unhex(s)).collect();
    let tails = ["", "00", "ff", "1c", "5f00ff", "9f", "81", "7f4161ff", "bf00ff", "c1ff", "f8", "62c3"].iter().map(|s| unhex(s)).collect();
    v.push(many("many", els, tails, [&[0, 1, 2, 3, 4][..], MANY, MANY_MORE].concat(), c02_stream));
    v
}

// ------------------------------------------------------------------ C03

struct Anything;
impl Decode for Anything {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        r.data().map(|_| Anything).map_err(|e| DecodeErrorKind::ReaderError(e).context::<Self>())
    }
}

fn c03(b: &[u8], c: &mut Ctx) -> R {
    elements(b, c, c03_at)
}
fn c03_at(b: &[u8], k: usize, pos: usize, c: &mut Ctx) -> R {
    let _ = c.model_item(b, pos);
    let m = node(b, pos);
    let ok = match &m {
        Ok((n, _, _)) => readable(b, n),
        Err(_) => false,
    };
    let mut r = past(b, k);
    c.execs += 1;
    match r.data() {
        Ok(d) => {
            ensure!(ok, "reads {:02x?} which is not a readable element: {:?}", short(&b[pos..r.consumed_bytes()]), m.err());
            let (n, hdr, end) = m.as_ref().unwrap();
            ensure!(r.consumed_bytes() == *end, "consumed {}, the element has {} bytes", r.consumed_bytes(), end);
            chk_data(b, &d, n)?;
            // elements handed out are each one well-formed element, and tile the content
            let inner;
            let parts: Option<(Vec<&[u8]>, bool)> = match &d {
                Data::Array(a) => Some(((0..a.len()).map(|i| a[i].as_ref()).collect(), a.struct_len().is_indefinite())),
                Data::Map(a) => Some(((0..a.len()).flat_map(|i| [a[i].0.as_ref(), a[i].1.as_ref()]).collect(), a.struct_len().is_indefinite())),
                Data::Tag(t) => {
                    inner = t.data();
                    Some((vec![inner.as_ref()], false))
                }
                _ => None,
            };
            if let Some((parts, indef)) = parts {
                let mut at = pos + *hdr;
                for p in &parts {
                    ensure!(item(p, 0) == Ok(p.len()), "element handed out is not one well-formed element: {:02x?}", short(p));
                    ensure!(b[at..].starts_with(p), "elements do not tile the content");
                    at += p.len();
                }
                ensure!(at + indef as usize == *end, "elements end at {}, the container at {}", at, end);
                c.out("container");
            } else {
                c.out("leaf");
            }
        }
        Err(e) => {
            ensure!(!ok, "refuses a readable element: {:?}", e);
            c.out(if m.is_ok() { "invalid text" } else { "rejected" });
        }
    }
    // exact slices
    let mut r = past(b, k);
    c.execs += 1;
    match r.exact_decodable_slice::<Anything>() {
        Ok(s) => {
            ensure!(ok, "exact slice of something that is not a readable element");
            let end = m.as_ref().unwrap().2;
            ensure!(r.consumed_bytes() == end && s.untype().as_ref() == &b[pos..end], "exact slice differs from the element");
        }
        Err(e) => ensure!(!ok, "no exact slice of a readable element: {:?}", e),
    }
    let mut r = past(b, k);
    match r.exact_decodable_data::<Anything>() {
        Ok(s) => {
            let s: &[u8] = s.as_ref();
            ensure!(ok, "exact data of something that is not a readable element");
            let end = m.as_ref().unwrap().2;
            ensure!(r.consumed_bytes() == end && s == &b[pos..end], "exact data differs from the element");
        }
        Err(e) => ensure!(!ok, "no exact data of a readable element: {:?}", e),
    }
    Ok(())
}

// ------------------------------------------------------------------ C04

pub struct VecOf<T>(pub Vec<T>);
impl<T: Decode> Decode for VecOf<T> {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        decode_vec(r).map(VecOf)
    }
}

fn touch(d: &Data) {
    match d {
        Data::Bytes(x) => {
            let _ = (x.len(), x.to_vec(), x.owned().borrow());
        }
        Data::Text(x) => {
            let _ = (x.to_string(), x.to_str_chunks(), x.owned().borrow());
        }
        Data::Array(x) => {
            let _ = (x.len(), x.iter().count(), x.to_vec(|r| r.data().map(|d| d.owned()).map_err(Into::into)).is_ok());
        }
        Data::Map(x) => {
            let _ = (x.len(), x.iter().count(), x.keys().count(), x.values().count());
            let _ = x.to_vec(|r| r.data().map(|d| d.owned()).map_err(Into::into), |r| r.data().map(|d| d.owned()).map_err(Into::into)).is_ok();
        }
        Data::Tag(x) => {
            let _ = (x.value(), x.reader().peek_type().is_ok(), x.decode_data::<DataOwned>().is_ok(), x.read_data(|r| r.bytes()).is_ok());
            let _ = x.read_data(|r| r.text()).is_ok();
        }
        Data::Positive(x) => {
            let _ = (x.is_canonical(), x.to_u64());
        }
        Data::Negative(x) => {
            let _ = (x.is_canonical(), x.to_i64());
        }
        Data::Float(x) => {
            let _ = (x.to_f32(), x.to_f64());
        }
        Data::Byte(x) => {
            let _ = (x.is_canonical(), x.to_u8());
        }
        _ => {}
    }
}

macro_rules! decode_all {
    ($b:expr, $c:expr, $($t:ty),*) => { $(
        { let _ = decode_from_bytes::<$t>($b).is_ok(); $c.execs += 1; }
    )* };
}

fn c04(b: &[u8], c: &mut Ctx) -> R {
    let m = c.model_item(b, 0);
    c.out(match m {
        Ok(_) => "well-formed",
        Err(E::Bad) => "ill-formed",
        Err(E::Missing { .. }) => "incomplete",
    });
    // every read, then the rest of the input by generic reads, errors notwithstanding
    for op in OPS {
        let mut r = Reader::new(b);
        let _ = do_op(b, &mut r, op, None);
        for _ in 0..3 {
            let _ = r.peek_type();
            let _ = r.expect_finished();
            let _ = (r.remaining_bytes(), r.is_finished());
            if r.data().is_err() {
                let _ = do_op(b, &mut r, op, None);
            }
        }
        c.execs += 1;
    }
    let mut r = Reader::new(b);
    if let Ok(d) = r.data() {
        touch(&d);
        let o = d.owned();
        touch(&o.borrow());
        let _ = encode_to_bytes(&o);
    }
    for _ in 0..2 {
        let _ = r.exact_decodable_slice::<DataOwned>().is_ok();
        let _ = r.exact_decodable_data::<u64>().is_ok();
        let _ = r.decode_one::<DataOwned>().is_ok();
    }
    let mut v = Validator::new(b);
    for _ in 0..4 {
        if let Ok((s, _)) = v.next() {
            if !s.as_ref().is_empty() {
                let _ = s.decode::<DataOwned>().is_ok();
                let _ = s.validate_as::<u64>().is_ok();
            }
        }
        let _ = v.remaining_bytes();
    }
    decode_all!(
        b, c, bool, u8, u16, u32, u64, String, Vec<u8>, [u8; 0], [u8; 1], [u8; 32], Scalar, DataOwned, CborDataOf<u64>, CborDataOf<DataOwned>, VecOf<u8>,
        VecOf<VecOf<DataOwned>>, VecOf<CborDataOf<String>>, tagged::StandardDateTime, tagged::PositiveBignum, tagged::NegativeBignum, tagged::EncodedCBOR,
        tagged::RationalNumber
    );
    Ok(())
}
fn c04_fams(t: Tier) -> Vec<Family> {
    let mut v = inputs(t, if t == Tier::Thorough { 1 } else { 0 }, c04);
    v.push(header_args(c04));
    v
}

// ------------------------------------------------------------------ C05

fn c05(b: &[u8], c: &mut Ctx) -> R {
    let _ = c.model_item(b, 0);
    let limit = 256 * b.len() + (8 << 10);
    let mut worst = 0;
    macro_rules! m {
        ($what:expr, $e:expr) => {{
            let (_, p) = peak_of(|| {
                let _ = $e;
            });
            c.execs += 1;
            worst = worst.max(p);
            ensure!(p <= limit, "{} allocates {} bytes for an input of {} bytes", $what, p, b.len());
        }};
    }
    if b.is_empty() {
        return Ok(());
    }
    m!("Validator::next", Validator::new(b).next());
    m!("Reader::data", Reader::new(b).data());
    m!("Reader::bytes", Reader::new(b).bytes());
    m!("Reader::text", Reader::new(b).text());
    m!("Reader::array", Reader::new(b).array());
    m!("Reader::map", Reader::new(b).map());
    m!("Reader::tag", Reader::new(b).tag());
    m!("Reader::exact_decodable_slice", Reader::new(b).exact_decodable_slice::<Anything>());
    m!("decode DataOwned", decode_from_bytes::<DataOwned>(b));
    m!("decode String", decode_from_bytes::<String>(b));
    m!("decode Vec<u8>", decode_from_bytes::<Vec<u8>>(b));
    m!("decode [u8; 16]", decode_from_bytes::<[u8; 16]>(b));
    m!("decode CborDataOf<DataOwned>", decode_from_bytes::<CborDataOf<DataOwned>>(b));
    m!("decode_vec<u64>", decode_from_bytes::<VecOf<u64>>(b));
    m!("decode_vec<DataOwned>", decode_from_bytes::<VecOf<DataOwned>>(b));
    m!("decode_vec<decode_vec<u64>>", decode_from_bytes::<VecOf<VecOf<u64>>>(b));
    m!("decode RationalNumber", decode_from_bytes::<tagged::RationalNumber>(b));
    m!("Array::to_vec", Reader::new(b).array().map(|a| a.to_vec(|r| r.data().map(|d| d.owned()).map_err(Into::into))));
    m!(
        "Map::to_vec",
        Reader::new(b).map().map(|a| a.to_vec(|r| r.data().map(|d| d.owned()).map_err(Into::into), |r| r.data().map(|d| d.owned()).map_err(Into::into)))
    );
    c.out(match worst {
        0 => "no heap",
        1..=1024 => "<= 1 KiB",
        1025..=16384 => "<= 16 KiB",
        16385..=65536 => "<= 64 KiB",
        _ => {
            let per = worst / b.len().max(1);
            match per {
                0..=31 => "< 32 bytes per byte",
                32..=63 => "< 64 bytes per byte",
                64..=127 => "< 128 bytes per byte",
                _ => ">= 128 bytes per byte",
            }
        }
    });
    Ok(())
}
/// 3000 calls, results dropped, on one reader or validator and on as many fresh ones: nothing may pile up
fn c05_again(b: &[u8], c: &mut Ctx) -> R {
    let limit = 256 * b.len() + (8 << 10);
    let mut worst = 0;
    macro_rules! m {
        ($what:expr, $init:expr, |$r:ident| $e:expr) => {{
            for fresh in [false, true] {
                let (_, p) = peak_of(|| {
                    let mut $r = $init;
                    for _ in 0..3000 {
                        let _ = $e;
                        if fresh {
                            $r = $init;
                        }
                    }
                });
                c.execs += 3000;
                c.trans += 3000;
                worst = worst.max(p);
                ensure!(p <= limit, "3000 times {} ({}) allocates {} bytes for an input of {} bytes", $what, if fresh { "each on a new one" } else { "on one object" }, p, b.len());
            }
        }};
    }
    m!("Validator::next", Validator::new(b), |v| v.next().map(|_| ()));
    for op in OPS.iter() {
        m!(format!("{:?} read", op), Reader::new(b), |r| do_op(b, &mut r, *op, None).map(|_| ()));
    }
    m!("Reader::data", Reader::new(b), |r| r.data().map(|_| ()));
    m!("Reader::data, owned", Reader::new(b), |r| r.data().map(|d| d.owned()));
    m!("Reader::exact_decodable_slice", Reader::new(b), |r| r.exact_decodable_slice::<Anything>().map(|_| ()));
    m!("Reader::decode DataOwned", Reader::new(b), |r| r.decode::<DataOwned>());
    m!("Reader::decode RationalNumber", Reader::new(b), |r| r.decode::<tagged::RationalNumber>());
    m!("decode_vec<u64>", Reader::new(b), |r| r.decode::<VecOf<u64>>());
    m!("Reader::peek_type", Reader::new(b), |r| r.peek_type());
    m!("Reader::expect_finished", Reader::new(b), |r| r.expect_finished());
    c.out(if worst == 0 { "no heap" } else if worst <= 1024 { "<= 1 KiB" } else { "more" });
    Ok(())
}
fn c05_fams(t: Tier) -> Vec<Family> {
    let mut v = inputs(t, 0, c05);
    v.push(header_args(c05));
    v.push(many(
        "again",
        ["", "00", "3903e8", "4161", "5f4161ff", "7f6161ff", "8101", "9f00ff", "bf0102ff", "c100", "c24101", "d81e820102", "f6", "f93c00"].iter().map(|s| unhex(s)).collect(),
        ["", "00", "ff", "1c", "19", "9f", "5f00", "61c3", "820041", "a100"].iter().map(|s| unhex(s)).collect(),
        vec![1, t.pick(2, 10), 100],
        c05_again,
    ));
    v
}

// ------------------------------------------------------------------ C06

enum Want {
    /// error, cursor unmoved
    Refuse,
    /// error, cursor anywhere between here and the end
    Fail,
    Value(Node, usize),
}
fn want(b: &[u8], pos: usize, op: Op, n: &Result<(Node, usize, usize), E>) -> Want {
    let h = match head(b, pos) {
        Ok(h) => h,
        Err(_) => return Want::Refuse,
    };
    let k = kind(h.mt, h.ai);
    if !op.applies(k) {
        return Want::Refuse;
    }
    match n {
        Ok((n, _, end)) if readable(b, n) => Want::Value(n.clone(), *end),
        _ => Want::Fail,
    }
}

/// what comes before pos are nulls read as such, or elements read generically
fn c06_at(b: &[u8], pos: usize, nulls: bool, c: &mut Ctx) -> R {
    let n = node(b, pos);
    let start = |what: &mut dyn FnMut(&mut Reader) -> R| -> R {
        let mut r = Reader::new(b);
        while !nulls && r.consumed_bytes() < pos {
            r.data().map_err(|e| format!("prefix does not read: {:?}", e))?;
        }
        for _ in r.consumed_bytes()..pos {
            r.null().map_err(|e| format!("null read fails on null: {:?}", e))?;
        }
        what(&mut r)
    };
    let wants: Vec<Want> = OPS.iter().map(|op| want(b, pos, *op, &n)).collect();
    let lead = b.get(pos).copied();
    let peek = |r: &Reader| -> R {
        let t = r.peek_type();
        match lead {
            None => ensure!(t.is_err(), "peek_type names {:?} at the end of input", t),
            Some(x) => {
                let reserved = matches!(x & 31, 28..=30) || (x & 31 == 31 && matches!(x >> 5, 0 | 1 | 6));
                match t {
                    Ok(t) => {
                        ensure!(!reserved, "peek_type names {:?} on reserved lead byte {:02x}", t, x);
                        ensure!(kind_of_type(t) == kind(x >> 5, x & 31), "peek_type names {:?} for lead byte {:02x}", t, x);
                    }
                    Err(e) => ensure!(reserved, "peek_type fails on lead byte {:02x}: {:?}", x, e),
                }
            }
        }
        ensure!(r.consumed_bytes() == pos, "peek_type moves the cursor");
        Ok(())
    };
    let one = |r: &mut Reader, op: Op, w: &Want, ctx: &str| -> Result<bool, String> {
        match w {
            Want::Refuse => {
                ensure!(!do_op(b, r, op, None)?, "{}{:?} read succeeds on lead byte {:02x?}", ctx, op, lead);
                ensure!(r.consumed_bytes() == pos, "{}refused {:?} read moves the cursor from {} to {}", ctx, op, pos, r.consumed_bytes());
                Ok(true)
            }
            Want::Fail => {
                ensure!(!do_op(b, r, op, None)?, "{}{:?} read succeeds on an unreadable element", ctx, op);
                Ok(false)
            }
            Want::Value(n, end) => {
                ensure!(do_op(b, r, op, Some(n))?, "{}{:?} read fails on {:02x?}", ctx, op, short(&b[pos..]));
                ensure!(r.consumed_bytes() == *end, "{}{:?} read consumes up to {}, element ends at {}", ctx, op, r.consumed_bytes(), end);
                Ok(false)
            }
        }
    };
    for (op1, w1) in OPS.iter().zip(&wants) {
        start(&mut |r| {
            peek(r)?;
            one(r, *op1, w1, "")?;
            Ok(())
        })?;
        c.execs += 1;
        match w1 {
            Want::Refuse => {
                c.out("refused without moving");
                for (op2, w2) in OPS.iter().zip(&wants) {
                    start(&mut |r| {
                        one(r, *op1, w1, "")?;
                        peek(r)?;
                        one(r, *op2, w2, "after a refused read: ")?;
                        Ok(())
                    })?;
                    c.execs += 1;
                }
            }
            Want::Fail => c.out("content fails"),
            Want::Value(..) => c.out("value"),
        }
    }
    Ok(())
}
fn c06(b: &[u8], c: &mut Ctx) -> R {
    let _ = c.model_item(b, 0);
    c06_at(b, 0, true, c)?;
    if b.len() <= 64 {
        let mut x = vec![0xf6, 0xf6];
        x.extend_from_slice(b);
        c06_at(&x, 2, true, c)?;
        let mut x = vec![0x5f, 0x41, 0x61, 0xff, 0x82, 0x00, 0x01];
        x.extend_from_slice(b);
        c06_at(&x, 7, false, c)?;
    }
    Ok(())
}
/// one read repeated up to the first element it does not stand for, where it and every other wrong read are refused
/// several hundred times before the right one
fn c06_again(b: &[u8], c: &mut Ctx) -> R {
    for op in OPS.iter() {
        let mut r = Reader::new(b);
        let mut n = 0;
        let (pos, wants) = loop {
            let pos = r.consumed_bytes();
            let nd = node(b, pos);
            c.trans += 1;
            match want(b, pos, *op, &nd) {
                Want::Value(m, end) => {
                    ensure!(do_op(b, &mut r, *op, Some(&m))?, "after {} reads: {:?} read fails at {}", n, op, pos);
                    ensure!(r.consumed_bytes() == end, "after {} reads: {:?} read moves to {}, element ends at {}", n, op, r.consumed_bytes(), end);
                    n += 1;
                }
                Want::Fail => {
                    ensure!(!do_op(b, &mut r, *op, None)?, "after {} reads: {:?} read succeeds on an unreadable element", n, op);
                    break (pos, vec![]);
                }
                Want::Refuse => break (pos, OPS.iter().map(|o| want(b, pos, *o, &nd)).collect::<Vec<_>>()),
            }
        };
        let mut k = 0usize;
        let refuse = |r: &mut Reader, o: Op, k: &mut usize| -> R {
            *k += 1;
            ensure!(!do_op(b, r, o, None)?, "after {} reads and {} refusals: {:?} read succeeds", n, *k, o);
            ensure!(r.consumed_bytes() == pos, "after {} reads: refusal {} of a {:?} read moves the cursor from {} to {}", n, *k, o, pos, r.consumed_bytes());
            Ok(())
        };
        if !wants.is_empty() {
            for _ in 0..300 {
                refuse(&mut r, *op, &mut k)?;
            }
            for _ in 0..(if n < 4 { 300 } else { 3 }) {
                for (o, w) in OPS.iter().zip(&wants) {
                    if matches!(w, Want::Refuse) {
                        refuse(&mut r, *o, &mut k)?;
                    }
                }
            }
            for (o, w) in OPS.iter().zip(&wants) {
                if let Want::Value(m, end) = w {
                    ensure!(do_op(b, &mut r, *o, Some(m))?, "after {} reads and {} refusals: {:?} read fails", n, k, o);
                    ensure!(r.consumed_bytes() == *end, "after {} reads and {} refusals: {:?} read moves to {}", n, k, o, r.consumed_bytes());
                    break;
                }
            }
        }
        c.execs += 1;
        c.state_bytes(31, &[n.min(255) as u8, (k > 0) as u8, b.get(pos).copied().unwrap_or(0)]);
        c.out(if k == 0 { "to an unreadable element" } else if n > 255 { "hundreds of reads, then refusals" } else { "refusals" });
    }
    Ok(())
}

fn c06_fams(t: Tier) -> Vec<Family> {
    let mut v = vec![
        all_bytes(t.pick(2, 3), c06),
        sharp("sharp", SHARP, 3 + (t == Tier::Thorough) as usize, 1, c06),
        sharp("sharp-small", SHARP_SMALL, t.pick(5, 6), 1, c06),
        trees("trees", small_shape, t.pick(3, 4), c06),
        trees("trees-wide", wide_shape, 2, c06),
        mutants("mutants", small_shape, 2, t == Tier::Thorough, c06),
        wrapped_cores(2, c06),
        lying(c06),
        scale(t, true, c06),
        texts(t.pick(1, 2), c06),
        bad_positions(t.pick(30, 130), c06),
        positions("positions", t.pick(vec![1, 2, 3, 4, 5, 8, 9, 16, 17, 24, 32, 33], counts(false)), c06),
        deep(if t == Tier::Thorough { DEEP_ALL } else { &[1, 2, 3, 8, 16, 17, 33, 64, 256] }, c06),
    ];
    if t == Tier::Thorough {
        v.push(header_args(c06));
    }
    v.push(many(
        "again",
        ["00", "20", "1903e8", "4161", "6161", "5f4161ff", "80", "8101", "a10102", "c100", "f6", "f5", "f93c00", "e0"].iter().map(|s| unhex(s)).collect(),
        ["", "00", "20", "40", "6161", "7f61c3ff", "80", "a0", "c100", "f6", "f7", "f5", "e0", "f93c00", "ff", "1c", "19", "5f00", "61"].iter().map(|s| unhex(s)).collect(),
        t.pick([&[0, 1, 2, 3][..], &[7, 24, 33, 65, 129, 254, 255, 256, 257, 300]].concat(), [&[0, 1, 2, 3, 4], MANY].concat()),
        c06_again,
    ));
    v
}

// ------------------------------------------------------------------ C07

fn missing_v(b: &[u8], k: usize) -> Result<(u128, u128), String> {
    let mut v = Validator::new(b);
    for _ in 0..k {
        let _ = v.next();
    }
    match v.next() {
        Ok((_, n)) => Err(format!("validator accepts {} bytes of an incomplete element", n)),
        Err(ValidateError::DataMissing(m)) => Ok((m.expecting_bytes as u128, m.got_bytes as u128)),
        Err(e) => Err(format!("validator reports {:?} on an incomplete element", e)),
    }
}
fn missing_r(b: &[u8], k: usize) -> Result<(u128, u128), String> {
    match past(b, k).data() {
        Ok(d) => Err(format!("reader returns {:?} for an incomplete element", d)),
        Err(ReaderError::DataMissing(m)) => Ok((m.expecting_bytes as u128, m.got_bytes as u128)),
        Err(e) => Err(format!("reader reports {:?} on an incomplete element", e)),
    }
}
/// is the incomplete element at the start of b, when a text, still completable to valid UTF-8 chunks?
fn text_prefix_ok(b: &[u8]) -> bool {
    if b.is_empty() || b[0] >> 5 != 3 {
        return true;
    }
    let Ok(h) = head(b, 0) else { return true };
    if !h.indef {
        return utf8_ok(&b[h.n.min(b.len())..]);
    }
    let mut p = h.n;
    loop {
        match head(b, p) {
            Ok(c) if c.mt == 3 && !c.indef => {
                let s = p + c.n;
                let e = (s as u128 + c.val as u128).min(b.len() as u128) as usize;
                if !utf8_ok(&b[s..e]) {
                    return false;
                }
                if (s as u128 + c.val as u128) > b.len() as u128 {
                    return true;
                }
                p = e;
            }
            _ => return true,
        }
    }
}
fn missing_ok(b: &[u8], k: usize, pos: usize, need: u128, c: &mut Ctx) -> R {
    for (who, r) in [("validator", missing_v(b, k)), ("reader", if text_prefix_ok(&b[pos..]) { missing_r(b, k) } else { Ok((1, 0)) })] {
        let (exp, got) = r?;
        c.execs += 1;
        ensure!(exp > got, "{}: expects {} bytes and has {}", who, exp, got);
        ensure!(exp - got <= need, "{}: reports {} bytes missing, {} complete the element", who, exp - got, need);
    }
    Ok(())
}

fn c07(b: &[u8], c: &mut Ctx) -> R {
    elements(b, c, c07_at)
}
fn c07_at(b: &[u8], k: usize, pos: usize, c: &mut Ctx) -> R {
    let _ = c.model_item(b, pos);
    match min_missing(b, pos) {
        Err(()) => {
            c.out("ill-formed");
            Ok(())
        }
        Ok(Err(need)) => {
            c.out("incomplete");
            missing_ok(b, k, pos, need, c)
        }
        Ok(Ok(end)) => {
            c.out("complete");
            let e = &b[..end];
            // every cut
            let n = end - pos;
            let cuts: Vec<usize> = if n <= 400 {
                (pos..end).collect()
            } else {
                (0..48).chain([n / 3, n / 2, 2 * n / 3]).chain(n - 48..n).map(|x| x + pos).collect()
            };
            for cut in cuts {
                match min_missing(&e[..cut], pos) {
                    Ok(Err(need)) => missing_ok(&e[..cut], k, pos, need.min((end - cut) as u128), c).map_err(|m| format!("cut at {}: {}", cut, m))?,
                    other => return Err(format!("reference model disagrees with itself: {:?}", other)),
                }
            }
            // every continuation
            let base = past(e, k).data().map(|d| d.owned());
            let suffixes: &[&[u8]] = &[&[], &[0x00], &[0xff], &[0x5f], &[0x80, 0xff], &[0x1c], &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]];
            let mut x = e.to_vec();
            for s in suffixes.iter().copied().chain([&b[end..]]) {
                if end > 4096 && s.len() > 1 {
                    continue;
                }
                x.truncate(end);
                x.extend_from_slice(s);
                let mut v = Validator::new(&x);
                for _ in 0..k {
                    let _ = v.next();
                }
                match v.next() {
                    Ok((sl, n)) => ensure!(n == end - pos && sl.as_ref() == &e[pos..], "followed by {:02x?} the validator sees {} bytes instead of {}", s, n, end),
                    Err(er) => return Err(format!("followed by {:02x?} the validator reports {:?}", s, er)),
                }
                let mut r = past(&x, k);
                match (r.data(), &base) {
                    (Ok(d), Ok(o)) => {
                        ensure!(d.owned() == *o, "followed by {:02x?} the value read changes", s);
                        ensure!(r.consumed_bytes() == end, "followed by {:02x?} {} bytes are consumed instead of {}", s, r.consumed_bytes(), end);
                    }
                    (Err(_), Err(_)) => {}
                    (a, o) => return Err(format!("followed by {:02x?} reading gives {:?} instead of {:?}", s, a, o)),
                }
                c.execs += 2;
            }
            Ok(())
        }
    }
}
fn c07_fams(t: Tier) -> Vec<Family> {
    let mut v = inputs(t, 1, c07);
    // (every cut of each: quadratic)
    v.retain(|f| f.name != "positions");
    let mut sizes = counts(t == Tier::Thorough);
    sizes.retain(|n| t == Tier::Thorough || *n <= 66 || *n == 256);
    v.push(positions("positions", sizes, c07));
    v.push(header_args(c07));
    v
}

// ------------------------------------------------------------------ C10

fn c10_read(b: &[u8], c: &mut Ctx) -> R {
    elements(b, c, c10_at)
}
fn c10_at(b: &[u8], k: usize, pos: usize, c: &mut Ctx) -> R {
    let _ = c.model_item(b, pos);
    let m = node(b, pos);
    let (text, indef, chunks, end) = match &m {
        Ok((Node::Str { text, indef, chunks }, _, end)) => (*text, *indef, chunks, *end),
        Ok(_) => {
            c.out("not a string");
            return Ok(());
        }
        Err(_) => {
            c.out("not well-formed");
            if let Ok(s) = past(b, k).bytes() {
                return Err(format!("bytes read succeeds on an ill-formed element: {:?}", s));
            }
            if let Ok(s) = past(b, k).text() {
                return Err(format!("text read succeeds on an ill-formed element: {:?}", s));
            }
            c.execs += 2;
            return Ok(());
        }
    };
    c.execs += 2;
    let mut r = past(b, k);
    if !text {
        let s = r.bytes().map_err(|e| format!("bytes read fails: {:?}", e))?;
        ensure!(r.consumed_bytes() == end, "consumed {} want {}", r.consumed_bytes(), end);
        chk_bytes(b, &s, indef, chunks)?;
        let o = s.owned();
        chk_bytes(b, &o.borrow(), indef, chunks).map_err(|e| format!("owned: {}", e))?;
        let parts: Vec<&BytesDataOwned> = match &o {
            BytesOwned::Imm(d) => vec![d],
            BytesOwned::Chunks(v) => v.iter().collect(),
        };
        for (p, (w, (s, e))) in parts.iter().zip(chunks) {
            ensure!(hv(p.value()) == (*w, (*e - *s) as u64) && p.as_slice() == &b[*s..*e] && p.borrow().as_slice() == &b[*s..*e], "owned chunk differs");
        }
        c.out(if indef { "chunked bytes" } else { "definite bytes" });
        ensure!(past(b, k).text().is_err(), "text read succeeds on bytes");
    } else {
        let ok = chunks.iter().all(|(_, (s, e))| utf8_ok(&b[*s..*e]));
        match r.text() {
            Err(e) => {
                ensure!(!ok, "text read refuses valid UTF-8: {:?}", e);
                c.out("invalid UTF-8");
            }
            Ok(s) => {
                ensure!(ok, "text read accepts a chunk that is not UTF-8");
                ensure!(r.consumed_bytes() == end, "consumed {} want {}", r.consumed_bytes(), end);
                chk_text(b, &s, indef, chunks)?;
                let o = s.owned();
                chk_text(b, &o.borrow(), indef, chunks).map_err(|e| format!("owned: {}", e))?;
                let parts: Vec<&TextDataOwned> = match &o {
                    TextOwned::Imm(d) => vec![d],
                    TextOwned::Chunks(v) => v.iter().collect(),
                };
                for (p, (w, (s, e))) in parts.iter().zip(chunks) {
                    ensure!(
                        hv(p.value()) == (*w, (*e - *s) as u64) && p.as_str().as_bytes() == &b[*s..*e] && p.borrow().as_str().as_bytes() == &b[*s..*e],
                        "owned chunk differs"
                    );
                }
                c.out(if indef { "chunked text" } else { "definite text" });
            }
        }
        ensure!(past(b, k).bytes().is_err(), "bytes read succeeds on text");
    }
    Ok(())
}

/// the case is a payload: strings built from memory
fn c10_build(p: &[u8], c: &mut Ctx) -> R {
    c.state_bytes(10, p);
    let mut want = vec![];
    put_short(&mut want, 2, p.len() as u64);
    let hdr = want.len();
    want.extend_from_slice(p);
    let vals = [
        ("Bytes::from_slice", encode_to_bytes(&Bytes::from_slice(p))),
        ("BytesOwned::from_vec", encode_to_bytes(&BytesOwned::from_vec(p.to_vec()))),
        ("BytesData::from_slice", encode_to_bytes(&Bytes::Imm(BytesData::from_slice(p)))),
        ("BytesDataOwned::from_vec", encode_to_bytes(&BytesOwned::Imm(BytesDataOwned::from_vec(p.to_vec())))),
        ("[u8]", written(|w| w.encode(p))),
        ("Vec<u8>", encode_to_bytes(&p.to_vec())),
        ("owned", encode_to_bytes(&Bytes::from_slice(p).owned())),
    ];
    c.trans += 1;
    for (n, v) in &vals {
        c.execs += 1;
        ensure!(*v == want, "{} of {} bytes is written {:02x?}.., want {:02x?}..", n, p.len(), short(v), short(&want));
    }
    let x = Bytes::from_slice(p);
    ensure!(x.len() == p.len() && x.to_vec() == p, "accessors of Bytes::from_slice differ");
    let d = BytesData::from_slice(p);
    ensure!(hv(d.value()) == (W::shortest(p.len() as u64), p.len() as u64) && d.as_slice() == p, "BytesData::from_slice differs");
    let chunk = [(W::shortest(p.len() as u64), (hdr, hdr + p.len()))];
    let mut r = Reader::new(&want);
    chk_bytes(&want, &r.bytes().map_err(|e| format!("does not read back: {:?}", e))?, false, &chunk)?;
    // two chunks built from memory
    let k = p.len() / 2;
    let ch = Bytes::Chunks(vec![BytesData::from_slice(&p[..k]), BytesData::from_slice(&p[k..])]);
    let mut want2 = vec![0x5f];
    put_short(&mut want2, 2, k as u64);
    want2.extend_from_slice(&p[..k]);
    put_short(&mut want2, 2, (p.len() - k) as u64);
    want2.extend_from_slice(&p[k..]);
    want2.push(0xff);
    ensure!(encode_to_bytes(&ch) == want2, "chunked bytes written wrongly");
    ensure!(ch.to_vec() == p && ch.len() == p.len(), "accessors of built chunks differ");
    if utf8_ok(p) {
        let s = std::str::from_utf8(p).map_err(|_| "std disagrees with the reference UTF-8 recogniser".to_string())?;
        want[0] |= 0x20; // 010xxxxx -> 011xxxxx
        for (n, v) in [
            ("Text::from_str", encode_to_bytes(&Text::from_str(s))),
            ("TextOwned::from_string", encode_to_bytes(&TextOwned::from_string(s.to_string()).borrow())),
            ("TextData::from_str", encode_to_bytes(&Text::Imm(TextData::from_str(s)))),
            ("TextDataOwned::from_string", encode_to_bytes(&TextOwned::Imm(TextDataOwned::from_string(s.to_string())).borrow())),
            ("str", written(|w| w.encode(s))),
            ("String", encode_to_bytes(&s.to_string())),
        ] {
            c.execs += 1;
            ensure!(v == want, "{} of {} bytes is written {:02x?}.., want {:02x?}..", n, p.len(), short(&v), short(&want));
        }
        let t = Text::from_str(s);
        ensure!(t.to_string() == s && t.to_str_chunks() == vec![s], "accessors of Text::from_str differ");
        let mut r = Reader::new(&want);
        chk_text(&want, &r.text().map_err(|e| format!("does not read back: {:?}", e))?, false, &chunk)?;
        c.out("text and bytes");
    } else {
        c.out("bytes only");
    }
    Ok(())
}

const UTF8_CRIT: &[u8] = &[
    0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff,
];

fn c10_fams(t: Tier) -> Vec<Family> {
    let th = t == Tier::Thorough;
    let mut v = vec![];
    // every payload of up to 2 bytes in every presentation; 3-4 bytes of critical bytes
    let emit = |p: &[u8], f: &mut dyn FnMut(&[u8])| {
        for mt in [2u8, 3] {
            for w in WIDTHS {
                let mut b = vec![];
                put_head(&mut b, mt, w, p.len() as u64);
                b.extend_from_slice(p);
                f(&b);
            }
            for k in 0..=p.len() {
                let mut b = vec![mt << 5 | 31];
                put_head(&mut b, mt, W::Imm, k as u64);
                b.extend_from_slice(&p[..k]);
                put_head(&mut b, mt, W::B1, (p.len() - k) as u64);
                b.extend_from_slice(&p[k..]);
                b.push(0xff);
                f(&b);
            }
        }
    };
    v.push(fam(
        "payloads-2",
        "every payload of <= 2 bytes x bytes/text x 5 widths and every split in two chunks".into(),
        257,
        Box::new(move |u, f| {
            if u == 256 {
                emit(&[], f);
                return;
            }
            emit(&[u as u8], f);
            for y in 0..=255u8 {
                emit(&[u as u8, y], f);
            }
        }),
        c10_read,
    ));
    let nc = UTF8_CRIT.len();
    v.push(fam(
        "utf8-critical",
        format!("every payload of 3 and 4 bytes over {} bytes critical for UTF-8 x the same presentations", nc),
        nc * nc,
        Box::new(move |u, f| {
            for x in UTF8_CRIT {
                emit(&[UTF8_CRIT[u / nc], UTF8_CRIT[u % nc], *x], f);
                for y in UTF8_CRIT {
                    let p = [UTF8_CRIT[u / nc], UTF8_CRIT[u % nc], *x, *y];
                    let mut b = vec![0x64];
                    b.extend_from_slice(&p);
                    f(&b);
                    if th {
                        emit(&p, f);
                    } else {
                        let mut b = vec![0x7f, 0x62];
                        b.extend_from_slice(&p[..2]);
                        b.push(0x62);
                        b.extend_from_slice(&p[2..]);
                        b.push(0xff);
                        f(&b);
                    }
                }
            }
        }),
        c10_read,
    ));
    v.push(fam(
        "utf8-3-bytes",
        "every 3-byte text".into(),
        if th { 256 } else { 0 },
        Box::new(move |u, f| {
            for y in 0..=255u8 {
                for z in 0..=255u8 {
                    f(&[0x63, u as u8, y, z]);
                }
            }
        }),
        c10_read,
    ));
    v.push(fam(
        "unicode-scalars",
        "the UTF-8 form of every Unicode scalar value, whole and split after its first byte".into(),
        0x110,
        Box::new(move |u, f| {
            for lo in 0..0x1000u32 {
                if let Some(ch) = char::from_u32((u as u32) << 12 | lo) {
                    let mut e = [0u8; 4];
                    let n = ch.encode_utf8(&mut e).len();
                    let mut b = vec![0x60 | n as u8];
                    b.extend_from_slice(&e[..n]);
                    f(&b);
                    if n > 1 {
                        let mut b = vec![0x7f, 0x61, e[0], 0x60 | (n - 1) as u8];
                        b.extend_from_slice(&e[1..n]);
                        b.push(0xff);
                        f(&b);
                    }
                }
            }
        }),
        c10_read,
    ));
    // chunk sequences
    let chunks: Vec<Vec<u8>> = ["40", "4161", "580162", "590002ff00", "60", "6161", "780162", "790003e282ac", "61c3", "00", "80", "5f4161ff", "5a00000000", "7b000000000000000178"]
        .iter()
        .map(|s| unhex(s))
        .collect();
    for (mt, name) in [(0x5fu8, "chunk-sequences-bytes"), (0x7f, "chunk-sequences-text")] {
        let ch = chunks.clone();
        let n = ch.len();
        let depth = if th { 5 } else { 4 };
        v.push(fam(
            name,
            format!("every sequence of <= {} of {} chunks, right and wrong, closed and not", depth, n),
            n + 1,
            Box::new(move |u, f| {
                fn rec(ch: &[Vec<u8>], b: &mut Vec<u8>, left: usize, f: &mut dyn FnMut(&[u8])) {
                    f(b);
                    b.push(0xff);
                    f(b);
                    b.pop();
                    if left > 0 {
                        for c in ch {
                            let l = b.len();
                            b.extend_from_slice(c);
                            rec(ch, b, left - 1, f);
                            b.truncate(l);
                        }
                    }
                }
                let mut b = vec![mt];
                if u == n {
                    f(&[mt, 0xff]);
                } else {
                    b.extend_from_slice(&ch[u]);
                    rec(&ch, &mut b, depth - 1, f);
                }
            }),
            c10_read,
        ));
    }
    v.push(texts(4 + th as usize, c10_read));
    v.push(bad_positions(t.pick(300, 600), c10_read));
    v.push(positions("positions", counts(true), c10_read));
    v.push(streams(t.pick(2, 2), c10_read));
    v.push(scale(t, true, c10_read));
    v.push(sharp("sharp", SHARP, 4, 1, c10_read));
    // building from memory
    v.push(all_bytes(2, c10_build));
    v.last_mut().unwrap().name = "build-payloads-2".into();
    let mut sizes: Vec<usize> = (0..=600).collect();
    sizes.extend_from_slice(&[1023, 1024, 1025, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 70000]);
    if th {
        sizes.extend(600..2000);
        sizes.extend_from_slice(&[1 << 20, (1 << 20) + 1, 3 << 20]);
    }
    let mut cases = vec![];
    for s in sizes {
        cases.push((0..s).map(|i| b'a' + (i % 26) as u8).collect::<Vec<u8>>());
        cases.push((0..s).map(|i| (i % 251) as u8).collect::<Vec<u8>>());
    }
    v.push(list("build-sizes", "payload sizes 0..=600 and around 2^10, 2^12, 2^16".into(), cases, c10_build));
    v.push(fam(
        "build-unicode",
        "one-character texts of every Unicode scalar value".into(),
        0x110,
        Box::new(move |u, f| {
            for lo in 0..0x1000u32 {
                if let Some(ch) = char::from_u32((u as u32) << 12 | lo) {
                    let mut e = [0u8; 4];
                    f(ch.encode_utf8(&mut e).as_bytes());
                }
            }
        }),
        c10_build,
    ));
    v
}

// ------------------------------------------------------------------ C11

fn rd<'a>(mut r: Reader<'a>) -> Vec<u8> {
    // the bytes a reader stands on, without interpreting them
    let n = r.remaining_bytes();
    match r.data() {
        Ok(d) => {
            let mut v = written(|w| w.data(&d));
            v.push(r.remaining_bytes() as u8);
            v
        }
        Err(_) => vec![0xfe, (n >> 8) as u8, n as u8],
    }
}
fn want_rd(b: &[u8], g: Rng) -> Vec<u8> {
    let s = &b[g.0..g.1];
    let (n, _, _) = node(s, 0).unwrap();
    if readable(s, &n) {
        let mut v = s.to_vec();
        v.push(0);
        v
    } else {
        vec![0xfe, (s.len() >> 8) as u8, s.len() as u8]
    }
}
fn raw<'b>(r: &mut Reader<'b>) -> Result<DataOwned, DecodeErrorKind> {
    r.data().map(|d| d.owned()).map_err(DecodeErrorKind::ReaderError)
}
/// reads nothing at all
struct Nothing;
impl Decode for Nothing {
    fn decode<'a>(_: &mut Reader<'a>) -> Result<Self, DecodeError> {
        Ok(Nothing)
    }
}

fn c11(b: &[u8], c: &mut Ctx) -> R {
    elements(b, c, c11_at)
}
fn c11_at(b: &[u8], k: usize, pos: usize, c: &mut Ctx) -> R {
    let _ = c.model_item(b, pos);
    let Ok((n, _, _)) = node(b, pos) else {
        c.out("not well-formed");
        return Ok(());
    };
    let mut r = past(b, k);
    let d = match r.data() {
        Ok(d) => d,
        Err(_) => {
            c.out("not readable");
            return Ok(());
        }
    };
    c.execs += 1;
    match (&d, &n) {
        (Data::Array(a), Node::Array { len, items }) => {
            chk_array(b, a, *len, items)?;
            let wants: Vec<Vec<u8>> = items.iter().map(|g| want_rd(b, *g)).collect();
            let all_ok = items.iter().all(|g| readable(&b[g.0..g.1], &node(&b[g.0..g.1], 0).unwrap().0));
            let got: Vec<Vec<u8>> = a.iter().map(rd).collect();
            ensure!(got == wants, "iter presents other elements");
            let o = a.owned();
            ensure!(slen(o.struct_len()) == *len, "owned length style differs");
            ensure!(o.len() == items.len(), "owned len {} want {}", o.len(), items.len());
            for (i, g) in items.iter().enumerate() {
                ensure!(o[i].as_ref() == &b[g.0..g.1], "owned element {} differs", i);
            }
            let got: Vec<Vec<u8>> = o.iter().map(rd).collect();
            ensure!(got == wants, "owned iter presents other elements");
            chk_array(b, &o.borrow(), *len, items).map_err(|e| format!("owned.borrow: {}", e))?;
            for (name, v) in [("to_vec", a.to_vec(raw)), ("owned to_vec", o.to_vec(|r| r.data().map(|d| d.owned()).map_err(DecodeErrorKind::ReaderError)))] {
                match v {
                    Ok(v) => {
                        ensure!(all_ok, "{} succeeds with an unreadable element", name);
                        ensure!(v.len() == items.len(), "{} has {} entries, want {}", name, v.len(), items.len());
                        for (x, g) in v.iter().zip(items) {
                            ensure!(encode_to_bytes(x) == &b[g.0..g.1], "{} presents another element", name);
                        }
                    }
                    Err(_) => ensure!(!all_ok, "{} fails", name),
                }
            }
            c.execs += 6;
            c.out(if len.is_some() { "array" } else { "indefinite array" });
        }
        (Data::Map(a), Node::Map { len, items }) => {
            chk_map(b, a, *len, items)?;
            let wk: Vec<Vec<u8>> = items.iter().map(|g| want_rd(b, g.0)).collect();
            let wv: Vec<Vec<u8>> = items.iter().map(|g| want_rd(b, g.1)).collect();
            let all_ok = items.iter().flat_map(|g| [g.0, g.1]).all(|g| readable(&b[g.0..g.1], &node(&b[g.0..g.1], 0).unwrap().0));
            let wp: Vec<(Vec<u8>, Vec<u8>)> = wk.iter().cloned().zip(wv.iter().cloned()).collect();
            ensure!(a.iter().map(|(k, v)| (rd(k), rd(v))).collect::<Vec<_>>() == wp, "iter presents other pairs");
            ensure!(a.keys().map(rd).collect::<Vec<_>>() == wk, "keys presents other keys");
            ensure!(a.values().map(rd).collect::<Vec<_>>() == wv, "values presents other values");
            let o = a.owned();
            ensure!(slen(o.struct_len()) == *len, "owned length style differs");
            ensure!(o.len() == items.len(), "owned len {} want {}", o.len(), items.len());
            ensure!(o.iter().map(|(k, v)| (rd(k), rd(v))).collect::<Vec<_>>() == wp, "owned iter presents other pairs");
            ensure!(o.keys().map(rd).collect::<Vec<_>>() == wk, "owned keys presents other keys");
            ensure!(o.values().map(rd).collect::<Vec<_>>() == wv, "owned values presents other values");
            chk_map(b, &o.borrow(), *len, items).map_err(|e| format!("owned.borrow: {}", e))?;
            for (name, v) in [("to_vec", a.to_vec(raw, raw)), ("owned to_vec", o.to_vec(raw, raw))] {
                match v {
                    Ok(v) => {
                        ensure!(all_ok, "{} succeeds with an unreadable element", name);
                        ensure!(v.len() == items.len(), "{} has {} entries, want {}", name, v.len(), items.len());
                        for ((k, x), (gk, gv)) in v.iter().zip(items) {
                            ensure!(encode_to_bytes(k) == &b[gk.0..gk.1] && encode_to_bytes(x) == &b[gv.0..gv.1], "{} presents another pair", name);
                        }
                    }
                    Err(_) => ensure!(!all_ok, "{} fails", name),
                }
            }
            c.execs += 10;
            c.out(if len.is_some() { "map" } else { "indefinite map" });
        }
        (Data::Tag(t), Node::Tag { w, val, item: g }) => {
            chk_tag(b, t, *w, *val, *g)?;
            let wr = want_rd(b, *g);
            ensure!(rd(t.reader()) == wr, "reader of the tag presents another element");
            let ok = wr[0] != 0xfe;
            match t.read_data(|r| r.data().map(|d| d.owned())) {
                Ok(d) => ensure!(ok && encode_to_bytes(&d) == &b[g.0..g.1], "read_data presents another element"),
                Err(e) => ensure!(!ok, "read_data fails: {:?}", e),
            }
            match t.decode_data::<DataOwned>() {
                Ok(d) => ensure!(ok && encode_to_bytes(&d) == &b[g.0..g.1], "decode_data presents another element"),
                Err(e) => ensure!(!ok, "decode_data fails: {:?}", e),
            }
            ensure!(t.read_data(|_| Ok(())).is_err(), "read_data accepts a content left unread");
            ensure!(t.decode_data::<Nothing>().is_err(), "decode_data accepts a content left unread");
            let o = t.owned();
            ensure!(o.value() == *val && o.tag_repr() == t.tag_repr() && o.data().as_ref() == &b[g.0..g.1], "owned tag differs");
            ensure!(rd(o.read_data()) == wr, "owned read_data presents another element");
            chk_tag(b, &o.borrow(), *w, *val, *g).map_err(|e| format!("owned.borrow: {}", e))?;
            c.execs += 8;
            c.out("tag");
        }
        _ => c.out("leaf"),
    }
    Ok(())
}
fn c11_fams(t: Tier) -> Vec<Family> {
    inputs(t, 1, c11)
}

// ------------------------------------------------------------------ C21

fn c21(b: &[u8], c: &mut Ctx) -> R {
    elements(b, c, c21_at)
}
fn c21_at(b: &[u8], k: usize, pos: usize, c: &mut Ctx) -> R {
    let _ = c.model_item(b, pos);
    let mut buf = b.to_vec();
    let (o, n) = {
        let mut r = past(&buf, k);
        let Ok(d) = r.data() else {
            c.out("not readable");
            return Ok(());
        };
        let n = r.consumed_bytes();
        let o = d.owned();
        ensure!(o.borrow() == d, "owned().borrow() is not the value read");
        ensure!(o.borrow().owned() == o, "borrow().owned() is not the owned value");
        ensure!(o.clone() == o && d.clone() == d, "clone differs");
        ensure!(encode_to_bytes(&o) == encode_to_bytes(&d), "owned form encodes differently");
        match (&d, &o) {
            (Data::Bytes(x), DataOwned::Bytes(y)) => {
                ensure!(y.borrow() == *x && x.owned() == *y && y.borrow().to_vec() == x.to_vec() && y.borrow().len() == x.len(), "bytes forms differ");
                ensure!(encode_to_bytes(y) == encode_to_bytes(x), "bytes forms encode differently");
                if let (Bytes::Chunks(p), BytesOwned::Chunks(q)) = (x, y) {
                    ensure!(p.len() == q.len() && p.iter().zip(q).all(|(p, q)| q.borrow() == *p && p.owned() == *q), "chunks differ");
                }
                if let (Bytes::Imm(p), BytesOwned::Imm(q)) = (x, y) {
                    ensure!(q.borrow() == *p && p.owned() == *q && p.value() == q.value() && p.as_slice() == q.as_slice(), "bytes data differ");
                }
            }
            (Data::Text(x), DataOwned::Text(y)) => {
                ensure!(y.borrow() == *x && x.owned() == *y && y.borrow().to_string() == x.to_string() && y.borrow().to_str_chunks() == x.to_str_chunks(), "text forms differ");
                if let (Text::Chunks(p), TextOwned::Chunks(q)) = (x, y) {
                    ensure!(p.len() == q.len() && p.iter().zip(q).all(|(p, q)| q.borrow() == *p && p.owned() == *q), "chunks differ");
                }
                if let (Text::Imm(p), TextOwned::Imm(q)) = (x, y) {
                    ensure!(q.borrow() == *p && p.owned() == *q && p.value() == q.value() && p.as_str() == q.as_str(), "text data differ");
                }
            }
            (Data::Array(x), DataOwned::Array(y)) => {
                ensure!(y.borrow() == *x && x.owned() == *y && x.len() == y.len() && x.struct_len() == y.struct_len(), "array forms differ");
                ensure!((0..x.len()).all(|i| x[i].as_ref() == y[i].as_ref()), "array elements differ");
            }
            (Data::Map(x), DataOwned::Map(y)) => {
                ensure!(y.borrow() == *x && x.owned() == *y && x.len() == y.len() && x.struct_len() == y.struct_len(), "map forms differ");
                let yb = y.borrow();
                ensure!((0..x.len()).all(|i| x[i] == yb[i]), "map elements differ");
            }
            (Data::Tag(x), DataOwned::Tag(y)) => {
                ensure!(y.borrow() == *x && x.owned() == *y && x.value() == y.value() && x.tag_repr() == y.tag_repr(), "tag forms differ");
                ensure!(x.data().as_ref() == y.data().as_ref(), "tag content differs");
            }
            (Data::Positive(x), DataOwned::Positive(y)) => ensure!(x == y, "positive differs"),
            (Data::Negative(x), DataOwned::Negative(y)) => ensure!(x == y, "negative differs"),
            (Data::Float(x), DataOwned::Float(y)) => ensure!(x == y, "float differs"),
            (Data::Byte(x), DataOwned::Byte(y)) => ensure!(x == y, "byte differs"),
            (Data::True, DataOwned::True) | (Data::False, DataOwned::False) | (Data::Null, DataOwned::Null) | (Data::Undefined, DataOwned::Undefined) => {}
            (d, o) => return Err(format!("{:?} became {:?}", d, o)),
        }
        (o, n)
    };
    // element slices: to_owned / borrow
    {
        let mut v = Validator::new(&buf);
        for _ in 0..k {
            let _ = v.next();
        }
        if let Ok((s, _)) = v.next() {
            let data = s.to_owned();
            ensure!(data.as_ref() == s.as_ref(), "to_owned of a slice has other bytes");
            let back: &CborSlice = std::borrow::Borrow::borrow(&data);
            ensure!(back == s && back.to_owned() == data, "slice -> data -> slice is not the identity");
            ensure!(written(|w| w.encode(s)) == written(|w| w.encode(&data)), "slice and data encode differently");
        }
    }
    // the owned value outlives the buffer
    for x in buf.iter_mut() {
        *x = 0xff
    }
    drop(buf);
    ensure!(encode_to_bytes(&o) == &b[pos..n], "owned value changes with the input buffer");
    let mut r = past(b, k);
    let d2 = r.data().map_err(|e| format!("second read differs: {:?}", e))?;
    ensure!(o.borrow() == d2, "owned value differs from a later read of the same bytes");
    c.execs += 3;
    c.out("identity");
    Ok(())
}

// ------------------------------------------------------------------ C24

fn c24(case: &[u8], c: &mut Ctx) -> R {
    let (a, b) = split_pair(case);
    let (mut ra, mut rb) = (Reader::new(a), Reader::new(b));
    let (Ok(x), Ok(y)) = (ra.data(), rb.data()) else {
        c.out("not readable");
        return Ok(());
    };
    // by the reference model, so that a wrong length does not hide here
    let (Ok(na), Ok(nb)) = (item(a, 0), item(b, 0)) else {
        return Err("reads an ill-formed element".into());
    };
    let (a, b) = (&a[..na], &b[..nb]);
    let same = a == b;
    c.execs += 1;
    c.trans += 1;
    c.state_bytes(24, a);
    ensure!((x == y) == same, "{:02x?} and {:02x?}: equality says {}, encodings say {}", a, b, x == y, same);
    ensure!((x != y) != same, "!= is inconsistent");
    let (xo, yo) = (x.owned(), y.owned());
    ensure!((xo == yo) == same, "owned {:02x?} and {:02x?}: equality says {}, encodings say {}", a, b, xo == yo, same);
    ensure!((xo.borrow() == y) == same, "mixed equality differs");
    // inside containers: an element of an array, a value of a map, the content of a tag
    for pre in [&[0x81u8][..], &[0xa1, 0x00], &[0xc1]] {
        let (mut p, mut q) = (pre.to_vec(), pre.to_vec());
        p.extend_from_slice(a);
        q.extend_from_slice(b);
        let (dp, dq) = (
            Reader::new(&p).data().map_err(|e| format!("wrapped element does not read: {:?}", e))?,
            Reader::new(&q).data().map_err(|e| format!("wrapped element does not read: {:?}", e))?,
        );
        ensure!((dp == dq) == same, "inside {:02x?}: equality of {:02x?} and {:02x?} says {}", pre, a, b, dp == dq);
        ensure!((dp.owned() == dq.owned()) == same, "owned, inside {:02x?}: equality of {:02x?} and {:02x?}", pre, a, b);
    }
    c.out(if same { "equal" } else { "different" });
    Ok(())
}
fn c24_fams(t: Tier) -> Vec<Family> {
    let wide = Trees::new(wide_shape(), 2).all();
    let small = Trees::new(small_shape(), 3).all();
    let sel: Vec<Vec<u8>> = if t == Tier::Thorough { wide.clone() } else { wide.iter().step_by(1).take(700).cloned().collect() };
    let var = variants(t.pick(2, 3));
    let mut v = vec![pairs("pairs-variants", "every encoding (widths, precisions, chunkings, length styles) of each of a set of values".into(), var, c24)];
    // halves that differ in one bit
    v.push(fam(
        "half-bits",
        "every half precision float against itself with each bit flipped, and against the single and double of the same number".into(),
        256,
        Box::new(move |u, f| {
            for lo in 0..=255u8 {
                let h = (u as u16) << 8 | lo as u16;
                let mut c = vec![0, 3, 0xf9, u as u8, lo];
                for bit in 0..16 {
                    let x = h ^ 1 << bit;
                    c.truncate(5);
                    c.extend_from_slice(&[0xf9, (x >> 8) as u8, x as u8]);
                    f(&c);
                }
                for e in [&[0xfau8, u as u8, lo, 0, 0][..], &[0xfb, u as u8, lo, 0, 0, 0, 0, 0, 0], &[0x19, u as u8, lo]] {
                    c.truncate(5);
                    c.extend_from_slice(e);
                    f(&c);
                }
            }
        }),
        c24,
    ));
    v.push(pairs("pairs-wide", "element trees of <= 2 nodes with every width and length style".into(), sel, c24));
    let n = if t == Tier::Thorough { small.len() } else { 1200 };
    v.push(pairs("pairs-small", "element trees of <= 3 nodes".into(), small.into_iter().take(n).collect(), c24));
    // long values that differ in one byte, or in one element, at any position
    let mut lens: Vec<usize> = (1..=t.pick(160, 400)).collect();
    lens.extend_from_slice(&[255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025]);
    if t == Tier::Thorough {
        lens.extend_from_slice(&[2048, 4096, 4097]);
    }
    v.push(fam(
        "pairs-long",
        "7 kinds of value with 1..=160 (400) and up to 1025 (4097) payload bytes against itself, against one byte changed at every position, and against one element more or less".into(),
        lens.len() * 7,
        Box::new(move |u, f| {
            let mk = |n: usize, fill: u8| -> Vec<u8> {
                let body = vec![fill; n];
                let mut b = vec![];
                match u % 7 {
                    0 => put_short(&mut b, 2, n as u64),
                    1 => put_short(&mut b, 3, n as u64),
                    2 => put_short(&mut b, 4, n as u64),
                    3 => b.push(0x9f),
                    4 => {
                        b.push(0xbf);
                        for k in body.iter().take(n / 2) {
                            b.extend_from_slice(&[*k & 0x17, *k & 0x17]);
                        }
                        b.push(0xff);
                        return b;
                    }
                    5 => {
                        b.push(0x5f);
                        for k in body.chunks(7) {
                            put_short(&mut b, 2, k.len() as u64);
                            b.extend_from_slice(k);
                        }
                        b.push(0xff);
                        return b;
                    }
                    _ => {
                        put_short(&mut b, 6, 0x1_0000_0000);
                        put_short(&mut b, 4, n as u64);
                    }
                }
                let fill = if u % 7 < 2 { fill } else { fill & 0x17 };
                b.extend(body.iter().map(|_| fill));
                if u % 7 == 3 {
                    b.push(0xff);
                }
                b
            };
            let n = lens[u / 7];
            let a = mk(n, 0x41);
            let mut c = vec![(a.len() >> 8) as u8, a.len() as u8];
            c.extend_from_slice(&a);
            let at = c.len();
            c.extend_from_slice(&a);
            f(&c);
            for i in 0..a.len() {
                c[at + i] ^= 1;
                f(&c);
                c[at + i] ^= 1;
            }
            for m in [n - 1, n + 1] {
                c.truncate(at);
                c.extend_from_slice(&mk(m, 0x41));
                f(&c);
            }
        }),
        c24,
    ));
    // single-byte differences
    let base = Trees::new(small_shape(), 3).all();
    let units = base.len();
    v.push(fam(
        "pairs-mutants",
        format!("each of {} trees of <= 3 nodes against itself with one byte replaced by every other value", units),
        units,
        Box::new(move |u, f| {
            let a = &base[u];
            let mut m = a.clone();
            for i in 0..a.len() {
                for x in 0..=255u8 {
                    m[i] = x;
                    let mut c = vec![(a.len() >> 8) as u8, a.len() as u8];
                    c.extend_from_slice(a);
                    c.extend_from_slice(&m);
                    f(&c);
                }
                m[i] = a[i];
            }
        }),
        c24,
    ));
    v
}
