//! C15: the standard tagged types.

use super::bytes::A_STD;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::real::*;
use crate::refm::*;
use cbored::tagged::*;
use cbored::*;

type R = Result<(), String>;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C15",
        rule: "for every enumerated input and each of the 5 tagged types: decodes iff the model finds the right tag number and content shape, consumes exactly the element, re-encodes to the same bytes, accessors return the content",
        families,
        assumptions: A_STD,
    }]
}

fn content(b: &[u8], pos: usize, text: bool) -> Option<Vec<u8>> {
    match node(b, pos) {
        Ok((n, _, _)) if readable(b, &n) => match n {
            Node::Str { text: t, chunks, .. } if t == text => {
                let mut v = vec![];
                for (_, (s, e)) in chunks {
                    v.extend_from_slice(&b[s..e])
                }
                Some(v)
            }
            _ => None,
        },
        _ => None,
    }
}
/// position of the content of the tag at pos when it carries that number
fn tag_at(b: &[u8], pos: usize, no: u64) -> Option<(usize, usize)> {
    match node(b, pos) {
        Ok((Node::Tag { val, item, .. }, _, _)) if val == no => Some(item),
        _ => None,
    }
}
#[derive(PartialEq, Debug)]
enum Num {
    Pos(W, u64),
    Neg(W, u64),
    PosBig(Vec<u8>),
    NegBig(Vec<u8>),
}
fn num(b: &[u8], pos: usize, den: bool) -> Option<Num> {
    match node(b, pos).ok()?.0 {
        Node::Pos(w, v) => Some(Num::Pos(w, v)),
        Node::Neg(w, v) if !den => Some(Num::Neg(w, v)),
        Node::Tag { val: 2, item, .. } => content(b, item.0, false).map(Num::PosBig),
        Node::Tag { val: 3, item, .. } if !den => content(b, item.0, false).map(Num::NegBig),
        _ => None,
    }
}
fn rational(b: &[u8]) -> Option<(Num, Num)> {
    let (s, _) = tag_at(b, 0, 30)?;
    match node(b, s).ok()?.0 {
        Node::Array { items, .. } if items.len() == 2 => Some((num(b, items[0].0, false)?, num(b, items[1].0, true)?)),
        _ => None,
    }
}

fn one<T: Decode + Encode + Clone + PartialEq + std::fmt::Debug, V: PartialEq + std::fmt::Debug>(
    b: &[u8],
    end: usize,
    want: Option<V>,
    read: impl Fn(&mut Reader) -> Result<T, ReaderError>,
    view: impl Fn(&T) -> V,
    c: &mut Ctx,
) -> R {
    let n = std::any::type_name::<T>();
    let mut r = Reader::new(b);
    let whole = want.is_some() && end == b.len();
    c.execs += 3;
    match (r.decode::<T>(), &want) {
        (Ok(x), Some(v)) => {
            ensure!(r.consumed_bytes() == end, "{}: consumed {}, element has {} bytes", n, r.consumed_bytes(), end);
            ensure!(view(&x) == *v, "{}: content is {:?}, want {:?}", n, view(&x), v);
            let e = encode_to_bytes(&x);
            ensure!(e == b[..end], "{}: re-encoded as {:02x?}, was {:02x?}", n, short(&e), short(&b[..end]));
            ensure!(written(|w| w.encode(&x)) == b[..end], "{}: written differently", n);
            let y = x.clone();
            ensure!(y == x && encode_to_bytes(&y) == b[..end], "{}: clone differs", n);
            c.out("decoded");
        }
        (Err(_), None) => c.out("refused"),
        (Ok(x), None) => return Err(format!("{} decodes as {:?}", n, x)),
        (Err(e), Some(v)) => return Err(format!("{} with content {:?} is refused: {:?}", n, v, e)),
    }
    let mut r = Reader::new(b);
    match (read(&mut r), &want) {
        (Ok(x), Some(v)) => ensure!(view(&x) == *v && r.consumed_bytes() == end, "{}::read differs", n),
        (Err(_), None) => (),
        (x, _) => return Err(format!("{}::read gives {:?}, want {:?}", n, x, want)),
    }
    match (decode_from_bytes::<T>(b), whole) {
        (Ok(x), true) => ensure!(&view(&x) == want.as_ref().unwrap(), "{}: decode_from_bytes differs", n),
        (Err(_), false) => (),
        (x, w) => return Err(format!("{}: decode_from_bytes gives {:?}, want {}", n, x, if w { "a value" } else { "an error" })),
    }
    Ok(())
}

fn c15(b: &[u8], c: &mut Ctx) -> R {
    let end = c.model_item(b, 0).unwrap_or(0);
    let bytes = |no: u64| tag_at(b, 0, no).and_then(|(s, _)| content(b, s, false));
    let text = tag_at(b, 0, 0).and_then(|(s, _)| content(b, s, true)).map(|_| ());
    one::<StandardDateTime, _>(b, end, text, |r| StandardDateTime::read(r), |_| (), c)?;
    one::<PositiveBignum, _>(b, end, bytes(2), |r| PositiveBignum::read(r), |x| x.to_be_bytes(), c)?;
    one::<NegativeBignum, _>(b, end, bytes(3), |r| NegativeBignum::read(r), |x| x.to_be_bytes(), c)?;
    one::<EncodedCBOR, _>(b, end, bytes(24), |r| EncodedCBOR::read(r), |x| x.to_bytes(), c)?;
    one::<RationalNumber, _>(
        b,
        end,
        rational(b),
        |r| RationalNumber::read(r),
        |x| {
            let n = match x.numerator() {
                RationalNumerator::Positive(p) => Num::Pos(hv(p.raw_value()).0, p.to_u64()),
                RationalNumerator::Negative(p) => Num::Neg(hv(p.raw_value()).0, p.negative_u64()),
                RationalNumerator::PositiveBignum(p) => Num::PosBig(p.to_be_bytes()),
                RationalNumerator::NegativeBignum(p) => Num::NegBig(p.to_be_bytes()),
            };
            let d = match x.denominator() {
                RationalDenominator::Positive(p) => Num::Pos(hv(p.raw_value()).0, p.to_u64()),
                RationalDenominator::PositiveBignum(p) => Num::PosBig(p.to_be_bytes()),
            };
            (n, d)
        },
        c,
    )
}

/// case: payload of an embedded element
fn embedded(p: &[u8], c: &mut Ctx) -> R {
    let x = EncodedCBOR::from_bytes(p);
    let mut want = vec![0xd8, 24];
    put_short(&mut want, 2, p.len() as u64);
    want.extend_from_slice(p);
    c.execs += 1;
    c.trans += 1;
    c.state_bytes(15, p);
    ensure!(x.to_bytes() == p, "EncodedCBOR::from_bytes holds other bytes");
    ensure!(encode_to_bytes(&x) == want, "EncodedCBOR::from_bytes is encoded {:02x?}, want {:02x?}", short(&encode_to_bytes(&x)), short(&want));
    let y = decode_from_bytes::<EncodedCBOR>(&want).map_err(|e| format!("{:?}", e))?;
    ensure!(y.to_bytes() == p, "EncodedCBOR reads back differently");
    c.out("embedded");
    Ok(())
}

fn heads() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for no in [0u64, 1, 2, 3, 4, 5, 22, 23, 24, 25, 29, 30, 31, 32, 254, 255, 256, 258, 259, 280, 286, 65536, 65538, 65539, 65560, 65566, 1 << 32, (1 << 32) + 2, (1 << 32) + 3, (1 << 32) + 24, (1 << 32) + 30, u64::MAX] {
        for w in WIDTHS {
            if w.fits(no) {
                let mut b = vec![];
                put_head(&mut b, 6, w, no);
                v.push(b);
            }
        }
    }
    v
}
fn big_forms() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for h in ["c2", "c3", "d802", "d803", "d90002", "da00000003", "db0000000000000002", "c1", "c0", "d81e", "d902", "c4", "c22"] {
        if h.len() % 2 == 1 || h == "d902" {
            continue;
        }
        for p in ["40", "4101", "420100", "580101", "5fff", "5f4101ff", "5f4101420203ff", "60", "6161", "01", "20", "80", "8101", "f6", "c24101", "5f40"] {
            let mut b = unhex(h);
            b.extend_from_slice(&unhex(p));
            v.push(b);
        }
    }
    for p in [
        "00", "17", "1800", "18ff", "190000", "1a00000001", "1b0000000000000001", "1bffffffffffffffff", "20", "37", "3800", "390001", "3a00000001", "3bffffffffffffffff",
        "40", "4101", "60", "80", "820102", "a0", "f4", "f6", "e0", "f820", "f93c00", "ff", "1c",
    ] {
        v.push(unhex(p));
    }
    v
}

fn families(t: Tier) -> Vec<Family> {
    let th = t == Tier::Thorough;
    let mut v = inputs(t, th as usize, c15);
    // tag headers x contents
    let contents: Vec<Vec<u8>> = {
        let mut c = Trees::new(wide_shape(), 1).all();
        c.extend(Trees::new(small_shape(), if th { 3 } else { 2 }).all());
        c.extend(["40ff", "4100ff", "5f", "5f41", "7f6161", "ff", "", "6161ff", "82", "8201", "820102ff"].iter().map(|s| unhex(s)));
        c
    };
    let hs = heads();
    let n = hs.len();
    let m = contents.len();
    v.push(fam(
        "tags-contents",
        format!("{} tag headers x {} contents, alone and followed by a byte", n, m),
        n,
        Box::new(move |u, f| {
            for c in &contents {
                let mut b = hs[u].clone();
                b.extend_from_slice(c);
                f(&b);
                b.push(0x00);
                f(&b);
            }
        }),
        c15,
    ));
    // rationals
    let nums = big_forms();
    let k = nums.len();
    let mut tags: Vec<Vec<u8>> = ["d81e", "d9001e", "da0000001e", "db000000000000001e"].iter().map(|s| unhex(s)).collect();
    tags.extend(["c2", "d81f", "d91e00", "d818"].iter().map(|s| unhex(s)));
    let lens: Vec<&'static str> = vec!["82", "9802", "990002", "9a00000002", "9b0000000000000002", "9f", "81", "83", "80", "a1", "9b0000000100000002"];
    let bound = format!("{} tags x {} container headers x {} numerators x {} denominators", tags.len(), lens.len(), k, k);
    v.push(fam(
        "rationals",
        bound,
        k * lens.len(),
        Box::new(move |u, f| {
            let l = lens[u % lens.len()];
            let nu = &nums[u / lens.len()];
            for (ti, tag) in tags.iter().enumerate() {
                if ti > 0 && !th && (u / lens.len()) % 3 != 0 {
                    continue;
                }
                for de in &nums {
                    let mut b = tag.clone();
                    b.extend_from_slice(&unhex(l));
                    b.extend_from_slice(nu);
                    b.extend_from_slice(de);
                    match l {
                        "9f" => {
                            f(&b);
                            b.push(0xff);
                            f(&b);
                            b.pop();
                            b.push(0x00);
                            b.push(0xff);
                            f(&b);
                        }
                        "83" => {
                            b.push(0x00);
                            f(&b)
                        }
                        _ => {
                            f(&b);
                            b.push(0x00);
                            f(&b);
                        }
                    }
                }
            }
        }),
        c15,
    ));
    // one or no item, and mutations of rationals
    let mut base: Vec<Vec<u8>> = [
        "d81e820102", "d81e822002", "d81e82c2410102", "d81e82c3410102", "d81e8201c24102", "d81e82c3420102c2420304", "d81e9f01c25f41024103ffff", "d81e82c35f4101ff1903e8",
        "d81e80", "d81e8101", "d81e9fff", "d81e9f01ff", "c0746869732069732061207465787420737472696e67", "c07f6161626262ff", "c249010000000000000000", "c35f41014102ff", "d818458201820203",
        "d8185f4282014182ff",
    ]
    .iter()
    .map(|s| unhex(s))
    .collect();
    base.sort();
    let nb = base.len();
    v.push(fam(
        "tagged-mutants",
        format!("every single-byte substitution, deletion and truncation, and every pair of substitutions by sharp bytes, of {} tagged elements", nb),
        nb,
        Box::new(move |u, f| {
            let b = base[u].clone();
            f(&b);
            let mut m = b.clone();
            for i in 0..b.len() {
                f(&b[..i]);
                for x in 0..=255u8 {
                    m[i] = x;
                    f(&m);
                }
                m[i] = b[i];
                let mut d = b.clone();
                d.remove(i);
                f(&d);
                for j in i + 1..b.len() {
                    for x in SHARP {
                        m[i] = *x;
                        for y in SHARP {
                            m[j] = *y;
                            f(&m);
                        }
                    }
                    m[i] = b[i];
                    m[j] = b[j];
                }
            }
        }),
        c15,
    ));
    // contents of every size
    let mut sizes: Vec<usize> = (0..=70).collect();
    sizes.extend_from_slice(SIZES);
    sizes.extend_from_slice(BIG_SIZES);
    if th {
        sizes.extend(71..=1100);
        sizes.extend_from_slice(HUGE_SIZES);
    }
    sizes.sort();
    sizes.dedup();
    let ns = sizes.len();
    v.push(fam(
        "long-contents",
        format!("tags 0 2 3 24 30 x strings of each of {} sizes, in every width, in chunks of 1, 255, 256 and all, and as parts of a rational; whole, a byte short, with one more, and with one byte not UTF-8 at its end", ns),
        ns,
        Box::new(move |u, f| {
            let n = sizes[u];
            let body: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
            for mt in [2u8, 3] {
                let mut forms: Vec<Vec<u8>> = vec![];
                for w in WIDTHS {
                    if w.fits(n as u64) {
                        let mut b = vec![];
                        put_head(&mut b, mt, w, n as u64);
                        b.extend_from_slice(&body);
                        forms.push(b);
                    }
                }
                for k in [1usize, 255, 256, n.max(1)] {
                    for w in [None, Some(W::B4)] {
                        let mut b = vec![mt << 5 | 31];
                        for c in body.chunks(k) {
                            put_head(&mut b, mt, w.unwrap_or(W::shortest(c.len() as u64)), c.len() as u64);
                            b.extend_from_slice(c);
                        }
                        b.push(0xff);
                        forms.push(b);
                    }
                }
                for x in forms {
                    for tag in [&[0xc0u8][..], &[0xc2], &[0xc3], &[0xd8, 24], &[0xd9, 0, 3], &[0xd8, 30]] {
                        let mut b = tag.to_vec();
                        b.extend_from_slice(&x);
                        f(&b);
                        b.push(0x00);
                        f(&b);
                        b.truncate(b.len() - 2);
                        f(&b);
                    }
                    if mt == 3 && n > 0 && x[0] != 0x7f {
                        let mut b = vec![0xc0];
                        b.extend_from_slice(&x);
                        *b.last_mut().unwrap() = 0xc3;
                        f(&b);
                    }
                    if mt == 2 {
                        for t in [0xc2u8, 0xc3] {
                            f(&[&[0xd8, 30, 0x82, t], &x[..], &[0x05]].concat());
                            f(&[&[0xd8, 30, 0x82, 0x20, t][..], &x[..]].concat());
                            f(&[&[0xd8, 30, 0x9f, t], &x[..], &[0xc2], &x[..], &[0xff]].concat());
                        }
                    }
                }
            }
        }),
        c15,
    ));
    let mut ps: Vec<Vec<u8>> = Trees::new(wide_shape(), 2).all();
    ps.extend(SIZES.iter().map(|n| vec![0x5a; *n]));
    ps.extend([65535usize, 65536].iter().map(|n| vec![0x5a; *n]));
    v.push(list("embedded", "EncodedCBOR::from_bytes of trees and of strings of all sizes".into(), ps, embedded));
    v
}
