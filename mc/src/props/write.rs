//! C12: the writer, driven by every program of writer calls up to a bound.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::real::*;
use crate::refm::*;
use super::bytes::header_args as header_args_w;
use cbored::validate::Validator;
use cbored::*;

type R = Result<(), String>;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C12",
        rule: "every program of up to n writer calls (nested builders included), run on the real writer started empty and with bytes already in it; output must be the concatenation computed by an interpreter of the same program over the reference encoder, and read back when well-formed",
        families,
        assumptions: super::bytes::A_STD,
    }]
}

/// names of the calls, for the evidence
const OPS_N: u8 = 46;
const END: u8 = 45;

fn dat<'a>(b: &'a [u8]) -> Data<'a> {
    Reader::new(b).data().expect("fixed element")
}

/// what the model appends for a call without a body
fn model_simple(op: u8, out: &mut Vec<u8>) {
    let h = |s: &str| unhex(s);
    let x = match op {
        0 => h("0a"),
        1 => h("1b0000000100000000"),
        2 => h("3818"),
        3 => h("190100"),
        4 => h("1a00000001"), // non-canonical, as read
        5 => h("3900ff"),
        6 => h("e3"),
        7 => h("f820"),
        8 => h("f803"), // non-canonical, as read
        9 => h("f4"),
        10 => h("f5"),
        11 => h("f6"),
        12 => h("f7"),
        13 => h("f5"),
        14 => h("f4"),
        15 => h("f97e01"),
        16 => h("fa80000000"),
        17 => h("fb7ff0000000000001"),
        18 => h("42ff00"),
        19 => h("5f4161405818000102030405060708090a0b0c0d0e0f1011121314151617ff"),
        20 => h("5fff"),
        21 => h("5800"), // non-canonical, as read
        22 => h("62c3a9"),
        23 => h("7f6161606162ff"),
        24 => h("7fff"),
        25 => h("980201820102"),
        26 => h("9f00ff"),
        27 => h("a10020"),
        28 => h("bf0000ff"),
        29 => h("d81841a0"),
        30 => h("c0c1f6"),
        31 => h("bf5f4101ff9fffff"),
        32 => h("9fff"),   // CborSlice appended
        33 => h("820102"), // encode_vec
        34 => h("80"),
        35 => h("60"), // str
        36 => h("f6"),
        37 => h("440102f6ff"),
        _ => unreachable!(),
    };
    out.extend_from_slice(&x);
}
fn real_simple(op: u8, w: &mut Writer) {
    match op {
        0 => w.positive(Positive::canonical(10)),
        1 => w.encode(&0x1_0000_0000u64),
        2 => w.negative(Negative::canonical(24)),
        3 => w.scalar(Scalar::canonical_positive(256)),
        4 => w.positive(Reader::new(&unhex("1a00000001")).positive().unwrap()),
        5 => w.scalar(Reader::new(&unhex("3900ff")).scalar().unwrap()),
        6 => w.byte(Byte::canonical(3)),
        7 => w.byte(Byte::canonical(32)),
        8 => w.byte(Reader::new(&unhex("f803")).byte().unwrap()),
        9 => w.constant(Constant::False),
        10 => w.constant(Constant::True),
        11 => w.constant(Constant::Null),
        12 => w.constant(Constant::Undefined),
        13 => w.bool(true),
        14 => w.encode(&false),
        15 => w.float(Float::FP16(0x7e01)),
        16 => w.float(Float::FP32(0x8000_0000)),
        17 => w.encode(&Float::FP64(0x7ff0_0000_0000_0001)),
        18 => w.bytes(&Bytes::from_slice(&[0xff, 0])),
        19 => {
            let long: Vec<u8> = (0..24).collect();
            w.bytes(&Bytes::Chunks(vec![BytesData::from_slice(b"a"), BytesData::from_slice(b""), BytesData::from_slice(&long)]))
        }
        20 => w.bytes(&Bytes::Chunks(vec![])),
        21 => w.bytes(&Reader::new(&unhex("5800")).bytes().unwrap()),
        22 => w.text(&Text::from_str("é")),
        23 => w.text(&Text::Chunks(vec![TextData::from_str("a"), TextData::from_str(""), TextData::from_str("b")])),
        24 => w.text(&Text::Chunks(vec![])),
        25 => w.array(&Reader::new(&unhex("980201820102")).array().unwrap()),
        26 => w.array(&Reader::new(&unhex("9f00ff")).array().unwrap()),
        27 => w.map(&Reader::new(&unhex("a10020")).map().unwrap()),
        28 => w.encode(&Reader::new(&unhex("bf0000ff")).map().unwrap()),
        29 => w.tag(&Reader::new(&unhex("d81841a0")).tag().unwrap()),
        30 => w.data(&dat(&unhex("c0c1f6"))),
        31 => w.encode(&dat(&unhex("bf5f4101ff9fffff")).owned()),
        32 => {
            let b = unhex("9fff");
            let (s, _) = Validator::new(&b).next().unwrap();
            w.encode(s);
        }
        33 => encode_vec(&[1u8, 2], w),
        34 => encode_vec::<u64>(&[], w),
        35 => w.encode(""),
        36 => w.data(&Data::Null),
        37 => w.encode(&[1u8, 2, 0xf6, 0xff]),
        _ => unreachable!(),
    }
}

fn slen_of(op: u8) -> Option<Option<(W, u64)>> {
    match op {
        38 | 42 => Some(None),
        39 => Some(Some((W::Imm, 0))),
        40 => Some(Some((W::B2, 2))),
        41 | 43 => Some(Some((W::Imm, 1))),
        _ => None,
    }
}

/// interpret on the reference encoder; returns the position after the closing END
fn model_run(p: &[u8], mut i: usize, out: &mut Vec<u8>, steps: &mut u64) -> usize {
    while i < p.len() {
        let op = p[i];
        i += 1;
        *steps += 1;
        match op {
            END => return i,
            0..=37 => model_simple(op, out),
            38..=43 => {
                let mt = if op <= 41 { 4 } else { 5 };
                let l = slen_of(op).unwrap();
                match l {
                    None => out.push(mt << 5 | 31),
                    Some((w, v)) => put_head(out, mt, w, v),
                }
                i = model_run(p, i, out, steps);
                if l.is_none() {
                    out.push(0xff)
                }
            }
            44 => {
                put_head(out, 6, W::B1, 24);
                i = model_run(p, i, out, steps);
            }
            _ => unreachable!(),
        }
    }
    i
}
fn real_run(p: &[u8], mut i: usize, w: &mut Writer) -> usize {
    while i < p.len() {
        let op = p[i];
        i += 1;
        match op {
            END => return i,
            0..=37 => real_simple(op, w),
            38..=43 => {
                let l = to_slen(slen_of(op).unwrap());
                let mut j = i;
                if op <= 41 {
                    w.array_build(l, |w| j = real_run(p, i, w));
                } else {
                    w.map_build(l, |w| j = real_run(p, i, w));
                }
                i = j;
            }
            44 => {
                let mut j = i;
                w.tag_build(TagValue::from_u64(24), |w| j = real_run(p, i, w));
                i = j;
            }
            _ => unreachable!(),
        }
    }
    i
}
fn model_all(p: &[u8], steps: &mut u64) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < p.len() {
        i = model_run(p, i, &mut out, steps);
    }
    out
}

fn programs(p: &[u8], c: &mut Ctx) -> R {
    let want = model_all(p, &mut c.trans);
    c.state_bytes(12, &want);
    c.execs += 1;
    for prefix in [&[][..], &[0xff, 0x00, 0x5f]] {
        let mut w = if prefix.is_empty() { Writer::new() } else { Writer::new_from_vec(prefix.to_vec()) };
        let mut i = 0;
        while i < p.len() {
            i = real_run(p, i, &mut w);
        }
        let got = w.finalize();
        ensure!(got.starts_with(prefix), "the bytes the writer was started with are lost");
        ensure!(got[prefix.len()..] == want, "wrote {:02x?}, want {:02x?}", short(&got[prefix.len()..]), short(&want));
    }
    let mut w = Writer::new();
    let mut i = 0;
    while i < p.len() {
        i = real_run(p, i, &mut w);
    }
    ensure!(w.finalize_data().as_ref() == &want[..], "finalize_data differs from finalize");
    // reads back when the counts match
    if let Ok((n, _, end)) = node(&want, 0) {
        if readable(&want, &n) {
            let mut r = Reader::new(&want);
            let d = r.data().map_err(|e| format!("well-formed output does not read back: {:?}", e))?;
            ensure!(r.consumed_bytes() == end, "output reads back with another length");
            chk_data(&want, &d, &n)?;
            c.out("well-formed");
            return Ok(());
        }
    }
    c.out("count mismatch or empty");
    Ok(())
}

/// case: kind, number of elements (3 bytes)
fn builders(case: &[u8], c: &mut Ctx) -> R {
    let n = (case[1] as usize) << 16 | (case[2] as usize) << 8 | case[3] as usize;
    let style = case[0];
    let mut b = ArrayBuilder::new();
    let mut body = vec![];
    for i in 0..n {
        match i % 4 {
            0 => {
                b.append_encodable(&(i as u64));
                put_short(&mut body, 0, i as u64);
            }
            1 => {
                let e = [0x9f, 0x00, 0xff];
                let (s, _) = Validator::new(&e).next().map_err(|e| format!("{:?}", e))?;
                b.append(s.to_owned());
                body.extend_from_slice(&e);
            }
            2 => {
                b.append_encodable(&true);
                body.push(0xf5);
            }
            _ => {
                let mut w = Writer::new();
                w.text(&Text::from_str("x"));
                b.append(w.finalize_data());
                body.extend_from_slice(&[0x61, b'x']);
            }
        }
    }
    let mut want = vec![];
    let a = if style == 0 {
        put_short(&mut want, 4, n as u64);
        want.extend_from_slice(&body);
        b.finite()
    } else {
        want.push(0x9f);
        want.extend_from_slice(&body);
        want.push(0xff);
        b.indefinite()
    };
    c.execs += 3;
    c.trans += n as u64;
    c.state_bytes(13, case);
    ensure!(a.len() == n, "builder of {} elements has {}", n, a.len());
    ensure!(written(|w| w.array(&a.borrow())) == want, "array of {} built elements is written wrongly", n);
    ensure!(encode_to_bytes(&DataOwned::Array(a)) == want, "array of {} built elements is encoded wrongly", n);
    c.out(if style == 0 { "finite" } else { "indefinite" });
    Ok(())
}

/// case: kind, 3 bytes number: encode_vec / array_build / map_build with n elements
fn counts(case: &[u8], c: &mut Ctx) -> R {
    let n = (case[1] as usize) << 16 | (case[2] as usize) << 8 | case[3] as usize;
    let (mut want, got) = (vec![], match case[0] {
        0 => written(|w| encode_vec(&(0..n as u32).collect::<Vec<u32>>(), w)),
        1 => written(|w| w.array_build(StructureLength::from(n as u64), |w| (0..n as u64).for_each(|i| w.encode(&i)))),
        2 => written(|w| w.array_build(StructureLength::Indefinite, |w| (0..n as u64).for_each(|i| w.encode(&i)))),
        3 => written(|w| w.map_build(StructureLength::from(n as u64), |w| (0..n as u64).for_each(|i| { w.encode(&i); w.encode("v") }))),
        4 => written(|w| w.map_build(StructureLength::Indefinite, |w| (0..n as u64).for_each(|i| { w.encode(&i); w.encode("v") }))),
        5 => { let l: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8; i % 3]).collect(); written(|w| encode_vec(&l, w)) }
        _ => { let l: Vec<u64> = (0..n as u64).collect(); written(|w| w.tag_build(TagValue::from_u64(n as u64), |w| encode_vec(&l, w))) }
    });
    let (mt, indef) = match case[0] { 2 => (4, true), 4 => (5, true), 3 => (5, false), _ => (4, false) };
    if case[0] == 6 {
        put_short(&mut want, 6, n as u64);
    }
    if indef { want.push(mt << 5 | 31) } else { put_short(&mut want, mt, n as u64) }
    for i in 0..n {
        match case[0] {
            5 => { put_short(&mut want, 2, (i % 3) as u64); want.extend(std::iter::repeat(i as u8).take(i % 3)) }
            _ => put_short(&mut want, 0, i as u64),
        }
        if mt == 5 { want.extend_from_slice(&[0x61, b'v']) }
    }
    if indef { want.push(0xff) }
    c.execs += 1;
    c.trans += n as u64;
    c.state_bytes(14, case);
    ensure!(got == want, "kind {} with {} elements: wrote {:02x?}.. ({} bytes), want {:02x?}.. ({} bytes)", case[0], n, short(&got), got.len(), short(&want), want.len());
    ensure!(item(&got, 0) == Ok(got.len()), "output is not well-formed");
    let mut r = Reader::new(&got);
    ensure!(r.data().is_ok() && r.is_finished(), "output does not read back");
    c.out("counted");
    Ok(())
}

/// tag numbers can only be had in a wide form by reading them
fn tag_value(w: W, v: u64) -> TagValue {
    let mut b = vec![];
    put_head(&mut b, 6, w, v);
    b.push(0);
    Reader::new(&b).tag().expect("a tag").tag_repr()
}

const FORM_VALS: &[u64] = &[0, 1, 2, 3, 22, 23, 24, 25, 255, 256, 65535, 65536, 0xffff_ffff, 0x1_0000_0000, u64::MAX];

/// case: outer context, builder kind, width (5: indefinite), value index, body
fn forms(case: &[u8], c: &mut Ctx) -> R {
    let (outer, kind, wi, vi, body) = (case[0], case[1], case[2] as usize, case[3] as usize, case[4]);
    let v = FORM_VALS[vi];
    let l = if wi == 5 { None } else { Some((WIDTHS[wi], v)) };
    let real_body = |w: &mut Writer| match body {
        0 => (),
        1 => w.encode(&5u8),
        2 => {
            w.encode(&5u8);
            w.encode("k")
        }
        3 => w.array_build(StructureLength::Indefinite, |_| ()),
        4 => w.map_build(to_slen(l), |w| w.bool(true)),
        5 => w.tag_build(tag_value(W::B4, 6), |w| w.array_build(to_slen(l), |_| ())),
        _ => {
            let mut b = ArrayBuilder::new();
            b.append_encodable(&1u8);
            w.array(&b.indefinite().borrow())
        }
    };
    let real_inner = |w: &mut Writer| match kind {
        0 => w.array_build(to_slen(l), real_body),
        1 => w.map_build(to_slen(l), real_body),
        _ => w.tag_build(tag_value(WIDTHS[wi], v), real_body),
    };
    let got = {
        let mut w = Writer::new_from_vec(vec![0x81]);
        match outer {
            0 => real_inner(&mut w),
            1 => w.array_build(StructureLength::Indefinite, real_inner),
            2 => w.map_build(StructureLength::from(1), real_inner),
            _ => w.tag_build(tag_value(W::B8, 1), real_inner),
        }
        w.finalize()
    };
    let open = |out: &mut Vec<u8>, mt: u8, l: Option<(W, u64)>| match l {
        None => out.push(mt << 5 | 31),
        Some((w, v)) => put_head(out, mt, w, v),
    };
    let mut want = vec![0x81];
    match outer {
        0 => (),
        1 => open(&mut want, 4, None),
        2 => open(&mut want, 5, Some((W::Imm, 1))),
        _ => open(&mut want, 6, Some((W::B8, 1))),
    }
    open(&mut want, 4 + kind, l);
    match body {
        0 => (),
        1 => want.push(5),
        2 => want.extend_from_slice(&[5, 0x61, b'k']),
        3 => want.extend_from_slice(&[0x9f, 0xff]),
        4 => {
            open(&mut want, 5, l);
            want.push(0xf5);
            if l.is_none() {
                want.push(0xff)
            }
        }
        5 => {
            open(&mut want, 6, Some((W::B4, 6)));
            open(&mut want, 4, l);
            if l.is_none() {
                want.push(0xff)
            }
        }
        _ => want.extend_from_slice(&[0x9f, 1, 0xff]),
    }
    if kind < 2 && l.is_none() {
        want.push(0xff)
    }
    if outer == 1 {
        want.push(0xff)
    }
    c.execs += 1;
    c.trans += 3;
    c.state_bytes(15, case);
    ensure!(got == want, "context {}, kind {}, length {:?}, body {}: wrote {:02x?}, want {:02x?}", outer, kind, l, body, got, want);
    c.out("as asked");
    Ok(())
}

/// case: one element; the call made for its own type writes it back, at the end of what is there
fn typed_calls(b: &[u8], c: &mut Ctx) -> R {
    let Ok((n, _, end)) = node(b, 0) else { return Ok(()) };
    if !readable(b, &n) {
        return Ok(());
    }
    let b = &b[..end];
    let d = Reader::new(b).data().map_err(|e| format!("does not read: {:?}", e))?;
    for pre in [&[][..], &[0x9f], &[0x5f, 0x41]] {
        let mut outs: Vec<(&str, Vec<u8>)> = vec![];
        let mut go = |what: &'static str, f: &mut dyn FnMut(&mut Writer)| {
            let mut w = Writer::new_from_vec(pre.to_vec());
            f(&mut w);
            outs.push((what, w.finalize()));
        };
        go("data", &mut |w| w.data(&d));
        go("encode", &mut |w| w.encode(&d));
        go("encode owned", &mut |w| w.encode(&d.owned()));
        match &d {
            Data::Positive(x) => {
                go("positive", &mut |w| w.positive(*x));
                go("scalar", &mut |w| w.scalar(Scalar::Positive(*x)));
                go("encode", &mut |w| w.encode(x));
                go("encode", &mut |w| w.encode(&Scalar::Positive(*x)));
            }
            Data::Negative(x) => {
                go("negative", &mut |w| w.negative(*x));
                go("scalar", &mut |w| w.scalar(Scalar::Negative(*x)));
                go("encode", &mut |w| w.encode(x));
                go("encode", &mut |w| w.encode(&Scalar::Negative(*x)));
            }
            Data::Float(x) => {
                go("float", &mut |w| w.float(*x));
                go("encode", &mut |w| w.encode(x));
            }
            Data::Byte(x) => {
                go("byte", &mut |w| w.byte(*x));
                go("encode", &mut |w| w.encode(x));
            }
            Data::Bytes(x) => {
                go("bytes", &mut |w| w.bytes(x));
                go("encode", &mut |w| w.encode(x));
                go("encode owned", &mut |w| w.encode(&x.owned()));
            }
            Data::Text(x) => {
                go("text", &mut |w| w.text(x));
                go("encode", &mut |w| w.encode(x));
                go("text of owned", &mut |w| w.text(&x.owned().borrow()));
            }
            Data::Array(x) => {
                go("array", &mut |w| w.array(x));
                go("encode", &mut |w| w.encode(x));
                go("array of owned", &mut |w| w.array(&x.owned().borrow()));
                go("array_build", &mut |w| w.array_build(x.struct_len(), |w| (0..x.len()).for_each(|i| w.encode(x[i]))));
                go("array_build of owned", &mut |w| w.array_build(x.struct_len(), |w| (0..x.len()).for_each(|i| w.encode(&x.owned()[i]))));
            }
            Data::Map(x) => {
                go("map", &mut |w| w.map(x));
                go("encode", &mut |w| w.encode(x));
                go("map of owned", &mut |w| w.map(&x.owned().borrow()));
                go("map_build", &mut |w| {
                    w.map_build(x.struct_len(), |w| {
                        (0..x.len()).for_each(|i| {
                            w.encode(x[i].0);
                            w.encode(x[i].1)
                        })
                    })
                });
            }
            Data::Tag(x) => {
                go("tag", &mut |w| w.tag(x));
                go("encode", &mut |w| w.encode(x));
                go("tag of owned", &mut |w| w.tag(&x.owned().borrow()));
                go("tag_build", &mut |w| w.tag_build(x.tag_repr(), |w| w.encode(x.data())));
            }
            Data::True | Data::False => {
                let t = matches!(d, Data::True);
                go("bool", &mut |w| w.bool(t));
                go("encode", &mut |w| w.encode(&t));
                go("constant", &mut |w| w.constant(if t { Constant::True } else { Constant::False }));
                go("encode", &mut |w| w.encode(&if t { Constant::True } else { Constant::False }));
            }
            Data::Null => {
                go("constant", &mut |w| w.constant(Constant::Null));
                go("encode", &mut |w| w.encode(&Constant::Null));
            }
            Data::Undefined => {
                go("constant", &mut |w| w.constant(Constant::Undefined));
                go("encode", &mut |w| w.encode(&Constant::Undefined));
            }
        }
        for (what, got) in outs {
            c.execs += 1;
            ensure!(
                got.len() == pre.len() + b.len() && got.starts_with(pre) && got[pre.len()..] == *b,
                "{}: wrote {:02x?} after {:02x?}, want {:02x?}",
                what,
                short(&got),
                pre,
                short(b)
            );
        }
    }
    c.trans += 1;
    c.state_bytes(16, b);
    c.out("written by its own call");
    Ok(())
}

/// a case is the calls (3), then what the writer is started with
fn starts(case: &[u8], c: &mut Ctx) -> R {
    let (p, start) = case.split_at(3);
    let p: Vec<u8> = p.iter().copied().filter(|o| *o != 0xff).collect();
    let want = [start, &model_all(&p, &mut c.trans)[..]].concat();
    for spare in [0, 64] {
        let mut v = Vec::with_capacity(start.len() + spare);
        v.extend_from_slice(start);
        let mut w = Writer::new_from_vec(v);
        let mut i = 0;
        while i < p.len() {
            i = real_run(&p, i, &mut w);
        }
        c.execs += 1;
        if spare == 0 {
            let got = w.finalize();
            ensure!(got == want, "started with {:02x?}: holds {:02x?}, want {:02x?}", short(start), short(&got), short(&want));
        } else {
            let got = w.finalize_data();
            ensure!(got.as_ref() == &want[..], "started with {:02x?}: data is {:02x?}, want {:02x?}", short(start), short(got.as_ref()), short(&want));
        }
    }
    c.state_bytes(17, &want);
    c.out("appended");
    Ok(())
}

fn families(t: Tier) -> Vec<Family> {
    let depth = t.pick(4, 5);
    let k = OPS_N as usize;
    let mut v = vec![fam(
        "programs",
        format!("every program of 1..={} calls over {} writer calls (6 container builders, tag builder, closing)", depth, k),
        k * k,
        Box::new(move |u, f| {
            fn rec(p: &mut Vec<u8>, left: usize, f: &mut dyn FnMut(&[u8])) {
                f(p);
                if left > 0 {
                    for op in 0..OPS_N {
                        p.push(op);
                        rec(p, left - 1, f);
                        p.pop();
                    }
                }
            }
            let (x, y) = ((u / k) as u8, (u % k) as u8);
            if y == 0 {
                f(&[x]);
            }
            rec(&mut vec![x, y], depth - 2, f)
        }),
        programs,
    )];
    // structure-only programs go deeper
    const S: &[u8] = &[0, 20, 26, 38, 39, 40, 41, 42, 43, 44, END];
    let d2 = t.pick(6, 7);
    v.push(fam(
        "nesting-programs",
        format!("every program of 1..={} calls over {} structural calls", d2, S.len()),
        S.len() * S.len(),
        Box::new(move |u, f| {
            fn rec(p: &mut Vec<u8>, left: usize, f: &mut dyn FnMut(&[u8])) {
                f(p);
                if left > 0 {
                    for op in S {
                        p.push(*op);
                        rec(p, left - 1, f);
                        p.pop();
                    }
                }
            }
            rec(&mut vec![S[u / S.len()], S[u % S.len()]], d2 - 2, f)
        }),
        programs,
    ));
    let mut ns: Vec<usize> = (0..=300).collect();
    ns.extend_from_slice(&[511, 512, 1000, 4096, 65534, 65535, 65536, 65537]);
    if t == Tier::Thorough {
        ns.extend(300..3000);
        ns.extend_from_slice(&[100_000, 1 << 20]);
    }
    let mk = |kinds: u8| -> Vec<Vec<u8>> {
        (0..kinds).flat_map(|k| ns.iter().map(move |n| vec![k, (n >> 16) as u8, (n >> 8) as u8, *n as u8])).collect()
    };
    let mut fc = vec![];
    for outer in 0..4u8 {
        for kind in 0..3u8 {
            for wi in 0..6u8 {
                for vi in 0..FORM_VALS.len() as u8 {
                    if wi == 5 && (vi > 0 || kind == 2) || wi < 5 && !WIDTHS[wi as usize].fits(FORM_VALS[vi as usize]) {
                        continue;
                    }
                    for body in 0..7u8 {
                        fc.push(vec![outer, kind, wi, vi, body]);
                    }
                }
            }
        }
    }
    v.push(list("forms", format!("array, map and tag builders x every header form of {} values and indefinite x 7 bodies x 4 contexts, counts matching or not", FORM_VALS.len()), fc, forms));
    v.push(variant_inputs(typed_calls));
    v.push(trees("typed-calls", small_shape, t.pick(4, 5), typed_calls));
    v.push(trees("typed-calls-wide", wide_shape, t.pick(2, 3), typed_calls));
    v.push(header_args_w(typed_calls));
    // what the writer is started with
    v.push(fam(
        "starts",
        format!("writers started with every byte string of length <= 2, then no call, each of the {} calls, and each of 4 closed builders", OPS_N),
        257,
        Box::new(move |u, f| {
            let progs: Vec<[u8; 3]> = std::iter::once([0xff; 3])
                .chain((0..OPS_N).map(|o| [o, 0xff, 0xff]))
                .chain([39, 41, 43, 44].map(|o| [o, 0, END]))
                .chain([39, 41].map(|o| [o, END, 0]))
                .collect();
            for p in &progs {
                if u == 256 {
                    f(p);
                    continue;
                }
                let mut c = p.to_vec();
                c.push(u as u8);
                f(&c);
                for b in 0..=255u8 {
                    c.truncate(4);
                    c.push(b);
                    f(&c);
                }
            }
        }),
        starts,
    ));
    let mut ls = vec![];
    for n in (0..=300usize).chain([511, 512, 513, 1000, 1024, 4095, 4096, 4097, 65535, 65536, 65537]) {
        for fill in [0x00, 0x9f, 0xff] {
            for p in [[0xff; 3], [9, 0xff, 0xff], [18, 0xff, 0xff], [39, 0, END], [44, 39, END]] {
                let mut c = p.to_vec();
                c.resize(3 + n, fill);
                ls.push(c);
            }
        }
    }
    v.push(list("long-starts", "writers started with 0..=300 and up to 65537 bytes, then 5 programs".into(), ls, starts));
    // one call again and again, and builders in builders
    let mut rep = vec![];
    for op in 0..OPS_N - 1 {
        for n in MANY.iter().chain(if op < 38 { MANY_MORE } else { &[] }) {
            if op < 38 {
                rep.push([vec![op; *n], vec![9, 0]].concat());
                rep.push([&[38][..], &vec![op; *n], &[END, 9]].concat());
            } else {
                rep.push([op, END].repeat(*n));
                rep.push([op, 9, END].repeat(*n));
                rep.push([vec![op; *n], vec![0], vec![END; *n], vec![9]].concat());
                for op2 in 38..44 {
                    let o: Vec<u8> = (0..*n).map(|i| if i % 2 == 0 { op } else { op2 }).collect();
                    rep.push([&o[..], &[9, 0], &vec![END; *n], &[9]].concat());
                }
            }
        }
    }
    v.push(list("repeated-calls", format!("each of {} calls 5..=65537 times, at the top and in an indefinite array; builders side by side and in each other, alone and mixed in pairs, 5..=1025 times", OPS_N - 1), rep, programs));
    v.push(list("array-builder", "element counts 0..=300 and around 2^9..2^16, finite and indefinite".into(), mk(2), builders));
    v.push(list("counted-writers", "7 kinds of counted writing x element counts 0..=300 and around 2^9..2^16".into(), mk(7), counts));
    v
}
