//! C25: no undefined behaviour through the safe interface.
//!
//! The same bodies run in two monitors: compiled with AddressSanitizer over wide families (this registry), and
//! interpreted by Miri over narrow ones (`narrow`, used by /verif/miri). What a call answers is the business of
//! the other properties: a mismatch or a panic is no alarm here, only undefined behaviour and strings that are
//! not UTF-8 are.

use super::native::Nat;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::real::*;
use cbored::validate::Validator;
use cbored::*;
use std::borrow::Borrow;
use std::panic::{catch_unwind, AssertUnwindSafe};

type R = Result<(), String>;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        rule: "every enumerated input through every reading call, every way of slicing, typing, untyping, owning and borrowing what was read, and writing it back, executed in a monitor that stops at undefined behaviour; every string handed out is checked to be UTF-8",
        families,
        assumptions: &["the monitors (AddressSanitizer, Miri with Stacked Borrows) detect undefined behaviour when it is executed"],
    }]
}

fn s_ok(s: &str) -> R {
    ensure!(std::str::from_utf8(s.as_bytes()).is_ok(), "a string handed out is not UTF-8: {:02x?}", short(s.as_bytes()));
    Ok(())
}
fn fits(s: &[u8], b: &[u8]) -> R {
    ensure!(s.len() <= b.len(), "a slice of {} bytes covers memory that was never initialised: {} bytes were written", s.len(), b.len());
    Ok(())
}
fn use_bytes(b: &[u8]) -> u64 {
    b.iter().fold(7, |a, x| a.wrapping_mul(31).wrapping_add(*x as u64))
}
fn text(t: &Text) -> R {
    s_ok(&t.to_string())?;
    for s in t.to_str_chunks() {
        s_ok(s)?;
    }
    match t {
        Text::Imm(d) => s_ok(d.as_str()),
        Text::Chunks(p) => p.iter().try_for_each(|d| s_ok(d.as_str())),
    }
}
fn value(d: &Data, depth: usize, sum: &mut u64) -> R {
    match d {
        Data::Text(t) => {
            text(t)?;
            let o = t.owned();
            text(&o.borrow())?;
        }
        Data::Bytes(x) => {
            *sum ^= use_bytes(&x.to_vec());
            *sum ^= use_bytes(&x.owned().borrow().to_vec());
        }
        Data::Array(a) => {
            for i in 0..a.len() {
                slice(&a[i], depth, sum)?;
            }
            let o = a.owned();
            for i in 0..o.len() {
                slice(&o.borrow()[i], depth + 2, sum)?;
            }
            for mut e in a.iter() {
                if let Ok(d) = e.data() {
                    *sum ^= use_bytes(&encode_to_bytes(&d));
                }
            }
        }
        Data::Map(m) => {
            for i in 0..m.len() {
                let (k, v) = m[i];
                slice(k, depth, sum)?;
                slice(v, depth, sum)?;
            }
            let o = m.owned();
            for i in 0..o.len() {
                let b = o.borrow();
                slice(b[i].0, depth + 2, sum)?;
            }
            for (mut k, mut v) in m.iter() {
                if let (Ok(k), Ok(v)) = (k.data(), v.data()) {
                    *sum ^= use_bytes(&encode_to_bytes(&k)) ^ use_bytes(&encode_to_bytes(&v));
                }
            }
        }
        Data::Tag(t) => {
            slice(t.data(), depth, sum)?;
            slice(t.owned().borrow().data(), depth + 2, sum)?;
        }
        _ => {}
    }
    Ok(())
}
fn slice(s: &CborSlice, depth: usize, sum: &mut u64) -> R {
    *sum ^= use_bytes(s.as_ref());
    let o = s.to_owned();
    let back: &CborSlice = o.borrow();
    *sum ^= use_bytes(back.as_ref());
    if depth < 4 {
        if let Ok(d) = s.reader().data() {
            value(&d, depth + 1, sum)?;
        }
    }
    Ok(())
}

fn typed<T: Nat + Encode>(b: &[u8], sum: &mut u64) -> R {
    // slices
    let (mut owned, mut keep): (Vec<CborDataOf<T>>, Vec<&CborSliceOf<T>>) = (vec![], vec![]);
    if let Ok((s, _)) = Validator::new(b).next() {
        if let Ok(x) = s.validate_as::<T>() {
            keep.push(x);
        }
    }
    let mut r = Reader::new(b);
    if let Ok(x) = r.exact_decodable_slice::<T>() {
        keep.push(x);
    }
    let mut r = Reader::new(b);
    if let Ok(x) = r.exact_decodable_data::<T>() {
        owned.push(x);
    }
    if let Ok(x) = Writer::new_from_vec(b.to_vec()).finalize_data().validate_as::<T>() {
        owned.push(x);
    }
    for x in &keep {
        *sum ^= use_bytes(x.untype().as_ref());
        let o: CborDataOf<T> = (*x).to_owned();
        *sum ^= use_bytes(o.as_ref());
        owned.push(o);
        *sum ^= use_bytes(x.untype().to_owned().as_ref());
        if let Ok(y) = x.untype().validate_as::<DataOwned>() {
            *sum ^= use_bytes(y.untype().as_ref());
        }
        *sum ^= use_bytes(&written(|w| w.encode(*x)));
    }
    if let Ok(t) = decode_from_bytes::<T>(b) {
        owned.push(CborDataOf::from(&t));
    }
    for x in owned.iter().take(4) {
        let s: &CborSliceOf<T> = x.borrow();
        let u = s.untype();
        *sum ^= use_bytes(u.as_ref());
        let again = s.to_owned();
        if let Ok(z) = u.validate_as::<T>() {
            let z2 = z.to_owned();
            *sum ^= use_bytes(z2.as_ref());
        }
        let plain = again.untype();
        let p: &CborSlice = plain.borrow();
        *sum ^= use_bytes(p.as_ref()) ^ use_bytes(x.as_ref());
        *sum ^= use_bytes(&encode_to_bytes(x));
        std::hint::black_box(x.unserialize());
    }
    Ok(())
}

fn quiet(f: impl FnOnce() -> R) -> R {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Ok(()),
    }
}

/// everything on one input, from a buffer of exactly its size
pub fn c25(case: &[u8], c: &mut Ctx) -> R {
    let m = c.model_item(case, 0);
    let boxed: Box<[u8]> = case.into();
    let b = &boxed[..];
    let mut sum = 0;
    c.execs += 1;
    c.out(if m.is_ok() { "well-formed" } else { "ill-formed" });
    quiet(|| {
        let mut r = Reader::new(b);
        // the whole stream
        while let Ok(d) = r.data() {
            value(&d, 0, &mut sum)?;
            let o = d.owned();
            value(&o.borrow(), 3, &mut sum)?;
            sum ^= use_bytes(&encode_to_bytes(&d)) ^ use_bytes(&encode_to_bytes(&o));
            if r.is_finished() {
                break;
            }
        }
        Ok(())
    })?;
    quiet(|| {
        let mut v = Validator::new(b);
        while let Ok((s, _)) = v.next() {
            slice(s, 0, &mut sum)?;
            if v.remaining_bytes() == 0 {
                break;
            }
        }
        Ok(())
    })?;
    // data of a writer, whose buffer is larger than what was written
    quiet(|| {
        let mut spare = Vec::with_capacity(b.len() + 9);
        spare.extend_from_slice(b);
        let d = Writer::new_from_vec(spare).finalize_data();
        let s: &CborSlice = d.borrow();
        fits(s.as_ref(), b)?;
        fits(d.as_ref(), b)?;
        slice(s, 2, &mut sum)?;
        sum ^= use_bytes(d.as_ref()) ^ use_bytes(&encode_to_bytes(&d));
        let e = d.clone();
        fits(e.as_ref(), b)?;
        sum ^= use_bytes(e.as_ref());
        std::hint::black_box(d == e);
        if let Ok(t) = d.clone().validate_as::<DataOwned>() {
            fits(t.as_ref(), b)?;
            let u = t.untype();
            sum ^= use_bytes(u.as_ref());
            let s: &CborSlice = u.borrow();
            fits(s.as_ref(), b)?;
            sum ^= use_bytes(s.as_ref());
        }
        Ok(())
    })?;
    for op in 0..OPS.len() {
        quiet(|| {
            let mut r = Reader::new(b);
            // a call that applies or not, then the next element from wherever that left the cursor
            let _ = do_op(b, &mut r, OPS[op], None);
            if cfg!(miri) && op % 3 > 0 {
                return Ok(());
            }
            if let Ok(d) = r.data() {
                value(&d, 3, &mut sum)?;
            }
            if let Ok(t) = r.text() {
                text(&t)?;
            }
            Ok(())
        })?;
    }
    macro_rules! each {
        ($($t:ty),* $(,)?) => { $( quiet(|| typed::<$t>(b, &mut sum))?; )* };
    }
    // (interpretation is some 10^4 times slower)
    each!(DataOwned);
    match b.first().map(|x| x >> 5) {
        Some(0) if cfg!(miri) => {
            each!(u64);
        }
        Some(3) if cfg!(miri) => {
            each!(String);
        }
        _ => {}
    }
    if cfg!(not(miri)) {
        each!(u64, String, u8, bool, Vec<u8>, [u8; 1], Scalar, super::bytes::VecOf<u64>, CborDataOf<u64>);
    }
    quiet(|| {
        if let Ok(s) = decode_from_bytes::<String>(b) {
            s_ok(&s)?;
        }
        Ok(())
    })?;
    std::hint::black_box(sum);
    Ok(())
}

fn families(t: Tier) -> Vec<Family> {
    let th = t == Tier::Thorough;
    let mut v = vec![
        all_bytes(2 + th as usize, c25),
        sharp("sharp", SHARP, t.pick(4, 5), 2, c25),
        sharp("sharp-small", SHARP_SMALL, t.pick(5, 7), 2, c25),
        trees("trees", small_shape, t.pick(4, 5), c25),
        trees("trees-wide", wide_shape, t.pick(2, 2), c25),
        trees("trees-deep", tiny_shape, t.pick(5, 6), c25),
        mutants("mutants", small_shape, t.pick(2, 3), true, c25),
        mutants("mutants-wide", wide_shape, t.pick(1, 2), false, c25),
        wrapped_cores(t.pick(1, 2), c25),
    ];
    v.push(sequences("streams", Trees::new(wide_shape(), 1).all(), 2, c25));
    v.push(positions("positions", t.pick(vec![1, 2, 3, 8, 17, 24, 33, 64], counts(true)), c25));
    v.push(texts(t.pick(4, 5), c25));
    v.push(bad_positions(t.pick(70, 300), c25));
    v
}

/// the cases for the interpreter
pub fn narrow(t: Tier) -> Vec<Vec<u8>> {
    let th = t == Tier::Thorough;
    let mut v: Vec<Vec<u8>> = vec![];
    let mut fams = vec![
        all_bytes(1, c25),
        trees("t", small_shape, t.pick(2, 3), c25),
        trees("w", wide_shape, t.pick(1, 2), c25),
        trees("d", tiny_shape, t.pick(3, 4), c25),
        mutants("m", small_shape, 1, false, c25),
    ];
    fams.push(texts(1, c25));
    if th {
        fams.push(texts(2, c25));
        fams.push(mutants("mw", wide_shape, 1, false, c25));
        fams.push(sequences("s", Trees::new(wide_shape(), 1).all(), 2, c25));
        fams.push(wrapped_cores(1, c25));
    }
    for f in &fams {
        for u in 0..f.units {
            (f.gen)(u, &mut |b: &[u8]| v.push(b.to_vec()));
        }
    }
    // short ones first: what is cut off when the time does not suffice are the longest
    v.sort_by(|a, b| (a.len(), a).cmp(&(b.len(), b)));
    v.dedup();
    v
}
