//! C22: cursor accounting over every history of reads.

use super::bytes::{VecOf, A_STD};
use super::native::Nat;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::real::*;
use crate::refm::*;
use cbored::validate::Validator;
use cbored::*;

type R = Result<(), String>;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        rule: "for every enumerated input, every sequence of up to n of 23 reading calls on one reader; after each call: consumed + remaining = length, position monotone, exactly the model's element after a success, finished and not-finished error exact",
        families,
        assumptions: A_STD,
    }]
}

const NOPS: usize = 23;

/// Some(end) when the call must succeed and end there, None when it must fail
fn expect(b: &[u8], pos: usize, op: usize) -> Option<usize> {
    let rest = |r: Option<usize>| r;
    match op {
        0..=14 => {
            let o = OPS[op];
            let h = head(b, pos).ok()?;
            if !o.applies(kind(h.mt, h.ai)) {
                return None;
            }
            match node(b, pos) {
                Ok((n, _, e)) if readable(b, &n) => Some(e),
                _ => None,
            }
        }
        15 => rest(u64::model(b, pos).map(|x| x.1)),
        16 => u64::model(b, pos).map(|x| x.1).filter(|e| *e == b.len()),
        17 => u8::model(b, pos).map(|x| x.1),
        18 => Vec::<u8>::model(b, pos).map(|x| x.1),
        19 => VecOf::<u8>::model(b, pos).map(|x| x.1),
        20 => CborDataOf::<DataOwned>::model(b, pos).map(|x| x.1),
        21 => CborDataOf::<bool>::model(b, pos).map(|x| x.1),
        _ => DataOwned::model(b, pos).map(|x| x.1).filter(|e| *e == b.len()),
    }
}
fn call(b: &[u8], pos: usize, r: &mut Reader, op: usize) -> Result<bool, String> {
    Ok(match op {
        0..=14 => {
            let n = node(b, pos).ok().map(|x| x.0);
            return do_op(b, r, OPS[op], n.as_ref());
        }
        15 => r.decode::<u64>().is_ok(),
        16 => r.decode_one::<u64>().is_ok(),
        17 => r.decode::<u8>().is_ok(),
        18 => r.decode::<Vec<u8>>().is_ok(),
        19 => decode_vec::<u8>(r).is_ok(),
        20 => match r.exact_decodable_slice::<DataOwned>() {
            Ok(s) => {
                ensure!(b[pos..].starts_with(s.untype().as_ref()), "exact slice is not the bytes at the cursor");
                true
            }
            Err(_) => false,
        },
        21 => r.exact_decodable_data::<bool>().is_ok(),
        _ => r.decode_one::<DataOwned>().is_ok(),
    })
}

fn steady(b: &[u8], r: &Reader, pos: usize) -> R {
    ensure!(r.consumed_bytes() == pos, "position is {}, want {}", r.consumed_bytes(), pos);
    ensure!(r.remaining_bytes() == b.len() - pos, "remaining {} with {} of {} consumed", r.remaining_bytes(), pos, b.len());
    ensure!(r.is_finished() == (pos == b.len()), "is_finished is {} at {} of {}", r.is_finished(), pos, b.len());
    match r.expect_finished() {
        Ok(()) => ensure!(pos == b.len(), "expect_finished succeeds at {} of {}", pos, b.len()),
        Err(ReaderError::NotTerminated { at, remaining_bytes, next_byte }) => {
            ensure!(pos < b.len(), "expect_finished fails at the end");
            ensure!(
                at == pos && remaining_bytes == b.len() - pos && next_byte == b[pos],
                "not-finished error says at {} remaining {} next {:02x}; true are {} {} {:02x}",
                at,
                remaining_bytes,
                next_byte,
                pos,
                b.len() - pos,
                b[pos]
            );
        }
        Err(e) => return Err(format!("expect_finished gives {:?}", e)),
    }
    Ok(())
}

fn step(b: &[u8], r: &mut Reader, op: usize, hist: &[u8]) -> Result<bool, String> {
    let pos = r.consumed_bytes();
    let want = expect(b, pos, op);
    let ok = call(b, pos, r, op).map_err(|e| format!("after {:?}: {}", hist, e))?;
    let now = r.consumed_bytes();
    ensure!(now >= pos && now <= b.len(), "after {:?}: call {} moves from {} to {} of {}", hist, op, pos, now, b.len());
    match want {
        Some(e) => {
            ensure!(ok, "after {:?}: call {} at {} fails on {:02x?}", hist, op, pos, short(&b[pos..]));
            ensure!(now == e, "after {:?}: call {} at {} moves to {}, element ends at {}", hist, op, pos, now, e);
        }
        None => ensure!(!ok, "after {:?}: call {} at {} succeeds on {:02x?}", hist, op, pos, short(&b[pos..])),
    }
    let p = r.peek_type().is_ok();
    ensure!(!(p && now == b.len()), "after {:?}: peek_type succeeds at the end", hist);
    steady(b, r, now).map_err(|e| format!("after {:?} and call {}: {}", hist, op, e))?;
    Ok(ok)
}

/// all call sequences of the given length on the input
fn histories(b: &[u8], depth: usize, c: &mut Ctx) -> R {
    let _ = c.model_item(b, 0);
    steady(b, &Reader::new(b), 0)?;
    let total = NOPS.pow(depth as u32);
    for i in 0..total {
        let mut hist = [0u8; 8];
        let mut k = i;
        for j in (0..depth).rev() {
            hist[j] = (k % NOPS) as u8;
            k /= NOPS;
        }
        let mut r = Reader::new(b);
        let mut oks = 0;
        for j in 0..depth {
            oks += step(b, &mut r, hist[j] as usize, &hist[..j])? as u32;
            c.trans += 1;
        }
        c.execs += 1;
        c.out(match (oks, oks == depth as u32) {
            (0, _) => "no read succeeds",
            (_, true) => "all reads succeed",
            _ => "some reads succeed",
        });
    }
    Ok(())
}
fn h2(b: &[u8], c: &mut Ctx) -> R {
    histories(b, 2, c)
}
fn h3(b: &[u8], c: &mut Ctx) -> R {
    histories(b, 3, c)
}
fn h4(b: &[u8], c: &mut Ctx) -> R {
    histories(b, 4, c)
}

/// a stream is read element by element, up to the first thing that is not one
fn stream(b: &[u8], c: &mut Ctx) -> R {
    let mut r = Reader::new(b);
    let mut v = Validator::new(b);
    let mut pos = 0;
    let mut n = 0;
    let mut v_ok = true;
    while pos < b.len() {
        let m = c.model_item(b, pos);
        let nd = node(b, pos);
        let want_r = match &nd {
            Ok((n, _, e)) if readable(b, n) => Some(*e),
            _ => None,
        };
        c.execs += 2;
        if v_ok {
            match (v.next(), m) {
                (Ok((s, l)), Ok(e)) => ensure!(s.as_ref() == &b[pos..e] && l == e - pos && v.remaining_bytes() == b.len() - e, "validator: element {} differs", n),
                (Err(_), Err(_)) => v_ok = false,
                (x, m) => return Err(format!("validator: element {} at {}: {:?}, model {:?}", n, pos, x.map(|x| x.1), m)),
            }
        }
        match want_r {
            Some(e) => {
                let d = r.data().map_err(|e| format!("element {} at {} is refused: {:?}", n, pos, e))?;
                chk_data(b, &d, &nd.unwrap().0)?;
                steady(b, &r, e)?;
                pos = e;
                n += 1;
            }
            None => {
                ensure!(r.data().is_err(), "element {} at {} is read though it is none", n, pos);
                ensure!(r.consumed_bytes() >= pos, "position moves backwards");
                let p = r.consumed_bytes();
                steady(b, &r, p)?;
                c.out("stream with a bad element");
                return Ok(());
            }
        }
    }
    ensure!(r.data().is_err() && r.peek_type().is_err(), "an element is read past the end");
    steady(b, &r, b.len())?;
    c.out("whole stream");
    Ok(())
}

fn h1(b: &[u8], c: &mut Ctx) -> R {
    histories(b, 1, c)
}

/// one kind of call again and again, to the first failure and then a few hundred times more: the position must not
/// move by more than what was read, and what is at the cursor must still be read then
fn again(b: &[u8], c: &mut Ctx) -> R {
    for op in 0..NOPS {
        let mut r = Reader::new(b);
        let mut n = 0usize;
        while !r.is_finished() {
            c.trans += 1;
            if !step(b, &mut r, op, &[])? {
                break;
            }
            n += 1;
        }
        let at = r.consumed_bytes();
        let mut next = 0;
        for k in 1..=300usize {
            // a failure may leave the cursor further on; then it is another failure
            let pos = r.consumed_bytes();
            if pos == b.len() {
                break;
            }
            if step(b, &mut r, op, &[])? || r.consumed_bytes() != pos {
                next = 0;
                if k > 20 {
                    break;
                }
                continue;
            }
            next += 1;
            if next == [1, 2, 7, 31, 100, 254, 255, 256][k % 8] || k == 300 {
                let p = r.consumed_bytes();
                ensure!(p == pos, "position moves without a call");
                let m = node(b, p);
                if let Ok((nd, _, e)) = &m {
                    if readable(b, nd) {
                        let d = r.data().map_err(|x| format!("after call {} failed {} times the element at {} is refused: {:?}", op, next, p, x))?;
                        chk_data(b, &d, nd)?;
                        steady(b, &r, *e)?;
                        next = 0;
                    }
                }
            }
        }
        c.execs += 1;
        c.state_bytes(30, &[op as u8, (n > 255) as u8, (at == b.len()) as u8, (next > 200) as u8]);
        c.out(if n > 255 { "hundreds of reads" } else if next > 200 { "hundreds of refusals" } else { "reads and refusals" });
    }
    Ok(())
}

/// elements of each size, after and before others
fn long(sizes: &'static [usize], tails: &'static [&'static str], name: &str, check: CheckFn) -> Family {
    const N: usize = 9;
    fam(
        name,
        format!("9 kinds of element of each of the sizes {:?}, first or after others, followed by each of {:?}", sizes, tails),
        sizes.len() * N,
        Box::new(move |u, f| {
            let (n, kind) = (sizes[u / N], u % N);
            let mut b = vec![];
            match kind {
                0 | 1 => {
                    put_short(&mut b, 2 + kind as u8, n as u64);
                    b.resize(b.len() + n, b'a');
                }
                2 | 3 => {
                    b.push(if kind == 2 { 0x5f } else { 0x7f });
                    put_short(&mut b, kind as u8, n as u64);
                    b.resize(b.len() + n, b'a');
                    b.push(0xff);
                }
                4 => {
                    b.push(0x5f);
                    b.extend(std::iter::repeat([0x41, 0]).take(n).flatten());
                    b.push(0xff);
                }
                5 => {
                    put_short(&mut b, 4, n as u64);
                    b.resize(b.len() + n, 1);
                }
                6 => {
                    put_short(&mut b, 5, n as u64);
                    b.resize(b.len() + 2 * n, 1);
                }
                7 => {
                    b.push(0x9f);
                    b.resize(b.len() + n, 1);
                    b.push(0xff);
                }
                _ => {
                    b.extend_from_slice(&[0xc1, 0x81]);
                    put_short(&mut b, 2, n as u64);
                    b.resize(b.len() + n, b'a');
                }
            }
            for pre in ["", "00", "1818", "f6820102"] {
                for t in tails {
                    f(&[unhex(pre), b.clone(), unhex(t)].concat());
                }
            }
            f(&[&b[..], &b[..], &[0x05]].concat());
            f(&b[..b.len() - 1]);
        }),
        check,
    )
}
const TAILS: &[&str] = &["", "00", "0000", "18ff", "19", "ff", "f6f6f6", "4161", "5f40ff00", "1c", "6180"];

fn families(t: Tier) -> Vec<Family> {
    let th = t == Tier::Thorough;
    let els: Vec<Vec<u8>> = [
        "00", "1903e8", "1b0000000000000001", "20", "3818", "f4", "f5", "f6", "f7", "e0", "f820", "f93c00", "40", "4101", "5f41014102ff", "5fff", "60", "62c3a9", "7f6161ff", "80", "820102",
        "9f00ff", "a0", "a10020", "bf0000ff", "c1f6", "d81841a0",
        // unreadable
        "61ff", "7f61c361a9ff", "ff", "1c", "5f00ff", "5f6161ff", "9fc0ff", "bf00ff", "81", "18", "42", "a1",
    ]
    .iter()
    .map(|s| unhex(s))
    .collect();
    let few: Vec<Vec<u8>> = ["00", "1903e8", "f5", "f6", "f93c00", "4101", "5f4101ff", "6161", "820102", "9fff", "bf0000ff", "c1f6", "61ff", "5f00ff", "ff", "19"].iter().map(|s| unhex(s)).collect();
    let tiny: Vec<Vec<u8>> = ["00", "f6", "4101", "9fff", "61ff", "5f00"].iter().map(|s| unhex(s)).collect();
    let m1 = els[..27].to_vec();
    let mut v = vec![
        sequences("histories-2", els.clone(), 2, h2),
        sequences("histories-3", few.clone(), if th { 3 } else { 2 }, h3),
        sequences("histories-4", tiny, if th { 3 } else { 1 }, h4),
        all_bytes(t.pick(1, 2), h2),
        trees("histories-trees", small_shape, t.pick(2, 3), h2),
        mutants("histories-mutants", small_shape, t.pick(1, 2), th, h2),
        wrapped_cores(t.pick(1, 2), h2),
        sequences("streams", els, t.pick(3, 4), stream),
        sequences("streams-long", few, t.pick(5, 6), stream),
        lying(stream),
        scale(t, true, stream),
        long(SIZES, TAILS, "long-elements", stream),
        long(BIG_SIZES, TAILS, "longer-elements", stream),
        long(&[22, 23, 24, 254, 255, 256, 257, 1024], TAILS, "histories-long", h2),
        long(&[65534, 65535, 65536, 65537], &["", "00", "0001", "ff"], "histories-longer", h1),
        positions("positions", counts(true), stream),
        deep(t.pick(DEEP_FEW, DEEP_ALL), stream),
        many("many", m1.clone(), TAILS.iter().map(|s| unhex(s)).collect(), [MANY, MANY_MORE].concat(), stream),
        many("again", m1, ["", "00", "f6", "4161", "5f00", "6180", "ff", "1c", "19"].iter().map(|s| unhex(s)).collect(), t.pick([&[0, 1, 5][..], &[33, 65, 129, 254, 255, 256, 257, 300]].concat(), [&[0, 1, 2, 3], MANY].concat()), again),
    ];
    if th {
        v.push(trees("histories-trees-wide", wide_shape, 2, h2));
    }
    v
}
