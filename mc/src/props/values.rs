//! C08 and C09: numbers.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::real::*;
use crate::refm::*;
use cbored::*;

type R = Result<(), String>;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C08", rule: "for every enumerated value: shortest encoding when written from a number, same number and recorded width when read in every width that can carry it, is_canonical iff shortest, signed conversion exact or refused", families: c08_fams, assumptions: super::bytes::A_STD },
        Prop { id: "C09", rule: "for every enumerated bit pattern: to_f64/to_f32 equal the value computed by an independent integer-arithmetic conversion; reading and writing keep the bits", families: c09_fams, assumptions: &["IEEE 754 arithmetic of the machine is only used to compare bit patterns"] },
    ]
}

fn short(mt: u8, v: u64) -> Vec<u8> {
    let mut b = vec![];
    put_short(&mut b, mt, v);
    b
}

/// case: 8 bytes, the value
fn c08(case: &[u8], c: &mut Ctx) -> R {
    let mut a = [0u8; 8];
    a.copy_from_slice(case);
    let v = u64::from_be_bytes(a);
    c.state(v);
    c.trans += 1;
    let sw = W::shortest(v);
    let (wp, wn, wt) = (short(0, v), short(1, v), short(6, v));
    // written from a number
    let p = Positive::canonical(v);
    let n = Negative::canonical(v);
    for (what, got, want) in [
        ("Positive::canonical", written(|w| w.positive(p)), &wp),
        ("Scalar::canonical_positive", written(|w| w.scalar(Scalar::canonical_positive(v))), &wp),
        ("u64", encode_to_bytes(&v), &wp),
        ("Negative::canonical", written(|w| w.negative(n)), &wn),
        ("Scalar::canonical_negative", written(|w| w.scalar(Scalar::canonical_negative(v))), &wn),
        ("tag_build", written(|w| w.tag_build(TagValue::from_u64(v), |_| ())), &wt),
        ("array length", written(|w| w.array_build(StructureLength::from(v), |_| ())), &short(4, v)),
        ("map length", written(|w| w.map_build(StructureLength::from(v), |_| ())), &short(5, v)),
    ] {
        c.execs += 1;
        ensure!(got == *want, "{} of {} is written {:02x?}, shortest is {:02x?}", what, v, got, want);
    }
    if v <= 0xffff_ffff {
        ensure!(encode_to_bytes(&(v as u32)) == wp, "u32 {} written wrongly", v);
    }
    if v <= 0xffff {
        ensure!(encode_to_bytes(&(v as u16)) == wp, "u16 {} written wrongly", v);
    }
    if v <= 0xff {
        ensure!(encode_to_bytes(&(v as u8)) == wp, "u8 {} written wrongly", v);
    }
    ensure!(p.to_u64() == v && n.negative_u64() == v && TagValue::from_u64(v).to_u64() == v, "canonical {} holds another value", v);
    ensure!(hv(p.raw_value()) == (sw, v) && hv(n.raw_value()) == (sw, v) && hv(TagValue::from_u64(v).raw_value()) == (sw, v), "canonical {} holds another header", v);
    ensure!(p.is_canonical() && n.is_canonical(), "canonical {} is not canonical", v);
    // conversion to i64
    let pos: Option<i64> = if v < 1 << 63 { Some(v as i64) } else { None };
    let neg: Option<i64> = if v < 1 << 63 { Some(!(v as i64)) } else { None }; // -1 - v
    // read in every width
    for w in WIDTHS {
        if !w.fits(v) {
            continue;
        }
        let canon = w == sw;
        for mt in [0u8, 1, 6] {
            let mut b = vec![];
            put_head(&mut b, mt, w, v);
            let hn = b.len();
            b.push(0xf6);
            c.execs += 1;
            let mut r = Reader::new(&b);
            let fail = |e: ReaderError| format!("{:02x?} does not read: {:?}", b, e);
            match mt {
                0 => {
                    let x = r.positive().map_err(fail)?;
                    ensure!(x.to_u64() == v && hv(x.raw_value()) == (w, v), "{:02x?} reads as {:?}", b, x);
                    ensure!(x.is_canonical() == canon, "{:02x?}: is_canonical {}", b, x.is_canonical());
                    let s = Reader::new(&b).scalar().map_err(fail)?;
                    ensure!(s == Scalar::Positive(x) && s.is_canonical() == canon && s.is_positive() && !s.is_negative(), "{:02x?}: scalar {:?}", b, s);
                    ensure!(s.to_i64() == pos, "{:02x?}: to_i64 {:?} want {:?}", b, s.to_i64(), pos);
                    ensure!(written(|w| w.positive(x)) == b[..hn] && written(|w| w.scalar(s)) == b[..hn], "{:02x?} is written back differently", b);
                }
                1 => {
                    let x = r.negative().map_err(fail)?;
                    ensure!(x.negative_u64() == v && hv(x.raw_value()) == (w, v), "{:02x?} reads as {:?}", b, x);
                    ensure!(x.is_canonical() == canon, "{:02x?}: is_canonical {}", b, x.is_canonical());
                    ensure!(x.to_i64() == neg, "{:02x?}: to_i64 {:?} want {:?}", b, x.to_i64(), neg);
                    let s = Reader::new(&b).scalar().map_err(fail)?;
                    ensure!(s == Scalar::Negative(x) && s.is_canonical() == canon && !s.is_positive() && s.is_negative(), "{:02x?}: scalar {:?}", b, s);
                    ensure!(s.to_i64() == neg, "{:02x?}: to_i64 {:?} want {:?}", b, s.to_i64(), neg);
                    ensure!(written(|w| w.negative(x)) == b[..hn] && written(|w| w.scalar(s)) == b[..hn], "{:02x?} is written back differently", b);
                }
                _ => {
                    let x = r.tag().map_err(fail)?;
                    ensure!(x.value() == v && x.tag_repr().to_u64() == v && hv(x.tag_repr().raw_value()) == (w, v), "{:02x?} reads as {:?}", b, x);
                    ensure!(written(|w| w.tag(&x)) == b, "{:02x?} is written back differently", b);
                }
            }
            if mt != 6 {
                ensure!(r.consumed_bytes() == hn, "{:02x?}: consumed {}", b, r.consumed_bytes());
            }
        }
        let h = to_hv(w, v);
        ensure!(h.to_u64() == v && h.to_size() as u64 == v && h.is_canonical() == canon, "header value {:?} of {}", h, v);
    }
    c.out(match sw {
        W::Imm => "imm",
        W::B1 => "1 byte",
        W::B2 => "2 bytes",
        W::B4 => "4 bytes",
        W::B8 => "8 bytes",
    });
    Ok(())
}

/// case: one byte, the simple value
fn c08_byte(case: &[u8], c: &mut Ctx) -> R {
    let v = case[0];
    c.state(1 << 40 | v as u64);
    c.trans += 1;
    let want = if v < 20 { vec![0xe0 | v] } else { vec![0xf8, v] };
    let x = Byte::canonical(v);
    ensure!(x.to_u8() == v, "Byte::canonical({}) holds {}", v, x.to_u8());
    ensure!(x.is_canonical(), "Byte::canonical({}) is not canonical", v);
    c.execs += 2;
    ensure!(written(|w| w.byte(x)) == want, "Byte {} is written {:02x?}, shortest is {:02x?}", v, written(|w| w.byte(x)), want);
    ensure!(encode_to_bytes(&x) == want, "Byte {} is encoded {:02x?}", v, encode_to_bytes(&x));
    let y = Reader::new(&want).byte().map_err(|e| format!("{:02x?} does not read as a byte: {:?}", want, e))?;
    ensure!(y == x && y.to_u8() == v && y.is_canonical(), "{:02x?} reads as {:?}", want, y);
    // the two-byte form of every value
    let b = [0xf8, v];
    let z = Reader::new(&b).byte().map_err(|e| format!("{:02x?} does not read as a byte: {:?}", b, e))?;
    ensure!(z.to_u8() == v, "{:02x?} reads as {:?}", b, z);
    ensure!(z.is_canonical() == (v >= 20), "{:02x?}: is_canonical {}", b, z.is_canonical());
    ensure!(written(|w| w.byte(z)) == b, "{:02x?} is written back differently", b);
    c.out(if v < 20 { "one byte" } else { "two bytes" });
    Ok(())
}

fn c08_fams(t: Tier) -> Vec<Family> {
    let th = t == Tier::Thorough;
    let lim: u64 = if th { 1 << 24 } else { 1 << 17 };
    let span: u64 = if th { 4096 } else { 300 };
    let mut v = vec![
        fam(
            "values-low",
            format!("every value 0..{}", lim),
            256,
            Box::new(move |u, f| {
                let n = lim / 256;
                for x in u as u64 * n..(u as u64 + 1) * n {
                    f(&x.to_be_bytes())
                }
            }),
            c08,
        ),
        fam(
            "values-around-powers",
            format!("2^k + d for k in 0..=64, |d| <= {}", span),
            65,
            Box::new(move |u, f| {
                let p: u128 = 1u128 << u;
                for d in 0..=2 * span {
                    let x = p as i128 + d as i128 - span as i128;
                    if (0..1i128 << 64).contains(&x) {
                        f(&(x as u64).to_be_bytes())
                    }
                }
            }),
            c08,
        ),
        fam(
            "values-two-bits",
            "every value with at most three bits set, and its complement".into(),
            64,
            Box::new(|u, f| {
                for j in 0..64u32 {
                    for k in 0..64u32 {
                        let x = 1u64 << u | 1u64 << j | 1u64 << k;
                        f(&x.to_be_bytes());
                        f(&(!x).to_be_bytes());
                    }
                }
            }),
            c08,
        ),
        fam(
            "values-bytes",
            "every value made of bytes 00 01 7f 80 ff".into(),
            125,
            Box::new(|u, f| {
                const V: [u8; 5] = [0, 1, 0x7f, 0x80, 0xff];
                for i in 0..3125usize {
                    let mut k = u + 125 * i;
                    let mut b = [0u8; 8];
                    for x in b.iter_mut() {
                        *x = V[k % 5];
                        k /= 5;
                    }
                    f(&b)
                }
            }),
            c08,
        ),
        fam(
            "values-runs",
            "every value with one run of ones, or two runs, and each plus and minus one".into(),
            64,
            Box::new(|u, f| {
                let run = |lo: usize, n: usize| -> u64 { if n == 0 { 0 } else { (!0u64 >> (64 - n)) << lo } };
                for n in 0..=64 - u {
                    let x = run(u, n);
                    for lo in 0..64usize {
                        for m in 0..=64 - lo {
                            // (all pairs of runs: 2080^2 / 2; the second starts where the first is over)
                            if lo > u + n || m == 0 {
                                let y = x | run(lo, m);
                                for z in [y, y.wrapping_add(1), y.wrapping_sub(1)] {
                                    f(&z.to_be_bytes());
                                }
                            }
                        }
                    }
                }
            }),
            c08,
        ),
        fam("simple-values", "all 256 simple values in both forms".into(), 256, Box::new(|u, f| f(&[u as u8])), c08_byte),
    ];
    if th {
        v.push(fam(
            "values-32",
            "every 257th value below 2^32".into(),
            256,
            Box::new(|u, f| {
                let mut x = u as u64;
                while x < 1 << 32 {
                    f(&x.to_be_bytes());
                    x += 257;
                }
            }),
            c08,
        ));
    }
    v
}

// ------------------------------------------------------------------ C09

/// exact value of a finite float given by sign, integer significand and binary exponent, as f64 bits;
/// only for values that are exact in f64 (significand < 2^53, exponent in the normal or subnormal range)
fn exact_f64(neg: bool, mut m: u64, mut e: i32) -> u64 {
    let s = (neg as u64) << 63;
    if m == 0 {
        return s;
    }
    // normalise to 53 bits: 2^52 <= m < 2^53
    while m < 1 << 52 {
        m <<= 1;
        e -= 1;
    }
    let exp = e + 52 + 1023;
    if exp <= 0 {
        // subnormal; exact by assumption
        let sh = 1 - exp;
        return s | (m >> sh);
    }
    s | (exp as u64) << 52 | (m & ((1 << 52) - 1))
}

#[derive(PartialEq, Eq)]
enum V {
    Nan,
    Inf(bool),
    Fin(bool, u64, i32),
}
fn decode(bits: u64, ebits: u32, mbits: u32) -> V {
    let m = bits & ((1 << mbits) - 1);
    let e = (bits >> mbits) & ((1 << ebits) - 1);
    let neg = bits >> (mbits + ebits) & 1 == 1;
    let bias = (1i32 << (ebits - 1)) - 1;
    if e == (1 << ebits) - 1 {
        if m == 0 {
            V::Inf(neg)
        } else {
            V::Nan
        }
    } else if e == 0 {
        V::Fin(neg, m, 1 - bias - mbits as i32)
    } else {
        V::Fin(neg, m | 1 << mbits, e as i32 - bias - mbits as i32)
    }
}
fn f64_of(v: &V) -> Option<u64> {
    match v {
        V::Nan => None,
        V::Inf(n) => Some((*n as u64) << 63 | 0x7ff0_0000_0000_0000),
        V::Fin(n, m, e) => Some(exact_f64(*n, *m, *e)),
    }
}
/// round to nearest, ties to even, into binary32
fn f32_of(v: &V) -> Option<u32> {
    match v {
        V::Nan => None,
        V::Inf(n) => Some((*n as u32) << 31 | 0x7f80_0000),
        V::Fin(n, m, e) => {
            let s = (*n as u32) << 31;
            if *m == 0 {
                return Some(s);
            }
            // value = m * 2^e. quantum of the result: 2^q with q = max(exponent of leading bit - 23, -149)
            let lead = 63 - m.leading_zeros() as i32 + e;
            let mut q = (lead - 23).max(-149);
            let m = *m as u128;
            let sh = q - e;
            let mut r: u128;
            if sh <= 0 {
                r = m << (-sh).min(60);
            } else if sh > 100 {
                r = 0;
            } else {
                r = m >> sh;
                let rem = m & ((1u128 << sh) - 1);
                let half = 1u128 << (sh - 1);
                if rem > half || (rem == half && r & 1 == 1) {
                    r += 1;
                }
            }
            if r == 1 << 24 {
                r >>= 1;
                q += 1;
            }
            if r == 0 {
                return Some(s);
            }
            if r < 1 << 23 {
                return Some(s | r as u32); // subnormal, q == -149
            }
            let exp = q + 23 + 127;
            if exp >= 255 {
                return Some(s | 0x7f80_0000);
            }
            Some(s | (exp as u32) << 23 | (r as u32 & 0x7f_ffff))
        }
    }
}

fn same64(got: f64, want: Option<u64>) -> bool {
    match want {
        None => got.is_nan(),
        Some(w) => got.to_bits() == w,
    }
}
fn same32(got: f32, want: Option<u32>) -> bool {
    match want {
        None => got.is_nan(),
        Some(w) => got.to_bits() == w,
    }
}
fn chk(f: Float, v: &V) -> R {
    ensure!(same64(f.to_f64(), f64_of(v)), "{:x?}.to_f64() is {:?} ({:016x}), want {:016x?}", f, f.to_f64(), f.to_f64().to_bits(), f64_of(v));
    ensure!(same32(f.to_f32(), f32_of(v)), "{:x?}.to_f32() is {:?} ({:08x}), want {:08x?}", f, f.to_f32(), f.to_f32().to_bits(), f32_of(v));
    Ok(())
}
fn bits_kept(b: &[u8], want: Float, v: &V) -> R {
    let mut r = Reader::new(b);
    let f = r.float().map_err(|e| format!("{:02x?} does not read as a float: {:?}", b, e))?;
    ensure!(f == want && r.is_finished(), "{:02x?} reads as {:x?}", b, f);
    ensure!(written(|w| w.float(f)) == b && encode_to_bytes(&f) == b, "{:02x?} is written back differently", b);
    chk(f, v)
}

/// case of 2 bytes: a half
fn c09_half(case: &[u8], c: &mut Ctx) -> R {
    let h = u16::from_be_bytes([case[0], case[1]]);
    let v = decode(h as u64, 5, 10);
    c.state(9 << 40 | h as u64);
    c.trans += 1;
    c.execs += 2;
    chk(Float::FP16(h), &v)?;
    c.out(match v {
        V::Nan => "NaN",
        V::Inf(_) => "infinity",
        _ => "finite",
    });
    bits_kept(&[0xf9, case[0], case[1]], Float::FP16(h), &v)
}

/// case of 2 bytes: the upper half of all singles that share it
fn c09_single(case: &[u8], c: &mut Ctx) -> R {
    let hi = u16::from_be_bytes([case[0], case[1]]) as u32;
    for lo in 0..=0xffffu32 {
        let x = hi << 16 | lo;
        let v = decode(x as u64, 8, 23);
        let f = Float::FP32(x);
        ensure!(same64(f.to_f64(), f64_of(&v)), "{:x?}.to_f64() is {:016x}, want {:016x?}", f, f.to_f64().to_bits(), f64_of(&v));
        // a single converted to f32 is the stored number itself
        match v {
            V::Nan => ensure!(f.to_f32().is_nan(), "{:x?}.to_f32() is not NaN", f),
            _ => ensure!(f.to_f32().to_bits() == x, "{:x?}.to_f32() is {:08x}", f, f.to_f32().to_bits()),
        }
    }
    c.execs += 0x20000;
    c.trans += 0x10000;
    c.state(10 << 40 | hi as u64);
    for lo in [0u32, 1, 0x7fff, 0x8000, 0xffff] {
        let x = hi << 16 | lo;
        let mut b = vec![0xfa];
        b.extend_from_slice(&x.to_be_bytes());
        bits_kept(&b, Float::FP32(x), &decode(x as u64, 8, 23))?;
    }
    c.out("65536 singles");
    Ok(())
}

/// case of 8 bytes: a double
fn c09_double(case: &[u8], c: &mut Ctx) -> R {
    let mut a = [0u8; 8];
    a.copy_from_slice(case);
    let x = u64::from_be_bytes(a);
    let v = decode(x, 11, 52);
    c.state(x);
    c.trans += 1;
    c.execs += 2;
    let mut b = vec![0xfb];
    b.extend_from_slice(case);
    c.out(match v {
        V::Nan => "NaN",
        V::Inf(_) => "infinity",
        _ => "finite",
    });
    bits_kept(&b, Float::FP64(x), &v)
}

fn c09_fams(t: Tier) -> Vec<Family> {
    let th = t == Tier::Thorough;
    vec![
        fam("halves", "all 2^16 half-precision patterns".into(), 256, Box::new(|u, f| (0..=255u8).for_each(|l| f(&[u as u8, l]))), c09_half),
        fam("singles", "all 2^32 single-precision patterns, 65536 per case".into(), 1 << 16, Box::new(|u, f| f(&(u as u16).to_be_bytes())), c09_single),
        fam(
            "doubles",
            "all 2048 exponents x both signs x significands around every f32 rounding boundary".into(),
            2048,
            Box::new(move |u, f| {
                let e = (u as u64) << 52;
                let mut ms: Vec<u64> = vec![];
                // upper 23 bits x lower 29 bits
                let his: Vec<u64> = {
                    let mut v = vec![0, 1, 2, 3, 0x7f_ffff, 0x7f_fffe, 0x40_0000, 0x3f_ffff, 0x55_5555, 0x2a_aaaa];
                    for k in 0..23 {
                        v.push(1 << k);
                        if th {
                            v.push((1 << k) - 1);
                            v.push(0x7f_ffff ^ (1 << k));
                        }
                    }
                    v
                };
                let half = 1u64 << 28;
                let mut los = vec![0, 1, half - 1, half, half + 1, (1 << 29) - 1];
                for k in 0..29 {
                    los.push(1 << k);
                    if th {
                        los.push(half ^ (1 << k));
                        los.push((1 << k) - 1);
                    }
                }
                for h in &his {
                    for l in &los {
                        ms.push(h << 29 | l)
                    }
                }
                ms.sort();
                ms.dedup();
                for m in ms {
                    f(&(e | m).to_be_bytes());
                    f(&(e | m | 1 << 63).to_be_bytes());
                }
            }),
            c09_double,
        ),
    ]
}
