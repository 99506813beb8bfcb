//! Case generators. Every generator is exhaustive within the bound it names and deterministic.

use crate::engine::*;
use crate::refm::*;
use std::sync::Arc;

pub type CheckFn = fn(&[u8], &mut Ctx) -> Result<(), String>;

pub fn fam(name: &str, bound: String, units: usize, gen: Gen, check: CheckFn) -> Family {
    Family { name: name.into(), bound, units, gen, check: Box::new(check) }
}

// ---------------------------------------------------------------- all byte strings

/// every byte string of length <= n
pub fn all_bytes(n: usize, check: CheckFn) -> Family {
    let gen: Gen = Box::new(move |u, f| {
        if u == 0 {
            f(&[]);
            return;
        }
        let mut b = vec![(u - 1) as u8];
        fn rec(b: &mut Vec<u8>, n: usize, f: &mut dyn FnMut(&[u8])) {
            f(b);
            if b.len() < n {
                for x in 0..=255u8 {
                    b.push(x);
                    rec(b, n, f);
                    b.pop();
                }
            }
        }
        rec(&mut b, n, f)
    });
    fam("all-bytes", format!("every byte string of length 0..={}", n), 257, gen, check)
}

// ---------------------------------------------------------------- pruned search over a sharp alphabet

/// bytes that between them select every branch of a CBOR decoder
pub const SHARP: &[u8] = &[
    0x00, 0x01, 0x02, 0x17, 0x18, 0x19, 0x1b, 0x1c, 0x1f, 0x20, 0x38, 0x40, 0x41, 0x42, 0x58, 0x5b, 0x5f, 0x60, 0x61,
    0x62, 0x78, 0x7f, 0x80, 0x81, 0x82, 0x98, 0x9f, 0xa0, 0xa1, 0xa2, 0xb8, 0xbf, 0xc0, 0xc2, 0xd8, 0xe0, 0xf4, 0xf6,
    0xf8, 0xf9, 0xff,
];
pub const SHARP_SMALL: &[u8] = &[
    0x00, 0x18, 0x40, 0x41, 0x5f, 0x61, 0x7f, 0x80, 0x81, 0x82, 0x9f, 0xa1, 0xbf, 0xc0, 0xf6, 0xff,
];

/// Depth-first search of all strings over `alpha` up to length `n`, following the reference recogniser:
/// a prefix that is complete is extended by one trailing byte only, a prefix that is already ill-formed
/// (dead) is extended by `tail` more bytes of a closing alphabet, so that a decoder that wrongly goes on
/// can reach an acceptance.
pub fn sharp(name: &str, alpha: &'static [u8], n: usize, tail: usize, check: CheckFn) -> Family {
    const CLOSE: &[u8] = &[0x00, 0x40, 0x60, 0xff];
    let k = alpha.len();
    fn dead(b: &mut Vec<u8>, left: usize, f: &mut dyn FnMut(&[u8])) {
        f(b);
        if left > 0 {
            for x in CLOSE {
                b.push(*x);
                dead(b, left - 1, f);
                b.pop();
            }
        }
    }
    fn rec(alpha: &[u8], b: &mut Vec<u8>, n: usize, tail: usize, f: &mut dyn FnMut(&[u8])) {
        match item(b, 0) {
            Ok(_) => {
                f(b);
                for x in [0x00u8, 0xff] {
                    b.push(x);
                    f(b);
                    b.pop();
                }
            }
            Err(E::Bad) => dead(b, tail, f),
            Err(E::Missing { .. }) => {
                f(b);
                if b.len() < n {
                    for x in alpha {
                        b.push(*x);
                        rec(alpha, b, n, tail, f);
                        b.pop();
                    }
                }
            }
        }
    }
    let gen: Gen = Box::new(move |u, f| {
        let (x, y) = (alpha[u / k], alpha[u % k]);
        let first = [x];
        match item(&first, 0) {
            Err(E::Missing { .. }) => {
                if u % k == 0 {
                    f(&first);
                }
                let mut b = vec![x, y];
                rec(alpha, &mut b, n, tail, f)
            }
            _ => {
                if u % k == 0 {
                    let mut b = vec![x];
                    rec(alpha, &mut b, n, tail, f)
                }
            }
        }
    });
    fam(
        name,
        format!(
            "every string of length <= {} over {} bytes not extending a complete element by more than 1 byte nor an ill-formed one by more than {} closing bytes",
            n, k, tail
        ),
        k * k,
        gen,
        check,
    )
}

// ---------------------------------------------------------------- trees

pub struct Shape {
    pub leaves: Vec<Vec<u8>>,
    /// length styles of containers: Some(width) or None for indefinite
    pub lens: Vec<Option<W>>,
    pub tags: Vec<Vec<u8>>,
}

pub fn small_shape() -> Shape {
    Shape {
        leaves: [
            "00", "1818", "20", "f4", "f6", "f820", "f93c00", "40", "4161", "5f4161580162ff", "60", "6161",
        ]
        .iter()
        .map(|s| unhex(s))
        .collect(),
        lens: vec![Some(W::Imm), Some(W::B1), None],
        tags: vec![unhex("c2"), unhex("d818")],
    }
}

pub fn wide_shape() -> Shape {
    Shape {
        leaves: [
            "00", "17", "1800", "1817", "1818", "190001", "1affffffff", "1b8000000000000000", "20", "3818", "3bffffffffffffffff",
            "e0", "f3", "f4", "f5", "f6", "f7", "f800", "f814", "f8ff", "f90001", "f97e00", "fa7fc00001", "fb7ff0000000000000",
            "40", "41ff", "580161", "5900026162", "5a00000000", "5b000000000000000161", "5fff", "5f40ff", "5f4161580162ff",
            "60", "6161", "62c3a9", "7803e282ac", "7900016b", "7fff", "7f60ff", "7f6161780162ff", "7f62c3a964f09f9880ff",
            "6180", "61ff", "7f61c361a9ff",
        ]
        .iter()
        .map(|s| unhex(s))
        .collect(),
        lens: vec![Some(W::Imm), Some(W::B1), Some(W::B2), Some(W::B4), Some(W::B8), None],
        tags: ["c0", "c2", "d7", "d800", "d818", "d90018", "da0000001e", "dbffffffffffffffff"].iter().map(|s| unhex(s)).collect(),
    }
}

pub fn tiny_shape() -> Shape {
    Shape {
        leaves: ["00", "f4", "4161", "60"].iter().map(|s| unhex(s)).collect(),
        lens: vec![Some(W::Imm), None],
        tags: vec![unhex("c1")],
    }
}

pub struct Trees {
    /// by[n] = encodings of all items of exactly n nodes (by[0] empty)
    pub by: Vec<Vec<Vec<u8>>>,
    pub shape: Shape,
}

impl Trees {
    pub fn new(shape: Shape, upto: usize) -> Trees {
        let mut t = Trees { by: vec![vec![]], shape };
        for n in 1..=upto {
            let mut v = vec![];
            t.items(n, &mut |b| v.push(b.to_vec()));
            t.by.push(v);
        }
        t
    }
    /// all items of exactly n nodes; needs by[..n]
    pub fn items(&self, n: usize, f: &mut dyn FnMut(&[u8])) {
        for u in 0..self.units(n) {
            self.items_unit(n, u, f)
        }
    }
    /// units split the top level: one per (top construct, length style / tag), leaves are unit 0
    pub fn units(&self, _n: usize) -> usize {
        1 + 2 * self.shape.lens.len() + self.shape.tags.len()
    }
    pub fn items_unit(&self, n: usize, u: usize, f: &mut dyn FnMut(&[u8])) {
        let nl = self.shape.lens.len();
        if u == 0 {
            if n == 1 {
                for l in &self.shape.leaves {
                    f(l)
                }
            }
        } else if u <= 2 * nl {
            let map = u > nl;
            let len = self.shape.lens[(u - 1) % nl];
            let mt = if map { 5 } else { 4 };
            // sequences of children with n-1 nodes in all
            let mut count = 0;
            while count < n {
                if !(map && count % 2 == 1) {
                    let mut b = vec![];
                    match len {
                        Some(w) => put_head(&mut b, mt, w, if map { count / 2 } else { count } as u64),
                        None => b.push(mt << 5 | 31),
                    }
                    self.seq(&mut b, count, n - 1, len.is_none(), f);
                }
                count += 1;
            }
        } else if n >= 2 {
            let t = &self.shape.tags[u - 1 - 2 * nl];
            let mut b = t.clone();
            self.seq(&mut b, 1, n - 1, false, f);
        }
    }
    fn seq(&self, b: &mut Vec<u8>, count: usize, nodes: usize, brk: bool, f: &mut dyn FnMut(&[u8])) {
        if count == 0 {
            if nodes == 0 {
                if brk {
                    b.push(0xff)
                }
                f(b);
                if brk {
                    b.pop();
                }
            }
            return;
        }
        if nodes < count {
            return;
        }
        let max_first = nodes - (count - 1);
        let lo = if count == 1 { nodes } else { 1 };
        for k in lo..=max_first {
            for c in &self.by[k] {
                let l = b.len();
                b.extend_from_slice(c);
                self.seq(b, count - 1, nodes - k, brk, f);
                b.truncate(l);
            }
        }
    }
    pub fn all(&self) -> Vec<Vec<u8>> {
        self.by.iter().flatten().cloned().collect()
    }
}

/// all trees of <= n nodes
pub fn trees(name: &str, shape: fn() -> Shape, n: usize, check: CheckFn) -> Family {
    let t = Arc::new(Trees::new(shape(), n - 1));
    let upper = t.units(n);
    let (nl, nlen, ntag) = (t.shape.leaves.len(), t.shape.lens.len(), t.shape.tags.len());
    // the top level of size-n trees is split further by the first child
    let gen: Gen = Box::new(move |u, f| {
        if u == 0 {
            for b in t.by.iter().flatten() {
                f(b)
            }
        } else {
            t.items_unit(n, u - 1, f)
        }
    });
    fam(
        name,
        format!("every element tree of <= {} nodes over {} leaves, {} length styles per container, {} tag headers", n, nl, nlen, ntag),
        upper + 1,
        gen,
        check,
    )
}

/// every single-byte substitution, deletion, insertion and truncation of every tree of <= n nodes
pub fn mutants(name: &str, shape: fn() -> Shape, n: usize, all_values: bool, check: CheckFn) -> Family {
    let base = Arc::new(Trees::new(shape(), n).all());
    let units = base.len();
    let gen: Gen = Box::new(move |u, f| {
        let b = &base[u];
        let mut m = b.clone();
        for i in 0..b.len() {
            let o = b[i];
            if all_values {
                for x in 0..=255u8 {
                    if x != o {
                        m[i] = x;
                        f(&m);
                    }
                }
            } else {
                for x in SHARP {
                    if *x != o {
                        m[i] = *x;
                        f(&m);
                    }
                }
            }
            m[i] = o;
            // deletion
            let x = m.remove(i);
            f(&m);
            m.insert(i, x);
        }
        for i in 0..=b.len() {
            for x in SHARP_SMALL {
                m.insert(i, *x);
                f(&m);
                m.remove(i);
            }
            f(&b[..i]);
        }
    });
    fam(
        name,
        format!(
            "every single-byte substitution ({}), deletion, insertion and truncation of the {} trees of <= {} nodes",
            if all_values { "all 256 values" } else { "sharp values" },
            units,
            n
        ),
        units,
        gen,
        check,
    )
}

// ---------------------------------------------------------------- sizes

pub const SIZES: &[usize] = &[0, 1, 2, 3, 7, 8, 9, 22, 23, 24, 25, 26, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025];
pub const BIG_SIZES: &[usize] = &[4095, 4096, 4097, 65534, 65535, 65536, 65537, 65538];
pub const HUGE_SIZES: &[usize] = &[131071, 131072, 131073, 1 << 20];

/// Containers and strings of each size, in each length style, with a few element kinds
pub fn scale(tier: Tier, big: bool, check: CheckFn) -> Family {
    let mut sizes: Vec<usize> = SIZES.to_vec();
    if big {
        sizes.extend_from_slice(BIG_SIZES);
        if tier == Tier::Thorough {
            sizes.extend_from_slice(HUGE_SIZES);
        }
    }
    let styles: Vec<Option<W>> = vec![Some(W::Imm), Some(W::B1), Some(W::B2), Some(W::B4), Some(W::B8), None];
    let n = sizes.len();
    let bound = format!("sizes {:?} x strings, chunked strings, arrays, maps x every length style that fits x wrapped or not", sizes);
    let gen: Gen = Box::new(move |u, f| {
        let s = sizes[u / 6];
        let st = styles[u % 6];
        if let Some(w) = st {
            if !w.fits(s as u64) {
                return;
            }
        }
        let mut emit = |b: &[u8]| {
            f(b);
            if s <= 300 {
                // as a nested element, followed by another one
                let mut w = vec![0x82];
                w.extend_from_slice(b);
                w.push(0x01);
                f(&w);
                let mut w = vec![0xbf];
                w.extend_from_slice(b);
                w.extend_from_slice(b);
                w.push(0xff);
                f(&w);
            }
        };
        // strings
        if let Some(w) = st {
            for mt in [2u8, 3] {
                let mut b = vec![];
                put_head(&mut b, mt, w, s as u64);
                b.extend((0..s).map(|i| b'a' + (i % 26) as u8));
                emit(&b);
                // one byte short
                if s > 0 {
                    b.pop();
                    emit(&b);
                }
            }
        } else {
            // chunked: s chunks of sizes cycling 0,1,2
            for mt in [2u8, 3] {
                let mut b = vec![mt << 5 | 31];
                for i in 0..s {
                    put_head(&mut b, mt, if i % 4 == 3 { W::B1 } else { W::Imm }, (i % 3) as u64);
                    b.extend(std::iter::repeat(b'a' + (i % 26) as u8).take(i % 3));
                }
                let l = b.len();
                b.push(0xff);
                emit(&b);
                emit(&b[..l]);
                // one chunk of that size between two others
                let mut b = vec![mt << 5 | 31];
                put_head(&mut b, mt, W::Imm, 1);
                b.push(b'x');
                put_head(&mut b, mt, W::shortest(s as u64), s as u64);
                b.extend((0..s).map(|i| b'a' + (i % 26) as u8));
                put_head(&mut b, mt, W::Imm, 1);
                b.push(b'y');
                b.push(0xff);
                emit(&b);
            }
        }
        // containers
        for (mt, per) in [(4u8, 1usize), (5, 2)] {
            for kind in 0..3 {
                let mut b = vec![];
                match st {
                    Some(w) => put_head(&mut b, mt, w, s as u64),
                    None => b.push(mt << 5 | 31),
                }
                for i in 0..s * per {
                    match kind {
                        0 => put_short(&mut b, 0, (i % 24) as u64),
                        1 => put_short(&mut b, 0, i as u64),
                        _ => match i % 4 {
                            0 => b.push(0x80),
                            1 => b.extend_from_slice(&[0x9f, 0xff]),
                            2 => b.extend_from_slice(&[0xc1, 0xa0]),
                            _ => b.extend_from_slice(&[0x41, 0x00]),
                        },
                    }
                }
                if st.is_none() {
                    b.push(0xff)
                }
                emit(&b);
                if kind == 0 && !b.is_empty() {
                    emit(&b[..b.len() - 1]);
                }
            }
        }
    });
    fam("sizes", bound, n * 6, gen, check)
}

/// deep nesting of each kind of container and of all cyclic mixes of two kinds
pub fn deep(depths: &'static [usize], check: CheckFn) -> Family {
    // opening, closing of one level
    const L: &[(&[u8], &[u8])] = &[
        (&[0x81], &[]),
        (&[0x9f], &[0xff]),
        (&[0xc0], &[]),
        (&[0xa1, 0x00], &[]),
        (&[0xbf, 0x00], &[0xff]),
        (&[0x82, 0x00], &[]),
        (&[0xd8, 0x18], &[]),
        // with something after the inner element
        (&[0x82], &[0x00]),
        (&[0x9f], &[0x40, 0xff]),
        (&[0xa2, 0x00], &[0x01, 0x60]),
    ];
    let gen: Gen = Box::new(move |u, f| {
        let d = depths[u / 100];
        let (i, j) = ((u % 100) / 10, u % 10);
        let mut b = vec![];
        for k in 0..d {
            b.extend_from_slice(if k % 2 == 0 { L[i].0 } else { L[j].0 });
        }
        f(&b); // unfinished
        let mut bad = b.clone();
        bad.push(0xff);
        f(&bad);
        let opened = b.len();
        b.push(0x01);
        for k in (0..d).rev() {
            b.extend_from_slice(if k % 2 == 0 { L[i].1 } else { L[j].1 });
        }
        f(&b);
        if b.len() > opened + 1 {
            f(&b[..b.len() - 1]);
            b.push(0xff);
            f(&b);
        }
    });
    fam(
        "deep",
        format!("nesting depths {:?} x all cyclic mixes of two of 10 container styles, complete, unfinished and over-closed", depths),
        depths.len() * 100,
        gen,
        check,
    )
}

/// headers that announce much more than is there, in every position class
pub fn lying(check: CheckFn) -> Family {
    const VALS: &[u64] = &[
        1, 2, 3, 4, 5, 24, 255, 256, 257, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001,
        0x00ff_ffff_ffff_ffff,
        0x1fff_ffff_ffff_ffff, 0x2000_0000_0000_0000, 0x3fff_ffff_ffff_ffff, 0x4000_0000_0000_0000, 0x7fff_ffff_ffff_fff0,
        0x7fff_ffff_ffff_fffe, 0x7fff_ffff_ffff_ffff,
        0x8000_0000_0000_0000, 0x8000_0000_0000_0001, 0x8000_0000_0000_0002, 0xffff_ffff_ffff_ff00, 0xffff_ffff_ffff_fff0, 0xffff_ffff_ffff_fff5,
        0xffff_ffff_ffff_fff6, 0xffff_ffff_ffff_fff7, 0xffff_ffff_ffff_fff8, 0xffff_ffff_ffff_fffe, 0xffff_ffff_ffff_ffff,
    ];
    const PRE: &[&str] = &[
        "", "81", "8200", "9f", "9f00", "a1", "a100", "bf", "bf00", "c0", "d81e", "c2", "5f", "5f4161", "7f", "7f6161", "8181", "9fbf00", "d81e82",
        "d81e8200", "82c24101", "f6", "6161", "9affffffff", "bbffffffffffffffff", "9bffffffffffffffff",
    ];
    const POST: &[&str] = &["", "00", "ff", "0000", "00ff", "ffff", "000000", "4161", "61616162", "80808080808080808080", "0000000000000000ffff"];
    let nv = VALS.len();
    let gen: Gen = Box::new(move |u, f| {
        let v = VALS[u % nv];
        let pre = unhex(PRE[u / nv]);
        for mt in 2..=6u8 {
            for w in [W::Imm, W::B1, W::B2, W::B4, W::B8] {
                if !w.fits(v) {
                    continue;
                }
                for post in POST {
                    let mut b = pre.clone();
                    put_head(&mut b, mt, w, v);
                    b.extend_from_slice(&unhex(post));
                    f(&b);
                }
            }
        }
    });
    fam(
        "lying-lengths",
        format!("5 header kinds x all widths x {} announced values up to 2^64-1 x {} leading contexts x {} following contents", nv, PRE.len(), POST.len()),
        nv * PRE.len(),
        gen,
        check,
    )
}

/// every string over the wrappers up to depth d, each holding an ill-formed or odd core
pub fn wrapped_cores(depth: usize, check: CheckFn) -> Family {
    const WRAP: &[(&str, &str)] = &[
        ("81", ""), ("8200", ""), ("82", "00"), ("9f", "ff"), ("9f00", "ff"), ("9f", "00ff"), ("a1", "00"), ("a100", ""), ("bf", "00ff"), ("bf00", "ff"),
        ("bf0000", "00ff"), ("bf", "000000ff"), ("c0", ""), ("d818", ""), ("9801", ""), ("b801", "00"), ("9bffffffffffffffff", ""), ("5f", "ff"), ("7f", "ff"),
    ];
    const CORE: &[&str] = &[
        "00", "ff", "", "5fff", "5f00ff", "5f6161ff", "5f5f4161ffff", "5f80ff", "5fa0ff", "5fc04161ff", "5ff6ff", "5ff93c00ff", "5f9fffff", "5f41", "5f4161",
        "7fff", "7f00ff", "7f4161ff", "7f7f6161ffff", "7f80ff", "7fa0ff", "7fc06161ff", "7ff4ff", "7fbfffff", "7f6161", "bf00ff", "bf000000ff", "bf0000ff",
        "bf00bf00ffff", "bf00bf0000ffff", "bfbfff00ff", "9f", "bf", "bf00", "c0", "c0ff", "9fc0ff", "bfc0ff", "bf00c0ff", "81ff", "a1ff", "a100ff", "8200ff", "1c", "5c", "7d",
        "9e", "bc", "dc", "fc", "3f", "1f", "df", "f8", "f81f", "f814", "18", "1900", "1a000000", "1b00000000000000", "58", "5801", "9f9fff", "9fff", "bfff",
        "6180", "7f61c361a9ff", "61ff",
    ];
    let nw = WRAP.len();
    let total: usize = CORE.len() * nw;
    let gen: Gen = Box::new(move |u, f| {
        let core = unhex(CORE[u / nw]);
        fn rec(b: &[u8], depth: usize, f: &mut dyn FnMut(&[u8])) {
            f(b);
            if depth > 0 {
                for (p, s) in WRAP {
                    let mut w = unhex(p);
                    w.extend_from_slice(b);
                    w.extend_from_slice(&unhex(s));
                    rec(&w, depth - 1, f)
                }
            }
        }
        let (p, s) = WRAP[u % nw];
        if u % nw == 0 {
            f(&core)
        }
        let mut w = unhex(p);
        w.extend_from_slice(&core);
        w.extend_from_slice(&unhex(s));
        rec(&w, depth - 1, f)
    });
    fam(
        "wrapped-cores",
        format!("{} odd or ill-formed cores x every nest of <= {} of {} wrappers", CORE.len(), depth, nw),
        total,
        gen,
        check,
    )
}

/// a fixed list
pub fn list(name: &str, bound: String, cases: Vec<Vec<u8>>, check: CheckFn) -> Family {
    let n = cases.len();
    let chunk = 256.max(n / 4096 + 1);
    let units = n.div_ceil(chunk);
    let gen: Gen = Box::new(move |u, f| {
        for c in &cases[u * chunk..((u + 1) * chunk).min(n)] {
            f(c)
        }
    });
    fam(name, format!("{} ({} cases)", bound, n), units, gen, check)
}

/// all pairs (a, b) of a list, as case  len(a) as u16 || a || b
pub fn pairs(name: &str, bound: String, items: Vec<Vec<u8>>, check: CheckFn) -> Family {
    let n = items.len();
    let gen: Gen = Box::new(move |u, f| {
        let a = &items[u];
        let mut c = vec![(a.len() >> 8) as u8, a.len() as u8];
        c.extend_from_slice(a);
        let l = c.len();
        for b in &items {
            c.truncate(l);
            c.extend_from_slice(b);
            f(&c)
        }
    });
    fam(name, format!("{}: all {} pairs", bound, n * n), n, gen, check)
}
pub fn split_pair(c: &[u8]) -> (&[u8], &[u8]) {
    let n = (c[0] as usize) << 8 | c[1] as usize;
    (&c[2..2 + n], &c[2 + n..])
}

/// sequences of up to n elements from a list, concatenated
pub fn sequences(name: &str, items: Vec<Vec<u8>>, n: usize, check: CheckFn) -> Family {
    let k = items.len();
    let bound = format!("every concatenation of 1..={} of {} elements", n, k);
    let gen: Gen = Box::new(move |u, f| {
        fn rec(items: &[Vec<u8>], b: &mut Vec<u8>, left: usize, f: &mut dyn FnMut(&[u8])) {
            f(b);
            if left > 0 {
                for i in items {
                    let l = b.len();
                    b.extend_from_slice(i);
                    rec(items, b, left - 1, f);
                    b.truncate(l);
                }
            }
        }
        let mut b = items[u].clone();
        rec(&items, &mut b, n - 1, f)
    });
    fam(name, bound, k, gen, check)
}

/// Every encoding of each of a set of values: all header widths, all float precisions, all splits of a string
/// into at most `chunks` chunks with chunk headers of every width, all length styles of containers.
pub fn variants(chunks: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    const NUMS: &[u64] = &[
        0, 1, 19, 20, 23, 24, 25, 31, 32, 127, 128, 255, 256, 257, 32767, 65535, 65536, 65537, 0x7fff_ffff, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001,
        0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0xffff_ffff_ffff_ffff,
    ];
    for mt in [0u8, 1, 6] {
        for n in NUMS {
            for w in WIDTHS {
                if w.fits(*n) {
                    let mut b = vec![];
                    put_head(&mut b, mt, w, *n);
                    if mt == 6 {
                        b.push(0x00);
                    }
                    v.push(b);
                }
            }
        }
    }
    for x in 0..24u8 {
        v.push(vec![0xe0 | x]);
    }
    for x in 0..=255u8 {
        v.push(vec![0xf8, x]);
    }
    // the same number in each precision, signs, subnormals, quiet and signalling NaNs with equal top payload bits
    for x in [0u16, 1, 2, 0x3ff, 0x400, 0x3c00, 0x3c01, 0x7bff, 0x7c00, 0x7c01, 0x7dff, 0x7e00, 0x7e01, 0x7fff] {
        for s in [0u16, 0x8000] {
            let h = x | s;
            v.push(vec![0xf9, (h >> 8) as u8, h as u8]);
            let (sg, e, m) = ((h >> 15) as u64, (h >> 10 & 31) as u64, (h & 0x3ff) as u64);
            if e == 31 {
                v.push([&[0xfa][..], &((sg << 31 | 0xff << 23 | m << 13) as u32).to_be_bytes()].concat());
                v.push([&[0xfb][..], &(sg << 63 | 0x7ff << 52 | m << 42).to_be_bytes()].concat());
                v.push([&[0xfb][..], &(sg << 63 | 0x7ff << 52 | m << 42 | (m != 0) as u64).to_be_bytes()].concat());
            } else if e > 0 {
                v.push([&[0xfa][..], &((sg << 31 | (e + 112) << 23 | m << 13) as u32).to_be_bytes()].concat());
                v.push([&[0xfb][..], &(sg << 63 | (e + 1008) << 52 | m << 42).to_be_bytes()].concat());
            } else {
                let val = m as f64 / 16_777_216.0 * if sg == 1 { -1.0 } else { 1.0 };
                v.push([&[0xfa][..], &(val as f32).to_bits().to_be_bytes()].concat());
                v.push([&[0xfb][..], &val.to_bits().to_be_bytes()].concat());
            }
        }
    }
    // strings: definite in every width, and every split
    fn splits(mt: u8, rest: &[u8], left: usize, ws: &[W], b: &mut Vec<u8>, v: &mut Vec<Vec<u8>>) {
        if rest.is_empty() {
            let mut e = b.clone();
            e.push(0xff);
            v.push(e);
        }
        if left == 0 {
            return;
        }
        for k in 0..=rest.len() {
            if mt == 3 && std::str::from_utf8(&rest[..k]).is_err() {
                continue;
            }
            for w in ws {
                if w.fits(k as u64) {
                    let l = b.len();
                    put_head(b, mt, *w, k as u64);
                    b.extend_from_slice(&rest[..k]);
                    splits(mt, &rest[k..], left - 1, ws, b, v);
                    b.truncate(l);
                }
            }
        }
    }
    let long = [b'z'; 24];
    for mt in [2u8, 3] {
        for p in [&b""[..], b"A", b"AB", "\u{e9}".as_bytes(), b"\0\0", &long] {
            for w in WIDTHS {
                if w.fits(p.len() as u64) {
                    let mut b = vec![];
                    put_head(&mut b, mt, w, p.len() as u64);
                    b.extend_from_slice(p);
                    v.push(b);
                }
            }
            let mut b = vec![mt << 5 | 31];
            let few = if p.len() > 20 { 1 } else { chunks };
            splits(mt, p, few, &WIDTHS, &mut b, &mut v);
        }
    }
    // containers
    let mut kids: Vec<Vec<u8>> = vec![vec![]];
    for k in [&[0x00u8][..], &[0x18, 0x00], &[0x01], &[0x60], &[0x7f, 0xff], &[0x80], &[0x9f, 0xff]] {
        kids.push(k.to_vec());
    }
    for mt in [4u8, 5] {
        let mut bodies: Vec<(u64, Vec<u8>)> = vec![];
        for x in &kids {
            for y in &kids {
                match (mt, x.is_empty(), y.is_empty()) {
                    (_, true, true) => bodies.push((0, vec![])),
                    (4, false, true) => bodies.push((1, x.clone())),
                    (4, false, false) => bodies.push((2, [&x[..], y].concat())),
                    (5, false, false) => {
                        bodies.push((1, [&x[..], y].concat()));
                        bodies.push((2, [&x[..], y, y, x].concat()));
                        bodies.push((2, [&x[..], y, x, y].concat()));
                    }
                    _ => {}
                }
            }
        }
        for (n, body) in bodies {
            for w in WIDTHS {
                let mut b = vec![];
                put_head(&mut b, mt, w, n);
                b.extend_from_slice(&body);
                v.push(b);
            }
            v.push([&[mt << 5 | 31][..], &body, &[0xff]].concat());
        }
    }
    v
}

/// the variants on their own and as the content of an array, a map and a tag
pub fn variant_inputs(check: CheckFn) -> Family {
    let mut l = variants(3);
    let n = l.len();
    for i in 0..n {
        for (a, z) in [(&[0x82u8, 0x00][..], &[][..]), (&[0x9f], &[0xff]), (&[0xa1, 0x00], &[]), (&[0xd8, 0x01], &[])] {
            l.push([a, &l[i], z].concat());
        }
    }
    list("variants", format!("every encoding (widths, precisions, chunkings into <= 3, length styles) of each of a set of values: {} elements, alone and in 4 contexts", n), l, check)
}

// ---------------------------------------------------------------- positions

/// entry counts around every power of two and every header width
pub fn counts(big: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=34).chain(63..=66).chain(127..=130).chain(254..=258).collect();
    if big {
        v.extend_from_slice(&[300, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097]);
    }
    v
}
fn spots(n: usize) -> Vec<usize> {
    if n <= 300 {
        return (0..n).collect();
    }
    let mut v = vec![0, 1, 2, n / 2, n - 3, n - 2, n - 1];
    let mut p = 4;
    while p < n {
        v.extend_from_slice(&[p - 1, p, p + 1]);
        v.extend_from_slice(&[n - p, n.saturating_sub(p + 1)]);
        p *= 4;
    }
    v.retain(|x| *x < n);
    v.sort();
    v.dedup();
    v
}

/// Containers and chunked strings of n entries of which one, at each position, is another: an element of another
/// size or kind, a nested structure, something ill-formed, nothing, or one entry too many.
pub fn positions(name: &str, sizes: Vec<usize>, check: CheckFn) -> Family {
    const ODD: &[&str] = &[
        "18ff", "1b0000000000000001", "9f00ff", "80", "820001", "5f4101ff", "7f6161ff", "bf0000ff", "f97e00", "6161", "c100", "f6", "3bffffffffffffffff", "1c", "ff", "6180",
        "5f00ff", "f8", "", "0000",
    ];
    const PIECE: &[&str] = &["40", "420102", "580161", "5b000000000000000161", "590000", "6161", "00", "5f4161ff", "ff", "", "80", "5c", "41"];
    let bound = format!(
        "arrays, maps (odd key, odd value), definite and not, of {:?} entries with one of {} odd entries, and chunked strings with one of {} odd chunks, at every position (at the ends and around powers of 4 beyond 300)",
        if sizes.len() > 40 { vec![sizes[0], *sizes.last().unwrap()] } else { sizes.clone() },
        ODD.len(),
        PIECE.len()
    );
    let units = sizes.len() * 7;
    let gen: Gen = Box::new(move |u, f| {
        let (n, style) = (sizes[u / 7], u % 7);
        let mut b: Vec<u8> = vec![];
        if style == 6 {
            for mt in [2u8, 3] {
                for at in spots(n) {
                    for odd in PIECE {
                        let mut odd = unhex(odd);
                        if mt == 3 && !odd.is_empty() && (0x40..0x60).contains(&odd[0]) {
                            odd[0] += 0x20;
                        }
                        b.clear();
                        b.push(mt << 5 | 31);
                        for i in 0..n {
                            if i == at {
                                b.extend_from_slice(&odd)
                            } else {
                                b.extend_from_slice(&[mt << 5 | 1, b'a' + (i % 26) as u8])
                            }
                        }
                        b.push(0xff);
                        f(&b);
                    }
                }
            }
            // text with a character cut or wrong in one chunk
            for at in spots(n) {
                for odd in [&[0x61u8, 0x80][..], &[0x61, 0xc3], &[0x62, 0xc3, 0xa9]] {
                    b.clear();
                    b.push(0x7f);
                    for i in 0..n {
                        b.extend_from_slice(if i == at { odd } else { b"aa" });
                    }
                    b.push(0xff);
                    f(&b);
                }
            }
            return;
        }
        // array, array.., map with odd key, odd key.., odd value, odd value..
        let (map, indef, value) = (style >= 2, style % 2 == 1, style >= 4);
        for at in spots(n) {
            for odd in ODD {
                let odd = unhex(odd);
                b.clear();
                if indef {
                    b.push(if map { 0xbf } else { 0x9f })
                } else {
                    put_short(&mut b, if map { 5 } else { 4 }, n as u64)
                }
                for i in 0..n {
                    if map && !(i == at && !value) {
                        b.push((i % 24) as u8)
                    }
                    if i == at {
                        b.extend_from_slice(&odd)
                    } else if !map {
                        b.push((i % 24) as u8)
                    }
                    if map && !(i == at && value) {
                        b.push(0x01)
                    }
                }
                if indef {
                    b.push(0xff)
                }
                f(&b);
            }
        }
    });
    fam(name, bound, units, gen, check)
}

// ---------------------------------------------------------------- texts

/// pieces of text, whole, cut within a character, and wrong
pub const PIECES: &[&[u8]] = &[b"", b"a", b"\xc3\xa9", b"\xc3", b"\xa9", b"\x80", b"\xff", b"\xed\xa0\x80", b"\xf0\x9f\x98\x80", b"abcdefghijklmnop", b"abcdefghijklmno\x80", b"\xc0\x80"];

pub fn texts(n: usize, check: CheckFn) -> Family {
    let p = PIECES.len();
    fam(
        "texts",
        format!("chunked texts of at most {n} chunks from {p} pieces (whole, cut within a character, wrong), bare, as an element and as a key"),
        p * p,
        Box::new(move |u, f| {
            let mut ix = vec![u / p, u % p];
            if u == 0 {
                for one in PIECES {
                    text_in(&[one], f);
                }
                text_in(&[], f);
            }
            fn rec(ix: &mut Vec<usize>, n: usize, f: &mut dyn FnMut(&[u8])) {
                text_in(&ix.iter().map(|i| PIECES[*i]).collect::<Vec<_>>(), f);
                if ix.len() < n {
                    for i in 0..PIECES.len() {
                        ix.push(i);
                        rec(ix, n, f);
                        ix.pop();
                    }
                }
            }
            rec(&mut ix, n, f);
        }),
        check,
    )
}
fn text_in(pieces: &[&[u8]], f: &mut dyn FnMut(&[u8])) {
    let mut t = vec![0x7f];
    for p in pieces {
        put_short(&mut t, 3, p.len() as u64);
        t.extend_from_slice(p);
    }
    t.push(0xff);
    f(&t);
    if pieces.len() <= 3 {
        f(&[&[0x81], &t[..]].concat());
        f(&[&[0xa1], &t[..], &[0x01]].concat());
    }
    if pieces.len() == 1 {
        f(&t[1..t.len() - 1]);
        f(&[&[0x82], &t[1..t.len() - 1], &t[1..t.len() - 1]].concat());
    }
}
/// texts with a wrong byte at every position
pub fn bad_positions(n: usize, check: CheckFn) -> Family {
    const BIG: &[usize] = if cfg!(miri) { &[] } else { &[301, 511, 512, 513, 4096, 65535, 65536, 65537] };
    fam(
        "text-positions",
        format!("texts of 1..={n} and of {BIG:?} bytes in three widths of header, with one byte that is no text, or one two byte character, at every position (at the ends and around powers of 4 beyond 300)"),
        n + BIG.len(),
        Box::new(move |u, f| {
            let len = if u < n { u + 1 } else { BIG[u - n] };
            for w in [W::shortest(len as u64), if len > 65535 { W::B4 } else { W::B2 }, W::B8] {
                let mut t = vec![];
                put_head(&mut t, 3, w, len as u64);
                let at = t.len();
                t.resize(at + len, b'k');
                f(&t);
                for i in spots(len) {
                    for x in [0x80, 0xc3, 0xff, 0xe2] {
                        t[at + i] = x;
                        f(&t);
                    }
                    if i + 1 < len {
                        t[at + i] = 0xc3;
                        t[at + i + 1] = 0xa9;
                        f(&t);
                        t[at + i + 1] = b'k';
                    }
                    t[at + i] = b'k';
                }
            }
        }),
        check,
    )
}

// ---------------------------------------------------------------- streams

/// elements that come before the one looked at
pub const BEFORE: &[&str] = &[
    "00", "20", "1bffffffffffffffff", "40", "4161", "5fff", "5f41614162ff", "60", "7f6161ff", "80", "820018ff", "9fff", "a0", "a10000", "bfff", "bf0000ff", "c100", "f6", "f93c00", "f8ff",
];

/// every tail after every sequence of <= n elements
pub fn streams(n: usize, check: CheckFn) -> Family {
    let mut tails: Vec<Vec<u8>> = vec![];
    let mut grab = |f: &Family| {
        for u in 0..f.units {
            (f.gen)(u, &mut |b: &[u8]| tails.push(b.to_vec()))
        }
    };
    grab(&wrapped_cores(1, check));
    grab(&trees("", small_shape, 2, check));
    grab(&trees("", wide_shape, 1, check));
    tails.sort();
    tails.dedup();
    let before: Vec<Vec<u8>> = BEFORE.iter().map(|s| unhex(s)).collect();
    let k = before.len();
    let bound = format!("every sequence of 1..={} of {} elements followed by each of {} elements, cores and wrapped cores", n, k, tails.len());
    let gen: Gen = Box::new(move |u, f| {
        fn rec(p: &mut Vec<u8>, before: &[Vec<u8>], left: usize, tails: &[Vec<u8>], f: &mut dyn FnMut(&[u8])) {
            let l = p.len();
            for t in tails {
                p.truncate(l);
                p.extend_from_slice(t);
                f(p);
            }
            p.truncate(l);
            if left > 0 {
                for e in before {
                    p.truncate(l);
                    p.extend_from_slice(e);
                    rec(p, before, left - 1, tails, f);
                }
            }
            p.truncate(l);
        }
        let mut p = before[u].clone();
        rec(&mut p, &before, n - 1, &tails, f)
    });
    fam("streams", bound, k, gen, check)
}

/// how often something is repeated on one object
pub const MANY: &[usize] = &[
    5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 23, 24, 25, 31, 32, 33, 47, 48, 49, 62, 63, 64, 65, 66, 99, 100, 101, 126, 127, 128, 129, 130, 199, 200, 201, 253, 254, 255, 256, 257, 258, 300,
    511, 512, 513, 1000, 1023, 1024, 1025,
];
pub const MANY_MORE: &[usize] = &[4095, 4096, 4097, 65534, 65535, 65536, 65537];

/// each element n times, then each tail
pub fn many(name: &str, els: Vec<Vec<u8>>, tails: Vec<Vec<u8>>, counts: Vec<usize>, check: CheckFn) -> Family {
    let bound = format!("each of {} elements {}..={} times ({} counts), then each of {} tails", els.len(), counts[0], counts[counts.len() - 1], counts.len(), tails.len());
    fam(
        name,
        bound,
        els.len() * counts.len(),
        Box::new(move |u, f| {
            let (e, n) = (&els[u % els.len()], counts[u / els.len()]);
            let mut b = e.repeat(n);
            let l = b.len();
            for t in &tails {
                b.truncate(l);
                b.extend_from_slice(t);
                f(&b);
            }
        }),
        check,
    )
}

/// A few strings and containers far beyond 64 Ki
pub fn huge(check: CheckFn) -> Family {
    let sizes = [100_000usize, (1 << 17) + 1, 1 << 19, (1 << 20) + 1];
    let max = sizes.len();
    let strings = [1usize << 24, (1 << 24) + 1];
    let n = max * 4 + strings.len();
    let bound = format!("strings in one piece, as one of three chunks and in 1-byte chunks, arrays and maps of {:?} bytes or items, definite and indefinite; strings of {:?} bytes", sizes, strings);
    fam("huge", bound, n, Box::new(move |u, f| {
        if u >= max * 4 {
            for mt in 2..4u8 {
                let mut b = vec![];
                put_short(&mut b, mt, strings[u - max * 4] as u64);
                b.resize(b.len() + strings[u - max * 4], b'a');
                f(&b);
            }
            return;
        }
        let s = sizes[u / 4];
        let mut b = vec![];
        match u % 4 {
            mt @ (0 | 1) => {
                let mt = mt as u8 + 2;
                put_short(&mut b, mt, s as u64);
                b.extend((0..s).map(|i| b'a' + (i % 26) as u8));
                f(&b);
                let whole = b;
                let mut b = vec![mt << 5 | 31, mt << 5 | 1, b'x'];
                b.extend_from_slice(&whole);
                b.extend_from_slice(&[mt << 5 | 1, b'y', 0xff]);
                f(&b);
                let mut b = vec![mt << 5 | 31];
                b.extend((0..2 * s).map(|i| if i % 2 == 0 { mt << 5 | 1 } else { b'a' + (i / 2 % 26) as u8 }));
                b.push(0xff);
                f(&b);
            }
            2 => {
                put_short(&mut b, 4, s as u64);
                b.extend((0..s).map(|i| (i % 24) as u8));
                f(&b);
                let mut b = vec![0x9f];
                b.extend((0..s).map(|i| (i % 24) as u8));
                b.push(0xff);
                f(&b);
            }
            _ => {
                put_short(&mut b, 5, s as u64);
                b.extend((0..2 * s).map(|i| (i % 24) as u8));
                f(&b);
                let mut b = vec![0xbf];
                b.extend((0..2 * s).map(|i| (i % 24) as u8));
                b.push(0xff);
                f(&b);
            }
        }
    }), check)
}

/// The standard set of inputs for a property of reading arbitrary bytes.
/// `w` scales the amount: 0 light, 1 normal, 2 heavy (per-case cost decides).
pub fn inputs(tier: Tier, w: usize, check: CheckFn) -> Vec<Family> {
    let t = tier == Tier::Thorough;
    let mut v = vec![
        all_bytes(if w == 0 && !t { 2 } else { 3 }, check),
        sharp("sharp", SHARP, [4, 4, 5][w] + t as usize, 2, check),
        sharp("sharp-small", SHARP_SMALL, [5, 6, 7][w] + t as usize, 2, check),
        trees("trees", small_shape, [4, 4, 5][w] + (t && w < 2) as usize, check),
        trees("trees-wide", wide_shape, [2, 2, 3][w] + (t && w < 2) as usize, check),
        trees("trees-deep", tiny_shape, [5, 6, 6][w] + t as usize, check),
        mutants("mutants", small_shape, [2, 3, 3][w], w > 0, check),
        mutants("mutants-wide", wide_shape, if w == 0 && !t { 1 } else { 2 }, false, check),
        wrapped_cores(if t { 3 } else { 2 }, check),
        lying(check),
        variant_inputs(check),
        scale(tier, true, check),
    ];
    if !cfg!(miri) {
        v.push(huge(check));
    }
    // text with errors at every place
    v.push(texts([2, 3, 3][w] + t as usize, check));
    v.push(bad_positions([70, 70, 130][w] * (1 + t as usize), check));
    // one odd entry at every place
    let mut sizes = counts(w > 0 || t);
    if t && w > 0 {
        sizes.extend_from_slice(&[65535, 65536, 65537]);
    }
    v.push(positions("positions", sizes, check));
    // second and third elements
    v.push(streams(if w > 0 || t { 2 } else { 1 }, check));
    if t {
        v.push(deep(DEEP_ALL, check));
        v.push(deep(&[1000, 4096, 65536, 65537, 300_000, 1_000_000], check));
    } else {
        v.push(deep(if w == 0 { DEEP_FEW } else { DEEP_ALL }, check));
        v.push(deep(&[1000, 65537], check));
    }
    let n = v.len();
    v[n - 1].name = "deeper".into();
    v
}
pub const DEEP_FEW: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257];
pub const DEEP_ALL: &[usize] = &[
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49,
    50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 99, 100, 101, 126, 127, 128, 129, 199, 200, 254, 255, 256, 257, 258, 400, 511, 512, 513,
];
