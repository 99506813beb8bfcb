//! What is offered to every declaration: its values, every other encoding of them within bounds, and wires that
//! are close to its layout without being it.

use crate::schema::*;
use mc::refm::*;

// ---------------------------------------------------------------- values

fn hexs(l: &[&str]) -> Vec<Vec<u8>> {
    l.iter().map(|s| mc::engine::unhex(s)).collect()
}

fn kind_of(b: &[u8]) -> K {
    let h = head(b, 0).unwrap();
    kind(h.mt, h.ai)
}

/// some values of the type, covering each width of the encoding
pub fn values(ty: Ty, cap: usize) -> Vec<Val> {
    let u = |l: &[u64]| l.iter().map(|x| Val::U(*x)).collect();
    let raws = |l: &[&str]| hexs(l).into_iter().map(Val::Raw).collect();
    match ty {
        Ty::U8 => u(&[0, 24, 255]),
        Ty::U16 => u(&[1, 256, 65535]),
        Ty::U32 => u(&[5, 65536, 0xffff_ffff]),
        Ty::U64 => u(&[23, 1 << 32, u64::MAX]),
        Ty::Bool => vec![Val::Bool(false), Val::Bool(true)],
        Ty::Str => ["", "a", "é-and-then-24-bytes-or-so"].iter().map(|s| Val::Str(s.as_bytes().to_vec())).collect(),
        Ty::Bytes => vec![Val::Bytes(vec![]), Val::Bytes(vec![0xff]), Val::Bytes((0..24).collect())],
        Ty::Arr2 => vec![Val::Bytes(vec![0, 0xff])],
        Ty::Scalar => raws(&["00", "1818", "1800", "20", "3bffffffffffffffff"]),
        Ty::OfU64 => raws(&["00", "190001", "1bffffffffffffffff"]),
        Ty::Data => raws(&["80", "f6", "9f01ff", "01", "a10000", "c101", "7f6161ff", "38ff", "81a0"]),
        Ty::List(t) => {
            let v = values(*t, 3);
            let mut out = vec![Val::List(vec![])];
            for x in &v {
                out.push(Val::List(vec![x.clone()]))
            }
            out.push(Val::List(v.clone()));
            out.push(Val::List((0..24).map(|i| v[i % v.len()].clone()).collect()));
            if cap >= 4 {
                // past each width of the count
                for n in [255, 256, 257] {
                    out.push(Val::List((0..n).map(|i| v[i % v.len()].clone()).collect()));
                }
            }
            out
        }
        Ty::D(i) => match &decl(i).schema {
            Schema::Rec(r) => {
                let doms: Vec<Vec<Option<Val>>> = r
                    .fields
                    .iter()
                    .map(|f| {
                        let mut d: Vec<Option<Val>> = nested(values(f.ty, 4), 9).into_iter().map(Some).collect();
                        if f.opt {
                            d.insert(1, None)
                        }
                        d
                    })
                    .collect();
                product(&doms, cap).into_iter().map(Val::Rec).collect()
            }
            Schema::Enum(e) => {
                let mut out = vec![];
                for (i, v) in e.variants.iter().enumerate() {
                    let doms: Vec<Vec<Val>> = v
                        .fields
                        .iter()
                        .map(|t| {
                            let mut d = nested(values(*t, 4), 24);
                            if let Some(k) = v.kind {
                                d.retain(|x| {
                                    let mut b = vec![];
                                    enc(*t, x, &mut b);
                                    kind_of(&b) == k
                                })
                            }
                            d
                        })
                        .collect();
                    out.extend(product(&doms, cap).into_iter().map(|f| Val::Var(i, f)))
                }
                out
            }
        },
    }
}

/// at most n of the list, evenly spread over it, the first included
fn nested<X>(v: Vec<X>, n: usize) -> Vec<X> {
    let step = v.len().div_ceil(n).max(1);
    v.into_iter().step_by(step).collect()
}

/// the whole product when it has at most `cap` members, else: all first, each one deviating alone, all
/// deviating alike
fn product<X: Clone>(doms: &[Vec<X>], cap: usize) -> Vec<Vec<X>> {
    let size = doms.iter().fold(1usize, |a, d| a.saturating_mul(d.len()));
    if size <= cap {
        let mut out = vec![vec![]];
        for d in doms {
            out = out.into_iter().flat_map(|p: Vec<X>| d.iter().map(move |x| { let mut q = p.clone(); q.push(x.clone()); q })).collect();
        }
        return out;
    }
    let first: Vec<X> = doms.iter().map(|d| d[0].clone()).collect();
    let mut out = vec![first.clone()];
    for (i, d) in doms.iter().enumerate() {
        for x in &d[1..] {
            let mut p = first.clone();
            p[i] = x.clone();
            out.push(p)
        }
    }
    let longest = doms.iter().map(|d| d.len()).max().unwrap_or(0);
    for k in 1..longest {
        out.push(doms.iter().map(|d| d[k % d.len()].clone()).collect());
    }
    out
}

// ---------------------------------------------------------------- other encodings of the same content

const STYLES: [Option<W>; 6] = [Some(W::Imm), Some(W::B1), Some(W::B2), Some(W::B4), Some(W::B8), None];

/// every way to write a container header of that count, canonical first: (header, has a break)
fn heads(mt: u8, n: u64) -> Vec<(Vec<u8>, bool)> {
    let s = W::shortest(n);
    let mut out = vec![];
    let mut b = vec![];
    put_head(&mut b, mt, s, n);
    out.push((b, false));
    for st in STYLES {
        match st {
            Some(w) if w != s && w.fits(n) => {
                let mut b = vec![];
                put_head(&mut b, mt, w, n);
                out.push((b, false))
            }
            None if mt != 6 && mt != 0 => out.push((vec![mt << 5 | 31], true)),
            _ => {}
        }
    }
    out
}
fn ints(mt: u8, v: u64) -> Vec<Vec<u8>> {
    heads(mt, v).into_iter().filter(|h| !h.1).map(|h| h.0).collect()
}
fn joined(parts: &[Vec<Vec<u8>>], cap: usize) -> Vec<Vec<u8>> {
    product(parts, cap).into_iter().map(|p| p.concat()).collect()
}
/// header alternatives around the concatenation of the parts
fn around(mt: u8, n: u64, parts: &[Vec<Vec<u8>>], cap: usize) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let hs = heads(mt, n);
    for (j, body) in joined(parts, cap).iter().enumerate() {
        for (h, brk) in &hs {
            // all headers with the canonical content, canonical and indefinite header with the others
            if j > 0 && !(*brk || h == &hs[0].0) {
                continue;
            }
            let mut b = h.clone();
            b.extend_from_slice(body);
            if *brk {
                b.push(0xff)
            }
            out.push(b)
        }
    }
    out
}

/// encodings of the same content, canonical first
pub fn alts(ty: Ty, v: &Val, cap: usize) -> Vec<Vec<u8>> {
    match (ty, v) {
        (Ty::List(t), Val::List(l)) => {
            let parts: Vec<_> = l.iter().map(|x| nested(alts(*t, x, 4), 12)).collect();
            around(4, l.len() as u64, &parts, cap)
        }
        (Ty::D(i), v) => match (&decl(i).schema, v) {
            (Schema::Rec(r), Val::Rec(f)) => {
                let present: Vec<(u64, &F, &Val)> = r
                    .fields
                    .iter()
                    .zip(f)
                    .zip(numbers(r.start, r.skips, f.len()))
                    .filter_map(|((f, v), k)| v.as_ref().map(|v| (k, f, v)))
                    .collect();
                let parts: Vec<Vec<Vec<u8>>> = present.iter().map(|(_, f, v)| nested(alts(f.ty, v, 8), 24)).collect();
                let n = parts.len() as u64;
                let inner = match r.layout {
                    Layout::Flat => joined(&parts, cap),
                    Layout::Array | Layout::LastOpt => around(4, n, &parts, cap),
                    Layout::Map => {
                        let mut kv = vec![];
                        for ((k, _, _), p) in present.iter().zip(&parts) {
                            kv.push(ints(0, *k));
                            kv.push(p.clone());
                        }
                        let mut out = around(5, n, &kv, cap);
                        for p in orders(n as usize) {
                            let mut kv = vec![];
                            for i in p {
                                kv.push(vec![ints(0, present[i].0)[0].clone()]);
                                kv.push(parts[i].clone());
                            }
                            out.extend(around(5, n, &kv, 1).into_iter());
                        }
                        out
                    }
                };
                match r.tag {
                    None => inner,
                    Some(t) => {
                        let mut out = vec![];
                        for (i, h) in ints(6, t).iter().enumerate() {
                            for (j, x) in inner.iter().enumerate() {
                                if i == 0 || j < 8 {
                                    out.push([h.clone(), x.clone()].concat())
                                }
                            }
                        }
                        out
                    }
                }
            }
            (Schema::Enum(e), Val::Var(i, f)) => {
                let num = numbers(e.start, e.skips, e.variants.len())[*i];
                let var = &e.variants[*i];
                match e.how {
                    How::Int => ints(0, num),
                    How::Tagged => {
                        let mut parts = vec![ints(0, num)];
                        parts.extend(var.fields.iter().zip(f).map(|(t, x)| nested(alts(*t, x, 8), 24)));
                        around(4, parts.len() as u64, &parts, cap)
                    }
                    How::ByType => match f.first() {
                        None => vec![vec![0xf6]],
                        Some(x) => alts(var.fields[0], x, cap),
                    },
                }
            }
            _ => unreachable!(),
        },
        (_, Val::U(x)) => ints(0, *x),
        (_, Val::Bool(_)) | (_, Val::Raw(_)) => {
            let mut b = vec![];
            enc(ty, v, &mut b);
            vec![b]
        }
        (_, Val::Str(x)) => strings(3, x),
        (_, Val::Bytes(x)) => strings(2, x),
        _ => unreachable!(),
    }
}
fn strings(mt: u8, x: &[u8]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = ints(mt, x.len() as u64).into_iter().map(|h| [h, x.to_vec()].concat()).collect();
    let chunk = |w: Option<W>, s: &[u8]| {
        let mut b = vec![];
        put_head(&mut b, mt, w.unwrap_or(W::shortest(s.len() as u64)), s.len() as u64);
        b.extend_from_slice(s);
        b
    };
    let indef = |c: &[Vec<u8>]| [vec![mt << 5 | 31], c.concat(), vec![0xff]].concat();
    out.push(indef(&[chunk(None, x)]));
    out.push(indef(&[chunk(Some(W::B2), x)]));
    // split after the first character, with empty chunks around
    let cut = (1..x.len()).find(|i| mt == 2 || x[*i] & 0xc0 != 0x80).unwrap_or(x.len());
    out.push(indef(&[chunk(None, &[]), chunk(Some(W::B1), &x[..cut]), chunk(None, &x[cut..]), chunk(None, &[])]));
    if x.is_empty() {
        out.push(indef(&[]));
    }
    out
}
/// orders of n entries other than the given one: all for n <= 4, else rotations and reversals
fn orders(n: usize) -> Vec<Vec<usize>> {
    let id: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    if n <= 4 {
        fn rec(p: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
            if p.len() == n {
                out.push(p.clone());
                return;
            }
            for i in 0..n {
                if !p.contains(&i) {
                    p.push(i);
                    rec(p, n, out);
                    p.pop();
                }
            }
        }
        rec(&mut vec![], n, &mut out);
    } else {
        for k in 1..n.min(8) {
            out.push((0..n).map(|i| (i + k) % n).collect())
        }
        out.push((0..n).rev().collect());
    }
    out.retain(|p| *p != id);
    out
}

// ---------------------------------------------------------------- wires close to the layout

#[derive(Clone)]
pub enum T {
    Raw(Vec<u8>),
    Arr(bool, Vec<T>),
    Map(bool, Vec<(T, T)>),
    Tag(u64, Box<T>),
    /// elements one after another
    Seq(Vec<T>),
}
pub fn parse(b: &[u8]) -> T {
    let mut v = vec![];
    let mut p = 0;
    while p < b.len() {
        let (t, e) = parse1(b, p);
        v.push(t);
        p = e;
    }
    if v.len() == 1 {
        v.pop().unwrap()
    } else {
        T::Seq(v)
    }
}
fn parse1(b: &[u8], pos: usize) -> (T, usize) {
    let (n, _, end) = node(b, pos).expect("a well-formed encoding");
    let one = |r: &Rng| parse1(b, r.0).0;
    let t = match &n {
        Node::Array { len, items } => T::Arr(len.is_none(), items.iter().map(one).collect()),
        Node::Map { len, items } => T::Map(len.is_none(), items.iter().map(|(k, v)| (one(k), one(v))).collect()),
        Node::Tag { val, item, .. } => T::Tag(*val, Box::new(one(item))),
        _ => T::Raw(b[pos..end].to_vec()),
    };
    (t, end)
}
pub fn put(t: &T, out: &mut Vec<u8>) {
    match t {
        T::Raw(b) => out.extend_from_slice(b),
        T::Seq(v) => v.iter().for_each(|x| put(x, out)),
        T::Arr(indef, v) => {
            if *indef {
                out.push(0x9f)
            } else {
                put_short(out, 4, v.len() as u64)
            }
            v.iter().for_each(|x| put(x, out));
            if *indef {
                out.push(0xff)
            }
        }
        T::Map(indef, v) => {
            if *indef {
                out.push(0xbf)
            } else {
                put_short(out, 5, v.len() as u64)
            }
            v.iter().for_each(|(k, x)| {
                put(k, out);
                put(x, out)
            });
            if *indef {
                out.push(0xff)
            }
        }
        T::Tag(n, x) => {
            put_short(out, 6, *n);
            put(x, out)
        }
    }
}

pub fn aliens() -> Vec<T> {
    hexs(&[
        "00", "01", "02", "03", "05", "17", "1817", "1818", "1819", "1840", "18ff", "190100", "1903e8", "1b0000000100000000", "1b8000000000000000",
        "1bffffffffffffffff", "20", "21", "3818", "40", "4100", "420001", "43000102", "5fff", "5f4100ff", "5f41004101ff", "60", "6130", "6161",
        "61ff", "7fff", "7f61c361a9ff", "80", "8100", "820001", "8200f4", "83000102", "9fff", "9f00ff", "8181f6", "a0", "a10000", "a100f6", "a2000001f4",
        "bfff", "c100", "c10001", "d81800", "d818820000", "f4", "f5", "f6", "f7", "e0", "f820", "f90000", "fa3f800000", "fb3ff0000000000000", "ff", "1c", "5f00ff",
    ])
    .into_iter()
    .map(T::Raw)
    .collect()
}

/// every tree one structural edit away
pub fn edits(t: &T, al: &[T], f: &mut dyn FnMut(T)) {
    for a in al {
        f(a.clone())
    }
    f(T::Arr(false, vec![t.clone()]));
    f(T::Arr(true, vec![t.clone()]));
    f(T::Tag(0, Box::new(t.clone())));
    f(T::Tag(24, Box::new(t.clone())));
    f(T::Map(false, vec![(T::Raw(vec![0]), t.clone())]));
    f(T::Seq(vec![t.clone(), T::Raw(vec![0])]));
    f(T::Seq(vec![]));
    match t {
        T::Raw(_) => {}
        T::Arr(indef, v) => {
            vec_edits(v, al, &mut |w| f(T::Arr(*indef, w)));
            f(T::Seq(v.clone()));
            f(T::Map(*indef, v.iter().enumerate().map(|(i, x)| (T::Raw(vec![i as u8 % 24]), x.clone())).collect()));
        }
        T::Seq(v) => {
            vec_edits(v, al, &mut |w| f(T::Seq(w)));
            f(T::Arr(false, v.clone()));
        }
        T::Map(indef, v) => {
            let n = v.len();
            for i in 0..n {
                let mut w = v.clone();
                let x = w.remove(i);
                f(T::Map(*indef, w));
                // repeated at every place, with the same and with another content
                for at in 0..=n {
                    let mut w = v.clone();
                    w.insert(at, x.clone());
                    f(T::Map(*indef, w));
                    if n <= 4 {
                        for c in [0xf6u8, 0x00, 0x60] {
                            let mut w = v.clone();
                            w.insert(at, (x.0.clone(), T::Raw(vec![c])));
                            f(T::Map(*indef, w));
                        }
                    }
                }
                let mut w = v.clone();
                edits(&v[i].0, al, &mut |k| {
                    w[i].0 = k;
                    f(T::Map(*indef, w.clone()))
                });
                w[i].0 = v[i].0.clone();
                edits(&v[i].1, al, &mut |x| {
                    w[i].1 = x;
                    f(T::Map(*indef, w.clone()))
                });
                let mut w = v.clone();
                w[i] = (v[i].1.clone(), v[i].0.clone());
                f(T::Map(*indef, w));
            }
            for a in al {
                for at in [0, n] {
                    let mut w = v.clone();
                    w.insert(at, (a.clone(), T::Raw(vec![0])));
                    f(T::Map(*indef, w));
                }
            }
            let flat: Vec<T> = v.iter().flat_map(|(k, x)| [k.clone(), x.clone()]).collect();
            f(T::Arr(*indef, v.iter().map(|x| x.1.clone()).collect()));
            f(T::Seq(flat));
        }
        T::Tag(n, x) => {
            f((**x).clone());
            f(T::Tag(*n, Box::new(t.clone())));
            for m in [n.wrapping_add(1), n.wrapping_sub(1), n ^ (1 << 8), n ^ (1 << 16), n ^ (1 << 32), n ^ (1 << 63), 0, 24, 55799] {
                if m != *n {
                    f(T::Tag(m, x.clone()))
                }
            }
            edits(x, al, &mut |y| f(T::Tag(*n, Box::new(y))));
        }
    }
}
fn vec_edits(v: &[T], al: &[T], f: &mut dyn FnMut(Vec<T>)) {
    for i in 0..v.len() {
        let mut w = v.to_vec();
        w.remove(i);
        f(w);
        let mut w = v.to_vec();
        w.insert(i, v[i].clone());
        f(w);
        let mut w = v.to_vec();
        edits(&v[i], al, &mut |x| {
            w[i] = x;
            f(w.clone())
        });
        if i > 0 {
            let mut w = v.to_vec();
            w.swap(i - 1, i);
            f(w);
        }
        f(v[..i].to_vec());
    }
    for a in al {
        let mut w = v.to_vec();
        w.push(a.clone());
        f(w.clone());
        w.rotate_right(1);
        f(w);
    }
}
