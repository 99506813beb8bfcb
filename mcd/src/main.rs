//! C16-C19, C23 and C26: derived declarations, explored in lockstep with an interpreter of the documented layouts.

mod decls {
    include!(env!("MCD_DECLS"));
}
mod rt;
mod schema;
mod wires;

use mc::engine::*;
use mc::ensure;
use mc::gen::{fam, small_shape, tiny_shape, CheckFn, Trees, SHARP, SHARP_SMALL};
use cbored::{DecodeErrorKind, Type};
use mc::real::kind_of_type;
use mc::refm::*;
use schema::*;
use std::collections::HashSet;
use std::sync::{Arc, OnceLock};

type R = Result<(), String>;

fn split(case: &[u8]) -> (usize, &[u8]) {
    ((case[0] as usize) << 8 | case[1] as usize, &case[2..])
}
fn join(i: usize, wire: &[u8], buf: &mut Vec<u8>) {
    buf.clear();
    buf.push((i >> 8) as u8);
    buf.push(i as u8);
    buf.extend_from_slice(wire);
}

fn count(case: &[u8], i: usize, ok: bool, c: &mut Ctx) {
    let (_, wire) = split(case);
    if c.model_item(wire, 0).is_err() {
        c.trans += 1;
    }
    c.execs += 1;
    if ok {
        c.state_bytes(i as u64 + 1000, wire);
        c.out("accepted")
    } else {
        c.out("rejected")
    }
}

/// C16, C18: what the layout says is accepted, with its value, and written back as the layout says
fn accepts(case: &[u8], c: &mut Ctx) -> R {
    let (i, wire) = split(case);
    let d = decl(i);
    let want = schema::dec(Ty::D(i), wire, 0);
    count(case, i, want.is_ok(), c);
    let Ok((v, e)) = want else { return Ok(()) };
    match (d.dec)(wire) {
        Ok((got, n)) => {
            ensure!(got == v, "declaration {}: decoded {:?}, want {:?}\n{}", d.key, got, v, d.src);
            ensure!(n == e, "declaration {}: consumed {} bytes, want {}\n{}", d.key, n, e, d.src);
        }
        Err(err) => return Err(format!("declaration {}: refused with {}, want {:?}\n{}", d.key, err.display, v, d.src)),
    }
    let mut want = vec![];
    schema::enc(Ty::D(i), &v, &mut want);
    let got = (d.enc)(&v);
    ensure!(got == want, "declaration {}: {:?} is written as {:02x?}, want {:02x?}\n{}", d.key, v, got, want, d.src);
    Ok(())
}

/// C17, C19: what is not the layout is refused
fn rejects(case: &[u8], c: &mut Ctx) -> R {
    let (i, wire) = split(case);
    let d = decl(i);
    let got = (d.dec)(wire);
    count(case, i, got.is_ok(), c);
    if let Ok((got, n)) = got {
        match schema::dec(Ty::D(i), wire, 0) {
            Ok((v, e)) => {
                ensure!(got == v, "declaration {}: decoded {:?}, want {:?}\n{}", d.key, got, v, d.src);
                ensure!(n == e, "declaration {}: consumed {} bytes, want {}\n{}", d.key, n, e, d.src);
            }
            Err(_) => return Err(format!("declaration {}: decoded {:?} from what is not its layout\n{}", d.key, got, d.src)),
        }
    }
    Ok(())
}

/// different variants have different encodings
fn distinct(case: &[u8], c: &mut Ctx) -> R {
    let (i, _) = split(case);
    let d = decl(i);
    let mut all: Vec<(Vec<u8>, usize)> = vec![];
    for v in wires::values(Ty::D(i), 60) {
        let Val::Var(k, _) = v else { return Ok(()) };
        all.push(((d.enc)(&v), k));
        c.execs += 1;
        c.trans += 1;
    }
    all.sort();
    for w in all.windows(2) {
        ensure!(w[0].0 != w[1].0 || w[0].1 == w[1].1, "declaration {}: variants {} and {} share the encoding {:02x?}\n{}", d.key, w[0].1, w[1].1, w[0].0, d.src);
    }
    c.out("distinct");
    Ok(())
}

// ---------------------------------------------------------------- C23, records

fn record_fields() -> &'static HashSet<&'static str> {
    static S: OnceLock<HashSet<&'static str>> = OnceLock::new();
    S.get_or_init(|| {
        let mut s = HashSet::new();
        for d in decls::DECLS {
            if let Schema::Rec(Rec { named: true, fields, .. }) = &d.schema {
                s.extend(fields.iter().map(|f| f.name));
            }
        }
        s
    })
}
fn alone(ty: Ty, b: &[u8]) -> Option<String> {
    use rt::alone as a;
    match ty {
        Ty::U8 => a::<u8>(b),
        Ty::U16 => a::<u16>(b),
        Ty::U32 => a::<u32>(b),
        Ty::U64 => a::<u64>(b),
        Ty::Bool => a::<bool>(b),
        Ty::Str => a::<String>(b),
        Ty::Bytes => a::<Vec<u8>>(b),
        Ty::Arr2 => a::<[u8; 2]>(b),
        Ty::Scalar => a::<cbored::Scalar>(b),
        Ty::Data => a::<cbored::DataOwned>(b),
        Ty::OfU64 => a::<cbored::CborDataOf<u64>>(b),
        _ => None,
    }
}
fn named_rec(ty: Ty) -> Option<&'static Rec> {
    match ty {
        Ty::D(i) => match &decl(i).schema {
            Schema::Rec(r) if r.named => Some(r),
            _ => None,
        },
        _ => None,
    }
}
/// names: the record fields of the context, outermost first
fn names_ok(r: &Rec, fail: &Fail, names: &[&str], wire: &[u8], kind: &str) -> R {
    let Some(first) = names.first() else {
        ensure!(fail.structural || fail.fields.is_empty(), "the error names no field; {:?} do not decode", fail.fields.iter().map(|f| f.0).collect::<Vec<_>>());
        return Ok(());
    };
    let Some((_, sub, ty, rng)) = fail.fields.iter().find(|f| f.0 == *first) else {
        return Err(format!("the error names field {}; those that do not decode: {:?}", first, fail.fields.iter().map(|f| f.0).collect::<Vec<_>>()));
    };
    // a flat record is read from the surrounding bytes: its fields have no element of their own
    let own = r.layout != Layout::Flat;
    if let Some(inner) = named_rec(*ty) {
        return names_ok(inner, sub, &names[1..], wire, kind);
    }
    if matches!(ty, Ty::D(_) | Ty::List(_)) {
        return Ok(());
    }
    ensure!(names.len() == 1, "the error names {:?} below the plain field {}", &names[1..], first);
    if own && rng.1 <= wire.len() {
        if let Some(want) = alone(*ty, &wire[rng.0..rng.1]) {
            ensure!(kind == want, "the cause is {}, decoding field {} alone gives {}", kind, first, want);
        }
    }
    Ok(())
}
fn contexts(case: &[u8], c: &mut Ctx) -> R {
    let (i, wire) = split(case);
    let d = decl(i);
    let Some(r) = named_rec(Ty::D(i)) else { return Ok(()) };
    let want = schema::dec(Ty::D(i), wire, 0);
    count(case, i, want.is_ok(), c);
    let Err(fail) = want else { return Ok(()) };
    // accepting it is the business of C17
    let Err(e) = (d.dec)(wire) else { return Ok(()) };
    let rev: Vec<&str> = e.context.iter().rev().map(|s| s.as_str()).collect();
    ensure!(e.path == rev.join("->"), "the path form is {:?} for the list form {:?}", e.path, e.context);
    ensure!(e.display == format!("{}: {}", e.path, e.kind), "printed as {:?}", e.display);
    let names: Vec<&str> = rev.into_iter().filter(|s| record_fields().contains(s)).collect();
    names_ok(r, &fail, &names, wire, &e.kind).map_err(|m| format!("declaration {}: {} (context {:?})\n{}", d.key, m, e.context, d.src))
}

// ---------------------------------------------------------------- C26

/// what is wrong with the layout itself
#[derive(Debug, PartialEq)]
enum Fault {
    Kind(K, K),
    TagNo(u64, u64),
    Items { got: usize, want: Vec<usize> },
    Number(u64),
    Missing(&'static str),
    NoVariantOf(K),
    Other,
}
fn head_kind(b: &[u8], pos: usize) -> Option<K> {
    head(b, pos).ok().map(|h| kind(h.mt, h.ai))
}
/// every fault of the declaration's own layout (the content of fields is none)
fn faults(s: &Schema, b: &[u8]) -> Vec<Fault> {
    let mut pos = 0;
    let of_kind = |k: K, pos: usize| match (head_kind(b, pos), node(b, pos)) {
        (Some(g), _) if g != k => Err(vec![Fault::Kind(k, g)]),
        (_, Ok((n, _, _))) => Ok(n),
        _ => Err(vec![Fault::Other]),
    };
    let go = || -> Result<Vec<Fault>, Vec<Fault>> {
        let mut l = vec![];
        match s {
            Schema::Rec(r) => {
                if let Some(t) = r.tag {
                    match of_kind(K::Tag, pos)? {
                        Node::Tag { val, item, .. } if val == t => pos = item.0,
                        Node::Tag { val, .. } => return Err(vec![Fault::TagNo(t, val)]),
                        _ => return Err(vec![Fault::Other]),
                    }
                }
                match r.layout {
                    Layout::Flat => {}
                    Layout::Array | Layout::LastOpt => {
                        let Node::Array { items, .. } = of_kind(K::Array, pos)? else { return Err(vec![Fault::Other]) };
                        let n = r.fields.len();
                        let mut want = vec![n];
                        if r.layout == Layout::LastOpt {
                            want.push(n - 1);
                        }
                        if !want.contains(&items.len()) {
                            l.push(Fault::Items { got: items.len(), want });
                        }
                    }
                    Layout::Map => {
                        let Node::Map { items, .. } = of_kind(K::Map, pos)? else { return Err(vec![Fault::Other]) };
                        let keys = schema::numbers(r.start, r.skips, r.fields.len());
                        let mut seen = vec![false; keys.len()];
                        for (k, _) in items {
                            match node(b, k.0) {
                                Ok((Node::Pos(_, n), _, _)) => match keys.iter().position(|x| *x == n) {
                                    Some(i) if !seen[i] => seen[i] = true,
                                    _ => l.push(Fault::Number(n)),
                                },
                                _ => l.push(Fault::Kind(K::Pos, head_kind(b, k.0).unwrap())),
                            }
                        }
                        for (f, s) in r.fields.iter().zip(seen) {
                            if !f.opt && !s {
                                l.push(Fault::Missing(f.name));
                            }
                        }
                    }
                }
            }
            Schema::Enum(e) => {
                let nums = schema::numbers(e.start, e.skips, e.variants.len());
                match e.how {
                    How::Int => match of_kind(K::Pos, pos)? {
                        Node::Pos(_, n) if !nums.contains(&n) => l.push(Fault::Number(n)),
                        _ => {}
                    },
                    How::Tagged => {
                        let Node::Array { items, .. } = of_kind(K::Array, pos)? else { return Err(vec![Fault::Other]) };
                        if items.is_empty() {
                            return Err(vec![Fault::Other]);
                        }
                        let Node::Pos(_, n) = of_kind(K::Pos, items[0].0)? else { return Err(vec![Fault::Other]) };
                        match nums.iter().position(|x| *x == n) {
                            None => l.push(Fault::Number(n)),
                            Some(i) => {
                                let want = e.variants[i].fields.len() + 1;
                                if items.len() != want {
                                    l.push(Fault::Items { got: items.len(), want: vec![want] });
                                }
                            }
                        }
                    }
                    How::ByType => match head_kind(b, pos) {
                        Some(k) if e.variants.iter().all(|v| v.kind != Some(k)) => l.push(Fault::NoVariantOf(k)),
                        _ => {}
                    },
                }
            }
        }
        Ok(l)
    };
    let mut go = go;
    go().unwrap_or_else(|l| l)
}
/// the words of the message
fn mentions(m: &str, w: &str) -> bool {
    m.split(|c: char| !c.is_alphanumeric() && c != '_').any(|x| x == w)
}
fn tells(e: &DecodeErrorKind, f: &Fault) -> bool {
    use DecodeErrorKind::*;
    use cbored::ReaderError as X;
    match (f, e) {
        (Fault::Other, _) => true,
        (Fault::Kind(k, g), ReaderError(X::WrongExpectedType { expected, got })) => kind_of_type(*expected) == *k && kind_of_type(*got) == *g,
        (Fault::TagNo(t, n), ReaderError(X::WrongExpectedTag { expected, got })) => t == expected && n == got,
        (Fault::Items { got, want }, Custom(m)) => mentions(m, &got.to_string()) && want.iter().all(|w| mentions(m, &w.to_string())),
        (Fault::Items { got, want }, UnexpectedLength { expected, got: g } | ReaderError(X::WrongExpectedLength { expected, got: g })) => got == g && want.contains(expected),
        (Fault::Number(n), Custom(m)) => mentions(m, &n.to_string()),
        (Fault::Missing(f), Custom(m)) => mentions(m, f),
        (Fault::NoVariantOf(k), Custom(m)) => ALL_TYPES.iter().any(|t| kind_of_type(*t) == *k && mentions(m, &format!("{:?}", t))),
        (Fault::NoVariantOf(k), ReaderError(X::WrongExpectedType { got, .. } | X::WrongExpectedTypes { got, .. })) => kind_of_type(*got) == *k,
        _ => false,
    }
}
const ALL_TYPES: [Type; 14] = [Type::Break, Type::Positive, Type::Negative, Type::Bytes, Type::Text, Type::Array, Type::Map, Type::Tag, Type::False, Type::True, Type::Null, Type::Undefined, Type::Float, Type::Byte];
fn refusals(case: &[u8], c: &mut Ctx) -> R {
    let (i, wire) = split(case);
    let d = decl(i);
    let f = faults(&d.schema, wire);
    count(case, i, f.is_empty(), c);
    // only where there is nothing else to report
    let [f] = &f[..] else { return Ok(()) };
    if let Schema::Rec(_) = d.schema {
        match schema::dec(Ty::D(i), wire, 0) {
            Err(fail) if fail.fields.is_empty() => {}
            _ => return Ok(()),
        }
    }
    // accepting it is the business of C17 and C19
    let Err(e) = (d.dec)(wire) else { return Ok(()) };
    ensure!(tells(&e.error, f), "declaration {}: the error is {:?}, what is wrong is {:?}\n{}", d.key, e.error, f, d.src);
    c.out(match f {
        Fault::Kind(..) => "kind told",
        Fault::TagNo(..) => "tag told",
        Fault::Items { .. } => "items told",
        Fault::Number(_) => "number told",
        Fault::Missing(_) => "missing told",
        Fault::NoVariantOf(_) => "no variant of the type",
        Fault::Other => "other",
    });
    Ok(())
}

// ---------------------------------------------------------------- families

fn ids(rec: bool, fields: bool) -> Arc<Vec<usize>> {
    let v = decls::DECLS
        .iter()
        .enumerate()
        .filter(|(_, d)| {
            d.is_rec() == rec
                && (!fields || matches!(&d.schema, Schema::Rec(Rec { named: true, fields, .. }) if !fields.is_empty()))
        })
        .map(|(i, _)| i)
        .collect();
    Arc::new(v)
}
fn canon(i: usize, v: &Val) -> Vec<u8> {
    let mut b = vec![];
    enc(Ty::D(i), v, &mut b);
    b
}
/// a few values: the first one and those that differ most
fn few(i: usize, n: usize) -> Vec<Val> {
    // (without those that hold a list of hundreds)
    let mut all = wires::values(Ty::D(i), 40);
    let wide = match &decl(i).schema {
        Schema::Rec(r) => r.fields.len() > 100,
        Schema::Enum(e) => e.variants.iter().any(|v| v.fields.len() > 100),
    };
    if !wide {
        all.retain(|v| canon(i, v).len() < 220);
    }
    let step = (all.len() / n).max(1);
    let mut out: Vec<Val> = all.iter().step_by(step).take(n).cloned().collect();
    out.push(all.last().unwrap().clone());
    out
}

fn families(t: Tier, rec: bool, fields: bool, deep_values: bool, check: CheckFn) -> Vec<Family> {
    let ids = ids(rec, fields);
    let n = ids.len();
    let what = if rec { "records" } else { "enums" };
    let th = t == Tier::Thorough;
    let mut out = vec![];
    macro_rules! family {
        ($name:expr, $bound:expr, |$i:ident, $emit:ident| $body:block) => {{
            let ids = ids.clone();
            out.push(fam($name, format!("{} {} x {}", n, what, $bound), n, Box::new(move |u, f| {
                let $i = ids[u];
                let mut buf = vec![];
                let mut $emit = |w: &[u8]| { join($i, w, &mut buf); f(&buf) };
                $body
            }), check));
        }};
    }
    // the rejecting checks have little to see in accepted wires
    let (vcap, acap) = if deep_values { (t.pick(64, 400), t.pick(40, 200)) } else { (t.pick(16, 100), t.pick(8, 40)) };
    family!("values", format!("every value of the product of 1..9 values per field (one-field deviations above {}; 6 values of records of more than 8 fields and enums with more than 40), alone and followed by another element, in every alternative encoding (header widths, indefinite, chunks, entry orders; full product up to {}, else one deviation at a time)", vcap, acap), |i, emit| {
        let wide = match &decl(i).schema {
            Schema::Rec(r) => r.fields.len() > 8,
            Schema::Enum(e) => e.variants.iter().any(|v| v.fields.len() > 40),
        };
        let vals = if wide { few(i, 5) } else { wires::values(Ty::D(i), vcap) };
        for v in vals {
            for (k, w) in wires::alts(Ty::D(i), &v, acap).into_iter().enumerate() {
                let back = schema::dec(Ty::D(i), &w, 0);
                assert!(matches!(&back, Ok((x, e)) if *x == v && *e == w.len()), "generator and model disagree on {:02x?}", w);
                emit(&w);
                if k < 4 {
                    let mut w = w;
                    w.push(0x01);
                    emit(&w);
                }
            }
        }
    });
    let k = t.pick(4, 12);
    family!("edits", format!("every single structural edit (replace by {} foreign elements, drop, repeat, insert, swap, wrap, unwrap, retag, reshape) of {} values", wires::aliens().len(), k), |i, emit| {
        let al = wires::aliens();
        let mut b = vec![];
        for v in few(i, k) {
            let tree = wires::parse(&canon(i, &v));
            wires::edits(&tree, &al, &mut |x| {
                b.clear();
                wires::put(&x, &mut b);
                emit(&b)
            });
        }
    });
    let k = t.pick(2, 6);
    family!("bytes", format!("every truncation, single-byte substitution, deletion and insertion of {} values", k), |i, emit| {
        for v in few(i, k) {
            let b = canon(i, &v);
            let all = b.len() <= 24;
            let mut m = b.clone();
            for p in 0..b.len() {
                emit(&b[..p]);
                let o = b[p];
                if all {
                    for x in 0..=255u8 {
                        m[p] = x;
                        emit(&m);
                    }
                } else {
                    for x in SHARP {
                        m[p] = *x;
                        emit(&m);
                    }
                }
                m[p] = o;
                let x = m.remove(p);
                emit(&m);
                m.insert(p, x);
            }
            for p in 0..=b.len() {
                for x in if all { SHARP } else { SHARP_SMALL } {
                    m.insert(p, *x);
                    emit(&m);
                    m.remove(p);
                }
            }
        }
    });
    let trees = Arc::new(Trees::new(small_shape(), 4).all());
    family!("trees", "every element tree of <= 4 nodes over 12 leaves", |i, emit| {
        for b in trees.iter() {
            emit(b)
        }
    });
    if th {
        let trees = Arc::new(Trees::new(tiny_shape(), 6).all());
        family!("trees-deep", "every element tree of <= 6 nodes over 4 leaves", |i, emit| {
            for b in trees.iter() {
                emit(b)
            }
        });
        family!("edits2", "every pair of structural edits over 14 foreign elements of 2 values", |i, emit| {
            let al: Vec<_> = wires::aliens().into_iter().step_by(4).take(14).collect();
            let mut b = vec![];
            for v in few(i, 1) {
                let c = canon(i, &v);
                if c.len() > 30 {
                    continue;
                }
                let tree = wires::parse(&c);
                wires::edits(&tree, &al, &mut |x| {
                    wires::edits(&x, &al, &mut |y| {
                        b.clear();
                        wires::put(&y, &mut b);
                        emit(&b)
                    });
                });
            }
        });
    }
    if rec {
        let depth = t.pick(3, 4);
        family!("map-entries", format!("every sequence of <= {} entries over known keys with good and bad content and foreign keys (next to known ones, skipped, 2^5 to 2^64 away, other types)", depth), |i, emit| {
            let Schema::Rec(r) = &decl(i).schema else { return };
            if r.layout != Layout::Map || r.fields.len() > 4 {
                return;
            }
            let entries = entries(r, th);
            let mut out = vec![];
            fn go(r: &Rec, entries: &[Vec<u8>], items: &mut Vec<u8>, n: usize, left: usize, out: &mut Vec<u8>, emit: &mut dyn FnMut(&[u8])) {
                for indef in [false, true] {
                    out.clear();
                    if let Some(t) = r.tag {
                        put_short(out, 6, t)
                    }
                    if indef {
                        out.push(0xbf)
                    } else {
                        put_short(out, 5, n as u64)
                    }
                    out.extend_from_slice(items);
                    if indef {
                        out.push(0xff)
                    }
                    emit(out);
                }
                if left > 0 {
                    for e in entries {
                        let l = items.len();
                        items.extend_from_slice(e);
                        go(r, entries, items, n + 1, left - 1, out, emit);
                        items.truncate(l);
                    }
                }
            }
            go(r, &entries, &mut vec![], 0, depth, &mut out, &mut emit);
        });
        family!("repeated-keys", "every value with all fields, each entry repeated at each place", |i, emit| {
            let Schema::Rec(r) = &decl(i).schema else { return };
            if r.layout != Layout::Map {
                return;
            }
            let keys = numbers(r.start, r.skips, r.fields.len());
            let es: Vec<Vec<u8>> = r.fields.iter().zip(&keys).map(|(f, k)| {
                let mut b = vec![];
                put_short(&mut b, 0, *k);
                enc(f.ty, &wires::values(f.ty, 2)[0], &mut b);
                b
            }).collect();
            for x in 0..es.len() {
                for at in 0..=es.len() {
                    let mut l = es.clone();
                    l.insert(at, es[x].clone());
                    let mut b = vec![];
                    if let Some(t) = r.tag {
                        put_short(&mut b, 6, t)
                    }
                    put_short(&mut b, 5, l.len() as u64);
                    b.extend(l.concat());
                    emit(&b);
                }
            }
        });
        family!("item-counts", "every array of 0..n+3, n+253..n+259 and n+65536 items in three header styles, items good for their field or all alike", |i, emit| {
            let Schema::Rec(r) = &decl(i).schema else { return };
            let n = r.fields.len();
            let good: Vec<Vec<u8>> = r.fields.iter().map(|f| { let mut b = vec![]; enc(f.ty, &wires::values(f.ty, 2)[0], &mut b); b }).collect();
            for count in (0..=n + 3).chain(n + 253..=n + 259).chain([n + 65536]) {
                for fill in [0usize, 1, 2] {
                    if count > n + 3 && fill == 1 {
                        continue;
                    }
                    for st in 0..3 {
                        let mut b = vec![];
                        if let Some(t) = r.tag {
                            put_short(&mut b, 6, t)
                        }
                        match st {
                            0 => put_short(&mut b, 4, count as u64),
                            1 => put_head(&mut b, 4, if W::B2.fits(count as u64) { W::B2 } else { W::B8 }, count as u64),
                            _ => b.push(0x9f),
                        }
                        for k in 0..count {
                            match (fill, good.get(k)) {
                                (0, Some(g)) => b.extend_from_slice(g),
                                (1, _) => b.push(0xf6),
                                _ => b.push(0x00),
                            }
                        }
                        if st == 2 {
                            b.push(0xff)
                        }
                        emit(&b);
                    }
                }
            }
        });
    } else {
        family!("numbers", "every number up to 70 past the last one and 2^8..2^63 away from each, in every width and as a negative, alone and in arrays of 0..n+2 items with the fields of each variant", |i, emit| {
            let Schema::Enum(e) = &decl(i).schema else { return };
            let nums = numbers(e.start, e.skips, e.variants.len());
            let max = *nums.iter().max().unwrap_or(&0);
            let lo = nums[0].saturating_sub(70);
            let mut cand: Vec<u64> = (0..70.min(lo)).chain(lo..=max.saturating_add(70)).collect();
            for k in [nums[0], max] {
                for s in [8, 16, 32, 63] {
                    cand.push(k ^ (1 << s));
                    cand.push(k.wrapping_add(1 << s));
                }
            }
            cand.push(u64::MAX);
            cand.sort();
            cand.dedup();
            let bodies: Vec<Vec<Vec<u8>>> = if e.variants.len() > 8 { vec![vec![], vec![vec![0]]] } else {
                e.variants.iter().map(|v| v.fields.iter().map(|t| { let mut b = vec![]; enc(*t, &wires::values(*t, 2)[0], &mut b); b }).collect()).collect()
            };
            for c in cand {
                for mt in [0u8, 1] {
                    for w in WIDTHS {
                        if !w.fits(c) {
                            continue;
                        }
                        let mut h = vec![];
                        put_head(&mut h, mt, w, c);
                        emit(&h);
                        for body in &bodies {
                            for extra in 0..3 {
                                for st in 0..2 {
                                    let mut b = vec![];
                                    let n = body.len() + 1 + extra;
                                    if st == 0 { put_short(&mut b, 4, n as u64) } else { b.push(0x9f) }
                                    b.extend_from_slice(&h);
                                    b.extend(body.concat());
                                    b.extend(std::iter::repeat(0x00).take(extra));
                                    if st == 1 { b.push(0xff) }
                                    emit(&b);
                                }
                            }
                            if !body.is_empty() {
                                let mut b = vec![];
                                put_short(&mut b, 4, body.len() as u64);
                                b.extend_from_slice(&h);
                                b.extend(body[..body.len() - 1].concat());
                                emit(&b);
                            }
                        }
                    }
                }
            }
        });
        family!("item-counts", "every variant in an array with 253..259 and 65536 items more, in three header styles", |i, emit| {
            let Schema::Enum(e) = &decl(i).schema else { return };
            let nums = numbers(e.start, e.skips, e.variants.len());
            for (v, no) in e.variants.iter().zip(&nums).take(4) {
                let mut body = vec![];
                put_short(&mut body, 0, *no);
                for t in v.fields {
                    enc(*t, &wires::values(*t, 2)[0], &mut body);
                }
                let n = v.fields.len() + 1;
                for more in (253..=259).chain([65535, 65536, 65537]) {
                    for st in 0..3 {
                        let mut b = vec![];
                        match st {
                            0 => put_short(&mut b, 4, (n + more) as u64),
                            1 => put_head(&mut b, 4, W::B8, (n + more) as u64),
                            _ => b.push(0x9f),
                        }
                        b.extend_from_slice(&body);
                        b.resize(b.len() + more, 0x00);
                        if st == 2 {
                            b.push(0xff)
                        }
                        emit(&b);
                    }
                }
            }
        });
        let sizes: &'static [usize] = if th { &[255, 256, 1000, 4096, 65535, 65536, 65537, 200_000] } else { &[256, 4096, 65535, 65536, 65537] };
        family!("long-lists", format!("every variant with a list field, holding lists of {:?} items, definite and not, whole, a byte short, and with a foreign item at the ends and in the middle", sizes), |i, emit| {
            let Schema::Enum(e) = &decl(i).schema else { return };
            let nums = numbers(e.start, e.skips, e.variants.len());
            for (v, no) in e.variants.iter().zip(&nums) {
                if e.how != How::Tagged || !v.fields.iter().any(|t| matches!(t, Ty::List(_))) {
                    continue;
                }
                for n in sizes {
                    for indef in [false, true] {
                        for odd in [None, Some(0), Some(n / 2), Some(n - 1)] {
                            let mut b = vec![];
                            put_short(&mut b, 4, 1 + v.fields.len() as u64);
                            put_short(&mut b, 0, *no);
                            for t in v.fields {
                                let Ty::List(of) = t else {
                                    enc(*t, &wires::values(*t, 2)[0], &mut b);
                                    continue;
                                };
                                let items: Vec<Vec<u8>> = wires::values(**of, 3).iter().map(|x| { let mut b = vec![]; enc(**of, x, &mut b); b }).collect();
                                if indef { b.push(0x9f) } else { put_short(&mut b, 4, *n as u64) }
                                for k in 0..*n {
                                    if odd == Some(k) { b.push(0xf7) } else { b.extend_from_slice(&items[if k % 5 == 0 { 1 } else { 0 }]) }
                                }
                                if indef { b.push(0xff) }
                            }
                            emit(&b);
                            b.pop();
                            emit(&b);
                        }
                    }
                }
            }
        });
        family!("every-kind", "every element of the wide leaf set, alone, tagged, in an array, and with a trailing byte", |i, emit| {
            let s = mc::gen::wide_shape();
            for l in s.leaves.iter().chain(&s.tags) {
                emit(l);
                for pre in [&[0xc0u8][..], &[0x81], &[0x9f], &[0xa1, 0x00], &[0xd9, 0x01, 0x00]] {
                    let mut b = pre.to_vec();
                    b.extend_from_slice(l);
                    emit(&b);
                    b.push(0xff);
                    emit(&b);
                }
            }
        });
    }
    out
}

fn entries(r: &Rec, th: bool) -> Vec<Vec<u8>> {
    let keys = numbers(r.start, r.skips, r.fields.len());
    let mut out: Vec<Vec<u8>> = vec![];
    for (f, k) in r.fields.iter().zip(&keys) {
        let vals = wires::values(f.ty, 4);
        for v in [&vals[0], vals.last().unwrap()] {
            let mut b = vec![];
            put_short(&mut b, 0, *k);
            enc(f.ty, v, &mut b);
            out.push(b);
        }
        let mut b = vec![];
        put_short(&mut b, 0, *k);
        b.push(if f.ty == Ty::Data { 0xff } else { 0xf6 });
        out.push(b);
    }
    let mut foreign: Vec<u64> = r.skips.to_vec();
    let last = keys.last().copied().unwrap_or(r.start);
    foreign.push(last.wrapping_add(1));
    if let Some(k) = keys.first() {
        foreign.extend([k.wrapping_sub(1), k.wrapping_add(32), k.wrapping_add(64), k.wrapping_add(1 << 32), k ^ (1 << 63)]);
    }
    foreign.push(u64::MAX);
    foreign.sort();
    foreign.dedup();
    foreign.retain(|k| !keys.contains(k));
    if !th && foreign.len() > 7 {
        foreign.truncate(7)
    }
    for k in foreign {
        let mut b = vec![];
        put_short(&mut b, 0, k);
        b.push(0x00);
        out.push(b);
    }
    for k in ["20", "6130", "f6", "c100"] {
        let mut b = unhex(k);
        b.push(0x00);
        out.push(b);
    }
    out
}

fn c16(t: Tier) -> Vec<Family> {
    families(t, true, false, true, accepts)
}
fn c17(t: Tier) -> Vec<Family> {
    families(t, true, false, false, rejects)
}
fn c18(t: Tier) -> Vec<Family> {
    let mut v = families(t, false, false, true, accepts);
    let l = ids(false, false);
    let n = l.len();
    v.push(fam("distinct", format!("{} enums x all pairs of values of different variants", n), n, Box::new(move |u, f| {
        let mut b = vec![];
        join(l[u], &[], &mut b);
        f(&b)
    }), distinct));
    v
}
fn c19(t: Tier) -> Vec<Family> {
    families(t, false, false, false, rejects)
}
fn c23(t: Tier) -> Vec<Family> {
    let mut v = (mc::props::find("C23").families)(t);
    for mut f in families(t, true, true, false, contexts) {
        f.name = format!("record-{}", f.name);
        v.push(f)
    }
    v
}
fn c26(t: Tier) -> Vec<Family> {
    let mut v = (mc::props::find("C26").families)(t);
    for (rec, what) in [(true, "record"), (false, "enum")] {
        for mut f in families(t, rec, false, false, refusals) {
            f.name = format!("{}-{}", what, f.name);
            v.push(f)
        }
    }
    v
}

const A: &[&str] = &[
    "the declarations are the generated family of gen.py: layouts, field counts and types, tags, starts, skips and nesting within its bounds",
    "fields of flat records of other than one field inside arrays and maps are not part of the family (the documentation advises against them)",
];

fn all() -> Vec<Prop> {
    vec![
        Prop { id: "C16", rule: "for every declaration and wire: whenever the interpreter of the documented layout reads a value, the derived decoder reads the same value and consumes the same bytes, and the derived encoder writes the interpreter's encoding of it", families: c16, assumptions: A },
        Prop { id: "C17", rule: "for every declaration and wire: whenever the derived decoder gives a value, the interpreter of the documented layout reads that value from those bytes; no panic", families: c17, assumptions: A },
        Prop { id: "C18", rule: "as C16 for enums, and encodings of different variants differ", families: c18, assumptions: A },
        Prop { id: "C19", rule: "as C17 for enums", families: c19, assumptions: A },
        Prop { id: "C23", rule: "lists: the integer entries of the error context are exactly the model's index path of the first undecodable element; records: the record fields named in the context are a path of fields that the interpreter finds undecodable, and a field is named whenever only fields are wrong; the path form is the reversed list form; the cause equals the error of decoding the innermost element alone; every sequence of up to n context pushes is kept in order", families: c23, assumptions: A },
        Prop { id: "C26", rule: "each of 14 typed reads, 10 native decodings, 5 tagged types and 4 whole-input decodings that is refused: the types, tag numbers, counts, lengths, range, positions and UTF-8 error in the returned error equal those the model finds in the input; derived decoders: whenever exactly one thing is wrong with the layout itself, the error gives it (kinds, tag number, item counts, key or variant number, missing field, kind without variant)", families: c26, assumptions: A },
    ]
}

fn main() {
    mc::cli(all)
}
