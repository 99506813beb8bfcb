//! Interpreter of the documented layouts: what a derived declaration has to write and to accept. Works on the
//! reference model of CBOR only.

use mc::refm::*;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Val {
    U(u64),
    Bool(bool),
    Str(Vec<u8>),
    Bytes(Vec<u8>),
    /// exact encoding kept
    Raw(Vec<u8>),
    List(Vec<Val>),
    Rec(Vec<Option<Val>>),
    Var(usize, Vec<Val>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    U8,
    U16,
    U32,
    U64,
    Bool,
    Str,
    Bytes,
    Arr2,
    Scalar,
    Data,
    OfU64,
    List(&'static Ty),
    D(usize),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Layout {
    Flat,
    Array,
    LastOpt,
    Map,
}
pub struct F {
    pub name: &'static str,
    pub ty: Ty,
    pub opt: bool,
}
pub struct Rec {
    pub layout: Layout,
    pub named: bool,
    pub tag: Option<u64>,
    pub start: u64,
    pub skips: &'static [u64],
    pub fields: &'static [F],
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How {
    Int,
    Tagged,
    ByType,
}
pub struct V {
    #[allow(dead_code)]
    pub name: &'static str,
    pub kind: Option<K>,
    pub fields: &'static [Ty],
    /// names of the fields when they have some
    #[allow(dead_code)]
    pub names: &'static [&'static str],
}
pub struct Enum {
    pub how: How,
    pub start: u64,
    pub skips: &'static [u64],
    pub variants: &'static [V],
}
pub enum Schema {
    Rec(Rec),
    Enum(Enum),
}
pub struct Decl {
    pub key: &'static str,
    pub src: &'static str,
    pub schema: Schema,
    pub enc: fn(&Val) -> Vec<u8>,
    pub dec: fn(&[u8]) -> crate::rt::Dec,
}
impl Decl {
    pub fn is_rec(&self) -> bool {
        matches!(self.schema, Schema::Rec(_))
    }
}

pub fn decl(i: usize) -> &'static Decl {
    &crate::decls::DECLS[i]
}

/// consecutive numbers from `start`, leaving out `skips`
pub fn numbers(start: u64, skips: &[u64], n: usize) -> Vec<u64> {
    (start..=u64::MAX).filter(|k| !skips.contains(k)).take(n).collect()
}

// ---------------------------------------------------------------- decoding

/// Why a value does not decode
#[derive(Clone, Debug, Default)]
pub struct Fail {
    /// something is wrong that is not the content of one field
    pub structural: bool,
    /// the fields whose content does not decode, each with its own reason, its type and its place
    pub fields: Vec<(&'static str, Fail, Ty, Rng)>,
}
fn structural<T>() -> Result<T, Fail> {
    Err(Fail { structural: true, fields: vec![] })
}

/// Value of that type at pos, and its end.
pub fn dec(ty: Ty, b: &[u8], pos: usize) -> Result<(Val, usize), Fail> {
    if let Ty::D(i) = ty {
        return match &decl(i).schema {
            Schema::Rec(r) => dec_rec(r, b, pos),
            Schema::Enum(e) => dec_enum(e, b, pos),
        };
    }
    let Ok((n, _, end)) = node(b, pos) else { return structural() };
    if !readable(b, &n) {
        return structural();
    }
    let v = match (ty, &n) {
        (Ty::U8, Node::Pos(_, v)) if *v <= 0xff => Val::U(*v),
        (Ty::U16, Node::Pos(_, v)) if *v <= 0xffff => Val::U(*v),
        (Ty::U32, Node::Pos(_, v)) if *v <= 0xffff_ffff => Val::U(*v),
        (Ty::U64, Node::Pos(_, v)) => Val::U(*v),
        (Ty::Bool, Node::Const(K::True)) => Val::Bool(true),
        (Ty::Bool, Node::Const(K::False)) => Val::Bool(false),
        (Ty::Str, Node::Str { text: true, chunks, .. }) => Val::Str(concat(b, chunks)),
        (Ty::Bytes, Node::Str { text: false, chunks, .. }) => Val::Bytes(concat(b, chunks)),
        (Ty::Arr2, Node::Str { text: false, chunks, .. }) => {
            let v = concat(b, chunks);
            if v.len() != 2 {
                return structural();
            }
            Val::Bytes(v)
        }
        (Ty::Scalar, Node::Pos(..) | Node::Neg(..)) => Val::Raw(b[pos..end].to_vec()),
        (Ty::OfU64, Node::Pos(..)) => Val::Raw(b[pos..end].to_vec()),
        (Ty::Data, _) => Val::Raw(b[pos..end].to_vec()),
        (Ty::List(t), Node::Array { items, .. }) => {
            let mut v = vec![];
            for r in items {
                match whole(*t, b, *r) {
                    Ok(x) => v.push(x),
                    Err(_) => return structural(),
                }
            }
            Val::List(v)
        }
        _ => return structural(),
    };
    Ok((v, end))
}
fn concat(b: &[u8], chunks: &[(W, Rng)]) -> Vec<u8> {
    let mut v = vec![];
    for (_, (s, e)) in chunks {
        v.extend_from_slice(&b[*s..*e])
    }
    v
}
/// the range has to be used completely
pub fn whole(ty: Ty, b: &[u8], r: Rng) -> Result<Val, Fail> {
    let s = &b[r.0..r.1];
    match dec(ty, s, 0) {
        Ok((v, e)) if e == s.len() => Ok(v),
        Ok(_) => structural(),
        Err(f) => Err(shift(f, r.0)),
    }
}
fn shift(mut f: Fail, by: usize) -> Fail {
    for x in f.fields.iter_mut() {
        x.3 = (x.3 .0 + by, x.3 .1 + by);
        x.1 = shift(std::mem::take(&mut x.1), by);
    }
    f
}

fn dec_rec(r: &Rec, b: &[u8], pos: usize) -> Result<(Val, usize), Fail> {
    match r.tag {
        None => body(r, b, pos),
        Some(t) => match node(b, pos) {
            Ok((Node::Tag { val, item, .. }, _, end)) if val == t => {
                let (v, e) = body(r, &b[..item.1], item.0)?;
                if e != item.1 {
                    return structural();
                }
                Ok((v, end))
            }
            _ => structural(),
        },
    }
}
fn body(r: &Rec, b: &[u8], pos: usize) -> Result<(Val, usize), Fail> {
    let mut fail = Fail::default();
    let mut out: Vec<Option<Val>> = vec![];
    let one = |f: &'static F, rng: Rng, fail: &mut Fail, out: &mut Option<Val>| match whole(f.ty, b, rng) {
        Ok(v) => *out = Some(v),
        Err(e) => fail.fields.push((f.name, e, f.ty, rng)),
    };
    let end = match r.layout {
        Layout::Flat => {
            let mut p = pos;
            for f in r.fields {
                match dec(f.ty, b, p) {
                    Ok((v, e)) => {
                        out.push(Some(v));
                        p = e
                    }
                    Err(e) => {
                        fail.fields.push((f.name, e, f.ty, (p, p)));
                        return Err(fail);
                    }
                }
            }
            p
        }
        Layout::Array | Layout::LastOpt => {
            let Ok((Node::Array { items, .. }, _, end)) = node(b, pos) else { return structural() };
            let n = r.fields.len();
            if items.len() != n && !(r.layout == Layout::LastOpt && items.len() + 1 == n) {
                return structural();
            }
            for (i, f) in r.fields.iter().enumerate() {
                let mut o = None;
                if let Some(rng) = items.get(i) {
                    one(f, *rng, &mut fail, &mut o)
                }
                out.push(o);
            }
            end
        }
        Layout::Map => {
            let Ok((Node::Map { items, .. }, _, end)) = node(b, pos) else { return structural() };
            let keys = numbers(r.start, r.skips, r.fields.len());
            let mut seen = vec![false; r.fields.len()];
            out.resize(r.fields.len(), None);
            for (k, v) in items {
                let key = match node(b, k.0) {
                    Ok((Node::Pos(_, key), _, _)) => key,
                    _ => {
                        fail.structural = true;
                        continue;
                    }
                };
                let Some(i) = keys.iter().position(|x| *x == key) else {
                    fail.structural = true;
                    continue;
                };
                if seen[i] {
                    fail.structural = true;
                }
                seen[i] = true;
                one(&r.fields[i], v, &mut fail, &mut out[i]);
            }
            for (i, f) in r.fields.iter().enumerate() {
                if !f.opt && !seen[i] {
                    fail.structural = true;
                }
            }
            end
        }
    };
    if fail.structural || !fail.fields.is_empty() {
        return Err(fail);
    }
    Ok((Val::Rec(out), end))
}

fn dec_enum(e: &Enum, b: &[u8], pos: usize) -> Result<(Val, usize), Fail> {
    let Ok((n, _, end)) = node(b, pos) else {
        // the layout by type looks at the payload only, which is one element too
        return structural();
    };
    let nums = numbers(e.start, e.skips, e.variants.len());
    match e.how {
        How::Int => match n {
            Node::Pos(_, v) => match nums.iter().position(|x| *x == v) {
                Some(i) => Ok((Val::Var(i, vec![]), end)),
                None => structural(),
            },
            _ => structural(),
        },
        How::Tagged => match n {
            Node::Array { items, .. } if !items.is_empty() => {
                let Ok((Node::Pos(_, v), _, _)) = node(b, items[0].0) else { return structural() };
                let Some(i) = nums.iter().position(|x| *x == v) else { return structural() };
                let var = &e.variants[i];
                if items.len() != var.fields.len() + 1 {
                    return structural();
                }
                let mut out = vec![];
                for (t, r) in var.fields.iter().zip(&items[1..]) {
                    match whole(*t, b, *r) {
                        Ok(v) => out.push(v),
                        Err(_) => return structural(),
                    }
                }
                Ok((Val::Var(i, out), end))
            }
            _ => structural(),
        },
        How::ByType => {
            let k = match &n {
                Node::Pos(..) => K::Pos,
                Node::Neg(..) => K::Neg,
                Node::Float(..) => K::Float,
                Node::Byte(..) => K::Byte,
                Node::Const(k) => *k,
                Node::Str { text: true, .. } => K::Text,
                Node::Str { .. } => K::Bytes,
                Node::Array { .. } => K::Array,
                Node::Map { .. } => K::Map,
                Node::Tag { .. } => K::Tag,
            };
            match e.variants.iter().position(|v| v.kind == Some(k)) {
                None => structural(),
                Some(i) => match e.variants[i].fields.first() {
                    None => Ok((Val::Var(i, vec![]), end)),
                    Some(t) => match dec(*t, b, pos) {
                        Ok((v, e)) => Ok((Val::Var(i, vec![v]), e)),
                        Err(_) => structural(),
                    },
                },
            }
        }
    }
}

// ---------------------------------------------------------------- encoding

pub fn enc(ty: Ty, v: &Val, out: &mut Vec<u8>) {
    match (ty, v) {
        (Ty::List(t), Val::List(l)) => {
            put_short(out, 4, l.len() as u64);
            for x in l {
                enc(*t, x, out)
            }
        }
        (Ty::D(i), v) => match &decl(i).schema {
            Schema::Rec(r) => enc_rec(r, v, out),
            Schema::Enum(e) => enc_enum(e, v, out),
        },
        (_, Val::U(x)) => put_short(out, 0, *x),
        (_, Val::Bool(x)) => out.push(0xf4 | *x as u8),
        (_, Val::Str(x)) => {
            put_short(out, 3, x.len() as u64);
            out.extend_from_slice(x)
        }
        (_, Val::Bytes(x)) => {
            put_short(out, 2, x.len() as u64);
            out.extend_from_slice(x)
        }
        (_, Val::Raw(x)) => out.extend_from_slice(x),
        _ => panic!("value of another type"),
    }
}
fn rec_val(v: &Val) -> &[Option<Val>] {
    match v {
        Val::Rec(f) => f,
        _ => panic!("value of another type"),
    }
}
fn enc_rec(r: &Rec, v: &Val, out: &mut Vec<u8>) {
    let v = rec_val(v);
    if let Some(t) = r.tag {
        put_short(out, 6, t)
    }
    let present = v.iter().filter(|x| x.is_some()).count() as u64;
    match r.layout {
        Layout::Flat => {}
        Layout::Array | Layout::LastOpt => put_short(out, 4, present),
        Layout::Map => put_short(out, 5, present),
    }
    let keys = numbers(r.start, r.skips, r.fields.len());
    for ((f, v), k) in r.fields.iter().zip(v).zip(keys) {
        if let Some(v) = v {
            if r.layout == Layout::Map {
                put_short(out, 0, k)
            }
            enc(f.ty, v, out)
        }
    }
}
fn enc_enum(e: &Enum, v: &Val, out: &mut Vec<u8>) {
    let Val::Var(i, f) = v else { panic!("value of another type") };
    let num = numbers(e.start, e.skips, e.variants.len())[*i];
    let var = &e.variants[*i];
    match e.how {
        How::Int => put_short(out, 0, num),
        How::Tagged => {
            put_short(out, 4, 1 + f.len() as u64);
            put_short(out, 0, num);
            for (t, x) in var.fields.iter().zip(f) {
                enc(*t, x, out)
            }
        }
        How::ByType => match f.first() {
            None => out.push(0xf6),
            Some(x) => enc(var.fields[0], x, out),
        },
    }
}
