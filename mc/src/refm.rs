//! Reference model of CBOR, written from RFC 8949 and sharing nothing with the code under test.
//!
//! `item` is appendix C of RFC 8949 ("well_formed") turned into an explicit stack, with one documented
//! leniency of cbored: the two-byte simple value form is accepted for every payload byte.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum E {
    /// more bytes are needed: `want` were asked for where only `have` are left
    Missing { want: u64, have: u64 },
    /// not well-formed whatever follows
    Bad,
}

/// width of the argument
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum W {
    Imm,
    B1,
    B2,
    B4,
    B8,
}
pub const WIDTHS: [W; 5] = [W::Imm, W::B1, W::B2, W::B4, W::B8];

impl W {
    pub fn extra(self) -> usize {
        match self {
            W::Imm => 0,
            W::B1 => 1,
            W::B2 => 2,
            W::B4 => 4,
            W::B8 => 8,
        }
    }
    /// can the width carry the value?
    pub fn fits(self, v: u64) -> bool {
        match self {
            W::Imm => v <= 23,
            W::B1 => v <= 0xff,
            W::B2 => v <= 0xffff,
            W::B4 => v <= 0xffff_ffff,
            W::B8 => true,
        }
    }
    pub fn shortest(v: u64) -> W {
        for w in WIDTHS {
            if w.fits(v) {
                return w;
            }
        }
        unreachable!()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Head {
    pub mt: u8,
    pub ai: u8,
    pub indef: bool,
    pub w: W,
    pub val: u64,
    /// bytes of the header
    pub n: usize,
}

pub fn head(b: &[u8], pos: usize) -> Result<Head, E> {
    if pos >= b.len() {
        return Err(E::Missing { want: 1, have: 0 });
    }
    let ib = b[pos];
    let (mt, ai) = (ib >> 5, ib & 0x1f);
    let w = match ai {
        0..=23 => W::Imm,
        24 => W::B1,
        25 => W::B2,
        26 => W::B4,
        27 => W::B8,
        28..=30 => return Err(E::Bad),
        _ => {
            // indefinite length or break
            return match mt {
                2 | 3 | 4 | 5 | 7 => Ok(Head { mt, ai, indef: true, w: W::Imm, val: 0, n: 1 }),
                _ => Err(E::Bad),
            };
        }
    };
    let have = b.len() - pos - 1;
    if have < w.extra() {
        return Err(E::Missing { want: w.extra() as u64, have: have as u64 });
    }
    let mut val = 0u64;
    if w == W::Imm {
        val = ai as u64;
    } else {
        for i in 0..w.extra() {
            val = val * 256 + b[pos + 1 + i] as u64;
        }
    }
    Ok(Head { mt, ai, indef: false, w, val, n: 1 + w.extra() })
}

fn take(b: &[u8], pos: usize, n: u64) -> Result<usize, E> {
    let have = (b.len() - pos) as u64;
    if n > have {
        Err(E::Missing { want: n, have })
    } else {
        Ok(pos + n as usize)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Open {
    /// definite: elements still to come
    Def(u128),
    IndefArray,
    /// indefinite map; true when a value is due
    IndefMap(bool),
    /// indefinite string of that major type
    Chunks(u8),
}

/// statistics of one recognition, for coverage reporting
#[derive(Default)]
pub struct Trace {
    pub steps: u64,
    pub hash: u64,
    /// when on, every configuration reached is folded to a hash and stored here
    pub states: Vec<u64>,
}

#[inline]
fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^ (z >> 32)
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed;
    for c in b.chunks(8) {
        let mut x = 0u64;
        for (i, v) in c.iter().enumerate() {
            x |= (*v as u64) << (8 * i);
        }
        h = mix(h, x ^ ((c.len() as u64) << 56));
    }
    mix(h, b.len() as u64)
}

/// Position just after the one element starting at `pos`.
pub fn item(b: &[u8], pos: usize) -> Result<usize, E> {
    item_trace(b, pos, None)
}

pub fn item_trace(b: &[u8], mut pos: usize, tr: Option<&mut Trace>) -> Result<usize, E> {
    let mut st: Vec<Open> = Vec::new();
    run(b, &mut pos, &mut st, tr)?;
    Ok(pos)
}

/// The fewest bytes that can complete the element starting at `pos`: Ok(Ok(end)) when it is complete,
/// Ok(Err(n)) when it is a proper prefix of one, Err(()) when nothing can complete it.
pub fn min_missing(b: &[u8], pos: usize) -> Result<Result<usize, u128>, ()> {
    let mut p = pos;
    let mut st: Vec<Open> = Vec::new();
    match run(b, &mut p, &mut st, None) {
        Ok(()) => Ok(Ok(p)),
        Err(E::Bad) => Err(()),
        Err(E::Missing { want, have }) => {
            // p is the start of the header being read; what does that element alone still need?
            let mut need: u128;
            let mut in_progress = true;
            let in_chunks = matches!(st.last(), Some(Open::Chunks(_)));
            if p >= b.len() {
                need = 0;
                in_progress = false;
            } else {
                let (mt, ai) = (b[p] >> 5, b[p] & 31);
                let extra = match ai {
                    24 => 1usize,
                    25 => 2,
                    26 => 4,
                    27 => 8,
                    _ => 0,
                };
                let have_arg = (b.len() - p - 1).min(extra);
                if have_arg < extra {
                    let mut v: u128 = 0;
                    for i in 0..extra {
                        v = v * 256 + if i < have_arg { b[p + 1 + i] as u128 } else { 0 };
                    }
                    need = (extra - have_arg) as u128
                        + match mt {
                            2 | 3 | 4 => v,
                            5 => 2 * v,
                            6 => 1,
                            _ => 0,
                        };
                } else {
                    // content of a string
                    need = (want - have) as u128;
                }
                if in_chunks {
                    // the chunk itself is no element: the string still needs its break
                    in_progress = false;
                }
            }
            if in_progress && st.is_empty() {
                return Ok(Err(need));
            }
            if !in_progress && st.is_empty() {
                return Ok(Err(1));
            }
            for o in st.iter().rev() {
                need += match (o, in_progress) {
                    (Open::Def(n), true) => n - 1,
                    (Open::Def(n), false) => *n,
                    (Open::IndefArray, _) => 1,
                    (Open::IndefMap(false), true) => 2,
                    (Open::IndefMap(false), false) => 1,
                    (Open::IndefMap(true), true) => 1,
                    (Open::IndefMap(true), false) => 2,
                    (Open::Chunks(_), _) => 1,
                };
                in_progress = true;
            }
            Ok(Err(need))
        }
    }
}

/// The recogniser. On `Missing`, `pos` is the start of the header that could not be finished (or whose
/// content could not) and `st` the elements open around it.
fn run(b: &[u8], pos: &mut usize, st: &mut Vec<Open>, mut tr: Option<&mut Trace>) -> Result<(), E> {
    loop {
        let inside = match st.last() {
            Some(Open::Chunks(k)) => Some(*k),
            _ => None,
        };
        if let (Some(k), Some(x)) = (inside, b.get(*pos)) {
            // a chunk of the wrong kind is wrong whatever follows its first byte
            if *x != 0xff && (*x >> 5 != k || *x & 31 == 31) {
                return Err(E::Bad);
            }
        }
        let h = head(b, *pos)?;
        if let Some(t) = tr.as_deref_mut() {
            t.steps += 1;
        }
        let mut done; // did this header complete an element?
        if inside.is_some() {
            if h.mt == 7 && h.indef {
                st.pop();
                *pos += h.n;
                done = true;
            } else {
                *pos = take(b, *pos + h.n, h.val)?;
                done = false;
            }
        } else if h.mt == 7 && h.indef {
            match st.last().copied() {
                Some(Open::IndefArray) | Some(Open::IndefMap(false)) => {
                    st.pop();
                    *pos += h.n;
                    done = true;
                }
                _ => return Err(E::Bad),
            }
        } else {
            let p = *pos + h.n;
            done = false;
            match (h.mt, h.indef) {
                (2, false) | (3, false) => {
                    *pos = take(b, p, h.val)?;
                    done = true;
                }
                (m, indef) => {
                    *pos = p;
                    match (m, indef) {
                        (0, _) | (1, _) | (7, _) => done = true,
                        (2, true) | (3, true) => st.push(Open::Chunks(h.mt)),
                        (4, true) => st.push(Open::IndefArray),
                        (5, true) => st.push(Open::IndefMap(false)),
                        (4, false) => st.push(Open::Def(h.val as u128)),
                        (5, false) => st.push(Open::Def(2 * h.val as u128)),
                        (6, _) => st.push(Open::Def(1)),
                        _ => unreachable!(),
                    }
                }
            }
        }
        // close what is complete
        loop {
            if done {
                match st.last_mut() {
                    None => {}
                    Some(Open::Def(n)) => *n -= 1,
                    Some(Open::IndefMap(v)) => *v = !*v,
                    Some(Open::IndefArray) => {}
                    Some(Open::Chunks(_)) => unreachable!(),
                }
            }
            if let Some(Open::Def(0)) = st.last() {
                st.pop();
                done = true;
                continue;
            }
            break;
        }
        if let Some(t) = tr.as_deref_mut() {
            let mut hsh = 0x51ed_u64;
            // only the top of very deep stacks is folded in, the depth always is
            for o in st.iter().rev().take(24) {
                hsh = mix(
                    hsh,
                    match o {
                        Open::Def(n) => 16u64.wrapping_add((*n as u64).wrapping_mul(8)),
                        Open::IndefArray => 1,
                        Open::IndefMap(v) => 2 + *v as u64,
                        Open::Chunks(k) => 4 + (*k as u64 & 1),
                    },
                );
            }
            hsh = mix(hsh, st.len() as u64);
            t.states.push(hsh);
            t.hash = mix(t.hash, hsh);
        }
        if st.is_empty() {
            return Ok(());
        }
    }
}

/// RFC 3629 table 3-7, as a hand-written recogniser
pub fn utf8_ok(b: &[u8]) -> bool {
    let mut i = 0;
    let cont = |j: usize, lo: u8, hi: u8| j < b.len() && b[j] >= lo && b[j] <= hi;
    while i < b.len() {
        let c = b[i];
        if c <= 0x7f {
            i += 1;
        } else if (0xc2..=0xdf).contains(&c) {
            if !cont(i + 1, 0x80, 0xbf) {
                return false;
            }
            i += 2;
        } else if (0xe0..=0xef).contains(&c) {
            let (lo, hi) = match c {
                0xe0 => (0xa0, 0xbf),
                0xed => (0x80, 0x9f),
                _ => (0x80, 0xbf),
            };
            if !cont(i + 1, lo, hi) || !cont(i + 2, 0x80, 0xbf) {
                return false;
            }
            i += 3;
        } else if (0xf0..=0xf4).contains(&c) {
            let (lo, hi) = match c {
                0xf0 => (0x90, 0xbf),
                0xf4 => (0x80, 0x8f),
                _ => (0x80, 0xbf),
            };
            if !cont(i + 1, lo, hi) || !cont(i + 2, 0x80, 0xbf) || !cont(i + 3, 0x80, 0xbf) {
                return false;
            }
            i += 4;
        } else {
            return false;
        }
    }
    true
}

/// kinds of element, named as the library documents them
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Pos,
    Neg,
    Bytes,
    Text,
    Array,
    Map,
    Tag,
    False,
    True,
    Null,
    Undef,
    Float,
    Byte,
    Break,
}

pub fn kind(mt: u8, ai: u8) -> K {
    match mt {
        0 => K::Pos,
        1 => K::Neg,
        2 => K::Bytes,
        3 => K::Text,
        4 => K::Array,
        5 => K::Map,
        6 => K::Tag,
        _ => match ai {
            0..=19 | 24 => K::Byte,
            20 => K::False,
            21 => K::True,
            22 => K::Null,
            23 => K::Undef,
            25..=27 => K::Float,
            _ => K::Break,
        },
    }
}

pub type Rng = (usize, usize);

/// one element, one level deep; ranges are positions in the given slice
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    Pos(W, u64),
    Neg(W, u64),
    Float(W, u64),
    Byte(W, u8),
    Const(K),
    /// (None = indefinite, chunks), each chunk with its own length width
    Str { text: bool, indef: bool, chunks: Vec<(W, Rng)> },
    Array { len: Option<(W, u64)>, items: Vec<Rng> },
    Map { len: Option<(W, u64)>, items: Vec<(Rng, Rng)> },
    Tag { w: W, val: u64, item: Rng },
}

/// Parse one level. `Err` when the element is not well-formed (nested content included).
/// Returns the node, the header length and the end position.
pub fn node(b: &[u8], pos: usize) -> Result<(Node, usize, usize), E> {
    let end = item(b, pos)?;
    let h = head(b, pos)?;
    let p = pos + h.n;
    let is_break = |q: usize| b[q] == 0xff;
    let n = match kind(h.mt, h.ai) {
        K::Pos => Node::Pos(h.w, h.val),
        K::Neg => Node::Neg(h.w, h.val),
        K::Float => Node::Float(h.w, h.val),
        K::Byte => Node::Byte(h.w, h.val as u8),
        k @ (K::False | K::True | K::Null | K::Undef) => Node::Const(k),
        K::Break => return Err(E::Bad),
        k @ (K::Bytes | K::Text) => {
            let mut chunks = vec![];
            if h.indef {
                let mut q = p;
                while !is_break(q) {
                    let c = head(b, q)?;
                    let s = q + c.n;
                    q = s + c.val as usize;
                    chunks.push((c.w, (s, q)));
                }
            } else {
                chunks.push((h.w, (p, p + h.val as usize)));
            }
            Node::Str { text: k == K::Text, indef: h.indef, chunks }
        }
        K::Array => {
            let mut items = vec![];
            let mut q = p;
            while if h.indef { !is_break(q) } else { (items.len() as u64) < h.val } {
                let e = item(b, q)?;
                items.push((q, e));
                q = e;
            }
            Node::Array { len: if h.indef { None } else { Some((h.w, h.val)) }, items }
        }
        K::Map => {
            let mut items = vec![];
            let mut q = p;
            while if h.indef { !is_break(q) } else { (items.len() as u64) < h.val } {
                let e = item(b, q)?;
                let f = item(b, e)?;
                items.push(((q, e), (e, f)));
                q = f;
            }
            Node::Map { len: if h.indef { None } else { Some((h.w, h.val)) }, items }
        }
        K::Tag => Node::Tag { w: h.w, val: h.val, item: (p, end) },
    };
    Ok((n, h.n, end))
}

/// is the element readable by the generic reader: texts need valid UTF-8 chunks
pub fn readable(b: &[u8], n: &Node) -> bool {
    match n {
        Node::Str { text: true, chunks, .. } => chunks.iter().all(|(_, (s, e))| utf8_ok(&b[*s..*e])),
        _ => true,
    }
}

// ---- encoder ----

pub fn put_head(out: &mut Vec<u8>, mt: u8, w: W, v: u64) {
    debug_assert!(w.fits(v));
    let hi = mt << 5;
    match w {
        W::Imm => out.push(hi | v as u8),
        W::B1 => out.extend_from_slice(&[hi | 24, v as u8]),
        W::B2 => out.extend_from_slice(&[hi | 25, (v >> 8) as u8, v as u8]),
        W::B4 => {
            out.push(hi | 26);
            for i in (0..4).rev() {
                out.push((v >> (8 * i)) as u8)
            }
        }
        W::B8 => {
            out.push(hi | 27);
            for i in (0..8).rev() {
                out.push((v >> (8 * i)) as u8)
            }
        }
    }
}

pub fn put_short(out: &mut Vec<u8>, mt: u8, v: u64) {
    put_head(out, mt, W::shortest(v), v)
}
