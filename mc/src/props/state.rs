//! C20: the public event state machine against a model of element well-formedness.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refm::*;
use cbored::state::{HeaderValue, State};

type R = Result<(), String>;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        rule: "every sequence of events up to the depth, cut at the first event the model rejects: after each event, accepted iff the model accepts and acceptable() iff the model's stack is empty",
        families,
        assumptions: &["what the machine does after it has rejected an event is not specified"],
    }]
}

#[derive(Clone, Copy, PartialEq)]
enum O {
    Def(u128),
    Array,
    Map(bool),
    Chunks(bool),
}

/// events: kind and count; None count = indefinite
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ev {
    Simple,
    Str(bool, Option<u64>),
    Array(Option<u64>),
    Map(Option<u64>),
    Brk,
    Tag,
}
const EV: &[Ev] = &[
    Ev::Simple,
    Ev::Str(false, Some(0)),
    Ev::Str(true, Some(0)),
    Ev::Str(false, None),
    Ev::Str(true, None),
    Ev::Array(None),
    Ev::Map(None),
    Ev::Brk,
    Ev::Tag,
    Ev::Array(Some(0)),
    Ev::Array(Some(1)),
    Ev::Array(Some(2)),
    Ev::Map(Some(0)),
    Ev::Map(Some(1)),
    Ev::Map(Some(2)),
    Ev::Array(Some(u64::MAX)),
    Ev::Map(Some(u64::MAX)),
    // beyond here: only in the listed histories
    Ev::Array(Some(3)),
    Ev::Array(Some(24)),
    Ev::Array(Some(256)),
    Ev::Array(Some(65536)),
    Ev::Array(Some(1 << 32)),
    Ev::Map(Some(3)),
    Ev::Map(Some(24)),
    Ev::Map(Some(256)),
    Ev::Map(Some(32768)),
    Ev::Map(Some(1 << 63)),
    Ev::Str(false, Some(u64::MAX)),
    Ev::Str(true, Some(300)),
];
const CORE: usize = 17;

#[derive(Clone, Default)]
struct M(Vec<O>);
impl M {
    fn complete(&mut self) {
        loop {
            match self.0.last_mut() {
                None => return,
                Some(O::Def(n)) => {
                    *n -= 1;
                    if *n > 0 {
                        return;
                    }
                    self.0.pop();
                }
                Some(O::Array) => return,
                Some(O::Map(v)) => {
                    *v = !*v;
                    return;
                }
                Some(O::Chunks(_)) => unreachable!(),
            }
        }
    }
    fn step(&mut self, e: Ev) -> bool {
        if let Some(O::Chunks(text)) = self.0.last().copied() {
            return match e {
                Ev::Str(t, Some(_)) => t == text,
                Ev::Brk => {
                    self.0.pop();
                    self.complete();
                    true
                }
                _ => false,
            };
        }
        match e {
            Ev::Simple | Ev::Str(_, Some(_)) | Ev::Array(Some(0)) | Ev::Map(Some(0)) => self.complete(),
            Ev::Str(t, None) => self.0.push(O::Chunks(t)),
            Ev::Array(None) => self.0.push(O::Array),
            Ev::Map(None) => self.0.push(O::Map(false)),
            Ev::Array(Some(n)) => self.0.push(O::Def(n as u128)),
            Ev::Map(Some(n)) => self.0.push(O::Def(2 * n as u128)),
            Ev::Tag => self.0.push(O::Def(1)),
            Ev::Brk => match self.0.last() {
                Some(O::Array) | Some(O::Map(false)) => {
                    self.0.pop();
                    self.complete();
                }
                _ => return false,
            },
        }
        true
    }
    fn hash(&self) -> u64 {
        let mut h = 20;
        for o in self.0.iter().rev().take(24) {
            let x = match o {
                O::Def(n) => 8 + (*n as u64).wrapping_mul(16) ^ (*n >> 64) as u64,
                O::Array => 1,
                O::Map(v) => 2 + *v as u64,
                O::Chunks(t) => 4 + *t as u64,
            };
            h = hash_bytes(h, &x.to_le_bytes());
        }
        hash_bytes(h, &self.0.len().to_le_bytes())
    }
}

fn header(v: Option<u64>, style: usize) -> Option<HeaderValue> {
    v.map(|v| {
        let fit: Vec<HeaderValue> = WIDTHS.iter().filter(|w| w.fits(v)).map(|w| crate::real::to_hv(*w, v)).collect();
        fit[style % fit.len()]
    })
}
fn feed(s: &mut State, e: Ev, style: usize) -> bool {
    match e {
        Ev::Simple => s.simple(),
        Ev::Str(false, v) => s.bytes(header(v, style)),
        Ev::Str(true, v) => s.text(header(v, style)),
        Ev::Array(v) => s.array(header(v, style)),
        Ev::Map(v) => s.map(header(v, style)),
        Ev::Brk => s.brk(),
        Ev::Tag => s.tag(),
    }
    .is_ok()
}

fn run(evs: impl Iterator<Item = Ev>, c: &mut Ctx) -> R {
    let mut s = State::new();
    let mut m = M::default();
    ensure!(s.acceptable(), "a new state is not acceptable");
    let mut hist: Vec<Ev> = vec![];
    for (i, e) in evs.enumerate() {
        if hist.len() < 12 {
            hist.push(e);
        }
        let want = m.step(e);
        let got = feed(&mut s, e, i);
        c.execs += 1;
        c.trans += 1;
        ensure!(got == want, "event {} {:?} is {}accepted, after {:?}", i, e, if got { "" } else { "not " }, hist);
        if !want {
            c.out("rejected");
            return Ok(());
        }
        if i < 64 {
            c.state(m.hash());
        }
        ensure!(s.acceptable() == m.0.is_empty(), "acceptable() is {} with {} elements open, after {:?} ({} events)", s.acceptable(), m.0.len(), hist, i + 1);
    }
    c.out(if m.0.is_empty() { "complete" } else { "open" });
    Ok(())
}
fn c20(case: &[u8], c: &mut Ctx) -> R {
    run(case.iter().map(|x| EV[*x as usize]), c)
}

/// run-length coded: triples of event and 16-bit repeat, and blocks: 0xf0 n16 len followed by len events
fn c20_rle(case: &[u8], c: &mut Ctx) -> R {
    let mut evs = vec![];
    let mut i = 0;
    while i < case.len() {
        let n = (case[i] as usize) << 16 | (case[i + 1] as usize) << 8 | case[i + 2] as usize;
        let l = case[i + 3] as usize;
        for _ in 0..n {
            evs.extend(case[i + 4..i + 4 + l].iter().map(|x| EV[*x as usize]));
        }
        i += 4 + l;
    }
    run(evs.into_iter(), c)
}
fn block(n: usize, e: &[u8]) -> Vec<u8> {
    let mut v = vec![(n >> 16) as u8, (n >> 8) as u8, n as u8, e.len() as u8];
    v.extend_from_slice(e);
    v
}

fn families(t: Tier) -> Vec<Family> {
    let dfs = |name: &'static str, alpha: Vec<u8>, depth: usize| -> Family {
        let k = alpha.len();
        let bound = format!("every event sequence of length <= {} over {} events, cut after the first rejected event", depth, k);
        fam(
            name,
            bound,
            k * k,
            Box::new(move |u, f| {
                fn rec(alpha: &[u8], m: &M, b: &mut Vec<u8>, e: u8, left: usize, f: &mut dyn FnMut(&[u8])) {
                    b.push(e);
                    let mut m = m.clone();
                    if !m.step(EV[e as usize]) || left == 0 {
                        f(b);
                    } else {
                        for x in alpha {
                            rec(alpha, &m, b, *x, left - 1, f)
                        }
                    }
                    b.pop();
                }
                let (x, y) = (alpha[u / k], alpha[u % k]);
                let mut m = M::default();
                let mut b = vec![x];
                if m.step(EV[x as usize]) {
                    rec(&alpha, &m, &mut b, y, depth - 2, f)
                } else if u % k == 0 {
                    f(&b)
                }
            }),
            c20,
        )
    };
    let mut v = vec![
        dfs("events", (0..CORE as u8).collect(), t.pick(6, 7)),
        dfs("events-structure", vec![0, 1, 3, 5, 6, 7, 8, 10, 13], t.pick(8, 9)),
        dfs("events-indefinite", vec![0, 3, 4, 5, 6, 7], t.pick(10, 11)),
        dfs("events-strings", vec![0, 1, 2, 3, 4, 7, 6], t.pick(9, 10)),
    ];
    // long and deep histories
    let mut cases: Vec<Vec<u8>> = vec![];
    let id = |e: Ev| EV.iter().position(|x| *x == e).unwrap() as u8;
    let (s, brk, tag) = (id(Ev::Simple), id(Ev::Brk), id(Ev::Tag));
    let many = |x: &[(usize, &[u8])]| -> Vec<u8> { x.iter().flat_map(|(n, e)| block(*n, e)).collect() };
    for (e, n) in [(17u8, 3usize), (18, 24), (19, 256), (20, 65536), (22, 6), (23, 48), (24, 512), (25, 65536)] {
        for k in [n - 1, n, n + 1] {
            cases.push(many(&[(1, &[e]), (k, &[s])]));
            cases.push(many(&[(1, &[e]), (k, &[tag, s])]));
            cases.push(many(&[(1, &[e]), (k, &[9])]));
            cases.push(many(&[(1, &[e]), (k, &[5, s, brk])]));
            cases.push(many(&[(1, &[e]), (k, &[6, s, s, brk])]));
            cases.push(many(&[(1, &[5, e]), (k, &[3, 1, 1, brk]), (1, &[brk])]));
            cases.push(many(&[(1, &[6, s, tag, e]), (k, &[s]), (1, &[brk])]));
            cases.push(many(&[(1, &[6, e]), (k, &[s]), (1, &[brk])]));
            cases.push(many(&[(1, &[e]), (k, &[s]), (1, &[brk])]));
        }
    }
    for n in [0usize, 1, 2, 3, 255, 256, 257, 65536, 100_001] {
        for open in [&[5u8][..], &[6, s], &[8], &[10], &[13, s], &[5, 8], &[6, s, 8, 5], &[11, s], &[14, s, s, s]] {
            let closes: usize = open.iter().filter(|x| **x == 5 || **x == 6).count();
            for k in [closes * n, (closes * n).saturating_sub(1), closes * n + 1] {
                cases.push(many(&[(n, open), (1, &[s]), (k, &[brk]), (1, &[s])]));
                cases.push(many(&[(n, open), (1, &[4, 2, brk]), (k, &[brk])]));
            }
        }
        for e in [15u8, 16, 21, 26] {
            cases.push(many(&[(1, &[e]), (n, &[s]), (1, &[brk])]));
            cases.push(many(&[(1, &[e]), (n, &[8, 5, brk])]));
        }
        cases.push(many(&[(1, &[3]), (n, &[1, 27]), (1, &[brk, s])]));
        cases.push(many(&[(1, &[4]), (n, &[2, 28]), (1, &[brk, brk])]));
        cases.push(many(&[(1, &[6]), (n, &[s]), (1, &[brk])]));
        cases.push(many(&[(1, &[6]), (n, &[s, 3, brk]), (1, &[s, brk])]));
        cases.push(many(&[(n, &[s, 12, 9])]));
    }
    v.push(list("long-histories", "counts and nesting up to 100001, huge announced counts".into(), cases, c20_rle));
    v
}
