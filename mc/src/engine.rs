//! Exhaustive exploration engine: runs every case of every family of a property on the real code, in
//! parallel worker threads of a supervised child process.
//!
//! The child ("worker") catches panics and reports mismatches; the parent ("run") notices what the child
//! cannot report itself - a crash (stack overflow, abort, allocation limit) or a hang - isolates the case
//! that was running from shared memory and re-runs it alone to confirm before it reports a violation.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

pub type Check = Box<dyn Fn(&[u8], &mut Ctx) -> Result<(), String> + Sync + Send>;
pub type Gen = Box<dyn Fn(usize, &mut dyn FnMut(&[u8])) + Sync + Send>;

pub struct Family {
    pub name: String,
    /// what is enumerated and up to which bound
    pub bound: String,
    pub units: usize,
    pub gen: Gen,
    pub check: Check,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub families: fn(Tier) -> Vec<Family>,
    pub assumptions: &'static [&'static str],
}

// ---------------------------------------------------------------- allocation accounting

pub struct Counting;
const ALLOC_LIMIT: isize = 3 << 30;

thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn account(delta: isize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + delta;
        if delta > 0 && v > ALLOC_LIMIT {
            let msg = b"mc: allocation limit of one case exceeded\n";
            unsafe {
                write(2, msg.as_ptr() as *const std::ffi::c_void, msg.len());
                _exit(99)
            }
        }
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size().min(isize::MAX as usize / 4) as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size().min(isize::MAX as usize / 4) as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // both blocks may exist for a moment
        account(n.min(isize::MAX as usize / 4) as isize);
        let r = System.realloc(p, l, n);
        account(-(l.size() as isize));
        r
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

/// peak number of bytes allocated on this thread during `f`, above what was live before
pub fn peak_of<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - base).max(0) as usize)
}

// ---------------------------------------------------------------- per-thread context

pub struct Ctx {
    /// calls of the real code whose outcome was compared with the model
    pub execs: u64,
    /// model steps taken
    pub trans: u64,
    /// newly seen model states
    pub new_states: u64,
    outcomes: Vec<(&'static str, u64)>,
    pub trace: crate::refm::Trace,
}

impl Ctx {
    pub fn new() -> Self {
        Ctx {
            execs: 0,
            trans: 0,
            new_states: 0,
            outcomes: vec![],
            trace: Default::default(),
        }
    }
    /// record one observed outcome class
    #[inline]
    pub fn out(&mut self, label: &'static str) {
        for (l, n) in self.outcomes.iter_mut() {
            if std::ptr::eq(l.as_ptr(), label.as_ptr()) && l.len() == label.len() {
                *n += 1;
                return;
            }
        }
        self.outcomes.push((label, 1));
    }
    /// record a model state by its canonical hash
    #[inline]
    pub fn state(&mut self, h: u64) {
        if mark(h) {
            self.new_states += 1;
        }
    }
    pub fn state_bytes(&mut self, seed: u64, b: &[u8]) {
        let h = crate::refm::hash_bytes(seed, b);
        self.state(h)
    }
    /// run the reference recogniser from `pos`, counting its steps and configurations
    pub fn model_item(&mut self, b: &[u8], pos: usize) -> Result<usize, crate::refm::E> {
        self.trace.steps = 0;
        self.trace.states.clear();
        let mut tr = std::mem::take(&mut self.trace);
        let r = crate::refm::item_trace(b, pos, Some(&mut tr));
        self.trans += tr.steps;
        let n = tr.states.len();
        for (i, h) in tr.states.iter().enumerate() {
            if i < 64 || i + 16 > n {
                self.state(*h);
            }
        }
        self.trace = tr;
        r
    }
}

// distinct model states: a bitmap of hash buckets (a lower bound of the number of distinct states)
const BITS: usize = if cfg!(miri) { 1 << 16 } else { 1 << 28 };
static SEEN: std::sync::OnceLock<Vec<AtomicU64>> = std::sync::OnceLock::new();
fn mark(h: u64) -> bool {
    let seen = SEEN.get_or_init(|| {
        let mut v = Vec::with_capacity(BITS / 64);
        v.resize_with(BITS / 64, || AtomicU64::new(0));
        v
    });
    let i = (h ^ (h >> 31)) as usize & (BITS - 1);
    let bit = 1u64 << (i & 63);
    let w = &seen[i >> 6];
    if w.load(Relaxed) & bit != 0 {
        return false;
    }
    w.fetch_or(bit, Relaxed) & bit == 0
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panicked at {}: {}", loc, msg));
    }));
}

pub fn run_check(f: &Family, case: &[u8], ctx: &mut Ctx) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| (f.check)(case, ctx))) {
        Ok(r) => r,
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

// ---------------------------------------------------------------- shared memory slots

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}

const SLOT: usize = 20 << 20;
pub const MAX_CASE: usize = SLOT - 64;

#[derive(Clone, Copy)]
struct Slots {
    p: *mut u8,
    n: usize,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

impl Slots {
    fn open(path: &Path, n: usize) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len((n * SLOT) as u64).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), n * SLOT, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        Slots { p, n }
    }
    fn word(&self, slot: usize, w: usize) -> &AtomicU64 {
        assert!(slot < self.n);
        unsafe { &*(self.p.add(slot * SLOT + w * 8) as *const AtomicU64) }
    }
    /// publish the case about to run; sequence number odd while running
    fn begin(&self, slot: usize, family: usize, case: &[u8]) {
        let n = case.len().min(MAX_CASE);
        self.word(slot, 1).store(family as u64, Relaxed);
        self.word(slot, 2).store(n as u64, Relaxed);
        unsafe { std::ptr::copy_nonoverlapping(case.as_ptr(), self.p.add(slot * SLOT + 64), n) };
        self.word(slot, 0).fetch_add(1, Release);
    }
    fn end(&self, slot: usize) {
        self.word(slot, 0).fetch_add(1, Release);
    }
    fn running(&self, slot: usize) -> Option<(u64, usize, Vec<u8>)> {
        let s = self.word(slot, 0).load(Acquire);
        if s & 1 == 0 {
            return None;
        }
        let fam = self.word(slot, 1).load(Relaxed) as usize;
        let n = (self.word(slot, 2).load(Relaxed) as usize).min(MAX_CASE);
        let v = unsafe { std::slice::from_raw_parts(self.p.add(slot * SLOT + 64), n) }.to_vec();
        Some((s, fam, v))
    }
}

// ---------------------------------------------------------------- worker

#[derive(Clone)]
struct Found {
    family: usize,
    case: Vec<u8>,
    msg: String,
}

fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16)
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x))
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim();
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}
fn short_hex(b: &[u8]) -> String {
    if b.len() <= 64 {
        hex(b)
    } else {
        format!("{}..({} bytes)", hex(&b[..48]), b.len())
    }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Known {
    /// (property, hex of case) -> text
    known: Vec<(String, String, String)>,
}
impl Known {
    pub fn load(path: Option<&str>) -> Known {
        let mut known = vec![];
        if let Some(p) = path {
            if let Ok(t) = std::fs::read_to_string(p) {
                for l in t.lines() {
                    // known: property=<id> case=<hex> <what fails>
                    if let Some(r) = l.strip_prefix("known: property=") {
                        let mut it = r.splitn(3, ' ');
                        let id = it.next().unwrap_or("").to_string();
                        let case = it.next().unwrap_or("").trim_start_matches("case=").to_string();
                        known.push((id, case, it.next().unwrap_or("").to_string()));
                    }
                }
            }
        }
        Known { known }
    }
    fn find(&self, id: &str, case: &[u8]) -> Option<usize> {
        if self.known.is_empty() {
            return None;
        }
        let h = hex(case);
        self.known.iter().position(|(i, c, _)| i == id && *c == h)
    }
}

struct FamStats {
    cases: u64,
    execs: u64,
    trans: u64,
    states: u64,
    outcomes: Vec<(&'static str, u64)>,
    samples: Vec<String>,
    secs: f64,
}

pub fn worker(p: &Prop, tier: Tier, shm: &Path, evidence: &Path, result: &Path, seed: u64, known: &Known) -> i32 {
    install_panic_hook();
    let start = Instant::now();
    let nthreads = threads();
    let slots = Slots::open(shm, nthreads);
    let fams = (p.families)(tier);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let flaky: Mutex<Option<Found>> = Mutex::new(None);
    let known_seen: Mutex<HashSet<usize>> = Mutex::new(HashSet::new());
    let mut stats: Vec<FamStats> = vec![];
    let only = std::env::var("MC_FAMILY").ok();
    let slow = std::env::var("MC_SLOW").is_ok();

    for (fi, f) in fams.iter().enumerate() {
        if let Some(o) = &only {
            if !f.name.contains(o.as_str()) {
                continue;
            }
        }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let acc: Mutex<FamStats> = Mutex::new(FamStats {
            cases: 0,
            execs: 0,
            trans: 0,
            states: 0,
            outcomes: vec![],
            samples: vec![],
            secs: 0.0,
        });
        std::thread::scope(|s| {
            for t in 0..nthreads {
                let (next, stop, acc, found, flaky, known_seen) = (&next, &stop, &acc, &found, &flaky, &known_seen);
                s.spawn(move || {
                    let mut ctx = Ctx::new();
                    let mut cases = 0u64;
                    let mut samples: Vec<String> = vec![];
                    loop {
                        let u = next.fetch_add(1, SeqCst);
                        if u >= f.units {
                            break;
                        }
                        if stop.load(Relaxed) {
                            break;
                        }
                        let (u0, c0) = (Instant::now(), cases);
                        (f.gen)(u, &mut |case: &[u8]| {
                            if stop.load(Relaxed) {
                                return;
                            }
                            assert!(case.len() <= MAX_CASE, "case too large");
                            slots.begin(t, fi, case);
                            let r = run_check(f, case, &mut ctx);
                            slots.end(t);
                            cases += 1;
                            if cases % 50021 == 7 && samples.len() < 2 {
                                samples.push(short_hex(case));
                            }
                            if let Err(msg) = r {
                                if let Some(k) = known.find(p.id, case) {
                                    known_seen.lock().unwrap().insert(k);
                                    return;
                                }
                                let again = run_check(f, case, &mut ctx);
                                let me = Found { family: fi, case: case.to_vec(), msg };
                                if again.is_ok() {
                                    *flaky.lock().unwrap() = Some(me);
                                    stop.store(true, Relaxed);
                                    return;
                                }
                                let mut g = found.lock().unwrap();
                                let better = match &*g {
                                    None => true,
                                    Some(o) => (me.case.len(), &me.case) < (o.case.len(), &o.case),
                                };
                                if better {
                                    *g = Some(me);
                                }
                                stop.store(true, Relaxed);
                            }
                        });
                        if slow && u0.elapsed().as_millis() > 1500 {
                            eprintln!("slow unit {} of {}: {} cases {:?}", u, f.name, cases - c0, u0.elapsed());
                        }
                    }
                    let mut a = acc.lock().unwrap();
                    a.cases += cases;
                    a.execs += ctx.execs;
                    a.trans += ctx.trans;
                    a.states += ctx.new_states;
                    for (l, n) in &ctx.outcomes {
                        match a.outcomes.iter_mut().find(|(m, _)| m == l) {
                            Some((_, k)) => *k += n,
                            None => a.outcomes.push((l, *n)),
                        }
                    }
                    if a.samples.len() < 4 {
                        a.samples.extend(samples);
                    }
                });
            }
        });
        let mut a = acc.into_inner().unwrap();
        a.secs = t0.elapsed().as_secs_f64();
        a.outcomes.sort();
        println!(
            "  family {:<26} cases={:<10} compared={:<11} steps={:<11} new_states={:<8} {:.2}s  {:?}",
            f.name, a.cases, a.execs, a.trans, a.states, a.secs, a.outcomes
        );
        stats.push(a);
        if found.lock().unwrap().is_some() || flaky.lock().unwrap().is_some() {
            break;
        }
    }

    let found = found.into_inner().unwrap();
    if let Some(f) = flaky.into_inner().unwrap() {
        println!("mc: nondeterministic outcome in family {} case {}: {}", fams[f.family].name, short_hex(&f.case), f.msg);
        return 2;
    }
    let mut ks: Vec<usize> = known_seen.into_inner().unwrap().into_iter().collect();
    ks.sort();
    for k in ks {
        let (id, case, text) = &known.known[k];
        println!("KNOWN-FINDING: property={} case={} {}", id, case, text);
    }

    // evidence
    let (mut cases, mut execs, mut trans, mut states) = (0u64, 0u64, 0u64, 0u64);
    let mut fj = vec![];
    let mut samples = vec![];
    for (f, a) in fams.iter().filter(|f| only.as_ref().map_or(true, |o| f.name.contains(o.as_str()))).zip(&stats) {
        cases += a.cases;
        execs += a.execs;
        trans += a.trans;
        states += a.states;
        let outs: Vec<String> = a.outcomes.iter().map(|(l, n)| format!("{}: {}", js(l), n)).collect();
        fj.push(format!(
            "{{\"name\": {}, \"bound\": {}, \"cases\": {}, \"comparisons\": {}, \"model_steps\": {}, \"new_states\": {}, \"outcomes\": {{{}}}, \"wall_s\": {:.3}}}",
            js(&f.name), js(&f.bound), a.cases, a.execs, a.trans, a.states, outs.join(", "), a.secs
        ));
        for s in a.samples.iter().take(2) {
            samples.push(format!("{{\"family\": {}, \"case\": {}}}", js(&f.name), js(s)));
        }
    }
    let complete = found.is_none() && only.is_none();
    let mut ev = String::new();
    ev.push_str(&format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n",
        js(p.id),
        js(if tier == Tier::Quick { "quick" } else { "thorough" }),
        seed
    ));
    ev.push_str(&format!(
        " \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"cases\": {}, \"exhaustive\": {},\n  \"rule\": {},\n  \"families\": [\n   {}\n  ],\n  \"samples\": [{}]\n }},\n",
        states, trans, execs, cases, complete, js(p.rule), fj.join(",\n   "), samples.join(", ")
    ));
    let asm: Vec<String> = p.assumptions.iter().map(|a| js(a)).collect();
    ev.push_str(&format!(
        " \"assumptions\": [{}],\n \"wall_s\": {:.3}, \"violations\": {}\n}}\n",
        asm.join(", "),
        start.elapsed().as_secs_f64(),
        found.is_some() as u32
    ));
    std::fs::write(evidence, ev).expect("evidence");
    println!("  total cases={} compared={} steps={} states={} {:.1}s", cases, execs, trans, states, start.elapsed().as_secs_f64());

    match found {
        None => 0,
        Some(f) => {
            let mut o = std::fs::File::create(result).unwrap();
            writeln!(o, "{}\n{}\n{}", fams[f.family].name, hex(&f.case), f.msg.replace('\n', " ")).unwrap();
            1
        }
    }
}

// ---------------------------------------------------------------- supervisor

const HANG_SECS: u64 = 60;

fn wait_timeout(c: &mut std::process::Child, t: Duration) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t0.elapsed() > t {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

pub struct RunArgs {
    pub id: String,
    pub tier: Tier,
    pub evidence: PathBuf,
    pub replays: PathBuf,
    pub known: Option<String>,
    pub seed: u64,
}

fn report(a: &RunArgs, family: &str, case: &[u8], msg: &str) -> i32 {
    std::fs::create_dir_all(&a.replays).unwrap();
    let h = crate::refm::hash_bytes(7, case);
    let path = a.replays.join(format!("{}-{:016x}.txt", a.id, h));
    let body = format!(
        "property {}\nfamily {}\ncase {}\nmessage {}\n# replay without the explorer: <mc binary> replay {}\n",
        a.id,
        family,
        hex(case),
        msg.replace('\n', " "),
        path.display()
    );
    std::fs::write(&path, body).unwrap();
    println!("violated: family={} case={} :: {}", family, short_hex(case), msg);
    println!("VIOLATION property={} replay={}", a.id, path.display());
    1
}

pub fn supervise(a: &RunArgs, fam_names: &[String]) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let tmp = std::env::temp_dir().join(format!("mc-{}-{}", a.id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let shm = tmp.join("slots");
    let result = tmp.join("result");
    let code = (|| {
        let n = threads();
        let slots = Slots::open(&shm, n);
        let mut cmd = std::process::Command::new(&exe);
        cmd.arg("worker")
            .arg(&a.id)
            .arg(if a.tier == Tier::Quick { "quick" } else { "thorough" })
            .arg(&shm)
            .arg(&a.evidence)
            .arg(&result)
            .arg(a.seed.to_string());
        if let Some(k) = &a.known {
            cmd.arg(k);
        }
        let mut child = cmd.spawn().expect("spawn worker");
        let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); n];
        let mut hung: Option<usize> = None;
        let status = loop {
            if let Ok(Some(s)) = child.try_wait() {
                break Some(s);
            }
            for i in 0..n {
                let s = slots.word(i, 0).load(Relaxed);
                if s != last[i].0 || s & 1 == 0 {
                    last[i] = (s, Instant::now());
                } else if last[i].1.elapsed() > Duration::from_secs(HANG_SECS) {
                    hung = Some(i);
                }
            }
            if hung.is_some() {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        match status.and_then(|s| s.code()) {
            Some(0) => return 0,
            Some(1) => {
                let t = std::fs::read_to_string(&result).unwrap();
                let l: Vec<&str> = t.lines().collect();
                return report(a, l[0], &unhex(l[1]), l.get(2).unwrap_or(&""));
            }
            Some(2) => return 2,
            _ => {}
        }
        // crash or hang: isolate
        for i in 0..n {
            if let Some(h) = hung {
                if h != i {
                    continue;
                }
            }
            if let Some((_, fam, case)) = slots.running(i) {
                let f = tmp.join("one");
                std::fs::write(&f, hex(&case)).unwrap();
                let mut c = std::process::Command::new(&exe)
                    .arg("one")
                    .arg(&a.id)
                    .arg(&fam_names[fam])
                    .arg(&f)
                    .spawn()
                    .unwrap();
                let st = wait_timeout(&mut c, Duration::from_secs(HANG_SECS));
                let msg = match st {
                    None => format!("does not terminate within {} s", HANG_SECS),
                    Some(s) => match s.code() {
                        Some(0) => continue,
                        Some(1) => "fails when run alone".to_string(),
                        Some(99) => "allocates without bound".to_string(),
                        Some(c) => format!("process ended with code {}", c),
                        None => format!("process died: {}", s),
                    },
                };
                let ev = format!(
                    "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\", \"coverage\": {{\"states\": 1, \"transitions\": 1, \"traces_validated_against_impl\": 1, \"samples\": [{}], \"exhaustive\": false, \"note\": \"stopped at a crash or hang\"}}, \"wall_s\": 0, \"violations\": 1}}\n",
                    js(&a.id), js(if a.tier == Tier::Quick { "quick" } else { "thorough" }), a.seed, js(&short_hex(&case)));
                std::fs::write(&a.evidence, ev).unwrap();
                return report(a, &fam_names[fam], &case, &msg);
            }
        }
        println!("mc: the worker ended abnormally ({:?}) and no running case reproduces it", status);
        2
    })();
    let _ = std::fs::remove_dir_all(&tmp);
    code
}

/// run a single case alone, on an ordinary thread stack
pub fn one(p: &Prop, family: &str, case: Vec<u8>) -> i32 {
    install_panic_hook();
    let mut fams = (p.families)(Tier::Quick);
    fams.extend((p.families)(Tier::Thorough));
    let Some(f) = fams.into_iter().find(|f| f.name == family) else {
        println!("no family {}", family);
        return 2;
    };
    let h = std::thread::spawn(move || {
        let mut ctx = Ctx::new();
        match run_check(&f, &case, &mut ctx) {
            Ok(()) => {
                println!("case holds");
                0
            }
            Err(m) => {
                println!("case fails: {}", m);
                1
            }
        }
    });
    h.join().unwrap_or(2)
}
