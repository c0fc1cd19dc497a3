//! Runner: `check` (parent) starts sharded workers, confirms and shrinks what they find, writes evidence and replays.
use crate::alloc;
use crate::src::{Rng, Src};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{exit, Child, Command, Stdio};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

pub type R = Result<(), String>;

/// One exhaustive phase: case `i` of `count`.
pub struct Phase {
    pub name: &'static str,
    pub count: fn(bool) -> u64,
    pub run: fn(&mut Ctx, u64) -> R,
}

pub struct Prop {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub case: fn(&mut Ctx) -> R,
    pub phases: &'static [Phase],
    /// The property promises termination: a case that exceeds the CPU limit twice, in two processes, breaks it.
    pub terminates: bool,
    /// Run once by the parent: lines to print, or a violation.
    pub extra: Option<fn(bool) -> Result<Vec<String>, String>>,
}

/// CPU seconds one case may take; cases normally take microseconds to milliseconds.
const CASE_CPU_S: u64 = 20;
/// Bytes one case may allocate at once before allocation fails.
const CASE_BYTES: usize = 3 << 30;

pub struct Ctx {
    pub s: Src,
    pub verbose: bool,
    pub thorough: bool,
    labels: Vec<&'static str>,
    nontrivial: bool,
    key: Fx,
    shown: String,
}

impl Ctx {
    pub fn new(s: Src, verbose: bool, thorough: bool) -> Self {
        Ctx { s, verbose, thorough, labels: vec![], nontrivial: false, key: Fx::default(), shown: String::new() }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c
    }
    /// Identifies the input for counting distinct cases.
    pub fn key<T: Hash + ?Sized>(&mut self, t: &T) {
        t.hash(&mut self.key)
    }
    pub fn show(&mut self, f: impl FnOnce() -> String) {
        if self.verbose && self.shown.len() < 20_000 {
            let t = f();
            if !self.shown.is_empty() {
                self.shown.push_str("; ");
            }
            self.shown.push_str(&t);
        }
    }
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(w) ^ (c.len() as u64) << 56);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
        self.0 ^= self.0 >> 29;
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
#[derive(Default)]
struct Ident(u64);
impl Hasher for Ident {
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
type Keys = HashSet<u64, BuildHasherDefault<Ident>>;
const MAX_KEYS: usize = 12_000_000;

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panic: {}{}", m, l));
    }));
}

/// Runs `f`; a panic is a failure.
pub fn guarded(f: impl FnOnce() -> R) -> R {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| Err(PANIC.with(|p| p.borrow().clone())))
}

struct Out {
    result: R,
    ctx: Ctx,
}

fn run_case(p: &Prop, phase: usize, idx: u64, s: Src, verbose: bool, thorough: bool) -> Out {
    let mut ctx = Ctx::new(s, verbose, thorough);
    alloc::cap(CASE_BYTES);
    let result = guarded(|| {
        if phase == 0 {
            (p.case)(&mut ctx)
        } else {
            (p.phases[phase - 1].run)(&mut ctx, idx)
        }
    });
    Out { result, ctx }
}

/// For libFuzzer: one random-phase case decoded from `data`. Panics when the property fails.
pub fn fuzz_one(p: &Prop, data: &[u8]) {
    let o = run_case(p, 0, 0, Src::replay(data.to_vec()), false, true);
    if let Err(m) = o.result {
        eprintln!("PROPERTY {} FAILS: {}", p.id, m);
        std::process::abort();
    }
}
pub fn fuzz_init() {
    quiet_panics();
}

fn case_seed(p: &Prop, seed: u64, phase: usize, idx: u64) -> u64 {
    let mut h = Fx::default();
    p.id.hash(&mut h);
    (seed, phase as u64, idx).hash(&mut h);
    h.finish()
}
fn case_src(p: &Prop, seed: u64, phase: usize, idx: u64) -> Src {
    Src::random(case_seed(p, seed, phase, idx))
}

// ---- status shared with the parent and the watchdog -------------------------------------------------------------

static STATUS: AtomicPtr<AtomicU64> = AtomicPtr::new(std::ptr::null_mut());
fn status_open(path: &Path) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("status file");
    f.set_len(64).expect("status file");
    let p = unsafe { libc::mmap(std::ptr::null_mut(), 64, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    assert!(p != libc::MAP_FAILED);
    STATUS.store(p as *mut AtomicU64, Ordering::SeqCst);
}
fn status(i: usize) -> Option<&'static AtomicU64> {
    let p = STATUS.load(Ordering::Relaxed);
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p.add(i) })
    }
}
fn status_case(phase: usize, idx: u64) {
    if let (Some(n), Some(a), Some(b)) = (status(0), status(1), status(2)) {
        a.store(phase as u64, Ordering::Relaxed);
        b.store(idx, Ordering::Relaxed);
        n.fetch_add(1, Ordering::Relaxed);
    }
}
static CASES: AtomicU64 = AtomicU64::new(0);

/// Ends the process with code 77 when the calling thread spends more than the limit of CPU time on one case.
fn watchdog() {
    let mut clock: libc::clockid_t = 0;
    let rc = unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
    assert_eq!(rc, 0);
    std::thread::spawn(move || {
        let cpu = || {
            let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
            unsafe { libc::clock_gettime(clock, &mut t) };
            t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
        };
        let (mut seen, mut since) = (u64::MAX, 0.0);
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let n = CASES.load(Ordering::Relaxed);
            let t = cpu();
            if n != seen {
                seen = n;
                since = t;
            } else if t - since > CASE_CPU_S as f64 {
                unsafe { libc::_exit(77) };
            }
        }
    });
}

fn no_core() {
    let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &l) };
}

fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(128 << 20).spawn(f).unwrap().join().unwrap()
}

// ---- shrinking --------------------------------------------------------------------------------------------------

fn shrink(buf: Vec<u8>, spans: Vec<(usize, usize)>, budget: usize, mut fails: impl FnMut(&[u8]) -> Option<(Vec<u8>, Vec<(usize, usize)>)>) -> Vec<u8> {
    let mut best = buf;
    let mut spans = spans;
    let mut left = budget;
    macro_rules! attempt {
        ($cand:expr) => {{
            let c: Vec<u8> = $cand;
            if left == 0 {
                return best;
            }
            left -= 1;
            if let Some((u, s)) = fails(&c) {
                if u.len() < best.len() || (u.len() == best.len() && u < best) {
                    best = u;
                    spans = s;
                    true
                } else {
                    false
                }
            } else {
                false
            }
        }};
    }
    loop {
        let before = best.clone();
        // whole units, longest first
        let mut again = true;
        while again {
            again = false;
            let mut sp = spans.clone();
            sp.sort_by_key(|&(a, b)| std::cmp::Reverse(b - a));
            for (a, b) in sp {
                if b <= best.len() {
                    let mut c = best[..a].to_vec();
                    c.extend_from_slice(&best[b..]);
                    if attempt!(c) {
                        again = true;
                        break;
                    }
                }
            }
        }
        // chunks
        let mut k = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i > 0 {
                let a = i.saturating_sub(k);
                if i <= best.len() {
                    let mut c = best[..a].to_vec();
                    c.extend_from_slice(&best[i..]);
                    if !attempt!(c) && k > 1 {
                        let mut z = best.clone();
                        if z[a..i].iter().any(|&x| x != 0) {
                            z[a..i].iter_mut().for_each(|x| *x = 0);
                            attempt!(z);
                        }
                    }
                }
                i = a.min(best.len());
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // bytes
        for i in 0..best.len() {
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            let v = best[i];
            for w in [0, 1, v / 2, v - v.min(16), v - 1] {
                if w < v && i < best.len() && best[i] > w {
                    let mut c = best.clone();
                    c[i] = w;
                    if attempt!(c) {
                        break;
                    }
                }
            }
        }
        if best == before {
            return best;
        }
    }
}

// ---- worker -----------------------------------------------------------------------------------------------------

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}
fn clean(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}

fn thread_cpu() -> f64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

/// The cases one worker runs, one after another, in one process.
#[derive(Clone, Copy)]
struct History {
    shard: u64,
    shards: u64,
    /// Only these cases of this phase (the last failed), instead of all of the worker's.
    only: Option<(usize, u64, u64)>,
}

impl History {
    fn cases(&self) -> String {
        match self.only {
            Some((_, from, to)) => format!("{} cases", (to - from) / self.shards),
            None => format!("cases of worker {} of {}", self.shard, self.shards),
        }
    }
}

fn worker(p: &'static Prop, h: History, thorough: bool, seed: u64, dir: PathBuf) -> i32 {
    let (shard, shards) = (h.shard, h.shards);
    no_core();
    quiet_panics();
    status_open(&dir.join(format!("status-{}", shard)));
    watchdog();
    if let Some((phase, from, to)) = h.only {
        let mut idx = from;
        while idx <= to {
            status_case(phase, idx);
            CASES.fetch_add(1, Ordering::Relaxed);
            if let Err(m) = run_case(p, phase, idx, case_src(p, seed, phase, idx), false, thorough).result {
                let o = run_case(p, phase, idx, case_src(p, seed, phase, idx), true, thorough);
                println!("{}\t{}", clean(&m), clean(&o.ctx.shown));
                return 10;
            }
            idx += shards;
        }
        return 0;
    }
    let mut keys = Keys::default();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let (mut evals, mut trivial, mut overflow) = (0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut per_phase = vec![];
    for phase in (1..=p.phases.len()).chain([0]) {
        let n = if phase == 0 {
            scaled(if thorough { p.thorough } else { p.quick })
        } else {
            (p.phases[phase - 1].count)(thorough)
        };
        let mut idx = shard;
        let mut done = 0u64;
        let mut shown = 0;
        let mut slowest = (0.0, 0);
        while idx < n {
            status_case(phase, idx);
            CASES.fetch_add(1, Ordering::Relaxed);
            let cpu = thread_cpu();
            let o = run_case(p, phase, idx, case_src(p, seed, phase, idx), false, thorough);
            let cpu = thread_cpu() - cpu;
            if cpu > slowest.0 {
                slowest = (cpu, idx);
            }
            evals += 1;
            done += 1;
            for l in &o.ctx.labels {
                *labels.entry(l).or_default() += 1;
            }
            if let Err(m) = &o.result {
                let fail = dir.join(format!("fail-{}", shard));
                let write = |bytes: &[u8], msg: &str, shown: &str| {
                    let t = format!("{}\t{}\t{}\t{}\t{}\n", phase, idx, hex(bytes), clean(msg), clean(shown));
                    std::fs::write(&fail, t).expect("write failure");
                };
                let used = o.ctx.s.used();
                write(&used, m, "");
                if dir.ends_with("again") {
                    println!("{}\t", clean(m));
                    return 10;
                }
                let best = if phase == 0 {
                    let t0 = thread_cpu();
                    let rs = shrink(used, o.ctx.s.spans.clone(), 3000, |c| {
                        CASES.fetch_add(1, Ordering::Relaxed);
                        if thread_cpu() - t0 > 25.0 {
                            return None;
                        }
                        let o = run_case(p, 0, 0, Src::replay(c.to_vec()), false, thorough);
                        o.result.err().map(|_| (o.ctx.s.used(), o.ctx.s.spans))
                    });
                    rs
                } else {
                    used
                };
                // render, repeating a little for randomised code
                for _ in 0..50 {
                    let s = if phase == 0 { Src::replay(best.clone()) } else { case_src(p, seed, phase, idx) };
                    let o = run_case(p, phase, idx, s, true, thorough);
                    if let Err(m) = &o.result {
                        write(&best, m, &o.ctx.shown);
                        break;
                    }
                }
                return 10;
            }
            if o.ctx.nontrivial {
                if keys.len() < MAX_KEYS {
                    keys.insert(o.ctx.key.finish());
                } else {
                    overflow += 1;
                }
                if shard == 0 && (shown < 2 || (shown < 4 && done % 97 == 0)) {
                    shown += 1;
                    let o = run_case(p, phase, idx, case_src(p, seed, phase, idx), true, thorough);
                    let mut t: String = o.ctx.shown.chars().take(600).collect();
                    if t.len() < o.ctx.shown.len() {
                        t.push_str(" ...");
                    }
                    samples.push(t);
                }
            } else {
                trivial += 1;
            }
            idx += shards;
        }
        if std::env::var_os("VERIF_SLOW").is_some() {
            eprintln!("slowest {} phase {} case {}: {:.3} s", p.id, phase, slowest.1, slowest.0);
        }
        per_phase.push((phase, done));
    }
    let mut t = format!("evals\t{}\ntrivial\t{}\noverflow\t{}\n", evals, trivial, overflow);
    for (l, n) in &labels {
        let _ = writeln!(t, "label\t{}\t{}", l, n);
    }
    for (ph, n) in per_phase {
        let _ = writeln!(t, "phase\t{}\t{}", ph, n);
    }
    for s in samples {
        let _ = writeln!(t, "sample\t{}", clean(&s));
    }
    let mut kb = Vec::with_capacity(keys.len() * 8);
    for k in keys {
        kb.extend_from_slice(&k.to_le_bytes());
    }
    std::fs::write(dir.join(format!("keys-{}", shard)), kb).expect("write keys");
    std::fs::write(dir.join(format!("done-{}", shard)), t).expect("write result");
    0
}

fn scaled(n: u64) -> u64 {
    match std::env::var("VERIF_SCALE").ok().and_then(|v| v.parse::<f64>().ok()) {
        Some(f) => ((n as f64) * f) as u64,
        None => n,
    }
}

/// Runs one case and exits: 0 holds, 10 fails, 77 too much CPU, a signal if it crashes.
fn one(p: &'static Prop, phase: usize, idx: u64, bytes: Option<Vec<u8>>, thorough: bool, seed: u64) -> i32 {
    no_core();
    quiet_panics();
    watchdog();
    let s = match bytes {
        Some(b) => Src::replay(b),
        None => case_src(p, seed, phase, idx),
    };
    let o = run_case(p, phase, idx, s, true, thorough);
    match o.result {
        Ok(()) => 0,
        Err(m) => {
            println!("{}\t{}", clean(&m), clean(&o.ctx.shown));
            10
        }
    }
}

/// Renders a case without running it to the end being required: what it shows before it dies goes to stdout at once.
fn die_with_parent(c: &mut Command) {
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
}

// ---- parent -----------------------------------------------------------------------------------------------------

#[derive(Debug)]
enum End {
    Holds,
    Fails(String, String),
    Hangs,
    Crash(i32),
    Odd(i32),
}

struct Env {
    home: PathBuf,
    dir: PathBuf,
    thorough: bool,
    seed: u64,
    exe: PathBuf,
}

fn run_one(e: &Env, p: &Prop, phase: usize, idx: u64, bytes: Option<&[u8]>) -> End {
    use std::os::unix::process::ExitStatusExt;
    let mut c = Command::new(&e.exe);
    c.arg("one").arg(p.id).arg(phase.to_string()).arg(idx.to_string()).arg(if e.thorough { "thorough" } else { "quick" }).arg(e.seed.to_string());
    if let Some(b) = bytes {
        let f = e.dir.join("bytes");
        std::fs::write(&f, b).expect("write case");
        c.arg(f);
    }
    die_with_parent(&mut c);
    let o = c.stderr(Stdio::null()).output().expect("run case");
    match (o.status.code(), o.status.signal()) {
        (Some(0), _) => End::Holds,
        (Some(10), _) => {
            let t = String::from_utf8_lossy(&o.stdout);
            let mut it = t.trim_end().splitn(2, '\t');
            End::Fails(it.next().unwrap_or("").into(), it.next().unwrap_or("").into())
        }
        (Some(77), _) => End::Hangs,
        (Some(n), _) => End::Odd(n),
        (None, Some(s)) => End::Crash(s),
        _ => End::Odd(-1),
    }
}

pub fn json(s: &str) -> String {
    let mut t = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => t.push_str("\\\""),
            '\\' => t.push_str("\\\\"),
            '\n' => t.push_str("\\n"),
            '\t' => t.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(t, "\\u{:04x}", c as u32);
            }
            c => t.push(c),
        }
    }
    t.push('"');
    t
}

/// Runs the cases of a history again, in a process of their own.
fn run_history(e: &Env, p: &Prop, h: History) -> End {
    use std::os::unix::process::ExitStatusExt;
    let dir = e.dir.join("again");
    let _ = std::fs::create_dir_all(&dir);
    let mut c = Command::new(&e.exe);
    c.arg("worker").arg(p.id).arg(h.shard.to_string()).arg(h.shards.to_string()).arg(if e.thorough { "thorough" } else { "quick" }).arg(e.seed.to_string()).arg(&dir);
    if let Some((phase, from, to)) = h.only {
        c.arg(phase.to_string()).arg(from.to_string()).arg(to.to_string());
    }
    die_with_parent(&mut c);
    let o = c.stderr(Stdio::null()).output().expect("run history");
    match (o.status.code(), o.status.signal()) {
        (Some(0), _) => End::Holds,
        (Some(10), _) => {
            let t = String::from_utf8_lossy(&o.stdout);
            let mut it = t.trim_end().splitn(2, '\t');
            End::Fails(it.next().unwrap_or("").into(), it.next().unwrap_or("").into())
        }
        (Some(77), _) => End::Hangs,
        (Some(n), _) => End::Odd(n),
        // what ends the biggest process when memory runs out
        (None, Some(libc::SIGKILL)) => End::Odd(-1),
        (None, Some(s)) => End::Crash(s),
        _ => End::Odd(-1),
    }
}

/// A case failed in a worker and does not fail alone: the shortest run of cases up to it, each twice as long as the one before,
/// that ends the same way.
fn find_history(e: &Env, p: &Prop, shard: u64, shards: u64, phase: usize, idx: u64, like: fn(&End) -> bool) -> Option<(History, End)> {
    let t0 = Instant::now();
    let mut back = 1;
    loop {
        let whole = back > idx / shards;
        let from = if whole { idx % shards } else { idx - back * shards };
        let h = History { shard, shards, only: Some((phase, from, idx)) };
        let r = run_history(e, p, h);
        if like(&r) {
            return Some((h, r));
        }
        if whole || t0.elapsed() > Duration::from_secs(120) {
            // all the worker did, earlier phases included
            let h = History { shard, shards, only: None };
            let r = run_history(e, p, h);
            return if like(&r) { Some((h, r)) } else { None };
        }
        back *= 2;
    }
}

fn violation(e: &Env, p: &Prop, phase: usize, idx: u64, bytes: &[u8], message: &str, shown: &str) -> PathBuf {
    violation_after(e, p, phase, idx, bytes, message, shown, None)
}
fn violation_after(e: &Env, p: &Prop, phase: usize, idx: u64, bytes: &[u8], message: &str, shown: &str, history: Option<History>) -> PathBuf {
    let d = e.home.join("replays");
    let _ = std::fs::create_dir_all(&d);
    let mut h = Fx::default();
    bytes.hash(&mut h);
    (phase as u64, idx, e.seed).hash(&mut h);
    let f = d.join(format!("{}-{:016x}.json", p.id, h.finish()));
    let t = format!(
        "{{\n \"property\": {},\n \"seed\": {},\n \"tier\": {},\n \"phase\": {},\n \"idx\": {},\n \"after\": \"{}\",\n \"choices\": \"{}\",\n \"message\": {},\n \"case\": {}\n}}\n",
        json(p.id),
        e.seed,
        json(if e.thorough { "thorough" } else { "quick" }),
        phase,
        idx,
        history.map(|h| format!("{} {} {}", h.shard, h.shards, h.only.map_or("all".into(), |o| format!("{} {} {}", o.0, o.1, o.2)))).unwrap_or_default(),
        hex(bytes),
        json(message),
        json(shown)
    );
    std::fs::write(&f, t).expect("write replay");
    println!("property {}: {}", p.id, message);
    if !shown.is_empty() {
        println!("case: {}", shown.chars().take(1500).collect::<String>());
    }
    println!("VIOLATION property={} replay={}", p.id, f.display());
    f
}

struct Totals {
    evals: u64,
    trivial: u64,
    overflow: u64,
    labels: BTreeMap<String, u64>,
    phases: BTreeMap<usize, u64>,
    samples: Vec<String>,
    distinct: u64,
}

fn evidence(e: &Env, p: &Prop, t: &Totals, notes: &[String], violations: u64, wall: f64) {
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"trivial\": {},\n  \"rule\": {},\n",
        json(p.id),
        json(if e.thorough { "thorough" } else { "quick" }),
        e.seed,
        t.evals,
        t.distinct,
        t.trivial,
        json(p.rule)
    );
    if t.overflow > 0 {
        let _ = writeln!(j, "  \"nontrivial_not_counted_as_distinct\": {},", t.overflow);
    }
    let _ = write!(j, "  \"phases\": {{");
    for (k, (ph, n)) in t.phases.iter().enumerate() {
        let name = if *ph == 0 { "random" } else { p.phases[*ph - 1].name };
        let _ = write!(j, "{}{}: {}", if k > 0 { ", " } else { "" }, json(name), n);
    }
    let _ = write!(j, "}},\n  \"classes\": {{");
    for (k, (l, n)) in t.labels.iter().enumerate() {
        let _ = write!(j, "{}{}: {}", if k > 0 { ", " } else { "" }, json(l), n);
    }
    let _ = write!(j, "}},\n  \"samples\": [");
    for (k, s) in t.samples.iter().enumerate() {
        let _ = write!(j, "{}{}", if k > 0 { ", " } else { "" }, json(s));
    }
    let _ = write!(j, "]");
    if !notes.is_empty() {
        let _ = write!(j, ",\n  \"notes\": [{}]", notes.iter().map(|n| json(n)).collect::<Vec<_>>().join(", "));
    }
    let _ = write!(
        j,
        "\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        p.assumptions.iter().map(|a| json(a)).collect::<Vec<_>>().join(", "),
        wall,
        violations
    );
    let d = e.home.join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(d.join(format!("{}.json", p.id)), j).expect("write evidence");
}

fn check(p: &'static Prop, e: &Env) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let t0 = Instant::now();
    let mut tot = Totals { evals: 0, trivial: 0, overflow: 0, labels: BTreeMap::new(), phases: BTreeMap::new(), samples: vec![], distinct: 0 };
    let mut notes = vec![];
    if let Some(f) = p.extra {
        match f(e.thorough) {
            Ok(lines) => {
                for l in lines {
                    println!("{}", l);
                    notes.push(l);
                }
            }
            Err(m) => {
                violation(e, p, usize::MAX >> 1, 0, &[], &m, "");
                evidence(e, p, &tot, &notes, 1, t0.elapsed().as_secs_f64());
                return 1;
            }
        }
    }
    let shards = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8) as u64;
    let mut kids: Vec<(u64, Child)> = (0..shards)
        .map(|k| {
            let mut c = Command::new(&e.exe);
            c.arg("worker").arg(p.id).arg(k.to_string()).arg(shards.to_string()).arg(if e.thorough { "thorough" } else { "quick" }).arg(e.seed.to_string()).arg(&e.dir);
            if std::env::var_os("VERIF_SLOW").is_none() {
                c.stderr(Stdio::null());
            }
            die_with_parent(&mut c);
            (k, c.spawn().expect("start worker"))
        })
        .collect();
    let mut bad: Option<(u64, std::process::ExitStatus)> = None;
    while !kids.is_empty() && bad.is_none() {
        std::thread::sleep(Duration::from_millis(20));
        let mut k = 0;
        while k < kids.len() {
            if let Some(st) = kids[k].1.try_wait().expect("wait") {
                let (shard, _) = kids.remove(k);
                if st.code() != Some(0) {
                    bad = Some((shard, st));
                    break;
                }
            } else {
                k += 1;
            }
        }
    }
    for (_, mut c) in kids {
        let _ = c.kill();
        let _ = c.wait();
    }
    let mut code = 0;
    if let Some((shard, st)) = bad {
        let fail = std::fs::read_to_string(e.dir.join(format!("fail-{}", shard))).ok();
        let st_bytes = std::fs::read(e.dir.join(format!("status-{}", shard))).unwrap_or_default();
        let word = |i: usize| st_bytes.get(8 * i..8 * i + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0);
        tot.evals = (0..shards)
            .map(|k| std::fs::read(e.dir.join(format!("status-{}", k))).ok().and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))).unwrap_or(0))
            .sum();
        if let Some(t) = fail {
            let f: Vec<&str> = t.trim_end_matches('\n').split('\t').collect();
            let (phase, idx) = (f[0].parse::<usize>().unwrap(), f[1].parse::<u64>().unwrap());
            let bytes = unhex(f[2]);
            let b = if phase == 0 { Some(&bytes[..]) } else { None };
            let mut seen = None;
            for _ in 0..20 {
                if let End::Fails(m, s) = run_one(e, p, phase, idx, b) {
                    seen = Some((m, s));
                    break;
                }
            }
            match seen {
                Some((m, s)) => violation(e, p, phase, idx, &bytes, &m, &s),
                None => match find_history(e, p, shard, shards, phase, idx, |r| matches!(r, End::Fails(..))) {
                    Some((h, End::Fails(m, s))) => {
                        let m = format!("{} (only after the {} before it)", m, h.cases());
                        violation_after(e, p, phase, idx, &[], &m, &s, Some(h))
                    }
                    _ => {
                        let m = format!("{} (seen once; depends on what went before or on the code's own randomness)", f[3]);
                        let h = History { shard, shards, only: None };
                        violation_after(e, p, phase, idx, &bytes, &m, f.get(4).unwrap_or(&""), Some(h))
                    }
                },
            };
            code = 1;
        } else if st.signal().is_some() || st.code() == Some(77) {
            let (phase, idx) = (word(1) as usize, word(2));
            match run_one(e, p, phase, idx, None) {
                End::Crash(sig) => {
                    // shrink in child processes
                    let mut bytes = vec![];
                    if phase == 0 {
                        // the crashed worker could not report its choices: draw them again
                        let all = case_bytes(p, e.seed, idx);
                        let dies = |c: &[u8]| matches!(run_one(e, p, 0, 0, Some(c)), End::Crash(_));
                        if dies(&all) {
                            bytes = shrink(all, vec![], 200, |c| if dies(c) { Some((c.to_vec(), vec![])) } else { None });
                        }
                    }
                    violation(e, p, phase, idx, &bytes, &format!("the process is killed by signal {} on this case", sig), "");
                    code = 1;
                }
                End::Hangs if p.terminates => {
                    violation(e, p, phase, idx, &[], &format!("the case does not end within {} s of CPU time (twice, in two processes)", CASE_CPU_S), "");
                    code = 1;
                }
                End::Fails(m, s) => {
                    violation(e, p, phase, idx, &[], &m, &s);
                    code = 1;
                }
                End::Holds if st.signal() != Some(libc::SIGKILL) && (p.terminates || st.signal().is_some()) => {
                    // alone it holds: does what went before it matter?
                    let like: fn(&End) -> bool = if st.signal().is_some() { |r| matches!(r, End::Crash(_)) } else { |r| matches!(r, End::Hangs) };
                    match find_history(e, p, shard, shards, phase, idx, like) {
                        Some((h, r)) => {
                            let what = match r {
                                End::Crash(sig) => format!("the process is killed by signal {} on this case", sig),
                                _ => format!("the case does not end within {} s of CPU time", CASE_CPU_S),
                            };
                            violation_after(e, p, phase, idx, &[], &format!("{} (only after the {} before it)", what, h.cases()), "", Some(h));
                            code = 1;
                        }
                        None => {
                            eprintln!("property {}: worker {} ended with {:?} on phase {} case {}, which holds alone and after the cases before it", p.id, shard, st, phase, idx);
                            code = 2;
                        }
                    }
                }
                other => {
                    eprintln!("property {}: worker {} ended with {:?} on phase {} case {}; alone the case gives {:?}", p.id, shard, st, phase, idx, other);
                    code = 2;
                }
            }
        } else {
            eprintln!("property {}: worker {} ended with {:?}", p.id, shard, st);
            code = 2;
        }
    } else {
        let mut all = Keys::default();
        for k in 0..shards {
            let t = std::fs::read_to_string(e.dir.join(format!("done-{}", k))).expect("worker result");
            for l in t.lines() {
                let f: Vec<&str> = l.split('\t').collect();
                match f[0] {
                    "evals" => tot.evals += f[1].parse::<u64>().unwrap(),
                    "trivial" => tot.trivial += f[1].parse::<u64>().unwrap(),
                    "overflow" => tot.overflow += f[1].parse::<u64>().unwrap(),
                    "label" => *tot.labels.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap(),
                    "phase" => *tot.phases.entry(f[1].parse().unwrap()).or_default() += f[2].parse::<u64>().unwrap(),
                    "sample" => tot.samples.push(f[1].into()),
                    _ => {}
                }
            }
            let kb = std::fs::read(e.dir.join(format!("keys-{}", k))).expect("worker keys");
            all.extend(kb.chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())));
        }
        tot.distinct = all.len() as u64;
        if tot.samples.is_empty() || tot.distinct == 0 {
            eprintln!("property {}: no non-trivial case was generated", p.id);
            code = 2;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(e, p, &tot, &notes, (code == 1) as u64, wall);
    if code == 0 {
        println!("property {}: held on {} cases, {} distinct non-trivial, {:.1} s", p.id, tot.evals, tot.distinct, wall);
    }
    code
}

/// The first choices of a random case (a crashing case cannot report its own), enough for any that crashes.
fn case_bytes(p: &Prop, seed: u64, idx: u64) -> Vec<u8> {
    let mut r = Rng::new(case_seed(p, seed, 0, idx));
    let mut v = vec![];
    for _ in 0..2048 {
        let w = r.next();
        v.extend_from_slice(&w.to_le_bytes());
    }
    v
}

fn field<'a>(t: &'a str, k: &str) -> Option<&'a str> {
    let i = t.find(&format!("\"{}\": ", k))? + k.len() + 4;
    let r = &t[i..];
    Some(r[..r.find(['\n'])?].trim_end_matches(',').trim_matches('"'))
}

pub fn main(props: &'static [Prop]) {
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| props.iter().find(|p| p.id == id);
    let env = |id: &str| {
        let thorough = std::env::var("VERIF_TIER").map(|v| v == "thorough").unwrap_or(false);
        let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
        let dir = std::env::temp_dir().join(format!("verif-{}-{}", id, std::process::id()));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        Env { home: std::env::var("VERIF_HOME").map(PathBuf::from).unwrap_or_else(|_| ".".into()), dir, thorough, seed, exe: std::env::current_exe().expect("own path") }
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
            0
        }
        Some("check") => match find(&a[2]) {
            Some(p) => {
                let e = env(p.id);
                let c = check(p, &e);
                let _ = std::fs::remove_dir_all(&e.dir);
                c
            }
            None => {
                eprintln!("no property {}", a[2]);
                2
            }
        },
        Some("worker") => {
            let p = find(&a[2]).expect("property");
            let (shard, shards, th, seed, dir) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5] == "thorough", a[6].parse().unwrap(), PathBuf::from(&a[7]));
            let only = a.get(10).map(|to| (a[8].parse().unwrap(), a[9].parse().unwrap(), to.parse().unwrap()));
            big_stack(move || worker(p, History { shard, shards, only }, th, seed, dir))
        }
        Some("one") => {
            let p = find(&a[2]).expect("property");
            let (ph, idx, th, seed) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5] == "thorough", a[6].parse().unwrap());
            let b = a.get(7).map(|f| std::fs::read(f).expect("case file"));
            big_stack(move || one(p, ph, idx, b, th, seed))
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let id = field(&t, "property").expect("property");
            let p = find(id).expect("property");
            let mut e = env(id);
            e.seed = field(&t, "seed").and_then(|v| v.parse().ok()).unwrap_or(1);
            e.thorough = field(&t, "tier") == Some("thorough");
            let phase: usize = field(&t, "phase").and_then(|v| v.parse().ok()).unwrap_or(0);
            let idx = field(&t, "idx").and_then(|v| v.parse().ok()).unwrap_or(0);
            let bytes = unhex(field(&t, "choices").unwrap_or(""));
            let after: Vec<String> = field(&t, "after").unwrap_or("").split_whitespace().map(|w| w.to_string()).collect();
            let r = if after.len() >= 3 {
                let n = |i: usize| after[i].parse::<u64>().unwrap_or(0);
                let only = if after.len() == 5 { Some((n(2) as usize, n(3), n(4))) } else { None };
                run_history(&e, p, History { shard: n(0), shards: n(1), only })
            } else if phase == usize::MAX >> 1 {
                match p.extra.expect("extra")(e.thorough) {
                    Ok(_) => End::Holds,
                    Err(m) => End::Fails(m, String::new()),
                }
            } else {
                let b = if phase == 0 && !bytes.is_empty() { Some(&bytes[..]) } else { None };
                let mut r = End::Holds;
                for _ in 0..20 {
                    r = run_one(&e, p, phase, idx, b);
                    if !matches!(r, End::Holds) {
                        break;
                    }
                }
                r
            };
            let _ = std::fs::remove_dir_all(&e.dir);
            println!("{:?}", r);
            match r {
                End::Holds => 0,
                End::Odd(_) => 2,
                _ => 1,
            }
        }
        // writes random-phase cases as seed inputs for libFuzzer
        Some("corpus") => {
            let p = find(&a[2]).expect("property");
            let (n, dir): (u64, PathBuf) = (a[3].parse().unwrap(), PathBuf::from(&a[4]));
            let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
            quiet_panics();
            big_stack(move || {
                for i in 0..n {
                    let o = run_case(p, 0, i, case_src(p, seed, 0, i), false, true);
                    let u = o.ctx.s.used();
                    if u.len() <= 4096 {
                        std::fs::write(dir.join(format!("seed-{}", i)), u).expect("write seed");
                    }
                }
            });
            0
        }
        _ => {
            eprintln!("usage: list | check ID | replay FILE | corpus ID N DIR");
            2
        }
    };
    exit(code);
}
