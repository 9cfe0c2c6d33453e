//! Runtime of the monitors: case scheduling, the guard around every call into
//! the library (panic, allocation, CPU budget), coverage accounting, verdicts.
use crate::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocator
// A monitored call may hold at most its budget of live heap. Beyond it the
// allocator refuses, which aborts the process; the supervisor then re-runs the
// one case alone to confirm.
thread_local! {
    static IN_CALL: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BUDGET: Cell<i64> = const { Cell::new(i64::MAX) };
}
pub struct Meter;
fn charge(n: i64) -> bool {
    IN_CALL.with(|c| {
        if !c.get() {
            return true;
        }
        LIVE.with(|l| {
            let v = l.get() + n;
            if n > 0 && v > BUDGET.with(|b| b.get()) {
                return false;
            }
            l.set(v);
            PEAK.with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
            true
        })
    })
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !charge(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        charge(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !charge(n as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------- verdicts
#[derive(Debug)]
pub enum Fail {
    /// The property is broken by what was observed.
    Violation(String),
    /// The harness could not decide.
    Harness(String),
}
pub type Out = Result<(), Fail>;

#[macro_export]
macro_rules! bad {
    ($($a:tt)*) => { return Err($crate::rt::Fail::Violation(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::rt::Fail::Violation(format!($($a)*))) } };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

thread_local! {
    static PANIC_MSG: Cell<Option<String>> = const { Cell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub tier: Tier,
    pub describe: bool,
    pub desc: String,
    events: BTreeMap<&'static str, u64>,
    nontrivial: Vec<u64>,
    sample: Option<String>,
    budget: i64,
}

impl Case {
    fn new(prop: &str, seed: u64, idx: u64, tier: Tier, describe: bool) -> Self {
        let mut h = 0xcbf29ce484222325u64;
        for b in prop.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut x = h ^ seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (idx << 1);
        let s = crate::rng::splitmix(&mut x);
        Case {
            rng: Rng::new(s),
            idx,
            tier,
            describe,
            desc: String::new(),
            events: BTreeMap::new(),
            nontrivial: vec![],
            sample: None,
            budget: 256 << 20,
        }
    }
    /// Counts an observation.
    pub fn ev(&mut self, k: &'static str, n: u64) {
        *self.events.entry(k).or_default() += n;
    }
    /// Marks the case (or a part of it) non-trivial, under a hash that tells
    /// distinct ones apart.
    pub fn nontrivial(&mut self, h: u64) {
        self.nontrivial.push(h);
    }
    /// Text of the input, produced only when a case is replayed or sampled.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.describe {
            self.desc.push_str(&f());
            self.desc.push('\n');
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.idx < 3 && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    pub fn heap_budget(&mut self, bytes: i64) {
        self.budget = bytes;
    }
    /// A monitored call into the library: it must return normally, within its
    /// heap budget (and the CPU budget the supervisor keeps for the case).
    pub fn call<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Result<R, Fail> {
        self.ev("calls", 1);
        LIVE.with(|l| l.set(0));
        PEAK.with(|l| l.set(0));
        BUDGET.with(|b| b.set(self.budget));
        QUIET.with(|q| q.set(true));
        IN_CALL.with(|c| c.set(true));
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_CALL.with(|c| c.set(false));
        QUIET.with(|q| q.set(false));
        match r {
            Ok(v) => Ok(v),
            Err(_) => {
                let m = PANIC_MSG.with(|p| p.take()).unwrap_or_default();
                Err(Fail::Violation(format!("{what} panicked: {m}")))
            }
        }
    }
    /// What the last call left allocated on balance.
    pub fn last_kept(&self) -> i64 {
        LIVE.with(|l| l.get())
    }
    /// Peak of live heap during the last call.
    #[allow(dead_code)]
    pub fn last_peak(&self) -> i64 {
        PEAK.with(|p| p.get())
    }
}

pub fn hash_bytes<I: IntoIterator<Item = u64>>(it: I) -> u64 {
    let mut h = 0x243F6A8885A308D3u64;
    for v in it {
        h ^= v;
        h = h.wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// Number of cases per tier.
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Case) -> Out,
    /// Fewer non-trivial cases than this (quick tier) is inconclusive.
    pub min_nontrivial: u64,
    pub assumptions: &'static [&'static str],
    /// Single inputs, by key, run alone besides the cases: where one fails it
    /// is a violation, unless known_findings.txt lists its key.
    pub probes: &'static [(&'static str, fn(&mut Case) -> Out)],
}
impl Prop {
    pub const BASE: Prop = Prop { id: "", rule: "", quick: 0, thorough: 0, run: |_| Ok(()), min_nontrivial: 0, assumptions: &[], probes: &[] };
}

// ------------------------------------------------------------ known findings
/// known_findings.txt: lines `finding property=<id> key=<key> <what fails>`.
pub fn known(root: &Path, id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = fs::read_to_string(root.join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding ") {
                let mut w = r.splitn(3, ' ');
                let p = w.next().unwrap_or("");
                let k = w.next().unwrap_or("");
                let t = w.next().unwrap_or("");
                if p == format!("property={id}") {
                    if let Some(k) = k.strip_prefix("key=") {
                        v.push((k.to_string(), t.to_string()));
                    }
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- running
const WORKERS: usize = 8;
const STACK: usize = 8 << 20;
const CPU_LIMIT_S: f64 = 60.0;

struct Agg {
    events: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    samples: Vec<(u64, String)>,
    cases: u64,
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}");
        if QUIET.with(|q| q.get()) {
            // Not a library allocation: suspend metering while we record it.
            let was = IN_CALL.with(|c| c.replace(false));
            PANIC_MSG.with(|p| p.set(Some(msg)));
            IN_CALL.with(|c| c.set(was));
        } else {
            eprintln!("harness panic: {msg}");
        }
    }));
}

/// Case numbers from here on name the probes.
const PROBE: u64 = 1 << 62;

fn one(p: &Prop, seed: u64, idx: u64, tier: Tier, describe: bool) -> (Case, Out) {
    let mut c = Case::new(p.id, seed, idx, tier, describe);
    let f = if idx >= PROBE { p.probes[(idx - PROBE) as usize].1 } else { p.run };
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
    IN_CALL.with(|x| x.set(false));
    QUIET.with(|x| x.set(false));
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(Fail::Harness("the harness itself panicked".into())),
    };
    (c, r)
}

fn thread_cpu(tid: i64) -> Option<f64> {
    let s = fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let t: f64 = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
    Some(t / 100.0)
}

struct Slot {
    idx: AtomicU64,
    tid: AtomicU64,
    done: AtomicBool,
}

/// Child: runs all the cases. Exit 0 held, 1 violation (replay already
/// written), 2 harness error, 3 a case overran its CPU budget.
pub fn child(p: &'static Prop, seed: u64, tier: Tier, dir: &Path, cases: u64) -> i32 {
    install_hook();
    let journal = Arc::new(
        fs::OpenOptions::new()
            .create(true)
            .write(true)
            .truncate(true)
            .open(dir.join("journal"))
            .unwrap(),
    );
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let failure: Arc<Mutex<Option<(u64, Fail)>>> = Arc::new(Mutex::new(None));
    let agg = Arc::new(Mutex::new(Agg {
        events: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: vec![],
        cases: 0,
    }));
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..WORKERS)
            .map(|_| Slot {
                idx: AtomicU64::new(u64::MAX),
                tid: AtomicU64::new(0),
                done: AtomicBool::new(false),
            })
            .collect(),
    );
    let mut hs = vec![];
    for w in 0..WORKERS {
        let (journal, next, stop, failure, agg, slots) = (
            journal.clone(),
            next.clone(),
            stop.clone(),
            failure.clone(),
            agg.clone(),
            slots.clone(),
        );
        hs.push(
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    let slot = &slots[w];
                    slot.tid
                        .store(unsafe { libc::syscall(libc::SYS_gettid) } as u64, SeqCst);
                    let mut events: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut distinct = HashSet::new();
                    let mut samples = vec![];
                    let mut n = 0;
                    while !stop.load(Relaxed) {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= cases {
                            break;
                        }
                        slot.idx.store(i, SeqCst);
                        let _ = journal.write_all_at(&(i + 1).to_le_bytes(), w as u64 * 8);
                        let (c, r) = one(p, seed, i, tier, false);
                        n += 1;
                        for (k, v) in c.events {
                            *events.entry(k).or_default() += v;
                        }
                        distinct.extend(c.nontrivial);
                        if let Some(s) = c.sample {
                            samples.push((i, s));
                        }
                        if let Err(f) = r {
                            let mut g = failure.lock().unwrap();
                            // keep the failure with the smallest index
                            if g.as_ref().map_or(true, |(j, _)| i < *j) {
                                *g = Some((i, f));
                            }
                            stop.store(true, Relaxed);
                        }
                    }
                    let _ = journal.write_all_at(&0u64.to_le_bytes(), w as u64 * 8);
                    slot.done.store(true, SeqCst);
                    let mut a = agg.lock().unwrap();
                    for (k, v) in events {
                        *a.events.entry(k).or_default() += v;
                    }
                    a.distinct.extend(distinct);
                    a.samples.extend(samples);
                    a.cases += n;
                })
                .unwrap(),
        );
    }
    // CPU watchdog: judged on the thread's own CPU time, not on wall time.
    let mut since: Vec<(u64, f64)> = vec![(u64::MAX, 0.0); WORKERS];
    loop {
        if slots.iter().all(|s| s.done.load(SeqCst)) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        for (w, s) in slots.iter().enumerate() {
            if s.done.load(SeqCst) {
                continue;
            }
            let i = s.idx.load(SeqCst);
            if since[w].0 != i {
                since[w] = (
                    i,
                    thread_cpu(s.tid.load(SeqCst) as i64).unwrap_or(f64::MAX),
                );
            } else if let Some(t) = thread_cpu(s.tid.load(SeqCst) as i64) {
                if i != u64::MAX && t - since[w].1 > CPU_LIMIT_S {
                    let _ = fs::write(dir.join("overrun"), format!("{i}"));
                    return 3;
                }
            }
        }
    }
    for h in hs {
        let _ = h.join();
    }
    let a = agg.lock().unwrap();
    let mut s = String::from("{");
    let _ = write!(s, "\"cases\":{},\"distinct\":{},", a.cases, a.distinct.len());
    s.push_str("\"events\":{");
    for (i, (k, v)) in a.events.iter().enumerate() {
        let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, js(k), v);
    }
    s.push_str("},\"samples\":[");
    let mut sm = a.samples.clone();
    sm.sort();
    for (i, (k, v)) in sm.iter().take(3).enumerate() {
        let mut v = v.clone();
        if v.len() > 700 {
            let mut e = 700;
            while !v.is_char_boundary(e) {
                e -= 1;
            }
            v.truncate(e);
            v.push_str("...");
        }
        let _ = write!(
            s,
            "{}{}",
            if i > 0 { "," } else { "" },
            js(&format!("case {k}: {v}"))
        );
    }
    s.push_str("]}");
    fs::write(dir.join("stats.json"), s).unwrap();
    fs::write(
        dir.join("counts"),
        format!("{} {}", a.cases, a.distinct.len()),
    )
    .unwrap();
    let g = failure.lock().unwrap();
    match &*g {
        None => 0,
        Some((i, Fail::Violation(m))) => {
            fs::write(dir.join("failure"), format!("{i}\n{m}")).unwrap();
            1
        }
        Some((i, Fail::Harness(m))) => {
            eprintln!("harness error in case {i}: {m}");
            2
        }
    }
}

/// Runs one case, printing its input. Exit as `child`.
pub fn single(p: &'static Prop, seed: u64, tier: Tier, idx: u64) -> i32 {
    install_hook();
    let r = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let (c, r) = one(p, seed, idx, tier, true);
            (c.desc, r)
        })
        .unwrap()
        .join();
    match r {
        Ok((d, Ok(()))) => {
            println!("{d}case {idx}: held");
            0
        }
        Ok((d, Err(Fail::Violation(m)))) => {
            println!("{d}case {idx}: VIOLATED: {m}");
            1
        }
        Ok((d, Err(Fail::Harness(m)))) => {
            println!("{d}case {idx}: harness error: {m}");
            2
        }
        Err(_) => 2,
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

fn run_single(p: &Prop, seed: u64, tier: Tier, idx: u64, dir: &Path) -> (std::process::Output, bool) {
    let exe = std::env::current_exe().unwrap();
    let out = dir.join("single.out");
    let f = fs::File::create(&out).unwrap();
    let mut cmd = std::process::Command::new(exe);
    cmd.args([
        "single",
        p.id,
        &seed.to_string(),
        tier_name(tier),
        &idx.to_string(),
    ])
    .stdout(f.try_clone().unwrap())
    .stderr(f);
    unsafe {
        use std::os::unix::process::CommandExt;
        cmd.pre_exec(|| {
            let r = libc::rlimit {
                rlim_cur: 2 * CPU_LIMIT_S as u64,
                rlim_max: 2 * CPU_LIMIT_S as u64 + 5,
            };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
            let c = libc::rlimit {
                rlim_cur: 0,
                rlim_max: 0,
            };
            libc::setrlimit(libc::RLIMIT_CORE, &c);
            Ok(())
        });
    }
    let st = cmd.status().unwrap();
    let text = fs::read(&out).unwrap_or_default();
    let cpu = st.signal() == Some(libc::SIGXCPU) || st.signal() == Some(libc::SIGKILL);
    (
        std::process::Output {
            status: st,
            stdout: text,
            stderr: vec![],
        },
        cpu,
    )
}

/// How a case run alone broke the property, if it did.
fn fatal(o: &std::process::Output, cpu: bool, text: &str) -> Option<&'static str> {
    let crashed = matches!(o.status.signal(), Some(s) if s == libc::SIGSEGV || s == libc::SIGABRT || s == libc::SIGBUS || s == libc::SIGILL || s == libc::SIGFPE);
    let slow = cpu && o.status.signal() == Some(libc::SIGXCPU);
    if !crashed && !slow && o.status.code() != Some(1) {
        return None;
    }
    Some(if text.contains("overflowed its stack") {
        "stack overflow"
    } else if text.contains("memory allocation of") {
        "ran past its heap budget"
    } else if slow {
        "did not return within its CPU budget"
    } else if o.status.code() == Some(1) {
        "violated"
    } else {
        "crashed the process"
    })
}

fn report(root: &Path, p: &Prop, seed: u64, tier: Tier, idx: u64, msg: &str, detail: &str) -> i32 {
    let rd = root.join("replays");
    let _ = fs::create_dir_all(&rd);
    let rp = rd.join(format!("{}-{}-{}-{}.txt", p.id, tier_name(tier), seed, idx));
    let _ = fs::write(
        &rp,
        format!(
            "property {}\nseed {}\ntier {}\ncase {}\nreplay: cd /verif && ./check.sh replay {} {} {} {}\n\n{}\n\n{}\n",
            p.id, seed, tier_name(tier), idx, p.id, seed, tier_name(tier), idx, msg, detail
        ),
    );
    println!("{}", msg.chars().take(2000).collect::<String>());
    println!("VIOLATION property={} replay={}", p.id, rp.display());
    1
}

/// Parent: runs the child, turns its end into the verdict, writes evidence.
pub fn supervise(p: &'static Prop, seed: u64, tier: Tier, root: &Path) -> i32 {
    let t0 = Instant::now();
    let dir: PathBuf = std::env::temp_dir().join(format!("mon-{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let code = supervise_in(p, seed, tier, root, &dir, t0);
    let _ = fs::remove_dir_all(&dir);
    let _ = std::io::stdout().flush();
    code
}

fn supervise_in(
    p: &'static Prop,
    seed: u64,
    tier: Tier,
    root: &Path,
    dir: &Path,
    t0: Instant,
) -> i32 {
    let cases = match tier {
        Tier::Quick => p.quick,
        Tier::Thorough => p.thorough,
    };
    let cases = std::env::var("MON_CASES")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(cases);
    let exe = std::env::current_exe().unwrap();
    let mut ch = std::process::Command::new(exe)
        .args([
            "child",
            p.id,
            &seed.to_string(),
            tier_name(tier),
            dir.to_str().unwrap(),
            &cases.to_string(),
        ])
        .spawn()
        .unwrap();
    // Wall-clock cap of the whole run: firing is inconclusive.
    let cap = match tier {
        Tier::Quick => 600,
        Tier::Thorough => 3 * 3600,
    };
    let st = loop {
        if let Some(st) = ch.try_wait().unwrap() {
            break st;
        }
        if t0.elapsed() > Duration::from_secs(cap) {
            let _ = ch.kill();
            let _ = ch.wait();
            eprintln!("inconclusive: wall-clock cap of {cap} s");
            return 2;
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let mut violations = 0;
    let mut code;
    match st.code() {
        Some(0) => code = 0,
        Some(1) => {
            violations = 1;
            let f = fs::read_to_string(dir.join("failure")).unwrap_or_default();
            let (i, m) = f.split_once('\n').unwrap_or(("0", ""));
            let idx: u64 = i.parse().unwrap_or(0);
            let (o, _) = run_single(p, seed, tier, idx, dir);
            code = report(
                root,
                p,
                seed,
                tier,
                idx,
                &format!("case {idx}: {m}"),
                &String::from_utf8_lossy(&o.stdout),
            );
        }
        Some(2) => {
            eprintln!("inconclusive: harness error");
            return 2;
        }
        Some(3) => {
            let idx: u64 = fs::read_to_string(dir.join("overrun"))
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(0);
            let (o, cpu) = run_single(p, seed, tier, idx, dir);
            if cpu {
                violations = 1;
                code = report(
                    root,
                    p,
                    seed,
                    tier,
                    idx,
                    &format!("case {idx}: a library call did not return within {CPU_LIMIT_S} s of CPU time, twice; cases of this size take well under a second"),
                    &String::from_utf8_lossy(&o.stdout),
                );
            } else if o.status.code() == Some(1) {
                violations = 1;
                code = report(root, p, seed, tier, idx, &format!("case {idx}"), &String::from_utf8_lossy(&o.stdout));
            } else {
                eprintln!("inconclusive: case {idx} overran its CPU budget once");
                return 2;
            }
        }
        _ => {
            // Killed by a signal: which cases were in flight?
            let j = fs::read(dir.join("journal")).unwrap_or_default();
            let mut idxs: Vec<u64> = j
                .chunks_exact(8)
                .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
                .filter(|&v| v > 0)
                .map(|v| v - 1)
                .collect();
            idxs.sort();
            code = 2;
            for idx in idxs {
                let (o, cpu) = run_single(p, seed, tier, idx, dir);
                let text = String::from_utf8_lossy(&o.stdout).into_owned();
                if let Some(why) = fatal(&o, cpu, &text) {
                    violations = 1;
                    code = report(
                        root,
                        p,
                        seed,
                        tier,
                        idx,
                        &format!("case {idx}: {why} ({:?})", o.status),
                        &text,
                    );
                    break;
                }
            }
            if code == 2 {
                eprintln!("inconclusive: the run died ({st:?}) and no single case reproduces it");
                return 2;
            }
        }
    }
    if code == 0 {
        let listed = known(root, p.id);
        for (k, (key, _)) in p.probes.iter().enumerate() {
            let idx = PROBE + k as u64;
            let (o, cpu) = run_single(p, seed, tier, idx, dir);
            let text = String::from_utf8_lossy(&o.stdout).into_owned();
            match (fatal(&o, cpu, &text), listed.iter().find(|(n, _)| n == key)) {
                (Some(why), None) => {
                    violations = 1;
                    code = report(root, p, seed, tier, idx, &format!("{key}: {why}"), &text);
                    break;
                }
                (Some(_), Some((_, what))) => println!("KNOWN-FINDING: property={} {what}", p.id),
                (None, _) if o.status.code() == Some(0) => {}
                (None, _) => {
                    eprintln!("inconclusive: probe {key} ended with {:?}", o.status);
                    return 2;
                }
            }
        }
    }
    let counts = fs::read_to_string(dir.join("counts")).unwrap_or_default();
    let distinct: u64 = counts
        .split(' ')
        .nth(1)
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(0);
    if code == 0 && distinct < p.min_nontrivial.min(cases / 4) {
        eprintln!(
            "inconclusive: only {distinct} distinct non-trivial cases observed (need {})",
            p.min_nontrivial
        );
        code = 2;
    }
    let stats = fs::read_to_string(dir.join("stats.json"))
        .unwrap_or_else(|_| "{\"cases\":0,\"distinct\":0,\"events\":{},\"samples\":[]}".into());
    write_evidence(root, p, seed, tier, &stats, t0.elapsed().as_secs_f64(), violations);
    if code == 0 {
        println!(
            "{}: held on {} executions, {} distinct non-trivial ({:.1} s)",
            p.id,
            counts.split(' ').next().unwrap_or("?"),
            distinct,
            t0.elapsed().as_secs_f64()
        );
    }
    code
}

fn write_evidence(root: &Path, p: &Prop, seed: u64, tier: Tier, stats: &str, wall: f64, viol: u32) {
    let grab = |k: &str| -> String {
        let pat = format!("\"{k}\":");
        let at = stats.find(&pat).unwrap() + pat.len();
        let b = stats.as_bytes();
        let (mut i, mut depth, mut instr) = (at, 0i32, false);
        while i < b.len() {
            let c = b[i];
            if instr {
                if c == b'\\' {
                    i += 1
                } else if c == b'"' {
                    instr = false
                }
            } else {
                match c {
                    b'"' => instr = true,
                    b'{' | b'[' => depth += 1,
                    b'}' | b']' if depth > 0 => depth -= 1,
                    b',' | b'}' if depth == 0 => break,
                    _ => {}
                }
            }
            i += 1;
        }
        stats[at..i].to_string()
    };
    let mut asm: Vec<String> = p.assumptions.iter().map(|a| js(a)).collect();
    asm.push(js("verdict is about the executions run, on this machine's floating point"));
    let e = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"events\":{},\"samples\":{}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        js(p.id),
        js(tier_name(tier)),
        seed,
        grab("cases"),
        grab("distinct"),
        js(p.rule),
        grab("events"),
        grab("samples"),
        asm.join(","),
        wall,
        viol
    );
    let d = root.join("evidence");
    let _ = fs::create_dir_all(&d);
    fs::write(d.join(format!("{}.json", p.id)), e).unwrap();
}
