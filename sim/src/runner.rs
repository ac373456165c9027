//! Exploration of many runs, minimisation, replay and evidence.

use crate::cx::{self, Core, Tape, Violation, FAULT_NAMES, NF};
use crate::seam::{self, mix};
use std::any::Any;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(u32),
    /// number of runs of the quick tier
    pub quick: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub measure: &'static str,
}

/// the first choice of every run; run i gets i modulo this, so that rare
/// kinds of runs are spread evenly
pub const STRATA: u32 = 1000;

pub fn harness_error(m: &str) -> ! {
    eprintln!("HARNESS-ERROR: {}", m);
    println!("HARNESS-ERROR: {}", m);
    std::process::exit(2)
}

pub fn panic_text(e: &Box<dyn Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// what std gives a thread by default
const RUN_STACK: usize = 2 << 20;

pub struct RunResult {
    pub violation: Option<Violation>,
    pub core: Core,
}

static KNOWN: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
static KNOWN_HIT: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());

/// a violation that is reported, unless it is a listed finding
pub fn finding(class: &str, msg: String) {
    let known = match KNOWN.lock() {
        Ok(k) => k.iter().any(|x| x.0 == class),
        Err(_) => false,
    };
    if known {
        if let Ok(mut h) = KNOWN_HIT.lock() {
            *h.entry(class.to_string()).or_insert(0) += 1;
        }
    } else {
        cx::fail(class, msg)
    }
}

fn load_known(prop: &str) {
    let p = root().join("known-findings.txt");
    let Ok(t) = fs::read_to_string(p) else { return };
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let mut w = r.splitn(3, ' ');
            if w.next() == Some(prop) {
                if let (Some(k), Some(d)) = (w.next(), w.next()) {
                    if let (Some(k), Ok(mut g)) = (k.strip_prefix("key="), KNOWN.lock()) {
                        g.push((k.to_string(), d.to_string()));
                    }
                }
            }
        }
    }
}

fn root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()).into()
}

pub fn run_once(prop: &Prop, tape: Tape, verbose: bool) -> RunResult {
    let core = cx::new_core(tape, verbose);
    let c2 = core.clone();
    let f = prop.run;
    let h = std::thread::Builder::new()
        .stack_size(RUN_STACK)
        .spawn(move || {
            seam::set_thread_seed(0x5EED);
            seam::reset_counters();
            cx::install(c2);
            let r = std::panic::catch_unwind(|| {
                let stratum = cx::draw(STRATA);
                let hs = cx::draw(1 << 16);
                seam::set_thread_seed(mix(hs as u64));
                f(stratum)
            });
            let in_lib = seam::leave_lib();
            seam::set_yield_on_alloc(false);
            let v = match r {
                Ok(()) => None,
                Err(e) => match e.downcast::<Violation>() {
                    Ok(v) => Some(*v),
                    Err(e) => {
                        let m = panic_text(&e);
                        if !in_lib {
                            harness_error(&format!("panic in the harness: {}", m));
                        }
                        Some(Violation {
                            class: "panic".into(),
                            msg: format!("the library panicked: {}", m),
                        })
                    }
                },
            };
            cx::uninstall();
            v
        });
    let h = match h {
        Ok(h) => h,
        Err(e) => harness_error(&format!("cannot start thread: {}", e)),
    };
    let v = match h.join() {
        Ok(v) => v,
        Err(_) => harness_error("run thread died"),
    };
    let core = match Arc::try_unwrap(core) {
        Ok(m) => match m.into_inner() {
            Ok(c) => c,
            Err(p) => p.into_inner(),
        },
        // threads that wait for a lock for ever keep it
        Err(c) if v.is_some() => cx::take(&c),
        Err(_) => harness_error("run context still in use"),
    };
    let violation = if core.unjudged { None } else { v };
    RunResult { violation, core }
}

pub fn tape_of(prop: &Prop, seed: u64, i: u64) -> Tape {
    let mut s = mix(seed ^ 0xD1B54A32D192ED03);
    for b in prop.id.bytes() {
        s = mix(s ^ b as u64);
    }
    Tape::random(mix(s ^ i.wrapping_mul(0x9E3779B97F4A7C15)), vec![(i % STRATA as u64) as u32])
}

// ---------------------------------------------------------------- worker

struct Counts([u64; NF]);
impl Default for Counts {
    fn default() -> Counts {
        Counts([0; NF])
    }
}
impl std::ops::Deref for Counts {
    type Target = [u64; NF];
    fn deref(&self) -> &[u64; NF] {
        &self.0
    }
}
impl std::ops::DerefMut for Counts {
    fn deref_mut(&mut self) -> &mut [u64; NF] {
        &mut self.0
    }
}

#[derive(Default)]
struct Total {
    runs: u64,
    nontrivial: u64,
    events: u64,
    packets: u64,
    reads: u64,
    bytes: u64,
    time_us: u64,
    unjudged: u64,
    faults: Counts,
    fault_runs: Counts,
    probes: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    digest: u64,
    known: BTreeMap<String, u64>,
}

impl Total {
    fn add(&mut self, i: u64, c: &Core) {
        self.runs += 1;
        self.events += c.events;
        self.packets += c.packets;
        self.reads += c.reads;
        self.bytes += c.bytes;
        self.time_us = self.time_us.saturating_add(c.time_us);
        self.unjudged += c.unjudged as u64;
        for k in 0..NF {
            self.faults[k] += c.faults[k];
            self.fault_runs[k] += (c.faults[k] > 0) as u64;
        }
        for (p, n) in &c.probes {
            *self.probes.entry(p.to_string()).or_insert(0) += n;
        }
        let nontrivial = c.packets > 0 && c.faults.iter().any(|f| *f > 0);
        if nontrivial {
            if self.hashes.len() < HASHES && self.hashes.insert(c.hash) {
                self.nontrivial += 1;
            }
        }
        // independent of the order in which runs end
        self.digest = self.digest.wrapping_add(mix(c.hash ^ mix(i)));
    }
    fn merge(&mut self, o: Total) {
        self.runs += o.runs;
        self.events += o.events;
        self.packets += o.packets;
        self.reads += o.reads;
        self.bytes += o.bytes;
        self.time_us = self.time_us.saturating_add(o.time_us);
        self.unjudged += o.unjudged;
        for k in 0..NF {
            self.faults[k] += o.faults[k];
            self.fault_runs[k] += o.fault_runs[k];
        }
        for (p, n) in o.probes {
            *self.probes.entry(p).or_insert(0) += n;
        }
        for (p, n) in o.known {
            *self.known.entry(p).or_insert(0) += n;
        }
        self.digest = self.digest.wrapping_add(o.digest);
    }
    fn write(&self, w: &mut impl Write) {
        let _ = writeln!(
            w,
            "T {} {} {} {} {} {} {} {} {}",
            self.runs,
            self.nontrivial,
            self.events,
            self.packets,
            self.reads,
            self.bytes,
            self.time_us,
            self.unjudged,
            self.digest
        );
        for k in 0..NF {
            let _ = writeln!(w, "X {} {} {}", k, self.faults[k], self.fault_runs[k]);
        }
        for (p, n) in &self.probes {
            let _ = writeln!(w, "P {} {}", n, p);
        }
        for (p, n) in &self.known {
            let _ = writeln!(w, "N {} {}", n, p);
        }
    }
    fn read(t: &str) -> Option<Total> {
        let mut o = Total::default();
        let mut ok = false;
        for l in t.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            match f.first() {
                Some(&"T") => {
                    ok = true;
                    o.runs = n(1);
                    o.nontrivial = n(2);
                    o.events = n(3);
                    o.packets = n(4);
                    o.reads = n(5);
                    o.bytes = n(6);
                    o.time_us = n(7);
                    o.unjudged = n(8);
                    o.digest = n(9);
                }
                Some(&"X") => {
                    let k = n(1) as usize;
                    if k < NF {
                        o.faults[k] = n(2);
                        o.fault_runs[k] = n(3);
                    }
                }
                Some(&"P") => {
                    o.probes.insert(f[2..].join(" "), n(1));
                }
                Some(&"N") => {
                    o.known.insert(f[2..].join(" "), n(1));
                }
                _ => {}
            }
        }
        if ok {
            Some(o)
        } else {
            None
        }
    }
}

const HANG_SECS: u64 = 45;

fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("SIM_PANIC").is_ok() {
            eprintln!("{}", i);
        }
    }));
}

fn threads() -> usize {
    std::env::var("SIM_THREADS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16))
}

/// most hashes kept per worker
const HASHES: usize = 8 << 20;

/// Simulated threads hand over to each other all the time, which is several
/// times faster on one processor than across two.
fn pin(k: usize) {
    extern "C" {
        fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
        fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    }
    let mut m = [0u64; 16];
    let size = std::mem::size_of_val(&m);
    // of the calling thread; the threads it starts inherit it
    if unsafe { sched_getaffinity(0, size, m.as_mut_ptr()) } != 0 {
        return;
    }
    let cpus: Vec<usize> = (0..size * 8).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect();
    if cpus.is_empty() {
        return;
    }
    let c = cpus[k % cpus.len()];
    let mut one = [0u64; 16];
    one[c / 64] = 1 << (c % 64);
    let _ = unsafe { sched_setaffinity(0, size, one.as_ptr()) };
}

/// worker <prop> <seed> <runs> <seconds> <dir> <k> <n>: runs k, k+n, k+2n, ...
/// in this order on one thread, so that what a worker does is determined by
/// its arguments even if the library keeps something between runs
pub fn worker(prop: &'static Prop, a: &[String]) {
    quiet_panics();
    load_known(prop.id);
    let num = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let (seed, runs, secs, k, n) = (num(0), num(1), num(2), num(4), num(5));
    let dir = std::path::PathBuf::from(&a[3]);
    if matches!(prop.id, "C09" | "C14" | "C15") {
        pin(k as usize);
    }
    let start = Instant::now();
    // run, start of it in ms
    static BEGAN: (AtomicU64, AtomicU64) = (AtomicU64::new(u64::MAX), AtomicU64::new(0));
    static DONE: AtomicBool = AtomicBool::new(false);
    let open = || fs::OpenOptions::new().read(true).write(true).open(dir.join("status"));
    let status = match open() {
        Ok(f) => f,
        Err(e) => harness_error(&format!("status file: {}", e)),
    };
    // the lowest failing run so far is the first word of the status file
    let lowest = || {
        let mut b = [0u8; 8];
        match status.read_exact_at(&mut b, 0) {
            Ok(()) => u64::from_le_bytes(b),
            Err(_) => u64::MAX,
        }
    };
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if DONE.load(Ordering::SeqCst) {
            return;
        }
        let i = BEGAN.0.load(Ordering::SeqCst);
        let t = BEGAN.1.load(Ordering::SeqCst);
        if i != u64::MAX && start.elapsed().as_millis() as u64 > t + HANG_SECS * 1000 {
            println!("HANG {}", i);
            std::process::exit(97);
        }
    });
    let mut tot = Total::default();
    let mut failure = None;
    let mut i = k;
    while i < runs && start.elapsed().as_secs() < secs && lowest() >= i {
        BEGAN.1.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
        BEGAN.0.store(i, Ordering::SeqCst);
        let _ = status.write_at(&(i + 1).to_le_bytes(), 8 + k * 8);
        let r = run_once(prop, tape_of(prop, seed, i), false);
        BEGAN.0.store(u64::MAX, Ordering::SeqCst);
        tot.add(i, &r.core);
        if let Some(v) = r.violation {
            if i < lowest() {
                let _ = status.write_at(&i.to_le_bytes(), 0);
            }
            failure = Some((i, v));
            break;
        }
        i += n;
    }
    let _ = status.write_at(&0u64.to_le_bytes(), 8 + k * 8);
    DONE.store(true, Ordering::SeqCst);
    if let Ok(k) = KNOWN_HIT.lock() {
        tot.known = k.clone();
    }
    let mut bytes = Vec::with_capacity(tot.hashes.len() * 8);
    for h in &tot.hashes {
        bytes.extend(h.to_le_bytes());
    }
    if let Err(e) = fs::write(dir.join(format!("hashes{}", k)), bytes) {
        harness_error(&format!("cannot write hashes: {}", e));
    }
    let mut out = std::io::stdout().lock();
    tot.write(&mut out);
    if let Some((i, v)) = failure {
        let _ = writeln!(out, "FAIL {} {}", i, v.class);
        let _ = writeln!(out, "WHAT {}", v.msg.replace('\n', " | "));
    }
    let _ = writeln!(out, "OK");
}

/// history <prop> <seed> <from> <step> <to>: runs from, from+step, ..., to one
/// after another; exit 1 if the last one is the first to fail
pub fn history(prop: &'static Prop, a: &[String]) {
    quiet_panics();
    load_known(prop.id);
    let num = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    std::process::exit(run_history(prop, num(0), num(1), num(2).max(1), num(3), false, "") as i32);
}

fn run_history(prop: &'static Prop, seed: u64, from: u64, step: u64, to: u64, verbose: bool, want: &str) -> u32 {
    let mut i = from;
    while i <= to {
        let r = run_once(prop, tape_of(prop, seed, i), verbose && i == to);
        if let Some(v) = r.violation {
            for l in r.core.log.unwrap_or_default() {
                println!("  {}", l);
            }
            let hash = format!("{:016x}", r.core.hash);
            println!("what: {}", v.msg);
            println!("RUN {} class={} hash={}", i, v.class, hash);
            if verbose && i == to && (want.is_empty() || want == hash) {
                println!("execution identical");
            }
            return (i == to) as u32;
        }
        i += step;
    }
    println!("RUN ok");
    0
}

/// single <prop> <seed> <index>: exit 0 or 1, used to confirm crashes
pub fn single(prop: &'static Prop, a: &[String]) {
    quiet_panics();
    load_known(prop.id);
    let num = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let verbose = a.len() > 2;
    let r = run_once(prop, tape_of(prop, num(0), num(1)), verbose);
    if let Some(l) = &r.core.log {
        for x in l {
            println!("{}", x);
        }
        println!("hash={:016x} events={} packets={}", r.core.hash, r.core.events, r.core.packets);
    }
    match r.violation {
        None => println!("RUN ok"),
        Some(v) => {
            println!("RUN violation class={} {}", v.class, v.msg);
            std::process::exit(1)
        }
    }
}

/// what is left of a run in a process of its own
struct Seen {
    v: Violation,
    tape: Vec<u32>,
    hash: u64,
    log: Vec<String>,
}

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(secs: u32) -> u32;
}

/// A run in a process of its own: whatever it leaves behind in the library
/// (statics, locks that are never released) is gone with it. None if it does
/// not fail.
fn isolated(prop: &'static Prop, tape: Tape, verbose: bool) -> Option<Seen> {
    use std::os::fd::FromRawFd;
    let mut fds = [0i32; 2];
    if unsafe { pipe(fds.as_mut_ptr()) } != 0 {
        harness_error("no pipe");
    }
    // the only thread of this process
    let pid = unsafe { fork() };
    if pid < 0 {
        harness_error("cannot fork");
    }
    if pid == 0 {
        unsafe { alarm(HANG_SECS as u32) };
        let r = run_once(prop, tape, verbose);
        if let Some(v) = r.violation {
            let mut s = format!("{}\u{1}{}\u{1}{}\u{1}", v.class, v.msg, r.core.hash);
            for t in &r.core.tape.rec {
                s.push_str(&format!("{} ", t));
            }
            for l in r.core.log.unwrap_or_default() {
                s.push('\u{1}');
                s.push_str(&l);
            }
            let mut f = unsafe { fs::File::from_raw_fd(fds[1]) };
            let _ = f.write_all(s.as_bytes());
        }
        unsafe { _exit(0) }
    }
    drop(unsafe { fs::File::from_raw_fd(fds[1]) });
    let mut s = Vec::new();
    let _ = unsafe { fs::File::from_raw_fd(fds[0]) }.read_to_end(&mut s);
    let mut st = 0;
    unsafe { waitpid(pid, &mut st, 0) };
    if st >> 8 == 2 {
        print!("{}", String::from_utf8_lossy(&s));
        harness_error("in a run of its own");
    }
    let s = String::from_utf8_lossy(&s).into_owned();
    let mut p = s.split('\u{1}');
    let (class, msg, hash, tape) = (p.next()?, p.next()?, p.next()?, p.next()?);
    Some(Seen {
        v: Violation { class: class.to_string(), msg: msg.to_string() },
        hash: hash.parse().ok()?,
        tape: tape.split_whitespace().filter_map(|x| x.parse().ok()).collect(),
        log: p.map(|l| l.to_string()).collect(),
    })
}

/// minimize <prop> <seed> <index> <class> <file>
pub fn minimize(prop: &'static Prop, a: &[String]) {
    quiet_panics();
    load_known(prop.id);
    let num = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let (seed, idx, class, file) = (num(0), num(1), a[2].clone(), a[3].clone());
    let Some(first) = isolated(prop, tape_of(prop, seed, idx), false) else {
        harness_error("a failing run did not fail again: the simulation is not deterministic");
    };
    let orig = first.tape.len();
    let save = |tape: &Vec<u32>| {
        let Some(r) = isolated(prop, Tape::replay(tape.clone()), true) else {
            harness_error("a replayed run did not fail again: the simulation is not deterministic");
        };
        write_replay(&file, prop.id, seed, idx, &r.v, Some(tape), r.hash, r.log, orig);
    };
    let mut best = first.tape.clone();
    save(&best);
    let start = Instant::now();
    let mut tries = 0u32;
    let mut attempt = |t: Vec<u32>| -> Option<Vec<u32>> {
        if start.elapsed() > Duration::from_secs(25) || tries > 60000 {
            return None;
        }
        tries += 1;
        match isolated(prop, Tape::replay(t), false) {
            Some(r) if r.v.class == class => {
                let mut rec = r.tape;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                Some(rec)
            }
            _ => None,
        }
    };
    // smaller: shorter, or the same length with smaller values
    let better = |a: &Vec<u32>, b: &Vec<u32>| {
        (a.len(), a.iter().map(|x| *x as u64).sum::<u64>()) < (b.len(), b.iter().map(|x| *x as u64).sum::<u64>())
    };
    loop {
        let before = best.clone();
        for size in [512usize, 128, 32, 8, 4, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                // without this block
                let mut t = best.clone();
                t.drain(lo..i);
                match attempt(t) {
                    Some(n) if better(&n, &best) => {
                        best = n;
                        i = i.min(best.len());
                        continue;
                    }
                    _ => {}
                }
                if best[lo..i].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    for x in &mut t[lo..i] {
                        *x = 0;
                    }
                    if let Some(n) = attempt(t) {
                        if better(&n, &best) {
                            best = n;
                            i = i.min(best.len());
                        }
                    }
                }
                i = i.min(best.len()).saturating_sub(size).min(lo);
            }
        }
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            let (mut lo, mut hi) = (0, best[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                t[i] = mid;
                match attempt(t) {
                    Some(n) if better(&n, &best) => {
                        best = n;
                        hi = mid;
                    }
                    _ => lo = mid + 1,
                }
                if i >= best.len() {
                    break;
                }
            }
        }
        // one element less: a smaller count together with a block removed
        if best == before && best.len() <= 300 {
            let mut i = 0;
            'counts: while i < best.len() && i < 80 {
                if best[i] > 0 {
                    for size in 1..=12usize {
                        let mut j = i + 1;
                        while j + size <= best.len() && j < i + 40 {
                            let mut t = best.clone();
                            t[i] -= 1;
                            t.drain(j..j + size);
                            if let Some(n) = attempt(t) {
                                if better(&n, &best) {
                                    best = n;
                                    continue 'counts;
                                }
                            }
                            j += 1;
                        }
                    }
                }
                i += 1;
            }
        }
        if best == before || start.elapsed() > Duration::from_secs(25) {
            break;
        }
    }
    save(&best);
    println!("MINIMISED {} -> {} choices in {} attempts", orig, best.len(), tries);
}

#[allow(clippy::too_many_arguments)]
fn write_replay(
    file: &str,
    prop: &str,
    seed: u64,
    idx: u64,
    v: &Violation,
    tape: Option<&Vec<u32>>,
    hash: u64,
    log: Vec<String>,
    orig: usize,
) {
    let mut s = String::new();
    s.push_str(&format!("property={}\nseed={}\nrun={}\nclass={}\n", prop, seed, idx, v.class));
    s.push_str(&crate::words::line());
    if let Some(t) = tape {
        s.push_str(&format!("hash={:016x}\nchoices-before-minimisation={}\n", hash, orig));
        let l: Vec<String> = t.iter().map(|x| x.to_string()).collect();
        s.push_str(&format!("tape={}\n", l.join(" ")));
    }
    s.push_str(&format!("\nwhat: {}\n", v.msg));
    if !log.is_empty() {
        s.push_str("\nschedule, faults and results of the run:\n");
        let n = log.len();
        for (i, l) in log.iter().enumerate() {
            if n > 3000 && i > 1500 && i < n - 1500 {
                continue;
            }
            s.push_str(&format!("  {}\n", l));
        }
    }
    if let Err(e) = fs::write(file, s) {
        harness_error(&format!("cannot write {}: {}", file, e));
    }
}

pub fn replay(props: &'static [Prop], file: &str) {
    quiet_panics();
    let t = match fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => harness_error(&format!("cannot read {}: {}", file, e)),
    };
    let get = |k: &str| {
        t.lines()
            .find_map(|l| l.strip_prefix(&format!("{}=", k)))
            .map(|s| s.to_string())
    };
    let id = get("property").unwrap_or_default();
    let Some(prop) = props.iter().find(|p| p.id == id) else {
        harness_error("unknown property in the replay file (C17 is replayed by simstore)");
    };
    load_known(prop.id);
    crate::words::set(&get("words").unwrap_or_default());
    let n = |k: &str| get(k).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    if let Some(h) = get("history") {
        let w: Vec<u64> = h.split(' ').filter_map(|x| x.parse().ok()).collect();
        let hash = get("hash").unwrap_or_default();
        if w.len() == 3 && run_history(prop, n("seed"), w[0], w[1].max(1), w[2], true, &hash) == 1 {
            println!("reproduced: runs {} to {} in steps of {} in one process", w[0], w[2], w[1]);
            println!("VIOLATION property={} replay={}", prop.id, file);
            std::process::exit(1);
        }
        println!("the recorded violation does not occur");
        return;
    }
    let tape = match get("tape") {
        Some(s) => Tape::replay(s.split_whitespace().filter_map(|x| x.parse().ok()).collect()),
        None => tape_of(prop, n("seed"), n("run")),
    };
    let r = run_once(prop, tape, true);
    for l in r.core.log.unwrap_or_default() {
        println!("  {}", l);
    }
    let same = get("hash").map_or(true, |h| h == format!("{:016x}", r.core.hash));
    match r.violation {
        Some(v) => {
            println!("what: {}", v.msg);
            println!(
                "reproduced: class={} (recorded {}), execution {}",
                v.class,
                get("class").unwrap_or_default(),
                if same { "identical" } else { "differs from the recorded one" }
            );
            println!("VIOLATION property={} replay={}", prop.id, file);
            std::process::exit(1);
        }
        None => println!("the recorded violation does not occur"),
    }
}

// ---------------------------------------------------------------- supervisor

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Child {
    code: Option<i32>,
    out: String,
    timed_out: bool,
}

struct Running {
    child: std::process::Child,
    outf: std::path::PathBuf,
}

fn start_sub(args: &[String], name: &str) -> Running {
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(e) => harness_error(&format!("{}", e)),
    };
    let outf = scratch().join(format!("out-{}-{}", args[0], name));
    let f = match fs::File::create(&outf) {
        Ok(f) => f,
        Err(e) => harness_error(&format!("{}", e)),
    };
    match Command::new(exe).args(args).stdout(f).stderr(Stdio::null()).spawn() {
        Ok(child) => Running { child, outf },
        Err(e) => harness_error(&format!("cannot start worker: {}", e)),
    }
}

fn wait_sub(mut r: Running, until: Instant) -> Child {
    let mut timed_out = false;
    let code = loop {
        match r.child.try_wait() {
            Ok(Some(s)) => break s.code(),
            Ok(None) => {}
            Err(e) => harness_error(&format!("{}", e)),
        }
        if Instant::now() > until {
            timed_out = true;
            let _ = r.child.kill();
            let _ = r.child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let out = fs::read(&r.outf).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
    Child { code, out, timed_out }
}

fn sub(args: &[String], secs: u64) -> Child {
    wait_sub(start_sub(args, ""), Instant::now() + Duration::from_secs(secs))
}

fn scratch() -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("sim.{}", std::process::id()));
    let _ = fs::create_dir_all(&d);
    d
}

fn reproduces(file: &str) -> bool {
    let r = sub(&["replay".to_string(), file.to_string()], 300);
    r.code == Some(1) && r.out.contains("execution identical")
}

pub fn check(prop: &'static Prop, tier: &str) {
    let start = Instant::now();
    load_known(prop.id);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let scale: f64 = std::env::var("SIM_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let (runs, secs) = if tier == "thorough" {
        (prop.quick * 1000, 780)
    } else {
        ((prop.quick as f64 * scale) as u64, 150)
    };
    println!("{}: seed {}, up to {} simulated runs", prop.id, seed, runs);
    let dir = scratch();
    let s = |x: &dyn ToString| x.to_string();
    let n = threads() as u64;
    let mut st = vec![0xffu8; 8];
    st.extend(vec![0u8; 8 * n as usize]);
    if let Err(e) = fs::write(dir.join("status"), st) {
        harness_error(&format!("status file: {}", e));
    }
    let until = Instant::now() + Duration::from_secs(secs + HANG_SECS + 15);
    let ws: Vec<Running> = (0..n)
        .map(|k| {
            start_sub(
                &[s(&"worker"), s(&prop.id), s(&seed), s(&runs), s(&secs), s(&dir.display()), s(&k), s(&n)],
                &s(&k),
            )
        })
        .collect();
    let ws: Vec<Child> = ws.into_iter().map(|w| wait_sub(w, until)).collect();
    let mut failure: Option<(u64, String, String)> = None;
    let mut what = String::new();
    let mut tot = Total::default();
    let mut hashes: Vec<u64> = vec![];
    // runs in which a worker died or hung
    let mut died: Vec<u64> = vec![];
    let status = fs::read(dir.join("status")).unwrap_or_default();
    for (k, w) in ws.iter().enumerate() {
        if w.code == Some(0) && w.out.trim_end().ends_with("OK") {
            match Total::read(&w.out) {
                Some(t) => tot.merge(t),
                None => harness_error("no result from a worker"),
            }
            if let Ok(b) = fs::read(dir.join(format!("hashes{}", k))) {
                hashes.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])));
            }
            if let Some(l) = w.out.lines().find_map(|l| l.strip_prefix("FAIL ")) {
                let (i, c) = l.split_once(' ').unwrap_or((l, ""));
                let i = i.parse().unwrap_or(0);
                if failure.as_ref().map_or(true, |f| i < f.0) {
                    failure = Some((i, c.to_string(), String::new()));
                    what = w.out.lines().find_map(|l| l.strip_prefix("WHAT ")).unwrap_or("").to_string();
                }
            }
        } else if w.code == Some(2) {
            print!("{}", w.out);
            finish(&dir, 2);
        } else {
            let at = 8 + k * 8;
            let i = status.get(at..at + 8).map_or(0, |c| u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
            if i > 0 {
                died.push(i - 1);
            } else {
                println!("a worker ended with {:?}, timed out: {}", w.code, w.timed_out);
            }
        }
    }
    hashes.sort_unstable();
    hashes.dedup();
    tot.nontrivial = hashes.len() as u64;
    // a violation can be minimised, so it goes before a crash
    if failure.is_none() {
        died.sort_unstable();
        for i in &died {
            let i = *i;
            let r = sub(&[s(&"single"), s(&prop.id), s(&seed), s(&i)], HANG_SECS);
            match r.code {
                Some(0) => {}
                Some(1) => {
                    let c = r.out.split("class=").nth(1).and_then(|x| x.split(' ').next()).unwrap_or("").to_string();
                    failure = Some((i, c, String::new()));
                    break;
                }
                Some(2) => {
                    print!("{}", r.out);
                    finish(&dir, 2);
                }
                c => {
                    let (class, m) = if r.timed_out {
                        ("hang", format!("the run does not end within {} s of real time", HANG_SECS))
                    } else {
                        ("crash", format!("the process was ended by the library (exit {:?}): abort, stack or memory exhaustion", c))
                    };
                    failure = Some((i, class.to_string(), m));
                    break;
                }
            }
        }
        if failure.is_none() && ws.iter().any(|w| w.code != Some(0)) {
            println!("a worker ended early (runs {:?}), and no run repeats it", died);
            finish(&dir, 2);
        }
    }
    // report
    let mut replay_path = None;
    let mut void = false;
    if let Some((i, class, msg)) = &failure {
        let rd = root().join("replays");
        let _ = fs::create_dir_all(&rd);
        let file = rd.join(format!("{}-seed{}-run{}.txt", prop.id, seed, i));
        let _ = fs::remove_file(&file);
        let fstr = file.display().to_string();
        if msg.is_empty() {
            let m = sub(
                &[s(&"minimize"), s(&prop.id), s(&seed), s(i), s(class), fstr.clone()],
                120,
            );
            // in a fresh process
            let mut ok = m.code == Some(0) && reproduces(&fstr);
            if ok {
                print!("{}", m.out);
            } else {
                println!("run {} alone in a new process does not show the same: the library keeps something between runs", i);
                // the whole run, not minimised
                let r = sub(&[s(&"single"), s(&prop.id), s(&seed), s(i), s(&"v")], 60);
                if r.code == Some(1) {
                    let v = Violation { class: class.clone(), msg: "see the run below".into() };
                    write_replay(&fstr, prop.id, seed, *i, &v, None, 0, r.out.lines().map(|l| l.to_string()).collect(), 0);
                    ok = reproduces(&fstr);
                }
            }
            if !ok {
                // the shortest tail of the worker's runs that fails
                let k = *i % n;
                let mut m = 1u64;
                loop {
                    let from = if m * n > *i { k } else { *i - m * n };
                    let r = sub(&[s(&"history"), s(&prop.id), s(&seed), s(&from), s(&n), s(i)], 300);
                    if r.code == Some(1) {
                        let get = |p: &str| r.out.split(p).nth(1).and_then(|x| x.split_whitespace().next()).unwrap_or("").to_string();
                        let what = r.out.split("what: ").nth(1).unwrap_or("").to_string();
                        let t = format!(
                            "property={}\nseed={}\nrun={}\nclass={}\n{}hash={}\nhistory={} {} {}\n\nwhat: (only after the runs before it in the same process) {}\n",
                            prop.id, seed, i, get("class="), crate::words::line(), get("hash="), from, n, i, what
                        );
                        let _ = fs::write(&file, t);
                        ok = reproduces(&fstr);
                        break;
                    }
                    if from == k {
                        break;
                    }
                    m *= 4;
                }
            }
            if !ok && class == "blocked" {
                // seen by looking at the real threads, which a busy machine may stop for long
                println!("run {} looked blocked, and does not when it is repeated", i);
                void = true;
            } else if !ok {
                // choices, time, threads, hash seeds and reads are the simulator's, so it is the
                // library that does not do the same twice
                println!("the violation in run {} ({}) does not occur again: the library depends on something that is not in the run", i, class);
                let r = sub(&[s(&"single"), s(&prop.id), s(&seed), s(i), s(&"v")], 60);
                let v = Violation { class: class.clone(), msg: format!("{}\n(seen once; the library does not do the same when the run is repeated)", what) };
                write_replay(&fstr, prop.id, seed, *i, &v, None, 0, r.out.lines().map(|l| l.to_string()).collect(), 0);
            }
        } else {
            let v = Violation { class: class.clone(), msg: msg.clone() };
            write_replay(&fstr, prop.id, seed, *i, &v, None, 0, vec![], 0);
        }
        if let Ok(t) = fs::read_to_string(&file) {
            for l in t.lines().filter(|l| !l.starts_with("tape=")).take(60) {
                println!("{}", l);
            }
        }
        replay_path = Some(fstr);
    }
    if void {
        failure = None;
        replay_path = None;
    }
    for (k, d) in KNOWN.lock().map(|k| k.clone()).unwrap_or_default() {
        if tot.known.contains_key(&k) {
            println!("KNOWN-FINDING: property={} {} [{}]", prop.id, d, k);
        } else {
            println!("known finding {} was not observed in this run", k);
        }
    }
    let wall = start.elapsed().as_secs_f64();
    let samples: Vec<String> = if failure.is_none() {
        [3u64, 117, 431]
            .iter()
            .filter(|i| **i < runs)
            .map(|i| {
                let r = sub(&[s(&"single"), s(&prop.id), s(&seed), s(i), s(&"v")], 60);
                let mut t: Vec<&str> = r.out.lines().collect();
                if t.len() > 40 {
                    let l = t.len();
                    t = t[..25].iter().chain(t[l - 10..].iter()).copied().collect();
                }
                let t: Vec<String> = t.iter().map(|l| l.chars().take(300).collect()).collect();
                format!("run {} of seed {}:\n{}", i, seed, t.join("\n"))
            })
            .collect()
    } else {
        vec![format!("violation, see {}", replay_path.clone().unwrap_or_default())]
    };
    let mut e = String::from("{\n");
    e.push_str(&format!("  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n", esc(prop.id), esc(tier), seed));
    e.push_str("  \"coverage\": {\n");
    e.push_str(&format!("    \"evaluations\": {},\n", tot.runs));
    e.push_str(&format!("    \"distinct_nontrivial\": {},\n", tot.nontrivial));
    e.push_str(&format!("    \"rule\": {},\n", esc(&format!("{} A run counts as distinct and non-trivial if its event hash (every read size, fault, thread switch, decoder result) was not seen before, at least one packet was decoded and at least one fault or delivery perturbation fired.", prop.rule))));
    let f: Vec<String> = samples.iter().map(|x| esc(x)).collect();
    e.push_str(&format!("    \"samples\": [{}],\n", f.join(", ")));
    e.push_str(&format!("    \"simulated_runs_per_hour\": {},\n", (tot.runs as f64 / wall.max(0.001) * 3600.0) as u64));
    e.push_str(&format!("    \"seeds\": {},\n", esc(&format!("VERIF_SEED {}; one derived seed per run, {} per hour", seed, (tot.runs as f64 / wall.max(0.001) * 3600.0) as u64))));
    e.push_str(&format!("    \"simulated_time_s\": {:.3},\n", tot.time_us as f64 / 1e6));
    e.push_str(&format!("    \"events\": {},\n    \"packets_decoded\": {},\n    \"reads\": {},\n    \"bytes_delivered\": {},\n    \"runs_not_judged\": {},\n", tot.events, tot.packets, tot.reads, tot.bytes, tot.unjudged));
    let f: Vec<String> = (0..NF)
        .filter(|k| tot.faults[*k] > 0)
        .map(|k| format!("{}: {{\"fired\": {}, \"runs\": {}}}", esc(FAULT_NAMES[k]), tot.faults[k], tot.fault_runs[k]))
        .collect();
    e.push_str(&format!("    \"faults\": {{{}}},\n", f.join(", ")));
    let f: Vec<String> = tot.probes.iter().map(|(p, n)| format!("{}: {}", esc(p), n)).collect();
    e.push_str(&format!("    \"probes\": {{{}}},\n", f.join(", ")));
    e.push_str(&format!("    \"distinct_executions\": {},\n    \"distinct_executions_measure\": {},\n", tot.nontrivial, esc(prop.measure)));
    e.push_str(&format!("    \"real_code\": {},\n    \"stubbed\": {},\n", esc(prop.real), esc(prop.stub)));
    e.push_str(&format!("    \"digest\": {}\n", esc(&format!("{:016x}", tot.digest))));
    e.push_str("  },\n");
    e.push_str(&format!("  \"assumptions\": [{}],\n", esc("exploration by sampling: a clean batch is evidence, not proof; see DESIGN.md for what is taken as unspecified")));
    e.push_str(&format!("  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n", wall, failure.is_some() as u32));
    let ed = root().join("evidence");
    let _ = fs::create_dir_all(&ed);
    if let Err(x) = fs::write(ed.join(format!("{}.json", prop.id)), e) {
        harness_error(&format!("cannot write evidence: {}", x));
    }
    println!(
        "{}: {} runs, {} distinct, {} packets, {} reads, {:.1} s simulated, {:.1} s real, digest {:016x}",
        prop.id, tot.runs, tot.nontrivial, tot.packets, tot.reads, tot.time_us as f64 / 1e6, wall, tot.digest
    );
    match replay_path {
        Some(p) => {
            println!("VIOLATION property={} replay={}", prop.id, p);
            finish(&dir, 1)
        }
        None => {
            println!("{}: holds on everything explored", prop.id);
            finish(&dir, 0)
        }
    }
}

fn finish(dir: &std::path::Path, code: i32) -> ! {
    if dir.starts_with(std::env::temp_dir()) {
        let _ = fs::remove_dir_all(dir);
    }
    std::process::exit(code)
}

pub fn main(props: &'static [Prop]) {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let find = |id: &str| match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => harness_error(&format!("unknown property {}", id)),
    };
    match a.first().map(|s| s.as_str()) {
        Some("check") => check(find(&a[1]), a.get(2).map_or("quick", |s| s.as_str())),
        Some("worker") => worker(find(&a[1]), &a[2..]),
        Some("words") => crate::words::print(),
        Some("history") => history(find(&a[1]), &a[2..]),
        Some("single") => single(find(&a[1]), &a[2..]),
        Some("minimize") => minimize(find(&a[1]), &a[2..]),
        Some("replay") => replay(props, &a[1]),
        _ => harness_error("usage: sim check <property> <tier> | replay <file>"),
    }
}
