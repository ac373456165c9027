//! Context of one simulated run: the tape every choice comes from, the event
//! log, fault counters, probes and the simulated clock.

use crate::seam::{self, mix};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

/// Every choice of a run. While exploring, choices come from a PRNG and are
/// recorded; while replaying they come from the recording, and are 0 (the
/// simplest choice everywhere) once it is used up.
pub struct Tape {
    rng: u64,
    pub rec: Vec<u32>,
    replay: Option<Vec<u32>>,
    forced: Vec<u32>,
    pos: usize,
}

impl Tape {
    pub fn random(seed: u64, forced: Vec<u32>) -> Tape {
        Tape {
            rng: seed,
            rec: vec![],
            replay: None,
            forced,
            pos: 0,
        }
    }
    pub fn replay(t: Vec<u32>) -> Tape {
        Tape {
            rng: 0,
            rec: vec![],
            replay: Some(t),
            forced: vec![],
            pos: 0,
        }
    }
    fn draw(&mut self, n: u32) -> u32 {
        let v = match &self.replay {
            Some(t) => t.get(self.pos).copied().unwrap_or(0).min(n - 1),
            None => match self.forced.get(self.pos) {
                Some(v) => (*v).min(n - 1),
                None => {
                    self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
                    let r = mix(self.rng);
                    ((r >> 32).wrapping_mul(n as u64) >> 32) as u32
                }
            },
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
}

macro_rules! faults {
    ($($id:ident $name:expr),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[allow(dead_code)]
        pub enum F { $($id),* }
        pub const FAULT_NAMES: &[&str] = &[$($name),*];
    }
}
faults! {
    ShortRead "short read",
    Eintr "read interrupted by a signal (EINTR)",
    Scribble "read leaves garbage behind the bytes it delivered",
    Eof "end of stream",
    EofInside "end of stream inside a packet",
    EofThenMore "end of stream, later more bytes",
    ErrOnce "read error, later more bytes",
    ErrForever "read error, persistent",
    ErrInside "read error inside a packet",
    Delay "delayed delivery (simulated time)",
    ClockJump "wall clock jumps (only if the library reads it)",
    ClockStep "time passes between two readings of a clock (only if the library reads one)",
    BitFlip "damaged byte",
    Malformed "malformed packet injected",
    Hostile "hostile length claim",
    Garbage "garbage bytes injected",
    TinyBuffer "decoder buffer smaller than 16 bytes",
    PreBuffered "bytes already buffered when the decoder is created",
    Nested "source that uses the library while it is read",
    ExtraPoll "extra has-more query",
    Stall "peer stalls until it got an answer",
    Refused "packet the encoder has to refuse",
    Switch "switch to another simulated thread",
    AllocSwitch "thread switch inside of encoder or decoder (allocation point)",
    EdgeSwitch "thread switch inside of encoder or decoder (between two blocks of its code)",
    StaticSwitch "thread switch before an access of the library to static memory",
    LockWait "simulated thread waits for a lock inside of the library",
    StallRead "peer pauses in the middle of a packet while other connections work",
    Cut "connection cut",
    CutInside "connection cut inside a packet",
    Crash "node crash and restart",
    TornWrite "torn write to the session store",
    LostWrite "unsynced write lost",
    Reconnect "reconnect",
    DiskError "disk full or failing write",
    ShortWrite "short write",
    WrongVersion "packet of another protocol version than announced",
}
pub const NF: usize = FAULT_NAMES.len();

pub struct Core {
    pub tape: Tape,
    pub hash: u64,
    pub events: u64,
    pub log: Option<Vec<String>>,
    pub faults: [u64; NF],
    pub probes: BTreeMap<&'static str, u64>,
    pub time_us: u64,
    /// what the library's clocks show at the start of the run: since when the
    /// machine runs, and the wall clock; drawn when it reads one
    pub clocks: Option<(u64, u64)>,
    pub packets: u64,
    pub reads: u64,
    pub bytes: u64,
    pub unjudged: bool,
    /// nothing is drawn or noted any more
    pub frozen: bool,
    /// values that were used in this run, to be used again
    pub texts: Vec<String>,
    pub alike: Option<bool>,
    pub ids: Vec<u16>,
    pub past: Vec<(u8, u32, mqtt_packet_3_5::MqttPacket)>,
}

pub type Shared = Arc<Mutex<Core>>;

thread_local! {
    static CX: RefCell<Option<Shared>> = const { RefCell::new(None) };
}

pub fn new_core(tape: Tape, verbose: bool) -> Shared {
    Arc::new(Mutex::new(Core {
        tape,
        hash: 0xcbf29ce484222325,
        events: 0,
        log: if verbose { Some(vec![]) } else { None },
        faults: [0; NF],
        probes: BTreeMap::new(),
        time_us: 0,
        clocks: None,
        packets: 0,
        reads: 0,
        bytes: 0,
        unjudged: false,
        frozen: false,
        texts: vec![],
        alike: None,
        ids: vec![],
        past: vec![],
    }))
}

pub fn take(c: &Shared) -> Core {
    let fresh = match Arc::try_unwrap(new_core(Tape::replay(vec![]), false)) {
        Ok(m) => m.into_inner().unwrap_or_else(|p| p.into_inner()),
        Err(_) => unreachable!(),
    };
    let mut g = match c.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    };
    std::mem::replace(&mut g, fresh)
}

pub fn install(c: Shared) {
    CX.with(|x| *x.borrow_mut() = Some(c));
}
pub fn uninstall() {
    CX.with(|x| *x.borrow_mut() = None);
}
pub fn shared() -> Shared {
    CX.with(|x| x.borrow().as_ref().expect("no run").clone())
}
fn with<T>(f: impl FnOnce(&mut Core) -> T) -> T {
    CX.with(|x| {
        let b = x.borrow();
        let mut g = match b.as_ref().expect("no run").lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
        f(&mut g)
    })
}

/// the values of this run
pub fn run_values<T>(f: impl FnOnce(&mut Core) -> T) -> T {
    with(f)
}
/// a choice in 0..n; 0 is the simplest
pub fn draw(n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    with(|c| if c.frozen { 0 } else { c.tape.draw(n) })
}
/// true in about one of n runs
pub fn one_in(n: u32) -> bool {
    draw(n) == n - 1
}
pub fn coin() -> bool {
    draw(2) == 1
}
pub fn range(lo: u32, hi: u32) -> u32 {
    lo + draw(hi - lo + 1)
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[draw(xs.len() as u32) as usize]
}
/// parts of a number: the ends of their range and anything
fn part(bits: u32) -> u32 {
    let top = (1 << bits) - 1;
    match draw(8) {
        0 | 1 => 0,
        2 => 1,
        3 => top,
        4 => pick(&[top - 1, top / 2, top / 2 + 1]),
        _ => draw(top + 1),
    }
}
/// now and then a number at or next to a constant that is new in the sources
pub fn new_number(n: u32, max: u32) -> Option<u32> {
    let w = &crate::words::get().numbers;
    if w.is_empty() || !one_in(n) {
        return None;
    }
    let v = w[draw(w.len() as u32) as usize];
    let v = match draw(4) {
        0 => v.saturating_add(1),
        1 => v.saturating_sub(1),
        _ => v,
    };
    Some(v).filter(|v| *v <= max)
}
/// now and then a text that is new in the sources
pub fn new_text(n: u32) -> Option<String> {
    let w = &crate::words::get().texts;
    if w.is_empty() || !one_in(n) {
        return None;
    }
    let t = &w[draw(w.len() as u32) as usize];
    Some(match draw(6) {
        0 => format!("{}x", t),
        1 => format!("x{}", t),
        2 => format!("a/{}/b", t),
        _ => t.clone(),
    })
}
pub fn u16_val() -> u16 {
    if let Some(v) = new_number(4, 65535) {
        return v as u16;
    }
    match draw(7) {
        6 => (part(8) << 8 | part(8)) as u16,
        0 => range(0, 9) as u16,
        1 => pick(&[255, 256, 127, 128, 65535, 65534, 32767, 32768]) as u16,
        _ => draw(65536) as u16,
    }
}
/// a number with a variable length of one to four groups
pub fn var_val() -> u32 {
    if let Some(v) = new_number(4, (1 << 28) - 1) {
        return v;
    }
    let k = 1 + draw(4);
    (0..k).fold(0, |n, _| n << 7 | part(7))
}
pub fn u32_val() -> u32 {
    if let Some(v) = new_number(3, u32::MAX) {
        return v;
    }
    match draw(8) {
        6 => part(16) << 16 | part(16),
        7 => part(8) << 24 | part(8) << 16 | part(8) << 8 | part(8),
        0 => draw(10),
        1 => pick(&[255, 256, 65535, 65536, 16777215, 16777216, u32::MAX, u32::MAX - 1, 1 << 31]),
        _ => (draw(65536) << 16) | draw(65536),
    }
}

/// notes an event; the hash over all of them identifies the execution
pub fn event(kind: u64, a: u64, b: u64) {
    with(|c| {
        if c.frozen {
            return;
        }
        c.events += 1;
        c.hash = mix(c.hash ^ mix(kind.wrapping_mul(31) ^ mix(a) ^ mix(b).rotate_left(17)));
    })
}
pub fn fault(f: F) {
    with(|c| {
        if c.frozen {
            return;
        }
        c.faults[f as usize] += 1;
        c.hash = mix(c.hash ^ (f as u64 + 7));
    })
}
pub fn probe(p: &'static str) {
    with(|c| *c.probes.entry(p).or_insert(0) += 1)
}
pub fn tick(us: u64) {
    with(|c| c.time_us = c.time_us.saturating_add(us))
}
pub fn set_time(us: u64) {
    with(|c| c.time_us = c.time_us.max(us))
}
/// what a clock shows the library, in microseconds. Time may pass from one
/// reading to the next, and a wall clock be set
pub fn clock(wall: bool) -> u64 {
    const S: u64 = 1_000_000;
    if CX.try_with(|x| x.borrow().is_none()).unwrap_or(true) {
        return 1000 * S;
    }
    probe("clock read by the library");
    if with(|c| c.clocks.is_none()) {
        let up = pick(&[1000, 5, 86_400, 40 * 86_400]) * S;
        // a device without battery, today, and behind the ends of some counters
        let date = pick(&[1_790_000_000, 3, 1_704_067_199, 2_147_483_646, 4_294_967_294]) * S;
        with(|c| c.clocks = Some((up, date)));
    }
    if one_in(4) {
        let us = pick(&[1, 1000, 40_000, S, 10 * S, 100 * S, 3600 * S, 72 * 3600 * S]);
        tick(us);
        fault(F::ClockStep);
    }
    if wall && one_in(6) {
        let d = pick(&[S, 3600 * S, 86_400 * S, 365 * 86_400 * S]);
        let ahead = coin();
        with(|c| {
            if let Some((_, date)) = c.clocks.as_mut() {
                *date = if ahead { *date + d } else { date.saturating_sub(d + c.time_us) };
            }
        });
        fault(F::ClockJump);
    }
    with(|c| {
        let (up, date) = c.clocks.unwrap_or((0, 0));
        c.time_us + if wall { date } else { up }
    })
}
/// the library sleeps
pub fn slept(us: u64) {
    if CX.try_with(|x| x.borrow().is_some()).unwrap_or(false) {
        probe("library sleeps");
        tick(us);
    }
}
pub fn count_packet() {
    with(|c| c.packets += 1)
}
pub fn count_read(n: usize) {
    with(|c| {
        c.reads += 1;
        c.bytes += n as u64;
    })
}
pub fn freeze() {
    with(|c| c.frozen = true)
}
pub fn set_unjudged() {
    with(|c| c.unjudged = true)
}
pub fn verbose() -> bool {
    with(|c| c.log.is_some())
}
pub fn log(s: String) {
    with(|c| {
        if c.frozen {
            return;
        }
        if let Some(l) = c.log.as_mut() {
            l.push(s)
        }
    })
}
#[macro_export]
macro_rules! logln {
    ($($a:tt)*) => { if $crate::cx::verbose() { $crate::cx::log(format!($($a)*)) } }
}

/// a violated property
#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}
/// unwinds a simulated thread whose run is over
pub struct Abort;

pub fn fail(class: &str, msg: String) -> ! {
    seam::leave_lib();
    seam::set_yield_on_alloc(false);
    std::panic::resume_unwind(Box::new(Violation {
        class: class.to_string(),
        msg,
    }))
}
#[macro_export]
macro_rules! fail {
    ($class:expr, $($a:tt)*) => { $crate::cx::fail($class, format!($($a)*)) }
}

/// short printable form of a value for logs and reports
pub fn short<T: std::fmt::Debug>(v: &T) -> String {
    let s = format!("{:?}", v);
    if s.len() > 1500 {
        let mut e = 1500;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}... ({} chars)", &s[..e], s.len())
    } else {
        s
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(200) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 200 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
