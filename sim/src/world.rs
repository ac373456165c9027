//! Simulated threads. Each is a real thread, but exactly one of them runs at
//! any time, and the tape decides which one is next at every scheduling
//! point. Time is simulated: when no thread can run, the clock jumps to the
//! next point in time some thread waits for.

use crate::cx::{self, event, fault, Abort, Shared, Violation, F};
use crate::seam;
use std::cell::{Cell, RefCell};
use std::sync::{Arc, Condvar, Mutex};
use std::thread::JoinHandle;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    /// waits for a notification of a channel, or for a point in time
    Wait(u64, Option<u64>),
    Done,
}

struct Inner {
    st: Vec<St>,
    /// why the last wait ended: true for a notification
    notified: Vec<bool>,
    cur: usize,
    now: u64,
    steps: u64,
    max_steps: u64,
    abort: bool,
    stuck: bool,
    failure: Option<Violation>,
    panic: Option<String>,
    /// kernel thread ids
    tids: Vec<u32>,
    /// a thread waits for a lock held by a suspended one
    blocked: bool,
    /// threads wait for a lock held by one that waits for its peer
    lock_held: bool,
    /// waits for locks that did not end in the rest of the run
    futile: u32,
    /// threads that will never come back from waiting for a lock
    lost: Vec<bool>,
}

pub struct World {
    m: Mutex<Inner>,
    cvs: Vec<Condvar>,
    main: Condvar,
    /// one in n scheduling points is a switch
    sticky: u32,
}

extern "C" {
    fn gettid() -> i32;
}

/// sleeps in the kernel, as opposed to running or waiting for a processor
fn sleeps(tid: u32) -> bool {
    let t = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    t.rsplit(')').next().and_then(|r| r.split_whitespace().next()) == Some("S")
}

const NONE: usize = usize::MAX;
const BLOCKED: St = St::Wait(u64::MAX - 1, None);
/// a lock of the library
const LOCK: u64 = 1 << 63;

fn waits_for_lock(s: &St) -> bool {
    matches!(s, St::Wait(k, None) if *k & LOCK != 0 && *k < u64::MAX - 1)
}

thread_local! {
    static ME: RefCell<Option<(Arc<World>, usize)>> = const { RefCell::new(None) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static ALLOC_EVERY: Cell<u32> = const { Cell::new(1) };
}

pub enum Outcome {
    /// every thread ended
    Finished,
    /// a thread waited for a lock that was held by one suspended in the
    /// library (the rest of the run was not judged)
    Blocked,
    /// a thread waited for a lock of the library while its holder waited for
    /// more bytes
    LockHeld,
    /// every remaining thread waits for something that will never come
    Stuck,
    StepLimit,
}

type Task = Box<dyn FnOnce()>;

/// Simulated threads run one at a time and hand over through a lock, so that
/// even what must not be shared between threads can be (whether it may is a
/// question C09 asks separately).
struct Alone(Task);
unsafe impl Send for Alone {}
impl Alone {
    fn go(self) {
        (self.0)()
    }
}


fn current() -> Option<(Arc<World>, usize)> {
    if !ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
        return None;
    }
    ME.with(|m| m.borrow().clone())
}

impl World {
    fn lock(&self) -> std::sync::MutexGuard<'_, Inner> {
        match self.m.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }

    /// picks the thread that runs next
    fn choose(&self, g: &mut Inner, me: usize) -> usize {
        loop {
            g.steps += 1;
            if g.steps > g.max_steps {
                g.abort = true;
            }
            if g.abort {
                // everybody in turn
                let n = g.st.len();
                let at = if me == NONE { n - 1 } else { me };
                let in_turn = |f: &dyn Fn(&St) -> bool| (1..=n).map(|d| (at + d) % n).find(|i| f(&g.st[*i]));
                return in_turn(&|s| *s != St::Done && *s != BLOCKED).or_else(|| in_turn(&|s| *s != St::Done)).unwrap_or(NONE);
            }
            let mut ready = vec![];
            for (i, s) in g.st.iter().enumerate() {
                if *s == St::Ready {
                    ready.push(i);
                }
            }
            if !ready.is_empty() {
                if self.sticky > 0 && ready.contains(&me) && !cx::one_in(self.sticky) {
                    return me;
                }
                let n = ready[cx::draw(ready.len() as u32) as usize];
                if n != me {
                    event(30, n as u64, g.now);
                }
                return n;
            }
            // nobody can run: jump to the next deadline
            let next = g
                .st
                .iter()
                .filter_map(|s| match s {
                    St::Wait(_, Some(t)) => Some(*t),
                    _ => None,
                })
                .min();
            if next.is_some() && g.st.iter().any(waits_for_lock) {
                g.lock_held = true;
                g.abort = true;
                continue;
            }
            match next {
                Some(t) => {
                    g.now = g.now.max(t);
                    cx::set_time(g.now);
                    for i in 0..g.st.len() {
                        if let St::Wait(_, Some(d)) = g.st[i] {
                            if d <= g.now {
                                g.st[i] = St::Ready;
                                g.notified[i] = false;
                            }
                        }
                    }
                }
                None => {
                    g.stuck = true;
                    g.abort = true;
                }
            }
        }
    }

    fn hand_over(&self, g: &mut Inner, me: usize) {
        let n = self.choose(g, me);
        g.cur = n;
        if n == NONE {
            self.main.notify_all();
        } else if n != me {
            self.cvs[n].notify_all();
        }
    }

    /// gives up the processor in state s, returns true if notified
    fn switch(&self, me: usize, s: St, may_unwind: bool) -> bool {
        let mut g = self.lock();
        if g.cur == me {
            g.st[me] = s;
            self.hand_over(&mut g, me);
        } else {
            // the scheduler had to go on without this thread
            g.st[me] = if g.abort { St::Ready } else { s };
        }
        if g.cur != me {
            fault(F::Switch);
        }
        while g.cur != me {
            g = match self.cvs[me].wait(g) {
                Ok(g) => g,
                Err(p) => p.into_inner(),
            };
        }
        if g.abort && may_unwind {
            drop(g);
            seam::leave_lib();
            seam::set_yield_on_alloc(false);
            ACTIVE.with(|a| a.set(false));
            std::panic::resume_unwind(Box::new(Abort));
        }
        g.st[me] = St::Ready;
        g.notified[me]
    }
}

/// runs the tasks to their end under the scheduler
pub fn run(tasks: Vec<Task>, sticky: u32, max_steps: u64, seed: u64) -> Outcome {
    let n = tasks.len();
    let w = Arc::new(World {
        m: Mutex::new(Inner {
            st: vec![St::Ready; n],
            notified: vec![false; n],
            cur: NONE,
            now: 0,
            steps: 0,
            max_steps,
            abort: false,
            stuck: false,
            failure: None,
            panic: None,
            tids: vec![0; n],
            blocked: false,
            lock_held: false,
            futile: 0,
            lost: vec![false; n],
        }),
        cvs: (0..n).map(|_| Condvar::new()).collect(),
        main: Condvar::new(),
        sticky,
    });
    let core: Shared = cx::shared();
    let mut handles: Vec<JoinHandle<()>> = vec![];
    for (i, t) in tasks.into_iter().enumerate() {
        let (w, core) = (w.clone(), core.clone());
        let t = Alone(t);
        let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
            seam::set_thread_seed(seam::mix(seed ^ (i as u64 + 1) << 20));
            cx::install(core);
            {
                let mut g = w.lock();
                g.tids[i] = unsafe { gettid() } as u32;
                while g.cur != i {
                    g = match w.cvs[i].wait(g) {
                        Ok(g) => g,
                        Err(p) => p.into_inner(),
                    };
                }
                if g.abort {
                    drop(g);
                    finish(&w, i, Ok(()));
                    return;
                }
            }
            ME.with(|m| *m.borrow_mut() = Some((w.clone(), i)));
            ACTIVE.with(|a| a.set(true));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || t.go()));
            ACTIVE.with(|a| a.set(false));
            finish(&w, i, r);
            ME.with(|m| *m.borrow_mut() = None);
            cx::uninstall();
        });
        match h {
            Ok(h) => handles.push(h),
            Err(e) => crate::runner::harness_error(&format!("cannot start thread: {}", e)),
        }
    }
    {
        let mut g = w.lock();
        let first = w.choose(&mut g, NONE);
        g.cur = first;
        if first != NONE {
            w.cvs[first].notify_all();
            let mut last = (g.steps, g.cur);
            let mut asleep = 0;
            while g.st.iter().any(|s| *s != St::Done) {
                let (g2, t) = match w.main.wait_timeout(g, Duration::from_millis(200)) {
                    Ok(x) => x,
                    Err(p) => p.into_inner(),
                };
                g = g2;
                if t.timed_out() && last == (g.steps, g.cur) && g.cur != NONE && sleeps(g.tids[g.cur]) {
                    asleep += 1;
                } else {
                    asleep = 0;
                }
                if asleep >= 8 {
                    // The running thread waits for a real lock a suspended one
                    // holds: let the others go on to the end of the run.
                    asleep = 0;
                    let c = g.cur;
                    if g.st.iter().enumerate().any(|(i, s)| i != c && *s == St::Ready) {
                        g.blocked = true;
                        g.abort = true;
                        cx::freeze();
                        g.st[c] = BLOCKED;
                        let n = g.st.iter().enumerate().position(|(i, s)| i != c && *s != St::Done).unwrap_or(c);
                        g.cur = n;
                        w.cvs[n].notify_all();
                    }
                }
                last = (g.steps, g.cur);
            }
        }
    }
    let lost = w.lock().lost.clone();
    for (h, lost) in handles.into_iter().zip(lost) {
        if !lost {
            let _ = h.join();
        }
    }
    let mut g = w.lock();
    if g.blocked {
        return Outcome::Blocked;
    }
    if let Some(v) = g.failure.take() {
        drop(g);
        std::panic::resume_unwind(Box::new(v));
    }
    if let Some(p) = g.panic.take() {
        drop(g);
        cx::fail("panic", p);
    }
    if g.lock_held {
        Outcome::LockHeld
    } else if g.stuck {
        Outcome::Stuck
    } else if g.steps > g.max_steps {
        Outcome::StepLimit
    } else {
        Outcome::Finished
    }
}

fn finish(w: &World, i: usize, r: Result<(), Box<dyn std::any::Any + Send>>) {
    let in_lib = seam::leave_lib();
    seam::set_yield_on_alloc(false);
    let mut g = w.lock();
    if let Err(e) = r {
        if e.downcast_ref::<Abort>().is_some() {
        } else if let Some(v) = e.downcast_ref::<Violation>() {
            if g.failure.is_none() {
                g.failure = Some(v.clone());
            }
            g.abort = true;
        } else {
            let m = crate::runner::panic_text(&e);
            if !in_lib {
                crate::runner::harness_error(&format!("panic in the harness: {}", m));
            }
            g.panic = Some(m);
            g.abort = true;
        }
    }
    g.st[i] = St::Done;
    if g.st.iter().all(|s| *s == St::Done) {
        g.cur = NONE;
        w.main.notify_all();
    } else if g.cur == i {
        w.hand_over(&mut g, i);
    }
}

/// another simulated thread may run now
pub fn yield_point() {
    if let Some((w, me)) = current() {
        w.switch(me, St::Ready, true);
    }
}

pub fn set_alloc_every(n: u32) {
    ALLOC_EVERY.with(|a| a.set(n));
}

pub fn alloc_yield() {
    if current().is_some() {
        let n = ALLOC_EVERY.with(|a| a.get());
        if cx::one_in(n) {
            fault(F::AllocSwitch);
            if let Some((w, me)) = current() {
                // unwinding out of an allocator is not allowed
                w.switch(me, St::Ready, false);
            }
        }
    }
}

/// waits for notify(key) or until the deadline; true if notified
pub fn wait(key: u64, deadline: Option<u64>) -> bool {
    match current() {
        Some((w, me)) => w.switch(me, St::Wait(key, deadline), true),
        None => false,
    }
}

pub fn notify(key: u64) {
    if let Some((w, _)) = current() {
        let mut g = w.lock();
        for i in 0..g.st.len() {
            if let St::Wait(k, _) = g.st[i] {
                if k == key {
                    g.st[i] = St::Ready;
                    g.notified[i] = true;
                }
            }
        }
    }
}

pub fn now() -> u64 {
    match current() {
        Some((w, _)) => w.lock().now,
        None => 0,
    }
}

pub fn sleep(us: u64) {
    let t = now() + us;
    wait(u64::MAX, Some(t));
}

thread_local! {
    /// upper bound of the distance between two switches, and how many are left
    static EDGES: Cell<(u32, u32)> = const { Cell::new((0, 0)) };
}

/// switches at edges of the library's control flow from now on
pub fn set_edges(gap: u32, budget: u32) {
    EDGES.with(|e| e.set((gap, budget)));
    seam::set_edges(if gap > 0 { next_edge(gap) } else { 0 });
}

fn next_edge(gap: u32) -> u32 {
    1 + cx::draw(if cx::one_in(8) { 6000 } else { gap })
}

/// in the middle of the library: returns the distance to the next call
#[allow(dead_code)]
pub fn edge_yield(shared: bool, left: u32) -> u32 {
    let Some((w, me)) = current() else { return 0 };
    let (gap, budget) = EDGES.with(|e| e.get());
    if budget == 0 {
        // only to let go of a processor that somebody may be waiting for
        if shared {
            return left;
        }
        w.switch(me, St::Ready, false);
        return 50_000;
    }
    if shared && !cx::coin() {
        return left;
    }
    EDGES.with(|e| e.set((gap, budget - 1)));
    fault(if shared { F::StaticSwitch } else { F::EdgeSwitch });
    w.switch(me, St::Ready, false);
    if shared {
        left
    } else {
        next_edge(gap)
    }
}

/// a lock of the library is taken: the simulated thread waits for it
#[allow(dead_code)]
pub fn futex_wait(addr: usize, val: u32, timed: bool) -> Option<i64> {
    let (w, me) = current()?;
    // the caller's own lock word
    if unsafe { (*(addr as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) } != val {
        return Some(-11);
    }
    fault(F::LockWait);
    let deadline = if timed { Some(w.lock().now + 1000) } else { None };
    let woken = w.switch(me, St::Wait(addr as u64 | LOCK, deadline), false);
    let mut g = w.lock();
    if g.abort {
        // the holder may be waiting, too
        g.futile += 1;
        if g.futile > 10_000 {
            g.lost[me] = true;
            g.st[me] = St::Done;
            w.hand_over(&mut g, me);
            if g.st.iter().all(|s| *s == St::Done) {
                g.cur = NONE;
                w.main.notify_all();
            }
            drop(g);
            loop {
                std::thread::park();
            }
        }
    }
    Some(if timed && !woken { -110 } else { 0 })
}

#[allow(dead_code)]
pub fn futex_wake(addr: usize, n: usize) -> Option<i64> {
    let (w, _) = current()?;
    let mut g = w.lock();
    let mut k = 0;
    for i in 0..g.st.len() {
        if k < n && matches!(g.st[i], St::Wait(key, _) if key == addr as u64 | LOCK) {
            g.st[i] = St::Ready;
            g.notified[i] = true;
            k += 1;
        }
    }
    Some(k as i64)
}
