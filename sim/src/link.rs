//! The simulated connection: a `Read` source whose every return value is
//! decided by the run's tape.

use crate::cx::*;
use crate::{fail, logln};
use crate::seam;
use crate::world;
use mqtt_packet_3_5::PacketDecoder;
use std::io::{self, BufRead, BufReader, ErrorKind, Read};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stop {
    /// end of stream, forever
    Eof,
    /// end of stream once, then the stream continues
    EofOnce,
    /// error once, then the stream continues
    ErrOnce(ErrorKind),
    /// every further read fails
    Err(ErrorKind),
}

pub const ERR_KINDS: &[ErrorKind] = &[
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::ConnectionAborted,
    ErrorKind::BrokenPipe,
    ErrorKind::Other,
    ErrorKind::InvalidData,
    ErrorKind::UnexpectedEof,
    ErrorKind::NotConnected,
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Seg {
    Whole,
    Fixed(usize),
    Random(usize),
    /// split exactly at the marked offsets
    Marks,
    /// split one byte before or after the marked offsets
    NearMarks,
}

#[derive(Clone, Debug)]
pub struct Sched {
    pub seg: Seg,
    /// one read in n is interrupted first (0: never)
    pub eintr: u32,
    pub scribble: bool,
    pub delay: bool,
    /// capacity of the decoder's buffer, 0: library default
    pub cap: usize,
    pub prebuffer: bool,
    /// extra has-more queries before each decode
    pub polls: u32,
}

impl Sched {
    pub fn plain() -> Sched {
        Sched {
            seg: Seg::Whole,
            eintr: 0,
            scribble: false,
            delay: false,
            cap: 0,
            prebuffer: false,
            polls: 0,
        }
    }

    /// a delivery schedule for a stream of n bytes
    pub fn random(n: usize) -> Sched {
        let cap = new_number(6, 1 << 20).map(|c| c as usize);
        // keep the number of reads of a run bounded
        let least = n / 1500 + 1;
        let seg = match draw(8) {
            0 => Seg::Whole,
            1 | 2 => Seg::Fixed(least),
            3 => Seg::Random(least.max(1 + draw(4) as usize)),
            4 => Seg::Random(least.max(1 + draw(64) as usize)),
            5 => Seg::Fixed(least.max(2 + draw(16) as usize)),
            6 => Seg::Marks,
            _ => Seg::NearMarks,
        };
        Sched {
            seg,
            eintr: pick(&[0, 0, 2, 5, 20]),
            scribble: one_in(3),
            delay: coin(),
            cap: cap.unwrap_or_else(|| pick(&[0, 0, 1, 2, 3, 5, 7, 16, 64, 127, 128, 1024, 8192, 65536])),
            prebuffer: one_in(4),
            polls: pick(&[0, 0, 0, 1, 2]),
        }
    }
}

pub struct Link {
    pub data: Vec<u8>,
    pub pos: usize,
    /// number of bytes that have arrived, more only come if the peer goes on
    pub avail: usize,
    pub stops: Vec<(usize, Stop)>,
    pub end: Stop,
    pub sched: Sched,
    pub marks: Vec<usize>,
    pub reads: u64,
    pub budget: u64,
    /// the last stop that fired and how far the stream had got
    pub fired: Vec<(usize, Stop)>,
    /// choices come from here instead of the tape, so that the same delivery
    /// can be had twice
    pub private: Option<u64>,
    eintr_left: u32,
    frames: Vec<usize>,
}

impl Link {
    pub fn new(data: Vec<u8>, sched: Sched) -> Link {
        let n = data.len();
        Link {
            avail: n,
            budget: 200_000 + 8 * n as u64,
            data,
            pos: 0,
            stops: vec![],
            end: Stop::Eof,
            sched,
            marks: vec![],
            reads: 0,
            fired: vec![],
            private: None,
            eintr_left: 0,
            frames: vec![],
        }
    }
    /// offsets where packets start
    pub fn with_marks(mut self, m: Vec<usize>) -> Link {
        let mut m = m;
        m.sort_unstable();
        self.frames = m.clone();
        self.marks = m;
        self
    }
    fn inside(&self) -> bool {
        self.pos > 0 && self.frames.binary_search(&self.pos).is_err() && self.pos < self.data.len()
    }

    fn choice(&mut self, n: u32) -> u32 {
        match &mut self.private {
            None => draw(n),
            Some(s) => {
                *s = s.wrapping_add(0x9E3779B97F4A7C15);
                ((seam::mix(*s) >> 32).wrapping_mul(n as u64) >> 32) as u32
            }
        }
    }

    fn serve(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.reads > self.budget {
            fail!("hang", "more than {} reads for {} bytes", self.budget, self.data.len());
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.sched.eintr > 0 {
            if self.eintr_left > 0 {
                self.eintr_left -= 1;
                fault(F::Eintr);
                return Err(ErrorKind::Interrupted.into());
            }
            if self.choice(self.sched.eintr) == self.sched.eintr - 1 {
                self.eintr_left = if self.choice(100) == 99 { 10 + self.choice(150) } else { self.choice(3) };
                fault(F::Eintr);
                logln!("  read: EINTR at {}", self.pos);
                return Err(ErrorKind::Interrupted.into());
            }
        }
        let mut limit = self.avail.min(self.data.len());
        // pending stop?
        let stop = if let Some((at, s)) = self.stops.first().copied() {
            if self.pos >= at {
                Some(s)
            } else {
                limit = limit.min(at);
                None
            }
        } else if self.pos >= self.data.len() {
            Some(self.end)
        } else {
            None
        };
        if let Some(s) = stop {
            let inside = self.inside();
            self.fired.push((self.pos, s));
            event(11, self.pos as u64, (s == Stop::Eof) as u64);
            logln!("  read: {:?} at {}", s, self.pos);
            match s {
                Stop::Eof => {
                    fault(if inside { F::EofInside } else { F::Eof });
                    return Ok(0);
                }
                Stop::EofOnce => {
                    fault(F::EofThenMore);
                    if !self.stops.is_empty() {
                        self.stops.remove(0);
                    } else {
                        self.end = Stop::Eof;
                    }
                    return Ok(0);
                }
                Stop::ErrOnce(k) => {
                    fault(if inside { F::ErrInside } else { F::ErrOnce });
                    if !self.stops.is_empty() {
                        self.stops.remove(0);
                    } else {
                        self.end = Stop::Eof;
                    }
                    return Err(k.into());
                }
                Stop::Err(k) => {
                    fault(if inside { F::ErrInside } else { F::ErrForever });
                    return Err(k.into());
                }
            }
        }
        if self.pos >= limit {
            fail!(
                "deadlock",
                "the decoder asks for more than the {} bytes that were sent, while the peer waits for the answer to them",
                self.avail
            );
        }
        let max = (limit - self.pos).min(buf.len());
        let want = match self.sched.seg {
            Seg::Whole => max,
            Seg::Fixed(k) => k,
            Seg::Random(k) => 1 + self.choice(k as u32) as usize,
            Seg::Marks => self.to_mark(0),
            Seg::NearMarks => {
                let c = self.choice(2);
                self.to_mark(1 + c as i64)
            },
        };
        let n = want.clamp(1, max);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        if n < max {
            fault(F::ShortRead);
        }
        if self.sched.scribble && n < buf.len() {
            // a reader may use all of the buffer it is given
            let end = buf.len().min(n + 64);
            for (i, b) in buf[n..end].iter_mut().enumerate() {
                *b = (0xA5u8).wrapping_add(i as u8).wrapping_add(self.pos as u8);
            }
            fault(F::Scribble);
        }
        if self.sched.delay {
            let d = self.choice(4);
            if d > 0 {
                let us = match self.choice(60) {
                    // a device that sleeps
                    59 => [60_000_000, 3_600_000_000, 100_000_000_000][d as usize - 1],
                    k => [1, 50, 1000, 40_000, 5_000_000][k as usize % 5],
                };
                tick(us * d as u64);
                fault(F::Delay);
            }
        }
        count_read(n);
        event(10, n as u64, self.pos as u64);
        Ok(n)
    }

    /// distance to the next mark, moved by 1 if wanted
    fn to_mark(&self, shift: i64) -> usize {
        let s = match shift {
            1 => 1,
            2 => -1,
            _ => 0,
        };
        let i = self.marks.partition_point(|m| *m as i64 + s <= self.pos as i64);
        match self.marks.get(i) {
            Some(m) => (*m as i64 + s - self.pos as i64) as usize,
            None => usize::MAX,
        }
    }
}

thread_local! {
    /// what else a source does while it is asked for bytes: it may well use
    /// the library itself, for instance if it is a tunnel
    #[allow(clippy::type_complexity)]
    static MEANWHILE: std::cell::RefCell<Option<std::rc::Rc<dyn Fn()>>> = const { std::cell::RefCell::new(None) };
    static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn set_meanwhile(f: Option<std::rc::Rc<dyn Fn()>>) {
    DEPTH.with(|d| d.set(0));
    MEANWHILE.with(|m| *m.borrow_mut() = f);
}

fn meanwhile() {
    let f = MEANWHILE.with(|m| m.borrow().clone());
    if let Some(f) = f {
        let d = DEPTH.with(|d| d.get());
        if d < 3 && one_in(3) {
            fault(F::Nested);
            DEPTH.with(|x| x.set(d + 1));
            f();
            DEPTH.with(|x| x.set(d));
        }
    }
}

thread_local! {
    /// one read in n pauses
    static PAUSES: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
pub fn set_pauses(n: u32) {
    PAUSES.with(|p| p.set(n));
}
fn pause() {
    let n = PAUSES.with(|p| p.get());
    if n > 0 && one_in(n) {
        fault(F::StallRead);
        world::sleep(pick(&[10, 1000, 100_000]));
    }
}

#[derive(Clone)]
pub struct SimRead(pub Arc<Mutex<Link>>);

impl Read for SimRead {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let prev = seam::leave_lib();
        world::yield_point();
        pause();
        meanwhile();
        let r = {
            let mut l = match self.0.lock() {
                Ok(l) => l,
                Err(p) => p.into_inner(),
            };
            l.serve(buf)
        };
        seam::enter_lib(prev);
        r
    }
}

pub type Dec = PacketDecoder<SimRead>;

/// creates a decoder on a connection the way the schedule says
pub fn open(link: Link) -> (Dec, Arc<Mutex<Link>>) {
    let sched = link.sched.clone();
    let l = Arc::new(Mutex::new(link));
    let src = SimRead(l.clone());
    let dec = if sched.cap == 0 && !sched.prebuffer {
        seam::lib(|| PacketDecoder::from_stream(src))
    } else {
        let cap = if sched.cap == 0 { 8192 } else { sched.cap };
        if cap < 16 {
            fault(F::TinyBuffer);
        }
        let mut b = BufReader::with_capacity(cap, src);
        if sched.prebuffer && b.fill_buf().is_ok() && !b.buffer().is_empty() {
            fault(F::PreBuffered);
        }
        seam::lib(|| PacketDecoder::from_bufreader(b))
    };
    (dec, l)
}
