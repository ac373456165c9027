//! C23: what stays allocated. Long connections, many connections and many
//! packets sent, with faults of all kinds; what the caller has dropped and what
//! is over has to be free again. The allocator's seam keeps the balance of all
//! blocks the library's calls have taken and given back.

use crate::cx::*;
use crate::gen::{self, version, Size};
use crate::link::*;
use crate::refcodec;
use crate::seam::{self, lib};
use crate::util::*;
use crate::{fail, logln};
use mqtt_packet_3_5::*;
use std::collections::VecDeque;

/// bytes that may stay allocated: once, per byte of the largest packet so far
/// (a buffer that is used again), per packet the caller holds and per byte of it
const ONCE: usize = 32 * 1024;
const LARGEST: usize = 4;
const HELD: [usize; 2] = [2048, 64];
/// once everything is dropped
const AFTER: isize = 8 * 1024;

/// the i-th packet of a kind: what is likely to be remembered is different in each
fn vary(p: &mut MqttPacket, i: usize, v: u8) {
    let id = (i % 65535 + 1) as u16;
    let name = format!("{}{}", ["t/", "client-", "x"][i % 3], i);
    let props = |u: Option<&mut UserProperties>| {
        if let Some(u) = u {
            if i % 2 == 0 {
                u.insert(format!("n{}", i), vec![format!("v{}", i)]);
            }
        }
    };
    match p {
        MqttPacket::Connect(c) => {
            c.client_id = name.clone();
            if c.user_name.is_some() {
                c.user_name = Some(format!("user{}", i));
            }
            if let Some(w) = &mut c.will {
                w.topic = Some(name);
            }
            props(c.properties.as_mut().map(|x| &mut x.user_properties))
        }
        MqttPacket::Publish(c) => {
            if !c.topic.is_empty() {
                c.topic = name;
            }
            if c.qos > 0 {
                c.message_id = Some(id);
            }
            if let Some(x) = &mut c.properties {
                if x.topic_alias.is_some() {
                    x.topic_alias = Some(id);
                }
                if !x.correlation_data.is_empty() {
                    x.correlation_data = i.to_be_bytes().to_vec();
                }
            }
            props(c.properties.as_mut().map(|x| &mut x.user_properties))
        }
        MqttPacket::Puback(c) | MqttPacket::Pubrec(c) | MqttPacket::Pubrel(c) | MqttPacket::Pubcomp(c) => {
            c.message_id = id;
            props(c.properties.as_mut().map(|x| &mut x.user_properties))
        }
        MqttPacket::Subscribe(c) => {
            c.message_id = id;
            if let Some(s) = c.subscriptions.first_mut() {
                s.topic = name;
            }
        }
        MqttPacket::Unsubscribe(c) => {
            c.message_id = id;
            if let Some(s) = c.unsubscriptions.first_mut() {
                *s = name;
            }
        }
        MqttPacket::Suback(c) => c.message_id = id,
        MqttPacket::Unsuback(c) => c.message_id = id,
        MqttPacket::Disconnect(c) if v == 5 => props(c.properties.as_mut().map(|x| &mut x.user_properties)),
        _ => {}
    }
}

struct Pool {
    v: u8,
    pkts: Vec<MqttPacket>,
    /// damaged frames: one in n, 0 for none
    bad: u32,
    junk: Vec<Vec<u8>>,
    different: bool,
    seed: u64,
}

impl Pool {
    fn new(v: u8) -> Pool {
        let s = if one_in(6) {
            Size { text: 300, payload: 2000, list: 8, edges: false }
        } else {
            Size::small()
        };
        let n = pick(&[1u32, 1, 2, 4, 12, 30]);
        let pkts = (0..n).map(|_| gen::packet(v, s)).collect();
        let bad = pick(&[0u32, 0, 1, 2, 5, 20]);
        let mut junk = vec![];
        if bad > 0 {
            for _ in 0..pick(&[1u32, 1, 3, 10]) {
                let p = gen::packet(v, s);
                junk.push(damage(v, &refcodec::foreign(&p, v)));
                logln!("junk {}", hex(junk.last().map_or(&[], |j| j)));
            }
        }
        Pool { v, pkts, bad, junk, different: !one_in(4), seed: draw(1 << 30) as u64 }
    }
    fn packet(&self, i: usize) -> MqttPacket {
        let k = seam::mix((self.seed << 24) ^ i as u64) as usize;
        let mut p = self.pkts[k % self.pkts.len()].clone();
        if self.different {
            vary(&mut p, i, self.v);
        }
        p
    }
    fn frame(&self, i: usize) -> Vec<u8> {
        let k = (seam::mix((self.seed << 24) ^ i as u64) >> 32) as u32;
        if self.bad > 0 && k % self.bad == 0 {
            let mut f = self.junk[(k / self.bad) as usize % self.junk.len()].clone();
            if self.different {
                // the end of it is where it matters least
                let n = f.len();
                for (j, b) in (i as u32).to_be_bytes().iter().enumerate() {
                    if n > 12 {
                        f[n - 4 + j] ^= b;
                    }
                }
            }
            return f;
        }
        refcodec::foreign(&self.packet(i), self.v)
    }
}

/// checks the balance against what may be in use
fn check(what: &str, base: isize, largest: usize, held: (usize, usize), done: &str) {
    let now = seam::live() - base;
    let bound = (ONCE + LARGEST * largest + HELD[0] * held.0 + HELD[1] * held.1) as isize;
    if now > bound {
        fail!(
            "kept",
            "{}: {} bytes stay allocated, the caller holds {} packets of {} bytes and the largest so far had {} bytes (bound {}); so far {}",
            what, now, held.0, held.1, largest, bound, done
        );
    }
}

fn close(dec: Dec) {
    lib(|| drop(dec))
}

/// one connection that lasts
fn session(n: usize, pool: &Pool) {
    let v = pool.v;
    let mut data = vec![];
    let mut ends = vec![];
    for i in 0..n {
        let f = pool.frame(i);
        data.extend(f);
        ends.push(data.len());
    }
    let total = data.len();
    let mut sched = Sched::random(total);
    sched.prebuffer = false;
    sched.cap = pick(&[0usize, 0, 64, 1024]);
    // it goes on too long for more of it
    if n > 5000 {
        sched.eintr = 0;
        sched.delay = false;
    }
    let polls = sched.polls;
    logln!("{} frames, {} bytes, delivery {:?}", n, total, sched);
    let mut link = Link::new(data, sched).with_marks(ends.clone());
    let mut errors = 0;
    if one_in(2) {
        let kind = pick(ERR_KINDS);
        let mut stops = vec![];
        // where a packet ends the connection goes on afterwards
        for _ in 0..draw(40) {
            let i = draw(n as u32) as usize;
            stops.push((ends[i], pick(&[Stop::ErrOnce(kind), Stop::EofOnce])));
        }
        stops.sort_by_key(|s| s.0);
        errors = stops.len();
        link.stops = stops;
        link.end = pick(&[Stop::Eof, Stop::Err(kind)]);
        if one_in(3) {
            // everything after this one fails
            let at = draw(total as u32) as usize;
            link.stops.push((at, Stop::ErrOnce(kind)));
            link.stops.sort_by_key(|s| s.0);
            errors += 1;
        }
    }
    let before = seam::live();
    let (mut dec, _l) = open(link);
    let base = seam::live();
    let window = pick(&[0usize, 0, 0, 1, 10, 100]);
    let mut held: VecDeque<(MqttPacket, usize)> = VecDeque::new();
    held.reserve(window + 2);
    let mut held_bytes = 0;
    let mut largest = 0;
    let mut calls = 0;
    let mut refused = 0;
    let extra = pick(&[10usize, 10, 2000]);
    while calls < n + errors + extra {
        if polls > 0 || one_in_cheap(calls, 8) {
            poll(&mut dec, polls.min(1));
        }
        // the results are dropped where the balance is kept
        let len = |i: usize| match i {
            0 => ends.first().copied().unwrap_or(0),
            i if i < ends.len() => ends[i] - ends[i - 1],
            _ => 0,
        };
        let size = len(calls);
        largest = largest.max(size);
        let ok = if window > 0 {
            let r = lib(|| dec.decode_packet(v).ok());
            match r {
                Some(p) => {
                    // which frame it was is not known after a failure
                    let b = if errors == 0 { size } else { largest };
                    held.push_back((p, b));
                    held_bytes += b;
                    true
                }
                None => false,
            }
        } else {
            lib(|| dec.decode_packet(v).is_ok())
        };
        calls += 1;
        event(if ok { 1 } else { 2 }, 0, 0);
        if ok {
            count_packet();
        } else {
            refused += 1;
        }
        if held.len() > window {
            if let Some((p, b)) = held.pop_front() {
                held_bytes -= b;
                lib(|| drop(p));
            }
        }
        check(
            "connection that goes on",
            base,
            largest,
            (held.len(), held_bytes),
            &format!("{} results, {} of them refusals", calls, refused),
        );
    }
    if refused > 100 {
        probe("hundreds of refused packets on one connection");
    }
    if n > 5000 {
        probe("connection with tens of thousands of packets");
    }
    event(20, calls as u64, refused as u64);
    event(21, (seam::live() - base) as u64, held.len() as u64);
    while let Some((p, _)) = held.pop_front() {
        lib(|| drop(p));
    }
    check("connection whose packets were all dropped", base, largest, (0, 0), &format!("{} results, {} of them refusals", calls, refused));
    close(dec);
    let now = seam::live() - before;
    // the buffer of a source that brings its own was not allocated there
    if now > AFTER {
        fail!("kept", "{} bytes stay allocated after the connection is gone, {} results, {} of them refusals", now, calls, refused);
    }
}

fn one_in_cheap(i: usize, n: usize) -> bool {
    i % n == 0
}

/// many connections after each other
fn connections(n: usize, pool: &Pool) {
    let before = seam::live();
    let mut results = 0u64;
    let at_end = draw(3);
    let early = one_in(3);
    let kind = pick(ERR_KINDS);
    for c in 0..n {
        let mut data = vec![];
        let k = 1 + c % 4;
        for i in 0..k {
            data.extend(pool.frame(c * 4 + i));
        }
        let total = data.len();
        let r = seam::mix((pool.seed << 20) ^ c as u64) as usize;
        let mut link = Link::new(data, Sched::plain());
        match at_end {
            0 => {}
            1 => link.end = Stop::Err(kind),
            _ => {
                // the peer goes in the middle of a packet
                fault(F::EofInside);
                link.data.truncate(r % (total + 1));
                link.avail = link.data.len();
            }
        }
        let (mut dec, _l) = open(link);
        // the caller may give up early
        let calls = if early { r % (k + 2) } else { k + 2 };
        for _ in 0..calls {
            more(&mut dec);
            let ok = lib(|| dec.decode_packet(pool.v).is_ok());
            results += ok as u64;
            event(1, ok as u64, c as u64);
        }
        close(dec);
        let now = seam::live() - before;
        if now > AFTER {
            fail!("kept", "{} bytes stay allocated after {} connections, all of them gone", now, c + 1);
        }
    }
    probe("hundreds of connections after each other");
    event(22, n as u64, results);
}

/// many packets encoded
fn sender(n: usize, pool: &mut Pool) {
    if one_in(3) {
        for p in pool.pkts.iter_mut() {
            if coin() {
                gen::odd(p, pool.v, Size::small());
            } else {
                gen::strip(p);
            }
        }
    }
    let before = seam::live();
    let mut largest = 0;
    let mut refused = 0;
    for i in 0..n {
        let p = pool.packet(i);
        let v = pool.v;
        // the clone comes from the balance it goes back to
        let (len, ok) = lib(|| {
            let q = p.clone();
            match q.encode(v) {
                Ok(b) => (b.len(), true),
                Err(e) => (e.len(), false),
            }
        });
        event(4, len as u64, ok as u64);
        largest = largest.max(len);
        refused += !ok as usize;
        check("sender", before, largest, (0, 0), &format!("{} packets, {} of them refused", i + 1, refused));
    }
    if refused > 100 {
        probe("hundreds of packets refused by the encoder");
    }
    event(23, n as u64, refused as u64);
    event(21, (seam::live() - before) as u64, 0);
}

pub fn c23(stratum: u32) {
    let v = version();
    let mut pool = Pool::new(v);
    seam::reset_counters();
    // what happens once per process or thread is no growth
    let kind = draw(5);
    let n = match stratum {
        0..=19 => pick(&[66_000usize, 20_000, 40_000]),
        20..=399 => 1500 + draw(3000) as usize,
        _ => 100 + draw(900) as usize,
    };
    match kind {
        0 | 1 | 2 => {
            let size: usize = (0..10).map(|i| pool.frame(i).len()).sum::<usize>() / 10 + 1;
            session(n.min(4_000_000 / size + 10), &pool)
        }
        3 => connections(n.min(3000), &pool),
        _ => sender(n.min(20_000), &mut pool),
    }
}
