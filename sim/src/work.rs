//! C22: how much a connection costs. The allocator's seam counts what the
//! library asks for, the connection counts how often it is read.

use crate::cx::*;
use crate::gen::{self, version, Size};
use crate::link::*;
use crate::refcodec;
use crate::seam::{self, lib};
use crate::util::*;
use crate::{fail, logln};
use mqtt_packet_3_5::*;

/// heap asked for while decoding: bytes per byte received, per call and once
const BYTES: [u64; 3] = [1024, 64 * 1024, 512 * 1024];
/// the same for packets that are one large value
const FLAT: u64 = 64;
/// requests for heap while decoding, the same
const REQS: [u64; 3] = [16, 64, 2048];
/// the same while encoding, per byte of the result and once
const ENC_BYTES: [u64; 2] = [512, 64 * 1024];
const ENC_REQS: [u64; 2] = [16, 512];

fn large(v: u8) -> Vec<u8> {
    probe("packet of several megabytes");
    let n = pick(&[3_000_000u32, 1_000_000, 8_000_000, 20_000_000]) + draw(50_000);
    let mut body = vec![];
    refcodec::put_bin(&mut body, b"topic");
    if v == 5 {
        body.push(0);
    }
    body.resize(n as usize, 0x6C);
    frame(0x30, &body)
}

/// an element that can be had many times in a packet
pub fn many(v: u8, n: usize) -> MqttPacket {
    let mut names = UserProperties::new();
    match draw(if v == 5 { 9 } else { 4 }) {
        3 => MqttPacket::Suback(SubackPacket {
            reason_code: None,
            message_id: 7,
            properties: None,
            granted_reason_codes: if v == 5 { vec![SubscriptionReasonCode::GrantedQoS1; n] } else { vec![] },
            granted: if v == 5 { vec![] } else { vec![Granted::QoS1; n] },
        }),
        7 => MqttPacket::Unsuback(UnsubackPacket { message_id: 7, granted: vec![UnsubackCode::Success; n], properties: None }),
        0 => MqttPacket::Subscribe(SubscribePacket {
            qos: 1,
            subscriptions: (0..n)
                .map(|i| Subscription {
                    topic: format!("t{}", i),
                    qos: QoS::QoS1,
                    nl: false,
                    rap: false,
                    rh: if v == 5 { Some(0) } else { None },
                })
                .collect(),
            message_id: 7,
            properties: None,
        }),
        1 => MqttPacket::Unsubscribe(UnsubscribePacket {
            qos: 1,
            unsubscriptions: (0..n).map(|i| format!("t{}", i)).collect(),
            message_id: 7,
            properties: None,
        }),
        2 => {
            let mut p = gen::publish(v, Size::small());
            p.payload = gen::bytes_of(n * 8, 3);
            MqttPacket::Publish(p)
        }
        8 => {
            for i in 0..n {
                names.insert(format!("n{}", i), vec!["v".to_string()]);
            }
            with_names(names, v)
        }
        4 => {
            names.insert("n".to_string(), (0..n).map(|i| format!("{}", i)).collect());
            with_names(names, v)
        }
        5 => {
            for i in 0..n / 8 + 1 {
                names.insert(format!("n{}", i), (0..8).map(|i| format!("{}", i)).collect());
            }
            with_names(names, v)
        }
        _ => {
            let mut p = gen::publish(v, Size::small());
            if let Some(q) = &mut p.properties {
                q.subscription_identifiers = (0..n).map(|i| 1 + i as u32 % 300).collect();
            }
            MqttPacket::Publish(p)
        }
    }
}

fn with_names(names: UserProperties, v: u8) -> MqttPacket {
    let k = pick(&[PacketType::Publish, PacketType::Connect, PacketType::Disconnect, PacketType::Suback, PacketType::Puback]);
    let mut p = gen::packet_of(k, v, Size::small());
    for _ in 0..20 {
        let to = match &mut p {
            MqttPacket::Publish(p) => p.properties.as_mut().map(|q| &mut q.user_properties),
            MqttPacket::Connect(p) => p.properties.as_mut().map(|q| &mut q.user_properties),
            MqttPacket::Disconnect(p) => p.properties.as_mut().map(|q| &mut q.user_properties),
            MqttPacket::Suback(p) => p.properties.as_mut().map(|q| &mut q.user_properties),
            MqttPacket::Puback(p) => p.properties.as_mut().map(|q| &mut q.user_properties),
            _ => None,
        };
        if let Some(to) = to {
            *to = names;
            break;
        }
        p = gen::packet_of(k, v, Size::small());
    }
    p
}

fn measured(p: &MqttPacket, v: u8) {
    let q = p.clone();
    let before = seam::work();
    let r = lib(|| q.encode(v));
    let after = seam::work();
    if let Ok(b) = r {
        let n = b.len() as u64;
        let (bytes, reqs) = (after.0 - before.0, after.1 - before.1);
        event(14, n, bytes);
        let bound = ENC_BYTES[0] * n + ENC_BYTES[1];
        if bytes > bound {
            fail!("encode-memory", "encoding {} bytes asked for {} bytes of heap (bound {})\n {}", n, bytes, bound, short(p));
        }
        let bound = ENC_REQS[0] * n + ENC_REQS[1];
        if reqs > bound {
            fail!("encode-requests", "encoding {} bytes asked {} times for heap (bound {})\n {}", n, reqs, bound, short(p));
        }
    }
}

extern "C" {
    fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
}

/// what this thread has spent so far, in nanoseconds
fn processor_time() -> u64 {
    let mut t = [0i64; 2];
    // SAFETY: a timespec is two 64 bit words where this runs; 3 is CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}

/// processor time per byte and once. The current code needs 50 per byte, and
/// with the number of elements below anything that looks at all earlier ones
/// for each of them needs minutes
const NANOS: [u64; 2] = [1_000, 2_000_000_000];

fn in_time<T>(what: &str, bytes: impl FnOnce(&T) -> u64, f: impl FnOnce() -> T) -> T {
    let start = processor_time();
    let r = f();
    let spent = processor_time() - start;
    let n = bytes(&r);
    if std::env::var_os("SIM_TIMES").is_some() {
        eprintln!("{} {} bytes {} ms {} ns/byte", what, n, spent / 1_000_000, spent / n.max(1));
    }
    let bound = NANOS[0] * n + NANOS[1];
    if spent > bound {
        fail!("time", "{} {} bytes takes {} s of processor time (bound {} s)", what, n, spent / 1_000_000_000, bound / 1_000_000_000);
    }
    r
}

/// the longest texts, made of the same thing all over
fn long_texts(v: u8) -> MqttPacket {
    probe("processor time of the longest texts");
    let unit = pick(&["/", "a/", "a", "é", "€", "+/", "$", "\u{10ffff}", " ", "ab", "\"", "%41"]);
    let text = |i: usize| format!("{}{}", i, unit.repeat((65_535 - 4) / unit.len()));
    let k = 30 + draw(20) as usize;
    let mut p = gen::publish(v, Size::small());
    match draw(if v == 5 { 5 } else { 4 }) {
        0 => {
            return MqttPacket::Subscribe(SubscribePacket {
                qos: 1,
                subscriptions: (0..k)
                    .map(|i| Subscription { topic: text(i), qos: QoS::QoS1, nl: false, rap: false, rh: if v == 5 { Some(0) } else { None } })
                    .collect(),
                message_id: 7,
                properties: None,
            })
        }
        1 => return MqttPacket::Unsubscribe(UnsubscribePacket { qos: 1, unsubscriptions: (0..k).map(text).collect(), message_id: 7, properties: None }),
        2 => p.payload = text(0).into_bytes().repeat(k),
        3 => {
            return MqttPacket::Connect(ConnectPacket {
                client_id: text(1),
                protocol_version: v,
                protocol_id: if v == 3 { Protocol::MQIsdp } else { Protocol::Mqtt },
                clean_session: true,
                keep_alive: 9,
                user_name: Some(text(2)),
                password: Some(text(3)),
                will: Some(LastWill { topic: Some(text(4)), payload: Some(text(5)), qos: 1, retain: false, properties: None }),
                properties: None,
            })
        }
        _ => {
            let mut names = UserProperties::new();
            let same = coin();
            for i in 0..k {
                names.entry(text(if same { 0 } else { i })).or_insert_with(Vec::new).push(text(i));
            }
            return with_names(names, v);
        }
    }
    MqttPacket::Publish(p)
}

/// something that has 100,000 and more parts: elements of a packet or packets of a connection
fn slow(v: u8) {
    probe("processor time of very many parts");
    let n = 100_000 + draw(100_000) as usize;
    let data = match draw(6) {
        0 => dense(v, 2_000_000),
        2 | 3 => {
            let p = long_texts(v);
            match in_time("encoding", |r: &Res<Vec<u8>>| r.as_ref().map_or(0, |b| b.len() as u64), || lib(|| p.encode(v))) {
                Ok(b) => b.repeat(1 + 3 * (b.len() < 500_000) as usize),
                Err(e) => fail!("refused", "the encoder refuses a valid packet of the longest texts: {}", e),
            }
        }
        1 => {
            // a long connection that goes on with something new
            let mut d = vec![];
            let qos = draw(3) as u8;
            for i in 0..8 * n {
                let mut p = gen::publish(v, Size::small());
                p.topic = format!("t{}", i % 70_000);
                p.payload = vec![];
                p.qos = if draw(8) == 0 { draw(3) as u8 } else { qos };
                p.message_id = if p.qos > 0 { Some((i % 65535 + 1) as u16) } else { None };
                p.properties = None;
                d.extend(refcodec::foreign(&MqttPacket::Publish(p), v));
                if i % 3 == 0 {
                    d.extend([0xC0, 0]);
                }
                // refused
                if i % 7 == 1 {
                    d.extend([0x30, 1, 9]);
                }
            }
            d
        }
        _ => {
            let p = many(v, n);
            match in_time("encoding", |r: &Res<Vec<u8>>| r.as_ref().map_or(0, |b| b.len() as u64), || lib(|| p.encode(v))) {
                Ok(b) => b,
                Err(_) => return,
            }
        }
    };
    let len = data.len() as u64;
    logln!("stream of {} bytes {}", len, hex(&data));
    let (mut dec, _l) = open(Link::new(data, Sched::plain()));
    in_time(
        "decoding",
        |_| len,
        || {
            while poll(&mut dec, 1) {
                let _ = decode(&mut dec, v);
            }
        },
    );
}

pub fn c22(stratum: u32) {
    if stratum == 12 && draw(3) == 2 {
        return slow(version());
    }
    let v = version();
    let s = Size::random();
    let mut marks = vec![0];
    // long ones are rare, but what grows faster than it should only shows there
    let size = match stratum {
        0 => pick(&[1_000_000usize, 400_000]),
        2..=11 => pick(&[20_000usize, 60_000]),
        _ => pick(&[200usize, 1000, 3000]),
    };
    let mut factor = BYTES[0];
    let data = match stratum {
        0 => match draw(3) {
            0 => run_of_frames(v, size),
            _ => dense(v, size),
        },
        1 => {
            factor = FLAT;
            large(v)
        }
        2..=11 => {
            if coin() {
                dense(v, size)
            } else {
                run_of_frames(v, size)
            }
        }
        _ => match draw(6) {
            0 => {
                let h = lib_history(false, v, history_len(), s);
                marks = h.marks();
                h.bytes
            }
            1 => {
                let h = foreign_history(v, history_len(), s);
                marks = h.marks();
                h.bytes
            }
            2 => concat(&mixed_frames(v, history_len(), s, 2)).0,
            3 => soup(v, s),
            4 => dense(v, size),
            _ => {
                let mut d = hostile(v);
                d.extend(hostile(v));
                d
            }
        },
    };
    let n = data.len();
    let mut sched = if one_in(3) { Sched::plain() } else { Sched::random(n) };
    sched.prebuffer = false;
    let buffered = sched.cap == 0 && sched.seg == Seg::Whole && sched.eintr == 0;
    let polls = sched.polls;
    logln!("stream of {} bytes {}\ndelivery {:?}", n, hex(&data), sched);
    let mut link = Link::new(data, sched).with_marks(marks);
    if one_in(4) {
        let kind = pick(ERR_KINDS);
        let at = draw(n as u32 + 1) as usize;
        link.stops = vec![(at, pick(&[Stop::Err(kind), Stop::ErrOnce(kind), Stop::Eof, Stop::EofOnce]))];
        link.end = pick(&[Stop::Eof, Stop::Err(kind), Stop::ErrOnce(kind)]);
    }
    let (mut dec, l) = open(link);
    seam::reset_counters();
    let mut calls = 0u64;
    let mut silent = 0;
    let mut back = vec![];
    while silent < 2 {
        if !poll(&mut dec, polls) {
            silent += 1;
        }
        let r = decode(&mut dec, v);
        calls += 1;
        let (got, reads) = match l.lock() {
            Ok(l) => (l.pos as u64, l.reads),
            Err(p) => {
                let l = p.into_inner();
                (l.pos as u64, l.reads)
            }
        };
        let (bytes, reqs) = seam::work();
        let bound = factor * got + BYTES[1] * calls + BYTES[2];
        if bytes > bound {
            fail!("memory", "after {} bytes received and {} calls the decoder has asked for {} bytes of heap (bound {})", got, calls, bytes, bound);
        }
        let bound = REQS[0] * got + REQS[1] * calls + REQS[2];
        if reqs > bound {
            fail!("requests", "after {} bytes received and {} calls the decoder has asked {} times for heap (bound {})", got, calls, reqs, bound);
        }
        if buffered {
            // the connection always has more, so a read is worth many bytes
            let bound = got / 64 + 4 * calls.min(8) + 64;
            if reads > bound {
                fail!("reads", "the connection was read {} times for {} bytes that were there all the time (bound {})", reads, got, bound);
            }
        }
        if let Ok(p) = r {
            if back.len() < 40 {
                back.push(p);
            }
        } else if calls > n as u64 + 40 {
            // for C06
            break;
        }
    }
    for p in &back {
        measured(p, v);
    }
    for _ in 0..draw(4) {
        let p = if one_in(8) {
            probe("packet with very many elements");
            many(v, if stratum < 2 { 40_000 } else if stratum < 12 { 5000 } else { 300 })
        } else {
            gen::packet(v, s)
        };
        measured(&p, v);
    }
}
