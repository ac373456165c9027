//! Scenarios with one connection (or a chain of them).

use crate::cx::*;
use crate::gen::{version, self, Size};
use crate::link::*;
use crate::refcodec::{self, canon, next_frame, parse, Framing, Verdict};
use crate::runner::finding;
use crate::seam::{self, lib};
use crate::util::*;
use crate::{fail, logln};
use mqtt_packet_3_5::*;

/// strata at the end of the range are reserved for large packets
fn heavy(stratum: u32) -> bool {
    (990..998).contains(&stratum)
}

fn big_payload(v: u8, total: u32) -> MqttPacket {
    let mut p = gen::publish(v, Size::small());
    p.payload = vec![];
    let head = refcodec::foreign(&MqttPacket::Publish(p.clone()), v);
    // size of the fixed header does not matter much here
    let fixed = head.len() as u32 - 2;
    p.payload = gen::bytes_of(total.saturating_sub(fixed) as usize, 5);
    MqttPacket::Publish(p)
}

// ---------------------------------------------------------------- C01

pub fn c01(stratum: u32) {
    if stratum == 998 {
        match draw(60) {
            49..=58 => return huge(true),
            59 => return flood(false),
            _ => {}
        }
    }
    let v = version();
    let sent = if heavy(stratum) {
        let mut s = lib_history(true, v, 1 + draw(2), Size::small());
        let total = pick(&[2097149u32, 2097150, 2097151, 2097152, 2097153, 2097154, 2097155, 3_000_000]);
        let p = big_payload(v, total);
        match encode(&p, v, false) {
            Ok(b) => {
                probe("packet with a length around 2097152");
                s.push(canon(&p, v), &b)
            }
            Err(e) => fail!("refused", "the encoder refuses a valid packet of {} bytes: {}", total, e),
        }
        let rest = lib_history(true, v, 1 + draw(3), Size::small());
        for i in 0..rest.pkts.len() {
            s.push(rest.pkts[i].clone(), &rest.bytes[rest.start(i)..rest.ends[i]]);
        }
        s
    } else if stratum == 989 {
        probe("connection with tens of thousands of packets");
        long_history(v)
    } else {
        lib_history(true, v, history_len(), Size::random())
    };
    let sched = Sched::random(sent.bytes.len());
    let link = Link::new(sent.bytes.clone(), sched).with_marks(sent.marks());
    if stratum % 10 == 7 && !heavy(stratum) {
        manual(&sent, link, v);
    } else {
        expect_all(&sent, link, v);
    }
}

struct Cycle {
    frame: Vec<u8>,
    pos: usize,
    left: u64,
}
impl std::io::Read for Cycle {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.frame.len() - self.pos);
        if n == 0 || self.left == 0 {
            return Ok(0);
        }
        buf[..n].copy_from_slice(&self.frame[self.pos..self.pos + n]);
        self.pos += n;
        if self.pos == self.frame.len() {
            self.pos = 0;
            self.left -= 1;
        }
        Ok(n)
    }
}

/// more bytes on one connection than 32 bits can count
fn flood(bad: bool) {
    probe("connection with more than 4 GiB");
    let v = version();
    let mut p = gen::publish(v, Size::small());
    p.payload = gen::bytes_of(50_000 + draw(15_000) as usize, draw(1 << 16));
    let p = MqttPacket::Publish(p);
    let mut frame = match encode(&p, v, false) {
        Ok(b) => b,
        Err(e) => fail!("refused", "the encoder refuses a valid packet: {}", e),
    };
    let mut want: Out = Ok(canon(&p, v));
    if bad {
        // every second one
        let bad = damage(v, &frame);
        want = solo(&bad, v);
        frame.splice(0..0, bad);
    }
    let n = (1u64 << 32) / frame.len() as u64 + 2 + draw(20) as u64;
    logln!("{} times {}", n, hex(&frame));
    event(12, n, frame.len() as u64);
    let mut dec = lib(|| PacketDecoder::from_stream(Cycle { frame, pos: 0, left: n }));
    let good: Out = Ok(canon(&p, v));
    for i in 0..n {
        for (k, w) in [&want, &good].into_iter().enumerate().skip(!bad as usize) {
            let r = lib(|| dec.decode_packet(v));
            if !(r.is_ok() && &r == w) && !same_out(&r, w, v) {
                fail!("neighbour", "packet {}.{} is decoded differently after many others\n here  {}\n alone {}", i, k, short(&r), short(w));
            }
        }
    }
    count_packet();
    fault(F::ShortRead);
    if lib(|| dec.has_more()) {
        fail!("left-over", "has_more() is true after the last packet");
    }
}

/// a few packets again and again
fn long_history(v: u8) -> Sent {
    let few = lib_history(true, v, 1 + draw(6), Size { text: 6, payload: 10, list: 2, edges: false });
    let n = pick(&[300u32, 1100, 4200, 17000, 33000, 66000]);
    let seed = draw(1 << 16);
    let mut s = Sent::new();
    for i in 0..n {
        let k = (crate::seam::mix(((seed as u64) << 32) | i as u64) % few.pkts.len() as u64) as usize;
        s.push(few.pkts[k].clone(), &few.bytes[few.start(k)..few.ends[k]]);
        if s.bytes.len() > 2_000_000 {
            break;
        }
    }
    s
}

/// an application that reads headers itself and decodes with the packet types
fn manual(sent: &Sent, link: Link, v: u8) {
    probe("header and packet type decoded separately");
    let (dec, _l) = open(link);
    let mut r = dec.reader;
    for (i, want) in sent.pkts.iter().enumerate() {
        let got: Res<MqttPacket> = lib(|| {
            let (len, fixed) = r.read_header()?;
            let p = match fixed.cmd {
                PacketType::Connect => MqttPacket::Connect(ConnectPacket::decode(&mut r, fixed, len, v)?),
                PacketType::Connack => MqttPacket::Connack(ConnackPacket::decode(&mut r, fixed, len, v)?),
                PacketType::Publish => MqttPacket::Publish(PublishPacket::decode(&mut r, fixed, len, v)?),
                PacketType::Puback => MqttPacket::Puback(ConfirmationPacket::decode(&mut r, fixed, len, v)?),
                PacketType::Pubrec => MqttPacket::Pubrec(ConfirmationPacket::decode(&mut r, fixed, len, v)?),
                PacketType::Pubrel => MqttPacket::Pubrel(ConfirmationPacket::decode(&mut r, fixed, len, v)?),
                PacketType::Pubcomp => MqttPacket::Pubcomp(ConfirmationPacket::decode(&mut r, fixed, len, v)?),
                PacketType::Subscribe => MqttPacket::Subscribe(SubscribePacket::decode(&mut r, fixed, len, v)?),
                PacketType::Suback => MqttPacket::Suback(SubackPacket::decode(&mut r, fixed, len, v)?),
                PacketType::Unsubscribe => MqttPacket::Unsubscribe(UnsubscribePacket::decode(&mut r, fixed, len, v)?),
                PacketType::Unsuback => MqttPacket::Unsuback(UnsubackPacket::decode(&mut r, fixed, len, v)?),
                PacketType::Pingreq => PingreqPacket::decode(&mut r, fixed, len, v).map(|_| MqttPacket::Pingreq)?,
                PacketType::Pingresp => PingrespPacket::decode(&mut r, fixed, len, v).map(|_| MqttPacket::Pingresp)?,
                PacketType::Disconnect => MqttPacket::Disconnect(DisconnectPacket::decode(&mut r, fixed, len, v)?),
                PacketType::Auth => MqttPacket::Auth(AuthPacket::decode(&mut r, fixed, len, v)?),
                PacketType::Reserved => return Err("reserved".to_string()),
            };
            r.reset_limit();
            Ok(p)
        });
        count_packet();
        match got {
            Ok(p) if same(&p, want, v) => {}
            Ok(p) => fail!("changed", "packet {} arrives changed (version {})\n sent {}\n got  {}", i, v, short(want), short(&p)),
            Err(e) => fail!("error", "packet {} is refused (version {}): {}\n sent {}", i, v, e, short(want)),
        }
    }
    if lib(|| r.has_more()) {
        fail!("left-over", "has_more() is true after the last packet");
    }
}

// ---------------------------------------------------------------- C02

pub fn c02(stratum: u32) {
    let v = version();
    let s = if heavy(stratum) { Size { text: 5000, payload: 100_000, list: 300, edges: true } } else { Size::random() };
    let (data, marks) = match stratum % 4 {
        0 => {
            let h = lib_history(false, v, history_len(), s);
            let m = h.marks();
            (h.bytes, m)
        }
        1 => {
            let mut f = earlier(stratum, v, true);
            f.extend(mixed_frames(v, history_len(), s, 2));
            concat(&f)
        }
        2 => {
            let b = soup(v, s);
            let mut m = vec![0];
            m.extend(refcodec::frames(&b).0.iter().map(|f| f.end));
            (b, m)
        }
        _ => {
            let h = foreign_history(v, history_len(), s);
            let mut m = h.marks();
            let mut b = h.bytes;
            let at = offset(b.len(), &m);
            b.truncate(at);
            m.retain(|x| *x <= at);
            (b, m)
        }
    };
    let run = |sched: Sched, count: Option<usize>| -> Vec<Out> {
        let polls = sched.polls;
        let (mut dec, _l) = open(Link::new(data.clone(), sched).with_marks(marks.clone()));
        let mut out = vec![];
        match count {
            None => {
                while poll(&mut dec, polls) {
                    out.push(decode(&mut dec, v));
                    if out.len() > data.len() + 8 {
                        fail!("no-progress", "more decoder results than bytes");
                    }
                }
            }
            Some(n) => {
                for _ in 0..n {
                    out.push(decode(&mut dec, v));
                }
                if more(&mut dec) {
                    fail!("has-more", "more data without has_more() queries than with them");
                }
            }
        }
        out
    };
    logln!("stream {}", hex(&data));
    let a = run(Sched::plain(), None);
    let sched = Sched::random(data.len());
    logln!("second delivery: {:?}", sched);
    let b = run(sched, if one_in(4) { Some(a.len()) } else { None });
    if a.len() != b.len() {
        fail!("count", "{} results if delivered at once, {} if delivered in pieces\n stream {}", a.len(), b.len(), hex(&data));
    }
    for i in 0..a.len() {
        if !same_out(&a[i], &b[i], v) {
            fail!("differs", "result {} depends on the delivery\n at once   {}\n in pieces {}", i, short(&a[i]), short(&b[i]));
        }
    }
}

// ---------------------------------------------------------------- C03

pub fn c03(stratum: u32) {
    let v = version();
    let s = if heavy(stratum) { Size { text: 3000, payload: 60_000, list: 50, edges: true } } else { Size::random() };
    // what each packet is on a connection without failure
    let mut endless = usize::MAX;
    let (data, marks, want): (Vec<u8>, Vec<usize>, Vec<Out>) = if one_in(3) {
        let mut fs = earlier(stratum, v, true);
        fs.extend(mixed_frames(v, 1 + history_len(), s, 2));
        if one_in(4) {
            // a length field without an end: where the next packet starts is unknown from then on
            endless = fs.len() - 1 - draw(fs.len().min(4) as u32) as usize;
            let mut f = vec![if coin() { draw(256) as u8 } else { pick(&[0x30, 0x40, 0xC0, 0xD0, 0x20]) }];
            f.extend((0..4).map(|_| 0x80 | if coin() { 0x7F } else { draw(128) as u8 }));
            f.extend((0..draw(8)).map(|_| draw(256) as u8));
            fs[endless] = f;
        }
        let want = fs.iter().map(|f| solo(f, v)).collect();
        let (data, marks) = concat(&fs);
        (data, marks, want)
    } else {
        let sent = after(earlier(stratum, v, false), v, lib_history(false, v, history_len(), s));
        let marks = sent.marks();
        (sent.bytes, marks, sent.pkts.into_iter().map(Ok).collect())
    };
    let n = data.len();
    let mut stops: Vec<(usize, Stop)> = vec![];
    let k = 1 + draw(3);
    for _ in 0..k {
        let at = offset(n, &marks);
        let kind = pick(ERR_KINDS);
        stops.push((
            at,
            match draw(5) {
                0 => Stop::Eof,
                1 => Stop::EofOnce,
                2 | 3 => Stop::ErrOnce(kind),
                _ => Stop::Err(kind),
            },
        ));
    }
    stops.sort_by_key(|x| x.0);
    let sched = Sched::random(n);
    logln!("stops {:?}, delivery {:?}", stops, sched);
    let polls = sched.polls;
    let mut link = Link::new(data, sched).with_marks(marks.clone());
    link.stops = stops;
    let (mut dec, l) = open(link);
    let fired = |from: usize| -> Vec<(usize, Stop)> {
        match l.lock() {
            Ok(l) => l.fired[from..].to_vec(),
            Err(p) => p.into_inner().fired[from..].to_vec(),
        }
    };
    let mut seen = fired(0).len();
    let mut next = 0usize;
    let mut lost = false;
    let mut idle = 0;
    let mut calls = 0usize;
    while idle < 4 {
        calls += 1;
        if calls > 4 * n + 100 {
            fail!("no-progress", "decoder does not come to an end");
        }
        // sometimes without asking first
        if !one_in(4) {
            let m = poll(&mut dec, polls);
            let f = fired(seen);
            seen += f.len();
            if lost && m {
                fail!("revived", "has_more() is true after a failure inside a packet");
            }
            if !m {
                idle += 1;
                if !lost && f.is_empty() && next < want.len() {
                    fail!("lost", "has_more() is false before packet {} although nothing failed", next);
                }
                if !one_in(3) {
                    continue;
                }
            }
        }
        let r = decode(&mut dec, v);
        let f = fired(seen);
        seen += f.len();
        // a failure hits the packet being received if it struck between its first and last byte
        let inside = f.iter().any(|(at, _)| next < want.len() && *at > marks[next] && *at < marks[next + 1]);
        match r {
            Ok(p) => {
                if lost {
                    fail!("revived", "a packet is decoded after a failure inside an earlier packet: {}", short(&p));
                }
                if inside {
                    fail!("partial", "a failure inside packet {} is not reported, the result is {}", next, short(&p));
                }
                match want.get(next) {
                    Some(Ok(w)) if same(&p, w, v) => next += 1,
                    Some(w) => fail!("changed", "packet {} arrives changed\n sent {}\n got  {}", next, short(w), short(&p)),
                    None => fail!("invented", "a packet after the last one: {}", short(&p)),
                }
                idle = 0;
            }
            Err(e) => {
                idle += 1;
                let malformed = matches!(want.get(next), Some(Err(_)));
                if !lost && f.is_empty() && next < want.len() && !malformed {
                    fail!("error", "packet {} is refused although nothing failed: {}", next, e);
                }
                if inside {
                    lost = true;
                    probe("position in the stream lost");
                    if malformed {
                        probe("failure inside a malformed packet");
                    }
                } else if !lost && malformed {
                    // a failure in front of it is not its result
                    let pos = match l.lock() {
                        Ok(l) => l.pos,
                        Err(p) => p.into_inner().pos,
                    };
                    if f.is_empty() || pos > marks[next] {
                        if next == endless {
                            lost = true;
                            probe("length field without an end");
                        } else {
                            next += 1;
                            idle = 0;
                        }
                    }
                }
            }
        }
        if lost && idle == 1 {
            probe("continued after a failure inside a packet");
        }
    }
    if !lost && next < want.len() {
        // only a persistent failure may end the connection early
        let pos = match l.lock() {
            Ok(l) => l.stops.first().map(|x| x.0).unwrap_or(0),
            Err(_) => 0,
        };
        if pos < marks[next] || pos >= marks[next + 1] {
            fail!("lost", "packet {} had arrived completely and was not returned", next);
        }
    }
}

// ---------------------------------------------------------------- C04

fn judge(i: usize, f: &[u8], got: &Out, v: u8) {
    let alone = solo(f, v);
    if !same_out(got, &alone, v) {
        fail!("neighbour", "frame {} decodes differently than on a connection of its own\n here  {}\n alone {}\n frame {}",
            i, short(got), short(&alone), hex(f));
    }
    match (parse(v, f), got) {
        // whether the value is right is for C10
        (Verdict::Accept(..), _) => {}
        (Verdict::Reject(why), Ok(p)) => {
            fail!("accepted", "malformed frame {} ({}) is decoded to {}\n frame {}", i, why, short(p), hex(f));
        }
        (Verdict::Reject(why), Err(_)) => {
            probe("malformed packet refused");
            probe(why);
        }
        (Verdict::Either(_), _) => {}
    }
}

pub fn c04(stratum: u32) {
    if stratum == 998 && draw(100) == 99 {
        return flood(true);
    }
    let v = version();
    let s = if heavy(stratum) { Size { text: 3000, payload: 60_000, list: 50, edges: true } } else { Size::random() };
    let mut fs = earlier(stratum, v, true);
    fs.extend(mixed_frames(v, 1 + history_len(), s, 2));
    let (data, marks) = concat(&fs);
    let sched = Sched::random(data.len());
    logln!("delivery {:?}", sched);
    let polls = sched.polls;
    let (mut dec, l) = open(Link::new(data, sched).with_marks(marks.clone()));
    for (i, f) in fs.iter().enumerate() {
        if !poll(&mut dec, polls) {
            fail!("lost", "has_more() is false before frame {} of {}", i, fs.len());
        }
        let r = decode(&mut dec, v);
        judge(i, f, &r, v);
        // buffered or not, the packet must not have taken bytes of the next one
        let pos = match l.lock() {
            Ok(l) => l.pos,
            Err(p) => p.into_inner().pos,
        };
        if pos < marks[i + 1] {
            fail!("position", "frame {} was not consumed completely", i);
        }
    }
    if more(&mut dec) {
        fail!("left-over", "has_more() is true after the last frame");
    }
    if let Ok(p) = decode(&mut dec, v) {
        fail!("invented", "a packet after the last frame: {}", short(&p));
    }
}

// ---------------------------------------------------------------- C05

pub fn c05(stratum: u32) {
    let v = version();
    let s = if heavy(stratum) { Size { text: 3000, payload: 60_000, list: 50, edges: true } } else { Size::random() };
    let bad = pick(&[3, 1_000_000]);
    let mut fs = earlier(stratum, v, coin());
    fs.extend(mixed_frames(v, history_len(), s, bad));
    let (data, marks) = concat(&fs);
    let mut sched = Sched::random(data.len());
    sched.prebuffer = false;
    logln!("delivery {:?}", sched);
    let polls = sched.polls;
    let mut link = Link::new(data, sched).with_marks(marks.clone());
    link.avail = 0;
    let (mut dec, l) = open(link);
    for i in 0..fs.len() {
        {
            let mut g = match l.lock() {
                Ok(g) => g,
                Err(p) => p.into_inner(),
            };
            // the peer sends its next packet only now
            g.avail = marks[i + 1];
        }
        fault(F::Stall);
        tick(pick(&[10, 10_000, 60_000_000]));
        if coin() && !poll(&mut dec, polls) {
            fail!("lost", "has_more() is false although packet {} has arrived", i);
        }
        // the result, whatever it is, has to come now
        let _ = decode(&mut dec, v);
    }
}

// ---------------------------------------------------------------- C06

pub fn c06(stratum: u32) {
    let v0 = if one_in(3) { draw(256) as u8 } else { version() };
    let s = Size::random();
    let mut data = if heavy(stratum) {
        let mut b = soup(v0, Size { text: 3000, payload: 60_000, list: 50, edges: true });
        b.extend(gen::bytes_of(50_000, draw(1 << 16)));
        b
    } else {
        soup(if (3..=5).contains(&v0) { v0 } else { 5 }, s)
    };
    // deep recursion or work that grows with what came before shows here
    if (300..304).contains(&stratum) {
        let v = if (3..=5).contains(&v0) { v0 } else { 5 };
        let k = pick(&[20_000usize, 5000, 60_000]);
        let mut b = if coin() { run_of_frames(v, k) } else { dense(v, k) };
        b.extend(data);
        data = b;
    }
    let n = data.len();
    let (fr, _) = refcodec::frames(&data);
    let mut marks = vec![0];
    marks.extend(fr.iter().map(|f| f.end));
    let mut stops = vec![];
    let ns = draw(4);
    for _ in 0..ns {
        let at = offset(n, &marks);
        let kind = pick(ERR_KINDS);
        stops.push((at, pick(&[Stop::EofOnce, Stop::ErrOnce(kind), Stop::ErrOnce(kind), Stop::Eof, Stop::Err(kind)])));
    }
    stops.sort_by_key(|x| x.0);
    let sched = Sched::random(n);
    logln!("stream {}\nstops {:?}, delivery {:?}, version {}", hex(&data), stops, sched, v0);
    let budget = n + 40;
    let mut link = Link::new(data, sched).with_marks(marks);
    link.stops = stops;
    let (mut dec, l) = open(link);
    let vary = one_in(4);
    let mut calls = 0usize;
    let mut silent = 0;
    loop {
        let m = more(&mut dec);
        if !m {
            silent += 1;
            if silent > 8 {
                break;
            }
        }
        let v = if vary { draw(256) as u8 } else { v0 };
        let r = decode(&mut dec, v);
        calls += 1;
        if calls > budget {
            fail!("no-progress", "{} decode calls for {} bytes and still more", calls, n);
        }
        let pos = match l.lock() {
            Ok(l) => l.pos,
            Err(p) => p.into_inner().pos,
        };
        if let Ok(p) = r {
            if pos == 0 {
                fail!("invented", "a packet out of nothing: {}", short(&p));
            }
        }
    }
    // after the end: persistent silence
    {
        let mut g = match l.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
        g.stops.clear();
        g.pos = n;
        let kind = pick(ERR_KINDS);
        g.end = pick(&[Stop::Eof, Stop::Err(kind), Stop::EofOnce]);
    }
    // drop what was buffered already
    for _ in 0..budget {
        if !more(&mut dec) {
            break;
        }
        let _ = decode(&mut dec, v0);
    }
    for _ in 0..4 {
        if more(&mut dec) {
            fail!("no-progress", "has_more() stays true at the end of the stream");
        }
        if let Ok(p) = decode(&mut dec, v0) {
            fail!("invented", "a packet after the end of the stream: {}", short(&p));
        }
    }
}

// ---------------------------------------------------------------- C07

/// heap bytes the decoder may hold per byte received, and on top of it
const MEM_FACTOR: usize = 256;
const MEM_CONST: usize = 160 * 1024;

pub fn c07(stratum: u32) {
    let v = version();
    let mut data = vec![];
    let mut marks = vec![0];
    let s = if heavy(stratum) { Size { text: 3000, payload: 200_000, list: 300, edges: true } } else { Size::random() };
    let pre = draw(3);
    for _ in 0..pre {
        let p = gen::packet(v, s);
        let f = refcodec::foreign(&p, v);
        let f = if one_in(3) { damage(v, &f) } else { f };
        data.extend(f);
        marks.push(data.len());
    }
    fault(F::Hostile);
    if (stratum % 100) < 2 {
        let k = pick(&[3000usize, 1000, 20_000, 60_000]);
        let mut d = dense(v, k);
        if one_in(3) {
            d.truncate(d.len() - draw(d.len() as u32) as usize / 2);
        }
        data.extend(d);
    } else {
        data.extend(hostile(v));
    }
    if one_in(3) {
        data.extend(soup(v, Size::small()));
    }
    let n = data.len();
    let mut sched = Sched::random(n);
    sched.prebuffer = false;
    logln!("stream {}\ndelivery {:?}", hex(&data), sched);
    let mut link = Link::new(data, sched).with_marks(marks);
    let kind = pick(ERR_KINDS);
    link.end = pick(&[Stop::Eof, Stop::Err(kind), Stop::ErrOnce(kind)]);
    if one_in(3) {
        let at = draw(n as u32 + 1) as usize;
        link.stops = vec![(at, Stop::Err(kind))];
    }
    // the buffer is the application's choice and counted out
    let (mut dec, l) = open(link);
    seam::reset_counters();
    let mut calls = 0;
    let mut silent = 0;
    while silent < 3 {
        seam::reset_peak();
        let m = more(&mut dec);
        if !m {
            silent += 1;
        }
        let r = decode(&mut dec, v);
        let got = match l.lock() {
            Ok(l) => l.pos,
            Err(p) => p.into_inner().pos,
        };
        let peak = seam::peak().max(0) as usize;
        let bound = MEM_FACTOR * got + MEM_CONST;
        if peak > bound {
            fail!("memory", "the decoder held {} bytes of heap after receiving {} bytes (bound {})", peak, got, bound);
        }
        if r.is_err() && peak > 20_000 {
            probe("large but unfinished packet");
        }
        lib(|| drop(r));
        calls += 1;
        if calls > n + 40 {
            // for C06
            break;
        }
    }
    let kept = seam::live().max(0) as usize;
    if kept > MEM_CONST {
        fail!("memory", "the decoder still holds {} bytes of heap after the end", kept);
    }
}

// ---------------------------------------------------------------- C08

/// must: it is an error if a packet of legal size is refused
fn huge(must: bool) {
    probe("packet at the size limit of the protocol");
    let v = version();
    let limit = 268435455usize;
    let mut p = PublishPacket {
        dup: false,
        qos: draw(3) as u8,
        retain: false,
        topic: "big".into(),
        message_id: Some(7),
        payload: vec![],
        properties: None,
    };
    let head = 2 + 3 + if p.qos > 0 { 2 } else { 0 } + if v == 5 { 1 } else { 0 };
    let total = (limit as i64 + pick(&[0i64, 1, -1, 2, 128])) as usize;
    let fill = draw(255) as u8 + 1;
    p.payload = vec![fill; total - head];
    let r = lib(|| p.encode(v));
    logln!("encode of a packet with remaining length {}: {}", total, r.is_ok());
    match r {
        Ok(b) => {
            count_packet();
            fault(F::ShortRead);
            match next_frame(&b, 0) {
                Framing::Frame(f) if f.end == b.len() && f.end - f.body == total => {}
                x => fail!("framing", "a packet of remaining length {} is not one frame: {:?}", total, x),
            }
            let mut dec = lib(|| PacketDecoder::from_stream(std::io::Cursor::new(b)));
            match lib(|| dec.decode_packet(v)) {
                Ok(MqttPacket::Publish(q)) => {
                    if q.payload != p.payload || q.topic != p.topic {
                        fail!("changed", "a packet of remaining length {} arrives changed", total);
                    }
                }
                Ok(x) => fail!("changed", "a huge PUBLISH becomes {}", short(&x)),
                Err(e) => fail!("error", "a packet of remaining length {} is refused: {}", total, e),
            }
        }
        Err(_) => {
            if total <= limit && must {
                fail!("refused", "a packet of remaining length {} is refused", total);
            }
        }
    }
}

/// more than 32 bits can count: the payload is memory the system never has to provide as long as nobody writes to it
fn beyond() {
    probe("packet of 4 GiB and more");
    let v = version();
    let p = PublishPacket {
        dup: false,
        qos: draw(3) as u8,
        retain: coin(),
        topic: "beyond".into(),
        message_id: Some(7),
        payload: vec![0; (1usize << 32) + draw(300) as usize],
        properties: None,
    };
    logln!("encode of a packet with {} bytes of payload", p.payload.len());
    match lib(|| p.encode(v)) {
        Ok(b) => fail!("accepted", "the encoder accepts a packet with {} bytes of payload, the bytes start with {}", p.payload.len(), hex(&b[..20])),
        Err(_) => fault(F::Refused),
    }
}

pub fn c08(stratum: u32) {
    if stratum == 998 {
        match draw(36) {
            30..=35 => return huge(false),
            // only sizes of memory the machine can address
            29 if usize::BITS > 32 => return beyond(),
            _ => {}
        }
    }
    let v = version();
    let s = Size::random();
    let n = history_len();
    let mut sent = Sent::new();
    for i in 0..n {
        let mut p = gen::packet(v, if i % 2 == 0 { s } else { Size::small() });
        let weird = coin();
        if weird {
            let k = 1 + draw(2);
            for _ in 0..k {
                gen::odd(&mut p, v, s);
            }
            match draw(6) {
                // a packet that was built for another version
                5 => {
                    let w = version();
                    p = gen::packet(w, s);
                }
                3 | 4 => {
                    p = gen::packet(v, Size::small());
                    gen::strip(&mut p);
                }
                _ => {}
            }
        }
        let direct = one_in(3);
        // the packet types encode acknowledgements of the type in the value
        let p = if direct { retype(p) } else { p };
        match encode(&p, v, direct) {
            Err(_) => fault(F::Refused),
            Ok(b) => {
                match next_frame(&b, 0) {
                    Framing::Frame(f) if f.end == b.len() => {}
                    x => fail!("framing", "the encoding is not exactly one frame ({:?})\n packet {}\n bytes {}", x, short(&p), hex(&b)),
                }
                let c = canon(&p, v);
                if let Some(why) = gen::lacks(&p, v) {
                    fail!("accepted", "the encoder accepts a packet although {} (version {})\n packet {}\n bytes {}", why, v, short(&p), hex(&b));
                }
                match solo(&b, v) {
                    Ok(q) if same(&q, &c, v) => {}
                    Ok(q) => fail!("changed", "the encoder accepts a packet it changes (version {})\n packet  {}\n becomes {}\n bytes {}", v, short(&c), short(&canon(&q, v)), hex(&b)),
                    Err(e) => fail!("error", "the encoder accepts a packet the decoder refuses (version {}): {}\n packet {}\n bytes {}", v, e, short(&c), hex(&b)),
                }
                if weird {
                    probe("unusual packet accepted");
                }
                sent.push(c, &b);
            }
        }
        if sent.bytes.len() > 1_000_000 {
            break;
        }
    }
    let link = Link::new(sent.bytes.clone(), Sched::random(sent.bytes.len())).with_marks(sent.marks());
    expect_all(&sent, link, v);
}

fn retype(p: MqttPacket) -> MqttPacket {
    match p {
        MqttPacket::Puback(x) | MqttPacket::Pubrec(x) | MqttPacket::Pubrel(x) | MqttPacket::Pubcomp(x) => match x.cmd {
            PacketType::Pubrec => MqttPacket::Pubrec(x),
            PacketType::Pubrel => MqttPacket::Pubrel(x),
            PacketType::Pubcomp => MqttPacket::Pubcomp(x),
            _ => MqttPacket::Puback(x),
        },
        p => p,
    }
}

// ---------------------------------------------------------------- C10

pub fn c10(stratum: u32) {
    let v = version();
    let s = if heavy(stratum) { Size { text: 3000, payload: 60_000, list: 300, edges: true } } else { Size::random() };
    let sent = if heavy(stratum) && coin() {
        let mut h = Sent::new();
        let p = big_payload(v, pick(&[2097149u32, 2097150, 2097151, 2097152, 2097153]));
        let b = refcodec::foreign(&p, v);
        h.push(canon(&p, v), &b);
        let p = gen::packet(v, Size::small());
        let b = refcodec::foreign(&p, v);
        h.push(canon(&p, v), &b);
        h
    } else {
        after(earlier(stratum, v, false), v, foreign_history(v, history_len(), s))
    };
    // the reference implementation has to agree with itself
    for i in 0..sent.pkts.len() {
        let f = &sent.bytes[sent.start(i)..sent.ends[i]];
        match parse(v, f) {
            Verdict::Accept(w, _) if same(&w, &sent.pkts[i], v) => {}
            x => crate::runner::harness_error(&format!("reference codec disagrees with itself: {:?} {} {}", x, short(&sent.pkts[i]), hex(f))),
        }
    }
    let sched = Sched::random(sent.bytes.len());
    let link = Link::new(sent.bytes.clone(), sched).with_marks(sent.marks());
    expect_all(&sent, link, v);
}

// ---------------------------------------------------------------- C11

pub fn c11(stratum: u32) {
    let v = version();
    let s = if heavy(stratum) { Size { text: 3000, payload: 60_000, list: 300, edges: true } } else { Size::random() };
    let n = history_len();
    let mut wire = vec![];
    let mut want: Vec<(MqttPacket, u32)> = vec![];
    for i in 0..n {
        let mut p = if heavy(stratum) && i == 0 {
            big_payload(v, pick(&[2097149u32, 2097150, 2097151, 2097152, 2097153]))
        } else {
            gen::packet(v, s)
        };
        let weird = one_in(4);
        if weird {
            if one_in(3) {
                gen::strip(&mut p);
            } else {
                gen::odd(&mut p, v, Size::small());
            }
        }
        match encode(&p, v, false) {
            Ok(b) => {
                if let Some(why) = gen::lacks(&p, v) {
                    fail!("malformed", "a packet is sent although {} (version {})\n packet {}\n bytes {}", why, v, short(&p), hex(&b));
                }
                want.push((canon(&p, v), weird as u32));
                wire.extend(b);
            }
            Err(_) => fault(F::Refused),
        }
        if wire.len() > 3_000_000 {
            break;
        }
    }
    // the foreign peer receives the connection in pieces
    let mut sched = Sched::random(wire.len());
    sched.seg = match sched.seg {
        Seg::Marks | Seg::NearMarks => Seg::Whole,
        x => x,
    };
    let mut src = SimRead(std::sync::Arc::new(std::sync::Mutex::new(Link::new(wire.clone(), sched))));
    let mut got: Vec<u8> = vec![];
    let mut at = 0usize;
    let mut next = 0usize;
    let mut buf = vec![0u8; 1 + draw(4096) as usize + wire.len() / 1000];
    loop {
        match std::io::Read::read(&mut src, &mut buf) {
            Ok(0) => break,
            Ok(k) => got.extend_from_slice(&buf[..k]),
            Err(_) => continue,
        }
        while let Framing::Frame(f) = next_frame(&got, at) {
            let b = &got[f.start..f.end];
            check_sent(v, b, want.get(next));
            next += 1;
            at = f.end;
        }
        if next_frame(&got, at) == Framing::BadLength {
            fail!("framing", "unreadable length field: {}", hex(&got[at..]));
        }
    }
    if at != got.len() || next != want.len() {
        fail!("framing", "{} packets were sent, the peer sees {} and {} further bytes", want.len(), next, got.len() - at);
    }
}

fn check_sent(v: u8, b: &[u8], want: Option<&(MqttPacket, u32)>) {
    let Some((want, weird)) = want else {
        fail!("framing", "the peer sees a packet that was not sent: {}", hex(b))
    };
    count_packet();
    event(40, b.len() as u64, 0);
    // CONNECT announces its own version
    match parse(v, b) {
        Verdict::Accept(p, notes) => {
            logln!("peer understands {} (notes {})", short(&p), notes);
            if canon(&p, v) != canon(want, v) {
                fail!("changed", "the peer understands something else (version {})\n sent       {}\n understood {}\n bytes {}", v, short(want), short(&p), hex(b));
            }
            if notes & (refcodec::N_NONMIN | refcodec::N_DUP_PROP | refcodec::N_BOOL) != 0 {
                fail!("encoding", "length not minimal, property repeated or boolean out of range (notes {})\n packet {}\n bytes {}", notes, short(want), hex(b));
            }
            if notes & refcodec::N_MAXQOS2 != 0 {
                finding(
                    "connack-maximum-qos-2",
                    format!("CONNACK carries Maximum QoS 2, which the standard does not allow\n packet {}\n bytes {}", short(want), hex(b)),
                );
            }
            if *weird == 0 && notes & !(refcodec::N_MAXQOS2 | refcodec::N_OTHER) != 0 {
                fail!("encoding", "value out of range in an ordinary packet (notes {})\n packet {}\n bytes {}", notes, short(want), hex(b));
            }
        }
        Verdict::Reject(why) => fail!("malformed", "the peer refuses the packet: {} (version {})\n packet {}\n bytes {}", why, v, short(want), hex(b)),
        Verdict::Either(why) => fail!("malformed", "the packet is doubtful: {}\n packet {}\n bytes {}", why, short(want), hex(b)),
    }
}

// ---------------------------------------------------------------- C12

/// offsets of length prefixed texts in the body of a frame
fn texts(v: u8, h: u8, body: &[u8]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let txt = |i: usize| -> Option<(usize, usize)> {
        let n = (*body.get(i)? as usize) << 8 | *body.get(i + 1)? as usize;
        if i + 2 + n <= body.len() {
            Some((i, n))
        } else {
            None
        }
    };
    match h >> 4 {
        1 => {
            if let Some(t) = txt(0) {
                out.push(t);
                let five = body.get(t.1 + 2) == Some(&5);
                let flags = body.get(t.1 + 3).copied().unwrap_or(0);
                let mut at = t.1 + 6;
                if five {
                    match prop_block(5, h, body) {
                        Some(p) => at = p.2,
                        None => return out,
                    }
                }
                if let Some(t) = txt(at) {
                    out.push(t);
                    at = t.0 + 2 + t.1;
                    if flags & 4 == 0 && flags & 0x80 != 0 {
                        if let Some(t) = txt(at) {
                            out.push(t);
                        }
                    }
                    if flags & 4 != 0 && !five {
                        if let Some(t) = txt(at) {
                            out.push(t);
                        }
                    }
                }
            }
        }
        3 => out.extend(txt(0)),
        8 | 10 => {
            let mut at = match v {
                5 => match prop_block(v, h, body) {
                    Some(p) => p.2,
                    None => return out,
                },
                _ => 2,
            };
            while let Some(t) = txt(at) {
                out.push(t);
                at = t.0 + 2 + t.1 + if h >> 4 == 8 { 1 } else { 0 };
            }
        }
        _ => {}
    }
    out
}

pub const VIOLATIONS: u32 = 29;

/// a frame with the given kind of protocol violation
fn violate(kind: u32, v: u8, s: Size) -> Option<(Vec<u8>, &'static str)> {
    use PacketType::*;
    let of = |k: PacketType| -> (u8, Vec<u8>) {
        let p = gen::packet_of(k, v, s);
        parts(&refcodec::foreign(&p, v))
    };
    let any = || {
        let p = gen::packet(v, s);
        parts(&refcodec::foreign(&p, v))
    };
    let pos = |n: usize| draw(n.max(1) as u32) as usize;
    Some(match kind {
        0 => {
            let (_, b) = any();
            (frame(draw(16) as u8, &b), "reserved packet type")
        }
        1 => {
            let (h, b) = any();
            let h = if h >> 4 == 3 { 0x40 } else { h };
            let f = (h & 15) ^ (1 + draw(15) as u8);
            (frame((h & 0xf0) | f, &b), "wrong reserved header flags")
        }
        2 => {
            let (h, b) = of(Publish);
            (frame(h | 6, &b), "QoS 3")
        }
        3 => {
            let (h, mut b) = of(Connect);
            let at = (b[0] as usize * 256 + b[1] as usize) + 3;
            b[at] |= 1;
            (frame(h, &b), "reserved CONNECT bit")
        }
        4 => {
            let (h, mut b) = of(Connack);
            b[0] |= 2 << draw(7);
            (frame(h, &b), "reserved CONNACK bit")
        }
        5 => {
            let (h, mut b) = of(Subscribe);
            let t = texts(v, h, &b);
            let t = *t.get(pos(t.len()))?;
            let at = t.0 + 2 + t.1;
            b[at] = match draw(3) {
                0 => b[at] | if v == 5 { 0x40 << draw(2) } else { 4 << draw(6) },
                1 => b[at] | 3,
                _ if v == 5 => b[at] | 0x30,
                _ => b[at] | 3,
            };
            (frame(h, &b), "reserved subscription option")
        }
        6 => {
            let (k, codes): (PacketType, &[u8]) = if v == 5 {
                pick(&[
                    (Puback, gen::PUBACK_CODES),
                    (Pubrec, gen::PUBACK_CODES),
                    (Pubrel, gen::PUBREL_CODES),
                    (Pubcomp, gen::PUBREL_CODES),
                    (Suback, gen::SUBACK_CODES),
                    (Unsuback, gen::UNSUBACK_CODES),
                    (Disconnect, gen::DISCONNECT_CODES),
                    (Auth, gen::AUTH_CODES),
                ])
            } else {
                (Suback, &[0, 1, 2, 0x80])
            };
            let mut c = if coin() { draw(256) as u8 } else { pick(gen::DISCONNECT_CODES) };
            if one_in(3) {
                // next to a defined one
                c = pick(codes).wrapping_add(pick(&[1u8, 255, 0x80]));
            }
            if codes.contains(&c) {
                return None;
            }
            let (h, mut b) = of(k);
            match k {
                Suback | Unsuback => {
                    let at = if v == 5 { prop_block(v, h, &b)?.2 } else { 2 };
                    let i = at + pos(b.len() - at);
                    b[i] = c;
                }
                Disconnect | Auth => {
                    if b.is_empty() {
                        b.push(c);
                    } else {
                        b[0] = c;
                    }
                }
                _ => {
                    if b.len() == 2 {
                        b.push(c);
                    } else {
                        b[2] = c;
                    }
                }
            }
            (frame(h, &b), "undefined reason code")
        }
        7 | 8 => {
            if v != 5 {
                return None;
            }
            let k = pick(&[Publish, Connect, Connack, Subscribe, Suback, Unsubscribe, Unsuback, Disconnect, Auth, Puback, Pubrec, Pubrel, Pubcomp]);
            let (h, mut b) = of(k);
            let allowed: &[u8] = match k {
                Publish => refcodec::P_PUBLISH,
                Connect => refcodec::P_CONNECT,
                Connack => refcodec::P_CONNACK,
                Subscribe => refcodec::P_SUBSCRIBE,
                Unsubscribe => refcodec::P_UNSUBSCRIBE,
                Disconnect => refcodec::P_DISCONNECT,
                Auth => refcodec::P_AUTH,
                _ => refcodec::P_ACK,
            };
            // spell short forms out
            match k {
                Disconnect | Auth => {
                    if b.is_empty() {
                        b.push(0);
                    }
                    if b.len() == 1 {
                        b.push(0);
                    }
                }
                Puback | Pubrec | Pubrel | Pubcomp => {
                    if b.len() == 2 {
                        b.push(0);
                    }
                    if b.len() == 3 {
                        b.push(0);
                    }
                }
                _ => {}
            }
            let at = prop_block(v, h, &b)?;
            let id = if kind == 7 { draw(256) as u8 } else { pick(refcodec::ALL_PROPS) };
            if allowed.contains(&id) || (kind == 7 && refcodec::ALL_PROPS.contains(&id)) {
                return None;
            }
            let mut c = b[at.1..at.2].to_vec();
            let p = any_prop(id);
            if coin() {
                c.extend(p);
            } else {
                let mut x = p;
                x.extend(c);
                c = x;
            }
            (frame(h, &with_props(&b, at, &c)), if kind == 7 { "unknown property" } else { "property not allowed in this packet" })
        }
        9 => {
            // invalid UTF-8
            let bad: &[&[u8]] = &[&[0xff], &[0xC0, 0x80], &[0xED, 0xA0, 0x80], &[0xE2, 0x82], &[0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xC3], &[0xF5, 0x80, 0x80, 0x80]];
            let x = bad[pos(bad.len())];
            if v == 5 && coin() {
                let (k, id) = pick(&[(Publish, 0x03u8), (Publish, 0x08), (Puback, 0x1F), (Connack, 0x12), (Connack, 0x1F), (Connect, 0x15), (Subscribe, 0x26), (Publish, 0x26), (Disconnect, 0x1C), (Auth, 0x15), (Suback, 0x1F)]);
                let (h, mut b) = of(k);
                match k {
                    Disconnect | Auth => b = vec![0, 0],
                    Puback => {
                        b.truncate(2);
                        b.extend_from_slice(&[0, 0]);
                    }
                    _ => {}
                }
                let at = prop_block(5, h, &b)?;
                let mut c = vec![id];
                if id == 0x26 && coin() {
                    refcodec::put_bin(&mut c, b"k");
                }
                refcodec::put_bin(&mut c, x);
                if id == 0x26 && c.len() == 3 + x.len() {
                    refcodec::put_bin(&mut c, b"v");
                }
                (frame(h, &with_props(&b, at, &c)), "invalid UTF-8 in a property")
            } else {
                let k = pick(&[Publish, Subscribe, Unsubscribe, Connect]);
                let (h, b) = of(k);
                let t = texts(v, h, &b);
                let t = *t.get(pos(t.len()))?;
                let mut o = b[..t.0].to_vec();
                let cut = pos(t.1 + 1);
                let mut content = b[t.0 + 2..t.0 + 2 + t.1].to_vec();
                let tail = content.split_off(cut);
                content.extend_from_slice(x);
                content.extend(tail);
                if std::str::from_utf8(&content).is_ok() || content.len() > 65535 {
                    return None;
                }
                refcodec::put_bin(&mut o, &content);
                o.extend_from_slice(&b[t.0 + 2 + t.1..]);
                (frame(h, &o), "invalid UTF-8")
            }
        }
        10 => {
            // text longer than the packet
            let k = pick(&[Publish, Subscribe, Unsubscribe, Connect]);
            let (h, mut b) = of(k);
            let t = texts(v, h, &b);
            let t = *t.last()?;
            let rest = b.len() - t.0 - 2;
            let n = rest + 1 + if coin() { 0 } else { draw(60000) as usize };
            if n > 65535 {
                return None;
            }
            b[t.0] = (n >> 8) as u8;
            b[t.0 + 1] = n as u8;
            (frame(h, &b), "text overruns the packet")
        }
        11 => {
            // property block longer than the packet
            if v != 5 {
                return None;
            }
            let (h, b) = any();
            let at = prop_block(v, h, &b)?;
            let rest = b.len() - at.1;
            let n = rest as u32 + 1 + if coin() { 0 } else { draw(300_000) };
            let mut o = b[..at.0].to_vec();
            refcodec::put_var(&mut o, n);
            o.extend_from_slice(&b[at.1..]);
            (frame(h, &o), "property block overruns the packet")
        }
        12 => {
            // property value longer than its block, with bytes behind it
            if v != 5 {
                return None;
            }
            let k = pick(&[Publish, Subscribe, Suback, Unsubscribe, Connect, Unsuback]);
            let (h, b) = of(k);
            let at = prop_block(v, h, &b)?;
            let mut c = b[at.1..at.2].to_vec();
            if c.is_empty() {
                c = any_prop(0x26);
            }
            let cut = 1 + pos(c.len() - 1);
            let rest = c.split_off(cut);
            let mut o = with_props(&b, at, &c);
            let end = at.0 + 1 + c.len();
            if c.len() < 127 {
                let tail = o.split_off(end.min(o.len()));
                o.extend(rest);
                o.extend(tail);
            }
            (frame(h, &o), "property overruns its block")
        }
        13 => {
            // truncated content
            let (h, mut b) = any();
            if b.is_empty() {
                return None;
            }
            let n = pos(b.len());
            b.truncate(n);
            (frame(h, &b), "missing mandatory field")
        }
        14 => {
            let (h, mut b) = match draw(3) {
                0 => any(),
                _ => of(pick(&[Pingreq, Pingresp, Disconnect, Puback, Pubrec, Pubrel, Pubcomp, Connack, Connect, Auth, Unsuback])),
            };
            let k = 1 + draw(4) as usize;
            if coin() {
                b.extend(std::iter::repeat_n(0u8, k));
            } else {
                b.extend(gen::bytes_of(k, draw(1 << 16)));
            }
            (frame(h, &b), "surplus bytes")
        }
        15 | 16 => {
            let (h, mut b) = of(Connect);
            let at = (b[0] as usize * 256 + b[1] as usize) + 3;
            if kind == 15 {
                if b[at] & 4 != 0 {
                    return None;
                }
                b[at] |= pick(&[0x08, 0x10, 0x18, 0x20, 0x28, 0x38]);
                (frame(h, &b), "will QoS or retain without will")
            } else {
                if b[at] & 4 == 0 {
                    return None;
                }
                b[at] |= 0x18;
                (frame(h, &b), "will QoS 3")
            }
        }
        17 => {
            let (h, b) = of(Connect);
            let n = b[0] as usize * 256 + b[1] as usize;
            let mut o = vec![];
            let name: &[u8] = pick(&[&b"MQTt"[..], b"MQISDP", b"", b"MQT", b"MQTT5", b"mqtt", b"HTTP", b"MQIsdpx", b"MQIsd", b" MQTT", b"MQTT\0"]);
            refcodec::put_bin(&mut o, name);
            o.extend_from_slice(&b[2 + n..]);
            (frame(h, &o), "unknown protocol name")
        }
        18 => {
            let (h, mut b) = of(Connect);
            let n = b[0] as usize * 256 + b[1] as usize;
            b[2 + n] = pick(&[0, 1, 2, 6, 7, 100, 127]);
            (frame(h, &b), "unknown protocol version")
        }
        19 => {
            if v == 5 {
                return None;
            }
            let p = gen::packet_of(Auth, 5, s);
            (refcodec::foreign(&p, 5), "AUTH before MQTT 5")
        }
        20 => {
            // empty lists
            let (k, n) = pick(&[(Subscribe, 0), (Unsubscribe, 0), (Suback, 0)]);
            let _ = n;
            let (h, b) = of(k);
            let at = if v == 5 { prop_block(v, h, &b)?.2 } else { 2 };
            (frame(h, &b[..at]), "empty list")
        }
        22 | 23 => {
            // a byte that no text may contain at that place, wherever a text is
            let k = pick(&[Connect, Connect, Publish, Subscribe, Unsubscribe, Connack, Puback, Suback, Disconnect, Auth, Pubrec, Pubcomp, Unsuback, Pubrel]);
            if v != 5 && k == Auth {
                return None;
            }
            let (h, mut b) = of(k);
            if b.is_empty() {
                return None;
            }
            let at = pos(b.len());
            b[at] = pick(&[0xff, 0x80, 0xC0, 0xED, 0xF5, 0xBF]);
            (frame(h, &b), "byte outside of UTF-8")
        }
        24 => {
            let (h, b) = any();
            (damage(v, &frame(h, &b)), "some damage")
        }
        26 => {
            let (h, b) = any();
            (crate::tree::damage(v, &frame(h, &b)), "structural damage")
        }
        27 | 28 => {
            // CONNECT has the most structure
            let (h, b) = of(if coin() { Connect } else { pick(&[Connack, Subscribe, Publish, Auth, Disconnect]) });
            (crate::tree::damage(v, &frame(h, &b)), "structural damage")
        }
        _ => {
            // over-long property length
            if v != 5 {
                return None;
            }
            let (h, b) = any();
            let at = prop_block(v, h, &b)?;
            let mut o = b[..at.0].to_vec();
            o.extend_from_slice(&[0x80, 0x80, 0x80, 0x80, pick(&[0, 1, 0x7f])]);
            o.extend_from_slice(&b[at.1..]);
            (frame(h, &o), "over-long property length")
        }
    })
}

pub fn c12(stratum: u32) {
    let v = version();
    let s = if heavy(stratum) { Size { text: 300, payload: 20_000, list: 50, edges: true } } else { Size::random() };
    let n = 1 + draw(6);
    let mut fs: Vec<(Vec<u8>, Option<&'static str>)> = vec![];
    let base = stratum % VIOLATIONS;
    for f in earlier(stratum, v, false) {
        fs.push((f, None));
    }
    for i in 0..n {
        let k = if i == 0 { base } else { draw(VIOLATIONS) };
        if i == 0 || coin() {
            if let Some((f, what)) = violate(k, v, s) {
                // only what is a violation beyond doubt
                if let Verdict::Reject(_) = parse(v, &f) {
                    fault(F::Malformed);
                    probe(what);
                    logln!("violation ({}): {}", what, hex(&f));
                    fs.push((f, Some(what)));
                }
                continue;
            }
        }
        let p = gen::packet(v, s);
        fs.push((refcodec::foreign(&p, v), None));
    }
    // an unreadable length ends everything
    let fatal = one_in(8);
    let mut data = vec![];
    let mut marks = vec![0];
    for f in &fs {
        data.extend_from_slice(&f.0);
        marks.push(data.len());
    }
    if fatal {
        fault(F::Malformed);
        probe("over-long length field");
        let p = gen::packet(v, Size::small());
        let f = refcodec::foreign(&p, v);
        let (h, b) = parts(&f);
        data.push(h);
        data.extend_from_slice(&[0x80 | draw(128) as u8, 0x80 | draw(128) as u8, 0x80, 0x80]);
        data.push(draw(2) as u8);
        data.extend(b);
        let p = gen::packet(v, Size::small());
        data.extend(refcodec::foreign(&p, v));
    }
    let sched = Sched::random(data.len());
    logln!("delivery {:?}", sched);
    let polls = sched.polls;
    let (mut dec, _l) = open(Link::new(data, sched).with_marks(marks));
    for (i, (f, what)) in fs.iter().enumerate() {
        if coin() {
            let _ = poll(&mut dec, polls);
        }
        let r = decode(&mut dec, v);
        match (what, &r) {
            (Some(w), Ok(p)) => fail!("accepted", "packet {} with a protocol violation ({}) is decoded (version {}): {}\n frame {}", i, w, v, short(p), hex(f)),
            (Some(_), Err(_)) => {}
            (None, r) => {
                if !same_out(r, &solo(f, v), v) {
                    // the position in the stream is wrong, which is for C04
                    return;
                }
            }
        }
    }
    if fatal {
        for _ in 0..3 {
            if let Ok(p) = decode(&mut dec, v) {
                fail!("accepted", "a packet with an over-long length field, or one after it, is decoded: {}", short(&p));
            }
        }
    }
}

// ---------------------------------------------------------------- C13

pub fn c13(stratum: u32) {
    let v = version();
    let s = if heavy(stratum) { Size { text: 3000, payload: 60_000, list: 300, edges: true } } else { Size::random() };
    let hops = 1 + draw(4);
    let n = history_len();
    // (bytes, came from this library's encoder)
    let mut wire: Vec<(Vec<u8>, bool)> = vec![];
    // what the origin sent
    let mut origin: Vec<Option<MqttPacket>> = vec![];
    for f in earlier(stratum, v, coin()) {
        wire.push((f, false));
    }
    for _ in 0..n {
        let mut p = gen::packet(v, s);
        match draw(6) {
            0 | 1 => match encode(&p, v, false) {
                Ok(b) => {
                    origin.resize(wire.len(), None);
                    origin.push(Some(p));
                    wire.push((b, true))
                }
                Err(_) => fault(F::Refused),
            },
            2 => {
                gen::odd(&mut p, v, Size::small());
                match encode(&p, v, false) {
                    Ok(b) => wire.push((b, true)),
                    Err(_) => fault(F::Refused),
                }
            }
            3 | 4 => wire.push((refcodec::foreign(&p, v), false)),
            _ => {
                let f = refcodec::foreign(&p, v);
                wire.push((damage(v, &f), false))
            }
        }
    }
    // what the first relay decodes; errors are dropped there
    let mut prev: Option<Vec<(MqttPacket, bool)>> = None;
    for hop in 0..=hops {
        let mut data = vec![];
        let mut marks = vec![0];
        for (b, _) in &wire {
            data.extend_from_slice(b);
            marks.push(data.len());
        }
        let sched = Sched::random(data.len());
        logln!("hop {}: delivery {:?}", hop, sched);
        let polls = sched.polls;
        let (mut dec, _l) = open(Link::new(data, sched).with_marks(marks));
        let mut got: Vec<(MqttPacket, bool)> = vec![];
        for (i, (b, ours)) in wire.iter().enumerate() {
            if !poll(&mut dec, polls) {
                if hop > 0 {
                    fail!("lost", "hop {}: has_more() is false before packet {}", hop, i);
                }
                break;
            }
            match decode(&mut dec, v) {
                Ok(p) => {
                    if let (0, Some(Some(o))) = (hop, origin.get(i)) {
                        if !same(&p, o, v) {
                            fail!("changed", "packet {} arrives changed at the first relay (version {})\n sent    {}\n arrived {}\n bytes {}", i, v, short(&canon(o, v)), short(&canon(&p, v)), hex(b));
                        }
                    }
                    if let Some(w) = &prev {
                        if !same(&p, &w[i].0, v) {
                            fail!("changed", "hop {}: relayed packet {} changed (version {})\n relay had {}\n next hop  {}\n bytes {}", hop, i, v, short(&canon(&w[i].0, v)), short(&canon(&p, v)), hex(b));
                        }
                    }
                    got.push((p, *ours));
                }
                Err(e) => {
                    if let Some(w) = &prev {
                        fail!("error", "hop {}: relayed packet {} is refused by the next hop: {}\n relay had {}\n bytes {}", hop, i, e, short(&w[i].0), hex(b));
                    }
                }
            }
        }
        if hop > 0 && more(&mut dec) {
            fail!("left-over", "hop {}: has_more() is true after the last packet", hop);
        }
        // send on
        wire = vec![];
        let mut kept = vec![];
        for (p, ours) in got {
            match encode(&p, v, one_in(4)) {
                Ok(b) => {
                    wire.push((b, ours));
                    kept.push((p, true));
                }
                Err(e) => {
                    fault(F::Refused);
                    if ours {
                        fail!("refused", "a relay can not send on a packet that came from this library's encoder: {}\n packet {}", e, short(&p));
                    }
                    probe("relay refuses a packet of a foreign peer");
                }
            }
        }
        // from the second hop on everything came from this library
        for w in wire.iter_mut() {
            w.1 = true;
        }
        prev = Some(kept);
        if wire.is_empty() {
            break;
        }
        probe("relayed");
    }
}
