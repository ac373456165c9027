//! Pieces the scenarios share.

use crate::cx::*;
use crate::gen::{self, Size};
use crate::link::*;
use crate::refcodec::{self, canon, next_frame, Framing};
use crate::seam::lib;
use crate::{fail, logln};
use mqtt_packet_3_5::*;

pub type Out = Result<MqttPacket, String>;

pub fn decode(dec: &mut Dec, v: u8) -> Out {
    let r = lib(|| dec.decode_packet(v));
    match &r {
        Ok(p) => {
            count_packet();
            event(1, kind_of(p), 0);
            if verbose() {
                logln!("decode({}): Ok {}", v, short(p));
            }
        }
        Err(e) => {
            event(2, 0, 0);
            if verbose() {
                logln!("decode({}): Err {}", v, short(e));
            }
        }
    }
    r
}

pub fn more(dec: &mut Dec) -> bool {
    let r = lib(|| dec.has_more());
    event(3, r as u64, 0);
    r
}

/// has-more query plus extra ones, which have to agree
pub fn poll(dec: &mut Dec, extra: u32) -> bool {
    let r = more(dec);
    if r {
        for _ in 0..extra {
            fault(F::ExtraPoll);
            if !more(dec) {
                fail!("has-more", "has_more() was true, then false without anything being read");
            }
        }
    }
    r
}

pub fn kind_of(p: &MqttPacket) -> u64 {
    match p {
        MqttPacket::Connect(_) => 1,
        MqttPacket::Connack(_) => 2,
        MqttPacket::Publish(_) => 3,
        MqttPacket::Puback(_) => 4,
        MqttPacket::Pubrec(_) => 5,
        MqttPacket::Pubrel(_) => 6,
        MqttPacket::Pubcomp(_) => 7,
        MqttPacket::Subscribe(_) => 8,
        MqttPacket::Suback(_) => 9,
        MqttPacket::Unsubscribe(_) => 10,
        MqttPacket::Unsuback(_) => 11,
        MqttPacket::Pingreq => 12,
        MqttPacket::Pingresp => 13,
        MqttPacket::Disconnect(_) => 14,
        MqttPacket::Auth(_) => 15,
    }
}

pub const KIND_PROBE: [&str; 16] = [
    "", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE",
    "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH",
];

/// through the packet enum or through the packet type itself
pub fn encode(p: &MqttPacket, v: u8, direct: bool) -> Res<Vec<u8>> {
    let r = if direct {
        lib(|| match p {
            MqttPacket::Connect(x) => x.encode(v),
            MqttPacket::Connack(x) => x.encode(v),
            MqttPacket::Subscribe(x) => x.encode(v),
            MqttPacket::Suback(x) => x.encode(v),
            MqttPacket::Publish(x) => x.encode(v),
            MqttPacket::Puback(x) | MqttPacket::Pubrec(x) | MqttPacket::Pubrel(x) | MqttPacket::Pubcomp(x) => {
                x.encode(v)
            }
            MqttPacket::Unsubscribe(x) => x.encode(v),
            MqttPacket::Unsuback(x) => x.encode(v),
            MqttPacket::Pingreq => PingreqPacket {}.encode(v),
            MqttPacket::Pingresp => PingrespPacket {}.encode(v),
            MqttPacket::Disconnect(x) => x.encode(v),
            MqttPacket::Auth(x) => x.encode(v),
        })
    } else {
        let q = p.clone();
        lib(|| q.encode(v))
    };
    match &r {
        Ok(b) => {
            event(4, b.len() as u64, hash_bytes(&b[..b.len().min(4096)]));
            if verbose() {
                logln!("encode({}) {} -> {}", v, short(p), hex(b));
            }
        }
        Err(e) => {
            event(5, 0, 0);
            if verbose() {
                logln!("encode({}) {} -> Err {}", v, short(p), e);
            }
        }
    }
    r
}

/// packets and their encodings
pub struct Sent {
    pub pkts: Vec<MqttPacket>,
    pub bytes: Vec<u8>,
    /// where each packet ends
    pub ends: Vec<usize>,
}

impl Sent {
    pub fn new() -> Sent {
        Sent {
            pkts: vec![],
            bytes: vec![],
            ends: vec![],
        }
    }
    pub fn push(&mut self, p: MqttPacket, b: &[u8]) {
        self.pkts.push(p);
        self.bytes.extend_from_slice(b);
        self.ends.push(self.bytes.len());
    }
    pub fn marks(&self) -> Vec<usize> {
        let mut m = vec![0];
        m.extend_from_slice(&self.ends);
        m
    }
    pub fn start(&self, i: usize) -> usize {
        if i == 0 {
            0
        } else {
            self.ends[i - 1]
        }
    }
}

pub fn history_len() -> u32 {
    if let Some(n) = new_number(60, 1500) {
        return n + draw(20);
    }
    match draw(6) {
        0 => 1,
        1 => 2,
        2 | 3 => 1 + draw(6),
        4 => 1 + draw(12),
        _ => 1 + draw(40),
    }
}

/// a history of valid packets, encoded by the library; unless it must accept
/// them all, what it refuses is encoded by the independent encoder
pub fn lib_history(must: bool, v: u8, n: u32, s: Size) -> Sent {
    let mut out = Sent::new();
    for _ in 0..n {
        let p = gen::packet(v, s);
        let direct = coin();
        match encode(&p, v, direct) {
            Ok(b) => {
                let c = canon(&p, v);
                probe(KIND_PROBE[kind_of(&c) as usize]);
                out.push(c, &b)
            }
            Err(e) if must => fail!("refused", "the encoder refuses a valid packet: {}\n{}", e, short(&p)),
            Err(_) => {
                let c = canon(&p, v);
                let b = refcodec::foreign(&c, v);
                out.push(c, &b)
            }
        }
        if out.bytes.len() > 400_000 {
            break;
        }
    }
    out
}

/// a history of valid packets, encoded by the independent encoder
pub fn foreign_history(v: u8, n: u32, s: Size) -> Sent {
    let mut out = Sent::new();
    for _ in 0..n {
        let p = gen::packet(v, s);
        let b = refcodec::foreign(&p, v);
        let c = canon(&p, v);
        probe(KIND_PROBE[kind_of(&c) as usize]);
        if verbose() {
            logln!("peer sends {} as {}", short(&c), hex(&b));
        }
        out.push(c, &b);
        if out.bytes.len() > 400_000 {
            break;
        }
    }
    out
}

pub fn same(got: &MqttPacket, want: &MqttPacket, v: u8) -> bool {
    canon(got, v) == canon(want, v)
}

/// puts valid frames in front of a history
pub fn after(earlier: Vec<Vec<u8>>, v: u8, sent: Sent) -> Sent {
    if earlier.is_empty() {
        return sent;
    }
    let mut out = Sent::new();
    let mut known: std::collections::HashMap<Vec<u8>, MqttPacket> = Default::default();
    for f in earlier {
        if !known.contains_key(&f) {
            match refcodec::parse(v, &f) {
                refcodec::Verdict::Accept(p, _) => known.insert(f.clone(), p),
                _ => continue,
            };
        }
        out.push(known[&f].clone(), &f);
    }
    for i in 0..sent.pkts.len() {
        out.push(sent.pkts[i].clone(), &sent.bytes[sent.start(i)..sent.ends[i]]);
    }
    out
}

/// decodes a whole connection and compares with what was sent
pub fn expect_all(sent: &Sent, link: Link, v: u8) {
    let polls = link.sched.polls;
    logln!("delivery: {:?}", link.sched);
    let (mut dec, l) = open(link);
    for (i, want) in sent.pkts.iter().enumerate() {
        if !poll(&mut dec, polls) {
            fail!("lost", "has_more() is false before packet {} of {}: {}", i, sent.pkts.len(), short(want));
        }
        match decode(&mut dec, v) {
            Ok(p) if same(&p, want, v) => {}
            Ok(p) => fail!("changed", "packet {} arrives changed (version {})\n sent {}\n got  {}\n bytes {}",
                i, v, short(want), short(&canon(&p, v)), hex(&sent.bytes[sent.start(i)..sent.ends[i]])),
            Err(e) => fail!("error", "packet {} is refused by the decoder (version {}): {}\n sent {}\n bytes {}",
                i, v, e, short(want), hex(&sent.bytes[sent.start(i)..sent.ends[i]])),
        }
    }
    for _ in 0..2 {
        if more(&mut dec) {
            fail!("left-over", "has_more() is true after the last packet");
        }
        if let Ok(p) = decode(&mut dec, v) {
            fail!("invented", "a packet after the last one: {}", short(&p));
        }
    }
    let l = match l.lock() {
        Ok(l) => l,
        Err(p) => p.into_inner(),
    };
    if l.pos != l.data.len() {
        fail!("left-over", "{} bytes of the stream are not read", l.data.len() - l.pos);
    }
}

/// one frame on a connection of its own, delivered at once
pub fn solo(frame: &[u8], v: u8) -> Out {
    let mut dec = lib(|| PacketDecoder::from_stream(std::io::Cursor::new(frame.to_vec())));
    lib(|| dec.decode_packet(v))
}

pub fn same_out(a: &Out, b: &Out, v: u8) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => same(x, y, v),
        (Err(_), Err(_)) => true,
        _ => false,
    }
}

// ---------------------------------------------------------------- damage

/// puts a body behind a header byte and a correct length
pub fn frame(h: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![h];
    refcodec::put_var(&mut o, body.len() as u32);
    o.extend_from_slice(body);
    o
}

pub fn parts(f: &[u8]) -> (u8, Vec<u8>) {
    match next_frame(f, 0) {
        Framing::Frame(x) => (f[0], f[x.body..].to_vec()),
        _ => (0xC0, vec![]),
    }
}

/// where the property block of a frame's body is: (length position, content start, end)
pub fn prop_block(v: u8, h: u8, body: &[u8]) -> Option<(usize, usize, usize)> {
    let u16at = |i: usize| -> Option<usize> { Some((*body.get(i)? as usize) << 8 | *body.get(i + 1)? as usize) };
    if v != 5 && h >> 4 != 1 {
        return None;
    }
    let at = match h >> 4 {
        1 => {
            let n = 2 + u16at(0)?;
            if *body.get(n)? != 5 {
                return None;
            }
            n + 4
        }
        2 => 2,
        3 => 2 + u16at(0)? + if h & 6 != 0 { 2 } else { 0 },
        4..=7 => 3,
        8..=11 => 2,
        14 | 15 => 1,
        _ => return None,
    };
    let (mut n, mut i) = (0usize, at);
    loop {
        let x = *body.get(i)?;
        n |= ((x & 0x7f) as usize) << (7 * (i - at));
        i += 1;
        if x & 0x80 == 0 {
            break;
        }
        if i - at >= 4 {
            return None;
        }
    }
    if i + n > body.len() {
        return None;
    }
    Some((at, i, i + n))
}

/// replaces the content of a property block
pub fn with_props(body: &[u8], at: (usize, usize, usize), content: &[u8]) -> Vec<u8> {
    let mut o = body[..at.0].to_vec();
    refcodec::put_var(&mut o, content.len() as u32);
    o.extend_from_slice(content);
    o.extend_from_slice(&body[at.2..]);
    o
}

/// some property with a well formed value
pub fn any_prop(id: u8) -> Vec<u8> {
    let mut o = vec![id];
    match id {
        0x02 | 0x11 | 0x18 | 0x27 => o.extend_from_slice(&u32_val().to_be_bytes()),
        0x13 | 0x21 | 0x22 | 0x23 => o.extend_from_slice(&u16_val().to_be_bytes()),
        0x01 | 0x17 | 0x19 | 0x25 | 0x28 | 0x29 | 0x2A | 0x24 => o.push(draw(2) as u8),
        0x0B => refcodec::put_var(&mut o, gen::sub_id()),
        0x26 => {
            refcodec::put_bin(&mut o, gen::text_of(draw(5) as usize, 1).as_bytes());
            refcodec::put_bin(&mut o, gen::text_of(draw(5) as usize, 2).as_bytes());
        }
        _ => refcodec::put_bin(&mut o, gen::text_of(draw(9) as usize, 3).as_bytes()),
    }
    o
}

/// damages a frame, its length field stays readable and right
pub fn damage(v: u8, f: &[u8]) -> Vec<u8> {
    if one_in(3) {
        return crate::tree::damage(v, f);
    }
    let (mut h, mut body) = parts(f);
    let rounds = 1 + draw(2);
    for _ in 0..rounds {
        let n = body.len() as u32;
        match draw(12) {
            0 => h = draw(256) as u8,
            1 => h = (h & 0xf0) | draw(16) as u8,
            2 if n > 0 => {
                let i = draw(n) as usize;
                body[i] ^= 1 << draw(8);
                fault(F::BitFlip);
            }
            3 if n > 0 => {
                let i = draw(n) as usize;
                body[i] = pick(&[0, 0xff, 0x80, 0x7f, 1, 0xC0, 0x26, 0x0B, 3]);
                fault(F::BitFlip);
            }
            4 if n > 0 => body.truncate(draw(n) as usize),
            5 => {
                let k = 1 + draw(5) as usize;
                body.extend(gen::bytes_of(k, draw(1 << 16)));
            }
            6 if n > 0 => {
                // near the beginning, where the lengths are
                let i = draw(n.min(12)) as usize;
                body[i] = draw(256) as u8;
                fault(F::BitFlip);
            }
            7 => {
                let k = draw(30) as usize;
                body = gen::bytes_of(k, draw(1 << 16));
                fault(F::Garbage);
            }
            8 if n > 0 => {
                let i = draw(n) as usize;
                body.insert(i, draw(256) as u8);
            }
            9 if n > 0 => {
                let i = draw(n) as usize;
                body.remove(i);
            }
            _ => {
                if let Some(at) = prop_block(v, h, &body) {
                    let mut c = body[at.1..at.2].to_vec();
                    match draw(5) {
                        0 => {
                            let id = draw(256) as u8;
                            c.extend(any_prop(id))
                        }
                        1 => {
                            let mut x = any_prop(pick(refcodec::ALL_PROPS));
                            x.extend(c);
                            c = x;
                        }
                        2 => {
                            let k = draw(c.len() as u32 + 1) as usize;
                            c.truncate(k)
                        }
                        3 => c.push(draw(256) as u8),
                        _ => {
                            // only the length changes
                            let d = draw(2 * (body.len() as u32) + 4);
                            let mut o = body[..at.0].to_vec();
                            refcodec::put_var(&mut o, d);
                            o.extend_from_slice(&body[at.1..]);
                            body = o;
                            continue;
                        }
                    }
                    body = with_props(&body, at, &c);
                } else if n > 0 {
                    let i = draw(n) as usize;
                    body[i] = draw(256) as u8;
                    fault(F::BitFlip);
                }
            }
        }
    }
    fault(F::Malformed);
    frame(h, &body)
}

/// well formed and damaged frames, with readable lengths
pub fn mixed_frames(v: u8, n: u32, s: Size, bad_one_in: u32) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut size = 0;
    for _ in 0..n {
        let p = gen::packet(v, s);
        let mut f = if coin() {
            refcodec::foreign(&p, v)
        } else {
            match encode(&p, v, false) {
                Ok(b) => b,
                Err(_) => refcodec::foreign(&p, v),
            }
        };
        if draw(bad_one_in) == 0 {
            f = damage(v, &f);
        }
        size += f.len();
        logln!("frame {}", hex(&f));
        out.push(f);
        if size > 400_000 {
            break;
        }
    }
    out
}

/// what came before on a connection that lasts long already: the same few
/// small frames over and over, in some runs
pub fn earlier(stratum: u32, v: u8, bad: bool) -> Vec<Vec<u8>> {
    let n = match stratum {
        960..=967 => pick(&[33usize, 40, 70, 130, 260, 520]),
        968 => pick(&[1100usize, 1100, 1100, 4200, 4200, 17_000, 17_000, 66_000]),
        _ => return vec![],
    };
    probe("connection that lasts long already");
    let s = Size { text: 6, payload: 10, list: 2, edges: false };
    let few = mixed_frames(v, 1 + draw(4), s, if bad { pick(&[1, 2, 4]) } else { 1_000_000 });
    let seed = draw(1 << 16);
    let mut size = 0;
    let mut out = vec![];
    for i in 0..n {
        let k = crate::seam::mix(((seed as u64) << 32) | i as u64) % few.len() as u64;
        let f = few[k as usize].clone();
        size += f.len();
        out.push(f);
        if size > 1_000_000 {
            break;
        }
    }
    logln!("  {} frames of these", out.len());
    out
}

pub fn concat(fs: &[Vec<u8>]) -> (Vec<u8>, Vec<usize>) {
    let mut b = vec![];
    let mut m = vec![0];
    for f in fs {
        b.extend_from_slice(f);
        m.push(b.len());
    }
    (b, m)
}

/// arbitrary bytes: packets, damaged packets, hostile lengths, noise
pub fn soup(v: u8, s: Size) -> Vec<u8> {
    let mut out = vec![];
    let n = 1 + draw(8);
    for _ in 0..n {
        match draw(8) {
            0 | 1 => {
                let p = gen::packet(v, s);
                out.extend(refcodec::foreign(&p, v));
            }
            2 | 3 => {
                let p = gen::packet(v, s);
                let f = refcodec::foreign(&p, v);
                out.extend(damage(v, &f));
            }
            4 => {
                // damaged without regard to the length field
                let p = gen::packet(v, s);
                let mut f = refcodec::foreign(&p, v);
                let i = draw(f.len() as u32) as usize;
                match draw(3) {
                    0 => f[i] ^= 1 << draw(8),
                    1 => {
                        f.remove(i);
                    }
                    _ => f.truncate(i),
                }
                fault(F::BitFlip);
                out.extend(f);
            }
            5 => {
                fault(F::Garbage);
                let k = draw(40) as usize;
                out.extend(gen::bytes_of(k, draw(1 << 16)));
            }
            6 => {
                fault(F::Hostile);
                out.extend(hostile(v));
            }
            _ => {
                fault(F::Garbage);
                let b = pick(&[0u8, 0xff, 0x80, 0x7f, 0x10, 0x30, 0x26]);
                let k = draw(12) as usize;
                out.extend(std::iter::repeat_n(b, k));
            }
        }
    }
    out
}

/// a packet whose lengths claim far more than follows
pub fn hostile(v: u8) -> Vec<u8> {
    let mut o = vec![];
    let claim = pick(&[268435455u32, 268435454, 200_000_000, 16_777_216, 2_097_152, 1_000_000, 65_536, 30_000]);
    let h = pick(&[
        0x30, 0x32, 0x34, 0x10, 0x20, 0x40, 0x50, 0x62, 0x70, 0x82, 0x90, 0xA2, 0xB0, 0xC0, 0xD0, 0xE0, 0xF0, 0x00, 0x31, 0x36, 0x8F,
    ]);
    o.push(h);
    refcodec::put_var(&mut o, claim);
    let inner = |o: &mut Vec<u8>| match draw(5) {
        0 => refcodec::put_var(o, claim.saturating_sub(draw(20))),
        1 => refcodec::put_u16(o, 65535),
        2 => {
            refcodec::put_u16(o, 4);
            o.extend_from_slice(b"MQTT");
            o.push(pick(&[5, 4, 3]));
            o.push(pick(&[0, 2, 0xC6, 0xFE, 0xEE]));
            refcodec::put_u16(o, 10);
        }
        3 => {
            let k = draw(6) as usize;
            refcodec::put_bin(o, &gen::bytes_of(k, 4));
        }
        _ => o.extend(any_prop(pick(refcodec::ALL_PROPS))),
    };
    let k = draw(5);
    if h & 0xf0 == 0x30 && coin() {
        refcodec::put_bin(&mut o, b"topic");
        if h & 6 != 0 {
            refcodec::put_u16(&mut o, 1);
        }
        if v == 5 {
            o.push(0);
        }
    }
    for _ in 0..k {
        inner(&mut o);
    }
    let tail = match draw(4) {
        0 => 0,
        1 => draw(20),
        2 => draw(300),
        _ => draw(40_000),
    };
    o.extend(gen::bytes_of((tail).min(claim) as usize, tail));
    o
}

/// a frame made of as many tiny elements as possible: what the decoder has to
/// keep per received byte is largest here
pub fn dense(v: u8, n: usize) -> Vec<u8> {
    let mut items = vec![];
    let distinct = |i: usize, o: &mut Vec<u8>| {
        let c = b"abcdefghijklmnopqrstuvwxyz0123456789";
        let key = [c[i % 36], c[i / 36 % 36], c[i / 1296 % 36]];
        let len = if i < 36 {
            1
        } else if i < 1296 {
            2
        } else {
            3
        };
        refcodec::put_bin(o, &key[..len]);
    };
    let kind = draw(if v == 5 { 10 } else { 4 });
    let mut i = 0;
    while items.len() < n {
        match kind {
            // empty topics, codes
            0 => items.extend([0, 0, 1]),
            1 => items.extend([0, 0]),
            2 => items.push((i % 3) as u8),
            3 => {
                distinct(i, &mut items);
                items.push(0);
            }
            // properties
            4 | 5 => {
                items.push(0x26);
                distinct(i, &mut items);
                items.extend([0, 0]);
            }
            6 => items.extend([0x26, 0, 0, 0, 0]),
            7 => items.extend([0x0B, 1 + (i % 100) as u8]),
            8 => items.extend(any_prop(0x01)),
            _ => items.extend([0x26, 0, 1, b'k', 0, 1, b'v']),
        }
        i += 1;
    }
    let mut body = vec![];
    let h = match kind {
        0 | 3 => 0x82,
        1 => 0xA2,
        2 => pick(&[0x90, 0xB0]),
        7 => 0x30,
        _ => pick(&[0x30, 0x82, 0xA2, 0x40, 0x90, 0xB0, 0x10, 0x20, 0xE0, 0xF0]),
    };
    let props = |o: &mut Vec<u8>, items: &[u8]| {
        refcodec::put_var(o, items.len() as u32);
        o.extend(items);
    };
    if kind < 4 {
        refcodec::put_u16(&mut body, 7);
        if v == 5 {
            body.push(0);
        }
        body.extend(&items);
    } else {
        match h {
            0x30 => {
                refcodec::put_bin(&mut body, b"t");
                props(&mut body, &items);
            }
            0x40 => {
                body.extend([0, 7, 0]);
                props(&mut body, &items);
            }
            0x82 | 0xA2 | 0x90 | 0xB0 => {
                body.extend([0, 7]);
                props(&mut body, &items);
                body.extend(if h == 0x82 { &[0, 1, b't', 0][..] } else if h == 0xA2 { &[0, 1, b't'][..] } else { &[0][..] });
            }
            0x10 => {
                refcodec::put_bin(&mut body, b"MQTT");
                body.extend([5, 2, 0, 9]);
                props(&mut body, &items);
                body.extend([0, 1, b'c']);
            }
            0x20 => {
                body.extend([0, 0]);
                props(&mut body, &items);
            }
            0xE0 => {
                body.push(0x8B);
                props(&mut body, &items);
            }
            _ => {
                body.push(0x18);
                let mut with = vec![0x15, 0, 1, b'm'];
                with.extend(&items);
                props(&mut body, &with);
            }
        }
    }
    frame(h, &body)
}

/// a very long run of the same tiny frame
pub fn run_of_frames(v: u8, n: usize) -> Vec<u8> {
    let one = match draw(10) {
        0 | 1 => vec![0, 0],
        2 => vec![0xC0, 0],
        3 => vec![0xD0, 0],
        4 => vec![0xE0, 0],
        5 => vec![0x36, 0],
        6 => vec![pick(&[0x10, 0x20, 0x30, 0x40, 0x50, 0x62, 0x70, 0x82, 0x90, 0xA2, 0xB0, 0xF0]), 0],
        7 => vec![0, 1, 0],
        8 => vec![0x30, 3, 0, 1, b't'],
        _ => {
            let p = gen::packet(v, Size::small());
            let f = refcodec::foreign(&p, v);
            damage(v, &f)
        }
    };
    let k = (n / one.len().max(1)).max(1);
    fault(F::Garbage);
    one.repeat(k)
}

/// an offset in a stream with bias to the interesting ones
pub fn offset(n: usize, marks: &[usize]) -> usize {
    if n == 0 {
        return 0;
    }
    let o = match draw(4) {
        0 => draw(n as u32 + 1) as usize,
        1 => marks[draw(marks.len() as u32) as usize],
        2 => marks[draw(marks.len() as u32) as usize] + 1 + draw(6) as usize,
        _ => marks[draw(marks.len() as u32) as usize].saturating_sub(1 + draw(3) as usize),
    };
    o.min(n)
}

