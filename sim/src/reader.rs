//! Random operation sequences on the byte reader, compared with a model that
//! is a position in a flat stream and a stack of regions (C16).

use crate::cx::*;
use crate::gen;
use crate::link::*;
use crate::refcodec;
use crate::seam::lib;
use crate::gen::Size;
use crate::util::{any_prop, damage, decode, same_out, solo};
use crate::{fail, logln};
use mqtt_packet_3_5::byte_reader::ByteReader;
use mqtt_packet_3_5::*;
use std::io::BufReader;
use std::sync::{Arc, Mutex};

pub struct Model {
    pub data: Vec<u8>,
    pub pos: usize,
    /// what is left of each region, innermost last
    left: Vec<usize>,
    /// what follows after the connection stopped once
    later: Option<Vec<u8>>,
    /// the last read ran into the end of what there is
    dry: bool,
    /// the connection stopped where the reader was: it may go on or give up
    doubt: bool,
}

/// what is known after the connection stopped once and goes on
enum After {
    /// exactly where it was
    Go,
    /// some bytes are gone
    Lost,
    Unknown,
}

/// what the model says about an operation
pub enum Want<T> {
    Ok(T, usize),
    /// refused by the limit, nothing consumed
    Refused,
    /// an error, at most this many bytes consumed
    Bad(usize),
    /// a value or an error, lenient and strict readers differ
    Either(T, usize),
    /// the stream ends first
    Dry,
}

impl Model {
    pub fn new(data: Vec<u8>, pos: usize, left: Vec<usize>) -> Model {
        Model { data, pos, left, later: None, dry: false, doubt: false }
    }
    /// a read failed because the connection stopped
    fn stopped(&mut self, whole: bool) -> After {
        let Some(more) = self.later.take() else { return After::Unknown };
        let gone = !self.rest().is_empty();
        self.data.extend(more);
        if !gone {
            self.doubt = true;
            After::Go
        } else if whole || !self.left.is_empty() {
            After::Lost
        } else {
            After::Unknown
        }
    }
    fn room(&self) -> usize {
        self.left.last().copied().unwrap_or(usize::MAX)
    }
    fn rest(&self) -> &[u8] {
        &self.data[self.pos..]
    }
    pub fn advance(&mut self, n: usize) {
        self.pos += n;
        for l in self.left.iter_mut() {
            *l -= n;
        }
    }
    fn fixed(&self, n: usize) -> Want<Vec<u8>> {
        if n > self.room() {
            Want::Refused
        } else if n > self.rest().len() {
            Want::Dry
        } else {
            Want::Ok(self.rest()[..n].to_vec(), n)
        }
    }
    /// length prefixed bytes
    fn prefixed(&self) -> Want<Vec<u8>> {
        let p = match self.fixed(2) {
            Want::Ok(b, _) => u16::from_be_bytes([b[0], b[1]]) as usize,
            Want::Refused => return Want::Refused,
            _ => return Want::Dry,
        };
        if p + 2 > self.room() {
            Want::Bad(2)
        } else if p + 2 > self.rest().len() {
            Want::Dry
        } else {
            Want::Ok(self.rest()[2..2 + p].to_vec(), p + 2)
        }
    }
    fn utf8(&self) -> Want<String> {
        match self.prefixed() {
            Want::Ok(b, n) => match String::from_utf8(b) {
                Ok(s) if s.contains('\0') => Want::Either(s, n),
                Ok(s) => Want::Ok(s, n),
                Err(_) => Want::Bad(n),
            },
            Want::Refused => Want::Refused,
            Want::Bad(n) => Want::Bad(n),
            _ => Want::Dry,
        }
    }
    fn varint(&self) -> Want<u32> {
        let mut x = 0u32;
        for i in 0..4 {
            if i >= self.room() {
                return if i == 0 { Want::Refused } else { Want::Bad(i) };
            }
            let Some(b) = self.rest().get(i).copied() else { return Want::Dry };
            x |= ((b & 0x7f) as u32) << (7 * i);
            if b & 0x80 == 0 {
                return if i > 0 && b == 0 { Want::Either(x, i + 1) } else { Want::Ok(x, i + 1) };
            }
        }
        Want::Bad(4)
    }
    /// a property block
    #[allow(clippy::type_complexity)]
    pub fn properties(&self) -> Want<Vec<(u8, Vec<u8>)>> {
        let (len, n, lenient) = match self.varint() {
            Want::Ok(x, n) => (x as usize, n, false),
            Want::Either(x, n) => (x as usize, n, true),
            Want::Refused => return Want::Refused,
            Want::Bad(n) => return Want::Bad(n),
            Want::Dry => return Want::Dry,
        };
        if n + len > self.room() {
            return Want::Bad(usize::MAX);
        }
        if n + len > self.rest().len() {
            // may fail early or not
            return Want::Dry;
        }
        let mut inner = Model::new(self.rest()[n..n + len].to_vec(), 0, vec![len]);
        let mut out: Vec<(u8, Vec<u8>)> = vec![];
        let mut lenient = lenient;
        while inner.room() > 0 {
            let id = inner.rest()[0];
            inner.advance(1);
            let mut take = |w: Want<Vec<u8>>, inner: &mut Model| -> Option<Vec<u8>> {
                match w {
                    Want::Ok(b, n) => {
                        inner.advance(n);
                        Some(b)
                    }
                    Want::Either(b, n) => {
                        lenient = true;
                        inner.advance(n);
                        Some(b)
                    }
                    _ => None,
                }
            };
            let text = |m: &Model| match m.utf8() {
                Want::Ok(s, n) => Want::Ok(s.into_bytes(), n),
                Want::Either(s, n) => Want::Either(s.into_bytes(), n),
                _ => Want::Refused,
            };
            let got = match id {
                0x01 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28 | 0x29 | 0x2A => {
                    let w = match inner.fixed(1) {
                        Want::Ok(b, n) if b[0] > 1 => Want::Either(if id == 0x24 { b } else { vec![1] }, n),
                        w => w,
                    };
                    take(w, &mut inner)
                }
                0x13 | 0x21 | 0x22 | 0x23 => take(inner.fixed(2), &mut inner),
                0x02 | 0x11 | 0x18 | 0x27 => take(inner.fixed(4), &mut inner),
                0x0B => {
                    let w = match inner.varint() {
                        Want::Ok(x, n) => Want::Ok(x.to_be_bytes().to_vec(), n),
                        Want::Either(x, n) => Want::Either(x.to_be_bytes().to_vec(), n),
                        _ => Want::Refused,
                    };
                    take(w, &mut inner)
                }
                0x09 => take(inner.prefixed(), &mut inner),
                0x03 | 0x08 | 0x12 | 0x15 | 0x16 | 0x1A | 0x1C | 0x1F => take(text(&inner), &mut inner),
                0x26 => {
                    let k = take(text(&inner), &mut inner);
                    let v = k.as_ref().and_then(|_| take(text(&inner), &mut inner));
                    match (k, v) {
                        (Some(k), Some(v)) => {
                            let mut o = vec![];
                            refcodec::put_bin(&mut o, &k);
                            refcodec::put_bin(&mut o, &v);
                            Some(o)
                        }
                        _ => None,
                    }
                }
                _ => None,
            };
            match got {
                Some(b) => {
                    if id != 0x26 && out.iter().any(|x| x.0 == id) {
                        lenient = true; // a strict reader refuses repetitions
                    }
                    out.push((id, b))
                }
                None => return Want::Bad(usize::MAX),
            }
        }
        if lenient {
            Want::Either(out, n + len)
        } else {
            Want::Ok(out, n + len)
        }
    }
}

/// properties in a comparable form
pub fn plain(ps: Option<Vec<(u8, PropType)>>) -> Vec<(u8, Vec<u8>)> {
    let mut out = vec![];
    let pair = |k: &str, v: &str| {
        let mut o = vec![];
        refcodec::put_bin(&mut o, k.as_bytes());
        refcodec::put_bin(&mut o, v.as_bytes());
        o
    };
    for (id, p) in ps.unwrap_or_default() {
        match p {
            PropType::U32(x) | PropType::VarInt(x) => out.push((id, x.to_be_bytes().to_vec())),
            PropType::U16(x) => out.push((id, x.to_be_bytes().to_vec())),
            PropType::U8(x) => out.push((id, vec![x])),
            PropType::Bool(x) => out.push((id, vec![x as u8])),
            PropType::Str(s) => out.push((id, s.as_bytes().to_vec())),
            PropType::String(s) => out.push((id, s.into_bytes())),
            PropType::Binary(b) => out.push((id, b)),
            PropType::BinaryRef(b) => out.push((id, b.to_vec())),
            PropType::U32Vec(xs) => {
                for x in xs {
                    out.push((id, x.to_be_bytes().to_vec()))
                }
            }
            PropType::Pair(k, v) => out.push((id, pair(&k, &v))),
            PropType::Map(m) => {
                let mut ks: Vec<_> = m.into_iter().collect();
                ks.sort();
                for (k, vs) in ks {
                    for v in vs {
                        out.push((id, pair(&k, &v)));
                    }
                }
            }
            PropType::MapRef(m) => {
                let mut ks: Vec<_> = m.iter().collect();
                ks.sort();
                for (k, vs) in ks {
                    for v in vs {
                        out.push((id, pair(k, v)));
                    }
                }
            }
        }
    }
    out
}

/// values of one user property keep their order, nothing else has one
pub fn sorted(mut p: Vec<(u8, Vec<u8>)>) -> Vec<(u8, Vec<u8>)> {
    let key = |x: &(u8, Vec<u8>)| {
        let b = &x.1;
        let k = if x.0 == 0x26 { b[..2 + u16::from_be_bytes([b[0], b[1]]) as usize].to_vec() } else { vec![] };
        (x.0, k)
    };
    p.sort_by_key(key);
    p
}

pub const PROP_IDS: &[u8] = &[
    0x26, 0x01, 0x02, 0x03, 0x08, 0x09, 0x0B, 0x11, 0x12, 0x13, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1A, 0x1C, 0x1F, 0x21, 0x22, 0x23, 0x24,
    0x25, 0x27, 0x28, 0x29, 0x2A,
];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    U8,
    U16,
    U32,
    Len,
    Bool,
    Utf8,
    Binary,
    Var,
    Props,
    Header,
    Packet,
}
const OPS: &[Op] = &[Op::U8, Op::U16, Op::U32, Op::Len, Op::Bool, Op::Utf8, Op::Binary, Op::Var, Op::Props, Op::Header, Op::Packet];

type Reader = ByteReader<SimRead>;
type Decoder = PacketDecoder<SimRead>;

fn remainder(r: &mut Reader, m: &mut Model, most: usize) -> bool {
    // only the rest of the region is known: it is a suffix
    let n = m.room();
    if m.left.is_empty() || n > m.rest().len() {
        return false;
    }
    let got = match lib(|| r.consume()) {
        Ok(b) => b,
        Err(e) => fail!("discard", "after a failed read the rest of a region of {} bytes can't be discarded: {}", n, e),
    };
    logln!("consume after failure: {} bytes", got.len());
    let region = &m.rest()[..n];
    if !region.ends_with(&got) || got.len() + most < n {
        fail!("discard", "after a failed read of at most {} bytes, discarding yields {} of the {} bytes of the region: {}", most, hex(&got), n, hex(region));
    }
    m.advance(n);
    true
}

/// compares a result with the model; false ends the run
fn judge<T: PartialEq + std::fmt::Debug>(what: &str, got: Res<T>, want: Want<T>, r: &mut Reader, m: &mut Model) -> bool {
    logln!("{} at {} in {:?}: {}", what, m.pos, m.left, match &got { Ok(x) => short(x), Err(e) => format!("Err {}", e) });
    event(70, m.pos as u64, got.is_ok() as u64);
    match (got, want) {
        (Ok(x), Want::Ok(y, n)) | (Ok(x), Want::Either(y, n)) => {
            if x != y {
                fail!("value", "{} at {} in regions {:?} yields {}, the stream says {}\n {}", what, m.pos, m.left, short(&x), short(&y), hex(m.rest()));
            }
            m.advance(n);
            count_packet();
            true
        }
        (Err(_), Want::Either(..)) => false,
        (Err(_), Want::Ok(..)) if m.doubt => {
            probe("reader gives up after the connection stopped");
            false
        }
        (Err(e), Want::Ok(y, n)) => fail!(
            "refused",
            "{} at {} in regions {:?} fails ({}) although all {} bytes of {} are there",
            what, m.pos, m.left, e, n, short(&y)
        ),
        (Ok(x), Want::Refused) => fail!("beyond-limit", "{} at {} yields {} although only {} bytes are left of the region", what, m.pos, short(&x), m.room()),
        (Ok(x), Want::Bad(_)) => fail!("beyond-limit", "{} at {} in regions {:?} yields {}, which is not in the stream\n {}", what, m.pos, m.left, short(&x), hex(m.rest())),
        (Ok(x), Want::Dry) => fail!("invented", "{} at {} yields {} although the stream ends before\n {}", what, m.pos, short(&x), hex(m.rest())),
        (Err(_), Want::Refused) => {
            probe("read refused by a limit");
            true
        }
        (Err(_), Want::Bad(n)) => {
            probe("compound read fails");
            if n == usize::MAX || m.doubt {
                return false;
            }
            remainder(r, m, n)
        }
        (Err(_), Want::Dry) => {
            probe("stream ends in a read");
            m.dry = true;
            false
        }
    }
}

fn map<T, U>(w: Want<T>, f: impl FnOnce(T) -> U) -> Want<U> {
    match w {
        Want::Ok(x, n) => Want::Ok(f(x), n),
        Want::Either(x, n) => Want::Either(f(x), n),
        Want::Refused => Want::Refused,
        Want::Bad(n) => Want::Bad(n),
        Want::Dry => Want::Dry,
    }
}

/// one piece of the stream, meant for an operation
fn piece(op: Op, big: bool, v: u8) -> Vec<u8> {
    let mut o = vec![];
    let len = |big: bool| match draw(5) {
        0 => new_number(2, if big { 65_535 } else { 5_000 }).unwrap_or(0) as usize,
        4 if big => draw(70_000).min(65_535) as usize,
        _ => draw(30) as usize,
    };
    match op {
        Op::U8 | Op::Bool => o.push(draw(256) as u8),
        Op::U16 => refcodec::put_u16(&mut o, u16_val()),
        Op::U32 => o.extend_from_slice(&u32_val().to_be_bytes()),
        Op::Len => o = gen::bytes_of(len(big), draw(1 << 16)),
        Op::Utf8 => {
            let mut t = gen::text_of(len(big), draw(1 << 16)).into_bytes();
            if !t.is_empty() && one_in(8) {
                let i = draw(t.len() as u32) as usize;
                t[i] = pick(&[0xff, 0xc0, 0xed, 0x80, 0xf5, 0]);
            }
            refcodec::put_bin(&mut o, &t);
        }
        Op::Binary => refcodec::put_bin(&mut o, &gen::bytes_of(len(big), draw(1 << 16))),
        Op::Var => {
            if one_in(10) {
                o.extend_from_slice(&[0x80 | draw(128) as u8, 0xff, 0x80, pick(&[0x80, 0xff]), draw(128) as u8]);
            } else {
                let n = if coin() { var_val() } else { pick(&[0, 1, 127, 128, 16_383, 16_384, 2_097_151, 2_097_152, 268_435_455, 300, 77_777]) };
                refcodec::put_var(&mut o, n);
            }
        }
        Op::Packet => {
            let s = if big { Size { text: 200, payload: 40_000, list: 20, edges: false } } else { Size::small() };
            o = refcodec::foreign(&gen::packet(v, s), v);
            if one_in(3) {
                o = damage(v, &o);
            }
        }
        Op::Props | Op::Header => {
            let mut c = vec![];
            for _ in 0..draw(5) {
                c.extend(any_prop(pick(PROP_IDS)));
            }
            if one_in(8) {
                c.push(pick(&[0, 4, 0x2b, 0x26, 0x03, 0x0b, 0xff]));
            }
            if op == Op::Header {
                o.push(pick(&[0x10, 0x30, 0x62, 0x82, 0xa2, 0x3d, 0xe0, 0x3b, 0x20, 0xd0, 0xf0]));
            }
            let n = if one_in(8) { c.len() as u32 + draw(4) } else { c.len() as u32 };
            refcodec::put_var(&mut o, n);
            o.extend(c);
        }
    }
    o
}

/// the position in the stream is lost: nothing may be read any more
fn lost(d: &mut Decoder, v: u8) {
    probe("position lost, the connection goes on");
    for _ in 0..3 + draw(10) {
        let r = &mut d.reader;
        let what = draw(14);
        let got: Option<String> = match what {
            0 => lib(|| r.read_u8()).ok().map(|x| short(&x)),
            1 => lib(|| r.read_u16()).ok().map(|x| short(&x)),
            2 => lib(|| r.read_u32()).ok().map(|x| short(&x)),
            3 => {
                let n = draw(6);
                lib(|| r.read_len(n)).ok().filter(|b| !b.is_empty()).map(|x| short(&x))
            }
            4 => lib(|| r.read_bool_byte()).ok().map(|x| short(&x)),
            5 => lib(|| r.read_utf8_string()).ok().map(|x| short(&x)),
            6 => lib(|| r.read_binary()).ok().map(|x| short(&x)),
            7 => lib(|| r.read_variable_int()).ok().map(|x| short(&x)),
            8 => lib(|| r.read_properties().map(plain)).ok().map(|x| short(&x)),
            9 => lib(|| r.read_header()).ok().map(|x| short(&x)),
            10 => lib(|| r.consume()).ok().filter(|b| !b.is_empty()).map(|x| short(&x)),
            11 => lib(|| r.has_more()).then(|| "more".to_string()),
            12 => {
                if coin() {
                    lib(|| r.reset_limit());
                } else {
                    let n = draw(20);
                    lib(|| r.take(n));
                }
                None
            }
            _ => decode(d, v).ok().map(|x| short(&x)),
        };
        logln!("  lost: {} -> {:?}", what, got);
        event(76, what as u64, got.is_some() as u64);
        if let Some(x) = got {
            fail!("lost", "the connection failed inside of a read and went on, some bytes are gone; the reader goes on too (operation {}): {}", what, x);
        }
    }
}

pub fn c16(stratum: u32) {
    let big = stratum % 50 == 49;
    let v = gen::version();
    // the plan: pieces, in the order they are going to be read
    let plan: Vec<Op> = (0..1 + draw(if big { 6 } else { 20 })).map(|_| pick(OPS)).collect();
    let mut data = vec![];
    let mut starts = vec![];
    for op in &plan {
        starts.push(data.len());
        data.extend(piece(*op, big, v));
    }
    if one_in(4) && !data.is_empty() {
        let n = draw(data.len() as u32 + 1) as usize;
        data.truncate(n);
    }
    let sched = Sched::random(data.len());
    logln!("plan {:?}\nstream {}\ndelivery {:?}", plan, hex(&data), sched);
    let cap = if sched.cap == 0 { 8192 } else { sched.cap };
    if cap < 16 {
        fault(F::TinyBuffer);
    }
    let mut m = Model::new(data.clone(), 0, vec![]);
    let mut link = Link::new(data, sched).with_marks(starts.clone());
    if one_in(3) && m.data.len() > 1 {
        // the connection stops once and goes on later
        let at = match draw(3) {
            0 => pick(&starts).min(m.data.len()),
            1 => (pick(&starts) + 1 + draw(3) as usize).min(m.data.len()),
            _ => draw(m.data.len() as u32) as usize,
        };
        m.later = Some(m.data.split_off(at));
        link.stops.push((at, if coin() { Stop::EofOnce } else { Stop::ErrOnce(pick(ERR_KINDS)) }));
        logln!("the connection stops at {} and goes on", at);
    }
    link.end = if coin() { Stop::Eof } else { Stop::Err(pick(ERR_KINDS)) };
    let src = SimRead(Arc::new(Mutex::new(link)));
    let b = BufReader::with_capacity(cap, src);
    let mut d: Decoder = lib(|| PacketDecoder::from_bufreader(b));
    let mut steps = 0;
    let chaos = pick(&[3, 8, 2]);
    // how many regions inside of each other
    let depth = match draw(20) {
        0 => 300usize,
        1 => 40,
        2 | 3 => 12,
        _ => new_number(4, 400).map_or(6, |n| n as usize),
    };
    while steps < 120 {
        steps += 1;
        // operations on the limits
        match draw(10) {
            0 | 1 => {
                if depth > 6 && m.left.len() + 2 < depth && coin() {
                    // many at once, each a little smaller
                    let k = 1 + draw((depth - m.left.len()) as u32);
                    logln!("{} regions at {} in {:?}", k, m.pos, m.left);
                    for _ in 0..k {
                        let room = m.room().min(1 << 20);
                        let n = room.saturating_sub(draw(3) as usize);
                        lib(|| d.reader.take(n as u32));
                        m.left.push(n.min(m.room()));
                    }
                    if m.left.len() > 12 {
                        probe("more than 12 regions inside of each other");
                    }
                    event(71, k as u64, m.left.len() as u64);
                    continue;
                }
                if m.left.len() < depth {
                    // a region: up to some later piece, or something special
                    let room = m.room().min(m.rest().len());
                    let n: u32 = match draw(8) {
                        0 => room as u32,
                        1 => 0,
                        2 => (room as u32).saturating_add(1 + draw(3)),
                        3 => pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 268_435_455, 65_536]),
                        4 => draw(room.min(100_000) as u32 + 1),
                        5 => draw(6),
                        _ => {
                            let later: Vec<usize> = starts.iter().copied().filter(|s| *s > m.pos).take(4).collect();
                            match later.len() {
                                0 => draw(6),
                                k => (later[draw(k as u32) as usize] - m.pos) as u32,
                            }
                        }
                    };
                    logln!("take({}) at {} in {:?}", n, m.pos, m.left);
                    lib(|| d.reader.take(n));
                    let n = (n as usize).min(m.room());
                    m.left.push(n);
                    event(71, n as u64, m.left.len() as u64);
                    continue;
                }
            }
            2 => {
                if !m.left.is_empty() || one_in(4) {
                    logln!("reset_limit at {} in {:?}", m.pos, m.left);
                    let k = if m.left.len() > 8 && coin() { 1 + draw(m.left.len() as u32) } else { 1 };
                    for _ in 0..k {
                        lib(|| d.reader.reset_limit());
                        if m.left.pop().is_some_and(|l| l > 0) {
                            probe("region left with unread bytes");
                        }
                    }
                    event(72, m.left.len() as u64, 0);
                    continue;
                }
            }
            3 => {
                if !m.left.is_empty() && one_in(2) {
                    let n = m.room();
                    let got = lib(|| d.reader.consume());
                    logln!("consume at {} in {:?}: {:?}", m.pos, m.left, got.as_ref().map(|b| b.len()));
                    if n > m.rest().len() {
                        if let Ok(b) = got {
                            fail!("invented", "discarding a region of {} bytes yields {} bytes, the stream has {}", n, b.len(), m.rest().len());
                        }
                        match m.stopped(true) {
                            After::Go => continue,
                            After::Lost => return lost(&mut d, v),
                            After::Unknown => return,
                        }
                    }
                    match got {
                        Err(_) if m.doubt => return,
                        Ok(b) if b == m.rest()[..n] => m.advance(n),
                        Ok(b) => fail!("discard", "discarding yields {} instead of the {} bytes left of the region: {}", hex(&b), n, hex(&m.rest()[..n])),
                        Err(e) => fail!("discard", "a region with {} bytes left can't be discarded: {}", n, e),
                    }
                    event(73, n as u64, 0);
                    continue;
                }
            }
            4 | 5 => {
                let n = m.room();
                let known = m.left.is_empty() || n <= m.rest().len();
                if known {
                    let got = lib(|| d.reader.has_more());
                    let want = if m.left.is_empty() { !m.rest().is_empty() } else { n > 0 };
                    if !got && want && m.doubt {
                        return;
                    }
                    if m.left.is_empty() && !want {
                        // it may have met the stop
                        m.stopped(true);
                    }
                    if got != want {
                        fail!("has-more", "has_more() at {} in regions {:?} is {}, {} bytes of the stream are left", m.pos, m.left, got, m.rest().len());
                    }
                    event(74, got as u64, 0);
                }
                continue;
            }
            _ => {}
        }
        // the operation the next piece is meant for, or another one
        let planned = starts.iter().position(|s| *s == m.pos).map(|i| plan[i]);
        let op = match planned {
            Some(op) if !one_in(chaos) => op,
            _ => pick(OPS),
        };
        let go = match op {
            Op::U8 => {
                let g = lib(|| d.reader.read_u8());
                let w = map(m.fixed(1), |b| b[0]);
                judge("read_u8", g, w, &mut d.reader, &mut m)
            }
            Op::Bool => {
                let g = lib(|| d.reader.read_bool_byte());
                let w = match m.fixed(1) {
                    Want::Ok(b, n) if b[0] > 1 => Want::Either(true, n),
                    w => map(w, |b| b[0] != 0),
                };
                judge("read_bool_byte", g, w, &mut d.reader, &mut m)
            }
            Op::U16 => {
                let g = lib(|| d.reader.read_u16());
                let w = map(m.fixed(2), |b| u16::from_be_bytes([b[0], b[1]]));
                judge("read_u16", g, w, &mut d.reader, &mut m)
            }
            Op::U32 => {
                let g = lib(|| d.reader.read_u32());
                let w = map(m.fixed(4), |b| u32::from_be_bytes([b[0], b[1], b[2], b[3]]));
                judge("read_u32", g, w, &mut d.reader, &mut m)
            }
            Op::Len => {
                let room = m.room().min(m.rest().len()) as u32;
                let n = match draw(6) {
                    0 => room,
                    1 => room + 1,
                    2 => new_number(2, room).unwrap_or(0),
                    3 => draw(room + 1),
                    4 if one_in(3) => pick(&[u32::MAX, 1 << 31, 100_000]),
                    _ => draw(8),
                };
                let g = lib(|| d.reader.read_len(n));
                let w = m.fixed(n as usize);
                judge(&format!("read_len({})", n), g, w, &mut d.reader, &mut m)
            }
            Op::Utf8 => {
                let g = lib(|| d.reader.read_utf8_string());
                let w = m.utf8();
                judge("read_utf8_string", g, w, &mut d.reader, &mut m)
            }
            Op::Binary => {
                let g = lib(|| d.reader.read_binary());
                let w = m.prefixed();
                judge("read_binary", g, w, &mut d.reader, &mut m)
            }
            Op::Var => {
                let g = lib(|| d.reader.read_variable_int());
                let w = m.varint();
                judge("read_variable_int", g, w, &mut d.reader, &mut m)
            }
            Op::Props => {
                let g = lib(|| d.reader.read_properties().map(plain)).map(sorted);
                let w = map(m.properties(), sorted);
                judge("read_properties", g, w, &mut d.reader, &mut m)
            }
            Op::Packet => {
                // whatever is here, packets or not, decoded as one
                let want = match refcodec::next_frame(m.rest(), 0) {
                    refcodec::Framing::Frame(f) => Some(f.end),
                    _ => None,
                };
                let bytes = m.rest().first().copied();
                let g = decode(&mut d, v);
                logln!("decode_packet at {} in {:?}", m.pos, m.left);
                let room = m.room();
                match want {
                    _ if room == 0 || bytes.is_none() => {
                        if g.is_ok() {
                            fail!("beyond-limit", "a packet is decoded where nothing is left: {}", short(&g));
                        }
                        if room > 0 {
                            match m.stopped(true) {
                                After::Go => continue,
                                _ => return,
                            }
                        }
                        true
                    }
                    Some(_) if m.doubt && g.is_err() => return,
                    Some(n) if n <= room => {
                        let alone = solo(&m.rest()[..n], v);
                        if !same_out(&g, &alone, v) {
                            fail!("value", "a packet at {} in regions {:?} is decoded to {}, alone to {}\n {}", m.pos, m.left, short(&g), short(&alone), hex(&m.rest()[..n]));
                        }
                        m.advance(n);
                        probe("packet decoded inside of a region");
                        true
                    }
                    _ => {
                        if g.is_ok() {
                            fail!("beyond-limit", "a packet at {} in regions {:?} is decoded although it is not all there: {}\n {}", m.pos, m.left, short(&g), hex(m.rest()));
                        }
                        probe("packet longer than its region");
                        // if the length can be read the packet ends with the region
                        let mut x = Model::new(m.data.clone(), m.pos, m.left.clone());
                        x.advance(1);
                        match x.varint() {
                            Want::Ok(len, k) if !m.left.is_empty() && len as usize > room - 1 - k && room <= m.rest().len() => {
                                m.advance(room);
                                true
                            }
                            Want::Ok(_, _) | Want::Dry if room > m.rest().len() => match m.stopped(true) {
                                After::Lost => return lost(&mut d, v),
                                _ => return,
                            },
                            _ => return,
                        }
                    }
                }
            }
            Op::Header => {
                if !m.left.is_empty() && !one_in(4) {
                    continue;
                }
                let g = lib(|| d.reader.read_header());
                logln!("read_header at {} in {:?}: {}", m.pos, m.left, short(&g));
                event(75, m.pos as u64, g.is_ok() as u64);
                let (len, n, either) = {
                    let mut x = Model::new(m.data.clone(), m.pos, m.left.clone());
                    match x.fixed(1) {
                        Want::Ok(_, _) => x.advance(1),
                        Want::Refused => {
                            if g.is_ok() {
                                fail!("beyond-limit", "a header is read at the end of a region: {}", short(&g));
                            }
                            continue;
                        }
                        _ => {
                            if g.is_ok() {
                                fail!("invented", "a header is read at the end of the stream: {}", short(&g));
                            }
                            match m.stopped(true) {
                                After::Go => continue,
                                _ => return,
                            }
                        }
                    }
                    match x.varint() {
                        Want::Ok(l, n) => (l, n + 1, false),
                        Want::Either(l, n) => (l, n + 1, true),
                        Want::Dry => {
                            if g.is_ok() {
                                fail!("value", "a header without a length is read: {}", short(&g));
                            }
                            match m.stopped(true) {
                                After::Lost => return lost(&mut d, v),
                                _ => return,
                            }
                        }
                        _ => {
                            if g.is_ok() {
                                fail!("value", "a header without a length is read: {}", short(&g));
                            }
                            return;
                        }
                    }
                };
                let first = m.rest()[0];
                let (t, fl) = (first >> 4, first & 15);
                let good = match t {
                    3 => fl & 6 != 6,
                    6 | 8 | 10 => fl == 2,
                    0 => false,
                    _ => fl == 0,
                };
                match g {
                    Ok((l, h)) => {
                        if !good && t != 0 {
                            fail!("value", "the header byte {:02x} is accepted as {}", first, short(&h));
                        }
                        if l != len {
                            fail!("value", "the header announces {} bytes, the reader says {}", len, l);
                        }
                        if t == 3 && (h.dup != (fl & 8 != 0) || h.qos != (fl >> 1) & 3 || h.retain != (fl & 1 != 0) || h.cmd != PacketType::Publish) {
                            fail!("value", "the header byte {:02x} is read as {}", first, short(&h));
                        }
                        if t == 0 {
                            return;
                        }
                        m.advance(n);
                        // the packet is a region of its own
                        if len as usize > m.room() {
                            fail!("beyond-limit", "a packet of {} bytes is accepted in regions {:?}", len, m.left);
                        }
                        m.left.push(len as usize);
                        true
                    }
                    Err(e) => {
                        if good && !either && !m.doubt && len as usize <= m.room() - n {
                            fail!("refused", "the header {} is refused: {}", hex(&m.rest()[..n]), e);
                        }
                        return;
                    }
                }
            }
        };
        if !go {
            // a property block may be refused before it is all there
            if !m.dry || op == Op::Props {
                return;
            }
            m.dry = false;
            let whole = matches!(op, Op::U8 | Op::U16 | Op::U32 | Op::Len | Op::Bool);
            match m.stopped(whole) {
                After::Go => continue,
                After::Lost => return lost(&mut d, v),
                After::Unknown => return,
            }
        }
        if m.rest().is_empty() && one_in(4) {
            return;
        }
    }
}
