//! A session store that persists packets with the library's optional
//! serialisation support on a disk that fails, and nodes that crash (C17).

use crate::cx::*;
use crate::gen::{self, Size};
use crate::refcodec::{self, canon};
use crate::seam::lib;
use crate::util::*;
use crate::{fail, logln};
use mqtt_packet_3_5::connect::ConnectFlags;
use mqtt_packet_3_5::*;
use serde::{Deserialize, Serialize};
use std::io::{self, ErrorKind, Read, Write};

/// what a session store keeps
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
enum Rec {
    Packet(MqttPacket),
    /// a packet that is kept by its own type, with its header
    Message { header: FixedHeader, publish: PublishPacket },
    Session { connect: ConnectPacket, subscriptions: Vec<Subscription>, pending: Vec<ConfirmationPacket>, kind: PacketType },
    Grants { granted: Vec<Granted>, qos: Vec<QoS>, suback: SubackPacket, unsuback: UnsubackPacket },
    Last { disconnect: DisconnectPacket, auth: AuthPacket, connack: ConnackPacket },
    /// what a broker keeps of a client that is connected
    Client { flags: ConnectFlags, will: Option<LastWill>, protocol: Protocol, pings: Vec<PingreqPacket>, pongs: Vec<PingrespPacket>, none: ReasonCode },
}

fn some(kind: PacketType, v: u8, s: Size) -> MqttPacket {
    gen::packet_of(kind, v, s)
}

fn record(v: u8, s: Size) -> Rec {
    match draw(9) {
        8 => {
            let will = match some(PacketType::Connect, v, s) {
                MqttPacket::Connect(c) => c.will,
                _ => None,
            };
            probe("parts of packets stored");
            Rec::Client {
                flags: ConnectFlags::new(draw(256) as u8),
                will,
                protocol: if coin() { Protocol::Mqtt } else { Protocol::MQIsdp },
                pings: (0..draw(3)).map(|_| PingreqPacket {}).collect(),
                pongs: (0..draw(3)).map(|_| PingrespPacket {}).collect(),
                none: ReasonCode {},
            }
        }
        0 => match some(PacketType::Publish, v, s) {
            MqttPacket::Publish(p) => Rec::Message {
                header: FixedHeader { cmd: PacketType::Publish, dup: p.dup, qos: p.qos, retain: p.retain },
                publish: p,
            },
            p => Rec::Packet(p),
        },
        1 => {
            let pending = (0..draw(4))
                .map(|_| gen::confirmation(pick(&[PacketType::Puback, PacketType::Pubrec, PacketType::Pubrel, PacketType::Pubcomp]), v, s))
                .collect();
            match (some(PacketType::Connect, v, s), some(PacketType::Subscribe, v, s)) {
                (MqttPacket::Connect(c), MqttPacket::Subscribe(x)) => Rec::Session {
                    connect: c,
                    subscriptions: x.subscriptions,
                    pending,
                    kind: PacketType::from_bits(draw(16) as u8),
                },
                (p, _) => Rec::Packet(p),
            }
        }
        2 => match (some(PacketType::Suback, v, s), some(PacketType::Unsuback, v, s)) {
            (MqttPacket::Suback(a), MqttPacket::Unsuback(b)) => Rec::Grants {
                granted: a.granted.clone(),
                qos: (0..draw(4)).map(|_| gen::qos(draw(3) as u8)).collect(),
                suback: a,
                unsuback: b,
            },
            (p, _) => Rec::Packet(p),
        },
        3 => match (some(PacketType::Disconnect, v, s), some(PacketType::Auth, 5, s), some(PacketType::Connack, v, s)) {
            (MqttPacket::Disconnect(disconnect), MqttPacket::Auth(auth), MqttPacket::Connack(connack)) => Rec::Last { disconnect, auth, connack },
            (p, _, _) => Rec::Packet(p),
        },
        _ => {
            let mut p = gen::packet(v, s);
            match draw(6) {
                // as it came from a connection
                0 | 1 => {
                    if let Ok(q) = solo(&refcodec::foreign(&p, v), v) {
                        p = q;
                        probe("received packet stored");
                    }
                }
                2 => {
                    gen::odd(&mut p, v, s);
                    probe("unusual packet stored");
                }
                _ => {}
            }
            probe(KIND_PROBE[kind_of(&p) as usize]);
            Rec::Packet(p)
        }
    }
}

/// the packets in a record
fn packets(r: &Rec) -> Vec<MqttPacket> {
    match r {
        Rec::Packet(p) => vec![p.clone()],
        Rec::Message { publish, .. } => vec![MqttPacket::Publish(publish.clone())],
        Rec::Session { connect, pending, .. } => {
            let mut o = vec![MqttPacket::Connect(connect.clone())];
            for p in pending {
                o.push(match p.cmd {
                    PacketType::Pubrec => MqttPacket::Pubrec(p.clone()),
                    PacketType::Pubrel => MqttPacket::Pubrel(p.clone()),
                    PacketType::Pubcomp => MqttPacket::Pubcomp(p.clone()),
                    _ => MqttPacket::Puback(p.clone()),
                });
            }
            o
        }
        Rec::Grants { suback, unsuback, .. } => vec![MqttPacket::Suback(suback.clone()), MqttPacket::Unsuback(unsuback.clone())],
        Rec::Last { disconnect, auth, connack } => vec![
            MqttPacket::Disconnect(disconnect.clone()),
            MqttPacket::Auth(auth.clone()),
            MqttPacket::Connack(connack.clone()),
        ],
        Rec::Client { .. } => vec![],
    }
}

// ---------------------------------------------------------------- disk

struct Disk {
    data: Vec<u8>,
    /// so much survives a crash for sure
    synced: usize,
    short: u32,
    fail: u32,
    eintr: u32,
}

struct Appender<'a> {
    d: &'a mut Disk,
    failed: bool,
}

impl Write for Appender<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let prev = crate::seam::leave_lib();
        let r = (|| {
            if self.d.fail > 0 && one_in(self.d.fail) {
                self.failed = true;
                fault(F::DiskError);
                return Err(pick(&[ErrorKind::StorageFull, ErrorKind::Other, ErrorKind::PermissionDenied]).into());
            }
            if self.d.eintr > 0 && one_in(self.d.eintr) {
                fault(F::Eintr);
                return Err(ErrorKind::Interrupted.into());
            }
            let n = if self.d.short > 0 && one_in(self.d.short) {
                fault(F::ShortWrite);
                1 + draw(b.len() as u32) as usize
            } else {
                b.len()
            };
            self.d.data.extend_from_slice(&b[..n]);
            Ok(n)
        })();
        crate::seam::enter_lib(prev);
        r
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct Slow<'a> {
    b: &'a [u8],
    short: u32,
    eintr: u32,
}

impl Read for Slow<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let prev = crate::seam::leave_lib();
        let r = (|| {
            if buf.is_empty() || self.b.is_empty() {
                return Ok(0);
            }
            if self.eintr > 0 && one_in(self.eintr) {
                fault(F::Eintr);
                return Err(ErrorKind::Interrupted.into());
            }
            let max = buf.len().min(self.b.len());
            let n = if self.short > 0 && one_in(self.short) { 1 + draw(max as u32) as usize } else { max };
            if n < max {
                fault(F::ShortRead);
            }
            buf[..n].copy_from_slice(&self.b[..n]);
            self.b = &self.b[n..];
            count_read(n);
            Ok(n)
        })();
        crate::seam::enter_lib(prev);
        r
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Format {
    /// one JSON text in a line
    Json,
    /// the same, through the generic value type
    JsonValue,
    Bincode,
}

/// appends a record; None if the disk failed
fn put(d: &mut Disk, f: Format, r: &Rec) -> Option<(usize, usize)> {
    let start = d.data.len();
    let mut w = Appender { d, failed: false };
    let res: Result<(), String> = lib(|| match f {
        Format::Json => serde_json::to_writer(&mut w, r).map_err(|e| e.to_string()),
        Format::JsonValue => match serde_json::to_value(r) {
            Ok(v) => w.write_all(v.to_string().as_bytes()).map_err(|e| e.to_string()),
            Err(e) => Err(e.to_string()),
        },
        Format::Bincode => bincode::serialize_into(&mut w, r).map_err(|e| e.to_string()),
    });
    let failed = w.failed;
    match res {
        Ok(()) => {
            let end = d.data.len();
            event(80, start as u64, end as u64);
            Some((start, end))
        }
        Err(_) if failed => {
            // the store gives up this record
            d.data.truncate(start);
            None
        }
        Err(e) => fail!("refused", "a record can't be stored as {:?}: {}\n {}", f, e, short(r)),
    }
}

fn get(d: &Disk, f: Format, b: &[u8]) -> Result<Rec, String> {
    let small = b.len() < 4000;
    let slow = Slow { b, short: if small { d.short } else { 0 }, eintr: if small { d.eintr } else { 0 } };
    let stream = coin();
    lib(|| match (f, stream) {
        (Format::Json, true) => serde_json::from_reader(slow).map_err(|e| e.to_string()),
        (Format::Json, false) => serde_json::from_slice(b).map_err(|e| e.to_string()),
        (Format::JsonValue, _) => serde_json::from_slice::<serde_json::Value>(b)
            .and_then(serde_json::from_value)
            .map_err(|e| e.to_string()),
        (Format::Bincode, true) => bincode::deserialize_from(slow).map_err(|e| e.to_string()),
        (Format::Bincode, false) => bincode::deserialize(b).map_err(|e| e.to_string()),
    })
}

// ---------------------------------------------------------------- node

struct Entry {
    original: Rec,
    /// what the node has in memory
    current: Rec,
    start: usize,
    end: usize,
}

fn crash(d: &mut Disk, f: Format, log: &mut Vec<Entry>) {
    fault(F::Crash);
    let n = d.data.len();
    let keep = match draw(4) {
        0 => n,
        1 => d.synced,
        2 => d.synced + draw((n - d.synced) as u32 + 1) as usize,
        _ => n - (1 + draw(8) as usize).min(n - d.synced),
    };
    if keep < n {
        fault(F::LostWrite);
    }
    d.data.truncate(keep);
    // a block of the unsynced part may not have made it although a later one did
    if f != Format::Bincode && keep > d.synced && one_in(4) {
        let at = d.synced + draw((keep - d.synced) as u32) as usize;
        let len = (1 + draw(64) as usize).min(keep - at);
        d.data[at..at + len].fill(0);
        fault(F::TornWrite);
    }
    logln!("crash, {} of {} bytes are left", keep, n);
    event(81, keep as u64, n as u64);
    // restart: read everything back
    let mut kept = vec![];
    let mut good = 0;
    for mut e in log.drain(..) {
        if e.start >= keep {
            continue; // lost completely
        }
        let there = &d.data[e.start..e.end.min(keep)];
        let whole = e.end <= keep && !(f != Format::Bincode && e.end > d.synced && there.contains(&0));
        let r = get(d, f, there);
        event(82, e.start as u64, r.is_ok() as u64);
        if whole {
            match r {
                Ok(x) if x == e.original => {
                    count_packet();
                    e.current = x;
                    good = e.end;
                    kept.push(e);
                }
                Ok(x) => fail!("changed", "a stored record comes back changed ({:?})\n stored {}\n loaded {}\n record {}", f, short(&e.original), short(&x), hex(there)),
                Err(x) => fail!("lost", "a stored record can't be loaded ({:?}): {}\n stored {}\n record {}", f, x, short(&e.original), hex(there)),
            }
        } else {
            fault(F::TornWrite);
            match r {
                Ok(x) => fail!(
                    "torn",
                    "a record of {} bytes of which {} are left is loaded as {} ({:?})\n stored {}\n record {}",
                    e.end - e.start, there.len(), short(&x), f, short(&e.original), hex(there)
                ),
                Err(_) => probe("torn record refused"),
            }
            break;
        }
    }
    // the store goes on behind the last good record
    d.data.truncate(good.max(d.synced));
    d.synced = d.data.len();
    *log = kept;
}

fn resend(e: &Entry) {
    for (a, b) in packets(&e.original).iter().zip(packets(&e.current).iter()) {
        for v in 3..6 {
            let (x, y) = (encode(a, v, false), encode(b, v, false));
            match (x, y) {
                (Ok(x), Ok(y)) => {
                    let (p, q) = (solo(&x, v), solo(&y, v));
                    if !same_out(&p, &q, v) || x.len() != y.len() {
                        fail!("encoding", "a reloaded packet is encoded differently (version {})\n stored {} -> {}\n loaded {} -> {}", v, short(&canon(a, v)), hex(&x), short(&canon(b, v)), hex(&y));
                    }
                }
                (Err(_), Err(_)) => {}
                (x, y) => fail!("encoding", "a reloaded packet is encoded differently (version {})\n stored {} -> {:?}\n loaded {} -> {:?}", v, short(a), x.is_ok(), short(b), y.is_ok()),
            }
        }
    }
}

pub fn c17(stratum: u32) {
    let v = version(stratum);
    let f = pick(&[Format::Json, Format::Bincode, Format::JsonValue]);
    let s = if stratum % 25 == 24 { Size { text: 3000, payload: 9000, list: 100, edges: true } } else { pick(&[Size::small(), Size { text: 30, payload: 300, list: 5, edges: false }]) };
    let mut d = Disk { data: vec![], synced: 0, short: pick(&[0, 3, 20]), fail: pick(&[0, 0, 40, 400]), eintr: pick(&[0, 20, 4]) };
    logln!("format {:?}, version {}", f, v);
    let mut log: Vec<Entry> = vec![];
    let steps = 2 + draw(14);
    for _ in 0..steps {
        match draw(8) {
            0..=3 => {
                let r = record(v, s);
                match put(&mut d, f, &r) {
                    None => logln!("disk error"),
                    Some((start, end)) => {
                        logln!("stored at {}..{}: {}", start, end, short(&r));
                        log.push(Entry { current: r.clone(), original: r, start, end });
                        if f != Format::Bincode {
                            d.data.push(b'\n');
                        }
                    }
                }
            }
            4 => d.synced = d.data.len(),
            5 => crash(&mut d, f, &mut log),
            6 => {
                // acknowledged records go, the rest is written to a new file
                if !log.is_empty() && one_in(2) {
                    let i = draw(log.len() as u32) as usize;
                    log.remove(i);
                }
                let mut n = Disk { data: vec![], synced: 0, short: d.short, fail: d.fail, eintr: d.eintr };
                let mut places = vec![];
                for e in &log {
                    match put(&mut n, f, &e.current) {
                        Some(p) => places.push(p),
                        None => break,
                    }
                    if f != Format::Bincode {
                        n.data.push(b'\n');
                    }
                }
                if places.len() == log.len() {
                    // synced, then renamed over the old one
                    n.synced = n.data.len();
                    for (e, p) in log.iter_mut().zip(places) {
                        (e.start, e.end) = p;
                    }
                    d = n;
                    probe("store rewritten");
                }
            }
            _ => {
                if !log.is_empty() {
                    let i = draw(log.len() as u32) as usize;
                    resend(&log[i]);
                }
            }
        }
    }
    crash(&mut d, f, &mut log);
    for e in &log {
        resend(e);
    }
}

fn version(stratum: u32) -> u8 {
    3 + (stratum % 3) as u8
}
