//! Several connections in one process (C09) and a broker with clients of
//! several versions (C15).

use crate::cx::*;
use crate::gen::{self, version, Size};
use crate::link::*;
use crate::refcodec::{self, canon};
use crate::seam;
use crate::util::*;
use crate::world::{self, Outcome};
use crate::{fail, logln};
use mqtt_packet_3_5::*;
use std::sync::{Arc, Mutex};

fn locked<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    match m.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

// ---------------------------------------------------------------- C09

/// the work of one connection
#[derive(Clone)]
struct Prog {
    v: u8,
    /// the version the receiver assumes for its first packets
    assumed: u8,
    assumes: usize,
    data: Vec<u8>,
    marks: Vec<usize>,
    stops: Vec<(usize, Stop)>,
    sched: Sched,
    seed: u64,
    send: Vec<(MqttPacket, bool)>,
    /// packets sent before each received one
    ratio: usize,
}

/// one connection at work
struct Conn {
    prog: Prog,
    dec: Dec,
    sent: usize,
    got: usize,
    turn: usize,
    idle: u32,
    out: Vec<Res1>,
}

#[derive(Clone, Debug)]
enum Res1 {
    More(bool),
    Dec(Out),
    Enc(Result<Vec<u8>, ()>),
}

impl Conn {
    fn new(p: &Prog) -> Conn {
        let mut l = Link::new(p.data.clone(), p.sched.clone()).with_marks(p.marks.clone());
        l.stops = p.stops.clone();
        l.private = Some(p.seed);
        let (dec, _) = open(l);
        Conn { prog: p.clone(), dec, sent: 0, got: 0, turn: 0, idle: 0, out: vec![] }
    }
    /// one operation, false if there is nothing left to do
    fn step(&mut self) -> bool {
        let receiving = self.idle < 3;
        let sending = self.sent < self.prog.send.len();
        if !receiving && !sending {
            return false;
        }
        self.turn += 1;
        if sending && (!receiving || self.turn % (self.prog.ratio + 1) != 0) {
            let (p, direct) = &self.prog.send[self.sent];
            let r = encode(p, self.prog.v, *direct);
            self.sent += 1;
            self.out.push(Res1::Enc(r.map_err(|_| ())));
            return true;
        }
        let m = more(&mut self.dec);
        self.out.push(Res1::More(m));
        let v = if self.got < self.prog.assumes { self.prog.assumed } else { self.prog.v };
        self.got += 1;
        let r = decode(&mut self.dec, v);
        if !m || self.out.len() > 400 {
            self.idle += 1;
        }
        self.out.push(Res1::Dec(r));
        true
    }
    fn finish(mut self) -> Vec<Res1> {
        while self.step() {}
        self.out
    }
}

fn prog() -> Prog {
    let v = version();
    let s = Size { text: pick(&[8, 40, 200]), payload: pick(&[16, 300]), list: 4, edges: false };
    let mut data = vec![];
    let mut marks = vec![0];
    let n = draw(5);
    for _ in 0..n {
        let p = if marks.len() == 1 && coin() { gen::packet_of(PacketType::Connect, v, s) } else { gen::packet(v, s) };
        let f = refcodec::foreign(&p, v);
        let f = if one_in(4) { damage(v, &f) } else { f };
        logln!("receives {}", hex(&f));
        data.extend(f);
        marks.push(data.len());
    }
    if one_in(5) {
        data.extend(soup(v, Size::small()));
    }
    let mut stops = vec![];
    if one_in(3) {
        let at = offset(data.len(), &marks);
        let k = pick(ERR_KINDS);
        stops.push((at, pick(&[Stop::EofOnce, Stop::ErrOnce(k), Stop::Err(k)])));
    }
    let mut sched = Sched::random(data.len());
    // every read is a scheduling point, keep their number down
    if let Seg::Fixed(k) | Seg::Random(k) = &mut sched.seg {
        *k = (*k).max(data.len() / 60 + 1);
    }
    sched.cap = pick(&[0, 0, 64, 16, 5]).max(if data.len() > 200 { data.len() / 60 } else { 0 });
    let mut send = vec![];
    let n = draw(4);
    for _ in 0..n {
        let mut p = gen::packet(v, s);
        if one_in(4) {
            gen::odd(&mut p, v, Size::small());
        }
        send.push((p, coin()));
    }
    // some receivers do not know the version of their first packets
    let assumed = pick(&[0, 0, 3, 4, 5, 6, 255]);
    let assumes = if one_in(3) { pick(&[1, 1, 2, 1000]) } else { 0 };
    Prog { v, assumed, assumes, data, marks, stops, sched, seed: draw(1 << 16) as u64, send, ratio: draw(3) as usize }
}

fn same_res(a: &Res1, b: &Res1) -> bool {
    match (a, b) {
        (Res1::More(x), Res1::More(y)) => x == y,
        (Res1::Dec(Ok(x)), Res1::Dec(Ok(y))) => x == y,
        (Res1::Dec(Err(_)), Res1::Dec(Err(_))) => true,
        (Res1::Enc(x), Res1::Enc(y)) => x == y,
        _ => false,
    }
}

fn compare(what: &str, i: usize, alone: &[Res1], got: &[Res1]) {
    for k in 0..alone.len().max(got.len()) {
        let (a, b) = (alone.get(k), got.get(k));
        if let (Some(a), Some(b)) = (a, b) {
            if same_res(a, b) {
                continue;
            }
        }
        fail!("influence", "connection {}, result {}: {}\n alone {}\n here  {}", i, k, what, short(&a), short(&b));
    }
}

/// alone, on a thread of its own
fn alone(p: &Prog) -> Vec<Res1> {
    let slot = Arc::new(Mutex::new(vec![]));
    let (s2, p2) = (slot.clone(), p.clone());
    let t: Box<dyn FnOnce()> = Box::new(move || *locked(&s2) = Conn::new(&p2).finish());
    world::run(vec![t], 0, u64::MAX, 1);
    let r = locked(&slot).clone();
    r
}

/// a connection can be worked on again
const IDLE: u64 = 9;

/// whether a type can go to another thread, without failing to compile if not
struct Moves<T>(std::marker::PhantomData<T>);
trait Stays {
    const OK: bool = false;
}
impl<T> Stays for Moves<T> {}
#[allow(dead_code)]
impl<T: Send> Moves<T> {
    const OK: bool = true;
}
const MOVES: [(&str, bool); 5] = [
    ("a decoder", Moves::<Dec>::OK),
    ("a byte reader", Moves::<mqtt_packet_3_5::byte_reader::ByteReader<SimRead>>::OK),
    ("a packet", Moves::<MqttPacket>::OK),
    ("a result", Moves::<Res<MqttPacket>>::OK),
    ("a byte writer", Moves::<mqtt_packet_3_5::mqtt_writer::MqttWriter>::OK),
];

pub fn c09(stratum: u32) {
    for (what, ok) in MOVES {
        if !ok {
            fail!("threads", "{} can not be moved to another thread although its connection can", what);
        }
    }
    let conns = 2 + draw(3) as usize;
    let progs: Vec<Prog> = (0..conns).map(|_| prog()).collect();
    let want: Vec<Vec<Res1>> = progs.iter().map(alone).collect();
    let threads = if stratum % 4 == 0 { 1 } else { 2 + draw(3) as usize };
    // connections may move from thread to thread
    let migrate = coin();
    let alloc = stratum % 3 == 0;
    let every = pick(&[3, 10, 40]);
    let sticky = pick(&[0, 2, 4]);
    // switches anywhere in the library
    let gap = if threads > 1 && stratum % 8 >= 3 { pick(&[3, 12, 60, 400]) } else { 0 };
    let pauses = if one_in(3) { pick(&[2, 10]) } else { 0 };
    let open_first = coin();
    // sources that work on other connections while they are asked for bytes
    let nest = one_in(3);
    logln!("{} connections on {} threads, migrate {}, switch at allocations {}, nested {}, switch at edges {}", conns, threads, migrate, alloc, nest, gap);
    let pool: Arc<Vec<Mutex<Option<Conn>>>> = Arc::new((0..conns).map(|i| Mutex::new(if open_first { Some(Conn::new(&progs[i])) } else { None })).collect());
    let opened = Arc::new(Mutex::new(vec![open_first; conns]));
    let results: Arc<Mutex<Vec<Option<Vec<Res1>>>>> = Arc::new(Mutex::new(vec![None; conns]));
    let progs = Arc::new(progs);
    let work = move |t: usize, pool: Arc<Vec<Mutex<Option<Conn>>>>, results: Arc<Mutex<Vec<Option<Vec<Res1>>>>>, progs: Arc<Vec<Prog>>, opened: Arc<Mutex<Vec<bool>>>| {
        if alloc {
            world::set_alloc_every(every);
            seam::set_yield_on_alloc(true);
        }
        world::set_edges(gap, 300);
        set_pauses(pauses);
        // one operation of a connection this thread may work on, None if all are done
        let advance = {
            let results = results.clone();
            move || -> Option<bool> {
                let mine: Vec<usize> = {
                    let r = locked(&results);
                    (0..conns).filter(|i| (migrate || i % threads == t) && r[*i].is_none()).collect()
                };
                if mine.is_empty() {
                    return None;
                }
                let i = mine[draw(mine.len() as u32) as usize];
                let first = !std::mem::replace(&mut locked(&opened)[i], true);
                let c = if first { Some(Conn::new(&progs[i])) } else { locked(&pool[i]).take() };
                let free = c.is_some();
                if let Some(mut c) = c {
                    if c.step() {
                        *locked(&pool[i]) = Some(c);
                    } else {
                        locked(&results)[i] = Some(c.out);
                    }
                    world::notify(IDLE);
                }
                Some(free)
            }
        };
        let advance = std::rc::Rc::new(advance);
        if nest {
            let a = advance.clone();
            set_meanwhile(Some(std::rc::Rc::new(move || {
                a();
            })));
        }
        while let Some(free) = advance() {
            if free {
                world::yield_point();
            } else {
                // others work on the connections that are left
                world::wait(IDLE, None);
            }
        }
        set_meanwhile(None);
        set_pauses(0);
        seam::set_yield_on_alloc(false);
    };
    let work = Arc::new(work);
    let tasks: Vec<Box<dyn FnOnce()>> = (0..threads)
        .map(|t| {
            let (w, a, b, c, d) = (work.clone(), pool.clone(), results.clone(), progs.clone(), opened.clone());
            Box::new(move || w(t, a, b, c, d)) as Box<dyn FnOnce()>
        })
        .collect();
    match world::run(tasks, sticky, 2_000_000, 77) {
        Outcome::Finished => {}
        Outcome::LockHeld => fail!("blocked", "a connection waits for a lock that another connection holds while it waits for its peer"),
        Outcome::Blocked => {
            if alloc || gap > 0 && seam::FINE {
                // the lock may be held for a moment only
                set_unjudged();
                return;
            }
            fail!("blocked", "a connection waits for a lock that another connection holds while it waits for its peer");
        }
        Outcome::Stuck | Outcome::StepLimit => fail!("blocked", "the connections do not come to an end side by side"),
    }
    let got: Vec<Vec<Res1>> = locked(&results).iter().map(|r| r.clone().unwrap_or_default()).collect();
    for i in 0..conns {
        compare("side by side with others the result is another one than alone", i, &want[i], &got[i]);
    }
    // once more, afterwards
    for i in 0..conns {
        let again = alone(&progs[i]);
        compare("the same work gives another result the second time", i, &want[i], &again);
    }
}

// ---------------------------------------------------------------- C15

/// what only version 5 has
fn five(p: &MqttPacket) -> Option<&'static str> {
    let t = |b: bool, s: &'static str| if b { Some(s) } else { None };
    match p {
        MqttPacket::Connect(_) => None,
        MqttPacket::Connack(p) => t(p.properties.is_some(), "properties").or(t(p.reason_code.is_some(), "reason code")),
        MqttPacket::Publish(p) => t(p.properties.is_some(), "properties"),
        MqttPacket::Puback(p) | MqttPacket::Pubrec(p) | MqttPacket::Pubrel(p) | MqttPacket::Pubcomp(p) => {
            t(p.properties.is_some(), "properties").or(t(p.puback_reason_code.is_some() || p.pubcomp_reason_code.is_some(), "reason code"))
        }
        MqttPacket::Subscribe(p) => t(p.properties.is_some(), "properties").or(t(
            p.subscriptions.iter().any(|s| s.nl || s.rap || s.rh.is_some()),
            "subscription options",
        )),
        MqttPacket::Suback(p) => t(p.properties.is_some(), "properties").or(t(!p.granted_reason_codes.is_empty(), "reason codes")),
        MqttPacket::Unsubscribe(p) => t(p.properties.is_some(), "properties"),
        MqttPacket::Unsuback(p) => t(p.properties.is_some(), "properties").or(t(!p.granted.is_empty(), "reason codes")),
        MqttPacket::Disconnect(p) => t(p.properties.is_some(), "properties").or(t(p.reason_code.is_some(), "reason code")),
        MqttPacket::Auth(_) => Some("AUTH"),
        _ => None,
    }
}

struct Client {
    v: u8,
    /// frames this client sends after its CONNECT
    frames: Vec<(Option<MqttPacket>, Vec<u8>)>,
    dec: Dec,
    next: usize,
    polls: u32,
    /// what the broker sends to it
    inbox: Vec<u8>,
    want: Vec<PublishPacket>,
}

/// a client's packet on the wire, by this library or an independent sender
fn wire(p: &MqttPacket, v: u8) -> Vec<u8> {
    if coin() {
        if let Ok(b) = encode(p, v, false) {
            return b;
        }
    }
    refcodec::foreign(p, v)
}

pub fn c15(_stratum: u32) {
    let n = 2 + draw(3) as usize;
    let sessions = 1 + draw(3);
    let s = Size { text: pick(&[8, 40, 300]), payload: pick(&[16, 300, 3000]), list: 4, edges: one_in(4) };
    let mut clients: Vec<Client> = vec![];
    for i in 0..n {
        clients.push(session(i, s, None));
    }
    let mut reconnects = (n as u32) * (sessions - 1);
    loop {
        let alive: Vec<usize> = (0..n).filter(|i| clients[*i].next < clients[*i].frames.len()).collect();
        if alive.is_empty() || (reconnects > 0 && one_in(12)) {
            if reconnects == 0 {
                break;
            }
            reconnects -= 1;
            let i = draw(n as u32) as usize;
            deliver(i, &clients[i]);
            let old = clients[i].v;
            fault(F::Reconnect);
            clients[i] = session(i, s, Some(old));
            continue;
        }
        let i = alive[draw(alive.len() as u32) as usize];
        let k = clients[i].next;
        clients[i].next += 1;
        let v = clients[i].v;
        let polls = clients[i].polls;
        if !poll(&mut clients[i].dec, polls) {
            fail!("lost", "client {} (version {}): has_more() is false before packet {}", i, v, k);
        }
        let r = decode(&mut clients[i].dec, v);
        let (want, bytes) = clients[i].frames[k].clone();
        let Some(want) = want else {
            // a packet of another version: whatever becomes of it
            if let Ok(p) = r {
                probe("packet of another version accepted");
                if v < 5 {
                    if let Some(x) = five(&p) {
                        fail!("version-5-fields", "a version 5 packet decoded under version {} carries {}: {}\n bytes {}", v, x, short(&p), hex(&bytes));
                    }
                }
            }
            continue;
        };
        let p = match r {
            Ok(p) => p,
            Err(e) => fail!("error", "client {}: a packet of its version {} is refused: {}\n sent {}\n bytes {}", i, v, e, short(&want), hex(&bytes)),
        };
        if !same(&p, &want, v) {
            fail!("changed", "client {}: a packet of its version {} arrives changed\n sent {}\n got  {}\n bytes {}", i, v, short(&want), short(&canon(&p, v)), hex(&bytes));
        }
        if v < 5 {
            if let Some(x) = five(&p) {
                fail!("version-5-fields", "a packet decoded under version {} carries {}: {}\n bytes {}", v, x, short(&p), hex(&bytes));
            }
        }
        let MqttPacket::Publish(mut p) = p else { continue };
        if p.topic.is_empty() {
            // the broker knows the topic the alias stands for
            p.topic = "alias".into();
        }
        // to everybody else, in their version
        for j in 0..n {
            if j == i && !one_in(4) {
                continue;
            }
            let w = clients[j].v;
            let r = encode(&MqttPacket::Publish(p.clone()), w, coin());
            match r {
                Ok(b) => {
                    probe(match (v, w) {
                        (5, 5) => "bridged 5 to 5",
                        (5, _) => "bridged 5 to older",
                        (_, 5) => "bridged older to 5",
                        _ => "bridged between older versions",
                    });
                    clients[j].inbox.extend(b);
                    let mut q = p.clone();
                    if w != 5 {
                        q.properties = None;
                    }
                    clients[j].want.push(q);
                }
                Err(e) => fail!("refused", "a PUBLISH received under version {} can not be sent under version {}: {}\n {}", v, w, e, short(&p)),
            }
        }
    }
    for (i, c) in clients.iter().enumerate() {
        deliver(i, c);
    }
}

/// a client connects, the broker finds out its version
fn session(i: usize, s: Size, old: Option<u8>) -> Client {
    let mut v = version();
    if let Some(o) = old {
        if coin() {
            v = 3 + (o - 3 + 1 + draw(2) as u8) % 3;
        }
    }
    let mut connect = gen::packet_of(PacketType::Connect, v, s);
    // the value may hold what another version would have carried
    if one_in(4) {
        gen::foreign(&mut connect, v, s);
    }
    let cb = wire(&connect, v);
    logln!("client {} connects with version {}: {}", i, v, hex(&cb));
    let mut data = cb.clone();
    let mut marks = vec![0, cb.len()];
    let mut frames = vec![];
    let m = 1 + draw(6);
    for _ in 0..m {
        // some clients forget which version they announced
        let w = if one_in(8) { pick(&[5, 4, 3]) } else { v };
        let k = match draw(5) {
            0..=2 => PacketType::Publish,
            3 => pick(&[PacketType::Subscribe, PacketType::Unsubscribe, PacketType::Puback, PacketType::Pubrec, PacketType::Pubrel, PacketType::Pubcomp]),
            _ => if w == 5 && one_in(4) { PacketType::Auth } else { gen::kind(w) },
        };
        let mut p = gen::packet_of(k, w, s);
        if one_in(6) {
            gen::foreign(&mut p, w, s);
        }
        let b = wire(&p, w);
        data.extend_from_slice(&b);
        marks.push(data.len());
        if w != v {
            fault(F::WrongVersion);
        }
        frames.push(((w == v).then_some(p), b));
    }
    // the first packet decodes to the same under every assumed version
    let mut first: Option<MqttPacket> = None;
    let others = 2 + draw(3);
    for k in 0..others {
        let a = match k {
            0 => 3 + (v - 3 + 1) % 3,
            1 => v,
            _ => draw(256) as u8,
        };
        let sched = Sched::random(cb.len());
        let (mut dec, _l) = open(Link::new(cb.clone(), sched));
        let p = match decode(&mut dec, a) {
            Ok(p) => p,
            Err(e) => fail!("error", "a CONNECT of version {} is refused if the receiver assumes version {}: {}\n sent {}\n bytes {}", v, a, e, short(&connect), hex(&cb)),
        };
        if let Some(f) = &first {
            if *f != p {
                fail!("assumed-version", "a CONNECT decodes differently if the receiver assumes version {}\n once {}\n then {}\n bytes {}", a, short(f), short(&p), hex(&cb));
            }
        }
        first = Some(p);
    }
    if one_in(4) {
        other_name(&connect);
    }
    let sched = Sched::random(data.len());
    let polls = sched.polls;
    let (mut dec, _l) = open(Link::new(data, sched).with_marks(marks));
    let assumed = if coin() { version() } else { draw(256) as u8 };
    let p = match decode(&mut dec, assumed) {
        Ok(MqttPacket::Connect(p)) => p,
        Ok(p) => fail!("changed", "a CONNECT becomes {}", short(&p)),
        Err(e) => fail!("error", "a CONNECT of version {} is refused if the receiver assumes version {}: {}", v, assumed, e),
    };
    if p.protocol_version != v {
        fail!("version", "a CONNECT of version {} announces version {}", v, p.protocol_version);
    }
    if !same(&MqttPacket::Connect(p.clone()), &connect, v) {
        fail!("changed", "a CONNECT arrives changed\n sent {}\n got  {}", short(&canon(&connect, v)), short(&p));
    }
    if v < 5 && (p.properties.is_some() || p.will.as_ref().is_some_and(|w| w.properties.is_some())) {
        fail!("version-5-fields", "a CONNECT of version {} carries properties: {}", v, short(&p));
    }
    Client { v: p.protocol_version, frames, dec, next: 0, polls, inbox: vec![], want: vec![] }
}

/// the protocol name of another version does not change the announced version
fn other_name(connect: &MqttPacket) {
    let MqttPacket::Connect(mut c) = connect.clone() else { return };
    c.protocol_id = if c.protocol_id == Protocol::Mqtt { Protocol::MQIsdp } else { Protocol::Mqtt };
    let v = c.protocol_version;
    let p = MqttPacket::Connect(c);
    let Ok(b) = encode(&p, v, coin()) else { return };
    let (mut dec, _l) = open(Link::new(b.clone(), Sched::random(b.len())));
    // refusing such a pair is fine, too
    let Ok(got) = decode(&mut dec, draw(256) as u8) else { return };
    probe("protocol name of another version");
    if let MqttPacket::Connect(g) = &got {
        if g.protocol_version != v {
            fail!("version", "a CONNECT of version {} announces version {}\n bytes {}", v, g.protocol_version, hex(&b));
        }
    }
    if !same(&got, &p, v) {
        fail!("changed", "a CONNECT arrives changed\n sent {}\n got  {}\n bytes {}", short(&canon(&p, v)), short(&got), hex(&b));
    }
}

/// a client reads what the broker sent to it
fn deliver(i: usize, c: &Client) {
    let sched = Sched::random(c.inbox.len());
    let (mut dec, _l) = open(Link::new(c.inbox.clone(), sched));
    for (k, w) in c.want.iter().enumerate() {
        match decode(&mut dec, c.v) {
            Ok(MqttPacket::Publish(p)) => {
                if c.v < 5 && p.properties.is_some() {
                    fail!("version-5-fields", "a PUBLISH bridged to version {} carries properties: {}", c.v, short(&p));
                }
                if !same(&MqttPacket::Publish(p.clone()), &MqttPacket::Publish(w.clone()), c.v) {
                    fail!("changed", "client {}: bridged message {} arrives changed (version {})\n broker had {}\n client got {}", i, k, c.v, short(w), short(&p));
                }
            }
            Ok(p) => fail!("changed", "a bridged PUBLISH becomes {}", short(&p)),
            Err(e) => fail!("error", "client {}: bridged message {} is refused (version {}): {}\n broker had {}", i, k, c.v, e, short(w)),
        }
    }
    if more(&mut dec) {
        fail!("left-over", "client {}: bytes behind the last bridged message", i);
    }
}
