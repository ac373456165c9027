//! A client and a broker that follow the acknowledgement rules on top of the
//! library, over connections that are cut anywhere, with nodes that crash and
//! come back with their session state (C14).

use crate::cx::*;
use crate::gen::{self, Size};
use crate::link::ERR_KINDS;
use crate::refcodec::canon;
use crate::seam;
use crate::util::*;
use crate::world::{self, Outcome};
use crate::{fail, logln};
use mqtt_packet_3_5::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::{self, ErrorKind, Read};
use std::sync::{Arc, Mutex, MutexGuard};

fn locked<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    match m.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

// ---------------------------------------------------------------- pipe

/// one direction of a connection
struct Pipe {
    id: u64,
    /// bytes on their way, with the time they arrive
    data: VecDeque<(u64, u8)>,
    last: u64,
    delay: u64,
    /// no more bytes get in; what is still on its way arrives first
    cut: Option<Option<ErrorKind>>,
    seg: u32,
    eintr: u32,
    /// boundaries of packets still to be read: bytes until each
    written: u64,
    read: u64,
    ends: VecDeque<u64>,
    /// what was sent, in order
    sent: VecDeque<MqttPacket>,
}

type P = Arc<Mutex<Pipe>>;

fn pipe(id: u64, big: bool) -> P {
    Arc::new(Mutex::new(Pipe {
        id,
        data: VecDeque::new(),
        last: 0,
        delay: pick(&[0, 100, 5_000, 200_000]),
        cut: None,
        seg: if big { pick(&[100_000, 1460, 8192, 400]) } else { pick(&[1000, 1, 3, 20]) },
        eintr: pick(&[0, 0, 3, 10]),
        written: 0,
        read: 0,
        ends: VecDeque::new(),
        sent: VecDeque::new(),
    }))
}

impl Pipe {
    fn write(&mut self, b: &[u8], p: MqttPacket) {
        if self.cut.is_some() {
            return; // lost
        }
        self.sent.push_back(p);
        let mut t = self.last.max(world::now() + if self.delay > 0 { draw(self.delay as u32 + 1) as u64 } else { 0 });
        let split = if b.len() > 1 && one_in(4) { draw(b.len() as u32) as usize } else { b.len() };
        for (i, x) in b.iter().enumerate() {
            if i == split {
                t += draw(self.delay as u32 + 2) as u64;
                fault(F::Delay);
            }
            self.data.push_back((t, *x));
        }
        self.last = t;
        self.written += b.len() as u64;
        self.ends.push_back(self.written);
        world::notify(self.id);
    }
    /// the connection breaks: some of what is on its way may still arrive
    fn cut(&mut self) {
        if self.cut.is_some() {
            return;
        }
        let n = self.data.len();
        let keep = match draw(4) {
            0 => n,
            1 => 0,
            2 => draw(n as u32 + 1) as usize,
            _ => n.saturating_sub(1 + draw(4) as usize),
        };
        self.data.truncate(keep);
        let end = self.read + keep as u64;
        let inside = end > 0 && self.ends.iter().any(|e| *e > end) && !self.ends.contains(&end) && end != self.read;
        fault(if inside { F::CutInside } else { F::Cut });
        self.cut = Some(if coin() { None } else { Some(pick(ERR_KINDS)) });
        world::notify(self.id);
    }
}

struct PipeRead(P);

impl Read for PipeRead {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let prev = seam::leave_lib();
        let r = self.serve(buf);
        seam::enter_lib(prev);
        r
    }
}

impl PipeRead {
    fn serve(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        world::yield_point();
        loop {
            let now = world::now();
            let (id, next) = {
                let mut g = locked(&self.0);
                if g.eintr > 0 && one_in(g.eintr) {
                    fault(F::Eintr);
                    return Err(ErrorKind::Interrupted.into());
                }
                let ready = g.data.iter().take_while(|x| x.0 <= now).take(buf.len()).count();
                if ready > 0 {
                    let n = if g.seg == 1000 || g.seg == 100_000 { ready } else { (1 + draw(g.seg) as usize).min(ready) };
                    if n < ready {
                        fault(F::ShortRead);
                    }
                    for (i, x) in g.data.drain(..n).enumerate() {
                        buf[i] = x.1;
                    }
                    g.read += n as u64;
                    let r = g.read;
                    while g.ends.front().is_some_and(|e| *e <= r) {
                        g.ends.pop_front();
                    }
                    count_read(n);
                    event(50, g.id, g.read);
                    return Ok(n);
                }
                if g.data.is_empty() {
                    if let Some(e) = g.cut {
                        return match e {
                            None => Ok(0),
                            Some(k) => Err(k.into()),
                        };
                    }
                }
                (g.id, g.data.front().map(|x| x.0))
            };
            world::wait(id, next);
        }
    }
}

// ---------------------------------------------------------------- node

/// what the sender knows about a message
struct Msg {
    qos: u8,
    topic: String,
    retain: bool,
    payload: Vec<u8>,
    properties: Option<PublishProperties>,
    /// (connection, dup, id) of every transmission
    sent: Vec<(u64, bool, Option<u16>)>,
    /// (connection) of every delivery to the application at the other side
    delivered: Vec<u64>,
    /// the receiver will turn it down
    refuse: bool,
    refused: bool,
    acked: bool,
    /// a session was lost while this was in flight
    relaxed: bool,
    /// what the sender keeps in its session store, if it keeps wire bytes
    stored: Option<Vec<u8>>,
}

/// session state, survives crashes
#[derive(Default)]
struct Session {
    next_id: u16,
    /// not yet sent at all
    queue: VecDeque<usize>,
    /// in flight: id -> (message, released)
    out: BTreeMap<u16, (usize, bool)>,
    /// order of first transmission
    order: Vec<u16>,
    /// ids received with QoS 2 and not yet released
    got: BTreeSet<u16>,
    /// SUBSCRIBE and UNSUBSCRIBE not yet answered, with the connection of the last transmission
    pend: Vec<(u16, MqttPacket, u64)>,
    /// filter -> granted QoS
    subs: BTreeMap<String, u8>,
}

struct Node {
    name: &'static str,
    s: Session,
    msgs: Vec<Msg>,
    /// connection in use
    conn: Option<(u64, P)>,
    /// what was in flight has been sent again, new messages may follow
    ready: bool,
    to_publish: u32,
    crash: bool,
    pings: u32,
    pongs: u32,
    /// subscriptions the application still wants to make or end
    to_subscribe: u32,
    /// the client wants to begin with an empty session
    fresh: bool,
    /// the broker knows that the client knows of the session
    confirmed: bool,
    /// what the other side announced
    peer_max: u16,
    peer_alias: u16,
    /// topic -> alias, in use; for this connection
    alias_out: BTreeMap<String, (u16, bool)>,
    alias_in: BTreeMap<u16, String>,
    /// identifiers the other side has in use; for this connection
    open: BTreeSet<u16>,
    pumping: bool,
    again: bool,
}

struct World {
    v: u8,
    /// 0 client, 1 broker
    nodes: [Mutex<Node>; 2],
    accept: Mutex<VecDeque<(u64, P, P)>>,
    conns: Mutex<u64>,
    pipes: Mutex<Vec<P>>,
    faults_over: Mutex<bool>,
    shut: Mutex<bool>,
    crashes: bool,
    /// a crash may take the session with it
    loses: bool,
    /// sessions are kept as wire bytes
    store: bool,
    /// receive maximum and highest alias, of each node
    recv_max: [u16; 2],
    alias_max: [u16; 2],
    window: usize,
    topics: Vec<String>,
    small: Size,
}

const ACCEPT: u64 = 1 << 40;
const DONE: u64 = 1 << 41;
const WAKE: u64 = 1 << 42;

/// the session is empty: what was in flight is published again as new messages
fn begin_again(n: &mut Node) {
    let list: Vec<usize> = n.s.order.iter().filter_map(|id| n.s.out.get(id).map(|x| x.0)).collect();
    for k in list.into_iter().rev() {
        n.msgs[k].relaxed = true;
        n.s.queue.push_front(k);
    }
    n.s.order.clear();
    n.s.out.clear();
    n.s.got.clear();
    n.s.subs.clear();
}

/// an identifier nothing in flight has
fn new_id(n: &mut Node) -> u16 {
    let mut id = n.s.next_id;
    while id == 0 || n.s.out.contains_key(&id) || n.s.pend.iter().any(|x| x.0 == id) {
        id = id.wrapping_add(1);
    }
    n.s.next_id = id.wrapping_add(pick(&[1, 0, 255]));
    id
}

enum Stop {
    /// connection lost or node crashed
    Gone,
}

impl World {
    fn over(&self) -> bool {
        *locked(&self.faults_over)
    }
    /// everything published and every exchange complete
    fn settled(&self) -> bool {
        self.over()
            && self.nodes.iter().all(|n| {
                let n = locked(n);
                n.to_publish == 0 && n.to_subscribe == 0 && n.s.pend.is_empty() && n.s.queue.is_empty() && n.s.out.is_empty() && n.msgs.iter().all(|m| m.qos > 0 || !m.sent.is_empty())
            })
    }
    fn check_done(&self) {
        if self.settled() && !*locked(&self.shut) {
            *locked(&self.shut) = true;
            logln!("all exchanges complete");
            // the client says goodbye
            let c = locked(&self.nodes[0]).conn.clone();
            if let Some((g, p)) = c {
                let d = DisconnectPacket {
                    reason_code: if self.v == 5 { Some(DisconnectCode::NormalDisconnection) } else { None },
                    properties: None,
                };
                self.transmit(0, g, &p, MqttPacket::Disconnect(d));
            }
            for p in locked(&self.pipes).iter() {
                let mut p = locked(p);
                if p.cut.is_none() {
                    p.cut = Some(None);
                    world::notify(p.id);
                }
            }
            world::notify(ACCEPT);
            world::notify(DONE);
            world::notify(WAKE);
            world::notify(WAKE + 1);
        }
    }
    fn transmit(&self, me: usize, g: u64, p: &P, pkt: MqttPacket) {
        let r = encode(&pkt, self.v, coin());
        match r {
            Ok(b) => {
                logln!("{} -> conn {}: {}", locked(&self.nodes[me]).name, g, short(&pkt));
                locked(p).write(&b, pkt)
            }
            Err(e) => fail!("refused", "the encoder refuses a packet of the exchange: {}\n {}", e, short(&pkt)),
        }
    }
    fn crashed(&self, me: usize, n: &mut Node) -> bool {
        if !n.crash || *locked(&self.shut) {
            return false;
        }
        n.crash = false;
        fault(F::Crash);
        logln!("{} crashes", n.name);
        event(60, me as u64, n.conn.as_ref().map_or(0, |c| c.0));
        n.conn = None;
        n.pings = 0;
        n.pongs = 0;
        if self.loses && (me == 0 || self.v > 3) && coin() {
            probe("session lost in a crash");
            logln!("{} has lost its session", n.name);
            if me == 0 {
                n.fresh = true;
            } else {
                n.confirmed = false;
            }
            begin_again(n);
        }
        true
    }
    /// a node may crash between any two steps
    fn step(&self, me: usize, g: u64) -> Result<(), Stop> {
        world::yield_point();
        let mut n = locked(&self.nodes[me]);
        if self.crashed(me, &mut n) {
            return Err(Stop::Gone);
        }
        if n.conn.as_ref().map(|c| c.0) != Some(g) {
            return Err(Stop::Gone);
        }
        Ok(())
    }
    /// a new message of the application
    fn new_message(&self, me: usize) {
        let mut n = locked(&self.nodes[me]);
        if n.to_publish == 0 {
            return;
        }
        n.to_publish -= 1;
        let k = n.msgs.len();
        let qos = pick(&[1, 2, 2, 0]);
        let mut payload = vec![b'a' + me as u8];
        payload.extend((k as u32).to_be_bytes());
        let extra = draw(self.small.payload) as usize;
        payload.extend(gen::bytes_of(extra, k as u32));
        let properties = match gen::publish(self.v, self.small) {
            p if self.v == 5 && coin() => p.properties.map(|mut x| {
                x.topic_alias = None;
                x
            }),
            _ => None,
        };
        n.msgs.push(Msg {
            qos,
            topic: if coin() { gen::text1(self.small) } else { self.topics[draw(self.topics.len() as u32) as usize].clone() },
            retain: coin(),
            payload,
            properties,
            sent: vec![],
            delivered: vec![],
            refuse: self.v == 5 && qos > 0 && one_in(6),
            refused: false,
            acked: false,
            relaxed: false,
            stored: None,
        });
        n.s.queue.push_back(k);
    }
    fn publish(&self, me: usize, g: u64, p: &P, k: usize, id: Option<u16>, dup: bool) {
        let (pkt, stored) = {
            let mut n = locked(&self.nodes[me]);
            let m = &mut n.msgs[k];
            m.sent.push((g, dup, id));
            (
                PublishPacket {
                    dup,
                    qos: m.qos,
                    retain: m.retain,
                    topic: m.topic.clone(),
                    message_id: id,
                    payload: m.payload.clone(),
                    properties: m.properties.clone(),
                },
                m.stored.clone(),
            )
        };
        let pkt = match stored {
            // what was kept is decoded, marked and sent again
            Some(b) if dup => match solo(&b, self.v) {
                Ok(MqttPacket::Publish(mut q)) => {
                    probe("retransmission out of the session store");
                    q.dup = true;
                    q
                }
                Ok(x) => fail!("changed", "a stored PUBLISH becomes {}", short(&x)),
                Err(e) => fail!("error", "a stored PUBLISH is refused: {}\n {}", e, hex(&b)),
            },
            _ => {
                if self.store && pkt.qos > 0 {
                    if let Ok(b) = encode(&MqttPacket::Publish(pkt.clone()), self.v, false) {
                        locked(&self.nodes[me]).msgs[k].stored = Some(b);
                    }
                }
                pkt
            }
        };
        let (pkt, used) = self.with_alias(me, pkt);
        self.transmit(me, g, p, MqttPacket::Publish(pkt));
        if let Some(t) = used {
            let mut n = locked(&self.nodes[me]);
            if n.conn.as_ref().map(|c| c.0) == Some(g) {
                if let Some(x) = n.alias_out.get_mut(&t) {
                    x.1 = true;
                }
            }
        }
    }
    /// gives the topic an alias, or lets the alias stand for the topic
    fn with_alias(&self, me: usize, mut pkt: PublishPacket) -> (PublishPacket, Option<String>) {
        let mut n = locked(&self.nodes[me]);
        if self.v != 5 || n.peer_alias == 0 || one_in(3) {
            return (pkt, None);
        }
        let used = n.alias_out.len() as u16;
        let (a, known) = match n.alias_out.get(&pkt.topic).copied() {
            Some(x) => x,
            None if used < n.peer_alias => {
                // the highest first
                let a = n.peer_alias - used;
                n.alias_out.insert(pkt.topic.clone(), (a, false));
                (a, false)
            }
            None => return (pkt, None),
        };
        let t = pkt.topic.clone();
        let props = pkt.properties.get_or_insert_with(|| PublishProperties {
            payload_format_indicator: false,
            message_expiry_interval: None,
            content_type: None,
            response_topic: None,
            correlation_data: vec![],
            subscription_identifiers: vec![],
            topic_alias: None,
            user_properties: UserProperties::new(),
        });
        props.topic_alias = Some(a);
        if known {
            probe("alias in place of the topic");
            pkt.topic.clear();
        }
        (pkt, Some(t))
    }
    /// what the other side really sent
    fn expect(&self, me: usize, g: u64, from: &P, got: &MqttPacket) {
        let want = locked(from).sent.pop_front();
        match want {
            Some(w) => {
                if !same(&w, got, self.v) {
                    fail!("changed", "{} gets another packet than was sent on connection {}\n sent {}\n got  {}", locked(&self.nodes[me]).name, g, short(&w), short(got));
                }
            }
            None => fail!("invented", "{} gets a packet nobody sent on connection {}: {}", locked(&self.nodes[me]).name, g, short(got)),
        }
    }
    /// an error or an end is right only if the connection is broken
    fn expect_end(&self, me: usize, g: u64, from: &P, what: &str) {
        if locked(from).cut.is_none() {
            fail!("error", "{} gets {} on connection {}, which is open and intact", locked(&self.nodes[me]).name, what, g);
        }
    }
    /// sends what is queued, as far as the window allows
    fn pump(&self, me: usize) {
        {
            let mut n = locked(&self.nodes[me]);
            n.again = true;
            if n.pumping {
                return;
            }
            n.pumping = true;
        }
        loop {
            {
                let mut n = locked(&self.nodes[me]);
                if !n.again {
                    n.pumping = false;
                    return;
                }
                n.again = false;
            }
            while self.pump_one(me) {
                self.check_done();
            }
        }
    }
    fn pump_one(&self, me: usize) -> bool {
        let (g, p, k, id) = {
            let mut n = locked(&self.nodes[me]);
            let Some((g, p)) = n.conn.clone() else { return false };
            if !n.ready {
                return false;
            }
            if let Some(x) = n.s.pend.iter_mut().find(|x| x.2 != g) {
                x.2 = g;
                let pkt = x.1.clone();
                drop(n);
                self.transmit(me, g, &p, pkt);
                return true;
            }
            let Some(k) = n.s.queue.front().copied() else { return false };
            let qos = n.msgs[k].qos;
            if qos > 0 && n.s.out.len() >= self.window.min(n.peer_max as usize) {
                return false;
            }
            n.s.queue.pop_front();
            let id = if qos > 0 {
                let id = new_id(&mut n);
                n.s.out.insert(id, (k, false));
                n.s.order.push(id);
                Some(id)
            } else {
                None
            };
            (g, p, k, id)
        };
        self.publish(me, g, &p, k, id, false);
        true
    }
    /// the client's application wants a subscription, or wants to end one
    fn new_subscription(&self, me: usize) {
        let mut n = locked(&self.nodes[me]);
        if n.to_subscribe == 0 {
            return;
        }
        n.to_subscribe -= 1;
        let id = new_id(&mut n);
        let mut size = self.small;
        // clients with many subscriptions
        if one_in(4) {
            size.list = pick(&[8, 20, 70]);
        }
        let mut pkt = gen::packet_of(if one_in(3) { PacketType::Unsubscribe } else { PacketType::Subscribe }, self.v, size);
        match &mut pkt {
            MqttPacket::Subscribe(p) => {
                p.message_id = id;
                for x in &mut p.subscriptions {
                    if coin() {
                        x.topic = self.topics[draw(self.topics.len() as u32) as usize].clone();
                    }
                }
            }
            MqttPacket::Unsubscribe(p) => {
                p.message_id = id;
                for x in &mut p.unsubscriptions {
                    if coin() {
                        *x = self.topics[draw(self.topics.len() as u32) as usize].clone();
                    }
                }
            }
            _ => {}
        }
        n.s.pend.push((id, pkt, 0));
    }
    /// takes a request out of the list of those not answered
    fn answered(&self, me: usize, id: u16) -> Option<MqttPacket> {
        let mut n = locked(&self.nodes[me]);
        let i = n.s.pend.iter().position(|x| x.0 == id)?;
        Some(n.s.pend.remove(i).1)
    }
    /// after a reconnect everything in flight is sent again
    fn resend(&self, me: usize, g: u64, p: &P) {
        let list: Vec<(u16, usize, bool)> = {
            let n = locked(&self.nodes[me]);
            n.s.order.iter().filter_map(|id| n.s.out.get(id).map(|x| (*id, x.0, x.1))).collect()
        };
        for (id, k, released) in list {
            if released {
                let pkt = MqttPacket::Pubrel(self.ack(PacketType::Pubrel, id, 0));
                self.transmit(me, g, p, pkt);
            } else {
                probe("retransmission");
                self.publish(me, g, p, k, Some(id), true);
            }
        }
    }
    fn auth(&self, me: usize, g: u64, p: &P, code: u8) {
        let mut a = match gen::packet_of(PacketType::Auth, 5, self.small) {
            MqttPacket::Auth(a) => a,
            _ => return,
        };
        a.reason_code = gen::auth_code(code);
        self.transmit(me, g, p, MqttPacket::Auth(a));
    }
    fn ack_props(&self) -> Option<ConfirmationProperties> {
        if self.v == 5 && one_in(4) {
            Some(ConfirmationProperties { reason_string: gen::opt(|| "why".to_string()), user_properties: gen::user_props(Size::small()) })
        } else {
            None
        }
    }
    fn ack(&self, kind: PacketType, id: u16, code: u8) -> ConfirmationPacket {
        let props = self.ack_props();
        match (kind, self.v) {
            (PacketType::Puback, 5) => ConfirmationPacket::puback_v5(id, gen::puback_code(code), props),
            (PacketType::Pubrec, 5) => ConfirmationPacket::pubrec_v5(id, gen::puback_code(code), props),
            (PacketType::Pubrel, 5) => ConfirmationPacket::pubrel_v5(id, gen::pubrel_code(code), props),
            (PacketType::Pubcomp, 5) => ConfirmationPacket::pubcomp_v5(id, gen::pubrel_code(code), props),
            (PacketType::Puback, _) => ConfirmationPacket::puback_v3(id),
            (PacketType::Pubrec, _) => ConfirmationPacket::pubrec_v3(id),
            (PacketType::Pubrel, _) => ConfirmationPacket::pubrel_v3(id),
            _ => ConfirmationPacket::pubcomp_v3(id),
        }
    }
    /// does this node's acknowledgement turn the message down
    fn turned_down(&self, c: &ConfirmationPacket) -> bool {
        self.v == 5 && c.puback_reason_code.as_ref().is_some_and(|c| crate::refcodec::byte_of_puback(c) >= 0x80)
    }

    /// the application gets a message; this and the session state are one step
    fn receive(&self, me: usize, g: u64, p: &PublishPacket) -> Result<bool, Stop> {
        let other = 1 - me;
        let mut full = p.clone();
        if let Some(a) = full.properties.as_mut().and_then(|x| x.topic_alias.take()) {
            let mut n = locked(&self.nodes[me]);
            if full.topic.is_empty() {
                match n.alias_in.get(&a) {
                    Some(t) => full.topic = t.clone(),
                    None => {
                        drop(n);
                        fail!("confused", "the topic alias {} stands for nothing: {}", a, short(p))
                    }
                }
            } else {
                n.alias_in.insert(a, full.topic.clone());
            }
        }
        if let (1 | 2, Some(id)) = (p.qos, p.message_id) {
            let mut n = locked(&self.nodes[me]);
            n.open.insert(id);
            if n.open.len() > self.recv_max[me] as usize {
                let c = n.open.len();
                drop(n);
                fail!("quota", "{} messages in flight towards a receiver with receive maximum {}", c, self.recv_max[me]);
            }
        }
        let p = &full;
        // what was it?
        let k = match p.payload.get(..5) {
            Some(b) if b[0] == b'a' + other as u8 => u32::from_be_bytes([b[1], b[2], b[3], b[4]]) as usize,
            _ => fail!("invented", "a message nobody published is delivered: {}", short(p)),
        };
        let fresh = match (p.qos, p.message_id) {
            (2, Some(id)) => locked(&self.nodes[me]).s.got.insert(id),
            _ => true,
        };
        let mut n = locked(&self.nodes[other]);
        let who = n.name;
        let v = self.v;
        let Some(m) = n.msgs.get_mut(k) else { fail!("invented", "message {} of {} does not exist", k, who) };
        let Some((_, dup, id)) = m.sent.iter().find(|s| s.0 == g).copied() else {
            fail!("invented", "message {} of {} was not sent on connection {}: {}", k, who, g, short(p))
        };
        let want = PublishPacket {
            dup,
            qos: m.qos,
            retain: m.retain,
            topic: m.topic.clone(),
            message_id: id,
            payload: m.payload.clone(),
            properties: m.properties.clone(),
        };
        if canon(&MqttPacket::Publish(p.clone()), v) != canon(&MqttPacket::Publish(want.clone()), v) {
            fail!("changed", "message {} of {} arrives changed\n sent {}\n got  {}", k, who, short(&want), short(p));
        }
        if m.refuse {
            // the receiver turns it down and keeps nothing
            drop(n);
            if let (2, Some(id)) = (p.qos, p.message_id) {
                locked(&self.nodes[me]).s.got.remove(&id);
            }
            return Ok(false);
        }
        if fresh {
            m.delivered.push(g);
            event(61, me as u64, k as u64);
            if m.delivered.len() > 1 && m.qos != 1 && !(m.relaxed && m.qos == 2) {
                fail!("duplicate", "message {} of {} with QoS {} is delivered {} times", k, who, m.qos, m.delivered.len());
            }
        } else {
            probe("duplicate suppressed");
        }
        Ok(true)
    }

    /// one packet of the running session
    fn handle(&self, me: usize, g: u64, p: &P, pkt: MqttPacket) -> Result<bool, Stop> {
        match pkt {
            MqttPacket::Publish(m) => {
                let ok = self.receive(me, g, &m)?;
                self.step(me, g)?;
                let code = if ok { if one_in(4) { 0x10 } else { 0 } } else { 0x97 };
                match (m.qos, m.message_id) {
                    (1, Some(id)) => {
                        locked(&self.nodes[me]).open.remove(&id);
                        let a = self.ack(PacketType::Puback, id, code);
                        self.transmit(me, g, p, MqttPacket::Puback(a));
                    }
                    (2, Some(id)) => {
                        if code >= 0x80 {
                            locked(&self.nodes[me]).open.remove(&id);
                        }
                        let a = self.ack(PacketType::Pubrec, id, code);
                        self.transmit(me, g, p, MqttPacket::Pubrec(a));
                    }
                    (0, _) => {}
                    _ => fail!("changed", "a PUBLISH with QoS {} has no identifier", m.qos),
                }
            }
            MqttPacket::Puback(a) => {
                let bad = self.turned_down(&a);
                let mut n = locked(&self.nodes[me]);
                if let Some((k, _)) = n.s.out.get(&a.message_id).copied() {
                    if n.msgs[k].qos != 1 {
                        let q = n.msgs[k].qos;
                        drop(n);
                        fail!("confused", "PUBACK {} for a message with QoS {}", a.message_id, q);
                    }
                    n.s.out.remove(&a.message_id);
                    n.s.order.retain(|x| *x != a.message_id);
                    n.msgs[k].acked = true;
                    n.msgs[k].refused = bad;
                } else {
                    drop(n);
                    fail!("confused", "PUBACK for identifier {} which is not in use", a.message_id);
                }
            }
            MqttPacket::Pubrec(a) => {
                let bad = self.turned_down(&a);
                let known = {
                    let mut n = locked(&self.nodes[me]);
                    match n.s.out.get(&a.message_id).copied() {
                        Some((k, _)) if bad => {
                            n.s.out.remove(&a.message_id);
                            n.s.order.retain(|x| *x != a.message_id);
                            n.msgs[k].acked = true;
                            n.msgs[k].refused = true;
                            None
                        }
                        Some((k, _)) => {
                            n.s.out.insert(a.message_id, (k, true));
                            Some(true)
                        }
                        None => Some(false),
                    }
                };
                self.step(me, g)?;
                match known {
                    None => {}
                    Some(true) => {
                        let r = self.ack(PacketType::Pubrel, a.message_id, 0);
                        self.transmit(me, g, p, MqttPacket::Pubrel(r));
                    }
                    Some(false) => fail!("confused", "PUBREC for identifier {} which is not in use", a.message_id),
                }
            }
            MqttPacket::Pubrel(a) => {
                let known = locked(&self.nodes[me]).s.got.remove(&a.message_id);
                self.step(me, g)?;
                locked(&self.nodes[me]).open.remove(&a.message_id);
                let c = self.ack(PacketType::Pubcomp, a.message_id, if known { 0 } else { 0x92 });
                self.transmit(me, g, p, MqttPacket::Pubcomp(c));
            }
            MqttPacket::Pubcomp(a) => {
                let mut n = locked(&self.nodes[me]);
                match n.s.out.remove(&a.message_id) {
                    Some((k, true)) => {
                        n.s.order.retain(|x| *x != a.message_id);
                        n.msgs[k].acked = true;
                    }
                    _ => {
                        drop(n);
                        fail!("confused", "PUBCOMP for identifier {} which was not released", a.message_id);
                    }
                }
            }
            MqttPacket::Subscribe(a) if me == 1 => {
                let codes: Vec<u8> = a
                    .subscriptions
                    .iter()
                    .map(|x| {
                        let q = match x.qos {
                            QoS::QoS0 => 0,
                            QoS::QoS1 => 1,
                            _ => 2,
                        };
                        if one_in(5) { if self.v == 5 { pick(&[0x80, 0x87, 0x97, 0x83, 0x8F, 0x91, 0x9E, 0xA1, 0xA2]) } else { 0x80 } } else if one_in(4) { 0 } else { q }
                    })
                    .collect();
                {
                    let mut n = locked(&self.nodes[me]);
                    for (x, c) in a.subscriptions.iter().zip(&codes) {
                        // a subscription that is refused ends the one before
                        if *c < 0x80 {
                            n.s.subs.insert(x.topic.clone(), *c);
                        } else {
                            n.s.subs.remove(&x.topic);
                        }
                    }
                }
                self.step(me, g)?;
                let props = self.ack_props();
                let pkt = SubackPacket {
                    reason_code: None,
                    message_id: a.message_id,
                    properties: props,
                    granted_reason_codes: if self.v == 5 { codes.iter().map(|c| gen::suback_code(*c)).collect() } else { vec![] },
                    granted: if self.v == 5 { vec![] } else { codes.iter().map(|c| gen::granted(if *c >= 0x80 { 3 } else { *c })).collect() },
                };
                self.transmit(me, g, p, MqttPacket::Suback(pkt));
            }
            MqttPacket::Suback(a) if me == 0 => match self.answered(me, a.message_id) {
                Some(MqttPacket::Subscribe(q)) => {
                    let codes: Vec<u8> = if self.v == 5 {
                        a.granted_reason_codes.iter().map(crate::refcodec::byte_of_suback).collect()
                    } else {
                        a.granted
                            .iter()
                            .map(|g| match g {
                                Granted::QoS0 => 0,
                                Granted::QoS1 => 1,
                                Granted::QoS2 => 2,
                                Granted::Failure => 0x80,
                            })
                            .collect()
                    };
                    if codes.len() != q.subscriptions.len() {
                        fail!("confused", "{} answers for {} subscriptions", codes.len(), q.subscriptions.len());
                    }
                    let mut n = locked(&self.nodes[me]);
                    for (x, c) in q.subscriptions.iter().zip(&codes) {
                        // a subscription that is refused ends the one before
                        if *c < 0x80 {
                            n.s.subs.insert(x.topic.clone(), *c);
                        } else {
                            n.s.subs.remove(&x.topic);
                        }
                    }
                }
                _ => fail!("confused", "SUBACK for identifier {} which no SUBSCRIBE uses", a.message_id),
            },
            MqttPacket::Unsubscribe(a) if me == 1 => {
                let codes: Vec<u8> = {
                    let mut n = locked(&self.nodes[me]);
                    a.unsubscriptions.iter().map(|x| if n.s.subs.remove(x).is_some() { 0 } else { 0x11 }).collect()
                };
                self.step(me, g)?;
                let props = self.ack_props();
                let pkt = UnsubackPacket {
                    message_id: a.message_id,
                    properties: props,
                    granted: if self.v == 5 { codes.iter().map(|c| gen::unsuback_code(*c)).collect() } else { vec![] },
                };
                self.transmit(me, g, p, MqttPacket::Unsuback(pkt));
            }
            MqttPacket::Unsuback(a) if me == 0 => match self.answered(me, a.message_id) {
                Some(MqttPacket::Unsubscribe(q)) => {
                    if self.v == 5 && a.granted.len() != q.unsubscriptions.len() {
                        fail!("confused", "{} answers for {} subscriptions to end", a.granted.len(), q.unsubscriptions.len());
                    }
                    let mut n = locked(&self.nodes[me]);
                    for x in &q.unsubscriptions {
                        n.s.subs.remove(x);
                    }
                }
                _ => fail!("confused", "UNSUBACK for identifier {} which no UNSUBSCRIBE uses", a.message_id),
            },
            MqttPacket::Auth(a) => {
                let answer = match (me, a.reason_code) {
                    (1, AuthCode::ReAuthenticate) => Some(if coin() { 0x18 } else { 0 }),
                    (1, _) => Some(0),
                    (_, AuthCode::ContinueAuthentication) => Some(0x18),
                    _ => None,
                };
                if let Some(c) = answer {
                    self.auth(me, g, p, c);
                }
            }
            MqttPacket::Pingreq => self.transmit(me, g, p, MqttPacket::Pingresp),
            MqttPacket::Pingresp => {
                let mut n = locked(&self.nodes[me]);
                n.pongs += 1;
                if n.pongs > n.pings {
                    drop(n);
                    fail!("invented", "a PINGRESP without PINGREQ");
                }
            }
            MqttPacket::Disconnect(_) => return Ok(false),
            x => fail!("changed", "{} receives {} in the middle of a session", locked(&self.nodes[me]).name, short(&x)),
        }
        self.check_done();
        Ok(true)
    }

    /// decodes and handles packets until the connection is gone
    fn serve(&self, me: usize, g: u64, out: &P, from: &P, dec: &mut PacketDecoder<PipeRead>) -> Result<(), Stop> {
        loop {
            self.step(me, g)?;
            let ask = coin();
            if ask && !seam::lib(|| dec.has_more()) {
                self.expect_end(me, g, from, "the end");
                return Ok(());
            }
            let r = seam::lib(|| dec.decode_packet(self.v));
            match r {
                Ok(p) => {
                    count_packet();
                    event(62, me as u64, kind_of(&p));
                    logln!("{} <- conn {}: {}", locked(&self.nodes[me]).name, g, short(&p));
                    self.expect(me, g, from, &p);
                    self.step(me, g)?;
                    locked(&self.nodes[me]).confirmed = true;
                    if !self.handle(me, g, out, p)? {
                        return Ok(());
                    }
                }
                Err(e) => {
                    logln!("{} <- conn {}: Err {}", locked(&self.nodes[me]).name, g, e);
                    event(63, me as u64, 0);
                    self.expect_end(me, g, from, &format!("the error {:?}", e));
                    return Ok(());
                }
            }
            self.pump(me);
        }
    }

    /// the connection of a node is not usable any more
    fn drop_conn(&self, me: usize, g: u64, a: &P, b: &P) {
        for p in [a, b] {
            let mut p = locked(p);
            if p.cut.is_none() {
                p.cut = Some(None);
                world::notify(p.id);
            }
        }
        let mut n = locked(&self.nodes[me]);
        if n.conn.as_ref().map(|c| c.0) == Some(g) {
            n.conn = None;
        }
    }

    fn client(&self) {
        let mut sessions = 0;
        while !*locked(&self.shut) {
            sessions += 1;
            let g = {
                let mut c = locked(&self.conns);
                *c += 1;
                *c
            };
            if sessions > 1 {
                fault(F::Reconnect);
            }
            let big = self.small.payload > 1000;
            let (up, down) = (pipe(g * 2, big), pipe(g * 2 + 1, big));
            {
                let mut l = locked(&self.pipes);
                l.push(up.clone());
                l.push(down.clone());
            }
            locked(&self.accept).push_back((g, up.clone(), down.clone()));
            world::notify(ACCEPT);
            {
                let mut n = locked(&self.nodes[0]);
                self.crashed(0, &mut n);
                n.conn = None;
                n.pings = 0;
                n.pongs = 0;
                n.crash = false;
                n.alias_out.clear();
                n.alias_in.clear();
                n.open.clear();
            }
            let _ = self.client_session(g, &up, &down);
            self.drop_conn(0, g, &up, &down);
            if *locked(&self.shut) {
                break;
            }
            world::sleep(range(1, 1000) as u64 * 1000);
        }
    }

    fn client_session(&self, g: u64, up: &P, down: &P) -> Result<(), Stop> {
        let mut c = match gen::packet_of(PacketType::Connect, self.v, self.small) {
            MqttPacket::Connect(c) => c,
            _ => return Ok(()),
        };
        c.client_id = "c".into();
        let fresh = locked(&self.nodes[0]).fresh;
        c.clean_session = fresh;
        if self.v == 5 {
            let props = c.properties.get_or_insert_with(|| ConnectProperties {
                session_expiry_interval: 0,
                receive_maximum: 65535,
                maximum_packet_size: None,
                topic_alias_maximum: 0,
                request_response_information: false,
                request_problem_information: true,
                user_properties: UserProperties::new(),
                authentication_method: None,
                authentication_data: None,
            });
            props.session_expiry_interval = u32::MAX;
            props.receive_maximum = self.recv_max[0];
            props.topic_alias_maximum = self.alias_max[0];
        }
        self.transmit(0, g, up, MqttPacket::Connect(c));
        let mut dec = seam::lib(|| PacketDecoder::from_stream(PipeRead(down.clone())));
        let r = seam::lib(|| dec.decode_packet(self.v));
        match r {
            Ok(MqttPacket::Connack(a)) => {
                count_packet();
                let code = if self.v == 5 { a.reason_code } else { a.return_code };
                if code != Some(0) {
                    fail!("changed", "CONNACK arrives with code {:?}", code);
                }
                self.expect(0, g, down, &MqttPacket::Connack(a.clone()));
                let mut n = locked(&self.nodes[0]);
                if fresh && self.v < 5 {
                    // the old session is gone; the new one is not meant to end with this connection
                    n.fresh = false;
                    drop(n);
                    self.step_out(0, g, up);
                    return Ok(());
                }
                if self.v > 3 && !a.session_present {
                    begin_again(&mut n);
                }
                n.fresh = false;
                let p = a.properties.as_ref();
                n.peer_max = p.map_or(65535, |p| p.receive_maximum);
                n.peer_alias = p.map_or(0, |p| p.topic_alias_maximum);
            }
            Ok(p) => fail!("changed", "instead of CONNACK the client gets {}", short(&p)),
            Err(e) => {
                self.expect_end(0, g, down, &format!("the error {:?}", e));
                return Ok(());
            }
        }
        {
            let mut n = locked(&self.nodes[0]);
            n.conn = Some((g, up.clone()));
            n.ready = false;
        }
        self.step(0, g)?;
        self.resend(0, g, up);
        locked(&self.nodes[0]).ready = true;
        self.pump(0);
        self.serve(0, g, up, down, &mut dec)
    }

    fn broker(&self) {
        loop {
            let next = locked(&self.accept).pop_front();
            let Some((g, up, down)) = next else {
                if *locked(&self.shut) {
                    return;
                }
                world::wait(ACCEPT, None);
                continue;
            };
            {
                let mut n = locked(&self.nodes[1]);
                self.crashed(1, &mut n);
                n.conn = None;
                n.pings = 0;
                n.pongs = 0;
                n.crash = false;
                n.alias_out.clear();
                n.alias_in.clear();
                n.open.clear();
            }
            let _ = self.broker_session(g, &up, &down);
            self.drop_conn(1, g, &up, &down);
        }
    }

    fn broker_session(&self, g: u64, up: &P, down: &P) -> Result<(), Stop> {
        let mut dec = seam::lib(|| PacketDecoder::from_stream(PipeRead(up.clone())));
        let assumed = pick(&[self.v, 4, 5, 3]);
        let r = seam::lib(|| dec.decode_packet(assumed));
        let (present, clean) = match r {
            Ok(MqttPacket::Connect(c)) => {
                count_packet();
                if c.protocol_version != self.v || c.client_id != "c" {
                    fail!("changed", "CONNECT arrives as {}", short(&c));
                }
                self.expect(1, g, up, &MqttPacket::Connect(c.clone()));
                let mut n = locked(&self.nodes[1]);
                let present = !c.clean_session && n.confirmed;
                if !present {
                    n.confirmed = self.v == 3;
                    begin_again(&mut n);
                }
                let p = c.properties.as_ref();
                n.peer_max = p.map_or(65535, |p| p.receive_maximum);
                n.peer_alias = p.map_or(0, |p| p.topic_alias_maximum);
                (present, c.clean_session)
            }
            Ok(p) => fail!("changed", "instead of CONNECT the broker gets {}", short(&p)),
            Err(e) => {
                self.expect_end(1, g, up, &format!("the error {:?}", e));
                return Ok(());
            }
        };
        let a = ConnackPacket {
            return_code: if self.v == 5 { None } else { Some(0) },
            reason_code: if self.v == 5 { Some(0) } else { None },
            session_present: present && self.v > 3,
            properties: if self.v == 5 && (coin() || self.recv_max[1] != 65535 || self.alias_max[1] != 0) {
                let mut p = gen::connack(5, self.small).properties.unwrap_or_default();
                p.receive_maximum = self.recv_max[1];
                p.topic_alias_maximum = self.alias_max[1];
                Some(p)
            } else {
                None
            },
        };
        self.transmit(1, g, down, MqttPacket::Connack(a));
        {
            let mut n = locked(&self.nodes[1]);
            n.conn = Some((g, down.clone()));
            n.ready = false;
        }
        self.step(1, g)?;
        self.resend(1, g, down);
        locked(&self.nodes[1]).ready = true;
        self.pump(1);
        let r = self.serve(1, g, down, up, &mut dec);
        if clean && self.v < 5 {
            // this session ends with its connection
            let mut n = locked(&self.nodes[1]);
            n.confirmed = self.v == 3;
            begin_again(&mut n);
        }
        r
    }
    /// says goodbye and closes the connection
    fn step_out(&self, me: usize, g: u64, out: &P) {
        let d = match gen::packet_of(PacketType::Disconnect, self.v, self.small) {
            MqttPacket::Disconnect(d) => d,
            _ => return,
        };
        self.transmit(me, g, out, MqttPacket::Disconnect(d));
        let mut p = locked(out);
        if p.cut.is_none() {
            p.cut = Some(None);
            world::notify(p.id);
        }
    }

    /// the application of a node publishes now and then
    fn app(&self, me: usize) {
        let mut rounds = 0;
        while {
            let n = locked(&self.nodes[me]);
            n.to_publish > 0 || n.to_subscribe > 0
        } {
            if one_in(2) {
                world::sleep(draw(300_000) as u64);
            } else {
                world::yield_point();
            }
            if one_in(3) {
                self.new_subscription(me);
            } else {
                self.new_message(me);
            }
            self.pump(me);
            rounds += 1;
            if one_in(5) {
                let c = {
                    let mut n = locked(&self.nodes[me]);
                    if n.conn.is_some() {
                        n.pings += 1;
                    }
                    n.conn.clone()
                };
                if let Some((g, p)) = c {
                    self.transmit(me, g, &p, MqttPacket::Pingreq);
                }
            }
            if rounds > 2000 {
                break;
            }
            if self.v == 5 && me == 0 && one_in(8) {
                let c = {
                    let n = locked(&self.nodes[me]);
                    n.conn.clone().filter(|_| n.ready)
                };
                if let Some((g, p)) = c {
                    self.auth(me, g, &p, 0x19);
                }
            }
        }
        self.check_done();
    }

    /// cuts and crashes
    fn chaos(&self, n: u32) {
        for _ in 0..n {
            world::sleep(pick(&[0, 1000, 100_000, 600_000]) + draw(1000) as u64);
            if *locked(&self.shut) {
                break;
            }
            let pipes = locked(&self.pipes).clone();
            match draw(if self.crashes { 5 } else { 3 }) {
                2 => {
                    // one side says goodbye; only brokers of version 5 can
                    let me = if self.v == 5 { draw(2) as usize } else { 0 };
                    let c = locked(&self.nodes[me]).conn.clone();
                    if let Some((g, p)) = c {
                        probe("goodbye in the middle");
                        self.step_out(me, g, &p);
                    }
                }
                0 | 1 => {
                    // both directions of the newest connection
                    for p in pipes.iter().rev().take(2) {
                        locked(p).cut();
                    }
                    logln!("connection cut");
                }
                x => {
                    let me = (x - 3) as usize;
                    let c = {
                        let mut n = locked(&self.nodes[me]);
                        if n.conn.is_some() {
                            n.crash = true;
                        }
                        n.conn.clone()
                    };
                    if c.is_some() {
                        for p in pipes.iter().rev().take(2) {
                            locked(p).cut();
                        }
                    }
                }
            }
        }
        *locked(&self.faults_over) = true;
        logln!("faults are over");
        self.check_done();
    }
}

pub fn c14(stratum: u32) {
    let v = 3 + (stratum % 3) as u8;
    let many = stratum % 41 == 11;
    let subs = if many { draw(10) } else { pick(&[0, 0, 1, 2, 4]) };
    let small = match stratum % 397 {
        107 => Size { text: 40, payload: 150_000, list: 2, edges: false },
        _ if stratum % 49 == 7 => Size { text: 40, payload: 20_000, list: 2, edges: false },
        _ => Size { text: pick(&[8, 40]), payload: pick(&[16, 300]), list: 2, edges: false },
    };
    let node = |name, n: u32| {
        Mutex::new(Node {
            name,
            s: Session { next_id: pick(&[1, 65534, 254, 1000]), ..Session::default() },
            msgs: vec![],
            conn: None,
            ready: false,
            to_publish: n,
            crash: false,
            pings: 0,
            pongs: 0,
            to_subscribe: if name == "client" { subs } else { 0 },
            fresh: false,
            confirmed: v == 3,
            peer_max: 65535,
            peer_alias: 0,
            alias_out: BTreeMap::new(),
            alias_in: BTreeMap::new(),
            open: BTreeSet::new(),
            pumping: false,
            again: false,
        })
    };
    let w = Arc::new(World {
        v,
        nodes: [node("client", draw(if many { 60 } else { 6 })), node("broker", draw(if many { 60 } else { 6 }))],
        accept: Mutex::new(VecDeque::new()),
        conns: Mutex::new(0),
        pipes: Mutex::new(vec![]),
        faults_over: Mutex::new(false),
        shut: Mutex::new(false),
        crashes: one_in(2),
        loses: one_in(2),
        store: one_in(3),
        recv_max: if v == 5 { [pick(&[65535, 65535, 1, 2, 3]), pick(&[65535, 65535, 1, 2, 3])] } else { [65535; 2] },
        alias_max: if v == 5 { [pick(&[0, 1, 2, 300]), pick(&[0, 1, 2, 65535])] } else { [0; 2] },
        window: if many { 20 } else { 4 },
        topics: (0..3).map(|_| gen::text1(small)).collect(),
        small,
    });
    let cuts = draw(7);
    let sticky = pick(&[3, 0, 8]);
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    let x = w.clone();
    tasks.push(Box::new(move || x.client()));
    let x = w.clone();
    tasks.push(Box::new(move || x.broker()));
    for me in 0..2 {
        let x = w.clone();
        tasks.push(Box::new(move || x.app(me)));
    }
    let x = w.clone();
    tasks.push(Box::new(move || x.chaos(cuts)));
    let o = world::run(tasks, sticky, 300_000, 14);
    let pending = || {
        let mut s = String::new();
        for n in &w.nodes {
            let n = locked(n);
            for (id, (k, rel)) in &n.s.out {
                s.push_str(&format!(" {}: message {} (id {}, QoS {}, released {}, sent {} times);", n.name, k, id, n.msgs[*k].qos, rel, n.msgs[*k].sent.len()));
            }
        }
        s
    };
    match o {
        Outcome::Finished => {}
        Outcome::Stuck => fail!("stuck", "the exchange stops although faults are over: everybody waits. Pending:{}", pending()),
        Outcome::StepLimit => fail!("stuck", "the exchange does not complete although faults are over. Pending:{}", pending()),
        Outcome::LockHeld => fail!("stuck", "an end waits for a lock that another one holds while it waits for its peer"),
        Outcome::Blocked => {
            set_unjudged();
            return;
        }
    }
    for n in &w.nodes {
        let n = locked(n);
        for (k, m) in n.msgs.iter().enumerate() {
            let d = m.delivered.len();
            if m.qos > 0 && !m.acked {
                fail!("incomplete", "message {} of {} with QoS {} was not completed", k, n.name, m.qos);
            }
            if m.qos > 0 && m.refuse != m.refused {
                fail!("changed", "message {} of {}: turned down by the receiver: {}, as the sender sees it: {}", k, n.name, m.refuse, m.refused);
            }
            if m.refuse {
                continue;
            }
            let bad = match m.qos {
                0 => d > 1,
                1 => d < 1,
                _ if m.relaxed => d < 1,
            _ => d != 1,
            };
            if bad {
                fail!("guarantee", "message {} of {} with QoS {} was delivered {} times", k, n.name, m.qos, d);
            }
            if d > 1 {
                probe("QoS 1 message delivered more than once");
            }
        }
    }
    let (c, b) = (locked(&w.nodes[0]), locked(&w.nodes[1]));
    // unless one side has not yet learnt that the other has lost its session
    if !c.fresh && b.confirmed && c.s.subs != b.s.subs {
        let (x, y) = (short(&c.s.subs), short(&b.s.subs));
        drop((c, b));
        fail!("subscriptions", "the two sides do not agree on the subscriptions\n client {}\n broker {}", x, y);
    }
}
