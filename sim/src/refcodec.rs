//! An independent implementation of the wire format, written from the MQTT
//! 3.1, 3.1.1 and 5 standards: a strict parser with three verdicts, and an
//! encoder that uses the freedom the standard gives a sender.

use crate::cx::*;
use crate::gen;
use mqtt_packet_3_5::*;

// ---------------------------------------------------------------- notes

/// legal to refuse, legal to accept: things the standard forbids the sender
/// but that carry a value the library's types can hold
pub const N_DUP_PROP: u32 = 1;
pub const N_BOOL: u32 = 2;
pub const N_NONMIN: u32 = 4;
pub const N_RANGE: u32 = 8;
pub const N_TEXT: u32 = 16;
pub const N_ID0: u32 = 32;
pub const N_OTHER: u32 = 64;
pub const N_MAXQOS2: u32 = 128;

#[derive(Debug, Clone)]
pub enum Verdict {
    /// well formed; notes say what a stricter receiver might object to
    Accept(MqttPacket, u32),
    Reject(&'static str),
    /// the library's types or the standard leave it open
    Either(&'static str),
}

type P<T> = Result<T, Stop>;
enum Stop {
    Reject(&'static str),
    Either(&'static str),
}
fn rej<T>(why: &'static str) -> P<T> {
    Err(Stop::Reject(why))
}

struct Rd<'a> {
    b: &'a [u8],
    notes: u32,
    why: &'static str,
    /// set if some text is not UTF-8 where the standard has binary data
    opaque: bool,
}

impl<'a> Rd<'a> {
    fn u8(&mut self) -> P<u8> {
        if self.b.is_empty() {
            return rej(self.why);
        }
        let x = self.b[0];
        self.b = &self.b[1..];
        Ok(x)
    }
    fn u16(&mut self) -> P<u16> {
        Ok((self.u8()? as u16) << 8 | self.u8()? as u16)
    }
    fn u32(&mut self) -> P<u32> {
        Ok((self.u16()? as u32) << 16 | self.u16()? as u32)
    }
    fn take(&mut self, n: usize) -> P<&'a [u8]> {
        if self.b.len() < n {
            return rej(self.why);
        }
        let (x, y) = self.b.split_at(n);
        self.b = y;
        Ok(x)
    }
    fn bin(&mut self) -> P<Vec<u8>> {
        let n = self.u16()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    fn str(&mut self) -> P<String> {
        let b = self.bin()?;
        match String::from_utf8(b) {
            Ok(s) => {
                if s.contains('\0') {
                    self.notes |= N_TEXT;
                }
                Ok(s)
            }
            Err(_) => rej("text is not UTF-8"),
        }
    }
    /// binary data the library holds as text
    fn bin_text(&mut self) -> P<String> {
        let b = self.bin()?;
        match String::from_utf8(b) {
            Ok(s) => Ok(s),
            Err(_) => {
                self.opaque = true;
                Ok(String::new())
            }
        }
    }
    fn var(&mut self) -> P<u32> {
        let (mut v, mut shift) = (0u32, 0);
        loop {
            let x = self.u8()?;
            v |= ((x & 0x7f) as u32) << shift;
            shift += 7;
            if x & 0x80 == 0 {
                if x == 0 && shift > 7 {
                    self.notes |= N_NONMIN;
                }
                return Ok(v);
            }
            if shift == 28 {
                return rej("variable length integer of more than 4 bytes");
            }
        }
    }
    fn bool(&mut self) -> P<bool> {
        let x = self.u8()?;
        if x > 1 {
            self.notes |= N_BOOL;
        }
        Ok(x != 0)
    }
    fn id(&mut self) -> P<u16> {
        let x = self.u16()?;
        if x == 0 {
            self.notes |= N_ID0;
        }
        Ok(x)
    }
}

/// all property values a packet may carry
#[derive(Default)]
struct Props {
    seen: Vec<u8>,
    b: Vec<(u8, bool)>,
    u8s: Vec<(u8, u8)>,
    u16s: Vec<(u8, u16)>,
    u32s: Vec<(u8, u32)>,
    s: Vec<(u8, String)>,
    corr: Option<Vec<u8>>,
    subs: Vec<u32>,
    user: UserProperties,
}

impl Props {
    fn has(&self) -> bool {
        !self.seen.is_empty()
    }
    fn bool(&self, id: u8, d: bool) -> bool {
        self.b.iter().rfind(|x| x.0 == id).map_or(d, |x| x.1)
    }
    fn u8(&self, id: u8, d: u8) -> u8 {
        self.u8s.iter().rfind(|x| x.0 == id).map_or(d, |x| x.1)
    }
    fn u16(&self, id: u8) -> Option<u16> {
        self.u16s.iter().rfind(|x| x.0 == id).map(|x| x.1)
    }
    fn u32(&self, id: u8) -> Option<u32> {
        self.u32s.iter().rfind(|x| x.0 == id).map(|x| x.1)
    }
    fn str(&self, id: u8) -> Option<String> {
        self.s.iter().rfind(|x| x.0 == id).map(|x| x.1.clone())
    }
}

pub const P_CONNECT: &[u8] = &[0x11, 0x21, 0x27, 0x22, 0x19, 0x17, 0x26, 0x15, 0x16];
pub const P_WILL: &[u8] = &[0x18, 0x01, 0x02, 0x03, 0x08, 0x09, 0x26];
pub const P_CONNACK: &[u8] = &[
    0x11, 0x21, 0x24, 0x25, 0x27, 0x12, 0x22, 0x1F, 0x26, 0x28, 0x29, 0x2A, 0x13, 0x1A, 0x1C, 0x15,
    0x16,
];
pub const P_PUBLISH: &[u8] = &[0x01, 0x02, 0x23, 0x08, 0x09, 0x26, 0x0B, 0x03];
pub const P_ACK: &[u8] = &[0x1F, 0x26];
pub const P_SUBSCRIBE: &[u8] = &[0x0B, 0x26];
pub const P_UNSUBSCRIBE: &[u8] = &[0x26];
pub const P_DISCONNECT: &[u8] = &[0x11, 0x1F, 0x26, 0x1C];
pub const P_AUTH: &[u8] = &[0x15, 0x16, 0x1F, 0x26];
pub const ALL_PROPS: &[u8] = &[
    0x01, 0x02, 0x03, 0x08, 0x09, 0x0B, 0x11, 0x12, 0x13, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1A, 0x1C,
    0x1F, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2A,
];

fn props(r: &mut Rd, allowed: &[u8], multi_sub: bool) -> P<Props> {
    let mut out = Props::default();
    r.why = "packet ends inside a mandatory field";
    let n = r.var()? as usize;
    r.why = "property block overruns the packet";
    let mut p = Rd {
        b: r.take(n)?,
        notes: 0,
        why: "property overruns the property block",
        opaque: false,
    };
    r.why = "packet ends inside a mandatory field";
    while !p.b.is_empty() {
        let id = p.u8()?;
        if !ALL_PROPS.contains(&id) {
            return rej("unknown property");
        }
        if !allowed.contains(&id) {
            return rej("property not allowed in this packet");
        }
        if out.seen.contains(&id) && id != 0x26 && !(id == 0x0B && multi_sub) {
            p.notes |= N_DUP_PROP;
        }
        out.seen.push(id);
        match id {
            0x02 | 0x11 | 0x18 | 0x27 => {
                let v = p.u32()?;
                if id == 0x27 && v == 0 {
                    p.notes |= N_RANGE;
                }
                out.u32s.push((id, v))
            }
            0x13 | 0x21 | 0x22 | 0x23 => {
                let v = p.u16()?;
                if v == 0 && (id == 0x21 || id == 0x23) {
                    p.notes |= N_RANGE;
                }
                out.u16s.push((id, v))
            }
            0x01 | 0x17 | 0x19 | 0x25 | 0x28 | 0x29 | 0x2A => {
                let v = p.bool()?;
                out.b.push((id, v))
            }
            0x24 => {
                let v = p.u8()?;
                if v == 2 {
                    p.notes |= N_MAXQOS2;
                } else if v > 2 {
                    p.notes |= N_RANGE;
                }
                out.u8s.push((id, v))
            }
            0x0B => {
                let v = p.var()?;
                if v == 0 {
                    p.notes |= N_RANGE;
                }
                out.subs.push(v)
            }
            0x09 => out.corr = Some(p.bin()?),
            0x16 => {
                let v = p.bin_text()?;
                out.s.push((id, v))
            }
            0x26 => {
                let k = p.str()?;
                let v = p.str()?;
                out.user.entry(k).or_default().push(v)
            }
            _ => {
                let v = p.str()?;
                out.s.push((id, v))
            }
        }
    }
    r.notes |= p.notes;
    r.opaque |= p.opaque;
    Ok(out)
}

fn code(b: u8, defined: &[u8]) -> P<u8> {
    if defined.contains(&b) {
        Ok(b)
    } else {
        rej("undefined reason code")
    }
}

/// position and size of a frame
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Frame {
    pub start: usize,
    pub body: usize,
    pub end: usize,
    /// length field is not minimal
    pub nonmin: bool,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Framing {
    Frame(Frame),
    Incomplete,
    BadLength,
    End,
}

pub fn next_frame(b: &[u8], at: usize) -> Framing {
    if at >= b.len() {
        return Framing::End;
    }
    let mut n = 0usize;
    for i in 0..4 {
        let Some(x) = b.get(at + 1 + i) else {
            return Framing::Incomplete;
        };
        n |= ((x & 0x7f) as usize) << (7 * i);
        if x & 0x80 == 0 {
            let body = at + 2 + i;
            if body + n > b.len() {
                return Framing::Incomplete;
            }
            return Framing::Frame(Frame {
                start: at,
                body,
                end: body + n,
                nonmin: *x == 0 && i > 0,
            });
        }
    }
    Framing::BadLength
}

/// all frames of a stream, and what comes after them
pub fn frames(b: &[u8]) -> (Vec<Frame>, Framing) {
    let mut out = vec![];
    let mut at = 0;
    loop {
        match next_frame(b, at) {
            Framing::Frame(f) => {
                at = f.end;
                out.push(f);
            }
            x => return (out, x),
        }
    }
}

/// what one frame (header included) means in version v
pub fn parse(v: u8, frame: &[u8]) -> Verdict {
    let f = match next_frame(frame, 0) {
        Framing::Frame(f) if f.end == frame.len() => f,
        _ => return Verdict::Reject("not exactly one frame"),
    };
    let mut r = Rd {
        b: &frame[f.body..],
        notes: if f.nonmin { N_NONMIN } else { 0 },
        why: "packet ends inside a mandatory field",
        opaque: false,
    };
    match parse_body(v, frame[0], &mut r) {
        Ok(_) if !r.b.is_empty() => Verdict::Reject("surplus bytes after the packet's content"),
        Ok(_) if r.opaque => Verdict::Either("binary data that is not text"),
        Ok(p) => Verdict::Accept(p, r.notes),
        Err(Stop::Reject(w)) => Verdict::Reject(w),
        Err(Stop::Either(w)) => Verdict::Either(w),
    }
}

fn ack_props(p: Props) -> Option<ConfirmationProperties> {
    if !p.has() {
        return None;
    }
    Some(ConfirmationProperties {
        reason_string: p.str(0x1F),
        user_properties: p.user,
    })
}

fn parse_body(v: u8, h: u8, r: &mut Rd) -> P<MqttPacket> {
    let (t, flags) = (h >> 4, h & 15);
    let need = match t {
        3 => flags,
        6 | 8 | 10 => 2,
        _ => 0,
    };
    if t == 0 {
        return rej("reserved packet type 0");
    }
    if t == 15 && v != 5 {
        return rej("AUTH before MQTT 5");
    }
    if flags != need {
        return rej("wrong reserved header flags");
    }
    let five = v == 5;
    match t {
        1 => parse_connect(r),
        2 => {
            let f = r.u8()?;
            if f > 1 {
                return rej("reserved CONNACK flag");
            }
            let c = r.u8()?;
            let mut p = ConnackPacket {
                session_present: f == 1,
                ..Default::default()
            };
            if five {
                p.reason_code = Some(c);
                if !gen::CONNACK_CODES.contains(&c) {
                    r.notes |= N_OTHER;
                }
                if r.b.is_empty() {
                    // the property length is mandatory, but left out by some
                    r.notes |= N_OTHER;
                    return Ok(MqttPacket::Connack(p));
                }
                let x = props(r, P_CONNACK, false)?;
                if x.has() {
                    p.properties = Some(ConnackProperties {
                        session_expiry_interval: x.u32(0x11).unwrap_or(0),
                        assigned_client_identifier: x.str(0x12),
                        server_keep_alive: x.u16(0x13),
                        authentication_method: x.str(0x15),
                        authentication_data: x.str(0x16),
                        response_information: x.str(0x1A),
                        server_reference: x.str(0x1C),
                        reason_string: x.str(0x1F),
                        receive_maximum: x.u16(0x21).unwrap_or(65535),
                        topic_alias_maximum: x.u16(0x22).unwrap_or(0),
                        maximum_qos: x.u8(0x24, 2),
                        retain_available: x.bool(0x25, true),
                        maximum_packet_size: x.u32(0x27),
                        wildcard_subscription_available: x.bool(0x28, true),
                        subscription_identifiers_available: x.bool(0x29, true),
                        shared_subscription_available: x.bool(0x2A, true),
                        user_properties: x.user,
                        is_default: false,
                    });
                }
            } else {
                p.return_code = Some(c);
                if c > 5 {
                    r.notes |= N_OTHER;
                }
            }
            Ok(MqttPacket::Connack(p))
        }
        3 => {
            let qos = (flags >> 1) & 3;
            if qos == 3 {
                return rej("QoS 3");
            }
            let dup = flags & 8 != 0;
            if dup && qos == 0 {
                r.notes |= N_OTHER;
            }
            let topic = r.str()?;
            if topic.contains(['+', '#']) {
                r.notes |= N_OTHER;
            }
            let message_id = if qos > 0 { Some(r.id()?) } else { None };
            let mut properties = None;
            if five {
                let x = props(r, P_PUBLISH, true)?;
                if x.has() {
                    properties = Some(PublishProperties {
                        payload_format_indicator: x.bool(1, false),
                        message_expiry_interval: x.u32(2),
                        content_type: x.str(3),
                        response_topic: x.str(8),
                        correlation_data: x.corr.clone().unwrap_or_default(),
                        subscription_identifiers: x.subs.clone(),
                        topic_alias: x.u16(0x23),
                        user_properties: x.user,
                    });
                }
            }
            let alias = properties.as_ref().map_or(false, |p| p.topic_alias.is_some());
            if topic.is_empty() && !alias {
                r.notes |= N_OTHER;
            }
            let payload = r.b.to_vec();
            r.b = &[];
            Ok(MqttPacket::Publish(PublishPacket {
                dup,
                qos,
                retain: flags & 1 != 0,
                topic,
                message_id,
                payload,
                properties,
            }))
        }
        4..=7 => {
            let cmd = [
                PacketType::Puback,
                PacketType::Pubrec,
                PacketType::Pubrel,
                PacketType::Pubcomp,
            ][t as usize - 4];
            let mut p = ConfirmationPacket {
                cmd,
                message_id: r.id()?,
                properties: None,
                puback_reason_code: None,
                pubcomp_reason_code: None,
            };
            if five {
                let c = if r.b.is_empty() { 0 } else { r.u8()? };
                if t <= 5 {
                    p.puback_reason_code = Some(gen::puback_code(code(c, gen::PUBACK_CODES)?));
                } else {
                    p.pubcomp_reason_code = Some(gen::pubrel_code(code(c, gen::PUBREL_CODES)?));
                }
                if !r.b.is_empty() {
                    p.properties = ack_props(props(r, P_ACK, false)?);
                }
            }
            Ok(match t {
                4 => MqttPacket::Puback(p),
                5 => MqttPacket::Pubrec(p),
                6 => MqttPacket::Pubrel(p),
                _ => MqttPacket::Pubcomp(p),
            })
        }
        8 => {
            let message_id = r.id()?;
            let mut properties = None;
            if five {
                let x = props(r, P_SUBSCRIBE, false)?;
                if x.has() {
                    properties = Some(SubscribeProperties {
                        subscription_identifier: x.subs.last().copied().unwrap_or(0),
                        user_properties: x.user,
                    });
                }
            }
            if r.b.is_empty() {
                return rej("SUBSCRIBE without topic filter");
            }
            let mut subscriptions = vec![];
            while !r.b.is_empty() {
                let topic = r.str()?;
                if topic.is_empty() {
                    r.notes |= N_OTHER;
                }
                let o = r.u8()?;
                if o & (if five { 0xC0 } else { 0xFC }) != 0 {
                    return rej("reserved subscription option bits");
                }
                if o & 3 == 3 {
                    return rej("subscription with QoS 3");
                }
                if o & 0x30 == 0x30 {
                    return rej("retain handling 3");
                }
                if o & 4 != 0 && topic.starts_with("$share") {
                    r.notes |= N_OTHER;
                }
                subscriptions.push(Subscription {
                    topic,
                    qos: gen::qos(o & 3),
                    nl: o & 4 != 0,
                    rap: o & 8 != 0,
                    rh: if five { Some(o >> 4) } else { None },
                });
            }
            Ok(MqttPacket::Subscribe(SubscribePacket {
                qos: 1,
                subscriptions,
                properties,
                message_id,
            }))
        }
        9 => {
            let message_id = r.id()?;
            let mut p = SubackPacket {
                reason_code: None,
                message_id,
                properties: None,
                granted_reason_codes: vec![],
                granted: vec![],
            };
            if five {
                p.properties = ack_props(props(r, P_ACK, false)?);
            }
            if r.b.is_empty() {
                return rej("SUBACK without return code");
            }
            while !r.b.is_empty() {
                let c = r.u8()?;
                if five {
                    p.granted_reason_codes.push(gen::suback_code(code(c, gen::SUBACK_CODES)?));
                } else {
                    if v == 3 && c == 0x80 {
                        r.notes |= N_OTHER;
                    }
                    p.granted.push(gen::granted(code(c, &[0, 1, 2, 0x80])?));
                }
            }
            Ok(MqttPacket::Suback(p))
        }
        10 => {
            let message_id = r.id()?;
            let mut properties = None;
            if five {
                let x = props(r, P_UNSUBSCRIBE, false)?;
                if x.has() {
                    properties = Some(UnsubscribeProperties { user_properties: x.user });
                }
            }
            if r.b.is_empty() {
                return rej("UNSUBSCRIBE without topic filter");
            }
            let mut unsubscriptions = vec![];
            while !r.b.is_empty() {
                let t = r.str()?;
                if t.is_empty() {
                    r.notes |= N_OTHER;
                }
                unsubscriptions.push(t);
            }
            Ok(MqttPacket::Unsubscribe(UnsubscribePacket {
                qos: 1,
                message_id,
                properties,
                unsubscriptions,
            }))
        }
        11 => {
            let message_id = r.id()?;
            let mut p = UnsubackPacket {
                message_id,
                granted: vec![],
                properties: None,
            };
            if five {
                p.properties = ack_props(props(r, P_ACK, false)?);
                if r.b.is_empty() {
                    r.notes |= N_OTHER;
                }
                while !r.b.is_empty() {
                    let c = r.u8()?;
                    p.granted.push(gen::unsuback_code(code(c, gen::UNSUBACK_CODES)?));
                }
            }
            Ok(MqttPacket::Unsuback(p))
        }
        12 => Ok(MqttPacket::Pingreq),
        13 => Ok(MqttPacket::Pingresp),
        14 => {
            let mut p = DisconnectPacket {
                reason_code: None,
                properties: None,
            };
            if five {
                let c = if r.b.is_empty() { 0 } else { r.u8()? };
                p.reason_code = Some(gen::disconnect_code(code(c, gen::DISCONNECT_CODES)?));
                if !r.b.is_empty() {
                    let x = props(r, P_DISCONNECT, false)?;
                    if x.has() {
                        p.properties = Some(DisconnectProperties {
                            session_expiry_interval: x.u32(0x11),
                            server_reference: x.str(0x1C),
                            reason_string: x.str(0x1F),
                            user_properties: x.user,
                        });
                    }
                }
            }
            Ok(MqttPacket::Disconnect(p))
        }
        _ => {
            let mut p = AuthPacket {
                reason_code: AuthCode::Success,
                properties: None,
            };
            if r.b.is_empty() {
                return Ok(MqttPacket::Auth(p));
            }
            p.reason_code = gen::auth_code(code(r.u8()?, gen::AUTH_CODES)?);
            if r.b.is_empty() {
                return Err(Stop::Either("AUTH with reason code but without properties"));
            }
            let x = props(r, P_AUTH, false)?;
            if x.str(0x15).is_none() {
                r.notes |= N_OTHER;
            }
            if x.has() {
                p.properties = Some(AuthProperties {
                    authentication_method: x.str(0x15).unwrap_or_default(),
                    authentication_data: x.str(0x16),
                    reason_string: x.str(0x1F),
                    user_properties: x.user,
                });
            }
            Ok(MqttPacket::Auth(p))
        }
    }
}

fn parse_connect(r: &mut Rd) -> P<MqttPacket> {
    let name = r.str()?;
    let protocol_id = match name.as_str() {
        "MQTT" => Protocol::Mqtt,
        "MQIsdp" => Protocol::MQIsdp,
        _ => return rej("unknown protocol name"),
    };
    let v = r.u8()?;
    if v >= 128 {
        return Err(Stop::Either("bridge bit in the protocol version"));
    }
    if !(3..=5).contains(&v) {
        return rej("unknown protocol version");
    }
    if (v == 3) != (protocol_id == Protocol::MQIsdp) {
        r.notes |= N_OTHER;
    }
    let f = r.u8()?;
    if f & 1 != 0 {
        return rej("reserved CONNECT flag");
    }
    let (will, wqos, wretain) = (f & 4 != 0, (f >> 3) & 3, f & 0x20 != 0);
    if !will && (wqos != 0 || wretain) {
        return rej("will QoS or retain without will");
    }
    if wqos == 3 {
        return rej("will QoS 3");
    }
    if f & 0x40 != 0 && f & 0x80 == 0 && v != 5 {
        r.notes |= N_OTHER;
    }
    let keep_alive = r.u16()?;
    let mut properties = None;
    if v == 5 {
        let x = props(r, P_CONNECT, false)?;
        if x.str(0x16).is_some() && x.str(0x15).is_none() {
            r.notes |= N_OTHER;
        }
        if x.has() {
            properties = Some(ConnectProperties {
                session_expiry_interval: x.u32(0x11).unwrap_or(0),
                receive_maximum: x.u16(0x21).unwrap_or(65535),
                maximum_packet_size: x.u32(0x27),
                topic_alias_maximum: x.u16(0x22).unwrap_or(0),
                request_response_information: x.bool(0x19, false),
                request_problem_information: x.bool(0x17, true),
                authentication_method: x.str(0x15),
                authentication_data: x.str(0x16),
                user_properties: x.user,
            });
        }
    }
    let client_id = r.str()?;
    if client_id.is_empty() && (v == 3 || (v == 4 && f & 2 == 0)) {
        r.notes |= N_OTHER;
    }
    let mut w = None;
    if will {
        let mut wp = None;
        if v == 5 {
            let x = props(r, P_WILL, false)?;
            if x.has() {
                wp = Some(WillProperties {
                    payload_format_indicator: x.bool(1, false),
                    message_expiry_interval: x.u32(2),
                    content_type: x.str(3),
                    response_topic: x.str(8),
                    correlation_data: x.corr.clone().unwrap_or_default(),
                    will_delay_interval: x.u32(0x18).unwrap_or(0),
                    user_properties: x.user,
                });
            }
        }
        let topic = r.str()?;
        if topic.is_empty() || topic.contains(['+', '#']) {
            r.notes |= N_OTHER;
        }
        w = Some(LastWill {
            topic: Some(topic),
            payload: Some(r.bin_text()?),
            qos: wqos,
            retain: wretain,
            properties: wp,
        });
    }
    let user_name = if f & 0x80 != 0 { Some(r.str()?) } else { None };
    let password = if f & 0x40 != 0 { Some(r.bin_text()?) } else { None };
    Ok(MqttPacket::Connect(ConnectPacket {
        client_id,
        protocol_version: v,
        protocol_id,
        clean_session: f & 2 != 0,
        keep_alive,
        user_name,
        password,
        will: w,
        properties,
    }))
}

// ---------------------------------------------------------------- normal form

fn users(u: &mut UserProperties) {
    u.retain(|_, v| !v.is_empty());
}
fn conf(p: &mut Option<ConfirmationProperties>, v: u8) {
    if v != 5 {
        *p = None;
    }
    if let Some(x) = p {
        users(&mut x.user_properties);
        if x.reason_string.is_none() && x.user_properties.is_empty() {
            *p = None;
        }
    }
}

/// Fields that version v does not carry, and property sets in which
/// everything has its default, count as absent. Two packets mean the same iff
/// their normal forms are equal.
pub fn canon(p: &MqttPacket, v: u8) -> MqttPacket {
    let mut p = p.clone();
    match &mut p {
        MqttPacket::Connect(c) => {
            let v = c.protocol_version;
            if v != 5 {
                c.properties = None;
            }
            if let Some(x) = &mut c.properties {
                users(&mut x.user_properties);
                if *x == default_connect_props() {
                    c.properties = None;
                }
            }
            if let Some(w) = &mut c.will {
                if v != 5 {
                    w.properties = None;
                }
                if let Some(x) = &mut w.properties {
                    users(&mut x.user_properties);
                    if *x == default_will_props() {
                        w.properties = None;
                    }
                }
                if w.payload.is_none() {
                    w.payload = Some(String::new());
                }
            }
        }
        MqttPacket::Connack(c) => {
            if v == 5 {
                c.return_code = None;
            } else {
                c.reason_code = None;
                c.properties = None;
            }
            if let Some(x) = &mut c.properties {
                users(&mut x.user_properties);
                x.is_default = false;
                if *x == default_connack_props() {
                    c.properties = None;
                }
            }
        }
        MqttPacket::Publish(x) => {
            if x.qos == 0 {
                x.message_id = None;
            }
            if v != 5 {
                x.properties = None;
            }
            if let Some(q) = &mut x.properties {
                users(&mut q.user_properties);
                let empty = PublishProperties {
                    payload_format_indicator: false,
                    message_expiry_interval: None,
                    content_type: None,
                    response_topic: None,
                    correlation_data: vec![],
                    subscription_identifiers: vec![],
                    topic_alias: None,
                    user_properties: UserProperties::new(),
                };
                if *q == empty {
                    x.properties = None;
                }
            }
        }
        MqttPacket::Puback(x) | MqttPacket::Pubrec(x) | MqttPacket::Pubrel(x) | MqttPacket::Pubcomp(x) => {
            conf(&mut x.properties, v);
            if v != 5 {
                x.puback_reason_code = None;
                x.pubcomp_reason_code = None;
            }
        }
        MqttPacket::Subscribe(x) => {
            x.qos = 1;
            if v != 5 {
                x.properties = None;
                for s in &mut x.subscriptions {
                    s.nl = false;
                    s.rap = false;
                    s.rh = None;
                }
            }
            if let Some(q) = &mut x.properties {
                users(&mut q.user_properties);
                if q.subscription_identifier == 0 && q.user_properties.is_empty() {
                    x.properties = None;
                }
            }
        }
        MqttPacket::Suback(x) => {
            x.reason_code = None;
            conf(&mut x.properties, v);
            if v == 5 {
                x.granted.clear();
            } else {
                x.granted_reason_codes.clear();
            }
        }
        MqttPacket::Unsubscribe(x) => {
            x.qos = 1;
            if v != 5 {
                x.properties = None;
            }
            if let Some(q) = &mut x.properties {
                users(&mut q.user_properties);
                if q.user_properties.is_empty() {
                    x.properties = None;
                }
            }
        }
        MqttPacket::Unsuback(x) => {
            conf(&mut x.properties, v);
            if v != 5 {
                x.granted.clear();
            }
        }
        MqttPacket::Disconnect(x) => {
            if v != 5 {
                x.reason_code = None;
                x.properties = None;
            } else if x.reason_code.is_none() {
                x.reason_code = Some(DisconnectCode::NormalDisconnection);
            }
            if let Some(q) = &mut x.properties {
                users(&mut q.user_properties);
                if q.session_expiry_interval.is_none()
                    && q.server_reference.is_none()
                    && q.reason_string.is_none()
                    && q.user_properties.is_empty()
                {
                    x.properties = None;
                }
            }
        }
        MqttPacket::Auth(x) => {
            if let Some(q) = &mut x.properties {
                users(&mut q.user_properties);
                if q.authentication_method.is_empty()
                    && q.authentication_data.is_none()
                    && q.reason_string.is_none()
                    && q.user_properties.is_empty()
                {
                    x.properties = None;
                }
            }
        }
        MqttPacket::Pingreq | MqttPacket::Pingresp => {}
    }
    p
}

// the defaults are spelled out here, not taken from the library
pub fn default_connect_props() -> ConnectProperties {
    ConnectProperties {
        session_expiry_interval: 0,
        receive_maximum: 65535,
        maximum_packet_size: None,
        topic_alias_maximum: 0,
        request_response_information: false,
        request_problem_information: true,
        user_properties: UserProperties::new(),
        authentication_method: None,
        authentication_data: None,
    }
}
pub fn default_will_props() -> WillProperties {
    WillProperties {
        payload_format_indicator: false,
        message_expiry_interval: None,
        content_type: None,
        response_topic: None,
        correlation_data: vec![],
        will_delay_interval: 0,
        user_properties: UserProperties::new(),
    }
}
pub fn default_connack_props() -> ConnackProperties {
    ConnackProperties {
        session_expiry_interval: 0,
        assigned_client_identifier: None,
        server_keep_alive: None,
        authentication_method: None,
        authentication_data: None,
        response_information: None,
        server_reference: None,
        reason_string: None,
        receive_maximum: 65535,
        topic_alias_maximum: 0,
        maximum_qos: 2,
        retain_available: true,
        user_properties: UserProperties::new(),
        maximum_packet_size: None,
        wildcard_subscription_available: true,
        subscription_identifiers_available: true,
        shared_subscription_available: true,
        is_default: false,
    }
}

// ---------------------------------------------------------------- foreign sender

#[derive(Clone, Debug)]
pub enum Val {
    B(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    Var(u32),
    S(String),
    Bin(Vec<u8>),
    Pair(String, String),
}
pub type PropList = Vec<(u8, Val)>;

pub fn put_u16(o: &mut Vec<u8>, x: u16) {
    o.extend_from_slice(&x.to_be_bytes());
}
pub fn put_bin(o: &mut Vec<u8>, b: &[u8]) {
    put_u16(o, b.len() as u16);
    o.extend_from_slice(b);
}
pub fn put_var(o: &mut Vec<u8>, mut n: u32) {
    loop {
        let x = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            o.push(x);
            return;
        }
        o.push(x | 0x80);
    }
}
pub fn put_prop(o: &mut Vec<u8>, id: u8, v: &Val) {
    o.push(id);
    match v {
        Val::B(b) => o.push(*b as u8),
        Val::U8(x) => o.push(*x),
        Val::U16(x) => put_u16(o, *x),
        Val::U32(x) => o.extend_from_slice(&x.to_be_bytes()),
        Val::Var(x) => put_var(o, *x),
        Val::S(s) => put_bin(o, s.as_bytes()),
        Val::Bin(b) => put_bin(o, b),
        Val::Pair(a, b) => {
            put_bin(o, a.as_bytes());
            put_bin(o, b.as_bytes());
        }
    }
}

/// properties with their default value: left out or sent, both is fine
fn dflt(o: &mut PropList, id: u8, v: Val, is_default: bool) {
    if !is_default || one_in(3) {
        o.push((id, v));
    }
}
fn opt_s(o: &mut PropList, id: u8, v: &Option<String>) {
    if let Some(s) = v {
        o.push((id, Val::S(s.clone())));
    }
}
fn opt_bin(o: &mut PropList, id: u8, v: &Option<String>) {
    if let Some(s) = v {
        o.push((id, Val::Bin(s.clone().into_bytes())));
    }
}
fn users_out(o: &mut PropList, u: &UserProperties) {
    let mut keys: Vec<&String> = u.keys().collect();
    keys.sort();
    for k in keys {
        for v in &u[k] {
            o.push((0x26, Val::Pair(k.clone(), v.clone())));
        }
    }
}

/// any order is fine as long as values of one key, and subscription
/// identifiers, keep theirs
fn shuffle(p: PropList) -> PropList {
    if p.len() < 2 || !coin() {
        return p;
    }
    let key = |x: &(u8, Val)| match x {
        (0x26, Val::Pair(k, _)) => (0x26u8, k.clone()),
        (id, _) => (*id, String::new()),
    };
    // random permutation, then values of equal keys are put back in order
    let mut idx: Vec<usize> = (0..p.len()).collect();
    for i in (1..idx.len()).rev() {
        let j = draw(i as u32 + 1) as usize;
        idx.swap(i, j);
    }
    let mut out: Vec<Option<(u8, Val)>> = vec![None; p.len()];
    let mut groups: std::collections::BTreeMap<(u8, String), Vec<usize>> = Default::default();
    for (pos, i) in idx.iter().enumerate() {
        groups.entry(key(&p[*i])).or_default().push(pos);
    }
    for x in p {
        let k = key(&x);
        if let Some(g) = groups.get_mut(&k) {
            let pos = g.remove(0);
            out[pos] = Some(x);
        }
    }
    out.into_iter().flatten().collect()
}

fn block(o: &mut Vec<u8>, p: PropList) {
    let mut b = vec![];
    for (id, v) in shuffle(p) {
        put_prop(&mut b, id, &v);
    }
    put_var(o, b.len() as u32);
    o.extend_from_slice(&b);
}

fn ack_list(p: &Option<ConfirmationProperties>) -> PropList {
    let mut l = vec![];
    if let Some(x) = p {
        opt_s(&mut l, 0x1F, &x.reason_string);
        users_out(&mut l, &x.user_properties);
    }
    l
}

/// body of a packet split into header byte and content
pub fn foreign(p: &MqttPacket, v: u8) -> Vec<u8> {
    let mut b = vec![];
    let five = v == 5;
    let h = match p {
        MqttPacket::Connect(c) => {
            let five = c.protocol_version == 5;
            put_bin(
                &mut b,
                match c.protocol_id {
                    Protocol::Mqtt => b"MQTT".as_slice(),
                    Protocol::MQIsdp => b"MQIsdp".as_slice(),
                },
            );
            b.push(c.protocol_version);
            let mut f = 0;
            if c.clean_session {
                f |= 2;
            }
            if let Some(w) = &c.will {
                f |= 4 | (w.qos << 3);
                if w.retain {
                    f |= 0x20;
                }
            }
            if c.password.is_some() {
                f |= 0x40;
            }
            if c.user_name.is_some() {
                f |= 0x80;
            }
            b.push(f);
            put_u16(&mut b, c.keep_alive);
            if five {
                let mut l = vec![];
                if let Some(x) = &c.properties {
                    dflt(&mut l, 0x11, Val::U32(x.session_expiry_interval), x.session_expiry_interval == 0);
                    dflt(&mut l, 0x21, Val::U16(x.receive_maximum), x.receive_maximum == 65535);
                    if let Some(m) = x.maximum_packet_size {
                        l.push((0x27, Val::U32(m)));
                    }
                    dflt(&mut l, 0x22, Val::U16(x.topic_alias_maximum), x.topic_alias_maximum == 0);
                    dflt(&mut l, 0x19, Val::B(x.request_response_information), !x.request_response_information);
                    dflt(&mut l, 0x17, Val::B(x.request_problem_information), x.request_problem_information);
                    opt_s(&mut l, 0x15, &x.authentication_method);
                    opt_bin(&mut l, 0x16, &x.authentication_data);
                    users_out(&mut l, &x.user_properties);
                }
                block(&mut b, l);
            }
            put_bin(&mut b, c.client_id.as_bytes());
            if let Some(w) = &c.will {
                if five {
                    let mut l = vec![];
                    if let Some(x) = &w.properties {
                        dflt(&mut l, 0x18, Val::U32(x.will_delay_interval), x.will_delay_interval == 0);
                        dflt(&mut l, 0x01, Val::B(x.payload_format_indicator), !x.payload_format_indicator);
                        if let Some(m) = x.message_expiry_interval {
                            l.push((0x02, Val::U32(m)));
                        }
                        opt_s(&mut l, 0x03, &x.content_type);
                        opt_s(&mut l, 0x08, &x.response_topic);
                        dflt(&mut l, 0x09, Val::Bin(x.correlation_data.clone()), x.correlation_data.is_empty());
                        users_out(&mut l, &x.user_properties);
                    }
                    block(&mut b, l);
                }
                put_bin(&mut b, w.topic.clone().unwrap_or_default().as_bytes());
                put_bin(&mut b, w.payload.clone().unwrap_or_default().as_bytes());
            }
            if let Some(u) = &c.user_name {
                put_bin(&mut b, u.as_bytes());
            }
            if let Some(u) = &c.password {
                put_bin(&mut b, u.as_bytes());
            }
            0x10
        }
        MqttPacket::Connack(c) => {
            b.push(c.session_present as u8);
            b.push(if five { c.reason_code.unwrap_or(0) } else { c.return_code.unwrap_or(0) });
            if five {
                let mut l = vec![];
                if let Some(x) = &c.properties {
                    dflt(&mut l, 0x11, Val::U32(x.session_expiry_interval), x.session_expiry_interval == 0);
                    dflt(&mut l, 0x21, Val::U16(x.receive_maximum), x.receive_maximum == 65535);
                    // 2 can only be expressed by leaving it out
                    if x.maximum_qos < 2 {
                        l.push((0x24, Val::U8(x.maximum_qos)));
                    }
                    dflt(&mut l, 0x25, Val::B(x.retain_available), x.retain_available);
                    if let Some(m) = x.maximum_packet_size {
                        l.push((0x27, Val::U32(m)));
                    }
                    opt_s(&mut l, 0x12, &x.assigned_client_identifier);
                    dflt(&mut l, 0x22, Val::U16(x.topic_alias_maximum), x.topic_alias_maximum == 0);
                    opt_s(&mut l, 0x1F, &x.reason_string);
                    dflt(&mut l, 0x28, Val::B(x.wildcard_subscription_available), x.wildcard_subscription_available);
                    dflt(&mut l, 0x29, Val::B(x.subscription_identifiers_available), x.subscription_identifiers_available);
                    dflt(&mut l, 0x2A, Val::B(x.shared_subscription_available), x.shared_subscription_available);
                    if let Some(k) = x.server_keep_alive {
                        l.push((0x13, Val::U16(k)));
                    }
                    opt_s(&mut l, 0x1A, &x.response_information);
                    opt_s(&mut l, 0x1C, &x.server_reference);
                    opt_s(&mut l, 0x15, &x.authentication_method);
                    opt_bin(&mut l, 0x16, &x.authentication_data);
                    users_out(&mut l, &x.user_properties);
                }
                block(&mut b, l);
            }
            0x20
        }
        MqttPacket::Publish(x) => {
            put_bin(&mut b, x.topic.as_bytes());
            if x.qos > 0 {
                put_u16(&mut b, x.message_id.unwrap_or(1));
            }
            if five {
                let mut l = vec![];
                if let Some(q) = &x.properties {
                    dflt(&mut l, 0x01, Val::B(q.payload_format_indicator), !q.payload_format_indicator);
                    if let Some(m) = q.message_expiry_interval {
                        l.push((0x02, Val::U32(m)));
                    }
                    opt_s(&mut l, 0x03, &q.content_type);
                    opt_s(&mut l, 0x08, &q.response_topic);
                    dflt(&mut l, 0x09, Val::Bin(q.correlation_data.clone()), q.correlation_data.is_empty());
                    for s in &q.subscription_identifiers {
                        l.push((0x0B, Val::Var(*s)));
                    }
                    if let Some(a) = q.topic_alias {
                        l.push((0x23, Val::U16(a)));
                    }
                    users_out(&mut l, &q.user_properties);
                }
                block(&mut b, l);
            }
            b.extend_from_slice(&x.payload);
            0x30 | (x.dup as u8) << 3 | x.qos << 1 | x.retain as u8
        }
        MqttPacket::Puback(x) | MqttPacket::Pubrec(x) | MqttPacket::Pubrel(x) | MqttPacket::Pubcomp(x) => {
            put_u16(&mut b, x.message_id);
            if five {
                let c = match (&x.puback_reason_code, &x.pubcomp_reason_code) {
                    (Some(c), _) => byte_of_puback(c),
                    (_, Some(c)) => byte_of_pubrel(c),
                    _ => 0,
                };
                let l = ack_list(&x.properties);
                // short forms
                let form = draw(3);
                if !l.is_empty() || form == 0 {
                    b.push(c);
                    block(&mut b, l);
                } else if c != 0 || form == 1 {
                    b.push(c);
                }
            }
            match p {
                MqttPacket::Puback(_) => 0x40,
                MqttPacket::Pubrec(_) => 0x50,
                MqttPacket::Pubrel(_) => 0x62,
                _ => 0x70,
            }
        }
        MqttPacket::Subscribe(x) => {
            put_u16(&mut b, x.message_id);
            if five {
                let mut l = vec![];
                if let Some(q) = &x.properties {
                    if q.subscription_identifier > 0 {
                        l.push((0x0B, Val::Var(q.subscription_identifier)));
                    }
                    users_out(&mut l, &q.user_properties);
                }
                block(&mut b, l);
            }
            for s in &x.subscriptions {
                put_bin(&mut b, s.topic.as_bytes());
                let mut o = match s.qos {
                    QoS::QoS0 => 0,
                    QoS::QoS1 => 1,
                    QoS::QoS2 => 2,
                };
                if five {
                    o |= (s.nl as u8) << 2 | (s.rap as u8) << 3 | s.rh.unwrap_or(0) << 4;
                }
                b.push(o);
            }
            0x82
        }
        MqttPacket::Suback(x) => {
            put_u16(&mut b, x.message_id);
            if five {
                block(&mut b, ack_list(&x.properties));
                for c in &x.granted_reason_codes {
                    b.push(byte_of_suback(c));
                }
            } else {
                for c in &x.granted {
                    b.push(match c {
                        Granted::QoS0 => 0,
                        Granted::QoS1 => 1,
                        Granted::QoS2 => 2,
                        Granted::Failure => 0x80,
                    });
                }
            }
            0x90
        }
        MqttPacket::Unsubscribe(x) => {
            put_u16(&mut b, x.message_id);
            if five {
                let mut l = vec![];
                if let Some(q) = &x.properties {
                    users_out(&mut l, &q.user_properties);
                }
                block(&mut b, l);
            }
            for s in &x.unsubscriptions {
                put_bin(&mut b, s.as_bytes());
            }
            0xA2
        }
        MqttPacket::Unsuback(x) => {
            put_u16(&mut b, x.message_id);
            if five {
                block(&mut b, ack_list(&x.properties));
                for c in &x.granted {
                    b.push(byte_of_unsuback(c));
                }
            }
            0xB0
        }
        MqttPacket::Pingreq => 0xC0,
        MqttPacket::Pingresp => 0xD0,
        MqttPacket::Disconnect(x) => {
            if five {
                let c = x.reason_code.as_ref().map_or(0, byte_of_disconnect);
                let mut l = vec![];
                if let Some(q) = &x.properties {
                    if let Some(s) = q.session_expiry_interval {
                        l.push((0x11, Val::U32(s)));
                    }
                    opt_s(&mut l, 0x1C, &q.server_reference);
                    opt_s(&mut l, 0x1F, &q.reason_string);
                    users_out(&mut l, &q.user_properties);
                }
                let form = draw(3);
                if !l.is_empty() || form == 0 {
                    b.push(c);
                    block(&mut b, l);
                } else if c != 0 || form == 1 {
                    b.push(c);
                }
            }
            0xE0
        }
        MqttPacket::Auth(x) => {
            let c = match x.reason_code {
                AuthCode::Success => 0,
                AuthCode::ContinueAuthentication => 0x18,
                AuthCode::ReAuthenticate => 0x19,
            };
            let mut l = vec![];
            if let Some(q) = &x.properties {
                l.push((0x15, Val::S(q.authentication_method.clone())));
                opt_bin(&mut l, 0x16, &q.authentication_data);
                opt_s(&mut l, 0x1F, &q.reason_string);
                users_out(&mut l, &q.user_properties);
            }
            if !(c == 0 && l.is_empty() && coin()) {
                b.push(c);
                block(&mut b, l);
            }
            0xF0
        }
    };
    let mut out = vec![h];
    put_var(&mut out, b.len() as u32);
    out.extend_from_slice(&b);
    out
}

fn find<T: PartialEq>(codes: &[u8], f: impl Fn(u8) -> T, c: &T) -> u8 {
    codes.iter().copied().find(|b| f(*b) == *c).unwrap_or(0)
}
pub fn byte_of_puback(c: &PubackPubrecCode) -> u8 {
    find(gen::PUBACK_CODES, gen::puback_code, c)
}
pub fn byte_of_pubrel(c: &PubcompPubrelCode) -> u8 {
    find(gen::PUBREL_CODES, gen::pubrel_code, c)
}
pub fn byte_of_suback(c: &SubscriptionReasonCode) -> u8 {
    find(gen::SUBACK_CODES, gen::suback_code, c)
}
pub fn byte_of_unsuback(c: &UnsubackCode) -> u8 {
    find(gen::UNSUBACK_CODES, gen::unsuback_code, c)
}
pub fn byte_of_disconnect(c: &DisconnectCode) -> u8 {
    find(gen::DISCONNECT_CODES, gen::disconnect_code, c)
}
