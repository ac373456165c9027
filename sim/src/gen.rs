//! Generators of packet values. Choice 0 is always the simplest value.

use crate::cx::*;
use crate::seam::mix;
use mqtt_packet_3_5::*;

pub const KINDS: [PacketType; 15] = [
    PacketType::Pingreq,
    PacketType::Publish,
    PacketType::Puback,
    PacketType::Pubrec,
    PacketType::Pubrel,
    PacketType::Pubcomp,
    PacketType::Subscribe,
    PacketType::Suback,
    PacketType::Unsubscribe,
    PacketType::Unsuback,
    PacketType::Connect,
    PacketType::Connack,
    PacketType::Disconnect,
    PacketType::Pingresp,
    PacketType::Auth,
];

/// how large values may get in this run
#[derive(Clone, Copy)]
pub struct Size {
    pub text: u32,
    pub payload: u32,
    pub list: u32,
    /// sizes around encoding boundaries
    pub edges: bool,
}

impl Size {
    pub fn random() -> Size {
        match draw(10) {
            0..=3 => Size { text: 8, payload: 16, list: 2, edges: false },
            4..=6 => Size { text: 40, payload: 200, list: 4, edges: false },
            7 | 8 => Size { text: 300, payload: 3000, list: 20, edges: true },
            _ => Size { text: 3000, payload: 20000, list: 200, edges: true },
        }
    }
    pub fn small() -> Size {
        Size { text: 10, payload: 40, list: 3, edges: false }
    }
}

const EDGES: &[u32] = &[
    126, 127, 128, 129, 255, 256, 257, 16381, 16382, 16383, 16384, 16385, 16386, 32767, 32768,
    65533, 65534, 65535,
];

/// what people like to write into programs
const ROUND: &[u32] = &[
    64, 100, 200, 250, 500, 512, 1000, 1024, 1500, 2000, 2048, 4000, 4096, 5000, 8000, 8192, 10_000, 16_000, 20_000, 32_000,
    50_000, 60_000, 65_000,
];

fn length(max: u32, s: Size) -> usize {
    if let Some(n) = new_number(5, if s.edges { 70_000 } else { 2 * max + 200 }) {
        return n as usize;
    }
    (match draw(8) {
        0..=4 => draw(max + 1),
        5 | 6 => draw(6),
        _ if s.edges && one_in(2) => pick(EDGES),
        _ if s.edges && one_in(4) => pick(ROUND) + draw(3) - 1,
        _ => draw(max + 1),
    }) as usize
}

/// text of exactly n bytes
pub fn text_of(n: usize, seed: u32) -> String {
    let style = seed % 8;
    let mut out = String::with_capacity(n);
    let mut i = 0u64;
    while out.len() < n {
        let r = mix(seed as u64 ^ (i << 32));
        i += 1;
        let c = match style {
            0..=3 => (b'a' + (r % 26) as u8) as char,
            4 => (b'!' + (r % 90) as u8) as char,
            5 => char::from_u32(0x80 + (r % 0x700) as u32).unwrap_or('a'),
            6 => char::from_u32(0x4000 + (r % 0x6000) as u32).unwrap_or('a'),
            _ => *['\u{10FFFF}', '\u{FEFF}', '\u{1F600}', 'z', '\u{7FF}', '\u{800}', '\u{FFFD}', '\u{D7FF}', '\u{E000}', '\u{7F}', ' ']
                .get((r % 11) as usize)
                .unwrap_or(&'a'),
        };
        let c = match c {
            '+' | '#' => '/',
            c => c,
        };
        if out.len() + c.len_utf8() <= n {
            out.push(c);
        } else {
            out.push('x');
        }
    }
    out
}

/// texts that mean something somewhere
pub const WORDS: &[&str] = &[
    "a/b", "$share/g/t", "$SYS/broker/uptime", "/", "//", "a//b", "/a", "a/", "$", "$share", "A/B", "MQTT",
    "MQIsdp", "mqtt", " ", " a", "a ", "0", "1", "-1", "1.5", "null", "true", "None", "{}", "[]", "\"", "\\", "\\u0041",
    "'", "%41", "a b", "\u{feff}", "\u{feff}a", "e\u{301}", "\u{e9}", "\u{10ffff}", "\u{2028}", "application/json", "utf-8",
    "a\nb", "\n", "a\r\n", "\ta", "a\tb",
];
/// only in filters
const WILD: &[&str] = &["#", "+", "a/#", "+/a", "a/+/b", "+/+", "/#", "+/#", "$share/g/#", "$share/g/+/a", "$SYS/#"];

pub fn text(s: Size) -> String {
    // in some runs nearly all texts resemble each other
    let alike = match run_values(|c| c.alike) {
        Some(x) => x,
        None => {
            let x = one_in(8);
            run_values(|c| c.alike = Some(x));
            x
        }
    };
    if let Some(t) = new_text(4) {
        return t;
    }
    let t = match if alike && coin() { 13 + draw(2) } else { draw(15) } {
        14 => {
            let n = run_values(|c| c.texts.len());
            let i = draw(n as u32) as usize;
            match run_values(|c| c.texts.get(i).cloned()) {
                Some(t) if t.len() <= s.text.max(24) as usize => near(&t),
                _ => text_of(draw(8) as usize, draw(1 << 16)),
            }
        }
        12 => pick(WORDS).to_string(),
        13 => {
            let n = run_values(|c| c.texts.len());
            let i = draw(n as u32) as usize;
            match run_values(|c| c.texts.get(i).cloned()) {
                Some(t) if t.len() <= s.text.max(24) as usize => return t,
                _ => text_of(length(s.text, s), draw(1 << 16)),
            }
        }
        _ => {
            let n = length(s.text, s);
            text_of(n, draw(1 << 16))
        }
    };
    run_values(|c| {
        if c.texts.len() < 24 {
            c.texts.push(t.clone())
        }
    });
    t
}
/// a text that differs from another one in a single place
fn near(t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    let i = draw(c.len().max(1) as u32) as usize;
    match draw(6) {
        0 => c.push('/'),
        1 => {
            c.pop();
        }
        2 if c.len() > 1 => c.swap(i, 0),
        _ if c.is_empty() => c.push('b'),
        3 => c[i] = if c[i].is_ascii_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() },
        _ => c[i] = if c[i] == 'q' { 'r' } else { 'q' },
    }
    c.into_iter().collect()
}
pub fn filter(s: Size) -> String {
    match draw(8) {
        7 => pick(WILD).to_string(),
        _ => text1(s),
    }
}
pub fn text1(s: Size) -> String {
    let t = text(s);
    if t.is_empty() {
        "t".to_string()
    } else {
        t
    }
}
pub fn bytes_of(n: usize, seed: u32) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    let mut i = 0u64;
    while v.len() < n {
        let r = mix(((seed as u64) << 32) ^ i).to_le_bytes();
        i += 1;
        let k = (n - v.len()).min(8);
        v.extend_from_slice(&r[..k]);
    }
    // contents that mean something to somebody
    let r = mix(seed as u64);
    match (seed % 32, n) {
        (0, _) => v.fill(0),
        (1, _) => v.fill(0xFF),
        (2 | 3, _) => v.iter_mut().for_each(|b| *b = b' ' + *b % 95),
        (4 | 5, _) => {
            let start = STARTS[(r >> 8) as usize % STARTS.len()];
            let k = start.len().min(n);
            v[..k].copy_from_slice(&start[..k]);
        }
        (6, 1..) => {
            let end = [0, b'\n', b' ', b'\r', 0xFF, 0x80][(r >> 8) as usize % 6];
            v[n - 1] = end;
            if r & 1 == 1 {
                v[n / 2..].fill(end);
            }
        }
        (7, _) => {
            let frame = [[0xC0u8, 0], [0xE0, 0], [0x30, 0], [0x40, 2]][(r >> 8) as usize % 4];
            v.iter_mut().enumerate().for_each(|(i, b)| *b = frame[i % 2]);
        }
        _ => {}
    }
    v
}
/// how data of known kinds begins
const STARTS: [&[u8]; 10] = [
    b"\xEF\xBB\xBF", b"\xFF\xFE", b"\xFE\xFF", b"\x1F\x8B\x08", b"{\"a\":1}", b"\0\x04MQTT", b"\0", b" ", b"\x89PNG\r\n", b"GET / HTTP/1.1\r\n",
];
pub fn binary(s: Size) -> Vec<u8> {
    let n = length(s.text, s);
    bytes_of(n, draw(1 << 16))
}

pub fn opt<T>(f: impl FnOnce() -> T) -> Option<T> {
    if coin() {
        Some(f())
    } else {
        None
    }
}

pub fn user_props(s: Size) -> UserProperties {
    let mut m = UserProperties::new();
    let n = match draw(6) {
        0..=2 => 0,
        3 => 1,
        4 => draw(4),
        _ if s.edges && one_in(3) => pick(LISTS),
        _ => new_number(3, if s.edges { 1100 } else { 60 }).unwrap_or_else(|| draw(s.list + 1)),
    };
    let small = Size { edges: false, text: s.text.min(20), ..s };
    let mut last = String::new();
    // a list of any length can be that of a single name
    let one = n > 4 && one_in(3);
    for i in 0..n {
        let sz = if one_in(20) { s } else { small };
        let k = if (one && i > 0) || (!one && one_in(3)) { last.clone() } else { text(sz) };
        last = k.clone();
        m.entry(k).or_default().push(text(sz));
    }
    m
}

fn conf_props(s: Size) -> Option<ConfirmationProperties> {
    opt(|| ConfirmationProperties {
        reason_string: opt(|| text(s)),
        user_properties: user_props(s),
    })
}


pub const SUBACK_CODES: &[u8] = &[
    0, 1, 2, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2,
];
pub const PUBACK_CODES: &[u8] = &[0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99];
pub const PUBREL_CODES: &[u8] = &[0, 0x92];
pub const UNSUBACK_CODES: &[u8] = &[0, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91];
pub const AUTH_CODES: &[u8] = &[0, 0x18, 0x19];
pub const DISCONNECT_CODES: &[u8] = &[
    0, 4, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96,
    0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2,
];
pub const CONNACK_CODES: &[u8] = &[
    0, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90, 0x95, 0x97,
    0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F,
];

// The codes are built by name, not through the library's own conversion
pub fn puback_code(b: u8) -> PubackPubrecCode {
    use PubackPubrecCode::*;
    match b {
        0 => Success,
        0x10 => NoMatchingSubscribers,
        0x80 => UnspecifiedError,
        0x83 => ImplementationSpecificError,
        0x87 => NotAuthorized,
        0x90 => TopicNameInvalid,
        0x91 => PacketIdentifierInUse,
        0x97 => QuotaExceeded,
        _ => PayloadFormatInvalid,
    }
}
pub fn pubrel_code(b: u8) -> PubcompPubrelCode {
    match b {
        0 => PubcompPubrelCode::Success,
        _ => PubcompPubrelCode::PacketIdentifierNotFound,
    }
}
pub fn suback_code(b: u8) -> SubscriptionReasonCode {
    use SubscriptionReasonCode::*;
    match b {
        0 => GrantedQoS0,
        1 => GrantedQoS1,
        2 => GrantedQoS2,
        0x80 => UnspecifiedError,
        0x83 => ImplementationSpecificError,
        0x87 => NotAuthorized,
        0x8F => TopicFilterInvalid,
        0x91 => PacketIdentifierInUse,
        0x97 => QuotaExceeded,
        0x9E => SharedSubscriptionsNotSupported,
        0xA1 => SubscriptionIdentifiersNotSupported,
        _ => WildcardSubscriptionsNotSupported,
    }
}
pub fn unsuback_code(b: u8) -> UnsubackCode {
    use UnsubackCode::*;
    match b {
        0 => Success,
        0x11 => NoSubscriptionExisted,
        0x80 => UnspecifiedError,
        0x83 => ImplementationSpecificError,
        0x87 => NotAuthorized,
        0x8F => TopicFilterInvalid,
        _ => PacketIdentifierInUse,
    }
}
pub fn auth_code(b: u8) -> AuthCode {
    match b {
        0 => AuthCode::Success,
        0x18 => AuthCode::ContinueAuthentication,
        _ => AuthCode::ReAuthenticate,
    }
}
pub fn disconnect_code(b: u8) -> DisconnectCode {
    use DisconnectCode::*;
    match b {
        0 => NormalDisconnection,
        4 => DisconnectWithWillMessage,
        0x80 => UnspecifiedError,
        0x81 => MalformedPacket,
        0x82 => ProtocolError,
        0x83 => ImplementationSpecificError,
        0x87 => NotAuthorized,
        0x89 => ServerBusy,
        0x8B => ServerShuttingDown,
        0x8D => KeepAliveTimeout,
        0x8E => SessionTakenVver,
        0x8F => TopicFilterInvalid,
        0x90 => TopicNameInvalid,
        0x93 => ReceiveMaximumExceeded,
        0x94 => TopicAliasInvalid,
        0x95 => PacketTooLarge,
        0x96 => MessageRateTooHigh,
        0x97 => QuotaExceeded,
        0x98 => AdministrativeAction,
        0x99 => PayloadFormatInvalid,
        0x9A => RetainNotSupported,
        0x9B => QoSNotSupported,
        0x9C => UseAnotherServer,
        0x9D => ServerMoved,
        0x9E => SharedSubscriptionsNotSupported,
        0x9F => ConnectionRateExceeded,
        0xA0 => MaximumConnectTime,
        0xA1 => SubscriptionIdentifiersNotSupported,
        _ => WildcardSubscriptionsNotSupported,
    }
}
pub fn granted(b: u8) -> Granted {
    match b {
        0 => Granted::QoS0,
        1 => Granted::QoS1,
        2 => Granted::QoS2,
        _ => Granted::Failure,
    }
}
pub fn qos(b: u8) -> QoS {
    match b {
        0 => QoS::QoS0,
        1 => QoS::QoS1,
        _ => QoS::QoS2,
    }
}

pub fn list<T>(s: Size, f: impl Fn(Size) -> T) -> Vec<T> {
    let n = match draw(5) {
        0 | 1 => 1,
        2 => 1 + draw(4),
        3 if s.edges => pick(LISTS),
        _ => new_number(4, if s.edges { 1100 } else { 60 }).filter(|n| *n > 0).unwrap_or_else(|| 1 + draw(s.list.max(1))),
    };
    // many elements are small ones
    let s = if n > 60 { Size { text: s.text.min(20), edges: false, ..s } } else { s };
    (0..n).map(|_| f(s)).collect()
}
/// numbers of elements around what counters and lengths hold
const LISTS: &[u32] = &[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257, 258, 300, 512, 513, 700, 1024];

pub fn id() -> u16 {
    if one_in(6) {
        let n = run_values(|c| c.ids.len());
        let i = draw(n as u32) as usize;
        if let Some(x) = run_values(|c| c.ids.get(i).copied()) {
            return x;
        }
    }
    let x = u16_val().max(1);
    run_values(|c| {
        if c.ids.len() < 16 {
            c.ids.push(x)
        }
    });
    x
}

pub fn confirmation(kind: PacketType, v: u8, s: Size) -> ConfirmationPacket {
    let message_id = id();
    let mut p = ConfirmationPacket {
        cmd: kind,
        message_id,
        properties: None,
        puback_reason_code: None,
        pubcomp_reason_code: None,
    };
    if v == 5 {
        match kind {
            PacketType::Puback | PacketType::Pubrec => {
                p.puback_reason_code = Some(puback_code(pick(PUBACK_CODES)))
            }
            _ => p.pubcomp_reason_code = Some(pubrel_code(pick(PUBREL_CODES))),
        }
        p.properties = conf_props(s);
    }
    p
}

pub fn publish(v: u8, s: Size) -> PublishPacket {
    let q = draw(3) as u8;
    let mut p = PublishPacket {
        dup: q > 0 && one_in(3),
        qos: q,
        retain: one_in(3),
        topic: text1(s),
        message_id: if q > 0 { Some(id()) } else { None },
        payload: {
            let n = match draw(8) {
                0..=5 => draw(s.payload + 1),
                6 => draw(4),
                _ if s.edges && one_in(3) => (var_val() & 0xffff).saturating_sub(draw(40)),
                _ if s.edges && one_in(3) => pick(ROUND) + draw(3) - 1,
                _ if s.edges => (pick(EDGES) + 2 - draw(18)) * if one_in(8) { 2 } else { 1 },
                _ => draw(s.payload + 1),
            };
            bytes_of(n as usize, draw(1 << 16))
        },
        properties: if v == 5 {
            opt(|| PublishProperties {
                payload_format_indicator: coin(),
                message_expiry_interval: opt(u32_val),
                content_type: opt(|| text(s)),
                response_topic: opt(|| text(s)),
                correlation_data: if coin() { binary(s) } else { vec![] },
                subscription_identifiers: {
                    let n = if s.edges && one_in(6) { pick(LISTS) } else { pick(&[0, 0, 1, 2, 5]) };
                    (0..n).map(|_| sub_id()).collect()
                },
                topic_alias: opt(|| u16_val().max(1)),
                user_properties: user_props(s),
            })
        } else {
            None
        },
    };
    // an alias may take the place of the topic
    if p.properties.as_ref().is_some_and(|x| x.topic_alias.is_some()) && one_in(4) {
        p.topic.clear();
    }
    p
}

pub fn sub_id() -> u32 {
    if one_in(3) {
        return var_val().max(1);
    }
    pick(&[1, 2, 126, 127, 128, 129, 16383, 16384, 2097151, 2097152, 268435454, 268435455])
        .max(draw(2) * draw(1 << 28))
        .clamp(1, 268435455)
}

pub fn connect(v: u8, s: Size) -> ConnectPacket {
    let clean_session = coin();
    let client_id = if (v == 5 || v == 4 && clean_session) && one_in(3) {
        String::new()
    } else {
        text1(s)
    };
    let user_name = opt(|| text(s));
    let password = if v == 5 || user_name.is_some() { opt(|| text(s)) } else { None };
    ConnectPacket {
        client_id,
        protocol_version: v,
        protocol_id: if v == 3 { Protocol::MQIsdp } else { Protocol::Mqtt },
        clean_session,
        keep_alive: u16_val(),
        user_name,
        password,
        will: opt(|| LastWill {
            topic: Some(text1(s)),
            payload: opt(|| text(s)),
            qos: draw(3) as u8,
            retain: coin(),
            properties: if v == 5 {
                opt(|| WillProperties {
                    payload_format_indicator: coin(),
                    message_expiry_interval: opt(u32_val),
                    content_type: opt(|| text(s)),
                    response_topic: opt(|| text(s)),
                    correlation_data: if coin() { binary(s) } else { vec![] },
                    will_delay_interval: if coin() { u32_val() } else { 0 },
                    user_properties: user_props(s),
                })
            } else {
                None
            },
        }),
        properties: if v == 5 {
            opt(|| ConnectProperties {
                session_expiry_interval: if coin() { u32_val() } else { 0 },
                receive_maximum: if coin() { u16_val().max(1) } else { 65535 },
                maximum_packet_size: opt(|| u32_val().max(1)),
                topic_alias_maximum: if coin() { u16_val() } else { 0 },
                request_response_information: coin(),
                request_problem_information: !coin(),
                user_properties: user_props(s),
                authentication_method: opt(|| text(s)),
                authentication_data: opt(|| text(s)),
            })
        } else {
            None
        },
    }
}

pub fn connack(v: u8, s: Size) -> ConnackPacket {
    ConnackPacket {
        return_code: if v == 5 { None } else { Some(draw(6) as u8) },
        reason_code: if v == 5 { Some(pick(CONNACK_CODES)) } else { None },
        session_present: coin(),
        properties: if v == 5 {
            opt(|| ConnackProperties {
                session_expiry_interval: if coin() { u32_val() } else { 0 },
                assigned_client_identifier: opt(|| text(s)),
                server_keep_alive: opt(u16_val),
                authentication_method: opt(|| text(s)),
                authentication_data: opt(|| text(s)),
                response_information: opt(|| text(s)),
                server_reference: opt(|| text(s)),
                reason_string: opt(|| text(s)),
                receive_maximum: if coin() { u16_val().max(1) } else { 65535 },
                topic_alias_maximum: if coin() { u16_val() } else { 0 },
                maximum_qos: 2 - draw(3) as u8,
                retain_available: !coin(),
                user_properties: user_props(s),
                maximum_packet_size: opt(|| u32_val().max(1)),
                wildcard_subscription_available: !coin(),
                subscription_identifiers_available: !coin(),
                shared_subscription_available: !coin(),
                is_default: false,
            })
        } else {
            None
        },
    }
}

pub fn packet_of(kind: PacketType, v: u8, s: Size) -> MqttPacket {
    match kind {
        PacketType::Connect => MqttPacket::Connect(connect(v, s)),
        PacketType::Connack => MqttPacket::Connack(connack(v, s)),
        PacketType::Publish => MqttPacket::Publish(publish(v, s)),
        PacketType::Puback => MqttPacket::Puback(confirmation(kind, v, s)),
        PacketType::Pubrec => MqttPacket::Pubrec(confirmation(kind, v, s)),
        PacketType::Pubrel => MqttPacket::Pubrel(confirmation(kind, v, s)),
        PacketType::Pubcomp => MqttPacket::Pubcomp(confirmation(kind, v, s)),
        PacketType::Subscribe => MqttPacket::Subscribe(SubscribePacket {
            qos: 1,
            message_id: id(),
            subscriptions: list(s, |s| Subscription {
                topic: filter(s),
                qos: qos(draw(3) as u8),
                nl: v == 5 && coin(),
                rap: v == 5 && coin(),
                rh: if v == 5 { Some(draw(3) as u8) } else { None },
            }),
            properties: if v == 5 {
                opt(|| SubscribeProperties {
                    subscription_identifier: if coin() { sub_id() } else { 0 },
                    user_properties: user_props(s),
                })
            } else {
                None
            },
        }),
        PacketType::Suback if v < 5 && coin() => {
            let id = id();
            MqttPacket::Suback(SubackPacket::new_v3(id, list(s, |_| granted(draw(4) as u8))))
        }
        PacketType::Suback => MqttPacket::Suback(SubackPacket {
            reason_code: None,
            message_id: id(),
            properties: if v == 5 { conf_props(s) } else { None },
            granted_reason_codes: if v == 5 {
                list(s, |_| suback_code(pick(SUBACK_CODES)))
            } else {
                vec![]
            },
            granted: if v == 5 { vec![] } else { list(s, |_| granted(draw(4) as u8)) },
        }),
        PacketType::Unsubscribe => MqttPacket::Unsubscribe(UnsubscribePacket {
            qos: 1,
            message_id: id(),
            properties: if v == 5 {
                opt(|| UnsubscribeProperties { user_properties: user_props(s) })
            } else {
                None
            },
            unsubscriptions: list(s, filter),
        }),
        PacketType::Unsuback => MqttPacket::Unsuback(UnsubackPacket {
            message_id: id(),
            granted: if v == 5 {
                list(s, |_| unsuback_code(pick(UNSUBACK_CODES)))
            } else {
                vec![]
            },
            properties: if v == 5 { conf_props(s) } else { None },
        }),
        PacketType::Pingreq => MqttPacket::Pingreq,
        PacketType::Pingresp => MqttPacket::Pingresp,
        PacketType::Disconnect => MqttPacket::Disconnect(DisconnectPacket {
            reason_code: if v == 5 {
                Some(disconnect_code(pick(DISCONNECT_CODES)))
            } else {
                None
            },
            properties: if v == 5 {
                opt(|| DisconnectProperties {
                    session_expiry_interval: opt(u32_val),
                    server_reference: opt(|| text(s)),
                    reason_string: opt(|| text(s)),
                    user_properties: user_props(s),
                })
            } else {
                None
            },
        }),
        _ => MqttPacket::Auth(AuthPacket {
            reason_code: auth_code(pick(AUTH_CODES)),
            properties: opt(|| AuthProperties {
                authentication_method: text(s),
                authentication_data: opt(|| text(s)),
                reason_string: opt(|| text(s)),
                user_properties: user_props(s),
            }),
        }),
    }
}

/// kinds that exist in version v
pub fn kind(v: u8) -> PacketType {
    let n = if v == 5 { 15 } else { 14 };
    // PUBLISH is the most common packet
    match draw(3) {
        2 => PacketType::Publish,
        _ => KINDS[draw(n) as usize],
    }
}

/// a packet the encoder has to accept
pub fn packet(v: u8, s: Size) -> MqttPacket {
    if one_in(10) {
        if let Some(p) = again(v, s) {
            return p;
        }
    }
    let k = kind(v);
    let mut p = packet_of(k, v, s);
    if one_in(if v == 5 { 12 } else { 5 }) {
        foreign(&mut p, v, s);
    }
    run_values(|c| {
        if c.past.len() < 8 {
            c.past.push((v, s.text, p.clone()))
        }
    });
    p
}

/// fills in what only the other versions put on the wire: a program may hold
/// one value and send it to peers of all versions
pub fn foreign(p: &mut MqttPacket, v: u8, s: Size) {
    let s = Size { text: s.text.min(40), list: s.list.min(4), edges: false, ..s };
    if v == 5 {
        match p {
            MqttPacket::Suback(p) => p.granted = list(s, |_| granted(draw(4) as u8)),
            MqttPacket::Connack(p) => p.return_code = Some(draw(6) as u8),
            _ => {}
        }
        return;
    }
    match p {
        MqttPacket::Publish(p) => p.properties = publish(5, s).properties,
        MqttPacket::Puback(p) | MqttPacket::Pubrec(p) | MqttPacket::Pubrel(p) | MqttPacket::Pubcomp(p) => {
            let q = confirmation(p.cmd, 5, s);
            p.puback_reason_code = q.puback_reason_code;
            p.pubcomp_reason_code = q.pubcomp_reason_code;
            p.properties = q.properties;
        }
        MqttPacket::Connect(p) => {
            let q = connect(5, s);
            p.properties = q.properties;
            if let Some(w) = &mut p.will {
                w.properties = match q.will {
                    Some(x) => x.properties,
                    None => Some(WillProperties::default()),
                }
            }
        }
        MqttPacket::Connack(p) => {
            let q = connack(5, s);
            p.reason_code = q.reason_code;
            p.properties = q.properties;
        }
        MqttPacket::Subscribe(p) => {
            if let MqttPacket::Subscribe(q) = packet_of(PacketType::Subscribe, 5, s) {
                p.properties = q.properties;
            }
            for x in &mut p.subscriptions {
                x.nl = coin();
                x.rap = coin();
                x.rh = opt(|| draw(3) as u8);
            }
        }
        MqttPacket::Suback(p) => {
            if let MqttPacket::Suback(q) = packet_of(PacketType::Suback, 5, s) {
                p.properties = q.properties;
                p.granted_reason_codes = q.granted_reason_codes;
            }
        }
        MqttPacket::Unsubscribe(p) => {
            if let MqttPacket::Unsubscribe(q) = packet_of(PacketType::Unsubscribe, 5, s) {
                p.properties = q.properties;
            }
        }
        MqttPacket::Unsuback(p) => {
            if let MqttPacket::Unsuback(q) = packet_of(PacketType::Unsuback, 5, s) {
                p.properties = q.properties;
                p.granted = q.granted;
            }
        }
        MqttPacket::Disconnect(p) => {
            if let MqttPacket::Disconnect(q) = packet_of(PacketType::Disconnect, 5, s) {
                p.properties = q.properties;
                p.reason_code = q.reason_code;
            }
        }
        _ => {}
    }
}

/// a packet of this run once more, or one that differs in a single place
fn again(v: u8, s: Size) -> Option<MqttPacket> {
    let n = run_values(|c| c.past.len());
    let i = draw(n as u32) as usize;
    let (w, size, mut p) = run_values(|c| c.past.get(i).cloned())?;
    if w != v || size > s.text {
        return None;
    }
    match &mut p {
        MqttPacket::Publish(p) => match draw(6) {
            0 => {}
            1 | 2 => p.dup = p.qos > 0 && !p.dup,
            3 => p.retain = !p.retain,
            4 => p.payload = bytes_of(draw(20) as usize, draw(1 << 16)),
            _ => p.message_id = p.message_id.map(|_| id()),
        },
        MqttPacket::Puback(c) | MqttPacket::Pubrec(c) | MqttPacket::Pubrel(c) | MqttPacket::Pubcomp(c) => match draw(3) {
            0 => {}
            1 => c.message_id = id(),
            _ => c.properties = None,
        },
        MqttPacket::Subscribe(p) => match draw(3) {
            0 => {}
            1 => p.message_id = id(),
            _ => p.subscriptions.truncate(1),
        },
        MqttPacket::Unsubscribe(p) => match draw(3) {
            0 => {}
            1 => p.message_id = id(),
            _ => p.unsubscriptions.reverse(),
        },
        _ => {}
    }
    Some(p)
}

pub fn version() -> u8 {
    pick(&[5, 4, 3, 5])
}

/// changes some field of a packet to something unusual, possibly invalid
pub fn odd(p: &mut MqttPacket, v: u8, s: Size) {
    let long = |n: u32| text_of(n as usize, draw(1 << 16));
    let big = || pick(&[65535u32, 65536, 65537, 65536 + 20, 131072, 70000]);
    let odd_text = |t: &mut String| {
        *t = match draw(4) {
            0 => String::new(),
            1 | 2 => long(big()),
            _ => format!("a\0{}", long(3)),
        }
    };
    let odd_users = |u: &mut UserProperties| match draw(4) {
        0 => {
            u.insert(long(4), vec![]);
        }
        1 => {
            u.insert(long(big()), vec![long(2)]);
        }
        2 => {
            u.insert(long(3), vec![long(1), long(big()), String::new()]);
        }
        _ => {
            u.insert(String::new(), vec![String::new(), String::new()]);
        }
    };
    let odd_bytes = |b: &mut Vec<u8>| {
        let n = big() as usize;
        *b = bytes_of(n, 3)
    };
    let odd_conf = |p: &mut Option<ConfirmationProperties>| {
        let mut c = p.clone().unwrap_or(ConfirmationProperties {
            reason_string: None,
            user_properties: UserProperties::new(),
        });
        match draw(3) {
            0 => {}
            1 => {
                let mut t = String::new();
                odd_text(&mut t);
                c.reason_string = Some(t)
            }
            _ => odd_users(&mut c.user_properties),
        }
        *p = Some(c);
    };
    match p {
        MqttPacket::Publish(p) => match draw(8) {
            0 => p.qos = pick(&[3, 4, 5, 7, 8, 128, 129, 130, 131, 255]),
            1 => p.message_id = None,
            2 => p.message_id = Some(pick(&[0, 1, 65535])),
            3 => odd_text(&mut p.topic),
            4 => p.dup = !p.dup,
            _ => {
                let mut x = match p.properties.clone() {
                    Some(x) => x,
                    None => match publish(5, s).properties {
                        Some(x) => x,
                        None => return,
                    },
                };
                match draw(7) {
                    0 => x.subscription_identifiers = vec![pick(&[0, 268435455, 268435456, u32::MAX])],
                    1 => x.content_type = Some(long(big())),
                    2 => x.response_topic = Some(long(big())),
                    3 => odd_bytes(&mut x.correlation_data),
                    4 => x.topic_alias = Some(0),
                    5 => odd_users(&mut x.user_properties),
                    _ => {}
                }
                p.properties = Some(x);
            }
        },
        MqttPacket::Puback(p) | MqttPacket::Pubrec(p) | MqttPacket::Pubrel(p) | MqttPacket::Pubcomp(p) => {
            match draw(7) {
                0 => p.cmd = pick(&KINDS),
                1 => p.cmd = PacketType::Reserved,
                2 => p.puback_reason_code = opt(|| puback_code(pick(PUBACK_CODES))),
                3 => p.pubcomp_reason_code = opt(|| pubrel_code(pick(PUBREL_CODES))),
                4 => p.message_id = 0,
                5 => {
                    p.puback_reason_code = None;
                    p.pubcomp_reason_code = None;
                }
                _ => odd_conf(&mut p.properties),
            }
        }
        MqttPacket::Subscribe(p) if p.subscriptions.is_empty() => {}
        MqttPacket::Unsubscribe(p) if p.unsubscriptions.is_empty() => {}
        MqttPacket::Subscribe(p) => match draw(8) {
            0 => p.subscriptions.clear(),
            1 => p.subscriptions[0].rh = pick(&[None, Some(0), Some(3), Some(4), Some(16), Some(255)]),
            2 => odd_text(&mut p.subscriptions[0].topic),
            3 => p.qos = draw(256) as u8,
            4 => {
                p.subscriptions[0].nl = true;
                p.subscriptions[0].rap = true;
                p.subscriptions[0].rh = Some(2);
            }
            5 => {
                let l = p.subscriptions.len() - 1;
                p.subscriptions[l].rh = Some(draw(256) as u8)
            }
            _ => {
                let mut x = p.properties.clone().unwrap_or(SubscribeProperties {
                    subscription_identifier: 0,
                    user_properties: UserProperties::new(),
                });
                match draw(3) {
                    0 => x.subscription_identifier = pick(&[268435456, u32::MAX, 268435455]),
                    1 => odd_users(&mut x.user_properties),
                    _ => {}
                }
                p.properties = Some(x);
            }
        },
        MqttPacket::Suback(p) => match draw(6) {
            0 => p.granted.clear(),
            1 => p.granted_reason_codes.clear(),
            2 => p.reason_code = Some(draw(256) as u8),
            3 => p.granted = vec![granted(draw(4) as u8)],
            4 => p.granted_reason_codes = vec![suback_code(pick(SUBACK_CODES))],
            _ => odd_conf(&mut p.properties),
        },
        MqttPacket::Unsubscribe(p) => match draw(4) {
            0 => p.unsubscriptions.clear(),
            1 => odd_text(&mut p.unsubscriptions[0]),
            2 => p.qos = draw(256) as u8,
            _ => {
                let mut x = p.properties.clone().unwrap_or(UnsubscribeProperties {
                    user_properties: UserProperties::new(),
                });
                if coin() {
                    odd_users(&mut x.user_properties);
                }
                p.properties = Some(x);
            }
        },
        MqttPacket::Unsuback(p) => match draw(3) {
            0 => p.granted.clear(),
            1 => p.granted.push(unsuback_code(pick(UNSUBACK_CODES))),
            _ => odd_conf(&mut p.properties),
        },
        MqttPacket::Connect(p) => match draw(14) {
            0 => p.protocol_version = pick(&[0, 1, 2, 6, 3, 4, 5, 128 + 4, 255]),
            1 => p.client_id.clear(),
            2 => p.clean_session = !p.clean_session,
            3 => p.user_name = None,
            4 => p.password = Some(long(big())),
            5 => p.user_name = Some(long(big())),
            6 => odd_text(&mut p.client_id),
            7 => {
                p.protocol_id = if p.protocol_id == Protocol::Mqtt {
                    Protocol::MQIsdp
                } else {
                    Protocol::Mqtt
                }
            }
            8..=11 => {
                let mut w = p.will.clone().unwrap_or(LastWill {
                    topic: Some("w".into()),
                    payload: None,
                    qos: 0,
                    retain: false,
                    properties: None,
                });
                match draw(6) {
                    0 => w.qos = pick(&[3, 4, 7, 8, 255, 2]),
                    1 => w.topic = None,
                    2 => {
                        let mut t = String::new();
                        odd_text(&mut t);
                        w.topic = Some(t);
                    }
                    3 => w.payload = Some(long(big())),
                    4 => w.payload = None,
                    _ => {
                        let mut x = w.properties.clone().unwrap_or_default();
                        match draw(5) {
                            0 => x.content_type = Some(long(big())),
                            1 => x.response_topic = Some(long(big())),
                            2 => odd_bytes(&mut x.correlation_data),
                            3 => odd_users(&mut x.user_properties),
                            _ => {}
                        }
                        w.properties = Some(x);
                    }
                }
                p.will = Some(w);
            }
            _ => {
                let mut x = p.properties.clone().unwrap_or_default();
                match draw(5) {
                    0 => x.authentication_method = Some(long(big())),
                    1 => x.authentication_data = Some(long(big())),
                    2 => odd_users(&mut x.user_properties),
                    3 => x.receive_maximum = 0,
                    _ => {}
                }
                p.properties = Some(x);
            }
        },
        MqttPacket::Connack(p) => match draw(6) {
            0 => p.return_code = None,
            1 => p.reason_code = None,
            2 => p.return_code = Some(draw(256) as u8),
            3 => p.reason_code = Some(draw(256) as u8),
            _ => {
                let mut x = p.properties.clone().unwrap_or_default();
                match draw(6) {
                    0 => x.assigned_client_identifier = Some(long(big())),
                    1 => x.reason_string = Some(long(big())),
                    2 => x.server_reference = Some(long(big())),
                    3 => odd_users(&mut x.user_properties),
                    4 => x.maximum_qos = draw(256) as u8,
                    _ => x.is_default = !x.is_default,
                }
                p.properties = Some(x);
            }
        },
        MqttPacket::Disconnect(p) => match draw(3) {
            0 => p.reason_code = None,
            1 => p.reason_code = Some(disconnect_code(pick(DISCONNECT_CODES))),
            _ => {
                let mut x = p.properties.clone().unwrap_or(DisconnectProperties {
                    session_expiry_interval: None,
                    server_reference: None,
                    reason_string: None,
                    user_properties: UserProperties::new(),
                });
                match draw(4) {
                    0 => x.reason_string = Some(long(big())),
                    1 => x.server_reference = Some(long(big())),
                    2 => odd_users(&mut x.user_properties),
                    _ => {}
                }
                p.properties = Some(x);
            }
        },
        MqttPacket::Auth(p) => {
            let mut x = p.properties.clone().unwrap_or(AuthProperties {
                authentication_method: String::new(),
                authentication_data: None,
                reason_string: None,
                user_properties: UserProperties::new(),
            });
            match draw(5) {
                0 => x.authentication_method = long(big()),
                1 => x.authentication_data = Some(long(big())),
                2 => x.reason_string = Some(long(big())),
                3 => odd_users(&mut x.user_properties),
                _ => {}
            }
            p.properties = Some(x);
        }
        MqttPacket::Pingreq | MqttPacket::Pingresp => {}
    }
    let _ = v;
}

/// why a packet must not be sent with a protocol version: something the
/// version makes mandatory is missing
pub fn lacks(p: &MqttPacket, v: u8) -> Option<&'static str> {
    match p {
        MqttPacket::Publish(p) => {
            let alias = v == 5 && p.properties.as_ref().is_some_and(|x| x.topic_alias.is_some());
            if p.topic.is_empty() && !alias {
                return Some("a PUBLISH has neither topic nor alias");
            }
            if p.qos > 0 && p.message_id.is_none() {
                return Some("a PUBLISH has no identifier");
            }
        }
        MqttPacket::Subscribe(p) => {
            if p.subscriptions.is_empty() {
                return Some("a SUBSCRIBE has no topic filter");
            }
            if p.subscriptions.iter().any(|s| s.topic.is_empty()) {
                return Some("a SUBSCRIBE has an empty topic filter");
            }
            if v == 5 && p.subscriptions.iter().any(|s| s.rh.is_none()) {
                return Some("a SUBSCRIBE has no retain handling");
            }
        }
        MqttPacket::Unsubscribe(p) => {
            if p.unsubscriptions.is_empty() {
                return Some("an UNSUBSCRIBE has no topic filter");
            }
            if p.unsubscriptions.iter().any(|s| s.is_empty()) {
                return Some("an UNSUBSCRIBE has an empty topic filter");
            }
        }
        MqttPacket::Suback(p) => {
            if if v == 5 { p.granted_reason_codes.is_empty() } else { p.granted.is_empty() } {
                return Some("a SUBACK has no result");
            }
        }
        MqttPacket::Connect(p) => {
            // CONNECT announces its own version
            let v = p.protocol_version;
            if !(3..=5).contains(&v) {
                return Some("a CONNECT has no known version");
            }
            if p.client_id.is_empty() && (v == 3 || (v == 4 && !p.clean_session)) {
                return Some("a CONNECT has no client identifier");
            }
            if p.password.is_some() && p.user_name.is_none() && v != 5 {
                return Some("a CONNECT has a password without a user name");
            }
            if let Some(w) = &p.will {
                if w.topic.as_ref().map_or(true, |t| t.is_empty()) {
                    return Some("a will has no topic");
                }
            }
        }
        MqttPacket::Connack(p) => {
            if if v == 5 { p.reason_code.is_none() } else { p.return_code.is_none() } {
                return Some("a CONNACK has no code");
            }
        }
        MqttPacket::Auth(_) if v != 5 => return Some("an AUTH before version 5"),
        _ => {}
    }
    None
}

/// takes something away from a packet, possibly something mandatory
pub fn strip(p: &mut MqttPacket) {
    match p {
        MqttPacket::Publish(p) => match draw(4) {
            0 | 1 => p.topic.clear(),
            2 => {
                p.topic.clear();
                let mut x = p.properties.take().unwrap_or_else(|| PublishProperties {
                    payload_format_indicator: false,
                    message_expiry_interval: None,
                    content_type: None,
                    response_topic: None,
                    correlation_data: vec![],
                    subscription_identifiers: vec![],
                    topic_alias: None,
                    user_properties: UserProperties::new(),
                });
                x.topic_alias = opt(|| 1 + draw(65535) as u16);
                p.properties = Some(x);
            }
            _ => p.message_id = None,
        },
        MqttPacket::Subscribe(p) if !p.subscriptions.is_empty() => {
            let i = draw(p.subscriptions.len() as u32) as usize;
            match draw(4) {
                0 => p.subscriptions.clear(),
                1 | 2 => p.subscriptions[i].topic.clear(),
                _ => p.subscriptions[i].rh = None,
            }
        }
        MqttPacket::Unsubscribe(p) if !p.unsubscriptions.is_empty() => {
            let i = draw(p.unsubscriptions.len() as u32) as usize;
            match draw(3) {
                0 => p.unsubscriptions.clear(),
                _ => p.unsubscriptions[i].clear(),
            }
        }
        MqttPacket::Suback(p) => {
            p.granted.clear();
            p.granted_reason_codes.clear();
        }
        MqttPacket::Connect(p) => match draw(6) {
            0 => p.client_id.clear(),
            1 => {
                p.client_id.clear();
                p.clean_session = !p.clean_session;
            }
            2 => p.user_name = None,
            _ => {
                let topic = if coin() { None } else { Some(String::new()) };
                match &mut p.will {
                    Some(w) => w.topic = topic,
                    None => p.will = Some(LastWill { topic, payload: opt(|| "x".into()), qos: 0, retain: false, properties: None }),
                }
            }
        },
        MqttPacket::Connack(p) => match draw(3) {
            0 => p.return_code = None,
            1 => p.reason_code = None,
            _ => std::mem::swap(&mut p.return_code, &mut p.reason_code),
        },
        _ => {}
    }
}
