//! Random sequences of values written with the byte writer and read back by
//! the byte reader at the other end of a simulated connection (C21).

use crate::cx::*;
use crate::gen;
use crate::link::*;
use crate::reader::{plain, sorted, Model, Want, PROP_IDS};
use crate::refcodec;
use crate::seam::lib;
use crate::{fail, logln};
use mqtt_packet_3_5::byte_reader::ByteReader;
use mqtt_packet_3_5::mqtt_writer::MqttWriter;
use mqtt_packet_3_5::*;
use std::io::BufReader;
use std::sync::{Arc, Mutex};

type PlainProps = Vec<(u8, Vec<u8>)>;

#[derive(Clone, Debug)]
enum Value {
    U8(u8),
    Bool(bool),
    U16(u16),
    U32(u32),
    Var(u32),
    Text(String),
    Binary(Vec<u8>),
    Raw(Vec<u8>),
    Header(FixedHeader),
    Props(PlainProps),
}

fn text() -> String {
    let n = match draw(12) {
        0 => pick(&[65534u32, 65535, 65536, 65537, 131072, 70000]),
        1 => 100 + draw(20_000),
        2 | 3 => new_number(2, 140_000).unwrap_or(0),
        _ => draw(40),
    };
    let mut t = gen::text_of(n as usize, draw(1 << 16));
    // any text is fine here
    if one_in(8) {
        for _ in 0..1 + draw(3) {
            let mut at = draw(t.len() as u32 + 1) as usize;
            while !t.is_char_boundary(at) {
                at -= 1;
            }
            t.insert(at, pick(&['\0', '\n', '\r', '\t', '\u{1}', '\u{1f}', '\u{85}', '\u{fffe}']));
        }
    }
    t
}

fn binary() -> Vec<u8> {
    let n = match draw(12) {
        0 => pick(&[65534u32, 65535, 65536, 65537, 131072, 70000]),
        1 => 100 + draw(20_000),
        2 | 3 => new_number(2, 140_000).unwrap_or(0),
        _ => draw(40),
    };
    gen::bytes_of(n as usize, draw(1 << 16))
}

fn var() -> u32 {
    if coin() {
        return var_val();
    }
    pick(&[
        0, 1, 127, 128, 129, 16_383, 16_384, 16_385, 2_097_151, 2_097_152, 2_097_153, 268_435_454, 268_435_455, 268_435_456, u32::MAX, 1 << 31,
        300, 77_777,
    ])
}

/// a property in the library's form, in a plain form and whether it fits
fn prop(id: u8) -> (PropType<'static>, PlainProps, bool) {
    match id {
        0x02 | 0x11 | 0x18 | 0x27 => {
            let x = u32_val();
            (PropType::U32(x), vec![(id, x.to_be_bytes().to_vec())], true)
        }
        0x13 | 0x21 | 0x22 | 0x23 => {
            let x = u16_val();
            (PropType::U16(x), vec![(id, x.to_be_bytes().to_vec())], true)
        }
        0x24 => {
            let x = draw(2) as u8;
            (PropType::U8(x), vec![(id, vec![x])], true)
        }
        0x01 | 0x17 | 0x19 | 0x25 | 0x28 | 0x29 | 0x2A => {
            let x = coin();
            (PropType::Bool(x), vec![(id, vec![x as u8])], true)
        }
        0x0B => {
            let x = var();
            (PropType::VarInt(x), vec![(id, x.to_be_bytes().to_vec())], x <= 268_435_455)
        }
        0x09 => {
            let x = binary();
            let fits = x.len() <= 65535;
            (PropType::Binary(x.clone()), vec![(id, x)], fits)
        }
        0x26 => {
            let mut m = UserProperties::new();
            for _ in 0..1 + draw(3) {
                let k = text();
                let vs: Vec<String> = (0..1 + draw(3)).map(|_| text()).collect();
                m.insert(k, vs);
            }
            let fits = m.iter().all(|(k, vs)| k.len() <= 65535 && vs.iter().all(|v| v.len() <= 65535));
            let p = if fits { plain(Some(vec![(0x26, PropType::Map(m.clone()))])) } else { vec![] };
            (PropType::Map(m), p, fits)
        }
        _ => {
            let x = text();
            let fits = x.len() <= 65535;
            (PropType::String(x.clone()), vec![(id, x.into_bytes())], fits)
        }
    }
}

/// the same property as a borrowed variant, if there is one
fn borrowed<'a>(p: &'a PropType<'static>) -> PropType<'a> {
    match p {
        PropType::String(s) => PropType::Str(s),
        PropType::Binary(b) => PropType::BinaryRef(b),
        PropType::Map(m) => PropType::MapRef(m),
        PropType::U32(x) => PropType::U32(*x),
        PropType::U16(x) => PropType::U16(*x),
        PropType::U8(x) => PropType::U8(*x),
        PropType::Bool(x) => PropType::Bool(*x),
        PropType::VarInt(x) => PropType::VarInt(*x),
        _ => PropType::U8(0),
    }
}

fn refused(what: &str, r: Res<()>, fits: bool) -> bool {
    match (r.is_ok(), fits) {
        (true, true) => false,
        (false, false) => {
            fault(F::Refused);
            true
        }
        (true, false) => fail!("accepted", "the writer accepts {} that has no wire format", what),
        (false, true) => fail!("refused", "the writer refuses {}: {:?}", what, r),
    }
}

fn kind() -> PacketType {
    pick(&[
        PacketType::Connect, PacketType::Connack, PacketType::Publish, PacketType::Publish, PacketType::Publish, PacketType::Puback,
        PacketType::Pubrec, PacketType::Pubrel, PacketType::Pubcomp, PacketType::Subscribe, PacketType::Suback, PacketType::Unsubscribe,
        PacketType::Unsuback, PacketType::Pingreq, PacketType::Pingresp, PacketType::Disconnect, PacketType::Auth,
    ])
}

pub fn c21(stratum: u32) {
    let n = 1 + draw(if stratum % 20 == 19 { 60 } else { 14 });
    let cap = pick(&[0usize, 1, 2, 16, 1000]);
    let mut w = lib(|| MqttWriter::new(cap));
    let mut want: Vec<(Value, usize)> = vec![];
    // an independent rendering
    let mut out: Vec<u8> = vec![];
    for _ in 0..n {
        let value = match draw(11) {
            0 => {
                let x = draw(256) as u8;
                lib(|| w.write_u8(x));
                out.push(x);
                Value::U8(x)
            }
            1 => {
                let x = coin();
                lib(|| w.write_u8(x as u8));
                out.push(x as u8);
                Value::Bool(x)
            }
            2 => {
                let x = u16_val();
                if one_in(3) {
                    lib(|| w.write_vec(MqttWriter::encode_multibyte_num(x as u32)));
                } else {
                    lib(|| w.write_u16(x));
                }
                refcodec::put_u16(&mut out, x);
                Value::U16(x)
            }
            3 => {
                let x = u32_val();
                lib(|| w.write_u32(x));
                out.extend_from_slice(&x.to_be_bytes());
                Value::U32(x)
            }
            4 => {
                let x = var();
                let r = if x > 0 && x <= 268_435_455 && one_in(3) {
                    lib(|| w.write_slice(&MqttWriter::encode_variable_num(x)));
                    Ok(())
                } else {
                    lib(|| w.write_variable_num(x))
                };
                if refused(&format!("the number {}", x), r, x <= 268_435_455) {
                    continue;
                }
                refcodec::put_var(&mut out, x);
                Value::Var(x)
            }
            5 => {
                let x = text();
                let owned = coin();
                let y = x.clone();
                let r = lib(|| if owned { w.write_utf8_string(y) } else { w.write_utf8_str(&y) });
                if refused(&format!("a text of {} bytes", x.len()), r, x.len() <= 65535) {
                    continue;
                }
                refcodec::put_bin(&mut out, x.as_bytes());
                Value::Text(x)
            }
            6 => {
                let x = binary();
                let owned = coin();
                let y = x.clone();
                let r = lib(|| if owned { w.write_binary(y) } else { w.write_binary_ref(&y) });
                if refused(&format!("{} bytes", x.len()), r, x.len() <= 65535) {
                    continue;
                }
                refcodec::put_bin(&mut out, &x);
                Value::Binary(x)
            }
            7 => {
                let x = binary();
                let y = x.clone();
                if coin() {
                    lib(|| w.write_vec(y));
                } else {
                    lib(|| w.write_slice(&y));
                }
                out.extend_from_slice(&x);
                Value::Raw(x)
            }
            8 => {
                let cmd = kind();
                let publish = cmd == PacketType::Publish;
                let h = FixedHeader {
                    cmd,
                    dup: publish && coin(),
                    qos: if publish { draw(3) as u8 } else { matches!(cmd, PacketType::Pubrel | PacketType::Subscribe | PacketType::Unsubscribe) as u8 },
                    retain: publish && coin(),
                };
                let x = if publish || coin() { h.clone() } else { FixedHeader::for_type(cmd) };
                lib(|| w.write_header(x));
                // a header only is one with a length
                let k = draw(5) as usize;
                let r = lib(|| w.write_variable_num(k as u32));
                refused("a length", r, true);
                let body = gen::bytes_of(k, draw(1 << 16));
                lib(|| w.write_slice(&body));
                let bits = (1..16).find(|b| PacketType::from_bits(*b) == h.cmd).unwrap_or(0);
                out.push(bits << 4 | (h.dup as u8) << 3 | h.qos << 1 | h.retain as u8);
                out.push(k as u8);
                want.push((Value::Header(h), out.len()));
                out.extend_from_slice(&body);
                Value::Raw(body)
            }
            _ => {
                // a block of properties, written the way the library does
                let mut ps: Vec<(u8, PropType<'static>)> = vec![];
                let mut flat: PlainProps = vec![];
                let mut fits = true;
                let mut seen = vec![];
                for _ in 0..draw(6) {
                    let id = pick(PROP_IDS);
                    if seen.contains(&id) {
                        continue;
                    }
                    seen.push(id);
                    let (p, f, ok) = prop(id);
                    ps.push((id, p));
                    flat.extend(f);
                    fits &= ok;
                }
                let what = format!("the properties {}", short(&ps));
                let mut inner = lib(|| MqttWriter::new(100));
                let r = if coin() {
                    let refs: Vec<(u8, PropType)> = ps.iter().map(|(i, p)| (*i, borrowed(p))).collect();
                    lib(|| inner.write_properties(refs))
                } else {
                    lib(|| inner.write_properties(ps))
                };
                if refused(&what, r, fits) {
                    continue;
                }
                let data = lib(|| inner.into_vec());
                let mut len = vec![];
                refcodec::put_var(&mut len, data.len() as u32);
                let r = lib(|| w.write_sized(&data, &len));
                refused("a property block", r, true);
                out.extend_from_slice(&len);
                // the order of user properties is open
                out.extend_from_slice(&data);
                Value::Props(sorted(flat))
            }
        };
        want.push((value, out.len()));
    }
    let wire = lib(|| w.into_vec());
    logln!("values {}\nbytes {}", short(&want.iter().map(|x| &x.0).collect::<Vec<_>>()), hex(&wire));
    if wire != out {
        fail!("bytes", "the values {}\n are written as {}\n instead of     {}", short(&want.iter().map(|x| &x.0).collect::<Vec<_>>()), hex(&wire), hex(&out));
    }
    // the other end
    let mut sched = Sched::random(wire.len());
    sched.prebuffer = false;
    let cap = if sched.cap == 0 { 8192 } else { sched.cap };
    let ends: Vec<usize> = want.iter().map(|x| x.1).collect();
    let cut = if one_in(4) { draw(wire.len() as u32 + 1) as usize } else { wire.len() };
    let mut link = Link::new(wire[..cut].to_vec(), sched).with_marks(ends);
    link.end = if coin() { Stop::Eof } else { Stop::Err(pick(ERR_KINDS)) };
    let mut r = lib(|| ByteReader::new(BufReader::with_capacity(cap, SimRead(Arc::new(Mutex::new(link))))));
    let mut m = Model::new(wire[..cut].to_vec(), 0, vec![]);
    let mut region: Option<usize> = None;
    for (i, (value, end)) in want.iter().enumerate() {
        if region.is_none() && one_in(4) {
            let last = (i + draw(4) as usize).min(want.len() - 1);
            // a packet is a region of its own
            let pure = want[i..=last].iter().all(|x| !matches!(x.0, Value::Header(_)));
            if pure && m.pos < want[last].1 {
                region = Some(want[last].1);
                let n = want[last].1 - m.pos;
                lib(|| r.take(n as u32));
            }
        }
        let start = m.pos;
        let lost = *end > cut;
        if start < *end && start < cut && !lib(|| r.has_more()) {
            fail!("has-more", "no more data is announced before value {} at {}, {} bytes follow", i, start, cut - start);
        }
        let (got, same): (String, bool) = match value {
            Value::U8(x) => show(lib(|| r.read_u8()), x),
            Value::Bool(x) => show(lib(|| r.read_bool_byte()), x),
            Value::U16(x) => show(lib(|| r.read_u16()), x),
            Value::U32(x) => show(lib(|| r.read_u32()), x),
            Value::Var(x) => show(lib(|| r.read_variable_int()), x),
            Value::Text(x) => show(lib(|| r.read_utf8_string()), x),
            Value::Binary(x) => show(lib(|| r.read_binary()), x),
            Value::Raw(x) => show(lib(|| r.read_len(x.len() as u32)), x),
            Value::Props(x) => {
                // an independent reader agrees
                if !lost {
                    match m.properties() {
                        Want::Ok(y, _) | Want::Either(y, _) if sorted(y.clone()) == *x => {}
                        _ => fail!("bytes", "the properties {}\n are written as {}", short(x), hex(&wire[start..*end])),
                    }
                }
                show(lib(|| r.read_properties().map(plain)).map(sorted), x)
            }
            Value::Header(h) => {
                let k = wire[*end - 1] as u32;
                let g = lib(|| r.read_header());
                if g.is_ok() {
                    lib(|| r.reset_limit());
                }
                show(g, &(k, h.clone()))
            }
        };
        event(80, start as u64, same as u64);
        logln!("value {} at {}: {}", i, start, got);
        if lost {
            if same || !got.starts_with("Err") {
                fail!("invented", "the connection ends at {}, inside of value {} (bytes {} to {}), which is read as {}", cut, i, start, end, got);
            }
            return;
        }
        if !same {
            fail!("changed", "value {} at {} was written as {}\n and is read as {}\n bytes {}", i, start, short(value), got, hex(&wire[start..*end]));
        }
        count_packet();
        m.advance(*end - start);
        if region == Some(*end) && want.get(i + 1).map_or(true, |x| x.1 > *end) {
            if lib(|| r.has_more()) {
                fail!("has-more", "a region of exactly the values read has more");
            }
            lib(|| r.reset_limit());
            region = None;
        }
    }
    if lib(|| r.has_more()) {
        fail!("surplus", "all values are read, but there is more");
    }
}

fn show<T: PartialEq + std::fmt::Debug>(got: Res<T>, want: &T) -> (String, bool) {
    match got {
        Ok(x) => (short(&x), x == *want),
        Err(e) => (format!("Err {}", e), false),
    }
}
