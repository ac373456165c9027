//! The structure of a frame: what every byte of a body is. Damage that knows
//! it reaches places byte flips rarely do, with all lengths around it right.

use crate::cx::*;
use crate::gen;
use crate::refcodec;
use crate::util::{any_prop, frame, parts};

#[derive(Clone, Debug)]
pub enum Node {
    /// fixed size: flags, codes, numbers
    Raw(Vec<u8>),
    /// two bytes of length in front
    Text(Vec<u8>),
    /// a property block with its properties
    Block(Vec<Prop>),
    /// the rest of the packet
    Rest(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Prop {
    pub id: u8,
    pub val: Vec<Node>,
}

struct Cur<'a> {
    b: &'a [u8],
    i: usize,
}

impl Cur<'_> {
    fn raw(&mut self, n: usize) -> Option<Node> {
        let s = self.b.get(self.i..self.i + n)?;
        self.i += n;
        Some(Node::Raw(s.to_vec()))
    }
    fn text(&mut self) -> Option<Node> {
        let n = (*self.b.get(self.i)? as usize) << 8 | *self.b.get(self.i + 1)? as usize;
        let s = self.b.get(self.i + 2..self.i + 2 + n)?;
        self.i += 2 + n;
        Some(Node::Text(s.to_vec()))
    }
    fn var(&mut self) -> Option<usize> {
        let (mut n, mut k) = (0usize, 0);
        loop {
            let x = *self.b.get(self.i)?;
            self.i += 1;
            n |= ((x & 0x7f) as usize) << (7 * k);
            k += 1;
            if x & 0x80 == 0 {
                return Some(n);
            }
            if k == 4 {
                return None;
            }
        }
    }
    fn block(&mut self) -> Option<Node> {
        let n = self.var()?;
        let end = self.i + n;
        let b = self.b.get(..end)?;
        let mut c = Cur { b, i: self.i };
        let mut out = vec![];
        while c.i < end {
            let id = b[c.i];
            c.i += 1;
            let val = match id {
                0x02 | 0x11 | 0x18 | 0x27 => vec![c.raw(4)?],
                0x13 | 0x21..=0x23 => vec![c.raw(2)?],
                0x01 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28..=0x2A => vec![c.raw(1)?],
                0x0B => {
                    let at = c.i;
                    c.var()?;
                    vec![Node::Raw(b[at..c.i].to_vec())]
                }
                0x26 => vec![c.text()?, c.text()?],
                0x03 | 0x08 | 0x09 | 0x12 | 0x15 | 0x16 | 0x1A | 0x1C | 0x1F => vec![c.text()?],
                _ => return None,
            };
            out.push(Prop { id, val });
        }
        self.i = end;
        Some(Node::Block(out))
    }
    fn done(&self) -> bool {
        self.i >= self.b.len()
    }
}

pub fn dissect(v: u8, h: u8, body: &[u8]) -> Option<Vec<Node>> {
    let mut c = Cur { b: body, i: 0 };
    let mut o = vec![];
    match h >> 4 {
        1 => {
            o.push(c.text()?);
            let five = *body.get(c.i)? == 5;
            let flags = *body.get(c.i + 1)?;
            o.push(c.raw(1)?);
            o.push(c.raw(1)?);
            o.push(c.raw(2)?);
            if five {
                o.push(c.block()?);
            }
            o.push(c.text()?);
            if flags & 4 != 0 {
                if five {
                    o.push(c.block()?);
                }
                o.push(c.text()?);
                o.push(c.text()?);
            }
            for f in [0x80, 0x40] {
                if flags & f != 0 {
                    o.push(c.text()?);
                }
            }
        }
        2 => {
            o.push(c.raw(1)?);
            o.push(c.raw(1)?);
            if v == 5 && !c.done() {
                o.push(c.block()?);
            }
        }
        3 => {
            o.push(c.text()?);
            if h & 6 != 0 {
                o.push(c.raw(2)?);
            }
            if v == 5 {
                o.push(c.block()?);
            }
            o.push(Node::Rest(body[c.i..].to_vec()));
            c.i = body.len();
        }
        4..=7 => {
            o.push(c.raw(2)?);
            if v == 5 && !c.done() {
                o.push(c.raw(1)?);
                if !c.done() {
                    o.push(c.block()?);
                }
            }
        }
        8..=11 => {
            o.push(c.raw(2)?);
            if v == 5 {
                o.push(c.block()?);
            }
            while !c.done() {
                match h >> 4 {
                    8 => {
                        o.push(c.text()?);
                        o.push(c.raw(1)?);
                    }
                    10 => o.push(c.text()?),
                    _ => o.push(c.raw(1)?),
                }
            }
        }
        14 | 15 if v == 5 => {
            if !c.done() {
                o.push(c.raw(1)?);
                if !c.done() {
                    o.push(c.block()?);
                }
            }
        }
        _ => {}
    }
    if c.done() {
        Some(o)
    } else {
        None
    }
}

/// a length that is written wrong: which one (in order of appearance), by how much
type Lie = Option<(usize, i64)>;

fn put(o: &mut Vec<u8>, n: &Node, lie: Lie, count: &mut usize) {
    let mut len = |real: usize| -> usize {
        *count += 1;
        match lie {
            Some((k, d)) if k + 1 == *count => (real as i64 + d).max(0) as usize,
            _ => real,
        }
    };
    match n {
        Node::Raw(b) | Node::Rest(b) => o.extend_from_slice(b),
        Node::Text(b) => {
            let n = len(b.len());
            refcodec::put_u16(o, n as u16);
            o.extend_from_slice(b);
        }
        Node::Block(ps) => {
            let mut inner = vec![];
            *count += 1;
            let mine = *count;
            for p in ps {
                inner.push(p.id);
                for x in &p.val {
                    put(&mut inner, x, lie, count);
                }
            }
            let n = match lie {
                Some((k, d)) if k + 1 == mine => (inner.len() as i64 + d).max(0) as u32,
                _ => inner.len() as u32,
            };
            refcodec::put_var(o, n.min(268_435_455));
            o.extend(inner);
        }
    }
}

pub fn render(t: &[Node], lie: Lie) -> Vec<u8> {
    let mut o = vec![];
    let mut count = 0;
    for n in t {
        put(&mut o, n, lie, &mut count);
    }
    o
}

fn lengths(t: &[Node]) -> usize {
    t.iter()
        .map(|n| match n {
            Node::Text(_) => 1,
            Node::Block(p) => 1 + p.iter().map(|p| lengths(&p.val)).sum::<usize>(),
            _ => 0,
        })
        .sum()
}

/// all texts and numbers, also those inside of blocks
fn leaves(t: &mut [Node]) -> Vec<&mut Node> {
    let mut out = vec![];
    for n in t.iter_mut() {
        match n {
            Node::Block(p) => {
                for p in p.iter_mut() {
                    out.extend(p.val.iter_mut());
                }
            }
            n => out.push(n),
        }
    }
    out
}

const BAD: &[&[u8]] = &[&[0xff], &[0xC0, 0x80], &[0xED, 0xA0, 0x80], &[0xE2, 0x82], &[0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xC3], &[0xF5, 0x80, 0x80, 0x80], &[0xF0, 0x9F, 0x98]];

/// an unusual content for a text
fn strange() -> Vec<u8> {
    match draw(6) {
        0 => vec![],
        1 | 2 => {
            // characters of several bytes at every offset
            let c = pick(&["\u{e9}", "\u{20ac}", "\u{1f600}", "\u{10ffff}", "\u{feff}"]);
            let k = draw(6) as usize;
            let n = draw(pick(&[6, 40, 300]));
            format!("{}{}", &"abcdef"[..k], c.repeat(n as usize)).into_bytes()
        }
        3 => pick(&["MQTT", "MQIsdp", "MQTt", "MQTT5", "#", "+/#", "$share/a/b", "/", "$SYS", "%s%n{}", "a\u{0}b", "\n", "\u{202e}"]).as_bytes().to_vec(),
        4 => gen::text_of(pick(&[1, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1023]), draw(1 << 16)).into_bytes(),
        _ => gen::text_of(draw(5) as usize, draw(1 << 16)).into_bytes(),
    }
}

/// one change that knows the structure; lengths around it stay right unless
/// they are what changes
fn change(t: &mut Vec<Node>, h: &mut u8) -> Lie {
    let nblocks = t.iter().filter(|n| matches!(n, Node::Block(_))).count();
    let block = |t: &mut Vec<Node>| -> usize {
        let k = draw(nblocks as u32) as usize;
        t.iter().enumerate().filter(|(_, n)| matches!(n, Node::Block(_))).nth(k).unwrap().0
    };
    match draw(13) {
        // properties
        0..=3 if nblocks > 0 => {
            let b = block(t);
            let Node::Block(ps) = &mut t[b] else { return None };
            let n = ps.len() as u32;
            match draw(6) {
                // another property, known or not, anywhere in the block
                0..=2 => {
                    let id = if one_in(4) { draw(256) as u8 } else { pick(refcodec::ALL_PROPS) };
                    let x = any_prop(id);
                    let p = Prop { id, val: vec![Node::Raw(x[1..].to_vec())] };
                    ps.insert(draw(n + 1) as usize, p);
                }
                3 if n > 0 => {
                    ps.remove(draw(n) as usize);
                }
                4 if n > 0 => {
                    let p = ps[draw(n) as usize].clone();
                    ps.insert(draw(n + 1) as usize, p);
                }
                // the value stays, the meaning changes
                _ if n > 0 => ps[draw(n) as usize].id = if coin() { draw(256) as u8 } else { pick(refcodec::ALL_PROPS) },
                _ => ps.push(Prop { id: draw(256) as u8, val: vec![] }),
            }
        }
        // contents
        4..=6 => {
            let mut l = leaves(t);
            if l.is_empty() {
                return None;
            }
            let i = draw(l.len() as u32) as usize;
            match &mut *l[i] {
                Node::Text(b) => match draw(4) {
                    0 | 1 => {
                        let bad = BAD[draw(BAD.len() as u32) as usize];
                        let at = draw(b.len() as u32 + 1) as usize;
                        b.splice(at..at, bad.iter().copied());
                    }
                    2 if !b.is_empty() => {
                        let at = draw(b.len() as u32) as usize;
                        b.truncate(at);
                    }
                    _ => *b = strange(),
                },
                Node::Raw(b) if !b.is_empty() => {
                    let at = draw(b.len() as u32) as usize;
                    match draw(3) {
                        0 => b[at] ^= 1 << draw(8),
                        1 => b[at] = pick(&[0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x81, 0x10]),
                        _ => b[at] = draw(256) as u8,
                    }
                }
                Node::Rest(b) => b.clear(),
                _ => {}
            }
        }
        // pieces
        7 if !t.is_empty() => {
            t.remove(draw(t.len() as u32) as usize);
        }
        8 if !t.is_empty() => {
            let x = t[draw(t.len() as u32) as usize].clone();
            t.insert(draw(t.len() as u32 + 1) as usize, x);
        }
        9 if !t.is_empty() => {
            t.truncate(draw(t.len() as u32) as usize);
        }
        10 if t.len() > 1 => {
            let i = draw(t.len() as u32 - 1) as usize;
            t.swap(i, i + 1);
        }
        // lengths
        11 | 12 => {
            let n = lengths(t);
            if n > 0 {
                let d = match draw(4) {
                    0 => 1,
                    1 => -1,
                    2 => 1 + draw(20) as i64,
                    _ => pick(&[127i64, 128, 16384, 65535, 2_097_152, -2, -3]),
                };
                return Some((draw(n as u32) as usize, d));
            }
        }
        _ => *h = (*h & 0xf0) | draw(16) as u8,
    }
    None
}

/// structural damage, the outer length stays right
pub fn damage(v: u8, f: &[u8]) -> Vec<u8> {
    let (mut h, body) = parts(f);
    let Some(mut t) = dissect(v, h, &body) else { return f.to_vec() };
    let mut lie = None;
    for _ in 0..1 + draw(2) {
        lie = change(&mut t, &mut h).or(lie);
    }
    fault(F::Malformed);
    frame(h, &render(&t, lie))
}
