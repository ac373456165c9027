//! Constants of the library's sources that were not there when the checks
//! were made. They only guide the choice of values (sizes, numbers, texts),
//! nothing is judged by them. On the tree the checks were made for there are
//! none.

use std::collections::BTreeMap;
use std::path::Path;
use std::sync::{Mutex, OnceLock};

#[derive(Default, Clone)]
pub struct Words {
    pub numbers: Vec<u32>,
    pub texts: Vec<String>,
}

static BASE: &str = include_str!("words.txt");
static WORDS: OnceLock<Words> = OnceLock::new();
static GIVEN: Mutex<Option<Words>> = Mutex::new(None);

/// numbers, and what follows from them and their neighbours by calculation
fn numbers(l: &str, out: &mut Vec<u64>) {
    let b = l.as_bytes();
    let mut i = 0;
    // value and operator in front of the next one
    let mut last: Option<(u64, u8)> = None;
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_alphabetic() || c == b'_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            last = None;
            continue;
        }
        if c.is_ascii_digit() {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let t: String = l[s..i].chars().filter(|c| *c != '_').collect();
            let t = t.trim_end_matches("usize").trim_end_matches("u8").trim_end_matches("u16").trim_end_matches("u32").trim_end_matches("u64");
            let t = t.trim_end_matches("i32").trim_end_matches("i64");
            let v = if let Some(h) = t.strip_prefix("0x") {
                u64::from_str_radix(h, 16)
            } else if let Some(h) = t.strip_prefix("0b") {
                u64::from_str_radix(h, 2)
            } else {
                t.parse()
            };
            let Ok(v) = v else {
                last = None;
                continue;
            };
            out.push(v);
            let r = match last {
                Some((a, b'*')) => a.checked_mul(v),
                Some((a, b'<')) if v < 63 => a.checked_shl(v as u32),
                Some((a, b'+')) => a.checked_add(v),
                Some((a, b'-')) => a.checked_sub(v),
                _ => None,
            };
            if let Some(r) = r {
                out.push(r);
            }
            last = Some((r.unwrap_or(v), 0));
            continue;
        }
        if c != b' ' {
            last = match (last, c) {
                (Some((v, 0)), b'*' | b'+' | b'-' | b'<') => Some((v, c)),
                (Some((v, b'<')), b'<') => Some((v, b'<')),
                _ => None,
            };
        }
        i += 1;
    }
}

/// the character an escape stands for
fn escape(c: &mut std::iter::Peekable<std::str::Chars>, high: &mut bool) -> char {
    let hex = |t: String| u32::from_str_radix(&t, 16).ok().and_then(char::from_u32).unwrap_or('?');
    match c.next() {
        Some('n') => '\n',
        Some('r') => '\r',
        Some('t') => '\t',
        Some('0') => '\0',
        Some('x') => {
            let x = hex(c.by_ref().take(2).collect());
            *high |= x > '\x7f';
            x
        }
        Some('u') => {
            c.next();
            hex(c.by_ref().take_while(|x| *x != '}').collect())
        }
        z => z.unwrap_or('?'),
    }
}

/// what is between quotes, and the line without it
fn texts(l: &str, out: &mut Vec<String>) -> String {
    let mut rest = String::new();
    let mut c = l.chars().peekable();
    let mut bytes = false;
    while let Some(x) = c.next() {
        match x {
            '/' if c.peek() == Some(&'/') => break,
            '"' => {
                let mut t: Vec<u8> = vec![];
                let mut put = |c: char| t.extend(c.encode_utf8(&mut [0; 4]).bytes());
                while let Some(y) = c.next() {
                    match y {
                        '"' => break,
                        '\\' => put(escape(&mut c, &mut bytes)),
                        y => put(y),
                    }
                }
                // \xNN in a byte string is a byte
                let mut t = String::from_utf8_lossy(&t).into_owned();
                if std::mem::take(&mut bytes) {
                    let b: Vec<u8> = t.chars().map(|c| c as u8).collect();
                    t = String::from_utf8(b).unwrap_or_default();
                }
                if !t.is_empty() && t.len() <= 40 {
                    out.push(t);
                }
                rest.push(';');
            }
            '\'' => {
                // a character, or a lifetime
                if c.peek() == Some(&'\\') {
                    c.next();
                    out.push(escape(&mut c, &mut false).to_string());
                    c.next();
                }
                let v: Vec<char> = c.clone().take(3).collect();
                if v.len() >= 2 && v[0] != '\\' && v[1] == '\'' {
                    out.push(v[0].to_string());
                    c.next();
                    c.next();
                }
                rest.push(';');
            }
            x => rest.push(x),
        }
    }
    rest
}

fn scan(dir: &Path, n: &mut Vec<u64>, t: &mut Vec<String>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    let mut p: Vec<_> = d.flatten().map(|e| e.path()).collect();
    p.sort();
    for p in p {
        if p.is_dir() {
            scan(&p, n, t);
        } else if p.extension().is_some_and(|e| e == "rs") {
            for l in std::fs::read_to_string(&p).unwrap_or_default().lines() {
                let l = texts(l, t);
                numbers(&l, n);
            }
        }
    }
}

fn count<T: Ord + Clone>(v: &[T]) -> BTreeMap<T, u32> {
    let mut m = BTreeMap::new();
    for x in v {
        *m.entry(x.clone()).or_insert(0) += 1;
    }
    m
}

fn all() -> (BTreeMap<u64, u32>, BTreeMap<String, u32>) {
    let (mut n, mut t) = (vec![], vec![]);
    let d = std::env::var("SIM_SOURCES").unwrap_or_else(|_| "/repo/src".into());
    scan(Path::new(&d), &mut n, &mut t);
    (count(&n), count(&t))
}

/// the list as it is kept in words.txt
pub fn print() {
    let (n, t) = all();
    for (v, k) in n {
        println!("{} {}", k, v);
    }
    for (v, k) in t {
        println!("{} {:?}", k, v);
    }
}

fn load() -> Words {
    if let Ok(g) = GIVEN.lock() {
        if let Some(w) = g.clone() {
            return w;
        }
    }
    let mut base: BTreeMap<&str, u32> = BTreeMap::new();
    for l in BASE.lines() {
        if let Some((k, v)) = l.split_once(' ') {
            base.insert(v, k.parse().unwrap_or(0));
        }
    }
    let more = |v: &str, k: u32| k > base.get(v).copied().unwrap_or(0);
    let (n, t) = all();
    let mut w = Words::default();
    for (v, k) in n {
        if v > 1 && v <= u32::MAX as u64 && more(&v.to_string(), k) {
            w.numbers.push(v as u32);
        }
    }
    for (v, k) in t {
        if more(&format!("{:?}", v), k) {
            // not a wildcard, texts are used as topics
            w.texts.push(v.chars().filter(|c| !matches!(c, '+' | '#' | '\0')).collect());
        }
    }
    // a tree that has little in common with the one the list was made from
    w.numbers.truncate(200);
    w.texts.truncate(200);
    w
}

pub fn get() -> &'static Words {
    WORDS.get_or_init(load)
}

/// in a recorded failure
pub fn line() -> String {
    let w = get();
    if w.numbers.is_empty() && w.texts.is_empty() {
        return String::new();
    }
    let n: Vec<String> = w.numbers.iter().map(|x| x.to_string()).collect();
    let t: Vec<String> = w.texts.iter().map(|x| x.bytes().map(|b| format!("{:02x}", b)).collect()).collect();
    format!("words={};{}\n", n.join(" "), t.join(" "))
}

/// the ones of a recorded failure
pub fn set(l: &str) {
    let (n, t) = l.split_once(';').unwrap_or((l, ""));
    let hex = |s: &str| -> String {
        let b: Vec<u8> = (0..s.len() / 2).filter_map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect();
        String::from_utf8_lossy(&b).into_owned()
    };
    let w = Words {
        numbers: n.split_whitespace().filter_map(|x| x.parse().ok()).collect(),
        texts: t.split_whitespace().map(hex).collect(),
    };
    if let Ok(mut g) = GIVEN.lock() {
        *g = Some(w);
    }
}
