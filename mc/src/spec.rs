//! Independent reference of the CESR code tables and encodings (written from the CESR
//! specification's master code tables, not from the library's code).

pub const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

pub fn b64v(c: u8) -> Option<u32> {
    match c {
        b'A'..=b'Z' => Some((c - b'A') as u32),
        b'a'..=b'z' => Some((c - b'a') as u32 + 26),
        b'0'..=b'9' => Some((c - b'0') as u32 + 52),
        b'-' => Some(62),
        b'_' => Some(63),
        _ => None,
    }
}

/// quadlets to triplets, exactly
pub fn dec4(text: &[u8]) -> Option<Vec<u8>> {
    if text.len() % 4 != 0 {
        return None;
    }
    let mut out = Vec::with_capacity(text.len() / 4 * 3);
    for q in text.chunks(4) {
        let v = (b64v(q[0])? << 18) | (b64v(q[1])? << 12) | (b64v(q[2])? << 6) | b64v(q[3])?;
        out.extend_from_slice(&[(v >> 16) as u8, (v >> 8) as u8, v as u8]);
    }
    Some(out)
}

/// triplets to quadlets, exactly
pub fn enc3(bytes: &[u8]) -> String {
    assert!(bytes.len() % 3 == 0);
    let mut out = Vec::with_capacity(bytes.len() / 3 * 4);
    for t in bytes.chunks(3) {
        let v = ((t[0] as u32) << 16) | ((t[1] as u32) << 8) | t[2] as u32;
        for s in [18, 12, 6, 0] {
            out.push(B64[((v >> s) & 63) as usize]);
        }
    }
    String::from_utf8(out).unwrap()
}

pub fn b64n(mut n: u64, len: usize) -> String {
    let mut out = vec![b'A'; len];
    for i in (0..len).rev() {
        out[i] = B64[(n & 63) as usize];
        n >>= 6;
    }
    assert!(n == 0);
    String::from_utf8(out).unwrap()
}

pub fn nb64(text: &[u8]) -> Option<u64> {
    let mut n = 0u64;
    for c in text {
        n = (n << 6) | b64v(*c)? as u64;
    }
    Some(n)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct MC {
    pub code: &'static str,
    pub ss: usize,
    /// full size; 0 when the size is variable
    pub fs: usize,
    pub ls: usize,
}

impl MC {
    pub fn hs(&self) -> usize {
        self.code.len()
    }
    pub fn cs(&self) -> usize {
        self.hs() + self.ss
    }
    /// raw size of fixed codes
    pub fn raw(&self) -> usize {
        assert!(self.fs != 0);
        (self.fs - self.cs()) * 3 / 4 - self.ls
    }
    pub fn var(&self) -> bool {
        self.fs == 0
    }
}

macro_rules! m {
    ($c:expr, $ss:expr, $fs:expr, $ls:expr) => {
        MC { code: $c, ss: $ss, fs: $fs, ls: $ls }
    };
}

pub const MATTER: &[MC] = &[
    m!("A", 0, 44, 0),
    m!("B", 0, 44, 0),
    m!("C", 0, 44, 0),
    m!("D", 0, 44, 0),
    m!("E", 0, 44, 0),
    m!("F", 0, 44, 0),
    m!("G", 0, 44, 0),
    m!("H", 0, 44, 0),
    m!("I", 0, 44, 0),
    m!("J", 0, 44, 0),
    m!("K", 0, 76, 0),
    m!("L", 0, 76, 0),
    m!("M", 0, 4, 0),
    m!("N", 0, 12, 0),
    m!("O", 0, 44, 0),
    m!("P", 0, 124, 0),
    m!("Q", 0, 44, 0),
    m!("0A", 0, 24, 0),
    m!("0B", 0, 88, 0),
    m!("0C", 0, 88, 0),
    m!("0D", 0, 88, 0),
    m!("0E", 0, 88, 0),
    m!("0F", 0, 88, 0),
    m!("0G", 0, 88, 0),
    m!("0H", 0, 8, 0),
    m!("0I", 0, 88, 0),
    m!("1AAA", 0, 48, 0),
    m!("1AAB", 0, 48, 0),
    m!("1AAC", 0, 80, 0),
    m!("1AAD", 0, 80, 0),
    m!("1AAE", 0, 56, 0),
    m!("1AAF", 0, 8, 0),
    m!("1AAG", 0, 36, 0),
    m!("1AAH", 0, 100, 0),
    m!("1AAI", 0, 48, 0),
    m!("1AAJ", 0, 48, 0),
    m!("2AAA", 0, 8, 1),
    m!("3AAA", 0, 8, 2),
    m!("4A", 2, 0, 0),
    m!("5A", 2, 0, 1),
    m!("6A", 2, 0, 2),
    m!("7AAA", 4, 0, 0),
    m!("8AAA", 4, 0, 1),
    m!("9AAA", 4, 0, 2),
    m!("4B", 2, 0, 0),
    m!("5B", 2, 0, 1),
    m!("6B", 2, 0, 2),
    m!("7AAB", 4, 0, 0),
    m!("8AAB", 4, 0, 1),
    m!("9AAB", 4, 0, 2),
];

pub fn mc(code: &str) -> Option<&'static MC> {
    MATTER.iter().find(|m| m.code == code)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct M {
    pub code: String,
    pub size: u32,
    pub raw: Vec<u8>,
    pub fs: usize,
}

/// the code, as written, that carries `raw` of code `code`
pub fn m_resolve(code: &str, len: usize) -> Option<M0> {
    let c = mc(code)?;
    if !c.var() {
        if len < c.raw() {
            return None;
        }
        return Some(M0 { code: c.code.into(), size: 0, len: c.raw(), fs: c.fs, ls: c.ls });
    }
    let ls = (3 - len % 3) % 3;
    let size = (len + ls) / 3;
    let kind = &c.code[c.code.len() - 1..];
    let large = c.code.len() == 4 || size > 4095;
    if size >= 1 << 24 {
        return None;
    }
    let (code, cs) = if large {
        (format!("{}AA{kind}", ["7", "8", "9"][ls]), 8)
    } else {
        (format!("{}{kind}", ["4", "5", "6"][ls]), 4)
    };
    Some(M0 { code, size: size as u32, len, fs: cs + size * 4, ls })
}

pub struct M0 {
    pub code: String,
    pub size: u32,
    pub len: usize,
    pub fs: usize,
    pub ls: usize,
}

/// body of text: raw with `ps` pad characters' worth of leading zeros removed, or lead bytes
fn body(cs: usize, ls: usize, raw: &[u8]) -> String {
    let ps = cs % 4;
    let mut b = vec![0u8; if ps != 0 { ps } else { ls }];
    b.extend_from_slice(raw);
    enc3(&b)[ps..].to_string()
}

/// (code, size, raw) and its text form
pub fn m_encode(code: &str, raw: &[u8]) -> Option<(M, String)> {
    let m = m_resolve(code, raw.len())?;
    let raw = &raw[..m.len];
    let c = mc(&m.code).unwrap();
    let head = format!("{}{}", m.code, if c.var() { b64n(m.size as u64, c.ss) } else { String::new() });
    let text = format!("{head}{}", body(head.len(), m.ls, raw));
    assert_eq!(text.len(), m.fs);
    Some((M { code: m.code, size: m.size, raw: raw.to_vec(), fs: m.fs }, text))
}

/// Reads the primitive at the start of a text, strictly.
pub fn m_parse(text: &[u8]) -> Option<M> {
    let first = *text.first()?;
    let hs = match first {
        b'A'..=b'Z' | b'a'..=b'z' => 1,
        b'0' | b'4' | b'5' | b'6' => 2,
        b'1' | b'2' | b'3' | b'7' | b'8' | b'9' => 4,
        _ => return None,
    };
    let hard = std::str::from_utf8(text.get(..hs)?).ok()?;
    let c = mc(hard)?;
    let cs = c.cs();
    let (size, fs) = if c.var() {
        let n = nb64(text.get(hs..cs)?)? as usize;
        (n, cs + 4 * n)
    } else {
        (0, c.fs)
    };
    let t = text.get(..fs)?;
    let ps = cs % 4;
    let mut q = vec![b'A'; ps];
    q.extend_from_slice(&t[cs..]);
    let d = dec4(&q)?;
    let lead = if ps != 0 { ps } else { c.ls };
    if d.len() < lead || d[..lead].iter().any(|b| *b != 0) {
        return None;
    }
    Some(M { code: hard.into(), size: size as u32, raw: d[lead..].to_vec(), fs })
}

/// Reads the primitive at the start of a binary stream: the text rule on the converted bytes.
pub fn m_parse_bin(bin: &[u8]) -> Option<M> {
    m_parse(whole_text(bin).as_bytes())
}

/// the characters fully contained in the bytes
pub fn whole_text(bin: &[u8]) -> String {
    let n = bin.len() * 8 / 6;
    let mut b = bin.to_vec();
    while b.len() % 3 != 0 {
        b.push(0);
    }
    // only whole triplets carry whole primitives; keep the characters that are complete
    let mut t = enc3(&b);
    t.truncate(n);
    t
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct IC {
    pub code: &'static str,
    pub ss: usize,
    pub os: usize,
    pub fs: usize,
    pub ls: usize,
    /// 0 both lists, 1 current list only, 2 neither family (test codes)
    pub kind: u8,
}

impl IC {
    pub fn cs(&self) -> usize {
        self.code.len() + self.ss
    }
    pub fn ms(&self) -> usize {
        self.ss - self.os
    }
    pub fn raw(&self, index: u32) -> usize {
        let fs = if self.fs == 0 { index as usize * 4 + self.cs() } else { self.fs };
        (fs - self.cs()) * 3 / 4 - self.ls
    }
}

macro_rules! i {
    ($c:expr, $ss:expr, $os:expr, $fs:expr, $ls:expr, $k:expr) => {
        IC { code: $c, ss: $ss, os: $os, fs: $fs, ls: $ls, kind: $k }
    };
}

pub const INDEXER: &[IC] = &[
    i!("A", 1, 0, 88, 0, 0),
    i!("B", 1, 0, 88, 0, 1),
    i!("C", 1, 0, 88, 0, 0),
    i!("D", 1, 0, 88, 0, 1),
    i!("E", 1, 0, 88, 0, 0),
    i!("F", 1, 0, 88, 0, 1),
    i!("0A", 2, 1, 156, 0, 0),
    i!("0B", 2, 1, 156, 0, 1),
    i!("2A", 4, 2, 92, 0, 0),
    i!("2B", 4, 2, 92, 0, 1),
    i!("2C", 4, 2, 92, 0, 0),
    i!("2D", 4, 2, 92, 0, 1),
    i!("2E", 4, 2, 92, 0, 0),
    i!("2F", 4, 2, 92, 0, 1),
    i!("3A", 6, 3, 160, 0, 0),
    i!("3B", 6, 3, 160, 0, 1),
    i!("0z", 2, 0, 0, 0, 2),
    i!("1z", 2, 1, 76, 1, 2),
    i!("4z", 6, 3, 80, 1, 2),
];

pub fn ic(code: &str) -> Option<&'static IC> {
    INDEXER.iter().find(|m| m.code == code)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct I {
    pub code: String,
    pub index: u32,
    pub ondex: u32,
    pub raw: Vec<u8>,
    pub fs: usize,
}

/// What an indexed primitive built from these parts must be, or None when it cannot exist.
pub fn i_build(code: &str, raw: &[u8], index: u32, ondex: Option<u32>) -> Option<I> {
    let c = ic(code)?;
    if index as u64 >= 1u64 << (6 * c.ms()) {
        return None;
    }
    let ondex = match (c.kind, ondex) {
        (1, Some(_)) => return None,
        (1, None) => 0,
        (_, Some(o)) => {
            if c.os == 0 && o != index {
                return None;
            }
            if c.os > 0 && o as u64 >= 1u64 << (6 * c.os) {
                return None;
            }
            o
        }
        (0, None) => index,
        (_, None) => 0,
    };
    if c.os > 0 && ondex as u64 >= 1u64 << (6 * c.os) {
        return None;
    }
    let n = c.raw(index);
    if raw.len() < n {
        return None;
    }
    let fs = if c.fs == 0 { index as usize * 4 + c.cs() } else { c.fs };
    Some(I { code: code.into(), index, ondex, raw: raw[..n].to_vec(), fs })
}

pub fn i_text(i: &I) -> String {
    let c = ic(&i.code).unwrap();
    let head = format!(
        "{}{}{}",
        i.code,
        b64n(i.index as u64, c.ms()),
        b64n(if c.os == 0 { 0 } else { i.ondex as u64 }, c.os)
    );
    let t = format!("{head}{}", body(head.len(), c.ls, &i.raw));
    assert_eq!(t.len(), i.fs);
    t
}

pub fn i_parse(text: &[u8]) -> Option<I> {
    let first = *text.first()?;
    let hs = match first {
        b'A'..=b'Z' | b'a'..=b'z' => 1,
        b'0'..=b'4' => 2,
        _ => return None,
    };
    let hard = std::str::from_utf8(text.get(..hs)?).ok()?;
    let c = ic(hard)?;
    let cs = c.cs();
    let index = nb64(text.get(hs..hs + c.ms())?)? as u32;
    let odx = nb64(text.get(hs + c.ms()..cs)?)? as u32;
    let ondex = match c.kind {
        1 if odx != 0 => return None,
        1 => 0,
        _ if c.os == 0 => index,
        _ => odx,
    };
    let fs = if c.fs == 0 { index as usize * 4 + cs } else { c.fs };
    let t = text.get(..fs)?;
    let ps = cs % 4;
    let mut q = vec![b'A'; ps];
    q.extend_from_slice(&t[cs..]);
    let d = dec4(&q)?;
    let lead = if ps != 0 { ps } else { c.ls };
    if d.len() < lead || d[..lead].iter().any(|b| *b != 0) {
        return None;
    }
    Some(I { code: hard.into(), index, ondex, raw: d[lead..].to_vec(), fs })
}

pub fn i_parse_bin(bin: &[u8]) -> Option<I> {
    i_parse(whole_text(bin).as_bytes())
}

/// count codes: (code, soft size)
pub const COUNTER: &[(&str, usize)] = &[
    ("-A", 2),
    ("-B", 2),
    ("-C", 2),
    ("-D", 2),
    ("-E", 2),
    ("-F", 2),
    ("-G", 2),
    ("-H", 2),
    ("-I", 2),
    ("-J", 2),
    ("-K", 2),
    ("-L", 2),
    ("-V", 2),
    ("-0V", 5),
    ("--AAA", 3),
];

pub fn c_text(code: &str, count: u64) -> Option<String> {
    let (_, ss) = COUNTER.iter().find(|c| c.0 == code)?;
    if count >= 1 << (6 * ss) {
        return None;
    }
    Some(format!("{code}{}", b64n(count, *ss)))
}

pub fn c_parse(text: &[u8]) -> Option<(String, u32, usize)> {
    let hs = match text.get(..2)? {
        b"-0" => 3,
        b"--" => 5,
        [b'-', _] => 2,
        _ => return None,
    };
    let hard = std::str::from_utf8(text.get(..hs)?).ok()?;
    let (c, ss) = COUNTER.iter().find(|c| c.0 == hard)?;
    let n = nb64(text.get(hs..hs + ss)?)?;
    Some((c.to_string(), n as u32, hs + ss))
}

pub fn c_parse_bin(bin: &[u8]) -> Option<(String, u32, usize)> {
    c_parse(whole_text(bin).as_bytes())
}

pub const DIGESTS: &[&str] = &["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
pub const NONTRANS: &[&str] = &["B", "1AAA", "1AAC", "1AAI"];

pub fn digest(code: &str, data: &[u8]) -> Option<Vec<u8>> {
    use blake2::digest::consts::{U32, U64};
    use sha2::Digest;
    Some(match code {
        "E" => blake3::hash(data).as_bytes().to_vec(),
        "0D" => {
            let mut h = blake3::Hasher::new();
            h.update(data);
            let mut out = vec![0u8; 64];
            h.finalize_xof().fill(&mut out);
            out
        }
        "F" => blake2::Blake2b::<U32>::digest(data).to_vec(),
        "0E" => blake2::Blake2b::<U64>::digest(data).to_vec(),
        "G" => blake2::Blake2s::<U32>::digest(data).to_vec(),
        "H" => sha3::Sha3_256::digest(data).to_vec(),
        "0F" => sha3::Sha3_512::digest(data).to_vec(),
        "I" => sha2::Sha256::digest(data).to_vec(),
        "0G" => sha2::Sha512::digest(data).to_vec(),
        _ => return None,
    })
}

/// deterministic filler
pub fn filler(n: usize, seed: u64) -> Vec<u8> {
    let mut s = seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
    (0..n)
        .map(|_| {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            (s >> 32) as u8
        })
        .collect()
}
