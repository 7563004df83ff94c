//! A key event log twice over: a reference that works on bytes with its own codec, arithmetic and
//! cryptography, and the validator somebody would write with the library's primitives.
use super::c09;
use super::c13::{reaches, reduce};
use super::c15::KEYS;
use super::c17::addressed;
use super::docs::*;
use super::types::es;
use crate::spec;
use cesride::data::Value;
use cesride::{indexer, Cigar, Counter, Diger, Indexer, Matter, Number, Prefixer, Sadder, Saider, Seqner, Serder, Siger, Tholder, Verfer};
use serde_json::{Map, Value as J};
use std::collections::BTreeSet;

/// What the log has come to. Both validators must agree on it.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct View {
    pub pre: String,
    pub sn: u128,
    pub said: String,
    pub keys: Vec<String>,
    pub digs: Vec<String>,
    pub wits: Vec<String>,
    pub toad: u128,
    /// the delegator
    pub boss: String,
}

/// The log of a delegator, as far as it has been accepted.
#[derive(Clone, Debug, Default)]
pub struct Boss {
    pub pre: String,
    pub events: Vec<Vec<u8>>,
}

// ---------------------------------------------------------------- reference

/// a threshold: a count, or clauses of weights
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    N(u128),
    W(Vec<Vec<(u128, u128)>>),
}

fn weight(t: &str) -> Option<(u128, u128)> {
    let (n, d) = t.split_once('/').unwrap_or((t, "1"));
    let (n, d) = (n.parse::<u128>().ok()?, d.parse::<u128>().ok()?);
    (d > 0 && n <= d).then(|| reduce((n, d)))
}

pub fn threshold(j: &J) -> Option<T> {
    match j {
        J::String(s) => (!s.is_empty() && s.len() <= 8 && s.bytes().all(|c| c.is_ascii_hexdigit())).then(|| u128::from_str_radix(s, 16).unwrap()).map(T::N),
        J::Number(n) => n.as_u64().map(|n| T::N(n as u128)),
        J::Array(a) if !a.is_empty() => {
            let nested = a.iter().all(|c| c.is_array());
            let clauses: Vec<&[J]> = if nested { a.iter().map(|c| c.as_array().unwrap().as_slice()).collect() } else { vec![a.as_slice()] };
            let mut out = vec![];
            for c in clauses {
                let w: Vec<(u128, u128)> = c.iter().map(|w| w.as_str().and_then(weight)).collect::<Option<_>>()?;
                if !reaches(&w)? {
                    return None;
                }
                out.push(w);
            }
            Some(T::W(out))
        }
        _ => None,
    }
}

impl T {
    fn size(&self) -> u128 {
        match self {
            T::N(n) => *n,
            T::W(c) => c.iter().map(|c| c.len() as u128).sum(),
        }
    }
    pub fn met(&self, by: &BTreeSet<u32>) -> bool {
        match self {
            T::N(n) => *n > 0 && by.len() as u128 >= *n,
            T::W(c) => {
                if by.iter().any(|i| *i as u128 >= self.size()) {
                    return false;
                }
                let mut i = 0u32;
                c.iter().all(|c| {
                    let w: Vec<(u128, u128)> = c
                        .iter()
                        .filter(|_| {
                            i += 1;
                            by.contains(&(i - 1))
                        })
                        .cloned()
                        .collect();
                    reaches(&w).unwrap()
                })
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Log {
    pub view: View,
    kt: T,
    nt: T,
}

/// the suite of a key, and the key
fn key_of(t: &str) -> Option<(&'static str, Vec<u8>)> {
    let m = spec::m_parse(t.as_bytes())?;
    let s = match m.code.as_str() {
        "B" | "D" => "A",
        "1AAA" | "1AAB" => "J",
        "1AAI" | "1AAJ" => "Q",
        _ => return None,
    };
    Some((s, m.raw))
}

fn texts(d: &Map<String, J>, k: &str) -> Option<Vec<String>> {
    d.get(k)?.as_array()?.iter().map(|x| x.as_str().map(String::from)).collect()
}

fn text<'a>(d: &'a Map<String, J>, k: &str) -> Option<&'a str> {
    d.get(k)?.as_str()
}

/// the primitive at the start of a text; what follows it is the rest of a stream
fn front(t: &String) -> Option<String> {
    Some(t[..spec::m_parse(t.as_bytes())?.fs].to_string())
}

fn fronts(v: Vec<String>) -> Option<Vec<String>> {
    v.iter().map(front).collect()
}

fn hexn(t: &str) -> Option<u128> {
    if t.is_empty() {
        return Some(0);
    }
    let t = t.strip_prefix('+').unwrap_or(t);
    (!t.is_empty() && t.len() <= 32 && t.bytes().all(|c| c.is_ascii_hexdigit())).then(|| u128::from_str_radix(t, 16).unwrap())
}

fn distinct(v: &[String]) -> bool {
    v.iter().collect::<BTreeSet<_>>().len() == v.len()
}

/// what is attached to an event
#[derive(Default, Debug)]
struct Attached {
    sigs: Vec<spec::I>,
    wits: Vec<spec::I>,
    couples: Vec<(String, Vec<u8>)>,
    sources: Vec<(u128, String)>,
}

/// reads groups until the end of the bytes
fn attached(mut b: &[u8], out: &mut Attached, depth: u32) -> Option<()> {
    while !b.is_empty() {
        let bin = b[0] >= 0x80;
        let scale = |n: usize| if bin { n / 4 * 3 } else { n };
        let (code, n, fs) = if bin { spec::c_parse_bin(&b[..b.len().min(6)])? } else { spec::c_parse(b)? };
        let take = |b: &mut &[u8], fs: usize| -> Option<()> {
            *b = b.get(scale(fs)..)?;
            Some(())
        };
        take(&mut b, fs)?;
        // enough for any one primitive
        let whole = |b: &[u8]| if bin { spec::whole_text(&b[..b.len().min(300)]).into_bytes() } else { b[..b.len().min(400)].to_vec() };
        match code.as_str() {
            "-A" | "-B" => {
                for _ in 0..n {
                    let i = spec::i_parse(&whole(b))?;
                    take(&mut b, i.fs)?;
                    if !["A", "B", "C", "D", "E", "F", "2A", "2B", "2C", "2D", "2E", "2F"].contains(&i.code.as_str()) {
                        return None;
                    }
                    if code == "-A" {
                        out.sigs.push(i)
                    } else {
                        out.wits.push(i)
                    }
                }
            }
            "-C" => {
                for _ in 0..n {
                    let k = spec::m_parse(&whole(b))?;
                    if !KEYS.contains(&k.code.as_str()) {
                        return None;
                    }
                    let t = spec::m_encode(&k.code, &k.raw)?.1;
                    take(&mut b, k.fs)?;
                    let s = spec::m_parse(&whole(b))?;
                    if !["0B", "0C", "0I"].contains(&s.code.as_str()) {
                        return None;
                    }
                    take(&mut b, s.fs)?;
                    out.couples.push((t, s.raw));
                }
            }
            "-G" => {
                for _ in 0..n {
                    let s = spec::m_parse(&whole(b))?;
                    if s.code != "0A" {
                        return None;
                    }
                    take(&mut b, s.fs)?;
                    let d = spec::m_parse(&whole(b))?;
                    if !spec::DIGESTS.contains(&d.code.as_str()) {
                        return None;
                    }
                    take(&mut b, d.fs)?;
                    out.sources.push((u128::from_be_bytes(s.raw.try_into().ok()?), spec::m_encode(&d.code, &d.raw)?.1));
                }
            }
            "-V" | "-0V" if depth == 0 => {
                let n = n as usize * if bin { 3 } else { 4 };
                attached(b.get(..n)?, out, 1)?;
                b = &b[n..];
            }
            _ => return None,
        }
    }
    Some(())
}

/// whether an event of the delegator carries the seal of an event
fn anchored(boss: &Boss, sources: &[(u128, String)], seal: &[(&str, &str)]) -> bool {
    sources.iter().any(|(sn, said)| {
        let e: Option<J> = usize::try_from(*sn).ok().and_then(|n| boss.events.get(n)).and_then(|e| serde_json::from_slice(e).ok());
        match e {
            Some(e) if e["d"] == said.as_str() => e["a"].as_array().map_or(false, |a| {
                a.iter().any(|s| s.as_object().map_or(false, |s| s.len() == seal.len() && seal.iter().all(|(k, v)| s.get(*k).map_or(false, |x| x == v))))
            }),
            _ => false,
        }
    })
}

/// the log after a message, or None when the message must not be accepted
pub fn decide(log: Option<&Log>, boss: &Boss, msg: &[u8]) -> Option<Log> {
    let at = (0..=12).find(|k| rever(msg.get(*k..).unwrap_or(&[])).is_some())?;
    let (ident, a, b, kind, size) = rever(&msg[at..])?;
    if ident != "KERI" || (a, b) != (1, 0) || kind != "JSON" {
        return None;
    }
    let raw = msg.get(..size as usize)?;
    let doc: J = serde_json::from_str(std::str::from_utf8(raw).ok()?).ok()?;
    let d = doc.as_object()?;
    let said = text(d, "d")?.to_string();
    let pre = text(d, "i")?.to_string();
    let t = text(d, "t")?;
    let sn = hexn(text(d, "s")?)?;
    let est = t != "ixn";
    let labels: &[&str] = match t {
        "icp" => &["v", "t", "d", "i", "s", "kt", "k", "nt", "n", "bt", "b", "c", "a"],
        "rot" => &["v", "t", "d", "i", "s", "p", "kt", "k", "nt", "n", "bt", "br", "ba", "a"],
        "dip" => &["v", "t", "d", "i", "s", "kt", "k", "nt", "n", "bt", "b", "c", "a", "di"],
        "drt" => &["v", "t", "d", "i", "s", "p", "kt", "k", "nt", "n", "bt", "br", "ba", "a"],
        "ixn" => &["v", "t", "d", "i", "s", "p", "a"],
        _ => return None,
    };
    let (start, turn, under) = (t == "icp" || t == "dip", t == "rot" || t == "drt", t == "dip" || t == "drt");
    if d.keys().map(|k| k.as_str()).ne(labels.iter().copied()) {
        return None;
    }
    // content
    if start && pre == said {
        if addressed(d, "E")? != said {
            return None;
        }
        let again = sized(d)?;
        if again != *d {
            return None;
        }
    } else {
        let (s, again) = saidify(d, "E", "d", &[])?;
        if s != said || again != *d || again.keys().ne(d.keys()) {
            return None;
        }
    }
    // place
    match (t, log) {
        ("icp" | "dip", None) => {
            if sn != 0 || (under && pre != said) {
                return None;
            }
            if pre != said {
                let k = texts(d, "k")?;
                let (_, _) = key_of(&pre)?;
                if k.len() != 1 || k[0] != pre {
                    return None;
                }
                let code = spec::m_parse(pre.as_bytes())?.code;
                if ["B", "1AAA", "1AAI"].contains(&code.as_str()) && !super::c17::empty(d.get("n")) {
                    return None;
                }
            }
        }
        ("icp" | "dip", _) | (_, None) => return None,
        (_, Some(l)) => {
            if pre != l.view.pre || Some(sn) != l.view.sn.checked_add(1) || text(d, "p")? != l.view.said || l.view.digs.is_empty() {
                return None;
            }
            if turn && under == l.view.boss.is_empty() {
                return None;
            }
        }
    }
    // establishment
    let mut next = match log {
        Some(l) => l.clone(),
        None => Log { view: View { pre: pre.clone(), sn: 0, said: String::new(), keys: vec![], digs: vec![], wits: vec![], toad: 0, boss: String::new() }, kt: T::N(0), nt: T::N(0) },
    };
    next.view.sn = sn;
    next.view.said = said;
    if est {
        let keys = fronts(texts(d, "k")?)?;
        if keys.is_empty() || !distinct(&keys) || keys.iter().any(|k| key_of(k).is_none()) {
            return None;
        }
        let kt = threshold(&d["kt"])?;
        if kt.size() == 0 || kt.size() > keys.len() as u128 {
            return None;
        }
        let digs = fronts(if d["n"].is_array() { texts(d, "n")? } else { vec![] })?;
        let plain = |t: &String| spec::m_parse(t.as_bytes()).map(|m| spec::DIGESTS.contains(&m.code.as_str())).unwrap_or(false);
        if !distinct(&digs) || !digs.iter().all(plain) {
            return None;
        }
        let nt = threshold(&d["nt"])?;
        if nt.size() > digs.len() as u128 || (nt.size() == 0) != digs.is_empty() {
            return None;
        }
        let wits = if start {
            fronts(texts(d, "b")?)?
        } else {
            let (cut, add) = (fronts(texts(d, "br")?)?, fronts(texts(d, "ba")?)?);
            if !distinct(&cut) || !distinct(&add) || cut.iter().any(|c| !next.view.wits.contains(c)) || add.iter().any(|c| next.view.wits.contains(c)) {
                return None;
            }
            next.view.wits.iter().filter(|w| !cut.contains(w)).cloned().chain(add).collect()
        };
        if !distinct(&wits) || wits.iter().any(|k| key_of(k).is_none()) {
            return None;
        }
        let toad = hexn(text(d, "bt")?)?;
        if toad > wits.len() as u128 || (toad == 0) != wits.is_empty() {
            return None;
        }
        next.view.keys = keys;
        next.view.digs = digs;
        next.view.wits = wits;
        next.view.toad = toad;
        next.kt = kt;
        next.nt = nt;
    }
    // signatures
    let mut att = Attached::default();
    attached(&msg[size as usize..], &mut att, 0)?;
    let good = |keys: &[String], i: &spec::I| {
        keys.get(i.index as usize).and_then(|k| key_of(k)).map(|(s, k)| c09::verify(s, &k, &i.raw, raw)).unwrap_or(false)
    };
    let sigs: Vec<&spec::I> = att.sigs.iter().filter(|i| good(&next.view.keys, i)).collect();
    let by: BTreeSet<u32> = sigs.iter().map(|i| i.index).collect();
    if !next.kt.met(&by) {
        return None;
    }
    if turn {
        let old = log?;
        let shown: BTreeSet<u32> = sigs
            .iter()
            .filter(|i| spec::ic(&i.code).unwrap().kind == 0)
            .filter(|i| {
                old.view.digs.get(i.ondex as usize).map(|g| {
                    let m = spec::m_parse(g.as_bytes()).unwrap();
                    spec::digest(&m.code, next.view.keys[i.index as usize].as_bytes()) == Some(m.raw)
                }) == Some(true)
            })
            .map(|i| i.ondex)
            .collect();
        if !old.nt.met(&shown) {
            return None;
        }
    }
    let mut seen: BTreeSet<usize> = att.wits.iter().filter(|i| good(&next.view.wits, i)).map(|i| i.index as usize).collect();
    for (k, s) in &att.couples {
        if let Some(i) = next.view.wits.iter().position(|w| w == k) {
            let (suite, key) = key_of(k)?;
            if c09::verify(suite, &key, s, raw) {
                seen.insert(i);
            }
        }
    }
    if (seen.len() as u128) < next.view.toad {
        return None;
    }
    if t == "dip" {
        next.view.boss = text(d, "di")?.to_string();
    }
    if under {
        let hex = format!("{sn:x}");
        if boss.pre != next.view.boss || !anchored(boss, &att.sources, &[("i", &pre), ("s", &hex), ("d", &next.view.said)]) {
            return None;
        }
    }
    Some(next)
}

// ---------------------------------------------------------------- with the library

/// the state of a log as it is kept between messages
#[derive(Clone)]
pub struct Library {
    pre: String,
    sn: u128,
    said: String,
    keys: Vec<String>,
    kt: String,
    digs: Vec<String>,
    nt: Option<String>,
    wits: Vec<String>,
    toad: u128,
    boss: String,
}

/// the same while a message is validated
struct Live {
    pre: String,
    sn: u128,
    said: String,
    keys: Vec<Verfer>,
    kt: Tholder,
    digs: Vec<Diger>,
    nt: Option<Tholder>,
    wits: Vec<Verfer>,
    toad: u128,
    boss: String,
}

type E<T> = Result<T, String>;

fn no<T>(why: &str) -> E<T> {
    Err(why.to_string())
}

const CURRENT_ONLY: &[&str] = &[
    indexer::Codex::Ed25519_Crt,
    indexer::Codex::ECDSA_256k1_Crt,
    indexer::Codex::ECDSA_256r1_Crt,
    indexer::Codex::Ed25519_Big_Crt,
    indexer::Codex::ECDSA_256k1_Big_Crt,
    indexer::Codex::ECDSA_256r1_Big_Crt,
];
const NEXT_LIST: &[&str] = &[
    indexer::Codex::Ed25519,
    indexer::Codex::ECDSA_256k1,
    indexer::Codex::ECDSA_256r1,
    indexer::Codex::Ed25519_Big,
    indexer::Codex::ECDSA_256k1_Big,
    indexer::Codex::ECDSA_256r1_Big,
];

#[derive(Default)]
struct Found {
    sigs: Vec<Siger>,
    wits: Vec<Siger>,
    couples: Vec<(Verfer, Cigar)>,
    sources: Vec<(Seqner, Saider)>,
}

fn collect(b: &mut &[u8], end: &dyn Fn(&[u8]) -> bool, out: &mut Found, depth: u32) -> E<()> {
    while !end(b) {
        // cold start: text begins with a dash, binary has its high bit set
        let bin = b[0] >= 0x80;
        let mut skip = |b: &mut &[u8], n: usize| -> E<()> {
            let n = if bin { n / 4 * 3 } else { n };
            if n > b.len() {
                return no("short");
            }
            *b = &b[n..];
            Ok(())
        };
        let c = es(if bin { Counter::new_with_qb2(b) } else { Counter::new_with_qb64b(b) })?;
        skip(b, es(c.full_size())?)?;
        let siger = |b: &[u8]| es(if bin { Siger::new_with_qb2(b, None) } else { Siger::new_with_qb64b(b, None) });
        match c.code().as_str() {
            cesride::counter::Codex::ControllerIdxSigs => {
                for _ in 0..c.count() {
                    let s = siger(b)?;
                    skip(b, es(s.full_size())?)?;
                    out.sigs.push(s);
                }
            }
            cesride::counter::Codex::WitnessIdxSigs => {
                for _ in 0..c.count() {
                    let s = siger(b)?;
                    skip(b, es(s.full_size())?)?;
                    out.wits.push(s);
                }
            }
            cesride::counter::Codex::NonTransReceiptCouples => {
                for _ in 0..c.count() {
                    let v = es(if bin { Verfer::new_with_qb2(b) } else { Verfer::new_with_qb64b(b) })?;
                    skip(b, es(v.full_size())?)?;
                    let s = es(if bin { Cigar::new_with_qb2(b, Some(&v)) } else { Cigar::new_with_qb64b(b, Some(&v)) })?;
                    skip(b, es(s.full_size())?)?;
                    out.couples.push((v, s));
                }
            }
            cesride::counter::Codex::SealSourceCouples => {
                for _ in 0..c.count() {
                    let n = es(if bin { Seqner::new_with_qb2(b) } else { Seqner::new_with_qb64b(b) })?;
                    skip(b, es(n.full_size())?)?;
                    let d = es(if bin { Saider::new_with_qb2(b) } else { Saider::new_with_qb64b(b) })?;
                    skip(b, es(d.full_size())?)?;
                    out.sources.push((n, d));
                }
            }
            cesride::counter::Codex::AttachedMaterialQuadlets | cesride::counter::Codex::BigAttachedMaterialQuadlets if depth == 0 => {
                let n = c.count() as usize * if bin { 3 } else { 4 };
                if n > b.len() {
                    return no("short");
                }
                let mut inner = &b[..n];
                collect(&mut inner, &|b| b.is_empty(), out, 1)?;
                *b = &b[n..];
            }
            _ => return no("unexpected group"),
        }
    }
    Ok(())
}

fn field(k: &Value, l: &str) -> E<String> {
    match es(k.to_map())?.get(l) {
        Some(v) => es(v.to_string()),
        None => no("missing field"),
    }
}

fn list(k: &Value, l: &str) -> E<Vec<Verfer>> {
    match es(k.to_map())?.get(l) {
        Some(v) => es(v.to_vec())?.iter().map(|x| es(Verfer::new_with_qb64(&es(x.to_string())?))).collect(),
        None => no("missing field"),
    }
}

fn names<M: Matter>(v: &[M]) -> E<Vec<String>> {
    v.iter().map(|k| es(k.qb64())).collect()
}

fn tholder(t: &str) -> E<Tholder> {
    es(Tholder::new_with_sith(&Value::from(&serde_json::from_str::<serde_json::Value>(t).map_err(|e| e.to_string())?)))
}

impl Library {
    pub fn view(&self) -> E<View> {
        Ok(View {
            pre: self.pre.clone(),
            sn: self.sn,
            said: self.said.clone(),
            keys: self.keys.clone(),
            digs: self.digs.clone(),
            wits: self.wits.clone(),
            toad: self.toad,
            boss: self.boss.clone(),
        })
    }

    fn live(&self) -> E<Live> {
        Ok(Live {
            pre: self.pre.clone(),
            sn: self.sn,
            said: self.said.clone(),
            keys: self.keys.iter().map(|k| es(Verfer::new_with_qb64(k))).collect::<E<_>>()?,
            kt: tholder(&self.kt)?,
            digs: self.digs.iter().map(|k| es(Diger::new_with_qb64(k))).collect::<E<_>>()?,
            nt: self.nt.as_deref().map(tholder).transpose()?,
            wits: self.wits.iter().map(|k| es(Verfer::new_with_qb64(k))).collect::<E<_>>()?,
            toad: self.toad,
            boss: self.boss.clone(),
        })
    }

    fn kept(l: &Live) -> E<Self> {
        Ok(Library {
            pre: l.pre.clone(),
            sn: l.sn,
            said: l.said.clone(),
            keys: names(&l.keys)?,
            kt: es(l.kt.to_json())?,
            digs: names(&l.digs)?,
            nt: l.nt.as_ref().map(|t| es(t.to_json())).transpose()?,
            wits: names(&l.wits)?,
            toad: l.toad,
            boss: l.boss.clone(),
        })
    }

    /// Takes one message off the front of a stream and validates it.
    pub fn next(log: Option<&Library>, boss: &Boss, stream: &mut &[u8]) -> E<Library> {
        let serder = es(Serder::new_with_raw(stream))?;
        let raw = serder.raw();
        *stream = &stream[raw.len()..];
        let mut att = Found::default();
        // the next event starts with a brace
        collect(stream, &|b| b.is_empty() || b[0] == b'{', &mut att, 0)?;
        let live = log.map(|l| l.live()).transpose()?;
        Self::validate(live, boss, &serder, &att)
    }

    fn validate(log: Option<Live>, boss: &Boss, serder: &Serder, att: &Found) -> E<Library> {
        let ked = serder.ked();
        let said = es(serder.said())?;
        let pre = es(serder.pre())?;
        let ilk = field(&ked, "t")?;
        let sn = es(serder.sn())?;
        let labels: &[&str] = match ilk.as_str() {
            "icp" => &["v", "t", "d", "i", "s", "kt", "k", "nt", "n", "bt", "b", "c", "a"],
            "rot" => &["v", "t", "d", "i", "s", "p", "kt", "k", "nt", "n", "bt", "br", "ba", "a"],
            "dip" => &["v", "t", "d", "i", "s", "kt", "k", "nt", "n", "bt", "b", "c", "a", "di"],
            "drt" => &["v", "t", "d", "i", "s", "p", "kt", "k", "nt", "n", "bt", "br", "ba", "a"],
            "ixn" => &["v", "t", "d", "i", "s", "p", "a"],
            _ => return no("ilk"),
        };
        let ilk = ilk.as_str();
        let (start, turn, under) = (["icp", "dip"].contains(&ilk), ["rot", "drt"].contains(&ilk), ["dip", "drt"].contains(&ilk));
        if es(ked.to_map())?.keys().map(|k| k.as_str()).ne(labels.iter().copied()) {
            return no("labels");
        }
        if start && pre == said {
            if !es(es(Prefixer::new_with_qb64(&pre))?.verify(&ked, Some(true)))? {
                return no("prefix");
            }
            // the size the event states is its own
            let again = es(Serder::new_with_ked(&ked, None, None))?;
            if again.raw() != serder.raw() {
                return no("size");
            }
        } else if !es(serder.saider().verify(&ked, Some(true), None, None, None, None))? {
            return no("said");
        }
        match (ilk, &log) {
            ("icp" | "dip", None) => {
                if sn != 0 || (under && pre != said) {
                    return no("sn");
                }
                if pre != said && !es(es(Prefixer::new_with_qb64(&pre))?.verify(&ked, Some(true)))? {
                    return no("prefix");
                }
            }
            ("icp" | "dip", _) | (_, None) => return no("place"),
            (_, Some(l)) => {
                if pre != l.pre || sn != l.sn + 1 || field(&ked, "p")? != l.said || l.digs.is_empty() {
                    return no("chain");
                }
                if turn && under == l.boss.is_empty() {
                    return no("delegation");
                }
            }
        }
        // what a rotation is held against
        let old = log.as_ref().map(|l| (l.digs.clone(), l.nt.clone()));
        let mut next = match log {
            Some(l) => l,
            None => Live { pre, sn, said: said.clone(), keys: vec![], kt: Tholder::default(), digs: vec![], nt: None, wits: vec![], toad: 0, boss: String::new() },
        };
        next.sn = sn;
        next.said = said;
        if es(serder.est())? {
            next.keys = es(serder.verfers())?;
            next.kt = match es(serder.tholder())? {
                Some(t) => t,
                None => return no("threshold"),
            };
            let distinct = |v: &[String]| v.iter().collect::<BTreeSet<_>>().len() == v.len();
            if next.keys.is_empty() || !distinct(&names(&next.keys)?) || next.kt.size() == 0 || next.kt.size() as usize > next.keys.len() {
                return no("keys");
            }
            next.digs = es(serder.digers())?;
            let nt = match es(serder.ntholder())? {
                Some(t) => t,
                None => return no("next threshold"),
            };
            if !distinct(&names(&next.digs)?) || nt.size() as usize > next.digs.len() || (nt.size() == 0) != next.digs.is_empty() {
                return no("next keys");
            }
            next.nt = Some(nt);
            if start {
                next.wits = es(serder.werfers())?;
            } else {
                let (cut, add) = (list(&ked, "br")?, list(&ked, "ba")?);
                let (cut, add, now) = (names(&cut)?, names(&add)?, names(&next.wits)?);
                if !distinct(&cut) || !distinct(&add) || cut.iter().any(|c| !now.contains(c)) || add.iter().any(|c| now.contains(c)) {
                    return no("witnesses");
                }
                next.wits.retain(|w| !cut.contains(&w.qb64().unwrap()));
                next.wits.extend(list(&ked, "ba")?);
            }
            if !distinct(&names(&next.wits)?) {
                return no("witnesses");
            }
            next.toad = es(es(Number::new_with_numh(&field(&ked, "bt")?))?.num())?;
            if next.toad > next.wits.len() as u128 || (next.toad == 0) != next.wits.is_empty() {
                return no("witness threshold");
            }
        }
        let raw = serder.raw();
        let good = |keys: &[Verfer], s: &Siger| match keys.get(s.index() as usize) {
            Some(k) => matches!(k.verify(&s.raw(), &raw), Ok(true)),
            None => false,
        };
        let mut sigs = vec![];
        for s in &att.sigs {
            if good(&next.keys, s) {
                sigs.push(s);
            }
        }
        // one signature per key is what counts, however often it is attached
        let by: Vec<u32> = sigs.iter().map(|s| s.index()).collect();
        if !es(next.kt.satisfy(&by))? {
            return no("signatures");
        }
        if turn {
            let (digs, nt) = old.unwrap();
            let mut shown = vec![];
            for s in sigs {
                let code = s.code();
                if CURRENT_ONLY.contains(&code.as_str()) {
                    continue;
                }
                if !NEXT_LIST.contains(&code.as_str()) {
                    return no("signature code");
                }
                if let Some(g) = digs.get(s.ondex() as usize) {
                    if es(g.verify(&es(next.keys[s.index() as usize].qb64b())?))? {
                        shown.push(s.ondex());
                    }
                }
            }
            if !es(nt.unwrap().satisfy(&shown))? {
                return no("next keys not shown");
            }
        }
        let mut seen = BTreeSet::new();
        for s in &att.wits {
            if good(&next.wits, s) {
                seen.insert(s.index() as usize);
            }
        }
        let wits = names(&next.wits)?;
        for (v, c) in &att.couples {
            if c.verfer() != *v {
                return no("the receipt names another key");
            }
            if let Some(i) = wits.iter().position(|w| v.qb64().ok().as_ref() == Some(w)) {
                if matches!(c.verfer().verify(&c.raw(), &raw), Ok(true)) {
                    seen.insert(i);
                }
            }
        }
        if (seen.len() as u128) < next.toad {
            return no("witness signatures");
        }
        if ilk == "dip" {
            next.boss = field(&ked, "di")?;
        }
        if under && (boss.pre != next.boss || !Self::anchored(boss, att, &next, &es(serder.saider().qb64())?)?) {
            return no("the delegator's seal");
        }
        Self::kept(&next)
    }

    /// whether an event of the delegator carries the seal of this event
    fn anchored(boss: &Boss, att: &Found, next: &Live, said: &str) -> E<bool> {
        for (n, d) in &att.sources {
            let Some(e) = usize::try_from(es(n.sn())?).ok().and_then(|n| boss.events.get(n)) else { continue };
            let serder = es(Serder::new_with_raw(e))?;
            if es(serder.sn())? != es(n.sn())? || es(serder.said())? != es(d.qb64())? || es(serder.pre())? != boss.pre {
                continue;
            }
            let ked = es(serder.ked().to_map())?;
            for seal in es(ked["a"].to_vec())? {
                let Ok(m) = seal.to_map() else { continue };
                let is = |k: &str, v: &str| m.get(k).and_then(|x| x.to_string().ok()).as_deref() == Some(v);
                let snh = es(es(Number::new_with_num(next.sn))?.numh())?;
                if m.len() == 3 && is("i", &next.pre) && is("s", &snh) && is("d", said) {
                    return Ok(true);
                }
            }
        }
        Ok(false)
    }
}
