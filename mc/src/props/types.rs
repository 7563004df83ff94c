//! Uniform view of every primitive type of the library.
use crate::spec;
use cesride::*;

/// everything one can read off a primitive
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Snap {
    pub code: String,
    pub size: u32,
    pub raw: Vec<u8>,
    pub fs: usize,
    pub qb64: String,
    pub qb64b: Vec<u8>,
    pub qb2: Vec<u8>,
    pub digestive: bool,
    pub transferable: bool,
}

pub fn es<T>(r: cesride::Result<T>) -> std::result::Result<T, String> {
    r.map_err(|e| e.to_string())
}

pub fn snap<T: Matter>(t: &T) -> std::result::Result<Snap, String> {
    Ok(Snap {
        code: t.code(),
        size: t.size(),
        raw: t.raw(),
        fs: es(t.full_size())? as usize,
        qb64: es(t.qb64())?,
        qb64b: es(t.qb64b())?,
        qb2: es(t.qb2())?,
        digestive: t.digestive(),
        transferable: t.transferable(),
    })
}

/// what a primitive (code, raw) must look like from outside
pub fn expected(m: &spec::M, text: &str) -> Snap {
    Snap {
        code: m.code.clone(),
        size: m.size,
        raw: m.raw.clone(),
        fs: m.fs,
        qb64: text.to_string(),
        qb64b: text.as_bytes().to_vec(),
        qb2: spec::dec4(text.as_bytes()).unwrap(),
        digestive: spec::DIGESTS.contains(&m.code.as_str()),
        transferable: !spec::NONTRANS.contains(&m.code.as_str()),
    }
}

/// the bare Matter trait
#[derive(Default, Clone, Debug, PartialEq)]
pub struct TM {
    code: String,
    size: u32,
    raw: Vec<u8>,
}
impl Matter for TM {
    fn code(&self) -> String {
        self.code.clone()
    }
    fn size(&self) -> u32 {
        self.size
    }
    fn raw(&self) -> Vec<u8> {
        self.raw.clone()
    }
    fn set_code(&mut self, code: &str) {
        self.code = code.to_string();
    }
    fn set_size(&mut self, size: u32) {
        self.size = size;
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.raw = raw.to_vec();
    }
}

/// the bare Indexer trait
#[derive(Default, Clone, Debug, PartialEq)]
pub struct TI {
    code: String,
    raw: Vec<u8>,
    index: u32,
    ondex: u32,
}
impl Indexer for TI {
    fn code(&self) -> String {
        self.code.clone()
    }
    fn set_code(&mut self, code: &str) {
        self.code = code.to_string();
    }
    fn raw(&self) -> Vec<u8> {
        self.raw.clone()
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.raw = raw.to_vec();
    }
    fn index(&self) -> u32 {
        self.index
    }
    fn set_index(&mut self, index: u32) {
        self.index = index;
    }
    fn ondex(&self) -> u32 {
        self.ondex
    }
    fn set_ondex(&mut self, ondex: u32) {
        self.ondex = ondex;
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct ISnap {
    pub code: String,
    pub index: u32,
    pub ondex: u32,
    pub raw: Vec<u8>,
    pub fs: usize,
    pub qb64: String,
    pub qb64b: Vec<u8>,
    pub qb2: Vec<u8>,
}

pub fn isnap<T: Indexer>(t: &T) -> std::result::Result<ISnap, String> {
    Ok(ISnap {
        code: t.code(),
        index: t.index(),
        ondex: t.ondex(),
        raw: t.raw(),
        fs: es(t.full_size())?,
        qb64: es(t.qb64())?,
        qb64b: es(t.qb64b())?,
        qb2: es(t.qb2())?,
    })
}

pub fn iexpected(i: &spec::I) -> ISnap {
    let t = spec::i_text(i);
    ISnap {
        code: i.code.clone(),
        index: i.index,
        ondex: i.ondex,
        raw: i.raw.clone(),
        fs: i.fs,
        qb2: spec::dec4(t.as_bytes()).unwrap(),
        qb64b: t.as_bytes().to_vec(),
        qb64: t,
    }
}

type RS = std::result::Result<Snap, String>;
type RI = std::result::Result<ISnap, String>;

pub struct Ty {
    pub name: &'static str,
    pub codes: &'static [&'static str],
    pub raw: fn(&str, &[u8]) -> RS,
    pub qb64: fn(&str) -> RS,
    pub qb64b: fn(&[u8]) -> RS,
    pub qb2: fn(&[u8]) -> RS,
    /// through the general constructor
    pub new: fn(Option<&str>, Option<&[u8]>, Option<&[u8]>, Option<&str>, Option<&[u8]>) -> RS,
}

const ALL: &[&str] = &[
    "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "0A", "0B", "0C", "0D",
    "0E", "0F", "0G", "0H", "0I", "1AAA", "1AAB", "1AAC", "1AAD", "1AAE", "1AAF", "1AAG", "1AAH", "1AAI", "1AAJ",
    "2AAA", "3AAA", "4A", "5A", "6A", "7AAA", "8AAA", "9AAA", "4B", "5B", "6B", "7AAB", "8AAB", "9AAB",
];
const KEYS: &[&str] = &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"];
const PRES: &[&str] =
    &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ", "E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
const BEXT: &[&str] = &["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"];

fn s<T: Matter>(r: cesride::Result<T>) -> RS {
    snap(&es(r)?)
}

/// with the verification key, which it must give back
fn sc(f: impl FnOnce(Option<&Verfer>) -> cesride::Result<Cigar>) -> RS {
    let v = es(Verfer::new_with_raw(&[7; 32], Some("D")))?;
    let c = es(f(Some(&v)))?;
    if c.verfer() != v {
        return Err("gives back another verification key".into());
    }
    snap(&c)
}

fn isc(f: impl FnOnce(Option<&Verfer>) -> cesride::Result<Siger>) -> RI {
    let v = es(Verfer::new_with_raw(&[7; 32], Some("D")))?;
    let c = es(f(Some(&v)))?;
    if c.verfer() != v {
        return Err("gives back another verification key".into());
    }
    isnap(&c)
}

/// the key of a signer is not transferable
fn sn(r: cesride::Result<Signer>) -> RS {
    let x = es(r)?;
    if x.verfer().transferable() {
        return Err("the key is transferable".into());
    }
    snap(&x)
}

/// the salter has this tier
fn st(r: cesride::Result<Salter>) -> RS {
    let x = es(r)?;
    if x.tier() != "high" {
        return Err(format!("the tier is {}", x.tier()));
    }
    snap(&x)
}

pub const TYPES: &[Ty] = &[
    Ty {
        name: "Matter",
        codes: ALL,
        raw: |c, r| s(TM::new_with_code_and_raw(c, r)),
        qb64: |t| s(TM::new_with_qb64(t)),
        qb64b: |t| s(TM::new_with_qb64b(t)),
        qb2: |b| s(TM::new_with_qb2(b)),
        new: |c, r, a, t, b| s(<TM as Matter>::new(c, r, a, t, b)),
    },
    Ty {
        name: "Verfer",
        codes: KEYS,
        raw: |c, r| s(Verfer::new_with_raw(r, Some(c))),
        qb64: |t| s(Verfer::new_with_qb64(t)),
        qb64b: |t| s(Verfer::new_with_qb64b(t)),
        qb2: |b| s(Verfer::new_with_qb2(b)),
        new: |c, r, a, t, b| s(Verfer::new(c, r, a, t, b)),
    },
    Ty {
        name: "Diger",
        codes: spec::DIGESTS,
        raw: |c, r| s(Diger::new_with_raw(r, Some(c))),
        qb64: |t| s(Diger::new_with_qb64(t)),
        qb64b: |t| s(Diger::new_with_qb64b(t)),
        qb2: |b| s(Diger::new_with_qb2(b)),
        new: |c, r, a, t, b| s(Diger::new(None, c, r, a, t, b)),
    },
    Ty {
        name: "Saider",
        codes: spec::DIGESTS,
        raw: |c, r| s(Saider::new_with_raw(r, Some(c))),
        qb64: |t| s(Saider::new_with_qb64(t)),
        qb64b: |t| s(Saider::new_with_qb64b(t)),
        qb2: |b| s(Saider::new_with_qb2(b)),
        new: |c, r, a, t, b| s(Saider::new(None, None, None, None, c, r, a, t, b)),
    },
    Ty {
        name: "Prefixer",
        codes: PRES,
        raw: |c, r| s(Prefixer::new_with_raw(r, Some(c))),
        qb64: |t| s(Prefixer::new_with_qb64(t)),
        qb64b: |t| s(Prefixer::new_with_qb64b(t)),
        qb2: |b| s(Prefixer::new_with_qb2(b)),
        new: |c, r, a, t, b| s(Prefixer::new(None, None, c, r, a, t, b)),
    },
    Ty {
        name: "Cigar",
        codes: &["0B", "0C", "0I"],
        raw: |c, r| s(Cigar::new_with_raw(r, None, Some(c))),
        qb64: |t| s(Cigar::new_with_qb64(t, None)),
        qb64b: |t| s(Cigar::new_with_qb64b(t, None)),
        qb2: |b| s(Cigar::new_with_qb2(b, None)),
        new: |c, r, a, t, b| s(Cigar::new(None, c, r, a, t, b)),
    },
    Ty {
        name: "Cigar with a key",
        codes: &["0B", "0C", "0I"],
        raw: |c, r| sc(|v| Cigar::new_with_raw(r, v, Some(c))),
        qb64: |t| sc(|v| Cigar::new_with_qb64(t, v)),
        qb64b: |t| sc(|v| Cigar::new_with_qb64b(t, v)),
        qb2: |b| sc(|v| Cigar::new_with_qb2(b, v)),
        new: |c, r, a, t, b| sc(|v| Cigar::new(v, c, r, a, t, b)),
    },
    Ty {
        name: "Signer",
        codes: &["A", "J", "Q"],
        raw: |c, r| s(Signer::new_with_raw(r, None, Some(c))),
        qb64: |t| s(Signer::new_with_qb64(t, None)),
        qb64b: |t| s(Signer::new_with_qb64b(t, None)),
        qb2: |b| s(Signer::new_with_qb2(b, None)),
        new: |c, r, a, t, b| s(Signer::new(None, c, r, a, t, b)),
    },
    Ty {
        name: "Signer, not transferable",
        codes: &["A", "J", "Q"],
        raw: |c, r| sn(Signer::new_with_raw(r, Some(false), Some(c))),
        qb64: |t| sn(Signer::new_with_qb64(t, Some(false))),
        qb64b: |t| sn(Signer::new_with_qb64b(t, Some(false))),
        qb2: |b| sn(Signer::new_with_qb2(b, Some(false))),
        new: |c, r, a, t, b| sn(Signer::new(Some(false), c, r, a, t, b)),
    },
    Ty {
        name: "Salter",
        codes: &["0A"],
        raw: |c, r| s(Salter::new_with_raw(r, Some(c), None)),
        qb64: |t| s(Salter::new_with_qb64(t, None)),
        qb64b: |t| s(Salter::new_with_qb64b(t, None)),
        qb2: |b| s(Salter::new_with_qb2(b, None)),
        new: |c, r, a, t, b| s(Salter::new(None, c, r, a, t, b)),
    },
    Ty {
        name: "Salter of tier high",
        codes: &["0A"],
        raw: |c, r| st(Salter::new_with_raw(r, Some(c), Some("high"))),
        qb64: |t| st(Salter::new_with_qb64(t, Some("high"))),
        qb64b: |t| st(Salter::new_with_qb64b(t, Some("high"))),
        qb2: |b| st(Salter::new_with_qb2(b, Some("high"))),
        new: |c, r, a, t, b| st(Salter::new(Some("high"), c, r, a, t, b)),
    },
    Ty {
        name: "Seqner",
        codes: &["0A"],
        raw: |c, r| s(Seqner::new_with_raw(r, Some(c))),
        qb64: |t| s(Seqner::new_with_qb64(t)),
        qb64b: |t| s(Seqner::new_with_qb64b(t)),
        qb2: |b| s(Seqner::new_with_qb2(b)),
        new: |c, r, a, t, b| s(Seqner::new(None, None, c, r, a, t, b)),
    },
    Ty {
        name: "Number",
        codes: &["M", "0H", "N", "0A"],
        raw: |c, r| s(Number::new_with_raw(r, Some(c))),
        qb64: |t| s(Number::new_with_qb64(t)),
        qb64b: |t| s(Number::new_with_qb64b(t)),
        qb2: |b| s(Number::new_with_qb2(b)),
        new: |c, r, a, t, b| s(Number::new(None, None, c, r, a, t, b)),
    },
    Ty {
        name: "Dater",
        codes: &["1AAG"],
        raw: |c, r| s(Dater::new_with_raw(r, Some(c))),
        qb64: |t| s(Dater::new_with_qb64(t)),
        qb64b: |t| s(Dater::new_with_qb64b(t)),
        qb2: |b| s(Dater::new_with_qb2(b)),
        new: |c, r, a, t, b| s(Dater::new(None, c, r, a, t, b)),
    },
    Ty {
        name: "Bexter",
        codes: BEXT,
        raw: |c, r| s(Bexter::new_with_raw(r, Some(c))),
        qb64: |t| s(Bexter::new_with_qb64(t)),
        qb64b: |t| s(Bexter::new_with_qb64b(t)),
        qb2: |b| s(Bexter::new_with_qb2(b)),
        new: |c, r, a, t, b| s(Bexter::new(None, c, r, a, t, b)),
    },
    Ty {
        name: "Pather",
        codes: BEXT,
        raw: |c, r| s(Pather::new_with_raw(r, Some(c))),
        qb64: |t| s(Pather::new_with_qb64(t)),
        qb64b: |t| s(Pather::new_with_qb64b(t)),
        qb2: |b| s(Pather::new_with_qb2(b)),
        new: |c, r, a, t, b| s(Pather::new(None, None, c, r, a, t, b)),
    },
];

pub struct ITy {
    pub name: &'static str,
    pub codes: &'static [&'static str],
    pub raw: fn(&str, &[u8], u32, Option<u32>) -> RI,
    pub qb64: fn(&str) -> RI,
    pub qb64b: fn(&[u8]) -> RI,
    pub qb2: fn(&[u8]) -> RI,
}

fn i<T: Indexer>(r: cesride::Result<T>) -> RI {
    isnap(&es(r)?)
}

pub const ITYPES: &[ITy] = &[
    ITy {
        name: "Indexer",
        codes: &[
            "A", "B", "C", "D", "E", "F", "0A", "0B", "2A", "2B", "2C", "2D", "2E", "2F", "3A", "3B", "0z", "1z",
            "4z",
        ],
        raw: |c, r, x, o| i(TI::new_with_code_and_raw(c, r, x, o)),
        qb64: |t| i(TI::new_with_qb64(t)),
        qb64b: |t| i(TI::new_with_qb64b(t)),
        qb2: |b| i(TI::new_with_qb2(b)),
    },
    ITy {
        name: "Siger",
        codes: &["A", "B", "C", "D", "E", "F", "2A", "2B", "2C", "2D", "2E", "2F"],
        raw: |c, r, x, o| i(Siger::new_with_raw(r, None, Some(x), o, Some(c))),
        qb64: |t| i(Siger::new_with_qb64(t, None)),
        qb64b: |t| i(Siger::new_with_qb64b(t, None)),
        qb2: |b| i(Siger::new_with_qb2(b, None)),
    },
    ITy {
        name: "Siger with a key",
        codes: &["A", "B", "C", "D", "E", "F", "2A", "2B", "2C", "2D", "2E", "2F"],
        raw: |c, r, x, o| isc(|v| Siger::new_with_raw(r, v, Some(x), o, Some(c))),
        qb64: |t| isc(|v| Siger::new_with_qb64(t, v)),
        qb64b: |t| isc(|v| Siger::new_with_qb64b(t, v)),
        qb2: |b| isc(|v| Siger::new_with_qb2(b, v)),
    },
];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct CSnap {
    pub code: String,
    pub count: u32,
    pub fs: usize,
    pub qb64: String,
    pub qb64b: Vec<u8>,
    pub qb2: Vec<u8>,
    pub b64: String,
}

pub fn csnap(r: cesride::Result<Counter>) -> std::result::Result<CSnap, String> {
    let c = es(r)?;
    Ok(CSnap {
        code: c.code(),
        count: c.count(),
        fs: es(c.full_size())?,
        qb64: es(c.qb64())?,
        qb64b: es(c.qb64b())?,
        qb2: es(c.qb2())?,
        b64: es(c.count_as_b64(0))?,
    })
}

pub fn cexpected(code: &str, count: u32) -> Option<CSnap> {
    let t = spec::c_text(code, count as u64)?;
    Some(CSnap {
        code: code.into(),
        count,
        fs: t.len(),
        qb64b: t.as_bytes().to_vec(),
        qb2: spec::dec4(t.as_bytes()).unwrap(),
        b64: t[code.len()..].to_string(),
        qb64: t,
    })
}
