//! Objects of every type, what can be read off them and what can be written to them, for C22:
//! no read changes what another read gives, and a write takes effect for every later read.
use super::c09::{seed, sig_code, verfer_code};
use super::c15::key;
use super::docs::val;
use super::ops::*;
use super::types::*;
use crate::ctx::guard;
use crate::spec;
use cesride::*;
use serde_json::{json, Value as J};
use std::any::Any;
use std::marker::PhantomData;

/// May an object of this type be read by two threads at a time?
struct Probe<T>(PhantomData<T>);
impl<T: Sync> Probe<T> {
    #[allow(dead_code)]
    const SYNC: bool = true;
}
trait NotKnown {
    #[allow(dead_code)]
    const SYNC: bool = false;
}
impl<T> NotKnown for Probe<T> {}

type Read = Box<dyn Fn(&dyn Any) -> String + Send + Sync>;
type Write = Box<dyn Fn(&mut dyn Any) -> String + Send + Sync>;

pub enum Act {
    Read(Read),
    Write(Write),
}

pub struct Step {
    pub name: String,
    pub heavy: bool,
    /// replaces all of the object's state
    pub full: bool,
    /// leaves the object as it is
    pub neutral: bool,
    pub act: Act,
}

pub struct Kind {
    pub name: String,
    pub sync: bool,
    pub size: usize,
    pub make: Box<dyn Fn() -> Box<dyn Any> + Send + Sync>,
    pub place: Box<dyn (Fn(*mut u8) -> *mut dyn Any) + Send + Sync>,
    pub steps: Vec<Step>,
}

impl Kind {
    pub fn run(&self, o: &mut dyn Any, step: usize) -> String {
        guard(|| match &self.steps[step].act {
            Act::Read(f) => f(o),
            Act::Write(f) => f(o),
        })
        .unwrap_or_else(|e| e)
    }
}

struct K<T> {
    kind: Kind,
    of: PhantomData<T>,
}

impl<T: 'static> K<T> {
    fn new(name: &str, sync: bool, make: impl Fn() -> T + Send + Sync + Clone + 'static) -> Self {
        let m = make.clone();
        K {
            kind: Kind {
                name: name.to_string(),
                sync,
                size: std::mem::size_of::<T>(),
                make: Box::new(move || Box::new(make())),
                place: Box::new(move |p| {
                    let p = p as *mut T;
                    unsafe { p.write(m()) };
                    p as *mut dyn Any
                }),
                steps: vec![],
            },
            of: PhantomData,
        }
    }
    fn step(mut self, name: &str, act: Act) -> Self {
        self.kind.steps.push(Step { name: name.to_string(), heavy: false, full: false, neutral: false, act });
        self
    }
    fn read<R: std::fmt::Debug>(self, name: &str, f: impl Fn(&T) -> R + Send + Sync + 'static) -> Self {
        self.step(name, Act::Read(Box::new(move |o| format!("{:?}", f(o.downcast_ref().unwrap())))))
    }
    fn write<R: std::fmt::Debug>(self, name: &str, f: impl Fn(&mut T) -> R + Send + Sync + 'static) -> Self {
        self.step(name, Act::Write(Box::new(move |o| format!("{:?}", f(o.downcast_mut().unwrap())))))
    }
    fn heavy(mut self) -> Self {
        self.kind.steps.last_mut().unwrap().heavy = true;
        self
    }
    fn full(mut self) -> Self {
        self.kind.steps.last_mut().unwrap().full = true;
        self
    }
    fn neutral(mut self) -> Self {
        self.kind.steps.last_mut().unwrap().neutral = true;
        self
    }
}

impl<T: Clone + PartialEq + 'static> K<T> {
    fn copies(self) -> Self {
        self.write("clone", |t| {
            let c = t.clone();
            let same = c == *t;
            *t = c;
            same
        })
        .neutral()
        .read("clone dropped", |t| t.clone() == *t)
    }
}

impl<T: Matter + Clone + PartialEq + 'static> K<T> {
    /// `other` code of the same size, text of another value
    fn matter(self, other: &str, text: &str) -> Self {
        let t = text.to_string();
        let b = spec::dec4(text.as_bytes()).unwrap();
        let raw = spec::m_parse(text.as_bytes()).unwrap().raw;
        let (c, cut) = (other.to_string(), text[..text.len() - 1].to_string());
        self.read("code", |t: &T| t.code())
            .read("raw and size", |t: &T| (t.raw(), t.size()))
            .read("qb64", |t: &T| es(t.qb64()))
            .read("qb64b", |t: &T| es(t.qb64b()))
            .read("qb2", |t: &T| es(t.qb2()))
            .read("nature", |t: &T| (t.digestive(), t.transferable(), es(t.full_size())))
            .copies()
            .write("set code", move |t: &mut T| t.set_code(&c))
            .write("set raw", move |t: &mut T| t.set_raw(&raw))
            .write("from text", move |o: &mut T| es(o.exfil(&t)))
            .full()
            .write("from binary", move |o: &mut T| es(o.bexfil(&b)))
            .full()
            .write("from cut text", move |o: &mut T| es(o.exfil(&cut)))
    }
}

impl<T: Sadder + PartialEq + 'static> K<T> {
    fn sadder(self, other: J, broken: &str) -> Self {
        let raw = other.to_string();
        let (r2, bad) = (raw.clone(), broken.to_string());
        let (ked, ked2) = (other.clone(), other.clone());
        self.read("raw", |t: &T| String::from_utf8_lossy(&t.raw()).to_string())
            .read("ked", |t: &T| es(t.ked().to_json()))
            .read("what it is", |t: &T| (t.code(), t.ident(), t.kind(), t.size(), t.version().major, t.version().minor))
            .read("said", |t: &T| (es(t.said()), es(t.saidb()), es(t.saider().qb64())))
            .read("pretty", |t: &T| es(t.pretty(None)))
            .read("verify", |t: &T| es(t.saider().verify(&t.ked(), Some(true), None, None, None, None)))
            .copies()
            .write("load", move |t: &mut T| es(t.populate_from_raw(raw.as_bytes())))
            .full()
            .write("load broken", move |t: &mut T| es(t.populate_from_raw(bad.as_bytes())))
            .write("load cut", move |t: &mut T| es(t.populate_from_raw(&r2.as_bytes()[..r2.len() - 1])))
            .write("build", move |t: &mut T| es(t.populate_from_ked(&val(&ked), None)))
            .full()
            .write("build again", |t: &mut T| es(t.populate_from_kind_and_self("JSON")))
            .write("set ked", move |t: &mut T| t.set_ked(&val(&ked2)))
    }
}

fn m(code: &str, n: u8, len: usize) -> String {
    spec::m_encode(code, &spec::filler(len, n as u64)).unwrap().1
}

pub fn kinds() -> Vec<Kind> {
    let mut v = vec![];
    macro_rules! kind {
        ($t:ty, $name:expr, $make:expr) => {
            K::<$t>::new($name, Probe::<$t>::SYNC, $make)
        };
    }

    for suite in ["A", "J", "Q"] {
        let (sd, p, sig) = signed(suite, 1, b"message one");
        let (_, p2, sig2) = signed(suite, 2, b"message two");
        let code = verfer_code(suite, true);
        let other = verfer_code(suite, false);
        let text2 = spec::m_encode(code, &p2).unwrap().1;
        let (p, sig, sig2) = (p, sig, sig2);
        let g = [sig.clone(), sig2.clone()];
        let mut k = kind!(Verfer, &format!("Verfer {suite}"), {
            let p = p.clone();
            move || Verfer::new_with_raw(&p, Some(code)).unwrap()
        })
        .matter(other, &text2);
        for (i, s) in g.into_iter().enumerate() {
            for msg in [&b"message one"[..], b"message two"] {
                let s = s.clone();
                k = k.read(&format!("verify signature {i} of {}", String::from_utf8_lossy(msg)), move |t| es(t.verify(&s, msg))).heavy();
            }
        }
        let s = sig[..63].to_vec();
        k = k.read("verify a short signature", move |t| es(t.verify(&s, b"message one")));
        v.push(k.kind);

        let text = spec::m_encode(suite, &seed(2)).unwrap().1;
        let det = suite == "A";
        let see = move |r: std::result::Result<(String, Vec<u8>), String>, v: Verfer, msg: &[u8]| match r {
            Ok((c, s)) => format!("{c} {:?} {:?}", es(v.verify(&s, msg)), det.then_some(s)),
            Err(e) => e,
        };
        let k = kind!(Signer, &format!("Signer {suite}"), move || Signer::new_with_raw(&sd, Some(true), Some(suite)).unwrap())
            .matter(suite, &text)
            .read("verfer", |t| es(t.verfer().qb64()))
            .read("sign one", move |t| see(es(t.sign_unindexed(b"message one")).map(|c| (c.code(), c.raw())), t.verfer(), b"message one"))
            .heavy()
            .read("sign two", move |t| see(es(t.sign_unindexed(b"message two")).map(|c| (c.code(), c.raw())), t.verfer(), b"message two"))
            .heavy()
            .read("sign with index", move |t| {
                see(es(t.sign_indexed(b"message one", false, 3, Some(70))).map(|c| (format!("{} {} {}", Indexer::code(&c), c.index(), c.ondex()), Indexer::raw(&c))), t.verfer(), b"message one")
            })
            .heavy()
            .read("sign with other index", move |t| {
                see(es(t.sign_indexed(b"message one", true, 4, None)).map(|c| (format!("{} {} {}", Indexer::code(&c), c.index(), c.ondex()), Indexer::raw(&c))), t.verfer(), b"message one")
            })
            .heavy()
            .read("sign with index too large", |t| es(t.sign_indexed(b"message one", false, 1 << 20, None).map(|_| ())))
            .heavy();
        v.push(k.kind);

        let (vk, vk2) = (spec::m_encode(code, &p).unwrap().1, text2.clone());
        let cg = spec::m_encode(sig_code(suite), &sig).unwrap().1;
        let cg2 = spec::m_encode(sig_code(suite), &sig2).unwrap().1;
        let (r1, c1) = (sig.clone(), sig_code(suite));
        let mk = move || Cigar::new_with_qb64(&cg, Some(&Verfer::new_with_qb64(&vk).unwrap())).unwrap();
        let k = kind!(Cigar, &format!("Cigar {suite}"), mk)
            .matter(c1, &cg2)
            .read("verfer", |t| es(t.verfer().qb64()))
            .read("verify", |t| es(t.verfer().verify(&t.raw(), b"message one")))
            .heavy();
        v.push(k.kind);

        let code_i = match suite {
            "A" => "A",
            "J" => "C",
            _ => "E",
        };
        let it = |i: u32, raw: &[u8]| spec::i_text(&spec::i_build(code_i, raw, i, None).unwrap());
        let (a, b) = (it(3, &r1), it(5, &sig2));
        let bb = spec::dec4(b.as_bytes()).unwrap();
        let raw2 = sig2.clone();
        let vk = spec::m_encode(code, &p).unwrap().1;
        let k = kind!(Siger, &format!("Siger {suite}"), move || Siger::new_with_qb64(&a, Some(&Verfer::new_with_qb64(&vk).unwrap())).unwrap())
            .read("code", |t| t.code())
            .read("index and ondex", |t| (t.index(), t.ondex()))
            .read("raw", |t| t.raw())
            .read("qb64", |t| es(t.qb64()))
            .read("qb64b", |t| es(t.qb64b()))
            .read("qb2", |t| es(t.qb2()))
            .read("full size", |t| es(t.full_size()))
            .read("verfer", |t| es(t.verfer().qb64()))
            .read("verify", |t| es(t.verfer().verify(&t.raw(), b"message one")))
            .heavy()
            .copies()
            .write("set index", |t| t.set_index(7))
            .write("set ondex", |t| t.set_ondex(7))
            .write("set raw", move |t| t.set_raw(&raw2))
            .write("from text", {
                let b = b.clone();
                move |t| es(t.exfil(&b))
            })
            .write("from cut text", move |t| es(t.exfil(&b[..b.len() - 1])))
            .write("from binary", move |t| es(t.bexfil(&bb)));
        let _ = vk2;
        v.push(k.kind);
    }

    let dg = |c: &str, d: &[u8]| spec::m_encode(c, &spec::digest(c, d).unwrap()).unwrap().1;
    for (c, other) in [("E", "H"), ("0G", "0D")] {
        let (text, text2, h) = (dg(c, b"abc"), dg(c, b"abd"), [dg("H", b"abc"), dg("H", b"abd"), dg(c, b"abc")]);
        let mut k = kind!(Diger, &format!("Diger {c}"), move || Diger::new_with_qb64(&text).unwrap())
            .matter(other, &text2)
            .read("verify abc", |t| es(t.verify(b"abc")))
            .read("verify abd", |t| es(t.verify(b"abd")))
            .read("verify nothing", |t| es(t.verify(b"")));
        for (i, x) in h.into_iter().enumerate() {
            let y = x.clone();
            k = k.read(&format!("compare {i}"), move |t| es(t.compare(b"abc", Some(x.as_bytes()), None)));
            k = k.read(&format!("compare {i} as digest"), move |t| es(t.compare(b"abc", None, Some(&Diger::new_with_qb64(&y).unwrap()))));
        }
        k = k.read("compare with nothing", |t| es(t.compare(b"abc", None, None)));
        v.push(k.kind);
    }
    {
        let a = finished(&event("icp", 1));
        let text = a["d"].as_str().unwrap().to_string();
        let mut b = a.clone();
        b["s"] = json!("1");
        let c = finished(&event("icp", 2));
        let mut k = kind!(Saider, "Saider", move || Saider::new_with_qb64(&text).unwrap()).matter("H", &key("E", 7));
        for (n, j) in [("own", a.clone()), ("altered", b), ("other", c), ("a text", json!("x"))] {
            for p in [false, true] {
                let j = j.clone();
                k = k.read(&format!("verify {n} {p}"), move |t| es(t.verify(&val(&j), Some(p), None, None, None, None)));
            }
        }
        k = k.read("verify ignoring", move |t| es(t.verify(&val(&a), None, None, Some("JSON"), Some("i"), Some(&["t"]))));
        v.push(k.kind);
    }
    v.push(
        kind!(Seqner, "Seqner", || Seqner::new_with_sn(5).unwrap())
            .matter("0A", &m("0A", 1, 16))
            .read("sn", |t| es(t.sn()))
            .read("snh", |t| es(t.snh()))
            .kind,
    );
    for (n, text2) in [(5u128, m("M", 1, 2)), (1 << 70, m("0A", 2, 16))] {
        v.push(
            kind!(cesride::Number, &format!("Number {n}"), move || cesride::Number::new_with_num(n).unwrap())
                .matter(&text2[..if n == 5 { 1 } else { 2 }], &text2)
                .read("num", |t| es(t.num()))
                .read("numh", |t| es(t.numh()))
                .read("positive", |t| es(t.positive()))
                .kind,
        );
    }
    {
        let later = "2021-08-22T17:50:09.988921-01:00".to_string();
        let t2 = Dater::new_with_dts(&later, None).unwrap().qb64().unwrap();
        v.push(
            kind!(Dater, "Dater", || Dater::new_with_dts("2020-08-22T17:50:09.988921+00:00", None).unwrap())
                .matter("1AAG", &t2)
                .read("dts", |t| es(t.dts()))
                .read("dtsb", |t| es(t.dtsb()))
                .kind,
        );
    }
    for (a, b, other) in [("abc", "abcdefg", "4A"), ("abcdefghi", "Zbcdef", "5A")] {
        let t2 = Bexter::new_with_bext(b).unwrap().qb64().unwrap();
        v.push(
            kind!(Bexter, &format!("Bexter {a}"), move || Bexter::new_with_bext(a).unwrap())
                .matter(&Bexter::new_with_bext(a).unwrap().code(), &t2)
                .read("bext", |t| es(t.bext()))
                .kind,
        );
        let _ = other;
    }
    {
        let t2 = Pather::new_with_bext("-b-0").unwrap().qb64().unwrap();
        let docs = [json!({"a": {"b": "1", "c": ["x", "y"]}, "b": ["2"]}), json!({"a": {"b": "3"}}), json!({"x": 1})];
        let code = Pather::new_with_bext("-a-b").unwrap().code();
        let mut k = kind!(Pather, "Pather", || Pather::new_with_bext("-a-b").unwrap()).matter(&code, &t2).read("bext", |t| es(t.bext())).read("path", |t| t.path().map_err(|e| e.to_string()).and_then(|v| es(v.to_json())));
        for (i, d) in docs.into_iter().enumerate() {
            k = k.read(&format!("resolve {i}"), move |t| t.resolve(&val(&d)).map_err(|e| e.to_string()).and_then(|v| es(v.to_json())));
        }
        for r in ["-a", "-b", "-"] {
            k = k
                .read(&format!("root {r}"), move |t| t.root(&Pather::new_with_bext(r).unwrap()).map_err(|e| e.to_string()).and_then(|p| es(p.bext())))
                .read(&format!("strip {r}"), move |t| t.strip(&Pather::new_with_bext(r).unwrap()).map_err(|e| e.to_string()).and_then(|p| es(p.bext())))
                .read(&format!("starts with {r}"), move |t| es(t.starts_with(&Pather::new_with_bext(r).unwrap())));
        }
        v.push(k.kind);
    }
    for c in ["E", "D", "B"] {
        let mut icp = event("icp", 1);
        if c == "B" {
            icp["k"] = json!([key("B", 1)]);
            icp["nt"] = json!("0");
            icp["n"] = json!([]);
        }
        icp["i"] = if c == "E" { json!("") } else { json!(key(c, 1)) };
        let mut second = icp.clone();
        second["s"] = json!("1");
        let mut third = icp.clone();
        third["k"] = json!([key(c, 2)]);
        let mk = icp.clone();
        let mut k = kind!(Prefixer, &format!("Prefixer {c}"), move || Prefixer::new_with_ked(&val(&mk), None, Some(c)).unwrap()).matter(if c == "E" { "H" } else if c == "B" { "D" } else { "B" }, &key(c, 2));
        for (n, j) in [("own", icp), ("altered", second), ("other key", third), ("nothing", json!({}))] {
            for p in [false, true] {
                let j = j.clone();
                k = k.read(&format!("verify {n} {p}"), move |t| es(t.verify(&val(&j), Some(p))));
            }
        }
        v.push(k.kind);
    }
    {
        let mut k = kind!(Salter, "Salter", || Salter::new_with_raw(&[1; 16], None, Some("low")).unwrap()).matter("0A", &m("0A", 5, 16)).read("tier", |t| t.tier());
        for (p, n, tier) in [("a", 32, "low"), ("b", 32, "low"), ("a", 64, "low"), ("a", 32, "med"), ("a", 32, "x")] {
            k = k.read(&format!("stretch {p} {n} {tier}"), move |t| es(t.stretch(Some(n), Some(p), Some(tier), Some(true)))).heavy();
        }
        k = k
            .read("signer", |t| t.signer(None, None, Some("a"), None, Some(true)).map_err(|e| e.to_string()).and_then(|s| Ok((es(s.qb64())?, es(s.verfer().qb64())?))))
            .heavy()
            .read("signers", |t| es(t.signers(Some(2), Some(1), Some("a"), None, None, None, Some(true))).map(|v| v.iter().map(|s| s.qb64().ok()).collect::<Vec<_>>()))
            .heavy();
        v.push(k.kind);
    }
    for (t, t2) in [("-AAB", "-BAC"), ("-0VAAAAB", "--AAABAA")] {
        let _ = t2;
        v.push(
            kind!(Counter, &format!("Counter {t}"), move || Counter::new_with_qb64(t).unwrap())
                .read("code", |t| t.code())
                .read("count", |t| t.count())
                .read("count as text", |t| (es(t.count_as_b64(2)), es(t.count_as_b64(5))))
                .read("qb64", |t| es(t.qb64()))
                .read("qb64b", |t| es(t.qb64b()))
                .read("qb2", |t| es(t.qb2()))
                .read("full size", |t| es(t.full_size()))
                .copies()
                .kind,
        );
    }
    for j in [json!("2"), json!(["1/2", "1/2", "1/3"]), json!([["1/2", "1/2"], ["1"]])] {
        let n = j.to_string();
        let mut k = kind!(Tholder, &format!("Tholder {n}"), move || Tholder::new_with_sith(&val(&j)).unwrap())
            .read("thold", |t| es(t.thold().to_json()))
            .read("sith", |t| t.sith().map_err(|e| e.to_string()).and_then(|v| es(v.to_json())))
            .read("json", |t| es(t.to_json()))
            .read("limen", |t| es(t.limen()))
            .read("shape", |t| (t.weighted(), t.size(), es(t.num())))
            .read("parts", |t| (t.number().map(|n| es(n.qb64())), t.bexter().map(|n| es(n.qb64()))))
            .copies();
        for i in [&[][..], &[0], &[1], &[0, 1], &[1, 0], &[0, 2], &[0, 0], &[0, 1, 2], &[3], &[0, 1, 3]] {
            k = k.read(&format!("satisfy {i:?}"), move |t| es(t.satisfy(i)));
        }
        v.push(k.kind);
    }
    for ilk in ["icp", "ixn"] {
        let mut e = event(ilk, 1);
        if ilk == "ixn" {
            for l in ["kt", "k", "nt", "n", "bt", "b", "c"] {
                e.as_object_mut().unwrap().shift_remove(l);
            }
        }
        let raw = finished(&e).to_string();
        let mut o = event("rot", 2);
        o["kt"] = json!(["1/2", "1/2"]);
        o["k"] = json!([key("D", 3), key("D", 4)]);
        o["s"] = json!("a");
        let other = finished(&o);
        let k = kind!(Serder, &format!("Serder {ilk}"), move || Serder::new_with_raw(raw.as_bytes()).unwrap())
            .sadder(other.clone(), &other.to_string().replace("[]", "[}"))
            .read("verfers", |t| es(t.verfers()).map(|v| v.iter().map(|x| x.qb64().ok()).collect::<Vec<_>>()))
            .read("digers", |t| es(t.digers()).map(|v| v.iter().map(|x| x.qb64().ok()).collect::<Vec<_>>()))
            .read("werfers", |t| es(t.werfers()).map(|v| v.iter().map(|x| x.qb64().ok()).collect::<Vec<_>>()))
            .read("tholder", |t| es(t.tholder()).map(|t| t.map(|t| tholder_text(&t))))
            .read("ntholder", |t| es(t.ntholder()).map(|t| t.map(|t| tholder_text(&t))))
            .read("numbers", |t| (es(t.sn()), es(t._fn()), es(t.sner()).map(|n| n.numh().ok())))
            .read("prefix", |t| (es(t.pre()), es(t.preb()), es(t.est())));
        v.push(k.kind);
    }
    {
        let raw = finished(&credential(1)).to_string();
        let mut o = credential(2);
        o["a"]["n"] = json!([1, 2]);
        let other = finished(&o);
        let k = kind!(Creder, "Creder", move || Creder::new_with_raw(raw.as_bytes()).unwrap())
            .sadder(other.clone(), &other.to_string().replace("{}", "{]"))
            .read("crd", |t| es(t.crd().to_json()))
            .read("issuer", |t| es(t.issuer()))
            .read("schema", |t| es(t.schema()))
            .read("subject", |t| es(t.subject().to_json()))
            .read("status", |t| es(t.status()))
            .read("chains", |t| t.chains().map_err(|e| e.to_string()).and_then(|c| es(c.to_json())));
        v.push(k.kind);
    }
    {
        let j: J = serde_json::from_str("{\"b\":[1,-1,1.5,null,true],\"a\":{\"c\":\"\u{e9}\"}}").unwrap();
        let k = kind!(data::Value, "Value", move || val(&j))
            .read("json", |t| es(t.to_json()))
            .read("map", |t| es(t.to_map()).map(|m| m.keys().cloned().collect::<Vec<_>>()))
            .read("vec", |t| es(t["b"].to_vec()).map(|m| m.len()))
            .read("not a vec", |t| es(t.to_vec().map(|_| ())))
            .read("scalars", |t| (es(t["b"][0].to_i64()), es(t["b"][2].to_f64()), es(t["b"][4].to_bool()), es(t["a"]["c"].to_string()), es(t["b"].to_string())))
            .copies()
            .write("write a", |t| t["a"]["c"] = val(&json!("x")))
            .write("write b", |t| t["b"][0] = val(&json!(7)))
            .write("replace b", |t| t["b"] = val(&json!([0, 0, 0.5, 0, false, 1])));
        v.push(k.kind);
    }
    v
}
