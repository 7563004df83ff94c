//! C15: events and credentials.
use super::docs::*;
use super::types::*;
use super::*;
use crate::ctx::{Ctx, Obs, R};
use crate::{ensure, same, spec};
use cesride::{Creder, Matter, Sadder, Serder};
use serde_json::{json, Value as J};

/// everything one can read off a loaded document
#[derive(Clone, Debug, PartialEq)]
struct View {
    code: String,
    raw: Vec<u8>,
    ked: String,
    ident: String,
    kind: String,
    size: u32,
    version: (u8, u8),
    said: String,
    saidb: Vec<u8>,
    saider: String,
}

fn view<T: Sadder>(s: &T) -> Result<View, String> {
    Ok(View {
        code: s.code(),
        raw: s.raw(),
        ked: es(s.ked().to_json())?,
        ident: s.ident(),
        kind: s.kind(),
        size: s.size(),
        version: (s.version().major, s.version().minor),
        said: es(s.said())?,
        saidb: es(s.saidb())?,
        saider: es(s.saider().qb64())?,
    })
}

fn want(code: &str, raw: &str, doc: &J) -> View {
    let said = doc["d"].as_str().unwrap().to_string();
    View {
        code: code.into(),
        raw: raw.as_bytes().to_vec(),
        ked: dump(doc),
        ident: doc["v"].as_str().unwrap()[..4].into(),
        kind: "JSON".into(),
        size: raw.len() as u32,
        version: (1, 0),
        saidb: said.clone().into_bytes(),
        saider: said.clone(),
        said,
    }
}

fn load(cred: bool, code: Option<&str>, raw: &[u8]) -> Result<View, String> {
    if cred {
        view(&es(Creder::new(code, Some(raw), None, None, None))?)
    } else {
        view(&es(Serder::new(code, Some(raw), None, None, None))?)
    }
}

fn load_short(cred: bool, raw: &[u8]) -> Result<View, String> {
    if cred {
        view(&es(Creder::new_with_raw(raw))?)
    } else {
        view(&es(Serder::new_with_raw(raw))?)
    }
}

fn make(cred: bool, code: Option<&str>, kind: Option<&str>, ked: &J) -> Result<View, String> {
    if cred {
        view(&es(Creder::new_with_ked(&val(ked), code, kind))?)
    } else {
        view(&es(Serder::new_with_ked(&val(ked), code, kind))?)
    }
}

/// is the content of a loaded document vouched for by its own said?
fn vouched<T: Sadder>(s: &T) -> bool {
    matches!(s.saider().verify(&s.ked(), Some(true), None, None, None, None), Ok(true))
}

/// a valid serialization with white space, sized accordingly
fn spaced(doc: &J, style: usize) -> Option<(String, J)> {
    let code = spec::m_parse(doc["d"].as_str().unwrap().as_bytes()).unwrap().code;
    let mut doc = doc.clone();
    let lay = |doc: &J| -> String {
        match style {
            0 => serde_json::to_string_pretty(doc).unwrap(),
            1 => dump(doc).replacen("{\"v\":", "{ \"v\" : ", 1),
            2 => {
                let mut t = dump(doc);
                t.insert(t.len() - 1, '\n');
                t
            }
            _ => format!("\n\t {}", dump(doc)),
        }
    };
    let n = lay(&doc).len();
    let vs = version(&doc["v"].as_str().unwrap()[..4], 1, 0, "JSON", n);
    doc["v"] = json!(vs);
    let t = lay(&doc);
    if t.find(&vs)? > 12 || code.is_empty() {
        return None;
    }
    Some((t, doc))
}

fn check(cred: bool, code: &str, doc: &J, o: &mut Obs) -> R {
    let (said, out) = saidify(doc.as_object().unwrap(), code, "d", &[]).ok_or("reference cannot saidify")?;
    let out = J::Object(out);
    let raw = dump(&out);
    let e = want(code, &raw, &out);
    same!(out["d"], json!(said), "reference");
    let c = Some(code);
    same!(load(cred, c, raw.as_bytes()), Ok(e.clone()), "loaded");
    // whatever follows
    for tail in [&b"-AAB"[..], b"{\"v\":\"KERI10JSON000000_\"}", b"\0", &[0xff, 0xfe, 0x80], "é😀".as_bytes(), b"}", b" ", b"KERI10JSON0000ff_", raw.as_bytes()] {
        let mut r = raw.clone().into_bytes();
        r.extend_from_slice(tail);
        same!(load(cred, c, &r), Ok(e.clone()), "loaded with {} after it", hex(tail));
        o.step();
    }
    if code == "E" {
        same!(load_short(cred, raw.as_bytes()), Ok(e.clone()), "loaded by default");
        same!(load(cred, None, raw.as_bytes()), Ok(e.clone()), "loaded by default");
        o.steps(2);
    }
    // another digest than asked for
    for other in spec::DIGESTS {
        if *other != code {
            ensure!(load(cred, Some(other), raw.as_bytes()).is_err(), "loaded as {other}");
            ensure!(make(cred, Some(other), None, &out).is_err(), "made as {other}");
            o.steps(2);
        }
    }
    // the other kind of document
    ensure!(load(!cred, c, raw.as_bytes()).is_err(), "loaded as the other kind of document");
    ensure!(make(!cred, c, None, &out).is_err(), "made as the other kind of document");
    // from key/values, whatever size they state
    for size in ["000000", "00ffff", &raw_size(&raw)] {
        let mut k = out.clone();
        k["v"] = json!(format!("{}{size}_", &out["v"].as_str().unwrap()[..10]));
        for kind in [None, Some("JSON")] {
            same!(make(cred, c, kind, &k), Ok(e.clone()), "made with size {size}");
            o.step();
        }
    }
    for kind in ["CBOR", "MGPK", "json", ""] {
        ensure!(make(cred, c, Some(kind), &out).is_err(), "made as {kind:?}");
        o.step();
    }
    // the two ways give the same object, and its content is vouched for
    let all = if cred {
        let a = es(Creder::new(c, Some(raw.as_bytes()), None, None, None))?;
        let b = es(Creder::new(c, None, None, Some(&val(&out)), None))?;
        let d = es(Creder::new(c, None, None, None, Some(&a)))?;
        same!(a, b, "loaded and made");
        same!(d, a, "copied");
        ensure!(vouched(&a), "content does not verify");
        same!(es(a.pretty(Some(1 << 20))), Ok(serde_json::to_string_pretty(&out).unwrap()), "pretty");
        creder(&a, &out)?;
        es(a.pretty(None))?
    } else {
        let a = es(Serder::new(c, Some(raw.as_bytes()), None, None, None))?;
        let b = es(Serder::new(c, None, None, Some(&val(&out)), None))?;
        let d = es(Serder::new(c, None, None, None, Some(&a)))?;
        same!(a, b, "loaded and made");
        same!(d, a, "copied");
        ensure!(vouched(&a), "content does not verify");
        same!(es(a.pretty(Some(1 << 20))), Ok(serde_json::to_string_pretty(&out).unwrap()), "pretty");
        serder(&a, &out)?;
        es(a.pretty(None))?
    };
    let pretty = serde_json::to_string_pretty(&out).unwrap();
    ensure!(pretty.starts_with(&all) && all.len() <= 1024 && (all.len() > 1020 || all == pretty), "default pretty of {} bytes", all.len());
    if code == "E" && pretty.len() < 3000 {
        for n in (0..8).chain([pretty.len() / 2, 1023, 1024, 1025, pretty.len().saturating_sub(1), pretty.len(), pretty.len() + 1]) {
            let got = if cred {
                es(Creder::new(c, Some(raw.as_bytes()), None, None, None)).and_then(|a| es(a.pretty(Some(n))))?
            } else {
                es(Serder::new(c, Some(raw.as_bytes()), None, None, None)).and_then(|a| es(a.pretty(Some(n))))?
            };
            // cut between characters
            ensure!(pretty.starts_with(&got) && got.len() <= n && (got == pretty || got.len() + 3 >= n), "pretty to {n} of {} bytes: {}", pretty.len(), got.len());
            o.step();
        }
    }
    // the same content laid out with white space
    for style in 0..4 {
        if let Some((t, d)) = spaced(&out, style) {
            let mut w = want(code, &t, &d);
            same!(load(cred, c, t.as_bytes()), Ok(w.clone()), "loaded with white space {style}");
            w.raw.push(b'x');
            same!(load(cred, c, &w.raw), Ok(want(code, &t, &d)), "loaded with white space {style} and more");
            o.steps(2);
        }
    }
    // cut short
    for n in 0..raw.len() {
        ensure!(load(cred, c, &raw.as_bytes()[..n]).is_err(), "loaded from the first {n} of {} bytes", raw.len());
        o.step();
    }
    o.steps(10);
    o.state(&raw);
    Ok(())
}

fn raw_size(raw: &str) -> String {
    format!("{:06x}", raw.len())
}

/// qb64 texts of a list of keys or digests under a label, as the library must report them
fn list(doc: &J, label: &str, ok: &[&str]) -> Option<Vec<String>> {
    let mut out = vec![];
    for x in doc[label].as_array()? {
        let m = spec::m_parse(x.as_str()?.as_bytes())?;
        if !ok.contains(&m.code.as_str()) {
            return None;
        }
        out.push(x.as_str()?[..m.fs].to_string());
    }
    Some(out)
}

pub const KEYS: &[&str] = &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"];

fn q<T: Matter>(r: cesride::Result<Vec<T>>) -> Result<Vec<String>, String> {
    es(r)?.iter().map(|v| es(v.qb64())).collect()
}

fn field(doc: &J, l: &str) -> Option<J> {
    doc.get(l).cloned()
}

fn serder(s: &Serder, doc: &J) -> R {
    let empty = Vec::<String>::new();
    for (l, got) in [("k", q(s.verfers())), ("n", q(s.digers())), ("b", q(s.werfers()))] {
        let ok = if l == "n" { spec::DIGESTS } else { KEYS };
        match field(doc, l) {
            None => same!(got, Ok(empty.clone()), "{l}"),
            Some(J::Array(_)) => match list(doc, l, ok) {
                Some(x) => same!(got, Ok(x), "{l}"),
                None => ensure!(got.is_err(), "{l}: accepted"),
            },
            // keys that are no list: reported as none, or refused
            Some(_) => ensure!(got.is_err() || got == Ok(empty.clone()), "{l}: {got:?}"),
        }
    }
    for (l, got) in [("kt", s.tholder()), ("nt", s.ntholder())] {
        match field(doc, l) {
            None => ensure!(matches!(got, Ok(None)), "{l}"),
            Some(j) => match cesride::Tholder::new_with_sith(&val(&j)) {
                Ok(t) => same!(es(got), Ok(Some(t)), "{l}"),
                Err(_) => ensure!(got.is_err(), "{l}: accepted"),
            },
        }
    }
    match field(doc, "s").as_ref().and_then(|s| s.as_str()) {
        Some(x) => {
            let n = if x.is_empty() { Some(0) } else { u128::from_str_radix(x, 16).ok() };
            match n {
                Some(n) => {
                    same!(es(s.sn()), Ok(n), "sn");
                    same!(es(es(s.sner())?.num()), Ok(n), "sner");
                }
                None => ensure!(s.sn().is_err() && s.sner().is_err(), "sn: accepted"),
            }
        }
        None => ensure!(s.sn().is_err() && s.sner().is_err(), "sn: made up"),
    }
    match field(doc, "i").as_ref().and_then(|s| s.as_str()) {
        Some(x) => {
            same!(es(s.pre()), Ok(x.to_string()), "pre");
            same!(es(s.preb()), Ok(x.as_bytes().to_vec()), "preb");
        }
        None => ensure!(s.pre().is_err() && s.preb().is_err(), "pre: made up"),
    }
    match field(doc, "t").as_ref().and_then(|s| s.as_str()) {
        Some(x) => same!(es(s.est()), Ok(["icp", "rot", "dip", "drt"].contains(&x)), "est"),
        None => ensure!(s.est().is_err(), "est: made up"),
    }
    match field(doc, "f").as_ref().and_then(|s| s.as_str()) {
        Some(x) => match spec::m_parse(x.as_bytes()) {
            Some(m) if ["M", "0H", "N", "0A"].contains(&m.code.as_str()) => {
                let n = m.raw.iter().fold(0u128, |a, b| a << 8 | *b as u128);
                same!(es(s._fn()), Ok(n), "fn");
                same!(es(es(s.fner())?.unwrap().num()), Ok(n), "fner");
            }
            _ => ensure!(s.fner().is_err() && s._fn().is_err(), "fn: accepted"),
        },
        None if field(doc, "f").is_none() => ensure!(matches!(s.fner(), Ok(None)) && s._fn().is_err(), "fn: made up"),
        None => ensure!(s.fner().is_err() && s._fn().is_err(), "fn: made up"),
    }
    Ok(())
}

fn text(r: cesride::Result<String>, doc: &J, l: &str) -> R {
    match field(doc, l).as_ref().and_then(|s| s.as_str()) {
        Some(x) => same!(es(r), Ok(x.to_string()), "{l}"),
        None => ensure!(r.is_err(), "{l}: made up"),
    }
    Ok(())
}

fn creder(s: &Creder, doc: &J) -> R {
    same!(es(s.crd().to_json())?, dump(doc), "crd");
    text(s.issuer(), doc, "i")?;
    text(s.schema(), doc, "s")?;
    same!(es(s.subject().to_json())?, dump(&field(doc, "a").unwrap_or(json!(null))), "subject");
    same!(es(es(s.chains())?.to_json())?, dump(&field(doc, "e").unwrap_or(json!({}))), "chains");
    match field(doc, "ri") {
        None => ensure!(matches!(s.status(), Ok(None)), "status: made up"),
        Some(J::String(x)) => same!(es(s.status()), Ok(Some(x)), "status"),
        Some(_) => ensure!(s.status().is_err(), "status: made up"),
    }
    Ok(())
}

pub fn key(code: &str, n: u8) -> String {
    let len = spec::mc(code).unwrap().raw();
    spec::m_encode(code, &spec::filler(len, 50 + n as u64)).unwrap().1
}

/// events and credentials of every shape
pub fn bases(cred: bool) -> Vec<J> {
    let s44 = key("E", 9);
    let mut out = vec![];
    if cred {
        out.push(json!({"v": "ACDC10JSON000000_", "d": "", "i": key("D", 1), "ri": s44, "s": key("E", 3), "a": {"d": s44, "i": key("D", 2), "dt": "2021-06-27T21:26:21.233257+00:00", "LEI": "254900OPPU84GM83MG36"}, "e": {"d": s44, "le": {"n": key("E", 4), "s": key("E", 5)}}}));
        out.push(json!({"v": "ACDC10JSON000000_", "d": "", "i": key("D", 1), "s": key("E", 3), "a": s44}));
        out.push(json!({"v": "ACDC10JSON000000_", "d": ""}));
        out.push(json!({"v": "ACDC10JSON000000_", "u": "0AAwMTIzNDU2Nzg5YWJjZGVm", "d": "", "i": "é", "ri": "", "s": "", "a": [1, 2], "e": []}));
        for x in [json!(null), json!(1), json!(true), json!(1.5), json!([]), json!({}), json!("x")] {
            out.push(json!({"v": "ACDC10JSON000000_", "d": "", "i": x, "ri": x, "s": x, "a": x, "e": x}));
        }
        return out;
    }
    out.push(json!({"v": "KERI10JSON000000_", "t": "icp", "d": "", "i": key("D", 1), "s": "0", "kt": "1", "k": [key("D", 1)], "nt": "1", "n": [key("E", 2)], "bt": "0", "b": [], "c": [], "a": []}));
    out.push(json!({"v": "KERI10JSON000000_", "t": "rot", "d": "", "i": key("E", 1), "s": "1", "p": key("E", 7), "kt": ["1/2", "1/2"], "k": [key("D", 1), key("1AAB", 2)], "nt": [["1"], ["1/2", "1/2"]], "n": [key("E", 2), key("0G", 3), key("I", 4)], "bt": "2", "br": [], "ba": [], "b": [key("B", 3), key("1AAA", 4)], "a": [{"i": "x", "s": "0"}]}));
    out.push(json!({"v": "KERI10JSON000000_", "t": "ixn", "d": "", "i": key("E", 1), "s": "ffffffffffffffffffffffffffffffff", "p": key("E", 7), "a": []}));
    out.push(json!({"v": "KERI10JSON000000_", "t": "drt", "d": "", "i": key("E", 1), "s": "10", "kt": "2", "k": [key("B", 1), key("1AAI", 2), key("1AAJ", 3)], "nt": "0", "n": [], "f": "MAAB"}));
    out.push(json!({"v": "KERI10JSON000000_", "t": "dip", "d": "", "i": key("E", 1), "s": "FF", "di": key("E", 2), "f": "0AAAAAAAAAAAAAAAAAAAAAAB"}));
    out.push(json!({"v": "KERI10JSON000000_", "t": "rpy", "d": "", "dt": "2021-06-27T21:26:21.233257+00:00", "r": "/loc/scheme", "a": {"k": "v", "é": ["😀", "\"", "\\", "\n", "\u{7f}"], "n": [0, -1, 1.5, 18446744073709551615u64, true, null]}}));
    out.push(json!({"v": "KERI10JSON000000_", "d": ""}));
    out.push(json!({"v": "KERI10JSON000000_", "t": "exn", "d": "", "k": [], "n": [], "b": [], "s": "", "kt": "0", "nt": "0"}));
    // lists with material of the wrong kind
    out.push(json!({"v": "KERI10JSON000000_", "t": "icp", "d": "", "k": [key("E", 1)], "n": [key("D", 1)], "b": [key("E", 2)], "s": "g", "f": "EAAA", "kt": "x", "nt": ["1/2"]}));
    out.push(json!({"v": "KERI10JSON000000_", "t": "icp", "d": "", "k": [key("D", 1), 1], "n": [null], "b": [""], "s": "-1", "f": "", "kt": [], "nt": [["1"], []]}));
    for x in [json!(null), json!(1), json!(true), json!(1.5), json!([]), json!({}), json!("x"), json!("1"), json!(["1"]), json!([[]]), json!([1])] {
        out.push(json!({"v": "KERI10JSON000000_", "t": x, "d": "", "i": x, "s": x, "kt": x, "k": x, "nt": x, "n": x, "b": x, "f": x}));
    }
    out
}

pub fn run(ctx: &Ctx) {
    ctx.case(
        || "published names".into(),
        |o| {
            use cesride::common as names;
            macro_rules! own {
                ($m:ident: $($n:ident),*) => { $( same!(names::$m::$n, stringify!($n), "{}", stringify!($m)); o.step(); )* };
            }
            own!(Ilkage: icp, rot, ixn, dip, drt, rct, ksn, qry, rpy, exn, pro, bar, vcp, vrt, iss, rev, bis, brv);
            own!(Ids: id, i, d, t, k, n, b, a, s, f, v, kt, nt, di);
            own!(Tierage: low, med, high);
            own!(Serialage: JSON);
            own!(Identage: ACDC, KERI);
            same!(names::Ids::dollar, "$id", "Ids");
            same!(names::Ids::at, "@id", "Ids");
            same!((names::CURRENT_VERSION.major, names::CURRENT_VERSION.minor), (1, 0), "version");
            Ok(())
        },
    );
    // every base document under every digest, alone and with further fields
    let mut jobs: Vec<(bool, &str, J)> = vec![];
    let extra = super::c14::values();
    for cred in [false, true] {
        for b in bases(cred) {
            for code in spec::DIGESTS {
                jobs.push((cred, code, b.clone()));
                if *code == "E" || ctx.thorough {
                    for x in &extra {
                        let mut d = b.clone();
                        d["x"] = x.clone();
                        jobs.push((cred, code, d));
                    }
                }
            }
        }
    }
    // lengths around the digits of the size
    for n in ctx.pick((0..300).step_by(1).collect::<Vec<usize>>(), (0..4200).collect()) {
        jobs.push((n % 2 == 0, "E", json!({"v": if n % 2 == 0 { "ACDC10JSON000000_" } else { "KERI10JSON000000_" }, "d": "", "x": "x".repeat(n)})));
    }
    // every ilk, and some that are none
    for t in ["icp", "rot", "ixn", "dip", "drt", "rct", "ksn", "qry", "rpy", "exn", "pro", "bar", "vcp", "vrt", "iss", "rev", "bis", "brv", "", "i", "ICP", "icp ", " rot", "dipdrt", "ic", "rott"] {
        jobs.push((false, "E", json!({"v": "KERI10JSON000000_", "t": t, "d": "", "i": key("E", 1), "s": "1"})));
    }
    // long lists, with repetitions
    for n in (4..=20usize).chain([31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 300]) {
        for every in [n, 3, 1] {
            let list = |codes: &[&str], at: usize| -> Vec<String> { (0..n).map(|i| key(codes[i % codes.len()], ((i % every) * 3 + at) as u8)).collect() };
            let (k, d, b) = (list(KEYS, 1), list(spec::DIGESTS, 2), list(&["B", "1AAA", "1AAI"], 3));
            jobs.push((false, "E", json!({"v": "KERI10JSON000000_", "t": "icp", "d": "", "i": k[0], "s": format!("{n:x}"), "kt": format!("{n:x}"), "k": k, "nt": vec!["1/2"; n], "n": d, "bt": "0", "b": b})));
        }
    }
    // numbers of every size
    for bit in 0..=128u32 {
        for d in [-1i32, 0, 1] {
            let n = match (if bit == 128 { None } else { Some(1u128 << bit) }, d) {
                (None, -1) => u128::MAX,
                (Some(n), d) => n.saturating_add_signed(d as i128),
                _ => continue,
            };
            let bytes = n.to_be_bytes();
            for (code, len) in [("M", 2), ("0H", 4), ("N", 8), ("0A", 16)] {
                if bytes[..16 - len].iter().all(|b| *b == 0) {
                    let f = spec::m_encode(code, &bytes[16 - len..]).unwrap().1;
                    jobs.push((false, "E", json!({"v": "KERI10JSON000000_", "t": "ixn", "d": "", "i": key("E", 1), "s": format!("{n:x}"), "f": f, "kt": format!("{n:X}"), "nt": format!("{:x}", n >> 1)})));
                }
            }
        }
    }
    ctx.par(jobs.len(), |i| {
        let (cred, code, doc) = &jobs[i];
        ctx.case(|| format!("{} {code} {}", if *cred { "credential" } else { "event" }, sh(&dump(doc))), |o| check(*cred, code, doc, o));
    });
    ctx.section("documents");

    // every combination of fields that are there, not there, or no good
    type Choice = (&'static str, Vec<J>);
    let ev: Vec<Choice> = vec![
        ("t", vec![json!("icp"), json!("ixn"), json!(7)]),
        ("i", vec![json!(key("E", 1)), json!(7)]),
        ("s", vec![json!("a1"), json!("x")]),
        ("kt", vec![json!("1"), json!(["x"])]),
        ("k", vec![json!([key("D", 1), key("B", 2)]), json!([key("E", 1)])]),
        ("nt", vec![json!(["1/2", "1/2"]), json!([])]),
        ("n", vec![json!([key("E", 2), key("I", 3)]), json!([key("B", 1)])]),
        ("b", vec![json!([key("B", 3)]), json!([7])]),
        ("f", vec![json!("MAAB"), json!("EAAA")]),
    ];
    let cr: Vec<Choice> = vec![
        ("i", vec![json!(key("D", 1)), json!(""), json!(7)]),
        ("ri", vec![json!(key("E", 1)), json!(""), json!(7)]),
        ("s", vec![json!(key("E", 3)), json!(""), json!(7)]),
        ("a", vec![json!({"d": "x"}), json!("x"), json!(7)]),
        ("e", vec![json!({"d": "x"}), json!([]), json!(7)]),
    ];
    for (cred, fields) in [(false, ev), (true, cr)] {
        let total: usize = fields.iter().map(|f| f.1.len() + 1).product();
        let chunk = 64;
        ctx.par((total + chunk - 1) / chunk, |c| {
            ctx.case(
                || format!("{} with combinations {} and on of fields", if cred { "credentials" } else { "events" }, c * chunk),
                |o| {
                    for n in c * chunk..total.min((c + 1) * chunk) {
                        let mut doc = json!({"v": if cred { "ACDC10JSON000000_" } else { "KERI10JSON000000_" }, "d": ""});
                        let mut n = n;
                        for (l, vs) in &fields {
                            if let Some(x) = vs.get(n % (vs.len() + 1)) {
                                doc[*l] = x.clone();
                            }
                            n /= vs.len() + 1;
                        }
                        let (_, d) = saidify(doc.as_object().unwrap(), "E", "d", &[]).unwrap();
                        let d = J::Object(d);
                        let r = if cred {
                            es(Creder::new(None, None, None, Some(&val(&d)), None)).and_then(|s| creder(&s, &d))
                        } else {
                            es(Serder::new(None, None, None, Some(&val(&d)), None)).and_then(|s| serder(&s, &d))
                        };
                        r.map_err(|e| format!("{e} of {}", dump(&d)))?;
                        o.step();
                        o.state(dump(&d));
                    }
                    Ok(())
                },
            );
        });
    }
    ctx.section("combinations of fields");

    // all single-byte changes of the serialization
    let al: Vec<u8> = if ctx.thorough { (0..=255).collect() } else { b"\0\n !\"#,-./0159:;=@ADEFKZ[\\]_abdfiknstvz{|}~\x80\xc3\xff".to_vec() };
    let mut small = vec![];
    for cred in [false, true] {
        for (k, b) in bases(cred).into_iter().enumerate() {
            if ctx.thorough || k < 3 || k == 5 {
                small.push((cred, b));
            }
        }
    }
    let raws: Vec<(bool, String, J)> = small
        .iter()
        .map(|(c, b)| {
            let (_, d) = saidify(b.as_object().unwrap(), "E", "d", &[]).unwrap();
            (*c, dump(&J::Object(d.clone())), J::Object(d))
        })
        .collect();
    for (cred, raw, doc) in &raws {
        ctx.par(raw.len(), |at| {
            ctx.case(
                || format!("byte {at} changed in {}", sh(raw)),
                |o| {
                    let mut r = raw.clone().into_bytes();
                    // something to read when the size grows
                    r.extend_from_slice(&[b' '; 64]);
                    let own = r[at];
                    for b in &al {
                        if *b == own {
                            continue;
                        }
                        r[at] = *b;
                        altered(*cred, &r, doc, o)?;
                    }
                    r[at] = own;
                    // removed, doubled, swapped
                    let mut x = r.clone();
                    x.remove(at);
                    altered(*cred, &x, doc, o)?;
                    let mut x = r.clone();
                    x.insert(at, own);
                    altered(*cred, &x, doc, o)?;
                    if r[at + 1] != own {
                        r.swap(at, at + 1);
                        altered(*cred, &r, doc, o)?;
                    }
                    o.state((raw, at));
                    Ok(())
                },
            );
        });
    }
    ctx.section("single-byte changes");

    // changes of the content, resized and well-formed
    for (cred, _, doc) in &raws {
        let ms = mutants(doc, &["d"]);
        ctx.par(ms.len(), |i| {
            let (how, m) = &ms[i];
            ctx.case(
                || format!("content changed: {how} in {}", sh(&dump(doc))),
                |o| {
                    for fix in [false, true] {
                        let m = if fix { sized(m.as_object().unwrap()).map(J::Object).unwrap_or(m.clone()) } else { m.clone() };
                        if dump(&m) == dump(doc) {
                            continue;
                        }
                        let mut r = dump(&m).into_bytes();
                        altered(*cred, &r, doc, o)?;
                        r.extend_from_slice(&[b' '; 64]);
                        altered(*cred, &r, doc, o)?;
                        // made from the changed content
                        if *cred {
                            if let Ok(s) = Creder::new_with_ked(&val(&m), None, None) {
                                ensure!(es(s.ked().to_json())? == dump(doc) || !vouched(&s), "made and verifies: {}", dump(&m));
                            }
                        } else if let Ok(s) = Serder::new_with_ked(&val(&m), None, None) {
                            ensure!(es(s.ked().to_json())? == dump(doc) || !vouched(&s), "made and verifies: {}", dump(&m));
                        }
                        o.step();
                    }
                    o.state(how);
                    Ok(())
                },
            );
        });
    }
    ctx.section("changes of the content");

    // fields of long documents
    let mut long: Vec<usize> = vec![];
    for bit in 9..=ctx.pick(20, 23) {
        long.extend([(1usize << bit) - 1, 1 << bit, (1 << bit) + 1]);
    }
    ctx.par(2 * long.len(), |i| {
        let (cred, n) = (i % 2 == 1, long[i / 2]);
        ctx.case(
            || format!("{} of {n} bytes", if cred { "credential" } else { "event" }),
            |o| {
                for before in [false, true] {
                    let mut d = bases(cred)[if cred { 0 } else { 1 }].clone();
                    let fill = |len: usize| -> J {
                        let mut m = serde_json::Map::new();
                        for (k, x) in d.as_object().unwrap() {
                            if before && k == "i" {
                                m.insert("x".into(), json!("x".repeat(len)));
                            }
                            m.insert(k.clone(), x.clone());
                        }
                        m.entry("x").or_insert_with(|| json!("x".repeat(len)));
                        m["d"] = json!(key("E", 1));
                        J::Object(m)
                    };
                    let Some(room) = n.checked_sub(dump(&fill(0)).len()) else { continue };
                    let full = fill(room);
                    let (_, f) = saidify(full.as_object().unwrap(), "E", "d", &[]).unwrap();
                    d = J::Object(f);
                    let raw = [dump(&d).as_bytes(), b"-AAB"].concat();
                    same!(raw.len(), n + 4, "length");
                    let w = want("E", &dump(&d), &d);
                    same!(load(cred, None, &raw), Ok(w.clone()), "loaded");
                    same!(make(cred, None, None, &d), Ok(w), "made");
                    if cred {
                        let s = es(Creder::new_with_raw(&raw))?;
                        ensure!(vouched(&s), "content does not verify");
                        creder(&s, &d)?;
                    } else {
                        let s = es(Serder::new_with_raw(&raw))?;
                        ensure!(vouched(&s), "content does not verify");
                        serder(&s, &d)?;
                    }
                    o.steps(4);
                    o.state((n, before));
                }
                Ok(())
            },
        );
    });
    ctx.section("long documents");

    // the largest document
    for extra in ctx.pick(vec![0usize, 1], vec![0, 1, 5]) {
        for cred in [false, true] {
            ctx.case(
                || format!("document of {} bytes, credential {cred}", 0xffffff + extra),
                |o| {
                    let v = if cred { "ACDC10JSON000000_" } else { "KERI10JSON000000_" };
                    let room = 0xffffff - dump(&json!({"v": v, "d": "#".repeat(44), "x": ""})).len();
                    let d = json!({"v": v, "d": key("E", 1), "x": "x".repeat(room + extra)});
                    let got = make(cred, None, None, &d);
                    o.step();
                    if extra == 0 {
                        let g = got?;
                        same!(g.size, 0xffffff, "size");
                        same!(g.raw.len(), 0xffffff, "bytes");
                        same!(load(cred, None, &g.raw)?.raw, g.raw, "loaded");
                    } else {
                        ensure!(got.is_err(), "made");
                    }
                    Ok(())
                },
            );
        }
    }
    ctx.section("largest documents");
}

/// altered bytes load to the same content, or to content its said does not vouch for, or not at all
fn altered(cred: bool, r: &[u8], doc: &J, o: &mut Obs) -> R {
    o.step();
    let (ked, raw, size, ok) = if cred {
        let Ok(s) = Creder::new_with_raw(r) else { return Ok(()) };
        (es(s.ked().to_json())?, s.raw(), s.size(), vouched(&s))
    } else {
        let Ok(s) = Serder::new_with_raw(r) else { return Ok(()) };
        (es(s.ked().to_json())?, s.raw(), s.size(), vouched(&s))
    };
    ensure!(r.get(..size as usize) == Some(&raw[..]), "read other bytes than the stated size");
    let t: J = serde_json::from_slice(&raw).map_err(|e| format!("content of no JSON text: {e}"))?;
    same!(ked, dump(&t), "content");
    ensure!(ked == dump(doc) || !ok, "altered and verifies: {}", String::from_utf8_lossy(&raw));
    Ok(())
}
