//! Operations of the library whose results C22 compares across histories and schedules.
//! Arguments are chosen to collide under any key a shortcut might use: same code, same length,
//! same first or last characters, same label, same keys, same text as another type.
use super::c09::{public, seed, sig_code, verfer_code};
use super::c15::key;
use super::docs::{obj, saidify, val};
use super::types::*;
use crate::spec;
use cesride::*;
use serde_json::{json, Value as J};

pub struct Op {
    pub name: String,
    /// too slow for the long histories
    pub heavy: bool,
    pub f: Box<dyn Fn() -> String + Send + Sync>,
}

/// everything one can read off a loaded document
fn sad<T: Sadder>(s: &T) -> std::result::Result<Vec<String>, String> {
    Ok(vec![
        s.code(),
        String::from_utf8_lossy(&s.raw()).into(),
        es(s.ked().to_json())?,
        s.ident(),
        s.kind(),
        s.size().to_string(),
        format!("{}.{}", s.version().major, s.version().minor),
        es(s.said())?,
        es(s.saider().qb64())?,
        es(s.pretty(Some(1 << 20)))?,
    ])
}

fn list<T: Matter>(r: cesride::Result<Vec<T>>) -> std::result::Result<Vec<String>, String> {
    es(r)?.iter().map(|v| es(v.qb64())).collect()
}

pub fn serder_text(s: &Serder) -> String {
    format!(
        "{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}",
        sad(s),
        list(s.verfers()),
        list(s.digers()),
        list(s.werfers()),
        s.tholder().map(|t| t.map(|t| tholder_text(&t))).map_err(|e| e.to_string()),
        s.ntholder().map(|t| t.map(|t| tholder_text(&t))).map_err(|e| e.to_string()),
        es(s.sn()),
        es(s._fn()),
        es(s.pre()),
        es(s.preb()),
        es(s.est())
    )
}

pub fn creder_text(s: &Creder) -> String {
    format!(
        "{:?} {:?} {:?} {:?} {:?} {:?} {:?}",
        sad(s),
        es(s.crd().to_json()),
        es(s.issuer()),
        es(s.schema()),
        es(s.subject().to_json()),
        es(s.status()),
        s.chains().map_err(|e| e.to_string()).and_then(|c| es(c.to_json()))
    )
}

pub fn tholder_text(t: &Tholder) -> String {
    format!(
        "{:?} {:?} {} {} {:?} {:?} {:?}",
        es(t.thold().to_json()),
        es(t.to_json()),
        t.weighted(),
        t.size(),
        es(t.num()),
        es(t.limen()),
        [&[][..], &[0], &[1], &[0, 1], &[1, 2], &[0, 1, 2], &[2, 2], &[0, 1, 2, 3], &[7]].map(|i| es(t.satisfy(i)))
    )
}

pub fn event(t: &str, n: u8) -> J {
    json!({"v": "KERI10JSON000000_", "t": t, "d": "", "i": key("D", n), "s": "0", "kt": "1", "k": [key("D", n)],
        "nt": "1", "n": [key("E", n)], "bt": "0", "b": [], "c": [], "a": []})
}

pub fn finished(j: &J) -> J {
    J::Object(saidify(&obj(j), "E", "d", &[]).unwrap().1)
}

pub fn credential(n: u8) -> J {
    json!({"v": "ACDC10JSON000000_", "d": "", "i": key("D", n), "ri": key("E", 3), "s": key("E", n), "a": {"d": "x", "n": n}, "e": {}})
}

/// seed, public key, message and signature of the suites, made without the library
pub fn signed(suite: &str, n: usize, msg: &[u8]) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    let s = seed(n);
    let p = public(suite, &s).unwrap();
    let sig = match suite {
        "A" => {
            use ed25519_dalek::Signer;
            ed25519_dalek::SigningKey::from_bytes(s.as_slice().try_into().unwrap()).sign(msg).to_bytes().to_vec()
        }
        "J" => {
            use k256::ecdsa::signature::Signer;
            let g: k256::ecdsa::Signature = k256::ecdsa::SigningKey::from_slice(&s).unwrap().sign(msg);
            g.to_bytes().to_vec()
        }
        _ => {
            use p256::ecdsa::signature::Signer;
            let g: p256::ecdsa::Signature = p256::ecdsa::SigningKey::from_slice(&s).unwrap().sign(msg);
            g.to_bytes().to_vec()
        }
    };
    (s, p, sig)
}

pub fn all() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    macro_rules! op {
        ($name:expr, $f:expr) => {
            v.push(Op { name: $name.to_string(), heavy: false, f: Box::new($f) })
        };
    }
    macro_rules! heavy {
        ($name:expr, $f:expr) => {
            v.push(Op { name: $name.to_string(), heavy: true, f: Box::new($f) })
        };
    }

    // version strings
    for s in ["KERI10JSON0000aa_", "KERI10JSON0000ab_", "ACDC10JSON0000aa_", "KERI11JSON0000aa_", "KERI10CBOR0000aa_", "KERI10JSON0000aa", "", "KERI10JSON0000aa_x"] {
        op!(format!("deversify {s}"), move || match common::deversify(s) {
            Ok(d) => format!("{} {} {} {}.{}", d.ident, d.kind, d.size, d.version.major, d.version.minor),
            Err(e) => e.to_string(),
        });
    }
    for (i, n) in [("KERI", 170u32), ("ACDC", 170), ("KERI", 171), ("KERI", 1 << 24), ("NONE", 170)] {
        op!(format!("versify {i} {n}"), move || format!("{:?}", es(common::versify(Some(i), None, None, Some(n)))));
    }
    for s in ["{\"v\":\"KERI10JSON0000aa_\",\"d\":\"\"}", "{\"v\":\"KERI10JSON0000ab_\",\"d\":\"\"}", "{\"v\":\"ACDC10CBOR0000aa_\",\"d\":\"\"}", "{\"v\":\"KERI10JSON0000aa\",\"d\":\"\"}", "{}"] {
        op!(format!("sniff {s}"), move || match common::sniff(s.as_bytes()) {
            Ok(d) => format!("{} {} {} {}.{}", d.ident, d.kind, d.size, d.version.major, d.version.minor),
            Err(e) => e.to_string(),
        });
    }
    op!("sniff before binary", move || match common::sniff(b"{\"v\":\"KERI10JSON0000ac_\"\xff\xfe\x80\x80\x80\x80\x80\x80") {
        Ok(d) => format!("{} {} {}", d.ident, d.kind, d.size),
        Err(e) => e.to_string(),
    });

    // documents
    for (n, j) in [
        ("a", json!({"v": "KERI10JSON000000_", "x": "1"})),
        ("b", json!({"v": "KERI10JSON000000_", "x": "2"})),
        ("acdc", json!({"v": "ACDC10JSON000000_", "x": "1"})),
        ("longer", json!({"v": "KERI10JSON000000_", "x": "11"})),
        ("none", json!({"x": "1"})),
        ("bad", json!({"v": "KERI10JSON", "x": "1"})),
    ] {
        op!(format!("sizeify {n}"), move || match common::sizeify(&val(&j), None) {
            Ok(r) => format!("{:?} {} {} {:?}", String::from_utf8_lossy(&r.raw), r.ident, r.kind, es(r.ked.to_json())),
            Err(e) => e.to_string(),
        });
    }
    for (n, c, l, j) in [
        ("a", "E", "d", json!({"d": "", "x": "1", "y": "1"})),
        ("b", "E", "d", json!({"d": "", "x": "2", "y": "1"})),
        ("blake2b", "F", "d", json!({"d": "", "x": "1", "y": "1"})),
        ("sha2-512", "0G", "d", json!({"d": "", "x": "1", "y": "1"})),
        ("label x", "E", "x", json!({"d": "", "x": "1", "y": "1"})),
        ("no label", "E", "z", json!({"d": "", "x": "1", "y": "1"})),
        ("versioned", "E", "d", json!({"v": "KERI10JSON000000_", "d": "", "x": "1", "y": "1"})),
        ("not a digest", "B", "d", json!({"d": "", "x": "1", "y": "1"})),
    ] {
        op!(format!("saidify {n}"), move || match Saider::saidify(&val(&j), Some(c), None, Some(l), None) {
            Ok((s, d)) => format!("{:?} {:?}", es(s.qb64()), es(d.to_json())),
            Err(e) => e.to_string(),
        });
    }
    {
        let a = J::Object(saidify(&obj(&json!({"d": "", "x": "1"})), "E", "d", &[]).unwrap().1);
        let said = a["d"].as_str().unwrap().to_string();
        let mut b = a.clone();
        b["x"] = json!("2");
        for (n, j) in [("match", a.clone()), ("other value", b), ("no label", json!({"x": "1"}))] {
            let said = said.clone();
            op!(format!("verify said, {n}"), move || format!(
                "{:?}",
                Saider::new_with_qb64(&said).map_err(|e| e.to_string()).map(|s| [Some(false), Some(true)].map(|p| es(s.verify(&val(&j), p, None, None, None, None))))
            ));
        }
        let mut other = said.clone();
        other.replace_range(43..44, if said.ends_with('A') { "E" } else { "A" });
        op!("verify said, other said", move || format!(
            "{:?}",
            Saider::new_with_qb64(&other).map_err(|e| e.to_string()).map(|s| es(s.verify(&val(&a), Some(false), None, None, None, None)))
        ));
    }
    for (n, t, k) in [("icp 1", "icp", 1u8), ("icp 2", "icp", 2), ("rot 1", "rot", 1), ("ixn 1", "ixn", 1)] {
        let mut e = event(t, k);
        if t == "rot" {
            e["kt"] = json!(["1/2", "1/2"]);
            e["s"] = json!("a");
        }
        if t == "ixn" {
            for l in ["kt", "k", "nt", "n", "bt", "b", "c"] {
                e.as_object_mut().unwrap().shift_remove(l);
            }
        }
        let f = finished(&e);
        let raw = f.to_string().into_bytes();
        let g = f.clone();
        op!(format!("serder from raw {n}"), move || Serder::new_with_raw(&raw).map(|s| serder_text(&s)).unwrap_or_else(|e| e.to_string()));
        op!(format!("serder from ked {n}"), move || Serder::new_with_ked(&val(&g), None, None).map(|s| serder_text(&s)).unwrap_or_else(|e| e.to_string()));
    }
    {
        let raw = finished(&event("icp", 1)).to_string();
        for (n, r) in [("cut", raw[..raw.len() - 1].to_string()), ("with more after it", format!("{raw}-AAB")), ("broken", raw.replace(":[]", ":[}")), ("other kind", raw.replace("KERI", "ACDC"))] {
            op!(format!("serder from raw {n}"), move || Serder::new_with_raw(r.as_bytes()).map(|s| serder_text(&s)).unwrap_or_else(|e| e.to_string()));
        }
    }
    for n in [1u8, 2] {
        let f = finished(&credential(n));
        let raw = f.to_string().into_bytes();
        op!(format!("creder from raw {n}"), move || Creder::new_with_raw(&raw).map(|s| creder_text(&s)).unwrap_or_else(|e| e.to_string()));
        op!(format!("creder from ked {n}"), move || Creder::new_with_ked(&val(&f), None, None).map(|s| creder_text(&s)).unwrap_or_else(|e| e.to_string()));
    }
    for (n, j) in [("map", "{\"b\":[1,-1,1.5,null],\"a\":\"\u{e9}\"}"), ("map, other order", "{\"a\":\"\u{e9}\",\"b\":[1,-1,1.5,null]}"), ("number", "18446744073709551615")] {
        op!(format!("value {n}"), move || es(data::Value::from(&serde_json::from_str::<J>(j).unwrap()).to_json()).unwrap_or_else(|e| e));
    }

    // identifier prefixes
    for (n, k, c, next) in [("E 1", 1u8, "E", 1), ("E 2", 2, "E", 1), ("D 1", 1, "D", 1), ("B 1", 1, "B", 0), ("B with next keys", 1, "B", 1)] {
        let mut e = event("icp", k);
        if c == "B" {
            e["k"] = json!([key("B", k)]);
        }
        if next == 0 {
            e["nt"] = json!("0");
            e["n"] = json!([]);
        }
        if c == "E" {
            e["i"] = json!("");
        }
        op!(format!("derive prefix {n}"), move || match Prefixer::new_with_ked(&val(&e), None, Some(c)) {
            Ok(p) => format!("{:?} {:?}", es(p.qb64()), es(p.verify(&val(&e), None))),
            Err(e) => e.to_string(),
        });
    }
    {
        let e = event("icp", 1);
        let mut g = e.clone();
        g["k"] = json!([key("D", 2)]);
        for (n, j) in [("own key", e), ("other key", g)] {
            op!(format!("verify prefix, {n}"), move || format!(
                "{:?}",
                Prefixer::new_with_qb64(&key("D", 1)).map_err(|e| e.to_string()).map(|p| es(p.verify(&val(&j), None)))
            ));
        }
    }

    // thresholds
    for j in [json!("1"), json!("2"), json!("b"), json!(2), json!("0"), json!(["1/2", "1/2", "1/2"]), json!(["1/2", "1/2", "1/3"]), json!(["1/3", "1/3", "1/3"]), json!([["1/2", "1/2"], ["1"]]), json!([["1"], ["1/2", "1/2"]]), json!(["1/2", "1/3"]), json!("x"), json!([])] {
        op!(format!("threshold {j}"), move || Tholder::new_with_sith(&val(&j)).map(|t| tholder_text(&t)).unwrap_or_else(|e| e.to_string()));
    }
    for l in ["MAAC", "MAAB", "4AADA1s2c1s2c1s2", "4AADA1s2c1s2c1s3", "4AADA1s2c1s2a1s3", "MAA", "!"] {
        op!(format!("threshold from {l}"), move || Tholder::new_with_limen(l.as_bytes()).map(|t| tholder_text(&t)).unwrap_or_else(|e| e.to_string()));
    }

    // digests
    for (c, d) in [("E", &b"abc"[..]), ("E", b"abd"), ("F", b"abc"), ("H", b"abc"), ("I", b"abc"), ("0D", b"abc"), ("0G", b"abc"), ("B", b"abc"), ("E", b"")] {
        op!(format!("digest {c} {}", String::from_utf8_lossy(d)), move || match Diger::new_with_ser(d, Some(c)) {
            Ok(x) => format!("{:?} {:?} {:?}", snap(&x), es(x.verify(d)), es(x.verify(b"abe"))),
            Err(e) => e.to_string(),
        });
    }
    {
        let t = |c: &str, d: &[u8]| spec::m_encode(c, &spec::digest(c, d).unwrap()).unwrap().1;
        for (n, a, b) in [("same", t("E", b"abc"), t("E", b"abc")), ("algorithms", t("E", b"abc"), t("H", b"abc")), ("data", t("E", b"abc"), t("H", b"abd"))] {
            op!(format!("compare digests, {n}"), move || format!(
                "{:?}",
                Diger::new_with_qb64(&a).map_err(|e| e.to_string()).map(|x| es(x.compare(b"abc", Some(b.as_bytes()), None)))
            ));
        }
    }

    // signatures
    for suite in ["A", "J", "Q"] {
        let msg = b"message one";
        let (s, p, sig) = signed(suite, 1, msg);
        let (_, p2, _) = signed(suite, 2, msg);
        let (_, _, sig2) = signed(suite, 1, b"message two");
        for (n, k, g, m) in [
            ("valid", p.clone(), sig.clone(), &b"message one"[..]),
            ("other message", p.clone(), sig.clone(), b"message two"),
            ("other signature", p.clone(), sig2, b"message one"),
            ("other key", p2, sig.clone(), b"message one"),
            ("short signature", p.clone(), sig[..63].to_vec(), b"message one"),
        ] {
            let f = move || match Verfer::new_with_raw(&k, Some(verfer_code(suite, true))) {
                Ok(v) => format!("{:?}", es(v.verify(&g, m))),
                Err(e) => e.to_string(),
            };
            if suite == "A" {
                op!(format!("verify {suite} {n}"), f);
            } else {
                heavy!(format!("verify {suite} {n}"), f);
            }
        }
        let det = suite == "A";
        for (n, k, m, t) in [("1", 1, &b"message one"[..], true), ("message two", 1, b"message two", true), ("2", 2, b"message one", true), ("non-transferable", 1, b"message one", false)] {
            let sd = seed(k);
            let f = move || match Signer::new_with_raw(&sd, Some(t), Some(suite)) {
                Ok(s) => {
                    let c = s.sign_unindexed(m).map_err(|e| e.to_string());
                    let i = s.sign_indexed(m, false, 3, Some(70)).map_err(|e| e.to_string());
                    let o = s.sign_indexed(m, true, 3, None).map_err(|e| e.to_string());
                    format!(
                        "{:?} {:?} {:?} {:?} {:?}",
                        es(s.verfer().qb64()),
                        c.as_ref().map(|c| (c.code(), det.then(|| c.qb64().ok()), es(s.verfer().verify(&c.raw(), m)), es(c.verfer().qb64()))),
                        i.as_ref().map(|c| (Indexer::code(c), c.index(), c.ondex(), es(s.verfer().verify(&Indexer::raw(c), m)), es(c.verfer().qb64()))),
                        o.as_ref().map(|c| (Indexer::code(c), c.index(), c.ondex())),
                        es(s.sign_indexed(m, false, 4096, None).map(|_| ()))
                    )
                }
                Err(e) => e.to_string(),
            };
            heavy!(format!("sign {suite} {n}"), f);
        }
        let _ = (s, sig_code(suite));
    }
    op!("signer from foreign material", move || Signer::new_with_raw(&[0; 32], None, Some("J")).map(|_| "made".to_string()).unwrap_or_else(|e| e.to_string()));
    heavy!("random signers", move || ["A", "J", "Q"]
        .map(|c| match Signer::new_with_defaults(None, Some(c)) {
            Ok(s) => format!("{} {} {:?}", s.code(), s.raw().len(), public(c, &s.raw()) == Some(s.verfer().raw())),
            Err(e) => e.to_string(),
        })
        .join(" "));
    op!("random salters", move || match (Salter::new_with_defaults(None), Salter::new_with_defaults(None)) {
        (Ok(a), Ok(b)) => format!("{} {} {} {}", a.code(), a.raw().len(), a.tier(), a.raw() != b.raw() && a.raw() != [0; 16]),
        _ => "failed".to_string(),
    });
    for (n, s, path, size, tier) in [("a", 1u8, "a", 32usize, "low"), ("b", 1, "b", 32, "low"), ("other salt", 2, "a", 32, "low"), ("64", 1, "a", 64, "low"), ("med", 1, "a", 32, "med"), ("unknown tier", 1, "a", 32, "x"), ("nothing", 1, "a", 0, "low")] {
        heavy!(format!("stretch {n}"), move || match Salter::new_with_raw(&[s; 16], None, Some("low")) {
            Ok(x) => format!("{:?}", es(x.stretch(Some(size), Some(path), Some(tier), Some(true)))),
            Err(e) => e.to_string(),
        });
    }
    heavy!("stretch in earnest", move || match Salter::new_with_raw(&[1; 16], None, Some("low")) {
        Ok(x) => format!("{:?}", es(x.stretch(Some(32), Some("a"), Some("low"), None))),
        Err(e) => e.to_string(),
    });
    heavy!("signers from salt", move || match Salter::new_with_raw(&[1; 16], None, None) {
        Ok(x) => format!("{:?}", es(x.signers(Some(2), Some(1), Some("a"), None, None, None, Some(true))).map(|v| v.iter().map(|s| (s.qb64().ok(), s.verfer().qb64().ok())).collect::<Vec<_>>())),
        Err(e) => e.to_string(),
    });

    // numbers and datetimes
    for h in ["a", "A", "ffff", "10000", "ffffffffffffffff", "10000000000000000", "g", "", "-1"] {
        op!(format!("number {h}"), move || Number::new_with_numh(h).map(|n| format!("{:?} {:?} {:?}", snap(&n), es(n.num()), es(n.numh()))).unwrap_or_else(|e| e.to_string()));
    }
    for h in ["a", "ffff", "10000000000000000", "g"] {
        op!(format!("sequence number {h}"), move || Seqner::new_with_snh(h).map(|n| format!("{:?} {:?} {:?}", snap(&n), es(n.sn()), es(n.snh()))).unwrap_or_else(|e| e.to_string()));
    }
    for t in ["2020-08-22T17:50:09.988921+00:00", "2020-08-22T17:50:09.988921+01:00", "2020-08-22T17:50:09.988922+00:00", "2020-08-22T17:50:09+00:00"] {
        op!(format!("datetime {t}"), move || Dater::new_with_dts(t, None).map(|n| format!("{:?} {:?}", snap(&n), es(n.dts()))).unwrap_or_else(|e| e.to_string()));
    }

    // texts and paths
    for t in ["abc", "abcd", "abd", "ABC", "AAAA", "", "a", "ab", "a!"] {
        op!(format!("bext {t}"), move || Bexter::new_with_bext(t).map(|n| format!("{:?} {:?}", snap(&n), es(n.bext()))).unwrap_or_else(|e| e.to_string()));
    }
    let docs = [json!({"a": {"b": "1", "c": ["x", "y"]}, "b": "2"}), json!({"a": {"b": "3", "c": ["z"]}, "b": "4"})];
    for t in ["-a", "-a-b", "-b", "-a-c-0", "-a-c-1", "-ab", "a-b", "-"] {
        let docs = docs.clone();
        op!(format!("path {t}"), move || match Pather::new_with_bext(t) {
            Ok(p) => format!(
                "{:?} {:?} {:?}",
                snap(&p),
                p.path().map_err(|e| e.to_string()).and_then(|v| es(v.to_json())),
                docs.iter().map(|d| p.resolve(&val(d)).map_err(|e| e.to_string()).and_then(|v| es(v.to_json()))).collect::<Vec<_>>()
            ),
            Err(e) => e.to_string(),
        });
    }
    for (a, b) in [("-a-b", "-a"), ("-ab", "-a"), ("-a", "-a-b"), ("-b-a", "-b")] {
        op!(format!("paths {a} {b}"), move || match (Pather::new_with_bext(a), Pather::new_with_bext(b)) {
            (Ok(p), Ok(q)) => format!(
                "{:?} {:?} {:?}",
                p.root(&q).map_err(|e| e.to_string()).and_then(|x| es(x.qb64())),
                p.strip(&q).map_err(|e| e.to_string()).and_then(|x| es(x.qb64())),
                es(p.starts_with(&q))
            ),
            _ => "failed".to_string(),
        });
    }
    for j in [json!(["a", "b"]), json!(["a", "c"]), json!(["a-b"]), json!([])] {
        op!(format!("path of {j}"), move || Pather::new_with_path(&val(&j)).map(|p| format!("{:?}", snap(&p))).unwrap_or_else(|e| e.to_string()));
    }

    // primitives: every type, in text and binary, right and wrong
    let k1 = key("D", 1);
    let mut k1pad = k1.clone();
    k1pad.replace_range(0..2, "D_");
    let mut last = key("D", 1);
    last.replace_range(43..44, if k1.ends_with('A') { "B" } else { "A" });
    for (n, t) in [
        ("D 1", k1.clone()),
        ("D 1, other last character", last),
        ("D 1, non-zero pad", k1pad),
        ("D 2", key("D", 2)),
        ("B 1", key("B", 1)),
        ("E 1", key("E", 1)),
        ("cut", k1[..43].to_string()),
        ("0A", "0AAwMTIzNDU2Nzg5YWJjZGVm".to_string()),
        ("4A", "4AABabcd".to_string()),
        ("unknown", "_AAA".to_string()),
        ("multi-byte", "D\u{e9}".to_string()),
    ] {
        let bin = spec::dec4(t.as_bytes()).unwrap_or_default();
        op!(format!("primitives from {n}"), move || TYPES.iter().map(|ty| format!("{}:{:?}{:?}", ty.name, (ty.qb64)(&t), (ty.qb2)(&bin))).collect::<Vec<_>>().join(" "));
    }
    for (n, c, r) in [("D", "D", vec![1u8; 32]), ("0A", "0A", vec![1; 16]), ("4B", "4B", vec![1; 5]), ("long", "4B", vec![1; 12290]), ("short", "D", vec![1; 31]), ("unknown", "_", vec![1; 3])] {
        op!(format!("primitives from raw {n}"), move || TYPES
            .iter()
            .filter(|t| !(t.name == "Signer"))
            .map(|ty| format!("{}:{:?}", ty.name, (ty.raw)(c, &r).map(|s| (s.qb64.len(), crate::ctx::h64(&s)))))
            .collect::<Vec<_>>()
            .join(" "));
    }
    let ig = |c: &str, i: u32, o: Option<u32>| spec::i_text(&spec::i_build(c, &spec::filler(64, 3), i, o).unwrap());
    for (n, t) in [("A 1", ig("A", 1, None)), ("A 2", ig("A", 2, None)), ("B 1", ig("B", 1, None)), ("2A 1 2", ig("2A", 1, Some(2))), ("2A 2 1", ig("2A", 2, Some(1))), ("cut", ig("A", 1, None)[..87].to_string()), ("unknown", "-AAB".to_string())] {
        let bin = spec::dec4(t.as_bytes()).unwrap_or_default();
        op!(format!("indexed from {n}"), move || ITYPES.iter().map(|ty| format!("{}:{:?}{:?}", ty.name, (ty.qb64)(&t), (ty.qb2)(&bin))).collect::<Vec<_>>().join(" "));
    }
    for (c, i, o) in [("A", 5u32, None), ("A", 5, Some(6)), ("A", 64, None), ("2A", 5, Some(6)), ("2B", 5, None)] {
        let r = spec::filler(64, 4);
        op!(format!("indexed from raw {c} {i} {o:?}"), move || ITYPES.iter().map(|ty| format!("{}:{:?}", ty.name, (ty.raw)(c, &r, i, o))).collect::<Vec<_>>().join(" "));
    }
    for t in ["-AAB", "-AAC", "-0VAAAAB", "--AAABAA", "-A", "-ZAB", "AAAA", ""] {
        op!(format!("counter from {t}"), move || {
            let b = spec::dec4(t.as_bytes()).unwrap_or_default();
            format!(
                "{:?} {:?}",
                Counter::new_with_qb64(t).map(|c| (c.code(), c.count(), c.qb64().ok(), c.qb2().ok(), c.full_size().ok(), c.count_as_b64(2).ok())).map_err(|e| e.to_string()),
                Counter::new_with_qb2(&b).map(|c| (c.code(), c.count(), c.qb64().ok())).map_err(|e| e.to_string())
            )
        });
    }
    for (c, n) in [("-A", 1u32), ("-A", 4096), ("-0V", 4096)] {
        op!(format!("counter {c} {n}"), move || format!(
            "{:?}",
            Counter::new_with_code_and_count(c, n).map(|c| (c.qb64().ok(), c.qb2().ok())).map_err(|e| e.to_string())
        ));
    }
    for (n, t) in [("B", "B"), ("BA", "BA"), ("too large", "______"), ("bad", "=")] {
        op!(format!("base64 number {n}"), move || format!("{:?}", Counter::new(None, Some(t), Some("-A"), None, None, None).map(|c| c.count()).map_err(|e| e.to_string())));
    }
    v
}

pub struct Family {
    pub name: &'static str,
    /// how many arguments it is worth trying, at most
    pub limit: usize,
    pub f: Box<dyn Fn(usize) -> String + Send + Sync>,
}

/// small numbers, and numbers that differ from them in one high bit only
fn wide(i: usize) -> usize {
    let j = i / 2;
    if i % 2 == 0 {
        j
    } else {
        j % 20 + (1 << (4 + j / 20 % 20))
    }
}

/// Operations over many different arguments, for what fills up, wears out or comes round again.
pub fn families() -> Vec<Family> {
    let mut v: Vec<Family> = vec![];
    macro_rules! family {
        ($name:expr, $limit:expr, $f:expr) => {
            v.push(Family { name: $name, limit: $limit, f: Box::new($f) })
        };
    }
    let all = usize::MAX;
    family!("versify", all, |i| format!("{:?}", es(common::versify(None, None, None, Some(wide(i) as u32)))));
    family!("deversify", all, |i| common::deversify(&format!("KERI10JSON{:06x}_", wide(i))).map(|d| format!("{} {} {}", d.ident, d.kind, d.size)).unwrap_or_else(|e| e.to_string()));
    family!("sniff", all, |i| common::sniff(format!("{{\"v\":\"KERI10JSON{:06x}_\",\"d\":\"\"}}", wide(i)).as_bytes()).map(|d| format!("{} {} {}", d.ident, d.kind, d.size)).unwrap_or_else(|e| e.to_string()));
    family!("sizeify", all, |i| common::sizeify(&val(&json!({"v": "KERI10JSON000000_", "x": i.to_string()})), None).map(|r| String::from_utf8_lossy(&r.raw).to_string()).unwrap_or_else(|e| e.to_string()));
    family!("digests", all, |i| {
        let c = spec::DIGESTS[i % spec::DIGESTS.len()];
        let d = (i / spec::DIGESTS.len()).to_string();
        Diger::new_with_ser(d.as_bytes(), Some(c)).map(|x| format!("{:?} {:?} {:?}", es(x.qb64()), es(x.verify(d.as_bytes())), es(x.verify(b"x")))).unwrap_or_else(|e| e.to_string())
    });
    family!("numbers", all, |i| {
        let h = format!("{:x}", (wide(i) as u128) << (i % 100));
        Number::new_with_numh(&h).map(|n| format!("{:?} {:?} {:?}", es(n.qb64()), es(n.num()), es(n.numh()))).unwrap_or_else(|e| e.to_string())
    });
    family!("sequence numbers", all, |i| Seqner::new_with_snh(&format!("{:x}", wide(i))).map(|n| format!("{:?} {:?} {:?}", es(n.qb64()), es(n.sn()), es(n.snh()))).unwrap_or_else(|e| e.to_string()));
    family!("datetimes", all, |i| {
        let t = format!("2020-{:02}-{:02}T{:02}:{:02}:09.{:06}+00:00", i % 12 + 1, i % 28 + 1, i % 24, i % 60, wide(i) % 1000000);
        Dater::new_with_dts(&t, None).map(|n| format!("{:?} {:?}", es(n.qb64()), es(n.dts()))).unwrap_or_else(|e| e.to_string())
    });
    family!("texts", all, |i| {
        let t = format!("{}x{i}", "a".repeat(i % 5));
        Bexter::new_with_bext(&t).map(|n| format!("{:?} {:?}", es(n.qb64()), es(n.bext()))).unwrap_or_else(|e| e.to_string())
    });
    family!("paths", all, |i| {
        let d = json!({"a": {"0": "x", "1": "y"}, "b": (0..20).collect::<Vec<_>>()});
        let t = if i % 2 == 0 { format!("-b-{}", i / 2) } else { format!("-a-{}", i / 2) };
        Pather::new_with_bext(&t).map(|p| format!("{:?} {:?}", es(p.qb64()), p.resolve(&val(&d)).map_err(|e| e.to_string()).and_then(|v| es(v.to_json())))).unwrap_or_else(|e| e.to_string())
    });
    family!("thresholds", all, |i| {
        let j = if i % 2 == 0 { json!(format!("{:x}", i / 2 + 1)) } else { json!([format!("{}/{}", i % 7 + 1, i % 11 + 8), "1/2", "1"]) };
        Tholder::new_with_sith(&val(&j)).map(|t| tholder_text(&t)).unwrap_or_else(|e| e.to_string())
    });
    family!("primitives", all, |i| {
        let (c, n) = [("D", 32), ("E", 32), ("0A", 16), ("0B", 64), ("M", 2), ("1AAB", 33)][i % 6];
        let t = spec::m_encode(c, &spec::filler(n, i as u64)).unwrap().1;
        TM::new_with_qb64(&t).map(|p| format!("{:?} {:?}", snap(&p), es(TM::new_with_qb2(&spec::dec4(t.as_bytes()).unwrap()).and_then(|q| q.qb64())))).unwrap_or_else(|e| e.to_string())
    });
    family!("indexed", all, |i| {
        let t = spec::i_text(&spec::i_build("2A", &spec::filler(64, i as u64), i as u32 % 4096, Some((i as u32 * 5) % 4096)).unwrap());
        Siger::new_with_qb64(&t, None).map(|p| format!("{:?}", isnap(&p))).unwrap_or_else(|e| e.to_string())
    });
    family!("counters", all, |i| Counter::new_with_code_and_count(["-A", "-B", "-0V"][i % 3], wide(i / 3) as u32).map(|c| format!("{:?} {:?} {:?}", es(c.qb64()), es(c.qb2()), Counter::new_with_qb64(&c.qb64().unwrap()).map(|c| c.count()).ok())).unwrap_or_else(|e| e.to_string()));
    family!("saids", all, |i| match Saider::saidify(&val(&json!({"d": "", "x": i, "y": "1"})), None, None, None, None) {
        Ok((s, d)) => format!("{:?} {:?} {:?}", es(s.qb64()), es(d.to_json()), es(s.verify(&d, Some(true), None, None, None, None))),
        Err(e) => e.to_string(),
    });
    family!("events", 2000, |i| {
        let mut e = event("icp", 1 + (i % 200) as u8);
        e["s"] = json!(format!("{:x}", i / 200));
        match Serder::new_with_ked(&val(&finished(&e)), None, None) {
            Ok(s) => format!("{:?} {:?} {:?} {:?}", String::from_utf8_lossy(&s.raw()), es(s.pre()), es(s.sn()), s.verfers().map(|v| v.iter().map(|x| x.qb64().ok()).collect::<Vec<_>>()).map_err(|e| e.to_string())),
            Err(e) => e.to_string(),
        }
    });
    family!("prefixes", 2000, |i| {
        let mut e = event("icp", 1 + (i % 200) as u8);
        e["i"] = json!("");
        e["a"] = json!([i]);
        match Prefixer::new_with_ked(&val(&e), None, Some("E")) {
            Ok(p) => format!("{:?}", es(p.qb64())),
            Err(e) => e.to_string(),
        }
    });
    family!("signatures", 1100, |i| {
        let m = format!("message {i}");
        let (_, p, sig) = signed("A", 1 + i % 50, m.as_bytes());
        let v = Verfer::new_with_raw(&p, Some("D")).unwrap();
        format!("{:?} {:?}", es(v.verify(&sig, m.as_bytes())), es(v.verify(&sig, b"message")))
    });
    family!("signing", 600, |i| {
        let s = Signer::new_with_raw(&seed(1 + i % 50), Some(true), Some("A")).unwrap();
        let m = format!("message {i}");
        format!("{:?} {:?}", es(s.sign_unindexed(m.as_bytes()).and_then(|c| c.qb64())), es(s.sign_indexed(m.as_bytes(), false, i as u32, None).and_then(|c| c.qb64())))
    });
    family!("stretching", 300, |i| {
        let s = Salter::new_with_raw(&[1 + (i % 3) as u8; 16], None, None).unwrap();
        format!("{:?}", es(s.stretch(Some(32), Some(&format!("{:x}", i / 3)), None, Some(true))))
    });
    family!("values", all, |i| es(val(&json!({"a": i, "b": [i.to_string(), null, -(i as i64)]})).to_json()).unwrap_or_else(|e| e));
    v
}

pub struct Twins {
    pub name: &'static str,
    /// lengths of the text
    pub lens: &'static [usize],
    pub f: Box<dyn Fn(&str, &str) -> String + Send + Sync>,
}

/// Operations on a long text, and on others of its length that differ from it in one place.
/// The second argument is the text all others are made from.
pub fn twins() -> Vec<Twins> {
    let mut v: Vec<Twins> = vec![];
    macro_rules! twins {
        ($name:expr, $lens:expr, $f:expr) => {
            v.push(Twins { name: $name, lens: $lens, f: Box::new($f) })
        };
    }
    const LONG: &[usize] = &[100, 300, 1100, 5000];
    const SEED: &[usize] = &[32];
    twins!("digests", LONG, |t, b| spec::DIGESTS
        .iter()
        .map(|c| match Diger::new_with_ser(t.as_bytes(), Some(c)) {
            Ok(x) => format!("{:?} {:?} {:?}", es(x.qb64()), es(x.verify(t.as_bytes())), es(x.verify(b.as_bytes()))),
            Err(e) => e.to_string(),
        })
        .collect::<Vec<_>>()
        .join(" "));
    twins!("comparing digests", LONG, |t, b| {
        let other = spec::m_encode("H", &spec::digest("H", b.as_bytes()).unwrap()).unwrap().1;
        Diger::new_with_ser(t.as_bytes(), Some("E")).map_err(|e| e.to_string()).map(|x| format!("{:?}", es(x.compare(t.as_bytes(), Some(other.as_bytes()), None)))).unwrap_or_else(|e| e)
    });
    twins!("saids", LONG, |t, b| {
        let d = |t: &str| val(&json!({"d": "", "x": t, "y": "1"}));
        match Saider::saidify(&d(t), None, None, None, None) {
            Ok((s, r)) => format!("{:?} {:?} {:?} {:?}", es(s.qb64()), es(r.to_json()), es(s.verify(&d(t), None, None, None, None, None)), es(s.verify(&d(b), None, None, None, None, None))),
            Err(e) => e.to_string(),
        }
    });
    twins!("sizes", LONG, |t, _| common::sizeify(&val(&json!({"v": "KERI10JSON000000_", "x": t})), None).map(|r| String::from_utf8_lossy(&r.raw).to_string()).unwrap_or_else(|e| e.to_string()));
    twins!("values", LONG, |t, _| es(val(&json!({"a": t, t: [t]})).to_json()).unwrap_or_else(|e| e));
    twins!("sniffing", LONG, |t, _| common::sniff(format!("{{\"v\":\"KERI10JSON0000aa_\",\"x\":\"{t}\"}}").as_bytes()).map(|d| format!("{} {} {}", d.ident, d.kind, d.size)).unwrap_or_else(|e| e.to_string()));
    twins!("events", LONG, |t, b| {
        let mut e = event("icp", 1);
        e["a"] = json!([t]);
        let f = finished(&e);
        // the other content under the digest of this one
        let mut g = f.clone();
        g["a"] = json!([b]);
        let from = |j: &J| Serder::new_with_raw(j.to_string().as_bytes()).map(|s| serder_text(&s)).unwrap_or_else(|e| e.to_string());
        format!(
            "{} {} {}",
            from(&f),
            from(&g),
            Serder::new_with_ked(&val(&f), None, None).map(|s| serder_text(&s)).unwrap_or_else(|e| e.to_string()),
        )
    });
    twins!("credentials", LONG, |t, b| {
        let mut e = credential(1);
        e["a"]["x"] = json!(t);
        let f = finished(&e);
        let mut g = f.clone();
        g["a"]["x"] = json!(b);
        let from = |j: &J| Creder::new_with_raw(j.to_string().as_bytes()).map(|s| creder_text(&s)).unwrap_or_else(|e| e.to_string());
        format!("{} {} {}", from(&f), from(&g), Creder::new_with_ked(&val(&f), None, None).map(|s| creder_text(&s)).unwrap_or_else(|e| e.to_string()))
    });
    twins!("prefixes", LONG, |t, b| {
        let e = |t: &str| {
            let mut e = event("icp", 1);
            e["i"] = json!("");
            e["a"] = json!([t]);
            val(&e)
        };
        match Prefixer::new_with_ked(&e(t), None, Some("E")) {
            Ok(p) => format!("{:?} {:?} {:?}", es(p.qb64()), es(p.verify(&e(t), None)), es(p.verify(&e(b), None))),
            Err(e) => e.to_string(),
        }
    });
    twins!("texts", LONG, |t, _| Bexter::new_with_bext(t).map(|n| format!("{:?} {:?}", snap(&n), es(n.bext()))).unwrap_or_else(|e| e.to_string()));
    twins!("paths", LONG, |t, b| {
        let d = val(&json!({t: {"x": t}, b: "other"}));
        match (Pather::new_with_bext(&format!("-{t}-x")), Pather::new_with_bext(&format!("-{b}"))) {
            (Ok(p), Ok(q)) => format!(
                "{:?} {:?} {:?} {:?} {:?}",
                snap(&p),
                p.resolve(&d).map_err(|e| e.to_string()).and_then(|v| es(v.to_json())),
                es(p.starts_with(&q)),
                p.strip(&q).map_err(|e| e.to_string()).and_then(|v| es(v.qb64())),
                p.root(&q).map_err(|e| e.to_string()).and_then(|v| es(v.qb64()))
            ),
            (a, b) => format!("{:?} {:?}", a.map(|_| ()).map_err(|e| e.to_string()), b.map(|_| ()).map_err(|e| e.to_string())),
        }
    });
    twins!("thresholds", &[100, 150], |t, _| {
        let w: Vec<&str> = t.bytes().map(|c| ["1/2", "1/3", "1/4"][c as usize % 3]).collect();
        let th = Tholder::new_with_sith(&val(&json!(w)));
        th.map(|t| {
            let last: Vec<u32> = (0..t.size()).collect();
            format!("{} {:?} {:?}", tholder_text(&t), es(t.satisfy(&last)), (0..6).map(|i| es(t.satisfy(&[i, i + 20, i + 40]))).collect::<Vec<_>>())
        })
        .unwrap_or_else(|e| e.to_string())
    });
    twins!("thresholds of many clauses", &[40], |t, _| {
        let w: Vec<Vec<&str>> = t.bytes().map(|c| [vec!["1/2", "1/2"], vec!["1"], vec!["1", "1/3"]][c as usize % 3].clone()).collect();
        Tholder::new_with_sith(&val(&json!(w))).map(|t| tholder_text(&t)).unwrap_or_else(|e| e.to_string())
    });
    twins!("primitives", LONG, |t, _| {
        let text = spec::m_encode(["4B", "5B", "6B"][(3 - t.len() % 3) % 3], t.as_bytes()).or_else(|| spec::m_encode(["7AAB", "8AAB", "9AAB"][(3 - t.len() % 3) % 3], t.as_bytes())).unwrap().1;
        let bin = spec::dec4(text.as_bytes()).unwrap();
        format!(
            "{:?} {:?} {:?}",
            TM::new_with_qb64(&text).map(|p| snap(&p)).map_err(|e| e.to_string()),
            TM::new_with_qb2(&bin).map(|p| snap(&p)).map_err(|e| e.to_string()),
            Bexter::new_with_raw(t.as_bytes(), Some("4B")).map(|p| snap(&p)).map_err(|e| e.to_string())
        )
    });
    for suite in ["A", "J", "Q"] {
        twins!(
            match suite {
                "A" => "messages signed, A",
                "J" => "messages signed, J",
                _ => "messages signed, Q",
            },
            if suite == "A" { LONG } else { &[1100] },
            move |t, b| {
                let (_, p, sig) = signed(suite, 1, b.as_bytes());
                let v = Verfer::new_with_raw(&p, Some(verfer_code(suite, true))).unwrap();
                let s = Signer::new_with_raw(&seed(1), Some(true), Some(suite)).unwrap();
                let c = s.sign_unindexed(t.as_bytes()).unwrap();
                let i = s.sign_indexed(t.as_bytes(), false, 1, None).unwrap();
                format!(
                    "{:?} {:?} {:?} {:?} {}",
                    es(v.verify(&sig, t.as_bytes())),
                    es(v.verify(&c.raw(), t.as_bytes())),
                    es(v.verify(&Indexer::raw(&i), t.as_bytes())),
                    es(v.verify(&c.raw(), b.as_bytes())),
                    if suite == "A" { es(c.qb64()).unwrap() } else { String::new() }
                )
            }
        );
    }
    for suite in ["A", "J", "Q"] {
        twins!(
            match suite {
                "A" => "seeds, A",
                "J" => "seeds, J",
                _ => "seeds, Q",
            },
            SEED,
            move |t, b| {
                let s = |t: &str| Signer::new_with_raw(t.as_bytes(), Some(true), Some(suite));
                match (s(t), s(b)) {
                    (Ok(x), Ok(y)) => {
                        let c = x.sign_unindexed(b"m").unwrap();
                        format!("{:?} {:?} {:?} {:?}", es(x.qb64()), es(x.verfer().qb64()), es(x.verfer().verify(&c.raw(), b"m")), es(y.verfer().verify(&c.raw(), b"m")))
                    }
                    _ => "failed".to_string(),
                }
            }
        );
    }
    twins!("salts", &[16], |t, _| Salter::new_with_raw(t.as_bytes(), None, None).map(|s| format!("{:?} {:?}", es(s.qb64()), es(s.stretch(Some(32), Some("a"), None, Some(true))))).unwrap_or_else(|e| e.to_string()));
    twins!("stretching", &[100, 300, 1100], |t, _| Salter::new_with_raw(&[1; 16], None, None).map(|s| format!("{:?}", es(s.stretch(Some(32), Some(t), None, Some(true))))).unwrap_or_else(|e| e.to_string()));
    twins!("keys", SEED, |t, b| {
        let v = |t: &str| Verfer::new_with_raw(t.as_bytes(), Some("D"));
        format!("{:?} {:?} {:?}", v(t).map(|v| snap(&v)).map_err(|e| e.to_string()), v(t).map(|v| es(v.verify(&[7; 64], b.as_bytes()))).map_err(|e| e.to_string()), Diger::new_with_raw(t.as_bytes(), Some("E")).map(|v| (snap(&v), es(v.verify(b.as_bytes())))).map_err(|e| e.to_string()))
    });
    twins!("signatures", &[64], |t, _| {
        let i = |c: &str, i: u32, o: Option<u32>| Siger::new_with_raw(t.as_bytes(), None, Some(i), o, Some(c)).map(|s| isnap(&s)).map_err(|e| e.to_string());
        format!("{:?} {:?} {:?}", i("A", 1, None), i("2A", 70, Some(3)), Cigar::new_with_raw(t.as_bytes(), None, Some("0B")).map(|c| snap(&c)).map_err(|e| e.to_string()))
    });
    v
}
