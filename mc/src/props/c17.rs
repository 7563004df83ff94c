//! C17: identifier prefixes.
use super::c15::{key, KEYS};
use super::docs::*;
use super::types::*;
use super::*;
use crate::ctx::{Ctx, Obs, R};
use crate::{ensure, same, spec};
use cesride::{Matter, Prefixer};
use serde_json::{json, Map, Value as J};

const NT: &[&str] = &["B", "1AAA", "1AAI"];
const ILKS: &[&str] = &["icp", "dip", "vcp"];
const CODES: &[&str] =
    &["B", "1AAA", "1AAI", "D", "1AAB", "1AAJ", "E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];

pub fn empty(j: Option<&J>) -> bool {
    match j {
        None | Some(J::Null) => true,
        Some(J::String(s)) => s.is_empty(),
        Some(J::Array(a)) => a.is_empty(),
        Some(J::Object(o)) => o.is_empty(),
        _ => false,
    }
}

/// the digest of an event with placeholders
pub fn addressed(doc: &Map<String, J>, code: &str) -> Option<String> {
    let dummy = "#".repeat(spec::mc(code)?.fs);
    let mut d = doc.clone();
    d.insert("i".into(), json!(dummy));
    d.insert("d".into(), json!(dummy));
    let d = sized(&d)?;
    let dig = spec::digest(code, dump(&J::Object(d)).as_bytes())?;
    Some(spec::m_encode(code, &dig)?.1)
}

/// the prefix an event determines under a code
fn derived(doc: &Map<String, J>, code: &str) -> Option<String> {
    if !ILKS.contains(&doc.get("t")?.as_str()?) {
        return None;
    }
    if KEYS.contains(&code) {
        let k = doc.get("k")?.as_array()?;
        if k.len() != 1 {
            return None;
        }
        let t = k[0].as_str()?;
        let m = spec::m_parse(t.as_bytes())?;
        if m.code != code {
            return None;
        }
        if NT.contains(&code) && !(empty(doc.get("n")) && empty(doc.get("b")) && empty(doc.get("a"))) {
            return None;
        }
        return Some(t[..m.fs].to_string());
    }
    if !CODES.contains(&code) {
        return None;
    }
    addressed(doc, code)
}

/// does the event vouch for the prefix?
fn vouches(doc: &Map<String, J>, pre: &str, prefixed: bool) -> bool {
    let code = spec::m_parse(pre.as_bytes()).unwrap().code;
    let t = doc.get("t").and_then(|t| t.as_str()).unwrap_or("");
    if !ILKS.contains(&t) {
        return false;
    }
    if prefixed && doc.get("i").and_then(|i| i.as_str()) != Some(pre) {
        return false;
    }
    if KEYS.contains(&code.as_str()) {
        let Some(k) = doc.get("k").and_then(|k| k.as_array()) else { return false };
        return k.len() == 1 && k[0].as_str() == Some(pre) && !(NT.contains(&code.as_str()) && !empty(doc.get("n")));
    }
    addressed(doc, &code).as_deref() == Some(pre)
}

fn check(doc: &Map<String, J>, pool: &[String], o: &mut Obs) -> R {
    let ked = val(&J::Object(doc.clone()));
    for code in CODES {
        let got = Prefixer::new_with_ked(&ked, None, Some(code));
        let allowed = Prefixer::new_with_ked(&ked, Some(&["0B", code]), Some(code));
        let refused = Prefixer::new_with_ked(&ked, Some(&["0B", if *code == "E" { "D" } else { "E" }]), Some(code));
        let none = Prefixer::new(Some(&ked), Some(&[]), Some(code), None, None, None, None);
        o.steps(4);
        ensure!(refused.is_err(), "{code}: derived although not allowed");
        match derived(doc, code) {
            None => ensure!(got.is_err() && allowed.is_err() && none.is_err(), "{code}: derived {:?}", got.map(|g| g.qb64().ok())),
            Some(p) => {
                for g in [got, allowed, none] {
                    let g = es(g).map_err(|e| format!("{code}: {e}"))?;
                    same!(es(g.qb64()), Ok(p.clone()), "{code}: prefix");
                    same!(g.code(), *code, "{code}: code");
                }
                same!(es(es(Prefixer::new_with_qb64(&p))?.verify(&ked, None)), Ok(true), "{code}: verify");
                same!(es(es(Prefixer::new_with_qb64(&p))?.verify(&ked, Some(false))), Ok(true), "{code}: verify");
                // placed into the event
                let mut d = doc.clone();
                d.insert("i".into(), json!(p));
                if !KEYS.contains(code) {
                    d.insert("d".into(), json!(p));
                }
                let d = match sized(&d) {
                    Some(d) => d,
                    None => d,
                };
                if vouches(&d, &p, true) {
                    same!(es(es(Prefixer::new_with_qb64(&p))?.verify(&val(&J::Object(d.clone())), Some(true))), Ok(true), "{code}: verify in place");
                    // derived from the event that names it
                    let again = es(Prefixer::new_with_ked(&val(&J::Object(d)), None, None))?;
                    same!(es(again.qb64()), Ok(p), "{code}: derived from the finished event");
                    o.steps(2);
                }
                o.steps(3);
            }
        }
    }
    // no code: the identifier field tells
    let got = Prefixer::new_with_ked(&ked, None, None);
    let want = doc
        .get("i")
        .and_then(|i| i.as_str())
        .and_then(|i| spec::m_parse(i.as_bytes()))
        .filter(|m| CODES.contains(&m.code.as_str()))
        .and_then(|m| derived(doc, &m.code));
    o.step();
    match want {
        None => ensure!(got.is_err(), "derived without a code: {:?}", got.map(|g| g.qb64().ok())),
        Some(p) => same!(es(es(got)?.qb64()), Ok(p), "derived without a code"),
    }
    // any prefix against this event
    for p in pool {
        let x = es(Prefixer::new_with_qb64(p))?;
        for pr in [None, Some(false), Some(true)] {
            let want = vouches(doc, p, pr == Some(true));
            let got = x.verify(&ked, pr);
            o.step();
            if want {
                same!(es(got), Ok(true), "verify {p} prefixed {pr:?}");
            } else {
                ensure!(!matches!(got, Ok(true)), "verifies {p} prefixed {pr:?}");
            }
        }
    }
    o.state(dump(&J::Object(doc.clone())));
    Ok(())
}

fn pool() -> Vec<String> {
    let mut p = vec![];
    for c in CODES {
        p.push(key(c, 1));
        p.push(key(c, 2));
    }
    p
}

pub fn run(ctx: &Ctx) {
    let pool = pool();
    // the same key bytes under both transferabilities
    let ks: Vec<Option<J>> = vec![
        None,
        Some(json!(null)),
        Some(json!("")),
        Some(json!([])),
        Some(json!({})),
        Some(json!([""])),
        Some(json!([1])),
        Some(json!([null])),
        Some(json!(key("D", 1))),
        Some(json!([key("B", 1)])),
        Some(json!([key("D", 1)])),
        Some(json!([key("1AAA", 1)])),
        Some(json!([key("1AAB", 1)])),
        Some(json!([key("1AAI", 1)])),
        Some(json!([key("1AAJ", 1)])),
        Some(json!([key("E", 1)])),
        Some(json!([key("0B", 1)])),
        Some(json!([key("D", 1), key("D", 2)])),
        Some(json!([key("B", 1), key("B", 1)])),
    ];
    let fill: Vec<Option<J>> = vec![
        None,
        Some(json!(null)),
        Some(json!("")),
        Some(json!([])),
        Some(json!({})),
        Some(json!("x")),
        Some(json!([key("E", 1)])),
        Some(json!([""])),
        Some(json!({"a": 1})),
        Some(json!(0)),
        Some(json!(false)),
    ];
    let ilks: Vec<Option<J>> = ["icp", "dip", "vcp", "rot", "ixn", "drt", "vrt", "iss", "rct", "", "ICP", "icp "]
        .iter()
        .map(|t| Some(json!(t)))
        .chain([None, Some(json!(1)), Some(json!(null)), Some(json!(["icp"]))])
        .collect();
    let ids: Vec<Option<J>> = vec![None, Some(json!("")), Some(json!(key("E", 2))), Some(json!(key("D", 1))), Some(json!(key("B", 1))), Some(json!(key("0G", 1))), Some(json!(key("0B", 1))), Some(json!(1))];

    let build = |t: &Option<J>, i: &Option<J>, k: &Option<J>, n: &Option<J>, b: &Option<J>, a: &Option<J>| {
        let mut d = Map::new();
        d.insert("v".into(), json!("KERI10JSON000000_"));
        for (l, x) in [("t", t), ("d", &Some(json!(""))), ("i", i), ("s", &Some(json!("0"))), ("kt", &Some(json!("1"))), ("k", k), ("nt", &Some(json!("0"))), ("n", n), ("bt", &Some(json!("0"))), ("b", b), ("c", &Some(json!([]))), ("a", a)] {
            if let Some(x) = x {
                d.insert(l.into(), x.clone());
            }
        }
        d
    };
    let run1 = |d: &Map<String, J>| ctx.case(|| format!("prefix of {}", dump(&J::Object(d.clone()))), |o| check(d, &pool, o));

    // keys x next keys x witnesses x anchors
    let nf = fill.len();
    ctx.par(ks.len() * nf * nf, |x| {
        let (k, n, b) = (&ks[x % ks.len()], &fill[x / ks.len() % nf], &fill[x / ks.len() / nf]);
        for a in if ctx.thorough { &fill[..] } else { &fill[..7] } {
            run1(&build(&Some(json!("icp")), &Some(json!("")), k, n, b, a));
        }
    });
    ctx.section("keys, next keys, witnesses, anchors");
    // what counts as empty: every shallow value, in each of the three fields and in all
    let mut shallow = vec![json!(null), json!(true), json!(false), json!(0), json!(-1), json!(0.0), json!(""), json!(" "), json!("0"), json!("[]"), json!([]), json!({})];
    for depth in 0..2 {
        let inner: Vec<J> = if depth == 0 { shallow.clone() } else { vec![json!([]), json!([[]]), json!({}), json!([""]), json!({"a": ""})] };
        for x in &inner {
            shallow.push(json!([x]));
            shallow.push(json!([x, x]));
            shallow.push(json!({ "a": x }));
            shallow.push(json!({ "": x, "b": x }));
        }
    }
    ctx.par(shallow.len() * 4, |i| {
        let (x, f) = (Some(shallow[i / 4].clone()), i % 4);
        let e = Some(json!([]));
        for c in ["B", "1AAA", "1AAI", "D", "1AAJ"] {
            let k = Some(json!([key(c, 1)]));
            let pick = |g: usize| if f == g || f == 3 { &x } else { &e };
            run1(&build(&Some(json!("icp")), &Some(json!(key(c, 1))), &k, pick(0), pick(1), pick(2)));
        }
    });
    ctx.section("empty and not empty");
    // types x identifiers x keys x next keys
    ctx.par(ilks.len() * ids.len() * ks.len(), |x| {
        let (t, i, k) = (&ilks[x % ilks.len()], &ids[x / ilks.len() % ids.len()], &ks[x / ilks.len() / ids.len()]);
        for n in [None, Some(json!([])), Some(json!([key("E", 1)]))] {
            run1(&build(t, i, k, &n, &Some(json!([])), &Some(json!([]))));
        }
    });
    ctx.section("types and identifiers");
    // versions and identities
    for v in ["KERI10JSON000000_", "ACDC10JSON000000_", "KERI10JSON00ffff_", "KERI10CBOR000000_", "KERI20JSON000000_", "", "x"] {
        for k in &ks {
            let mut d = build(&Some(json!("icp")), &Some(json!("")), k, &None, &None, &None);
            d.insert("v".into(), json!(v));
            run1(&d);
            d.shift_remove("v");
            run1(&d);
        }
    }
    for d in [json!({}), json!({"t": "icp"}), json!({"t": "icp", "v": "KERI10JSON000000_"}), json!({"t": "icp", "v": 1, "k": [key("D", 1)]}), json!({"v": "KERI10JSON000000_", "k": [key("D", 1)]})] {
        run1(d.as_object().unwrap());
    }
    for d in [json!(null), json!(1), json!("icp"), json!([]), json!([{"t": "icp"}])] {
        ctx.case(
            || format!("prefix of {}", dump(&d)),
            |o| {
                for c in CODES {
                    ensure!(Prefixer::new_with_ked(&val(&d), None, Some(c)).is_err(), "derived");
                    ensure!(!matches!(es(Prefixer::new_with_qb64(&key(c, 1)))?.verify(&val(&d), None), Ok(true)), "verifies");
                    o.steps(2);
                }
                ensure!(Prefixer::new_with_ked(&val(&d), None, None).is_err(), "derived");
                Ok(())
            },
        );
    }
    ctx.case(
        || "other codes".into(),
        |o| {
            let d = build(&Some(json!("icp")), &Some(json!("")), &ks[10], &None, &None, &None);
            for c in spec::MATTER.iter().map(|m| m.code).chain(["", "Z", "é"]) {
                if !CODES.contains(&c) {
                    ensure!(Prefixer::new_with_ked(&val(&J::Object(d.clone())), None, Some(c)).is_err(), "derived for {c:?}");
                    o.step();
                }
            }
            ensure!(Prefixer::new(None, None, Some("E"), None, None, None, None).is_err(), "derived from nothing");
            Ok(())
        },
    );
    ctx.section("versions, codes, other values");

    // every set of fields, under every type and identifier
    ctx.par(1 << 8, |bits| {
        for t in ILKS {
            for i in [key("D", 1), key("D", 2), key("B", 1), key("E", 1), String::new()] {
                for k in ["D", "B", "1AAJ"] {
                    let mut d = Map::new();
                    d.insert("v".into(), json!("KERI10JSON000000_"));
                    d.insert("t".into(), json!(t));
                    let (with, empty) = (bits >> 7 == 1, json!([]));
                    let pick = |x: J| if with { x } else { empty.clone() };
                    for (n, (l, x)) in [("d", json!(i)), ("i", json!(i)), ("k", json!([key(k, 1)])), ("n", pick(json!([key("E", 1)]))), ("b", pick(json!([key("B", 1)]))), ("di", json!(key("D", 2))), ("x", pick(json!({"y": 1})))].into_iter().enumerate() {
                        if bits >> n & 1 == 1 {
                            d.insert(l.into(), x);
                        }
                    }
                    run1(&d);
                }
            }
        }
    });
    ctx.section("sets of fields");
    for t in ILKS {
        for code in CODES {
            let k = Some(json!([key(if KEYS.contains(code) { code } else { "D" }, 1)]));
            let d = build(&Some(json!(t)), &Some(json!("")), &k, &None, &None, &None);
            let ked = val(&J::Object(d.clone()));
            let near: Vec<String> = vec![String::new(), format!("{code}A"), format!(" {code}"), format!("{code} "), code[1..].into(), code[..code.len() - 1].into(), code.to_lowercase(), key(code, 1)];
            let mut long: Vec<String> = (0..300).map(|i| format!("{code}{i}")).collect();
            for n in near.iter().filter(|n| *n != code) {
                ctx.case(|| format!("allowed {t} {code} in {n:?}"), |o| {
                    o.step();
                    ensure!(Prefixer::new_with_ked(&ked, Some(&[n]), Some(code)).is_err(), "derived although not allowed");
                    Ok(())
                });
            }
            ctx.case(|| format!("allowed {t} {code} in a long list"), |o| {
                o.steps(3);
                let l: Vec<&str> = long.iter().map(String::as_str).collect();
                ensure!(Prefixer::new_with_ked(&ked, Some(&l), Some(code)).is_err(), "derived although not allowed");
                long.push(code.to_string());
                let l: Vec<&str> = long.iter().map(String::as_str).collect();
                same!(es(es(Prefixer::new_with_ked(&ked, Some(&l), Some(code)))?.qb64()), Ok(derived(&d, code).unwrap()), "last of the list");
                same!(es(es(Prefixer::new_with_ked(&ked, Some(&[code, code]), Some(code)))?.qb64()), Ok(derived(&d, code).unwrap()), "twice in the list");
                Ok(())
            });
        }
    }
    ctx.section("allowed codes");
    // a finished self-addressing inception, and every change of it
    for t in ILKS {
        for code in CODES {
            let mut d = build(&Some(json!(t)), &Some(json!("")), &Some(json!([key(if KEYS.contains(code) { code } else { "D" }, 1)])), &Some(if NT.contains(code) { json!([]) } else { json!([key("E", 2), key("E", 3)]) }), &Some(if NT.contains(code) { json!([]) } else { json!([key("B", 1), key("B", 2)]) }), &Some(json!([])));
            if !NT.contains(code) {
                d.insert("a".into(), json!([{"i": "x", "s": "1"}, {"d": "y"}]));
            }
            let p = derived(&d, code).unwrap();
            d.insert("i".into(), json!(p));
            d.insert("d".into(), json!(p));
            let d = sized(&d).unwrap();
            ctx.case(|| format!("finished {t} {code}"), |o| {
                check(&d, &pool, o)?;
                same!(es(es(Prefixer::new_with_qb64(&p))?.verify(&val(&J::Object(d.clone())), Some(true))), Ok(true), "verify");
                Ok(())
            });
            let ms = mutants(&J::Object(d.clone()), &[]);
            ctx.par(ms.len(), |i| {
                let (how, m) = &ms[i];
                ctx.case(
                    || format!("finished {t} {code} changed: {how}"),
                    |o| {
                        let x = es(Prefixer::new_with_qb64(&p))?;
                        for pr in [None, Some(true)] {
                            let want = vouches(m.as_object().unwrap(), &p, pr.is_some());
                            let got = x.verify(&val(m), pr);
                            o.step();
                            if want {
                                same!(es(got), Ok(true), "verify prefixed {pr:?}");
                            } else {
                                ensure!(!matches!(got, Ok(true)), "verifies prefixed {pr:?}");
                            }
                        }
                        o.state((t, code, how));
                        Ok(())
                    },
                );
            });
            // every altered bit of the prefix
            ctx.case(
                || format!("finished {t} {code}, altered prefix"),
                |o| {
                    let m = spec::m_parse(p.as_bytes()).unwrap();
                    for b in 0..8 * m.raw.len() {
                        let mut r = m.raw.clone();
                        r[b / 8] ^= 0x80 >> (b % 8);
                        let x = es(Prefixer::new_with_raw(&r, Some(code)))?;
                        ensure!(!matches!(x.verify(&val(&J::Object(d.clone())), None), Ok(true)), "verifies with bit {b} altered");
                        o.step();
                    }
                    Ok(())
                },
            );
        }
    }
    ctx.section("finished events and their changes");
}
