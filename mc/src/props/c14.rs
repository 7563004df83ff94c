//! C14: self-addressing identifiers of documents.
use super::docs::*;
use super::types::*;
use super::*;
use crate::ctx::{Ctx, Obs, R};
use crate::{ensure, same, spec};
use cesride::{Matter, Saider};
use serde_json::{json, Map, Value as J};

struct Spec<'a> {
    doc: &'a Map<String, J>,
    code: &'a str,
    label: &'a str,
    ignore: &'a [&'a str],
}

fn flags() -> Vec<(Option<bool>, Option<bool>)> {
    let b = [None, Some(false), Some(true)];
    b.iter().flat_map(|p| b.iter().map(move |v| (*p, *v))).collect()
}

fn check(s: &Spec, deep: bool, o: &mut Obs) -> R {
    let (code, label, ignore) = (s.code, s.label, s.ignore);
    let doc = J::Object(s.doc.clone());
    let ign = if ignore.is_empty() { None } else { Some(ignore) };
    let want = if s.doc.contains_key(label) { saidify(s.doc, code, label, ignore) } else { None };
    let got = Saider::saidify(&val(&doc), Some(code), None, Some(label), ign);
    o.step();
    let Some((said, out)) = want else {
        ensure!(got.is_err(), "accepted");
        return Ok(());
    };
    let (saider, ked) = es(got)?;
    let out = J::Object(out);
    same!(es(saider.qb64()), Ok(said.clone()), "said");
    same!(es(ked.to_json()), Ok(dump(&out)), "document");
    // defaults
    let c = if code == "E" { None } else { Some(code) };
    let l = if label == "d" { None } else { Some(label) };
    let again = es(Saider::saidify(&val(&doc), c, Some("JSON"), l, Some(ignore)))?;
    same!((es(again.0.qb64())?, es(again.1.to_json())?), (said.clone(), dump(&out)), "with defaults");
    // idempotent
    let twice = es(Saider::saidify(&ked, Some(code), None, Some(label), ign))?;
    same!((es(twice.0.qb64())?, es(twice.1.to_json())?), (said.clone(), dump(&out)), "a second time");
    // recomputed from the finished document
    same!(es(es(Saider::new_with_sad(&ked, Some(label), None, ign, None))?.qb64()), Ok(said.clone()), "from the document");
    same!(es(es(Saider::new_with_sad(&ked, Some(label), None, ign, Some(code)))?.qb64()), Ok(said.clone()), "from the document and code");
    o.steps(4);
    let parsed = es(Saider::new_with_qb64(&said))?;
    for (p, v) in flags() {
        for kind in [None, Some("JSON")] {
            same!(es(parsed.verify(&ked, p, v, kind, Some(label), ign)), Ok(true), "verify prefixed {p:?} versioned {v:?} kind {kind:?}");
            o.step();
        }
    }
    same!(es(parsed.verify(&ked, Some(true), None, Some("JSON"), l, ign)), Ok(true), "verify with defaults");
    o.state((dump(&out), ignore));
    if !deep {
        return Ok(());
    }
    // any other change makes verification fail
    let mut skip = vec![label];
    skip.extend_from_slice(ignore);
    for (how, m) in mutants(&out, &skip) {
        if ignore.iter().any(|k| m.get(*k).map(dump) != out.get(*k).map(dump)) {
            continue;
        }
        // moving ignored fields about changes nothing that is committed
        for (p, v, kind, l) in [
            (None, None, None, Some(label)),
            (Some(true), Some(true), None, Some(label)),
            (Some(false), Some(false), None, Some(label)),
            (Some(false), None, Some("JSON"), l),
            (Some(true), Some(false), Some("JSON"), Some(label)),
            (None, Some(true), Some("JSON"), l),
        ] {
            let committed = |j: &J, vv: bool| {
                let mut o = j.as_object().unwrap().clone();
                for k in ignore {
                    o.shift_remove(*k);
                }
                if !vv {
                    // the size is recomputed when the version string is not compared
                    if let Some(J::String(s)) = o.get("v") {
                        if supported(s).is_some() {
                            let z = format!("{}......_", &s[..10]);
                            o.insert("v".into(), json!(z));
                        }
                    }
                }
                dump(&J::Object(o))
            };
            if committed(&m, v != Some(false)) == committed(&out, v != Some(false)) {
                continue;
            }
            let r = parsed.verify(&val(&m), p, v, kind, l, ign);
            ensure!(!matches!(r, Ok(true)), "verifies with {how} (prefixed {p:?} versioned {v:?} kind {kind:?})");
            o.step();
        }
    }
    // a changed identifier
    for k in 0..said.len() {
        let mut t = said.clone().into_bytes();
        t[k] = if t[k] == b'C' { b'D' } else { b'C' };
        let t = String::from_utf8(t).unwrap();
        let mut m = out.clone();
        m[label] = json!(t);
        for (v, kind, l) in [(None, None, Some(label)), (Some(false), Some("JSON"), l), (Some(true), Some("JSON"), l)] {
            same!(es(parsed.verify(&val(&m), Some(true), v, kind, l, ign)), Ok(false), "verify with said character {k} changed in the document");
        }
        // what an absent option stands for
        for kind in [None, Some("JSON")] {
            same!(
                es(parsed.verify(&val(&m), None, None, kind, Some(label), ign)),
                es(parsed.verify(&val(&m), Some(false), Some(true), kind, Some(label), ign)),
                "verify without options"
            );
        }
        if let Ok(x) = Saider::new_with_qb64(&t) {
            same!(es(x.verify(&ked, None, None, None, Some(label), ign)), Ok(false), "verify with said character {k} changed");
            same!(es(x.verify(&val(&m), Some(true), None, None, Some(label), ign)), Ok(false), "verify with said character {k} changed in both");
        }
        o.steps(3);
    }
    for x in [json!(null), json!(1), json!(""), json!([said]), json!(format!("{said}A"))] {
        let mut m = out.clone();
        m[label] = x;
        let r = parsed.verify(&val(&m), Some(true), None, None, Some(label), ign);
        ensure!(!matches!(r, Ok(true)), "verifies with {} in place of the said", dump(&m[label]));
        o.step();
    }
    // the digest of another algorithm
    for other in spec::DIGESTS {
        if *other != code {
            let raw = spec::digest(other, b"x").unwrap();
            let x = es(Saider::new_with_raw(&raw, Some(other)))?;
            same!(es(x.verify(&ked, None, None, None, Some(label), ign)), Ok(false), "verify of another digest");
            o.step();
        }
    }
    // changes to ignored fields that leave the size alone do not matter
    for k in ignore {
        // (the identifier's own place and the version string are read on their own account)
        if *k == label || *k == "v" {
            continue;
        }
        if let Some(J::String(s)) = out.get(*k) {
            if !s.is_empty() && s.is_ascii() && !s.contains(['"', '\\']) {
                let mut m = out.clone();
                m[*k] = json!("q".repeat(s.len()));
                for (p, v) in flags() {
                    same!(es(parsed.verify(&val(&m), p, v, None, Some(label), ign)), Ok(true), "verify with ignored {k} changed");
                    o.step();
                }
            }
        }
        if !out.as_object().unwrap().contains_key("v") {
            for x in [json!(null), json!({"a": [1, 2]}), json!("longer than before, by far")] {
                let mut m = out.clone();
                m[*k] = x;
                same!(es(parsed.verify(&val(&m), Some(true), None, None, Some(label), ign)), Ok(true), "verify with ignored {k} changed");
                let mut m = obj(&out);
                m.shift_remove(*k);
                same!(es(parsed.verify(&val(&J::Object(m)), Some(true), None, None, Some(label), ign)), Ok(true), "verify with ignored {k} removed");
                o.steps(2);
            }
        }
    }
    Ok(())
}

pub fn values() -> Vec<J> {
    vec![
        json!(null),
        json!(true),
        json!(-1),
        json!(18446744073709551615u64),
        json!(1.5),
        json!(""),
        json!("é\"\\\n\u{1}/😀"),
        json!([]),
        json!([1, "a", [null]]),
        json!({}),
        json!({"d": "x", "v": "y", "z": {"d": [1]}}),
        json!("plain"),
    ]
}

pub fn run(ctx: &Ctx) {
    let vs = [None, Some("KERI10JSON000000_"), Some("ACDC10JSON00ffff_")];
    let labels = ["d", "$id", "@id", "id", "i", "said"];
    let vals = values();
    let nv = vals.len();
    let nc = spec::DIGESTS.len();
    // documents: two other fields of every kind, the label at every place
    let total = nc * labels.len() * vs.len() * 3;
    ctx.par(total * nv, |i| {
        let code = spec::DIGESTS[i % nc];
        let label = labels[i / nc % labels.len()];
        let v = vs[i / nc / labels.len() % 3];
        let pos = i / nc / labels.len() / 3 % 3;
        let a = i / total;
        for b in 0..nv {
            let mut d = Map::new();
            if let Some(v) = v {
                d.insert("v".into(), json!(v));
            }
            let put = |d: &mut Map<String, J>, at: usize| {
                if at == pos {
                    d.insert(label.into(), json!(""));
                }
            };
            put(&mut d, 0);
            d.insert("x".into(), vals[a].clone());
            put(&mut d, 1);
            d.insert("y".into(), vals[b].clone());
            put(&mut d, 2);
            let ignore: &[&[&str]] = &[&[], &["y"], &["x", "none"], &["y", "x"]];
            for (k, ign) in ignore.iter().enumerate() {
                if k > 1 && code != "E" && !ctx.thorough {
                    continue;
                }
                let deep = ctx.thorough || ((a + b) % 4 == pos && (i + k) % 3 == 0);
                ctx.case(
                    || format!("saidify {code} label {label} ignore {ign:?} {}", dump(&J::Object(d.clone()))),
                    |o| check(&Spec { doc: &d, code, label, ignore: ign }, deep, o),
                );
            }
        }
    });
    ctx.section("documents");

    // ignore lists: every sequence of names, the label and the version string among them
    let names = ["d", "v", "x", "y", "", "none", "a"];
    let mut lists: Vec<Vec<&str>> = vec![vec![]];
    let mut at = 0;
    for _ in 0..ctx.pick(2, 3) {
        for k in at..lists.len() {
            for n in names {
                let mut l = lists[k].clone();
                l.push(n);
                lists.push(l);
            }
            at = k + 1;
        }
    }
    // long lists, the names that matter at the end
    let many: Vec<String> = (0..300).map(|i| format!("n{i}")).collect();
    for n in [5, 8, 16, 32, 300] {
        let mut l: Vec<&str> = many[..n].iter().map(String::as_str).collect();
        l.extend(["x", "a"]);
        lists.push(l);
    }
    lists.push(vec!["x", "y", "a"]);
    lists.push(vec!["a", "y", "x", "v"]);
    let codes = ctx.pick(vec!["E", "0G"], spec::DIGESTS.to_vec());
    ctx.par(lists.len() * codes.len() * 4, |i| {
        let ign = &lists[i % lists.len()];
        let code = codes[i / lists.len() % codes.len()];
        let shape = i / lists.len() / codes.len();
        let d = match shape {
            0 => json!({"d": "", "x": 1, "y": "why", "a": {"x": "in", "d": "in"}, "": [1]}),
            1 => json!({"v": "KERI10JSON000000_", "d": "", "x": 1, "y": "why", "a": {"x": "in", "v": "in"}, "": [1]}),
            2 => json!({"v": "ACDC10JSON000000_", "a": ["x"], "y": "x", "x": "y", "d": "prior"}),
            _ => json!({"x": {"y": 1}, "a": "a", "d": "", "y": null}),
        };
        ctx.case(
            || format!("saidify {code} ignore {} {}", sh(&format!("{ign:?}")), dump(&d)),
            |o| check(&Spec { doc: d.as_object().unwrap(), code, label: "d", ignore: ign }, true, o),
        );
    });
    ctx.section("ignore lists");

    // prior contents of the label
    let priors = [json!(""), json!(null), json!(17), json!("E"), json!("#".repeat(44)), json!("x".repeat(500)), json!({"a": 1}), json!("EAAA")];
    for p in &priors {
        for code in spec::DIGESTS {
            for v in vs {
                let mut d = Map::new();
                if let Some(v) = v {
                    d.insert("v".into(), json!(v));
                }
                d.insert("d".into(), p.clone());
                d.insert("a".into(), json!({"n": "value"}));
                ctx.case(
                    || format!("saidify {code} {}", dump(&J::Object(d.clone()))),
                    |o| check(&Spec { doc: &d, code, label: "d", ignore: &[] }, true, o),
                );
            }
        }
    }
    // without a code, the prior contents tell
    let mut texts: Vec<String> = (0..128u8).flat_map(|c| [1, 2, 43, 44, 45, 88].map(|n| (c as char).to_string().repeat(n))).collect();
    for m in spec::MATTER {
        if let Some((_, t)) = spec::m_encode(m.code, &vec![1; if m.var() { 3 } else { m.raw() }]) {
            texts.extend([format!("{t}A"), t[..t.len() - 1].into(), format!(" {t}"), format!("{t} "), t]);
        }
    }
    ctx.par(texts.len(), |i| {
        let t = &texts[i];
        ctx.case(
            || format!("from a document that says {t:?}"),
            |o| {
                let d = json!({"x": 1, "d": t});
                // (whatever follows a complete primitive is left alone)
                let code = spec::m_parse(t.as_bytes()).map(|m| m.code).filter(|c| spec::DIGESTS.contains(&c.as_str()));
                let got = Saider::new_with_sad(&val(&d), None, None, None, None);
                o.step();
                match code {
                    Some(c) => same!(es(es(got)?.qb64()), Ok(saidify(d.as_object().unwrap(), &c, "d", &[]).ok_or("reference")?.0), "said"),
                    None => ensure!(got.is_err(), "made {:?}", got.map(|g| g.qb64().ok())),
                }
                Ok(())
            },
        );
    });
    // a label or content that does not exist, versions that are not supported
    let docs = [
        json!({}), json!({"x": 1}), json!({"v": "KERI10JSON000000_", "x": 1}),
        json!({"v": "", "d": ""}), json!({"v": "KERI10CBOR000000_", "d": ""}), json!({"v": "KERI20JSON000000_", "d": ""}),
        json!({"v": "XXXX10JSON000000_", "d": ""}), json!({"v": 1, "d": ""}), json!({"v": null, "d": ""}), json!({"v": "KERI10JSON00000G_", "d": ""}),
        json!({"d": "", "v": "KERI10JSON000000_"}), json!({"d": "", "x": "KERI10JSON000000_"}), json!({"x": "KERI10JSON000000_", "v": "KERI10JSON000000_", "d": ""}),
        json!({"ab": 0, "v": "KERI10JSON000000_", "d": ""}), json!({"a": 0, "v": "KERI10JSON000000_", "d": ""}), json!({"": 0, "v": "KERI10JSON000000_", "d": ""}),
        json!({"v": "KERI10JSON000000_", "d": "", "x": "KERI10JSON000000_"}), json!({"KERI10JSON000000_": "", "v": "KERI10JSON000000_", "d": ""}),
        json!({"d": "", "x": "#".repeat(44), "#": "#"}), json!({"v": "KERI10JSON000000_", "a": {"v": "KERI10JSON000000_"}, "d": ""}),
    ];
    for d in &docs {
        for code in ["E", "0G"] {
            ctx.case(
                || format!("saidify {code} {}", dump(d)),
                |o| check(&Spec { doc: d.as_object().unwrap(), code, label: "d", ignore: &[] }, true, o),
            );
        }
    }
    for d in [json!(null), json!(1), json!("x"), json!([]), json!(["d"]), json!([{"d": ""}])] {
        ctx.case(
            || format!("saidify {}", dump(&d)),
            |o| {
                ensure!(Saider::saidify(&val(&d), None, None, None, None).is_err(), "made");
                ensure!(Saider::new_with_sad(&val(&d), None, None, None, None).is_err(), "made");
                let x = es(Saider::new_with_raw(&[1; 32], None).or_else(|_| Saider::new_with_raw(&[1; 32], Some("E"))))?;
                ensure!(!matches!(x.verify(&val(&d), None, None, None, None, None), Ok(true)), "verifies");
                o.steps(3);
                Ok(())
            },
        );
    }
    // codes and kinds
    let doc = json!({"d": "", "a": 1});
    for m in spec::MATTER.iter().map(|m| m.code).chain(["", "Z", "é", "0"]) {
        if spec::DIGESTS.contains(&m) {
            continue;
        }
        ctx.case(
            || format!("saidify with code {m:?}"),
            |o| {
                ensure!(Saider::saidify(&val(&doc), Some(m), None, None, None).is_err(), "made");
                ensure!(Saider::new_with_sad(&val(&doc), None, None, None, Some(m)).is_err(), "made");
                if let Some(c) = spec::mc(m) {
                    let t = spec::m_encode(m, &vec![1; if c.var() { 3 } else { c.raw() }]).unwrap().1;
                    ensure!(Saider::new_with_sad(&val(&json!({"d": t, "a": 1})), None, None, None, None).is_err(), "made from {t}");
                }
                o.steps(3);
                Ok(())
            },
        );
    }
    for kind in ["CBOR", "MGPK", "json", "", "JSON "] {
        ctx.case(
            || format!("saidify as kind {kind:?}"),
            |o| {
                ensure!(Saider::saidify(&val(&doc), None, Some(kind), None, None).is_err(), "made");
                let v = json!({"v": "KERI10JSON000000_", "d": ""});
                ensure!(Saider::saidify(&val(&v), None, Some(kind), None, None).is_err(), "made");
                o.steps(2);
                Ok(())
            },
        );
    }
    // the default digest of an empty label, the named one otherwise
    for code in spec::DIGESTS {
        ctx.case(
            || format!("new from a document naming {code}"),
            |o| {
                let named = spec::m_encode(code, &vec![7u8; spec::mc(code).unwrap().raw()]).unwrap().1;
                let d = json!({"d": named, "a": 1});
                let want = saidify(d.as_object().unwrap(), code, "d", &[]).unwrap().0;
                same!(es(es(Saider::new_with_sad(&val(&d), None, None, None, None))?.qb64()), Ok(want), "said");
                let want = saidify(doc.as_object().unwrap(), "E", "d", &[]).unwrap().0;
                same!(es(es(Saider::new_with_sad(&val(&doc), None, None, None, None))?.qb64()), Ok(want), "default said");
                for bad in [json!(1), json!(null), json!(["E"]), json!("Z"), json!("E"), json!({"d": named})] {
                    let d = json!({"d": bad, "a": 1});
                    ensure!(Saider::new_with_sad(&val(&d), None, None, None, None).is_err(), "made from {}", dump(&d));
                    o.step();
                }
                o.steps(2);
                Ok(())
            },
        );
    }
    // the largest documents a version string can describe
    let room = 0xffffff - dump(&json!({"v": "KERI10JSON000000_", "d": "#".repeat(44), "x": ""})).len();
    for extra in ctx.pick(vec![0usize, 1], vec![0, 1, 2, 1000]) {
        ctx.case(
            || format!("saidify a document of {} bytes", 0xffffff + extra),
            |o| {
                let d = json!({"v": "KERI10JSON000000_", "d": "", "x": "x".repeat(room + extra)});
                let want = saidify(d.as_object().unwrap(), "E", "d", &[]);
                let got = Saider::saidify(&val(&d), None, None, None, None);
                o.step();
                same!(got.is_ok(), want.is_some(), "accepted");
                same!(want.is_some(), extra == 0, "reference");
                if let Ok((s, k)) = got {
                    same!(es(s.qb64())?, want.unwrap().0, "said");
                    same!(es(s.verify(&k, Some(true), None, None, None, None)), Ok(true), "verify");
                }
                Ok(())
            },
        );
    }
    ctx.section("labels, codes, kinds, versions, sizes");
}
