//! C25: untrusted input. Everything a program can call on what it was handed is called; any panic,
//! abort, stack overflow or hang is a violation (the exploration context traps them per case).
use super::c15::{bases, key, KEYS};
use super::docs::*;
use super::*;
use crate::ctx::{Ctx, Obs};
use crate::{ensure, spec};
use cesride::common;
use cesride::{Bext, Bexter, Cigar, Counter, Creder, Dater, Diger, Indexer, Matter, Number, Pather, Prefixer, Sadder, Saider, Salter, Seqner, Serder, Siger, Signer, Tholder, Verfer};
use cesride::data::Value;
use serde_json::{json, Map, Value as J};

const LABELS: &[&str] = &["v", "t", "d", "i", "s", "p", "kt", "k", "nt", "n", "bt", "b", "br", "ba", "c", "a", "e", "ri", "f", "di"];

fn seen<T>(r: cesride::Result<T>, o: &mut Obs) -> Option<T> {
    o.step();
    r.ok()
}

fn matter<M: Matter>(m: &M, o: &mut Obs) {
    seen(m.qb64(), o);
    seen(m.qb64b(), o);
    seen(m.qb2(), o);
    seen(m.full_size(), o);
    m.raw();
    m.code();
    m.size();
    m.transferable();
    m.digestive();
}

fn verfer(v: &Verfer, o: &mut Obs) {
    matter(v, o);
    for n in [0, 63, 64, 65] {
        seen(v.verify(&spec::filler(n, 3), b"abc"), o);
    }
}

fn diger(d: &Diger, o: &mut Obs) {
    matter(d, o);
    seen(d.verify(b""), o);
    seen(d.compare(b"abc", Some(b""), None), o);
    seen(d.compare(b"abc", Some(b"EAAA"), None), o);
    seen(d.compare(b"abc", None, Some(d)), o);
    seen(d.compare(b"abc", None, None), o);
}

fn tholder(t: &Tholder, o: &mut Obs) {
    value(&t.thold(), o);
    t.weighted();
    t.size();
    seen(t.num(), o);
    if let Some(n) = t.number() {
        number(&n, o);
    }
    if let Some(b) = t.bexter() {
        seen(b.bext(), o);
    }
    if let Some(l) = seen(t.limen(), o) {
        seen(Tholder::new_with_limen(&l), o);
    }
    if let Some(s) = seen(t.sith(), o) {
        seen(Tholder::new_with_sith(&s), o);
    }
    seen(t.to_json(), o);
    seen(Tholder::new_with_thold(&t.thold()), o);
    for ix in [&[][..], &[0], &[1], &[u32::MAX], &[0, 0, 0], &[0, 1, 2, 3], &[5, u32::MAX, 0, 1]] {
        seen(t.satisfy(ix), o);
    }
}

fn number(n: &Number, o: &mut Obs) {
    matter(n, o);
    seen(n.num(), o);
    seen(n.numh(), o);
    seen(n.positive(), o);
}

fn value(v: &Value, o: &mut Obs) {
    seen(v.to_bool(), o);
    seen(v.to_string(), o);
    seen(v.to_i64(), o);
    seen(v.to_f64(), o);
    seen(v.to_vec(), o);
    seen(v.to_map(), o);
    seen(v.to_json(), o);
    let _ = format!("{v}");
    let _ = v.clone() == *v;
}

fn sadder<S: Sadder>(s: &S, o: &mut Obs) {
    s.code();
    s.raw();
    s.ident();
    s.kind();
    s.size();
    s.version();
    seen(s.said(), o);
    seen(s.saidb(), o);
    matter(&s.saider(), o);
    for n in [None, Some(0), Some(1), Some(7), Some(100), Some(usize::MAX)] {
        seen(s.pretty(n), o);
    }
    value(&s.ked(), o);
}

fn paths() -> &'static Vec<Pather> {
    thread_local!(static P: &'static Vec<Pather> = Box::leak(Box::new({
        let mut v = vec![];
        let mut c: Vec<String> = vec![];
        c.extend(["0", "1", "12", "13", "99999", "18446744073709551615", "18446744073709551616", "x", "00"].map(String::from));
        c.extend(LABELS.iter().map(|s| s.to_string()));
        let mut one = |t: &str| v.extend(Pather::new_with_bext(t).ok());
        one("-");
        for a in &c {
            one(&format!("-{a}"));
            for b in c.iter().filter(|b| ["0", "1", "99999", "18446744073709551616", "d", "a", "x"].contains(&b.as_str())) {
                one(&format!("-{a}-{b}"));
            }
        }
        for t in ["-a-0-d", "-a-0-i-0", "-kt-0-0", "-kt-0-0-0", "-a-a-a-a-a-a-a", "-0-0-0-0-0-0"] {
            one(t);
        }
        v
    })));
    P.with(|p| *p)
}

fn prefixes() -> &'static Vec<Prefixer> {
    thread_local!(static P: &'static Vec<Prefixer> = Box::leak(Box::new(KEYS.iter().chain(spec::DIGESTS).filter_map(|c| Prefixer::new_with_qb64(&key(c, 1)).ok()).collect())));
    P.with(|p| *p)
}

fn saids() -> &'static Vec<Saider> {
    thread_local!(static P: &'static Vec<Saider> = Box::leak(Box::new(spec::DIGESTS.iter().map(|c| Saider::new_with_qb64(&key(c, 9)).unwrap()).collect())));
    P.with(|p| *p)
}

fn serder(s: &Serder, deep: bool, o: &mut Obs) {
    sadder(s, o);
    for v in seen(s.verfers(), o).unwrap_or_default().iter().chain(&seen(s.werfers(), o).unwrap_or_default()) {
        verfer(v, o);
    }
    for d in seen(s.digers(), o).unwrap_or_default() {
        diger(&d, o);
    }
    for t in [seen(s.tholder(), o), seen(s.ntholder(), o)].into_iter().flatten().flatten() {
        tholder(&t, o);
    }
    if let Some(n) = seen(s.sner(), o) {
        number(&n, o);
    }
    seen(s.sn(), o);
    if let Some(Some(n)) = seen(s.fner(), o) {
        number(&n, o);
    }
    seen(s._fn(), o);
    seen(s.pre(), o);
    seen(s.preb(), o);
    seen(s.est(), o);
    for p in paths().iter().take(if deep { usize::MAX } else { 4 }) {
        seen(p.tail(s), o);
    }
    let ked = s.ked();
    seen(s.saider().verify(&ked, Some(true), None, None, None, None), o);
    if let Some(p) = seen(s.pre(), o).and_then(|p| seen(Prefixer::new_with_qb64(&p), o)) {
        seen(p.verify(&ked, Some(true)), o);
    }
}

fn creder(s: &Creder, o: &mut Obs) {
    sadder(s, o);
    value(&s.crd(), o);
    seen(s.issuer(), o);
    seen(s.schema(), o);
    value(&s.subject(), o);
    seen(s.status(), o);
    if let Some(v) = seen(s.chains(), o) {
        value(&v, o);
    }
    for p in paths().iter().take(40) {
        seen(p.resolve(&s.crd()), o);
    }
}

fn raw(b: &[u8], o: &mut Obs) {
    if let Some(s) = seen(Serder::new_with_raw(b), o) {
        serder(&s, false, o);
    }
    if let Some(s) = seen(Creder::new_with_raw(b), o) {
        creder(&s, o);
    }
    seen(common::sniff(b), o);
}

/// everything that takes a key/value object
fn ked(j: &J, deep: bool, o: &mut Obs) {
    let v = val(j);
    value(&v, o);
    let codes = [None, Some("I"), Some("B"), Some("E"), Some("0D"), Some("zz"), Some("")];
    for code in codes.into_iter().take(if deep { 7 } else { 3 }) {
        for kind in [None, Some("JSON"), Some("CBOR"), Some("")] {
            if kind.is_some() && (code.is_some() || !deep) {
                continue;
            }
            if let Some(s) = seen(Serder::new_with_ked(&v, code, kind), o) {
                serder(&s, deep && code.is_none() && kind.is_none(), o);
            }
            if let Some(s) = seen(Creder::new_with_ked(&v, code, kind), o) {
                creder(&s, o);
            }
            seen(common::sizeify(&v, kind), o);
        }
        let labels = [None, Some("i"), Some("x"), Some("v"), Some("a"), Some("")];
        for label in labels.into_iter().take(if deep { 6 } else { 2 }) {
            let ign: [Option<&[&str]>; 4] = [None, Some(&["a"]), Some(&["d", "i", "v"]), Some(&["zz"])];
            for ignore in if label.is_none() { &ign[..] } else { &ign[..1] } {
                if let Some((s, k)) = seen(Saider::saidify(&v, code, None, label, *ignore), o) {
                    matter(&s, o);
                    seen(s.verify(&k, Some(true), Some(true), None, label, *ignore), o);
                    seen(s.verify(&v, Some(true), Some(false), None, label, *ignore), o);
                    if label.is_none() && ignore.is_none() {
                        raw(&k.to_json().unwrap_or_default().into_bytes(), o);
                    }
                }
                seen(Saider::new_with_sad(&v, label, None, *ignore, code), o);
            }
        }
        if let Some(p) = seen(Prefixer::new_with_ked(&v, None, code), o) {
            matter(&p, o);
            seen(p.verify(&v, None), o);
        }
        seen(Prefixer::new_with_ked(&v, Some(&["E", "D"]), code), o);
    }
    for kind in [Some("JSON"), Some("MGPK"), Some("xxxx")] {
        seen(Saider::saidify(&v, None, kind, None, None), o);
        seen(Saider::new_with_sad(&v, None, kind, None, None), o);
    }
    for s in saids() {
        for (p, n) in [(None, None), (Some(true), None), (Some(false), Some(false)), (Some(true), Some(true))] {
            seen(s.verify(&v, p, n, None, None, None), o);
        }
        seen(s.verify(&v, None, None, Some("CBOR"), Some("x"), Some(&["d"])), o);
        seen(s.verify(&v, Some(true), None, None, Some("i"), Some(&["v"])), o);
    }
    for p in prefixes() {
        for b in [None, Some(true), Some(false)] {
            seen(p.verify(&v, b), o);
        }
    }
    for p in paths().iter().take(if deep { usize::MAX } else { 30 }) {
        seen(p.resolve(&v), o);
    }
    raw(dump(j).as_bytes(), o);
    o.state(dump(j));
}

/// everything that takes a text or bytes
fn words(b: &[u8], o: &mut Obs) {
    macro_rules! prim {
        ($($t:ident),*) => { $(
            if let Some(m) = seen($t::new_with_qb64b(b), o) { matter(&m, o); }
            if let Some(m) = seen($t::new_with_qb2(b), o) { matter(&m, o); }
            if let Ok(t) = std::str::from_utf8(b) { seen($t::new_with_qb64(t), o); }
        )* };
    }
    prim!(Diger, Verfer, Saider, Prefixer, Dater, Seqner, Number, Bexter, Pather);
    seen(Signer::new_with_qb64b(b, None), o);
    seen(Signer::new_with_qb2(b, None), o);
    seen(Salter::new_with_qb64b(b, None), o);
    seen(Salter::new_with_qb2(b, None), o);
    seen(Cigar::new_with_qb64b(b, None), o);
    seen(Cigar::new_with_qb2(b, None), o);
    for s in [seen(Siger::new_with_qb64b(b, None), o), seen(Siger::new_with_qb2(b, None), o)].into_iter().flatten() {
        seen(s.qb64(), o);
        seen(s.qb2(), o);
        seen(s.full_size(), o);
    }
    for c in [seen(Counter::new_with_qb64b(b), o), seen(Counter::new_with_qb2(b), o)].into_iter().flatten() {
        seen(c.qb64(), o);
        seen(c.qb2(), o);
        seen(c.full_size(), o);
        seen(c.count_as_b64(4), o);
    }
    if let Some(t) = seen(Tholder::new_with_limen(b), o) {
        tholder(&t, o);
    }
    raw(b, o);
    o.state(b);
    let Ok(t) = std::str::from_utf8(b) else { return };
    let v = val(&json!(t));
    if let Some(x) = seen(Tholder::new_with_sith(&v), o) {
        tholder(&x, o);
    }
    if let Some(x) = seen(Tholder::new_with_thold(&v), o) {
        tholder(&x, o);
    }
    if let Some(j) = serde_json::from_str::<J>(t).ok() {
        if let Some(x) = seen(Tholder::new_with_sith(&val(&j)), o) {
            tholder(&x, o);
        }
        seen(Pather::new_with_path(&val(&j)), o);
    }
    for v in [json!([t]), json!([t, t]), json!([["1"], [t]])] {
        if let Some(x) = seen(Tholder::new_with_sith(&val(&v)), o) {
            tholder(&x, o);
        }
        if let Some(p) = seen(Pather::new_with_path(&val(&v)), o) {
            seen(p.path(), o);
            seen(p.bext(), o);
            seen(p.root(&p), o);
            seen(p.strip(&p), o);
            seen(p.starts_with(&p), o);
        }
    }
    if let Some(p) = seen(Pather::new_with_bext(t), o) {
        matter(&p, o);
        seen(p.path(), o);
        seen(p.resolve(&val(&json!({"a": [1, {"b": 2}], "": 1}))), o);
        seen(p.root(&p), o);
        seen(p.strip(&p), o);
    }
    if let Some(p) = seen(Bexter::new_with_bext(t), o) {
        matter(&p, o);
        seen(p.bext(), o);
    }
    seen(common::deversify(t), o);
    seen(common::versify(Some(t), None, None, None), o);
    seen(common::versify(None, None, Some(t), None), o);
    if let Some(n) = seen(Number::new_with_numh(t), o) {
        number(&n, o);
    }
    seen(Seqner::new_with_snh(t), o);
    if let Some(d) = seen(Dater::new_with_dts(t, None), o) {
        seen(d.dts(), o);
        seen(d.dtsb(), o);
    }
}

/// values to put where others are expected
fn odd(few: bool) -> Vec<J> {
    let deep = (0..100).fold(json!("x"), |j, _| json!([j]));
    let mut v = vec![json!(null), json!(1), json!(""), json!("x"), json!([]), json!({}), json!(["1/2"]), json!([key("D", 1)]), json!([null]), json!(key("E", 1)), json!("KERI10JSON000000_")];
    if few {
        return v;
    }
    v.extend([
        json!(true),
        json!(0),
        json!(-1),
        json!(1.5),
        json!(u64::MAX),
        json!(i64::MIN),
        json!("0"),
        json!("1"),
        json!("-1"),
        json!("ffffffffffffffffffffffffffffffff"),
        json!("100000000000000000000000000000000"),
        json!("00000000000000000000000000000000000000000000000000"),
        json!("1/2"),
        json!("1/0"),
        json!("0/0"),
        json!("MAAB"),
        json!("0A"),
        json!("4A"),
        json!("-"),
        json!("-AAB"),
        json!("é"),
        json!("😀😀😀😀😀😀😀😀😀😀😀"),
        json!("\u{0}"),
        json!("#".repeat(44)),
        json!(&key("D", 1)[..43]),
        json!(key("D", 1) + "x"),
        json!(key("B", 1)),
        json!(key("1AAI", 1)),
        json!(key("0D", 1)),
        json!("E".repeat(5000)),
        json!("KERI10JSONffffff_"),
        json!("KERI10JSON000000_ KERI10JSON000000_"),
        json!("ACDC10JSON000000_"),
        json!("KERI10CBOR000000_"),
        json!("KERIffJSON000000_"),
        json!("icp"),
        json!("vcp"),
        json!([[]]),
        json!([""]),
        json!([["1/2", "1/2"], ["1"]]),
        json!([["1/2"], []]),
        json!(["1", ["1"]]),
        json!(["1/1", "0", "99999999999999999999999999/99999999999999999999999999"]),
        json!([1, 2]),
        json!([key("E", 1)]),
        json!([key("0D", 1), key("H", 2)]),
        json!([key("B", 1)]),
        json!(["é"]),
        json!({"d": ""}),
        json!({"v": "KERI10JSON000000_", "d": ""}),
        json!({"0": 1, "": 2}),
        deep,
    ]);
    v
}

fn shapes() -> Vec<(bool, J)> {
    let mut v = vec![];
    for cred in [false, true] {
        for (k, b) in bases(cred).into_iter().enumerate() {
            if k < if cred { 4 } else { 8 } {
                v.push((cred, b));
            }
        }
    }
    v.push((false, json!({"v": "KERI10JSON000000_", "t": "vcp", "d": "", "i": "", "ii": key("D", 1), "s": "0", "c": [], "bt": "0", "b": [], "n": "AHSNDV3ABI6U8OIgKaj3aky91ZpNL54I5_7-qwtC6q2s"})));
    v.push((false, json!({"v": "KERI10JSON000000_", "t": "icp", "d": "", "i": key("B", 1), "s": "0", "kt": "1", "k": [key("B", 1)], "nt": "0", "n": [], "bt": "0", "b": [], "c": [], "a": []})));
    v.push((false, json!({"v": "KERI10JSON000000_", "t": "dip", "d": "", "i": "", "s": "0", "kt": [["1"], ["1/2", "1/2"]], "k": [key("D", 1), key("1AAJ", 2), key("1AAB", 3)], "nt": "1", "n": [key("E", 1)], "bt": "1", "b": [key("B", 7)], "c": [], "a": [], "di": key("E", 8)})));
    v
}

fn with(j: &J, edits: &[(&str, Option<&J>)]) -> J {
    let mut d = j.as_object().unwrap().clone();
    for (k, x) in edits {
        match x {
            Some(x) => {
                d.insert(k.to_string(), (*x).clone());
            }
            None => {
                d.shift_remove(*k);
            }
        }
    }
    J::Object(d)
}

fn brief(e: &[(&str, Option<&J>)]) -> String {
    e.iter().map(|(k, x)| format!("{k}={}", x.map(|x| sh(&dump(x))).unwrap_or("(absent)".into()))).collect::<Vec<_>>().join(", ")
}

pub fn run(ctx: &Ctx) {
    let shapes = shapes();
    let all = odd(false);
    let few = odd(true);
    fn opts(v: &[J]) -> Vec<Option<&J>> {
        std::iter::once(None).chain(v.iter().map(Some)).collect()
    }
    fn fields(j: &J) -> Vec<&'static str> {
        let mut f: Vec<&'static str> = LABELS.iter().filter(|l| j.get(**l).is_some()).cloned().collect();
        // and one that is not there
        f.extend(LABELS.iter().find(|l| j.get(**l).is_none()));
        f
    }
    // ---- one field
    let mut jobs: Vec<(usize, &str, usize)> = vec![];
    for (s, (_, b)) in shapes.iter().enumerate() {
        for l in LABELS {
            jobs.extend((0..opts(&all).len()).map(|i| (s, *l, i)));
        }
        let _ = b;
    }
    ctx.par(jobs.len(), |i| {
        let (s, l, k) = jobs[i];
        let e = [(l, opts(&all)[k])];
        ctx.case(
            || format!("shape {s}: {}", brief(&e)),
            |o| {
                ked(&with(&shapes[s].1, &e), true, o);
                Ok(())
            },
        );
    });
    ctx.section("one field of an object");

    // ---- two fields
    let mut jobs: Vec<(usize, &str, &str)> = vec![];
    for (s, (_, b)) in shapes.iter().enumerate() {
        let f = fields(b);
        for x in 0..f.len() {
            for y in 0..x {
                jobs.push((s, f[y], f[x]));
            }
        }
    }
    let pair = if ctx.thorough { &all } else { &few };
    let po = opts(pair);
    ctx.par(jobs.len(), |i| {
        let (s, a, b) = jobs[i];
        for x in &po {
            for y in &po {
                let e = [(a, *x), (b, *y)];
                ctx.case(
                    || format!("shape {s}: {}", brief(&e)),
                    |o| {
                        ked(&with(&shapes[s].1, &e), ctx.thorough, o);
                        Ok(())
                    },
                );
            }
        }
    });
    ctx.section("two fields of an object");

    // ---- not an object, or hardly one
    let mut tiny: Vec<J> = all.clone();
    for a in &all {
        tiny.push(json!([a]));
        for l in LABELS {
            tiny.push(json!({ *l: a }));
            for (m, b) in [("v", json!("KERI10JSON000000_")), ("d", json!("")), ("t", json!("icp"))] {
                if *l != m {
                    tiny.push(json!({ m: b, *l: a }));
                    tiny.push(json!({ *l: a, m: b }));
                }
            }
        }
    }
    ctx.par(tiny.len(), |i| {
        ctx.case(
            || format!("value {}", sh(&dump(&tiny[i]))),
            |o| {
                let v = val(&tiny[i]);
                for t in [Tholder::new_with_sith(&v), Tholder::new_with_thold(&v)] {
                    if let Some(t) = seen(t, o) {
                        tholder(&t, o);
                    }
                }
                if let Some(p) = seen(Pather::new_with_path(&v), o) {
                    matter(&p, o);
                }
                ked(&tiny[i], true, o);
                Ok(())
            },
        );
    });
    ctx.section("other values");

    // ---- inside the document
    let mut inner: Vec<(usize, String, J)> = vec![];
    for (s, (_, b)) in shapes.iter().enumerate() {
        inner.extend(mutants(b, &[]).into_iter().map(|(l, j)| (s, l, j)));
    }
    ctx.par(inner.len(), |i| {
        let (s, l, j) = &inner[i];
        ctx.case(
            || format!("shape {s}: {}", sh(l)),
            |o| {
                if j.is_object() {
                    ked(j, true, o);
                }
                Ok(())
            },
        );
    });
    ctx.section("one place inside an object");

    // ---- thresholds: every value of up to three levels
    let leaf = [json!("1"), json!("0"), json!("1/2"), json!("1/3"), json!(""), json!("x"), json!(null), json!(1), json!("2/1"), json!("/"), json!("1/"), json!("/2"), json!("1/0"), json!("-1/2"), json!("1/2/3"), json!("99999999999999999999999999999999999999999/99999999999999999999999999999999999999999"), json!({})];
    let mut lists: Vec<J> = vec![json!([])];
    for a in &leaf {
        lists.push(json!([a]));
        for b in &leaf {
            lists.push(json!([a, b]));
            for c in &leaf {
                lists.push(json!([a, b, c]));
            }
        }
    }
    let small: Vec<J> = lists.iter().filter(|l| l.as_array().unwrap().len() < 3).cloned().collect();
    let n = small.len() + 1;
    ctx.par(lists.len() + n * n, |i| {
        let (x, y) = if i < lists.len() {
            (lists[i].clone(), json!([lists[i]]))
        } else {
            let (a, b) = ((i - lists.len()) / n, (i - lists.len()) % n);
            let g = |k: usize| small.get(k).cloned().unwrap_or(json!("1"));
            (json!([g(a), g(b)]), json!([[g(a)], g(b)]))
        };
        ctx.case(
            || format!("threshold {} or {}", sh(&dump(&x)), sh(&dump(&y))),
            |o| {
                for j in [&x, &y] {
                    for t in [Tholder::new_with_sith(&val(j)), Tholder::new_with_thold(&val(j)), Tholder::new_with_sith(&val(&json!(dump(j))))] {
                        if let Some(t) = seen(t, o) {
                            tholder(&t, o);
                        }
                    }
                    o.state(dump(j));
                }
                Ok(())
            },
        );
    });
    ctx.section("thresholds");

    // ---- sizes in the version string against lengths of the bytes
    let whole: Vec<Vec<u8>> = shapes
        .iter()
        .map(|(_, b)| dump(&J::Object(saidify(b.as_object().unwrap(), "E", "d", &[]).unwrap().1)).into_bytes())
        .collect();
    ctx.par(whole.len(), |i| {
        let w = &whole[i];
        let mut sizes: Vec<usize> = (0..w.len() + 40).collect();
        sizes.extend([0xffff, 0x10000, 0x7fffff, 0xffffff]);
        for s in &sizes {
            ctx.case(
                || format!("shape {i}: size {s} in the version string"),
                |o| {
                    let mut b = w.clone();
                    b[16..22].copy_from_slice(format!("{s:06x}").as_bytes());
                    for more in [&b""[..], b" ", b"-AAB", b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"] {
                        raw(&[&b[..], more].concat(), o);
                    }
                    Ok(())
                },
            );
        }
        for cut in 0..w.len() {
            ctx.case(
                || format!("shape {i}: cut at {cut}"),
                |o| {
                    let b = &w[..cut];
                    raw(b, o);
                    // with a size that fits
                    if cut > 24 {
                        let mut b = b.to_vec();
                        b[16..22].copy_from_slice(format!("{cut:06x}").as_bytes());
                        raw(&b, o);
                        *b.last_mut().unwrap() = b'}';
                        raw(&b, o);
                        *b.last_mut().unwrap() = 0xc3;
                        raw(&b, o);
                    }
                    Ok(())
                },
            );
        }
    });
    ctx.section("sizes against lengths");

    // ---- bytes around a version string, at every offset
    let pieces: Vec<&[u8]> = vec![b"", b"{", b"\"", b"{\"v\":\"", b"\xff", b"\0", b"\xc3\xa9", b"KERI", b"KERI10JSON", b"                "];
    let vs = ["KERI10JSON000011_", "KERI10JSON000000_", "KERI10JSON0000ff_", "ACDC10JSON00001e_", "KERIffJSONffffff_", "KERI10CBOR000011_", "KERI10JSON000011", "KERI10JSON00001G_"];
    let n = pieces.len();
    ctx.par(n * n * n * n, |i| {
        let p: Vec<&[u8]> = (0..4).map(|k| pieces[i / n.pow(k) % n]).collect();
        ctx.case(
            || format!("pieces {}", hex(&p.join(&b'|'))),
            |o| {
                for v in vs {
                    raw(&[p[0], p[1], v.as_bytes(), p[2], p[3], b"                             "].concat(), o);
                    raw(&[p[0], p[1], v.as_bytes(), p[2], p[3]].concat(), o);
                }
                o.state(i);
                Ok(())
            },
        );
    });
    ctx.par(17 * 256, |i| {
        let (at, c) = (i / 256, (i % 256) as u8);
        ctx.case(
            || format!("byte {at} of the version string {c:#x}"),
            |o| {
                for w in whole.iter().take(ctx.pick(3, whole.len())) {
                    let mut b = w.clone();
                    b[6 + at] = c;
                    raw(&b, o);
                    for d in [0u8, b'0', b'f', b'_', b'A', 0x80, 0xff, b'"', b'\\'] {
                        let mut b = b.clone();
                        b[6 + (at + 1) % 17] = d;
                        raw(&b, o);
                    }
                }
                Ok(())
            },
        );
    });
    ctx.section("bytes around version strings");

    // ---- every short text and byte string everywhere
    ctx.par(256, |a| {
        ctx.case(
            || format!("byte strings of {a:#x} and up to one more"),
            |o| {
                if a == 0 {
                    words(b"", o);
                }
                words(&[a as u8], o);
                for b in 0..=255u8 {
                    words(&[a as u8, b], o);
                }
                Ok(())
            },
        );
    });
    let al: &[u8] = b"A0149EMNBz-_/+,&sca[]{}\"#. :\\\xc3\xa9\xe0\xff\x00";
    let n = al.len();
    ctx.par(n * n, |i| {
        ctx.case(
            || format!("byte strings from {}", hex(&[al[i / n], al[i % n]])),
            |o| {
                for c in al {
                    words(&[al[i / n], al[i % n], *c], o);
                    for d in al {
                        words(&[al[i / n], al[i % n], *c, *d], o);
                    }
                }
                Ok(())
            },
        );
    });
    // lead characters and every length
    ctx.par(64 * 64, |i| {
        let t: Vec<u8> = spec::b64n(i as u64, 2).into_bytes();
        ctx.case(
            || format!("texts beginning {}", String::from_utf8_lossy(&t)),
            |o| {
                for pad in [b'A', b'_', 0xff, b'-'] {
                    for len in ctx.pick(vec![2, 4, 5, 8, 12, 24, 40, 44, 48, 88, 92, 156], (2..=160).collect()) {
                        let mut b = t.clone();
                        b.resize(len, pad);
                        words(&b, o);
                        // read as binary
                        if let Some(x) = spec::dec4(&b) {
                            words(&x, o);
                        }
                    }
                }
                Ok(())
            },
        );
    });
    ctx.section("short texts");

    // ---- nesting and size
    for d in [100usize, 126, 127, 128, 129, 1000, 100_000] {
        for (open, close) in [("[", "]"), ("{\"a\":", "}"), ("[{\"a\":", "}]")] {
            ctx.case(
                || format!("{open} nested {d} deep"),
                |o| {
                    let body = open.repeat(d) + "1" + &close.repeat(d);
                    let t = format!("{{\"v\":\"KERI10JSON000000_\",\"d\":\"\",\"a\":{body}}}");
                    let t = t.replace("000000_", &format!("{:06x}_", t.len()));
                    raw(t.as_bytes(), o);
                    ensure!(d < 128 || Serder::new_with_raw(t.as_bytes()).is_err(), "taken");
                    if d < 1000 {
                        let mut j = json!(1);
                        for _ in 0..d {
                            j = if open == "[" { json!([j]) } else { json!({ "a": j }) };
                        }
                        ked(&json!({"v": "KERI10JSON000000_", "d": "", "a": j, "kt": j, "k": j, "n": j}), true, o);
                    }
                    words(body.as_bytes(), o);
                    Ok(())
                },
            );
        }
    }
    for n in [0xfffff0usize - 100, 0xffffff, 0x1000000] {
        ctx.case(
            || format!("a text of {n} characters"),
            |o| {
                let mut m: Map<String, J> = obj(&json!({"v": "KERI10JSON000000_", "d": "", "x": ""}));
                m.insert("x".into(), json!("x".repeat(n)));
                let v = val(&J::Object(m));
                seen(Serder::new_with_ked(&v, None, None), o);
                seen(Saider::saidify(&v, None, None, None, None), o);
                seen(common::sizeify(&v, None), o);
                Ok(())
            },
        );
    }
    let long = ["1/2", "1", "x"];
    for n in [1000usize, 100_000] {
        for w in long {
            ctx.case(
                || format!("{n} weights {w}"),
                |o| {
                    let j = json!(vec![w; n]);
                    for j in [j.clone(), json!([j])] {
                        if let Some(t) = seen(Tholder::new_with_sith(&val(&j)), o) {
                            seen(t.satisfy(&(0..n as u32).collect::<Vec<_>>()), o);
                            seen(t.limen(), o);
                            seen(t.sith(), o);
                        }
                    }
                    for d in ["9".repeat(n), format!("1/{}", "9".repeat(n)), format!("{}/{}", "9".repeat(n), "9".repeat(n))] {
                        if n < 100_000 {
                            seen(Tholder::new_with_sith(&val(&json!([d]))), o);
                        }
                        seen(Tholder::new_with_sith(&val(&json!(d))), o);
                        seen(Number::new_with_numh(&d), o);
                    }
                    Ok(())
                },
            );
        }
    }
    ctx.section("nesting and size");
    ctx.note(format!("{} shapes of events and credentials, {} values per field, {} per pair of fields", shapes.len(), all.len() + 1, po.len()));
}

