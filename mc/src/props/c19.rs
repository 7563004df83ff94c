//! C19: base64 texts and SAD paths.
use super::types::*;
use super::*;
use crate::ctx::{Ctx, Obs, R};
use super::docs;
use crate::{ensure, same, spec};
use cesride::data::Value;
use cesride::{Bext, Bexter, Matter, Pather, Serder};
use serde_json::{json, Map, Value as J};
use std::collections::BTreeSet;

/// the text form the code table gives a base64 text
fn encode(text: &str) -> Option<String> {
    let pad = (4 - text.len() % 4) % 4;
    let quads = (text.len() + pad) / 4;
    // a text of 4n+1 has two lead bytes, 4n+2 one, others none
    let (small, big) = match text.len() % 4 {
        0 | 3 => ("4A", "7AAA"),
        2 => ("5A", "8AAA"),
        _ => ("6A", "9AAA"),
    };
    let head = if quads < 4096 {
        format!("{small}{}", spec::b64n(quads as u64, 2))
    } else if quads < 1 << 24 {
        format!("{big}{}", spec::b64n(quads as u64, 4))
    } else {
        return None;
    };
    Some(format!("{head}{}{text}", "A".repeat(pad)))
}

fn ambiguous(text: &str) -> bool {
    text.len() % 4 == 0 && text.starts_with('A')
}

fn b64(text: &str) -> bool {
    text.bytes().all(|c| spec::b64v(c).is_some())
}

fn bexters(t: &str) -> Vec<(&'static str, cesride::Result<Bexter>)> {
    let m = spec::m_parse(t.as_bytes()).unwrap();
    let bin = spec::dec4(t.as_bytes()).unwrap();
    vec![
        ("raw", Bexter::new_with_raw(&m.raw, Some(&m.code))),
        ("raw, default code", Bexter::new_with_raw(&m.raw, None)),
        ("qb64", Bexter::new_with_qb64(t)),
        ("qb64b", Bexter::new_with_qb64b(t.as_bytes())),
        ("qb2", Bexter::new_with_qb2(&bin)),
    ]
}

fn bext(text: &str, o: &mut Obs) -> R {
    let made = [
        ("text", Bexter::new_with_bext(text)),
        ("new text", Bexter::new(Some(text), None, None, None, None, None)),
    ];
    if !b64(text) {
        for (how, r) in made {
            ensure!(r.is_err(), "{how}: accepted");
            o.step();
        }
        return Ok(());
    }
    let t = encode(text).ok_or("too long for the reference")?;
    let m = spec::m_parse(t.as_bytes()).ok_or("reference cannot read its own text")?;
    let e = expected(&m, &t);
    for (how, r) in made.into_iter().chain(bexters(&t)) {
        let x = es(r).map_err(|e| format!("{how}: {e}"))?;
        same!(snap(&x), Ok(e.clone()), "{how}");
        if !ambiguous(text) {
            same!(es(x.bext()), Ok(text.to_string()), "{how}: text");
        }
        o.steps(2);
    }
    o.state(text);
    Ok(())
}

fn comps(p: &[&str]) -> J {
    json!(p)
}

fn text_of(p: &[&str]) -> String {
    format!("-{}", p.join("-"))
}

fn path(p: &[&str]) -> Result<Pather, String> {
    es(Pather::new_with_path(&docs::val(&comps(p))))
}

fn parts(x: &Pather) -> Result<J, String> {
    docs::back(&es(x.path())?)
}

fn paths_agree(p: &[&str], o: &mut Obs) -> R {
    let text = text_of(p);
    let t = encode(&text).ok_or("reference")?;
    let m = spec::m_parse(t.as_bytes()).ok_or("reference cannot read its own text")?;
    let bin = spec::dec4(t.as_bytes()).unwrap();
    let e = expected(&m, &t);
    let v = docs::val(&comps(p));
    let mut made = vec![
        ("components".to_string(), Pather::new_with_path(&v)),
        ("text".into(), Pather::new_with_bext(&text)),
        ("new components".into(), Pather::new(Some(&v), None, None, None, None, None, None)),
        ("new text".into(), Pather::new(None, Some(&text), None, None, None, None, None)),
        ("raw".into(), Pather::new_with_raw(&m.raw, Some(&m.code))),
        ("qb64".into(), Pather::new_with_qb64(&t)),
        ("qb64b".into(), Pather::new_with_qb64b(t.as_bytes())),
        ("qb2".into(), Pather::new_with_qb2(&bin)),
    ];
    // components that are numbers may be given as numbers
    let some: Vec<u64> = if p.len() < 9 { (1..1 << p.len()).collect() } else { vec![1, 2, (1 << p.len()) - 1] };
    for mask in some {
        let mut q = vec![];
        for (i, c) in p.iter().enumerate() {
            match c.parse::<i64>() {
                Ok(n) if mask >> i & 1 == 1 && n.to_string() == *c => q.push(json!(n)),
                _ if mask >> i & 1 == 1 => break,
                _ => q.push(json!(c)),
            }
        }
        if q.len() == p.len() {
            made.push((format!("components {}", json!(q)), Pather::new_with_path(&docs::val(&json!(q)))));
        }
    }
    for (how, r) in made {
        let x = es(r).map_err(|e| format!("{how}: {e}"))?;
        same!(snap(&x), Ok(e.clone()), "{how}");
        same!(es(x.bext()), Ok(text.clone()), "{how}: text");
        same!(parts(&x), Ok(comps(p)), "{how}: components");
        o.steps(3);
    }
    o.state(&text);
    Ok(())
}

fn pair(p: &[&str], q: &[&str], x: &Pather, y: &Pather, o: &mut Obs) -> R {
    let joined: Vec<&str> = q.iter().chain(p).cloned().collect();
    let r = es(x.root(y))?;
    same!(parts(&r), Ok(comps(&joined)), "rooted");
    same!(es(r.qb64()).ok(), encode(&text_of(&joined)), "rooted, encoded");
    let begins = p.len() >= q.len() && p[..q.len()] == *q;
    same!(es(x.starts_with(y)), Ok(begins), "begins with");
    let s = es(x.strip(y))?;
    let left = if begins { &p[q.len()..] } else { p };
    same!(parts(&s), Ok(comps(left)), "stripped");
    same!(es(s.qb64()).ok(), encode(&text_of(left)), "stripped, encoded");
    same!(es(r.starts_with(y)), Ok(true), "rooted begins with its root");
    same!(parts(&es(r.strip(y))?), Ok(comps(p)), "rooted, stripped again");
    o.steps(5);
    Ok(())
}

/// None: nothing there
fn walk<'a>(j: &'a J, p: &[&str]) -> Option<&'a J> {
    let Some((c, rest)) = p.split_first() else {
        return Some(j);
    };
    let n: Option<usize> = c.parse().ok();
    let next = match j {
        J::Array(a) => a.get(n?)?,
        J::Object(m) => match n {
            Some(n) => m.values().nth(n)?,
            None => m.get(*c)?,
        },
        _ => return None,
    };
    walk(next, rest)
}

fn resolve(p: &[&str], x: &Pather, doc: &J, v: &Value, o: &mut Obs) -> R {
    let want = walk(doc, p);
    match (x.resolve(v), want) {
        (Ok(got), Some(w)) => same!(docs::back(&got), Ok(w.clone()), "resolved"),
        (Err(_), None) => {}
        (Ok(got), None) => return Err(format!("resolved to {got:?} where nothing is")),
        (Err(e), Some(w)) => return Err(format!("{e} instead of {w}")),
    }
    o.step();
    Ok(())
}

fn trees(ctx: &Ctx) -> Vec<J> {
    let leaves = [json!("s"), json!(7), J::Null, json!(true), json!([]), json!({})];
    let mut one = vec![];
    for l in &leaves {
        one.push(json!([l]));
        one.push(json!({ "a": l }));
        one.push(json!({ "b": l, "a": "first" }));
        one.push(json!(["zero", l]));
        one.push(json!({"ab": 1, "a": l, "1": 2, "0": "key zero"}));
    }
    let mut two = vec![];
    for x in &one {
        two.push(json!({ "a": x }));
        two.push(json!([x]));
        two.push(json!({ "b": 1, "a": x, "0": x }));
        two.push(json!(["q", x, { "b": x }]));
        for y in one.iter().step_by(3) {
            two.push(json!({ "b": x, "a": y }));
            two.push(json!([x, y]));
        }
    }
    let mut all: Vec<J> = leaves.to_vec();
    all.extend(one.clone());
    all.extend(two.clone());
    for x in two.iter().step_by(ctx.pick(3, 1)) {
        all.push(json!({ "b": [x], "a": x }));
        all.push(json!([0, { "ab": x }, x, { "_": { "B": x } }]));
    }
    all
}

pub fn run(ctx: &'static Ctx) {
    // base64 texts
    const ABC: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let one = |t: &str| ctx.case(|| format!("text {}", sh(t)), |o| bext(t, o));
    one("");
    let s = |v: &[u8]| String::from_utf8(v.to_vec()).unwrap();
    ctx.par(64 * 64, |i| {
        let (a, b) = (ABC[i / 64], ABC[i % 64]);
        if b == b'A' {
            one(&s(&[a]));
        }
        one(&s(&[a, b]));
        for c in ABC {
            one(&s(&[a, b, *c]));
        }
        if ctx.thorough {
            for c in ABC {
                for d in ABC {
                    one(&s(&[a, b, *c, *d]));
                }
            }
        }
    });
    ctx.section("texts to 3 (4) characters");
    let most = ctx.pick(8u32, 10);
    for len in 4..=most {
        ctx.par(4usize.pow(len), |i| {
            let t: Vec<u8> = (0..len).map(|k| b"AB-_"[(i >> (2 * k)) & 3]).collect();
            one(&s(&t));
        });
    }
    ctx.section("texts over A B - _");
    let mut lens: BTreeSet<usize> = (0..=ctx.pick(300, 2000)).collect();
    for edge in [4096 * 4, 64 * 64 * 4 * 2, 65536] {
        lens.extend(edge - 9..=edge + 9);
    }
    if ctx.thorough {
        lens.extend([(1 << 20) - 1, 1 << 20, (1 << 20) + 1, 5_000_000]);
    }
    let lens: Vec<usize> = lens.into_iter().collect();
    ctx.par(lens.len(), |i| {
        let n = lens[i];
        for first in [b'A', b'B', b'-', b'_'] {
            for rest in [b'A', b'_', b'x'] {
                let mut t = vec![rest; n];
                if n > 0 {
                    t[0] = first;
                }
                one(&s(&t));
            }
        }
        let t: Vec<u8> = (0..n).map(|k| ABC[(k * 7 + k / 64 + 5) % 64]).collect();
        one(&s(&t));
    });
    ctx.section("texts of every length");

    // texts with a character that is not of the alphabet
    let mut bad: Vec<char> = (0u8..128).map(|c| c as char).filter(|c| spec::b64v(*c as u8).is_none() || !c.is_ascii()).collect();
    bad.extend(['\u{80}', 'é', 'Ａ', '٣', '\u{2013}', '\u{1F600}', '\u{2028}', '\u{17f}', '\u{212a}']);
    ctx.par(bad.len(), |i| {
        for len in 0..=9usize {
            for at in 0..=len {
                for f in ["B", "A", "-"] {
                    one(&format!("{}{}{}", f.repeat(at), bad[i], f.repeat(len - at)));
                }
            }
        }
        one(&format!("{}{}", bad[i], bad[i]));
        one(&format!("{}\n", bad[i]));
    });
    ctx.section("foreign characters");

    // paths
    let alpha: &[&str] = ctx.pick(
        &["a", "b", "ab", "0", "1", "2", "00", "_", "A", "aA"],
        &["a", "b", "ab", "ba", "aa", "0", "1", "2", "00", "10", "_", "A", "AAA", "aA", "a_", "B"],
    );
    let mut paths: Vec<Vec<&str>> = vec![vec![]];
    let mut at = 0;
    while at < paths.len() {
        if paths[at].len() < 3 {
            for c in alpha {
                let mut q = paths[at].clone();
                q.push(c);
                paths.push(q);
            }
        }
        at += 1;
    }
    let base = paths.len();
    let deep = ctx.pick(5, 7);
    // longer ones over two components that begin alike
    let mut more = vec![vec![]];
    for _ in 0..deep {
        more = more
            .into_iter()
            .flat_map(|p: Vec<&str>| ["a", "ab"].into_iter().map(move |c| [p.clone(), vec![c]].concat()))
            .collect();
        paths.extend(more.iter().filter(|p| p.len() > 3).cloned());
    }
    let long = "x".repeat(40);
    let field = ["i", "d", "field0", "field-less", &long];
    for f in field.iter().filter(|f| !f.contains('-')) {
        paths.push(vec![f]);
        paths.push(vec!["a", f, "0"]);
    }
    ctx.par(paths.len(), |i| {
        ctx.case(|| format!("path {:?}", paths[i]), |o| paths_agree(&paths[i], o));
    });
    ctx.section("paths");

    if paths.iter().any(|p| path(p).is_err()) {
        // reported above
        return;
    }
    let each = || -> Vec<Pather> { paths.iter().map(|p| path(p).unwrap()).collect() };
    let stride = ctx.pick(1, if base > 3000 { 4 } else { 1 });
    let block = 16;
    ctx.par(paths.len().div_ceil(block), |b| {
        let built = each();
        for i in b * block..((b + 1) * block).min(paths.len()) {
            for k in (i % stride..paths.len()).step_by(stride) {
                let (p, q) = (&paths[i], &paths[k]);
                ctx.case(|| format!("path {p:?} and root {q:?}"), |o| pair(p, q, &built[i], &built[k], o));
            }
            // all roots a path has, and those that differ from it in the last component
            for n in 0..=paths[i].len() {
                let q = &paths[i][..n];
                let y = match path(q) {
                    Ok(y) => y,
                    Err(_) => continue,
                };
                ctx.case(|| format!("path {:?} and its root {q:?}", paths[i]), |o| pair(&paths[i], q, &built[i], &y, o));
            }
        }
    });
    ctx.section("pairs of paths");

    let docs_: Vec<J> = trees(ctx);
    let used: Vec<usize> =
        (0..paths.len()).filter(|i| paths[*i].len() < 3 || ctx.thorough || paths[*i].iter().all(|c| ["a", "b", "ab", "0", "1", "2", "00"].contains(c))).collect();
    ctx.par(docs_.len(), |d| {
        let (built, value) = (each(), docs::val(&docs_[d]));
        for i in &used {
            ctx.case(
                || format!("path {:?} in {}", paths[*i], sh(&docs_[d].to_string())),
                |o| resolve(&paths[*i], &built[*i], &docs_[d], &value, o),
            );
        }
        o_state(ctx, &docs_[d]);
    });
    ctx.section("resolution");

    // wide and deep documents
    let wide: Vec<J> = (0..140).map(|i| json!([i, { "x": format!("{i}") }])).collect();
    let named: Map<String, J> = (0..140).map(|i| (format!("k{}", i * 37 % 140), json!({ "0": i, "y": [i] }))).collect();
    let mut deep = json!("end");
    for i in 0..36 {
        deep = match i % 3 {
            0 => json!({ "a": deep }),
            1 => json!(["first", deep]),
            _ => json!({ "z": i, "ab": deep, "1": "one" }),
        };
    }
    let big = [json!(wide), json!(named), json!({ "a": wide, "b": named, "c": [named, wide] })];
    let mut far: Vec<Vec<String>> = vec![];
    for i in (0..145).chain([255, 256, 257, 65536, 1 << 20]) {
        for n in [format!("{i}"), format!("0{i}"), format!("k{i}")] {
            for after in [vec![], vec!["0"], vec!["1", "x"], vec!["1", "0"], vec!["y", "0"]] {
                for before in [vec![], vec!["a"], vec!["b"], vec!["c", "0"], vec!["c", "1"]] {
                    let mid = [n.as_str()];
                    far.push(before.iter().chain(&mid).chain(&after).map(|c| c.to_string()).collect());
                }
            }
        }
    }
    for n in ["18446744073709551615", "18446744073709551616", "4294967296", "340282366920938463463374607431768211456"] {
        far.push(vec![n.into()]);
        far.push(vec!["a".into(), n.into()]);
        far.push(vec!["b".into(), n.into()]);
    }
    // down the deep document, and off its way at each place
    let way: Vec<&str> = (0..36).rev().map(|i| ["a", "1", "ab"][i % 3]).collect();
    for n in 0..=way.len() {
        far.push(way[..n].iter().map(|c| c.to_string()).collect());
        for off in ["0", "1", "a", "b", "z", "ab"] {
            far.push(way[..n].iter().chain(&[off]).map(|c| c.to_string()).collect());
        }
    }
    let values: Vec<J> = big.iter().chain([&deep]).cloned().collect();
    let blocks = far.len().div_ceil(16);
    ctx.par(blocks, |b| {
        let vals: Vec<Value> = values.iter().map(docs::val).collect();
        for f in &far[b * 16..(b * 16 + 16).min(far.len())] {
            let p: Vec<&str> = f.iter().map(|c| c.as_str()).collect();
            ctx.case(|| format!("path {p:?}"), |o| paths_agree(&p, o));
            let Ok(x) = path(&p) else { continue };
            for (d, v) in values.iter().zip(&vals) {
                ctx.case(|| format!("path {p:?} in {}", sh(&d.to_string())), |o| resolve(&p, &x, d, v, o));
            }
            for n in [0, 1, p.len() / 2, p.len().saturating_sub(1), p.len()] {
                let q = &p[..n.min(p.len())];
                if let Ok(y) = path(q) {
                    ctx.case(|| format!("path {p:?} and root {q:?}"), |o| pair(&p, q, &x, &y, o));
                    ctx.case(|| format!("path {q:?} and root {p:?}"), |o| pair(q, &p, &y, &x, o));
                }
            }
        }
    });
    ctx.section("wide and deep documents");

    // every short label, also one that nearly is a number
    let mut labels: Vec<String> = vec![];
    for a in ABC.iter().filter(|c| **c != b'-') {
        labels.push(s(&[*a]));
        for b in ABC.iter().filter(|c| **c != b'-') {
            labels.push(s(&[*a, *b]));
            if ctx.thorough || b"0123_abexoAEBX".contains(a) {
                labels.extend(ABC.iter().filter(|c| **c != b'-').map(|c| s(&[*a, *b, *c])));
            }
        }
    }
    let fixed: Vec<J> = vec![json!(["p", ["q"], { "0": "r", "_": "t" }]), json!({ "k": "p", "l": ["q"], "0": { "_": "r" } })];
    ctx.par(labels.len().div_ceil(64), |b| {
        let vals: Vec<Value> = fixed.iter().map(docs::val).collect();
        for l in &labels[b * 64..(b * 64 + 64).min(labels.len())] {
            let mut own = Map::new();
            own.insert("first".into(), json!("p"));
            own.insert(l.clone(), json!(["q", "r"]));
            let own = J::Object(own);
            let mine = docs::val(&own);
            let p = [l.as_str()];
            let Ok(x) = path(&p) else {
                ctx.case(|| format!("path {p:?}"), |o| paths_agree(&p, o));
                continue;
            };
            for (d, v) in fixed.iter().zip(&vals).chain([(&own, &mine)]) {
                ctx.case(|| format!("path {p:?} in {}", sh(&d.to_string())), |o| resolve(&p, &x, d, v, o));
            }
        }
    });
    ctx.section("every short label");

    // malformed components, at every place
    let mut worse: Vec<J> = vec![
        json!(""), json!("-"), json!("a-"), json!("-a"), json!("a-b"), json!("--"), J::Null, json!(true), json!(1.5), json!(-1),
        json!(-100), json!(["a"]), json!([]), json!({}), json!({"a": "b"}), json!(" "), json!("a b"), json!("a\n"), json!("\n"),
    ];
    for c in &bad {
        worse.push(json!(c.to_string()));
        worse.push(json!(format!("a{c}")));
        worse.push(json!(format!("{c}0")));
    }
    for w in &worse {
        for n in 0..=3usize {
            for at in 0..=n {
                let mut q: Vec<J> = vec![json!("a"); n];
                q.insert(at, w.clone());
                let j = J::Array(q);
                ctx.case(
                    || format!("malformed {j}"),
                    |o| {
                        ensure!(Pather::new_with_path(&docs::val(&j)).is_err(), "accepted");
                        o.step();
                        Ok(())
                    },
                );
            }
        }
    }
    for j in [J::Null, json!("a"), json!("-a"), json!(1), json!({}), json!({"a": "b"}), json!(true)] {
        ctx.case(
            || format!("not a list {j}"),
            |o| {
                ensure!(Pather::new_with_path(&docs::val(&j)).is_err(), "accepted");
                o.step();
                Ok(())
            },
        );
    }
    // texts that are no path: either rejected or have no components
    for t in ["", "a", "a-b", "0", "_", "a-", "AAAA"] {
        ctx.case(
            || format!("no path {t:?}"),
            |o| {
                if let Ok(x) = Pather::new_with_bext(t) {
                    ensure!(x.path().is_err(), "has components");
                    ensure!(x.resolve(&docs::val(&json!({"a": {"b": 1}}))).is_err(), "resolves");
                }
                o.steps(2);
                Ok(())
            },
        );
    }
    for c in &bad {
        for t in [format!("-{c}"), format!("-a{c}b"), format!("{c}-a"), format!("-a-{c}")] {
            ctx.case(
                || format!("no path {t:?}"),
                |o| {
                    ensure!(Pather::new_with_bext(&t).is_err(), "accepted");
                    o.step();
                    Ok(())
                },
            );
        }
    }
    ctx.section("malformed");

    tails(ctx);
    ctx.section("tails of events");
}

fn o_state(ctx: &Ctx, d: &J) {
    ctx.case(
        || format!("document {}", sh(&d.to_string())),
        |o| {
            o.state(d.to_string());
            Ok(())
        },
    );
}

/// a path into an event ends at a SAID, or at a map or list, which are shown
fn tails(ctx: &'static Ctx) {
    let (_, said) = spec::m_encode("E", &spec::filler(32, 9)).unwrap();
    let (_, key) = spec::m_encode("D", &spec::filler(32, 9)).unwrap();
    let mut m = Map::new();
    m.insert("v".into(), json!("KERI10JSON000000_"));
    m.insert("t".into(), json!("xip"));
    m.insert("d".into(), json!(""));
    m.insert("a".into(), json!({"d": said, "n": 5, "s": "text", "k": key, "l": [said, {"x": [1, "é"], "w": {}}], "z": null, "b": true, "e": "", "x": [], "0": {}}));
    let Some((_, doc)) = docs::saidify(&m, "E", "d", &[]) else { return };
    let j = J::Object(doc);
    let serder = match Serder::new_with_ked(&docs::val(&j), None, None) {
        Ok(s) => s,
        Err(_) => {
            ctx.case(|| "tail: event".into(), |_| Err("the event is not accepted".into()));
            return;
        }
    };
    let names = ["a", "d", "n", "s", "k", "l", "z", "b", "e", "x", "w", "0", "1", "2", "3", "v", "t", "q"];
    let mut paths: Vec<Vec<&str>> = vec![vec![]];
    let mut at = 0;
    while at < paths.len() {
        if paths[at].len() < 4 && (paths[at].is_empty() || walk(&j, &paths[at]).is_some()) {
            for c in names {
                let mut q = paths[at].clone();
                q.push(c);
                paths.push(q);
            }
        }
        at += 1;
    }
    for p in &paths {
        ctx.case(
            || format!("tail of {p:?}"),
            |o| {
                let r = path(p)?.tail(&serder);
                o.step();
                o.state(("tail", text_of(p)));
                match walk(&j, p) {
                    Some(J::String(s)) => {
                        let is = spec::m_parse(s.as_bytes()).is_some_and(|m| spec::DIGESTS.contains(&m.code.as_str()));
                        if is {
                            same!(es(r), Ok(s.clone()), "said");
                        } else {
                            ensure!(r.is_err(), "{s:?} shown though it is no said");
                        }
                    }
                    Some(x @ (J::Array(_) | J::Object(_))) => same!(es(r), Ok(x.to_string()), "content"),
                    _ => ensure!(r.is_err(), "something shown where nothing is"),
                }
                Ok(())
            },
        );
    }
}
