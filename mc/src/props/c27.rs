//! C27: no block the library gives back, or keeps once its objects are gone, holds a secret.
//! `crate::heap` searches them, in every trace.
use super::c09;
use super::*;
use crate::ctx::{Ctx, Obs, R};
use crate::entropy::{self, Script};
use crate::heap;
use crate::spec;
use cesride::{Matter, Salter, Signer};

/// what belongs to the caller afterwards
type Kept = Vec<Box<dyn std::any::Any>>;

/// pieces of a secret such that every long enough part of it holds one: in bytes and in its text
fn pieces(raw: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = raw.chunks_exact(8).map(|c| c.to_vec()).collect();
    // qualified, the raw is the end of the text; both kinds of codes (one or two characters of lead)
    for code in ["A", "0A"] {
        let pad = (3 - raw.len() % 3) % 3;
        if code.len() == pad {
            let t = spec::enc3(&[vec![0; pad], raw.to_vec()].concat());
            v.extend(t.as_bytes()[pad..].chunks_exact(10).map(|c| c.to_vec()));
        }
    }
    v.retain(|p| p.iter().any(|b| *b != p[0]));
    v
}

fn watch(o: &mut Obs, secrets: &[&[u8]], f: impl FnOnce(&mut Kept)) -> R {
    let mut all = vec![];
    for s in secrets {
        all.extend(pieces(s));
    }
    let seen = heap::watch(
        all,
        || {
            let mut kept: Kept = vec![];
            f(&mut kept);
            kept
        },
        drop,
    );
    o.steps(1 + seen.blocks);
    match seen.hits.first() {
        None => Ok(()),
        Some(h) => Err(format!("{h} ({} in all)", seen.hits.len())),
    }
}

/// keeps the error for the caller
fn got<T>(r: cesride::Result<T>, k: &mut Kept) -> Option<T> {
    match r {
        Ok(t) => Some(t),
        Err(e) => {
            k.push(Box::new(e));
            None
        }
    }
}

fn give<T: 'static>(r: cesride::Result<T>, k: &mut Kept) {
    if let Some(t) = got(r, k) {
        k.push(Box::new(t));
    }
}

struct Step<T> {
    name: &'static str,
    f: fn(&T, &mut Kept),
}

const SIGNER: &[Step<Signer>] = &[
    Step { name: "raw", f: |s, k| k.push(Box::new(s.raw())) },
    Step { name: "qb64", f: |s, k| give(s.qb64(), k) },
    Step { name: "qb64b", f: |s, k| give(s.qb64b(), k) },
    Step { name: "qb2", f: |s, k| give(s.qb2(), k) },
    Step { name: "clone", f: |s, _| drop(s.clone()) },
    Step { name: "clone of clone", f: |s, k| drop(got(s.clone().clone().sign_unindexed(b"x"), k)) },
    Step { name: "compare", f: |s, _| assert!(*s == s.clone()) },
    Step { name: "sign", f: |s, k| drop(got(s.sign_unindexed(b"message"), k)) },
    Step { name: "sign nothing", f: |s, k| drop(got(s.sign_unindexed(b""), k)) },
    Step { name: "sign long", f: |s, k| drop(got(s.sign_unindexed(&[b'm'; 5000]), k)) },
    Step { name: "sign long indexed", f: |s, k| drop(got(s.sign_indexed(&[b'm'; 5000], false, 70, None), k)) },
    Step { name: "sign indexed", f: |s, k| drop(got(s.sign_indexed(b"message", false, 0, None), k)) },
    Step { name: "sign indexed big", f: |s, k| drop(got(s.sign_indexed(b"message", false, 1, Some(70)), k)) },
    Step { name: "sign current", f: |s, k| drop(got(s.sign_indexed(b"message", true, 3, None), k)) },
    Step { name: "sign out of range", f: |s, k| drop(got(s.sign_indexed(b"message", false, 4096, Some(1)), k)) },
    Step { name: "verfer", f: |s, k| drop(got(s.verfer().qb64(), k)) },
    Step { name: "sizes", f: |s, k| give(s.full_size(), k) },
    Step { name: "transferable", f: |s, _| drop((s.transferable(), s.digestive(), s.code(), s.size())) },
];

const SALTER: &[Step<Salter>] = &[
    Step { name: "raw", f: |s, k| k.push(Box::new(s.raw())) },
    Step { name: "qb64", f: |s, k| give(s.qb64(), k) },
    Step { name: "qb64b", f: |s, k| give(s.qb64b(), k) },
    Step { name: "qb2", f: |s, k| give(s.qb2(), k) },
    Step { name: "clone", f: |s, _| drop(s.clone()) },
    Step { name: "compare", f: |s, _| assert!(*s == s.clone()) },
    Step { name: "stretch", f: |s, k| give(s.stretch(Some(32), Some("path"), None, Some(true)), k) },
    Step { name: "stretch 16", f: |s, k| give(s.stretch(Some(16), None, None, Some(true)), k) },
    Step { name: "stretch to more", f: |s, k| give(s.stretch(Some(96), Some("path"), None, Some(true)), k) },
    Step { name: "stretch long path", f: |s, k| give(s.stretch(Some(32), Some(&"path".repeat(300)), None, Some(true)), k) },
    Step { name: "stretch too little", f: |s, k| give(s.stretch(Some(3), Some("path"), None, Some(true)), k) },
    Step { name: "stretch no tier", f: |s, k| give(s.stretch(Some(32), Some("path"), Some("none"), None), k) },
    Step { name: "signer", f: |s, k| drop(got(s.signer(None, None, Some("path"), None, Some(true)), k)) },
    Step { name: "signer J", f: |s, k| drop(got(s.signer(Some("J"), Some(false), Some("path"), None, Some(true)), k)) },
    Step { name: "signer Q", f: |s, k| drop(got(s.signer(Some("Q"), None, Some("path"), None, Some(true)), k)) },
    Step { name: "signer of no seed", f: |s, k| drop(got(s.signer(Some("E"), None, Some("path"), None, Some(true)), k)) },
    Step { name: "signer of no code", f: |s, k| drop(got(s.signer(Some("zz"), None, Some("path"), None, Some(true)), k)) },
    Step { name: "signers", f: |s, k| drop(got(s.signers(Some(2), None, Some("pat"), None, None, None, Some(true)), k)) },
    Step { name: "signers of no seed", f: |s, k| drop(got(s.signers(Some(2), None, Some("pat"), Some("E"), None, None, Some(true)), k)) },
    Step { name: "tier", f: |s, _| drop((s.tier(), s.code(), s.size())) },
];

/// the secrets that the steps on a salter stretch
fn stretched(salt: &[u8]) -> Vec<Vec<u8>> {
    let long = "path".repeat(300);
    [("path", 32), ("", 16), ("pat0", 32), ("pat1", 32), ("path", 96), (&long, 32)].iter().filter_map(|(p, n)| super::c11::reference(salt, p.as_bytes(), *n, "min")).collect()
}

#[derive(Clone)]
struct From_ {
    name: String,
    code: Option<String>,
    raw: Option<Vec<u8>>,
    qb64b: Option<Vec<u8>>,
    qb64: Option<String>,
    qb2: Option<Vec<u8>>,
}

fn none(name: String) -> From_ {
    From_ { name, code: None, raw: None, qb64b: None, qb64: None, qb2: None }
}

/// the three forms of a text, and what a text becomes
fn forms(name: &str, t: &str, v: &mut Vec<From_>) {
    v.push(From_ { qb64: Some(t.into()), ..none(format!("{name} text")) });
    v.push(From_ { qb64b: Some(t.into()), ..none(format!("{name} text bytes")) });
    if let Some(b) = spec::dec4(t.as_bytes()) {
        v.push(From_ { qb2: Some(b), ..none(format!("{name} binary")) });
    }
}

/// every way in which the secret is given, well or badly
fn ways(code: &str, raw: &[u8]) -> Vec<From_> {
    let mut v = vec![];
    let (_, t) = spec::m_encode(code, raw).unwrap();
    forms("whole", &t, &mut v);
    forms("more", &format!("{t}AAAABBBB"), &mut v);
    for n in 0..t.len() {
        forms(&format!("{n} characters"), &t[..n], &mut v);
    }
    let bin = spec::dec4(t.as_bytes()).unwrap();
    for n in 0..bin.len() {
        v.push(From_ { qb2: Some(bin[..n].into()), ..none(format!("{n} binary bytes")) });
        v.push(From_ { raw: Some(raw[..n.min(raw.len())].into()), code: Some(code.into()), ..none(format!("{n} raw bytes")) });
    }
    for n in 0..3 {
        v.push(From_ { raw: Some([raw, &vec![1; n]].concat()), code: Some(code.into()), ..none(format!("{n} raw bytes more")) });
    }
    for at in 0..t.len() {
        for c in ["*", "=", "_", "é"] {
            let mut x = t.clone();
            x.replace_range(at..at + 1, c);
            forms(&format!("{c} at {at}"), &x, &mut v);
        }
        let mut b = t.clone().into_bytes();
        b[at] = 0xff;
        v.push(From_ { qb64b: Some(b), ..none(format!("no UTF-8 at {at}")) });
    }
    // under every other code
    for m in spec::MATTER {
        v.push(From_ { raw: Some(raw.into()), code: Some(m.code.into()), ..none(format!("raw with code {}", m.code)) });
        let x = format!("{}{}", m.code, &t[m.code.len().min(t.len())..]);
        forms(&format!("code {}", m.code), &x, &mut v);
    }
    for m in ["", "zz", "é", "-A", "AA"] {
        v.push(From_ { raw: Some(raw.into()), code: Some(m.into()), ..none(format!("raw with code {m:?}")) });
        forms(&format!("code {m:?}"), &format!("{m}{}", &t[1..]), &mut v);
    }
    v.push(From_ { raw: Some(raw.into()), ..none("raw with no code".into()) });
    // several at a time
    for bits in 0..32u32 {
        let g = |k: u32| bits >> k & 1 == 1;
        v.push(From_ {
            name: format!("arguments {bits:05b}"),
            code: g(0).then(|| code.into()),
            raw: g(1).then(|| raw.into()),
            qb64b: g(2).then(|| t.clone().into_bytes()),
            qb64: g(3).then(|| t.clone()),
            qb2: g(4).then(|| bin.clone()),
        });
    }
    v
}

fn signer(f: &From_, tr: Option<bool>) -> cesride::Result<Signer> {
    Signer::new(tr, f.code.as_deref(), f.raw.as_deref(), f.qb64b.as_deref(), f.qb64.as_deref(), f.qb2.as_deref())
}

fn salter(f: &From_) -> cesride::Result<Salter> {
    Salter::new(None, f.code.as_deref(), f.raw.as_deref(), f.qb64b.as_deref(), f.qb64.as_deref(), f.qb2.as_deref())
}

/// all sequences of up to `depth` of `n` things
fn sequences(n: usize, depth: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..depth {
        last = last.iter().flat_map(|s: &Vec<usize>| (0..n).map(move |k| [&s[..], &[k]].concat())).collect();
        all.extend(last.clone());
    }
    all
}

fn names<T>(steps: &[Step<T>], s: &[usize]) -> String {
    s.iter().map(|k| steps[*k].name).collect::<Vec<_>>().join(", ")
}

/// a secret whose pieces are found nowhere else
fn secret(n: usize, k: u64) -> Vec<u8> {
    spec::filler(n, 0x5ec2e7 + k)
}

pub fn run(ctx: &Ctx) {
    let depth = ctx.pick(3, 4);
    // the monitor itself: a copy given back, a copy kept, a moved buffer, must be seen
    let s = secret(32, 0);
    for (name, f) in [
        ("a copy", Box::new(|s: &[u8]| drop(std::hint::black_box(s.to_vec()))) as Box<dyn Fn(&[u8])>),
        ("a part", Box::new(|s: &[u8]| drop(std::hint::black_box(s[5..22].to_vec())))),
        ("a copy kept", Box::new(|s: &[u8]| std::mem::forget(std::hint::black_box(s.to_vec())))),
        ("a text", Box::new(|s: &[u8]| drop(spec::m_encode("A", s)))),
        ("a buffer that grew", Box::new(|s: &[u8]| {
            let mut v = std::hint::black_box(s.to_vec());
            v.extend([0; 100]);
            v.iter_mut().for_each(|b| *b = 0);
            drop(std::hint::black_box(v));
        })),
    ] {
        let mut o = Obs::default();
        if watch(&mut o, &[&s], |_| f(&s)).is_ok() {
            panic!("the monitor misses {name}");
        }
    }
    let mut o = Obs::default();
    if watch(&mut o, &[&s], |k| k.push(Box::new(s.clone()))).is_err() {
        panic!("the monitor takes what is the caller's for a leak");
    }

    for suite in c09::SUITES {
        let raw = secret(32, 1);
        let ways = ways(suite, &raw);
        ctx.par(ways.len(), |i| {
            for tr in [None, Some(false)] {
                ctx.case(
                    || format!("signer {suite} from {} {tr:?}", ways[i].name),
                    |o| watch(o, &[&raw], |k| drop(got(signer(&ways[i], tr), k))),
                );
            }
        });
        let seqs = sequences(SIGNER.len(), depth);
        let (_, t) = spec::m_encode(suite, &raw).unwrap();
        ctx.par(seqs.len(), |i| {
            ctx.case(
                || format!("signer {suite}: {}", names(SIGNER, &seqs[i])),
                |o| {
                    o.state((suite, &seqs[i]));
                    watch(o, &[&raw], |k| {
                        if let Some(s) = got(Signer::new_with_qb64(&t, None), k) {
                            for x in &seqs[i] {
                                (SIGNER[*x].f)(&s, k);
                            }
                        }
                    })
                },
            );
        });
        // secrets that are none of the group
        for (what, raw) in [("the order", suite_order(suite)), ("beyond", beyond(suite))] {
            let ways = super::c27::ways(suite, &raw);
            ctx.par(ways.len(), |i| {
                ctx.case(
                    || format!("signer {suite} from {what}, {}", ways[i].name),
                    |o| watch(o, &[&raw], |k| drop(got(signer(&ways[i], None), k))),
                );
            });
        }
        // fresh ones: the source gives bytes known beforehand
        let stream = secret(256, 3);
        for tr in [None, Some(true), Some(false)] {
            for x in 0..=SIGNER.len() {
                ctx.case(
                    || format!("fresh signer {suite} {tr:?}, {}", SIGNER.get(x).map(|s| s.name).unwrap_or("dropped")),
                    |o| {
                        entropy::set(Script { seed: 5, prefix: stream.clone(), ..Default::default() });
                        let r = watch(o, &[&stream], |k| {
                            if let Some(s) = got(Signer::new_with_defaults(tr, Some(suite)), k) {
                                if let Some(x) = SIGNER.get(x) {
                                    (x.f)(&s, k);
                                }
                            }
                        });
                        entropy::take();
                        r
                    },
                );
            }
        }
    }
    ctx.section("signers");
    let raw = secret(16, 2);
    let ways = ways("0A", &raw);
    ctx.par(ways.len(), |i| {
        ctx.case(|| format!("salter from {}", ways[i].name), |o| watch(o, &[&raw], |k| drop(got(salter(&ways[i]), k))));
    });
    let secrets: Vec<Vec<u8>> = stretched(&raw).into_iter().chain([raw.clone()]).collect();
    let secrets: Vec<&[u8]> = secrets.iter().map(|s| &s[..]).collect();
    let seqs = sequences(SALTER.len(), depth);
    let (_, t) = spec::m_encode("0A", &raw).unwrap();
    ctx.par(seqs.len(), |i| {
        ctx.case(
            || format!("salter: {}", names(SALTER, &seqs[i])),
            |o| {
                o.state(("salter", &seqs[i]));
                watch(o, &secrets, |k| {
                    if let Some(s) = got(Salter::new_with_qb64(&t, None), k) {
                        for x in &seqs[i] {
                            (SALTER[*x].f)(&s, k);
                        }
                    }
                })
            },
        );
    });
    let stream = secret(256, 4);
    let fresh: Vec<Vec<u8>> = stretched(&stream[..16]).into_iter().chain([stream.clone()]).collect();
    let fresh: Vec<&[u8]> = fresh.iter().map(|s| &s[..]).collect();
    for tier in [None, Some("low"), Some("none")] {
        for x in 0..=SALTER.len() {
            ctx.case(
                || format!("fresh salter {tier:?}, {}", SALTER.get(x).map(|s| s.name).unwrap_or("dropped")),
                |o| {
                    entropy::set(Script { seed: 5, prefix: stream.clone(), ..Default::default() });
                    let r = watch(o, &fresh, |k| {
                        if let Some(s) = got(Salter::new_with_defaults(tier), k) {
                            if let Some(x) = SALTER.get(x) {
                                (x.f)(&s, k);
                            }
                        }
                    });
                    entropy::take();
                    r
                },
            );
        }
    }
    ctx.section("salters");
}

fn suite_order(suite: &str) -> Vec<u8> {
    match suite {
        "J" => hex32("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141").to_vec(),
        _ => hex32("FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551").to_vec(),
    }
}

fn beyond(suite: &str) -> Vec<u8> {
    let mut v = secret(32, 9);
    let n = if suite == "J" { 16 } else { 4 };
    v[..n].fill(0xff);
    v
}
