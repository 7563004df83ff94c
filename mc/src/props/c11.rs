//! C11: stretching salts.
use super::c09::{public, verfer_code, SUITES};
use super::types::*;
use super::*;
use crate::ctx::{Ctx, R};
use crate::{ensure, same, spec};
use cesride::{Matter, Salter, Signer};
use std::collections::HashMap;
use std::sync::Mutex;

/// published cost: memory in KiB, passes
fn cost(tier: &str) -> Option<(u32, u32)> {
    Some(match tier {
        "min" => (8, 1),
        "low" => (65536, 2),
        "med" => (262144, 3),
        "high" => (1048576, 4),
        _ => return None,
    })
}

type Key = (Vec<u8>, Vec<u8>, usize, String);
static CACHE: Mutex<Option<HashMap<Key, Vec<u8>>>> = Mutex::new(None);

pub fn reference(salt: &[u8], path: &[u8], size: usize, tier: &str) -> Option<Vec<u8>> {
    let (m, t) = cost(tier)?;
    if size < 4 {
        return None;
    }
    let key = (salt.to_vec(), path.to_vec(), size, tier.to_string());
    if tier != "min" {
        if let Some(c) = CACHE.lock().unwrap().as_ref() {
            if let Some(v) = c.get(&key) {
                return Some(v.clone());
            }
        }
    }
    let p = argon2::Params::new(m, t, 1, Some(size)).ok()?;
    let a = argon2::Argon2::new(argon2::Algorithm::Argon2id, argon2::Version::V0x13, p);
    let mut out = vec![0; size];
    a.hash_password_into(path, salt, &mut out).ok()?;
    if tier != "min" {
        CACHE.lock().unwrap().get_or_insert_with(HashMap::new).insert(key, out.clone());
    }
    Some(out)
}

/// the same salter through each of its forms
fn rebuild(salt: &[u8], tier: Option<&str>) -> Result<Vec<(&'static str, Salter)>, String> {
    let s = es(Salter::new_with_raw(salt, None, tier))?;
    let t = es(s.qb64())?;
    Ok(vec![
        ("raw and code", es(Salter::new_with_raw(salt, Some("0A"), tier))?),
        ("qb64", es(Salter::new_with_qb64(&t, tier))?),
        ("qb64b", es(Salter::new_with_qb64b(t.as_bytes(), tier))?),
        ("qb2", es(Salter::new_with_qb2(&es(s.qb2())?, tier))?),
        ("raw", s),
    ])
}

fn stretch(salt: &[u8], path: &str, size: usize, tier: &str, temp: bool, all: bool, steps: &mut u64) -> R {
    let want = reference(salt, path.as_bytes(), size, if temp { "min" } else { tier });
    let mut calls: Vec<(&str, cesride::Result<Vec<u8>>)> = vec![];
    let with_default = rebuild(salt, Some(tier))?;
    let s = es(Salter::new_with_raw(salt, None, None))?;
    calls.push(("tier given", s.stretch(Some(size), Some(path), Some(tier), Some(temp))));
    if all {
        for (how, x) in &with_default {
            same!(x.tier(), tier, "tier of the salter");
            calls.push((how, x.stretch(Some(size), Some(path), None, Some(temp))));
        }
        let other = es(Salter::new_with_raw(salt, None, Some("high")))?;
        calls.push(("tier given over another", other.stretch(Some(size), Some(path), Some(tier), Some(temp))));
        if path.is_empty() {
            calls.push(("no path", s.stretch(Some(size), None, Some(tier), Some(temp))));
        }
        if size == 32 {
            calls.push(("no size", s.stretch(None, Some(path), Some(tier), Some(temp))));
        }
        if !temp {
            calls.push(("no temp", s.stretch(Some(size), Some(path), Some(tier), None)));
        }
    }
    *steps += calls.len() as u64;
    for (how, got) in calls {
        match &want {
            None => ensure!(got.is_err(), "stretched ({how})"),
            Some(w) => same!(es(got), Ok(w.clone()), "secret ({how})"),
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    // paths over a small alphabet, completely
    let alpha = ['0', '1', 'a', 'f', '/'];
    let mut paths: Vec<String> = vec![String::new()];
    let mut last = paths.clone();
    for _ in 0..ctx.pick(3, 4) {
        let mut next = vec![];
        for p in &last {
            for c in alpha {
                next.push(format!("{p}{c}"));
            }
        }
        paths.extend(next.iter().cloned());
        last = next;
    }
    for x in ["é", "A", "\0", " ", "m/44'/0", "😀", "wit0", "signify:controller00"] {
        paths.push(x.into());
    }
    for n in [15, 16, 63, 64, 65, 127, 128, 255, 1000] {
        paths.push("p".repeat(n));
    }
    let mut salts: Vec<Vec<u8>> = vec![vec![0; 16], vec![0xff; 16], (0..16).collect(), b"0123456789abcdef".to_vec()];
    if ctx.thorough {
        for b in 0..128 {
            let mut s = vec![0u8; 16];
            s[b / 8] = 0x80 >> (b % 8);
            salts.push(s);
        }
    }
    ctx.par(paths.len() * salts.len(), |i| {
        let (p, s) = (&paths[i % paths.len()], &salts[i / paths.len()]);
        for size in [32usize, 64, 56] {
            for (tier, temp) in [("min", false), ("low", true)] {
                ctx.case(
                    || format!("stretch salt {} path {} size {size} tier {tier} temp {temp}", hex(s), sh(p)),
                    |o| {
                        stretch(s, p, size, tier, temp, size == 32, &mut o.steps)?;
                        o.state((s, p, size));
                        Ok(())
                    },
                );
            }
        }
    });
    ctx.section("paths and salts");

    // every bit of salt and path matters and every size is its own secret
    let mut sizes: Vec<usize> = (0..200).collect();
    sizes.extend([255, 256, 257, 512, 1024, 4096]);
    ctx.par(sizes.len(), |i| {
        ctx.case(
            || format!("stretch to size {}", sizes[i]),
            |o| {
                for p in ["", "0", "path"] {
                    stretch(&salts[3], p, sizes[i], "min", false, true, &mut o.steps)?;
                    o.state((sizes[i], p));
                }
                Ok(())
            },
        );
    });
    ctx.par(128, |b| {
        ctx.case(
            || format!("salt bit {b}"),
            |o| {
                let mut s = b"0123456789abcdef".to_vec();
                s[b / 8] ^= 0x80 >> (b % 8);
                stretch(&s, "path", 32, "min", false, true, &mut o.steps)?;
                o.state(s);
                Ok(())
            },
        );
    });
    ctx.section("sizes and salt bits");

    // the other tiers at their full cost
    let mut jobs: Vec<(&str, usize, usize)> = vec![];
    for p in 0..ctx.pick(3, 20) {
        for s in 0..ctx.pick(2, 4) {
            jobs.push(("low", p, s));
        }
    }
    for p in 0..ctx.pick(1, 4) {
        jobs.push(("med", p, 3));
    }
    ctx.par_threads(jobs.len(), 6, |i| {
        let (tier, p, s) = jobs[i];
        ctx.case(
            || format!("stretch at tier {tier} salt {s} path {p}"),
            |o| {
                let all = tier == "low";
                stretch(&salts[s], &paths[p], 32, tier, false, all, &mut o.steps)?;
                o.state((tier, p, s));
                Ok(())
            },
        );
    });
    ctx.case(
        || "stretch at tier high".into(),
        |o| {
            stretch(&salts[3], "path", 32, "high", false, false, &mut o.steps)?;
            o.state("high");
            Ok(())
        },
    );
    ctx.case(
        || "default tier".into(),
        |o| {
            let s = es(Salter::new_with_raw(&salts[2], None, None))?;
            same!(s.tier(), "low", "default tier");
            same!(es(s.stretch(None, None, None, None)), Ok(reference(&salts[2], b"", 32, "low").unwrap()), "all defaults");
            same!(es(s.stretch(None, None, None, Some(false))), Ok(reference(&salts[2], b"", 32, "low").unwrap()), "defaults");
            same!(es(Salter::new_with_defaults(None))?.tier(), "low", "default tier");
            same!(es(Salter::new_with_defaults(Some("med")))?.tier(), "med", "tier");
            o.steps(5);
            Ok(())
        },
    );
    ctx.section("tiers at full cost");

    // unknown tiers
    for t in ["", "LOW", "low ", " low", "hig", "medium", "minimum", "0", "é", "lo", "lowlow"] {
        ctx.case(
            || format!("tier {t:?}"),
            |o| {
                let s = es(Salter::new_with_raw(&salts[0], None, Some("low")))?;
                ensure!(s.stretch(None, None, Some(t), None).is_err(), "stretched");
                ensure!(s.signer(None, None, None, Some(t), None).is_err(), "signer made");
                ensure!(s.signers(None, None, None, None, None, Some(t), None).is_err(), "signers made");
                if let Ok(s) = Salter::new_with_raw(&salts[0], None, Some(t)) {
                    ensure!(s.stretch(None, None, None, None).is_err(), "stretched");
                }
                o.steps(4);
                Ok(())
            },
        );
    }
    ctx.section("unknown tiers");

    // signers derived from a salt
    let some: Vec<&String> = paths.iter().take(ctx.pick(40, 200)).collect();
    ctx.par(some.len() * salts.len().min(4) * 3, |i| {
        let suite = SUITES[i % 3];
        let p = some[i / 3 % some.len()];
        let salt = &salts[i / 3 / some.len()];
        for tr in [None, Some(true), Some(false)] {
            ctx.case(
                || format!("signer of salt {} path {} suite {suite} transferable {tr:?}", hex(salt), sh(p)),
                |o| {
                    let seed = reference(salt, p.as_bytes(), 32, "min").unwrap();
                    for (how, s) in rebuild(salt, Some("min"))? {
                        for (tier, temp) in [(None, None), (Some("min"), Some(false)), (Some("high"), Some(true))] {
                            let x = es(s.signer(Some(suite), tr, Some(p), tier, temp))?;
                            same!(sig_view(&x), view(suite, tr, &seed), "signer from {how}");
                            o.step();
                            if suite == "A" {
                                let x = es(s.signer(None, tr, Some(p), tier, temp))?;
                                same!(sig_view(&x), view(suite, tr, &seed), "signer of the default suite from {how}");
                                o.step();
                            }
                            if p.is_empty() {
                                let x = es(s.signer(Some(suite), tr, None, tier, temp))?;
                                same!(sig_view(&x), view(suite, tr, &seed), "signer of the default path from {how}");
                                o.step();
                            }
                        }
                    }
                    o.state((salt, p, suite, tr));
                    Ok(())
                },
            );
        }
    });
    ctx.section("signers");

    // lists of signers
    let starts: Vec<Option<usize>> = vec![None, Some(0), Some(1), Some(9), Some(10), Some(15), Some(16), Some(17), Some(255), Some(256), Some(4095)];
    ctx.par(starts.len() * 7 * 4, |i| {
        let start = starts[i % starts.len()];
        let count = [None, Some(0), Some(1), Some(2), Some(3), Some(7), Some(18)][i / starts.len() % 7];
        let path = [None, Some(""), Some("1"), Some("wit")][i / starts.len() / 7];
        for suite in SUITES {
            ctx.case(
                || format!("signers path {path:?} start {start:?} count {count:?} suite {suite}"),
                |o| {
                    let s = es(Salter::new_with_raw(&salts[3], None, Some("min")))?;
                    for tr in [None, Some(true), Some(false)] {
                        let got = es(s.signers(count, start, path, Some(suite), tr, None, None))?;
                        same!(got.len(), count.unwrap_or(1), "number of signers");
                        for (k, x) in got.iter().enumerate() {
                            let p = format!("{}{:x}", path.unwrap_or(""), start.unwrap_or(0) + k);
                            let seed = reference(&salts[3], p.as_bytes(), 32, "min").unwrap();
                            same!(sig_view(x), view(suite, tr, &seed), "signer {k} of path {p}");
                            o.step();
                        }
                    }
                    o.state((path, start, count, suite));
                    Ok(())
                },
            );
        }
    });
    // large numbers: at each power of two, and past the largest, where there are none
    let mut far: Vec<(usize, usize)> = vec![];
    for b in 4..usize::BITS {
        for d in [2usize, 1, 0] {
            far.extend([1usize, 2, 3].map(|n| ((1usize << b) - d, n)));
        }
    }
    for d in 0..4usize {
        far.extend([1usize, 2, 3, 4, 5].map(|n| (usize::MAX - d, n)));
    }
    far.extend([(usize::MAX, 0), (usize::MAX, usize::MAX), (2, usize::MAX)]);
    ctx.par(far.len(), |i| {
        let (start, count) = far[i];
        let suite = SUITES[i % 3];
        ctx.case(
            || format!("signers start {start} count {count} suite {suite}"),
            |o| {
                let s = es(Salter::new_with_raw(&salts[2], None, Some("min")))?;
                let r = s.signers(Some(count), Some(start), Some("p"), Some(suite), None, None, None);
                o.step();
                o.state((start, count));
                if count > 0 && start.checked_add(count - 1).is_none() {
                    ensure!(r.is_err(), "signers past the largest number");
                    return Ok(());
                }
                let got = es(r)?;
                same!(got.len(), count, "number of signers");
                for (k, x) in got.iter().enumerate() {
                    let seed = reference(&salts[2], format!("p{:x}", start + k).as_bytes(), 32, "min").unwrap();
                    same!(sig_view(x), view(suite, None, &seed), "signer {k}");
                    o.step();
                }
                Ok(())
            },
        );
    });
    // one long list
    let long = ctx.pick(1100, 66000);
    ctx.case(
        || format!("{long} signers"),
        |o| {
            let s = es(Salter::new_with_raw(&salts[3], None, Some("min")))?;
            let got = es(s.signers(Some(long), None, Some("l"), None, None, None, None))?;
            same!(got.len(), long, "number of signers");
            for (k, x) in got.iter().enumerate() {
                same!(x.raw(), reference(&salts[3], format!("l{k:x}").as_bytes(), 32, "min").unwrap(), "signer {k}");
                o.step();
            }
            Ok(())
        },
    );
    // the list honours tier, temp and default suite
    ctx.case(
        || "signers at another tier".into(),
        |o| {
            let s = es(Salter::new_with_raw(&salts[3], None, Some("high")))?;
            let got = es(s.signers(Some(2), Some(3), Some("x"), None, None, Some("min"), None))?;
            let tmp = es(s.signers(Some(2), Some(3), Some("x"), None, None, None, Some(true)))?;
            let low = es(s.signers(Some(1), Some(0), Some("x"), None, None, Some("low"), Some(false)))?;
            for k in 0..2 {
                let seed = reference(&salts[3], format!("x{}", 3 + k).as_bytes(), 32, "min").unwrap();
                same!(sig_view(&got[k]), view("A", None, &seed), "tier given");
                same!(sig_view(&tmp[k]), view("A", None, &seed), "temporary");
            }
            let seed = reference(&salts[3], b"x0", 32, "low").unwrap();
            same!(sig_view(&low[0]), view("A", None, &seed), "tier low given");
            o.steps(3);
            Ok(())
        },
    );
    ctx.section("lists of signers");

    for c in spec::MATTER.iter().map(|m| m.code).chain(["", "Z", "é"]) {
        if SUITES.contains(&c) {
            continue;
        }
        ctx.case(
            || format!("signer of a salt under code {c:?}"),
            |o| {
                let s = es(Salter::new_with_raw(&salts[3], None, Some("min")))?;
                ensure!(s.signer(Some(c), None, None, None, None).is_err(), "made");
                ensure!(s.signers(None, None, None, Some(c), None, None, None).is_err(), "made");
                o.steps(2);
                Ok(())
            },
        );
    }
    ctx.section("other codes");
}

type View = (String, Vec<u8>, String, Vec<u8>);

fn sig_view(s: &Signer) -> View {
    (s.code(), s.raw(), s.verfer().code(), s.verfer().raw())
}

fn view(suite: &str, tr: Option<bool>, seed: &[u8]) -> View {
    (
        suite.to_string(),
        seed.to_vec(),
        verfer_code(suite, tr.unwrap_or(true)).to_string(),
        public(suite, seed).unwrap(),
    )
}
