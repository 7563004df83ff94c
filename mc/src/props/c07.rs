//! C07: counters.
use super::types::*;
use super::*;
use crate::ctx::{Ctx, Obs, R};
use crate::{ensure, same, spec};
use cesride::Counter;

fn check(code: &str, count: u32, o: &mut Obs) -> R {
    let want = cexpected(code, count);
    let got = csnap(Counter::new_with_code_and_count(code, count));
    let new = csnap(Counter::new(Some(count), None, Some(code), None, None, None));
    o.steps(2);
    let e = match want {
        None => {
            ensure!(got.is_err() && new.is_err(), "accepted a count beyond the code's range: {:?}", got.map(|g| g.qb64));
            o.state(("rejected", code));
            return Ok(());
        }
        Some(e) => e,
    };
    same!(got, Ok(e.clone()), "from code and count");
    same!(new, Ok(e.clone()), "new(code, count)");
    same!(csnap(Counter::new_with_qb64(&e.qb64)), Ok(e.clone()), "from qb64");
    same!(csnap(Counter::new_with_qb64b(&e.qb64b)), Ok(e.clone()), "from qb64b");
    same!(csnap(Counter::new_with_qb2(&e.qb2)), Ok(e.clone()), "from qb2");
    // the same count as base64 text, with and without leading zeros
    let t = e.b64.trim_start_matches('A');
    for l in 0..=(5usize.saturating_sub(t.len())) {
        let s = format!("{}{t}", "A".repeat(l));
        if s.is_empty() {
            continue;
        }
        same!(csnap(Counter::new(None, Some(&s), Some(code), None, None, None)), Ok(e.clone()), "from count text {s:?}");
        o.step();
    }
    let c = es(Counter::new_with_code_and_count(code, count))?;
    let further: &[usize] = if count < 70 { &[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000] } else { &[] };
    for l in (e.b64.len()..14).chain(further.iter().copied()) {
        same!(es(c.count_as_b64(l)), Ok(format!("{}{}", "A".repeat(l - e.b64.len()), e.b64)), "count as base64 of length {l}");
    }
    o.steps(3);
    o.state((code, count));
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.case(
        || "published names".into(),
        |o| {
            names!(o, cesride::counter::Codex,
                ControllerIdxSigs "-A", WitnessIdxSigs "-B", NonTransReceiptCouples "-C", TransReceiptQuadruples "-D", FirstSeenReplayCouples "-E", 
                TransIdxSigGroups "-F", SealSourceCouples "-G", TransLastIdxSigGroups "-H", SealSourceTriples "-I", SadPathSig "-J", 
                SadPathSigGroup "-K", PathedMaterialQuadlets "-L", AttachedMaterialQuadlets "-V", BigAttachedMaterialQuadlets "-0V", 
                KERIProtocolStack "--AAA", );
            Ok(())
        },
    );
    let one = |code: &str, n: u32| ctx.case(|| format!("counter {code} count {n}"), |o| check(code, n, o));
    let k = spec::COUNTER.len();
    ctx.par(k * 4200, |i| one(spec::COUNTER[i / 4200].0, (i % 4200) as u32));
    ctx.section("all codes, counts 0..4199");

    let mut lat: Vec<u32> = vec![u32::MAX, u32::MAX - 1, 1 << 31, (1u32 << 31) - 1];
    for p in 0..32u32 {
        for d in [-2i64, -1, 0, 1, 2] {
            let x = (1i64 << p) + d;
            if (0..=u32::MAX as i64).contains(&x) {
                lat.push(x as u32);
            }
        }
    }
    for d in 0..64u32 {
        for p in [0, 6, 12, 18, 24] {
            lat.push(d << p);
            lat.push(((1 << 30) - 1) ^ (d << p));
            for e in 0..64u32 {
                for q in [0, 6, 12, 18, 24] {
                    lat.push((d << p) | (e << q));
                }
            }
        }
    }
    lat.sort();
    lat.dedup();
    ctx.par(k * lat.len(), |i| one(spec::COUNTER[i / lat.len()].0, lat[i % lat.len()]));
    ctx.section("digit lattice");
    if ctx.thorough {
        ctx.par(1 << 18, |i| {
            one("--AAA", i as u32);
            one("-0V", i as u32);
            one("-0V", (i as u32) << 12);
        });
        ctx.section("all three-digit counts");
    }

    // default count is 1; code required
    ctx.case(
        || "default count".into(),
        |o| {
            for (code, _) in spec::COUNTER {
                same!(csnap(Counter::new(None, None, Some(code), None, None, None)), Ok(cexpected(code, 1).unwrap()), "default count of {code}");
                o.step();
            }
            ensure!(Counter::new(Some(1), None, None, None, None, None).is_err(), "count without code accepted");
            ensure!(Counter::new(None, None, None, None, None, None).is_err(), "nothing accepted");
            Ok(())
        },
    );

    // unknown codes
    let a = spec::B64;
    let mut names = vec![String::new(), "-".into(), "A".into(), "AA".into(), "-é".into(), "-0".into(), "--".into()];
    for x in a {
        for y in a {
            names.push(format!("{}{}", *x as char, *y as char));
            names.push(format!("-{}{}", *x as char, *y as char));
            for z in ["A", "B", "_"] {
                names.push(format!("--{}{}{z}", *x as char, *y as char));
                names.push(format!("--{z}{}{}", *x as char, *y as char));
                names.push(format!("-0{}{z}{}", *x as char, *y as char));
            }
        }
    }
    names.sort();
    names.dedup();
    names.retain(|n| !spec::COUNTER.iter().any(|c| c.0 == n));
    ctx.par(names.len(), |i| {
        let c = &names[i];
        ctx.case(
            || format!("unknown counter code {c:?}"),
            |o| {
                o.steps(2);
                ensure!(Counter::new_with_code_and_count(c, 1).is_err(), "accepted");
                ensure!(Counter::new(Some(1), None, Some(c), None, None, None).is_err(), "accepted");
                o.state(("unknown", c));
                Ok(())
            },
        );
    });
    ctx.section("unknown codes");

    // count text that is not a number in range
    let mut texts: Vec<String> = ["=", "A=", "AA==", " ", "A ", "é", "+", "/", "A/", "A\n", "😀", "\0"].iter().map(|s| s.to_string()).collect();
    for x in a {
        for len in 2..9 {
            texts.push(format!("{}{}", *x as char, "A".repeat(len)));
            texts.push(format!("{}{}", *x as char, "_".repeat(len)));
        }
    }
    ctx.par(texts.len(), |i| {
        let t = &texts[i];
        for (code, ss) in spec::COUNTER {
            ctx.case(
                || format!("counter {code} count text {t:?}"),
                |o| {
                    let n = if t.len() <= 10 { spec::nb64(t.as_bytes()) } else { None };
                    let got = csnap(Counter::new(None, Some(t), Some(code), None, None, None));
                    o.step();
                    match n {
                        Some(n) if n < 1 << (6 * ss) => {
                            same!(got, Ok(cexpected(code, n as u32).unwrap()), "count text");
                        }
                        _ => ensure!(got.is_err(), "accepted: {got:?}"),
                    }
                    o.state((code, t));
                    Ok(())
                },
            );
        }
    });
    ctx.section("count texts");

    // protocol versions
    let vals: Vec<u8> = if ctx.thorough { (0..64).collect() } else { vec![0, 1, 2, 9, 10, 25, 26, 31, 32, 51, 52, 61, 62, 63] };
    ctx.par(vals.len() * vals.len(), |i| {
        for p in &vals {
            let (x, y, z) = (vals[i / vals.len()], vals[i % vals.len()], *p);
            ctx.case(
                || format!("version {x}.{y}.{z}"),
                |o| {
                    let t = es(Counter::sem_ver_to_b64(x, y, z))?;
                    let want: String = [x, y, z].iter().map(|n| spec::B64[*n as usize] as char).collect();
                    same!(t, want, "version text");
                    same!(es(Counter::sem_ver_str_to_b64(&format!("{x}.{y}.{z}"))), Ok(want.clone()), "version from text");
                    let c = csnap(Counter::new(None, Some(&t), Some("--AAA"), None, None, None))?;
                    same!(c.qb64, format!("--AAA{want}"), "version counter");
                    let n = (x as u32) << 12 | (y as u32) << 6 | z as u32;
                    same!(c, cexpected("--AAA", n).unwrap(), "version counter");
                    same!(csnap(Counter::new_with_qb64(&c.qb64)), Ok(c.clone()), "from qb64");
                    same!(csnap(Counter::new_with_qb2(&c.qb2)), Ok(c.clone()), "from qb2");
                    o.steps(5);
                    o.state((x, y, z));
                    Ok(())
                },
            );
        }
    });
    ctx.section("versions");
    ctx.par(256, |x| {
        let x = x as u8;
        for pos in 0..3 {
            ctx.case(
                || format!("version part {x} at {pos}"),
                |o| {
                    let mut p = [1u8; 3];
                    p[pos] = x;
                    let got = Counter::sem_ver_to_b64(p[0], p[1], p[2]);
                    ensure!(got.is_ok() == (x < 64), "version {p:?}: {:?}", got.map_err(|e| e.to_string()));
                    let s = format!("{}.{}.{}", p[0], p[1], p[2]);
                    let got = Counter::sem_ver_str_to_b64(&s);
                    ensure!(got.is_ok() == (x < 64), "version {s}: {:?}", got.map_err(|e| e.to_string()));
                    o.steps(2);
                    Ok(())
                },
            );
        }
    });
    for bad in ["-1.0.0", "0.-1.0", "0.0.-1", "1.2.3.4", "a.b.c", "1.x", "1.0.0 ", "é", "0x1.0.0", "1,0,0", "256.0.0", "1.0.64", "1..2.3"] {
        ctx.case(
            || format!("version text {bad:?}"),
            |o| {
                o.step();
                let g = Counter::sem_ver_str_to_b64(bad);
                ensure!(g.is_err(), "accepted as {:?}", g.ok());
                Ok(())
            },
        );
    }
    ctx.section("version limits");

    // every short text: up to three parts, each a number of one base64 character or nothing
    let sigma = ["1", "6", "4", ".", "-", "+", "x"];
    let len = ctx.pick(7u32, 8);
    let total: usize = (0..=len).map(|l| sigma.len().pow(l)).sum();
    ctx.par(total, |mut i| {
        let mut l = 0;
        while i >= sigma.len().pow(l) {
            i -= sigma.len().pow(l);
            l += 1;
        }
        let t: String = (0..l).map(|k| sigma[i / sigma.len().pow(k) % sigma.len()]).collect();
        ctx.case(
            || format!("version text {t:?}"),
            |o| {
                o.step();
                let parts: Vec<&str> = t.split('.').collect();
                let value = |p: &&str| if p.is_empty() { Some(0) } else { p.parse::<i64>().ok().filter(|n| (0..64).contains(n)) };
                let want: Option<String> = if parts.len() > 3 {
                    None
                } else {
                    let v: Option<Vec<i64>> = parts.iter().map(value).collect();
                    v.map(|mut v| {
                        v.resize(3, 0);
                        v.iter().map(|n| spec::B64[*n as usize] as char).collect()
                    })
                };
                let got = Counter::sem_ver_str_to_b64(&t).ok();
                // a number with a sign may be refused
                if got.is_some() || !t.contains(['-', '+']) {
                    same!(got, want, "version from text");
                }
                Ok(())
            },
        );
    });
    ctx.section("version texts");
}
