//! C06: index and ondex of indexed signatures.
use super::types::*;
use super::*;
use crate::ctx::{Ctx, Obs, R};
use crate::{ensure, same, spec};
use cesride::{Indexer, Siger};

fn check(ty: &ITy, code: &str, index: u32, ondex: Option<u32>, o: &mut Obs) -> R {
    let c = spec::ic(code).unwrap();
    let n = if c.fs == 0 && index > 4095 { 64 } else { c.raw(index) };
    let raw = spec::filler(n, index as u64 + 1);
    o.step();
    let got = (ty.raw)(code, &raw, index, ondex);
    let want = spec::i_build(code, &raw, index, ondex);
    // the general constructor
    let gen: Result<ISnap, String> = if ty.name.starts_with("Siger") {
        es(Siger::new(None, Some(index), ondex, Some(code), Some(&raw), None, None, None)).and_then(|s| isnap(&s))
    } else {
        es(<TI as Indexer>::new(Some(index), ondex, Some(code), Some(&raw), None, None, None)).and_then(|s| isnap(&s))
    };
    match want {
        None => {
            ensure!(got.is_err(), "accepted index and ondex it cannot carry: {:?}", got.map(|g| g.qb64));
            ensure!(gen.is_err(), "new() accepted index and ondex it cannot carry");
            o.state(("rejected", code, index.min(70), ondex.map(|x| x.min(70))));
        }
        Some(i) => {
            let e = iexpected(&i);
            same!(got, Ok(e.clone()), "from parts");
            same!(gen, Ok(e.clone()), "new() from parts");
            // a variable-size label code reads its index back as its ondex
            let mut back = e.clone();
            if c.os == 0 && c.kind == 2 {
                back.ondex = index;
            }
            same!((ty.qb64)(&e.qb64), Ok(back.clone()), "rebuilt from qb64");
            same!((ty.qb64b)(&e.qb64b), Ok(back.clone()), "rebuilt from qb64b");
            same!((ty.qb2)(&e.qb2), Ok(back.clone()), "rebuilt from qb2");
            o.steps(4);
            o.state((code, index, ondex));
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.case(
        || "published names".into(),
        |o| {
            names!(o, cesride::indexer::Codex,
                Ed25519 "A", Ed25519_Crt "B", ECDSA_256k1 "C", ECDSA_256k1_Crt "D", ECDSA_256r1 "E", ECDSA_256r1_Crt "F", Ed448 "0A", 
                Ed448_Crt "0B", Ed25519_Big "2A", Ed25519_Big_Crt "2B", ECDSA_256k1_Big "2C", ECDSA_256k1_Big_Crt "2D", ECDSA_256r1_Big "2E", 
                ECDSA_256r1_Big_Crt "2F", Ed448_Big "3A", Ed448_Big_Crt "3B", TBD0 "0z", TBD1 "1z", TBD4 "4z", Ed25519 "A", Ed25519_Crt "B", 
                ECDSA_256k1 "C", ECDSA_256k1_Crt "D", ECDSA_256r1 "E", ECDSA_256r1_Crt "F", Ed448 "0A", Ed448_Crt "0B", Ed25519_Big "2A", 
                Ed25519_Big_Crt "2B", ECDSA_256k1_Big "2C", ECDSA_256k1_Big_Crt "2D", ECDSA_256r1_Big "2E", ECDSA_256r1_Big_Crt "2F", 
                Ed448_Big "3A", Ed448_Big_Crt "3B", Ed25519_Crt "B", ECDSA_256k1_Crt "D", ECDSA_256r1_Crt "F", Ed448_Crt "0B", 
                Ed25519_Big_Crt "2B", ECDSA_256k1_Big_Crt "2D", ECDSA_256r1_Big_Crt "2F", Ed448_Big_Crt "3B", );
            names!(o, cesride::indexer::SigCodex,
                Ed25519 "A", Ed25519_Crt "B", ECDSA_256k1 "C", ECDSA_256k1_Crt "D", ECDSA_256r1 "E", ECDSA_256r1_Crt "F", Ed448 "0A", 
                Ed448_Crt "0B", Ed25519_Big "2A", Ed25519_Big_Crt "2B", ECDSA_256k1_Big "2C", ECDSA_256k1_Big_Crt "2D", ECDSA_256r1_Big "2E", 
                ECDSA_256r1_Big_Crt "2F", Ed448_Big "3A", Ed448_Big_Crt "3B", Ed25519_Crt "B", ECDSA_256k1_Crt "D", ECDSA_256r1_Crt "F", 
                Ed448_Crt "0B", Ed25519_Big_Crt "2B", ECDSA_256k1_Big_Crt "2D", ECDSA_256r1_Big_Crt "2F", Ed448_Big_Crt "3B", );
            names!(o, cesride::indexer::CurrentSigCodex,
                Ed25519_Crt "B", ECDSA_256k1_Crt "D", ECDSA_256r1_Crt "F", Ed448_Crt "0B", Ed25519_Big_Crt "2B", ECDSA_256k1_Big_Crt "2D", 
                ECDSA_256r1_Big_Crt "2F", Ed448_Big_Crt "3B", );
            names!(o, cesride::indexer::BothSigCodex,
                Ed25519 "A", ECDSA_256k1 "C", ECDSA_256r1 "E", Ed448 "0A", Ed25519_Big "2A", ECDSA_256k1_Big "2C", ECDSA_256r1_Big "2E", 
                Ed448_Big "3A", );
            Ok(())
        },
    );
    let mut jobs = vec![];
    for ty in ITYPES {
        for code in ty.codes {
            jobs.push((ty, *code));
        }
    }
    let one = |ty: &ITy, code: &str, x: u32, on: Option<u32>| {
        ctx.case(|| format!("{} {code} index {x} ondex {on:?}", ty.name), |o| check(ty, code, x, on, o));
    };
    // every pair up to and beyond one character
    let top = 70u32;
    ctx.par(jobs.len() * top as usize, |k| {
        let (ty, code) = jobs[k / top as usize];
        let x = (k % top as usize) as u32;
        one(ty, code, x, None);
        for on in 0..top {
            one(ty, code, x, Some(on));
        }
    });
    ctx.section("all pairs up to 69");

    // every index of two characters with boundary ondexes, and the other way round
    let edge: Vec<u32> = {
        let mut v = vec![];
        for p in [0u32, 6, 12, 18, 24, 30] {
            let b = 1u64 << p;
            for d in [-2i64, -1, 0, 1] {
                let x = b as i64 + d;
                if (0..=u32::MAX as i64).contains(&x) {
                    v.push(x as u32);
                }
            }
        }
        v.extend([u32::MAX, u32::MAX - 1, 1 << 31, 100, 1000, 2000, 0xfff000, 0x041041, 0x3f03f]);
        v.sort();
        v.dedup();
        v
    };
    let e = edge.len();
    let upto = 4100usize;
    ctx.par(jobs.len() * upto, |k| {
        let (ty, code) = jobs[k / upto];
        let x = (k % upto) as u32;
        one(ty, code, x, None);
        one(ty, code, x, Some(x));
        for on in &edge {
            one(ty, code, x, Some(*on));
            one(ty, code, *on, Some(x));
        }
    });
    ctx.section("all two-character indices against boundary values");

    // boundary lattice for three characters: every digit position
    let mut lat = edge.clone();
    for d in 0..64u32 {
        for p in [0, 6, 12] {
            lat.push(d << p);
            lat.push(0o777777 ^ (d << p));
        }
    }
    lat.sort();
    lat.dedup();
    let l = lat.len();
    ctx.par(jobs.len() * l, |k| {
        let (ty, code) = jobs[k / l];
        if spec::ic(code).unwrap().ss < 4 && k % l > 200 {
            return;
        }
        for on in &lat {
            one(ty, code, lat[k % l], Some(*on));
        }
        one(ty, code, lat[k % l], None);
    });
    ctx.section("digit lattice");

    if ctx.thorough {
        ctx.par(64 * 64, |k| {
            for on in 0..4096u32 {
                for (ty, code) in [(&ITYPES[0], "2A"), (&ITYPES[1], "2C"), (&ITYPES[1], "2E")] {
                    one(ty, code, k as u32, Some(on));
                }
            }
        });
        ctx.section("all pairs of two characters");
        ctx.par(1 << 18, |k| {
            one(&ITYPES[0], "3A", k as u32, None);
            one(&ITYPES[0], "3A", 7, Some(k as u32));
            one(&ITYPES[0], "3B", k as u32, None);
            one(&ITYPES[0], "4z", k as u32, Some((1 << 18) - 1 - k as u32));
        });
        ctx.section("all indices of three characters");
    }

    // parsing: every soft part of every code
    ctx.par(jobs.len() * 4096, |k| {
        let (ty, code) = jobs[k / 4096];
        let c = spec::ic(code).unwrap();
        let v = (k % 4096) as u64;
        if c.ss == 1 && v >= 64 {
            return;
        }
        let softs: Vec<String> = match c.ss {
            1 | 2 => vec![spec::b64n(v, c.ss)],
            4 => vec![
                format!("{}{}", spec::b64n(v, 2), spec::b64n(0, 2)),
                format!("{}{}", spec::b64n(0, 2), spec::b64n(v, 2)),
                format!("{}{}", spec::b64n(v, 2), spec::b64n(v ^ 1, 2)),
            ],
            _ => vec![
                format!("{}{}", spec::b64n(v, 3), spec::b64n(0, 3)),
                format!("{}{}", spec::b64n(0, 3), spec::b64n(v, 3)),
                format!("{}{}", spec::b64n(v << 6, 3), spec::b64n(v ^ 1, 3)),
            ],
        };
        for soft in softs {
            let n = if c.fs == 0 { nbody(&soft) } else { c.fs - c.cs() };
            let t = format!("{code}{soft}{}", "A".repeat(n));
            ctx.case(|| format!("{} text {}", ty.name, sh(&t)), |o| super::c02::text_i(ty, &t, o));
            let b = spec::dec4(t.as_bytes()).unwrap();
            ctx.case(|| format!("{} bytes {}", ty.name, hex(&b)), |o| super::c02::bin_i(ty, &b, o));
        }
    });
    ctx.section("all soft parts on parsing");

    // raw material: sizes
    ctx.par(jobs.len() * 130, |k| {
        let (ty, code) = jobs[k / 130];
        let n = k % 130;
        ctx.case(
            || format!("{} {code} raw of {n} bytes", ty.name),
            |o| {
                let raw = spec::filler(n, 2);
                let want = spec::i_build(code, &raw, 1, None);
                let got = (ty.raw)(code, &raw, 1, None);
                o.step();
                match want {
                    None => ensure!(got.is_err(), "accepted too little raw material"),
                    Some(i) if i.raw.len() == n => same!(got, Ok(iexpected(&i)), "exact raw material"),
                    Some(i) => {
                        if let Ok(g) = got {
                            same!(g, iexpected(&i), "surplus raw material");
                        }
                    }
                }
                Ok(())
            },
        );
    });
    let _ = e;
}

fn nbody(soft: &str) -> usize {
    spec::nb64(soft.as_bytes()).unwrap() as usize * 4
}
