//! C10: signers.
use super::c09::{public, sig_code, verfer_code, SUITES};
use super::types::*;
use super::*;
use crate::ctx::{Ctx, Obs, R};
use crate::{ensure, same, spec};
use cesride::{Matter, Signer};

fn check(suite: &str, seed: &[u8], o: &mut Obs) -> R {
    let want = public(suite, seed);
    let (m, t) = spec::m_encode(suite, seed).unwrap();
    let b = spec::dec4(t.as_bytes()).unwrap();
    let e = expected(&m, &t);
    for tr in [None, Some(true), Some(false)] {
        let mut all: Vec<(&str, cesride::Result<Signer>)> = vec![
            ("raw", Signer::new_with_raw(seed, tr, Some(suite))),
            ("qb64", Signer::new_with_qb64(&t, tr)),
            ("qb64b", Signer::new_with_qb64b(t.as_bytes(), tr)),
            ("qb2", Signer::new_with_qb2(&b, tr)),
            ("new raw", Signer::new(tr, Some(suite), Some(seed), None, None, None)),
            ("new qb64b", Signer::new(tr, None, None, Some(t.as_bytes()), None, None)),
            ("new qb64", Signer::new(tr, None, None, None, Some(&t), None)),
            ("new qb2", Signer::new(tr, None, None, None, None, Some(&b))),
        ];
        if suite == "A" {
            all.push(("raw, default code", Signer::new_with_raw(seed, tr, None)));
        }
        o.steps(all.len() as u64);
        for (how, r) in all {
            match &want {
                None => ensure!(r.is_err(), "invalid secret accepted from {how}"),
                Some(p) => {
                    let s = es(r).map_err(|x| format!("from {how}, transferable {tr:?}: {x}"))?;
                    same!(snap(&s), Ok(e.clone()), "seed from {how}");
                    let v = s.verfer();
                    let code = verfer_code(suite, tr.unwrap_or(true));
                    let (vm, vt) = spec::m_encode(code, p).unwrap();
                    same!(snap(&v), Ok(expected(&vm, &vt)), "key from {how}, transferable {tr:?}");
                }
            }
        }
    }
    if let Some(p) = &want {
        // the rebuilt signer signs for the same key
        let s = es(Signer::new_with_raw(seed, None, Some(suite)))?;
        let r = es(Signer::new_with_qb64(&es(s.qb64())?, None))?;
        same!(r, s, "rebuilt signer");
        let x = es(s.sign_unindexed(b"message"))?;
        let y = es(r.sign_unindexed(b"message"))?;
        same!(x.code(), sig_code(suite), "signature code");
        if suite == "A" {
            same!(x, y, "signature of the rebuilt signer");
        }
        for c in [x, y] {
            ensure!(super::c09::verify(suite, p, &c.raw(), b"message"), "signature does not verify");
        }
        o.steps(4);
    }
    o.state((suite, seed));
    Ok(())
}

/// big-endian addition on 32 bytes
fn add(x: &[u8; 32], d: i64) -> Vec<u8> {
    let mut out = x.to_vec();
    let mut carry = d;
    for i in (0..32).rev() {
        let t = out[i] as i64 + carry;
        out[i] = (t & 255) as u8;
        carry = t >> 8;
    }
    out
}

pub fn run(ctx: &Ctx) {
    let mut seeds = patterns(32, true);
    let nk = hex32("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141");
    let nr = hex32("FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551");
    let pk = hex32("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F");
    let mut half = nk;
    half[0] = 0x7f;
    for d in -ctx.pick(20i64, 300)..=ctx.pick(20, 300) {
        for b in [&nk, &nr, &pk, &[0u8; 32], &half] {
            seeds.push(add(b, d));
        }
    }
    for n in 0..ctx.pick(200, 4000) {
        seeds.push(spec::filler(32, n));
        let mut s = spec::filler(32, n);
        s[..(n as usize % 32)].fill(0);
        seeds.push(s);
    }
    seeds.sort();
    seeds.dedup();
    ctx.par(3 * seeds.len(), |i| {
        let (suite, s) = (SUITES[i % 3], &seeds[i / 3]);
        ctx.case(|| format!("signer {suite} seed {}", hex(s)), |o| check(suite, s, o));
    });
    ctx.section("seeds");

    // too short seeds, and text that is cut
    for suite in SUITES {
        for n in 0..32 {
            ctx.case(
                || format!("signer {suite} from {n} bytes"),
                |o| {
                    for tr in [None, Some(true), Some(false)] {
                        for f in [0u8, 1, 0xff] {
                            ensure!(Signer::new_with_raw(&vec![f; n], tr, Some(suite)).is_err(), "accepted");
                            o.step();
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    ctx.section("short seeds");

    // codes that are not seeds
    let mut codes: Vec<String> = spec::MATTER.iter().map(|m| m.code.to_string()).collect();
    for x in ["", "Z", "a", "J ", "AA", "0", "é", "-A", "K0", "Ed25519_Seed"] {
        codes.push(x.into());
    }
    codes.retain(|c| !SUITES.contains(&c.as_str()));
    for c in &codes {
        ctx.case(
            || format!("signer of code {c:?}"),
            |o| {
                for tr in [None, Some(true), Some(false)] {
                    ensure!(Signer::new_with_defaults(tr, Some(c)).is_err(), "random signer made");
                    for n in [0, 16, 32, 33, 56, 64] {
                        ensure!(Signer::new_with_raw(&seed1(n), tr, Some(c)).is_err(), "signer of {n} bytes made");
                        o.step();
                    }
                    if let Some(m) = spec::mc(c) {
                        let raw = seed1(if m.var() { 32 } else { m.raw() });
                        let (_, t) = spec::m_encode(c, &raw).unwrap();
                        let b = spec::dec4(t.as_bytes()).unwrap();
                        ensure!(Signer::new_with_qb64(&t, tr).is_err(), "signer of text {t} made");
                        ensure!(Signer::new_with_qb64b(t.as_bytes(), tr).is_err(), "signer of text {t} made");
                        ensure!(Signer::new_with_qb2(&b, tr).is_err(), "signer of binary {t} made");
                        o.steps(3);
                    }
                }
                o.state(c);
                Ok(())
            },
        );
    }
    ctx.section("other codes");

    // random signers
    let count = ctx.pick(300, 3000);
    let seen = std::sync::Mutex::new(std::collections::HashSet::new());
    ctx.par(3 * 3 * count, |i| {
        let suite = SUITES[i % 3];
        let tr = [None, Some(true), Some(false)][i / 3 % 3];
        ctx.case(
            || format!("random signer {suite} transferable {tr:?} #{}", i / 9),
            |o| {
                let code = if suite == "A" && i % 2 == 0 { None } else { Some(suite) };
                let s = es(Signer::new_with_defaults(tr, code))?;
                o.step();
                same!(s.code(), suite, "code");
                same!(s.raw().len(), 32, "seed size");
                let p = public(suite, &s.raw()).ok_or("invalid secret")?;
                same!((s.verfer().code(), s.verfer().raw()), (verfer_code(suite, tr.unwrap_or(true)).to_string(), p), "key");
                ensure!(seen.lock().unwrap().insert(s.raw()), "the seed was drawn before");
                let again = es(Signer::new_with_raw(&s.raw(), tr, Some(suite)))?;
                same!(again, s, "rebuilt from its seed");
                o.state((suite, tr, i));
                Ok(())
            },
        );
    });
    ctx.section("random signers");
}

fn seed1(n: usize) -> Vec<u8> {
    let mut v = spec::filler(n, 77);
    if n > 0 {
        v[0] = 1;
    }
    v
}
