//! C09: signatures. Every answer is cross-checked with the signature crates.
use super::types::*;
use super::*;
use crate::ctx::{Ctx, Obs, R};
use crate::{ensure, same, spec};
use cesride::{Cigar, Indexer, Matter, Siger, Signer, Verfer};

pub const SUITES: [&str; 3] = ["A", "J", "Q"];

pub fn public(code: &str, seed: &[u8]) -> Option<Vec<u8>> {
    match code {
        "A" => {
            let k = ed25519_dalek::SigningKey::from_bytes(seed.try_into().ok()?);
            Some(k.verifying_key().to_bytes().to_vec())
        }
        "J" => {
            let k = k256::ecdsa::SigningKey::from_slice(seed).ok()?;
            Some(k.verifying_key().to_encoded_point(true).as_bytes().to_vec())
        }
        "Q" => {
            let k = p256::ecdsa::SigningKey::from_slice(seed).ok()?;
            Some(k.verifying_key().to_encoded_point(true).as_bytes().to_vec())
        }
        _ => None,
    }
}

pub fn verify(code: &str, public: &[u8], sig: &[u8], msg: &[u8]) -> bool {
    match code {
        "A" => {
            use ed25519_dalek::Verifier;
            let (Ok(p), Ok(s)) = (public.try_into(), ed25519_dalek::Signature::from_slice(sig)) else { return false };
            match ed25519_dalek::VerifyingKey::from_bytes(p) {
                Ok(k) => k.verify(msg, &s).is_ok(),
                Err(_) => false,
            }
        }
        "J" => {
            use k256::ecdsa::signature::Verifier;
            let (Ok(k), Ok(s)) =
                (k256::ecdsa::VerifyingKey::from_sec1_bytes(public), k256::ecdsa::Signature::from_slice(sig))
            else {
                return false;
            };
            k.verify(msg, &s).is_ok()
        }
        "Q" => {
            use p256::ecdsa::signature::Verifier;
            let (Ok(k), Ok(s)) =
                (p256::ecdsa::VerifyingKey::from_sec1_bytes(public), p256::ecdsa::Signature::from_slice(sig))
            else {
                return false;
            };
            k.verify(msg, &s).is_ok()
        }
        _ => false,
    }
}

pub fn verfer_code(suite: &str, transferable: bool) -> &'static str {
    match (suite, transferable) {
        ("A", true) => "D",
        ("A", false) => "B",
        ("J", true) => "1AAB",
        ("J", false) => "1AAA",
        ("Q", true) => "1AAJ",
        _ => "1AAI",
    }
}

pub fn sig_code(suite: &str) -> &'static str {
    match suite {
        "A" => "0B",
        "J" => "0C",
        _ => "0I",
    }
}

/// (code, index, ondex) of an indexed signature, or None when no code carries the request
pub fn indexed(suite: &str, only: bool, index: u32, ondex: Option<u32>) -> Option<(&'static str, u32, u32)> {
    let k = SUITES.iter().position(|s| *s == suite).unwrap();
    if only {
        if index < 64 {
            Some((["B", "D", "F"][k], index, 0))
        } else if index < 4096 {
            Some((["2B", "2D", "2F"][k], index, 0))
        } else {
            None
        }
    } else {
        let o = ondex.unwrap_or(index);
        if index == o && index < 64 {
            Some((["A", "C", "E"][k], index, o))
        } else if index < 4096 && o < 4096 {
            Some((["2A", "2C", "2E"][k], index, o))
        } else {
            None
        }
    }
}

pub fn seed(n: usize) -> Vec<u8> {
    let mut s = spec::filler(32, 1000 + n as u64);
    s[0] &= 0x7f;
    s
}

/// "verifies" means Ok(true); a refusal may be false or an error
fn accepts(v: &Verfer, sig: &[u8], msg: &[u8]) -> bool {
    matches!(v.verify(sig, msg), Ok(true))
}

/// the other signature anyone can make from this one, where the suite rules it out
fn twin(suite: &str, sig: &[u8]) -> Option<Vec<u8>> {
    const L: [u8; 32] = [
        0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
    ];
    match suite {
        "A" => {
            let mut x = sig.to_vec();
            let mut carry = 0u16;
            for (a, l) in x[32..].iter_mut().zip(L) {
                carry += *a as u16 + l as u16;
                *a = carry as u8;
                carry >>= 8;
            }
            Some(x)
        }
        "J" => {
            let s = k256::ecdsa::Signature::from_slice(sig).ok()?;
            let (r, s) = s.split_scalars();
            Some(k256::ecdsa::Signature::from_scalars(r, -s).ok()?.to_bytes().to_vec())
        }
        _ => None,
    }
}

fn sign_all(suite: &str, tr: bool, sd: &[u8], msg: &[u8], o: &mut Obs) -> R {
    let signer = es(Signer::new_with_raw(sd, Some(tr), Some(suite)))?;
    let v = signer.verfer();
    let p = public(suite, sd).unwrap();
    same!(v.raw(), p, "public key");
    same!(v.code(), verfer_code(suite, tr), "key code");
    let c = es(signer.sign_unindexed(msg))?;
    same!(c.code(), sig_code(suite), "signature code");
    same!(c.verfer(), v, "key of the signature");
    same!(c.raw().len(), 64, "signature size");
    ensure!(verify(suite, &p, &c.raw(), msg), "the signature does not verify with the reference");
    same!(es(v.verify(&c.raw(), msg)), Ok(true), "verify");
    if suite == "A" {
        use ed25519_dalek::Signer;
        let k = ed25519_dalek::SigningKey::from_bytes(sd.try_into().unwrap());
        same!(c.raw(), k.sign(msg).to_bytes().to_vec(), "Ed25519 signature");
    }
    let c2 = es(Cigar::new_with_qb64b(&es(c.qb64b())?, Some(&v)))?;
    same!(c2, c, "signature through text");
    let c3 = es(Cigar::new_with_qb2(&es(c.qb2())?, Some(&v)))?;
    same!(c3, c, "signature through binary");
    for (only, index, ondex) in [(false, 0, None), (true, 3, None), (false, 5, Some(7)), (true, 70, None)] {
        let s = es(signer.sign_indexed(msg, only, index, ondex))?;
        ensure!(verify(suite, &p, &s.raw(), msg), "the indexed signature does not verify with the reference");
        same!(es(s.verfer().verify(&s.raw(), msg)), Ok(true), "verify indexed");
        same!(s.verfer(), v, "key of the indexed signature");
        o.steps(2);
    }
    // keys written under the other transferability verify the same signatures
    let w = es(Verfer::new_with_raw(&p, Some(verfer_code(suite, !tr))))?;
    same!(es(w.verify(&c.raw(), msg)), Ok(true), "verify under the other transferability");
    // other messages
    let mut others = vec![[msg, b"\0"].concat(), [b"\0", msg].concat(), [msg, msg, b"x"].concat()];
    if !msg.is_empty() {
        others.push(vec![]);
        others.push(msg[1..].to_vec());
        others.push(msg[..msg.len() - 1].to_vec());
        for b in 0..(8 * msg.len()).min(64) {
            let mut x = msg.to_vec();
            x[b / 8] ^= 0x80 >> (b % 8);
            others.push(x);
        }
        let l = msg.len() - 1;
        let mut x = msg.to_vec();
        x[l] ^= 1;
        others.push(x);
    }
    for m in others {
        if m != msg {
            ensure!(!accepts(&v, &c.raw(), &m), "verifies for another message {}", hex(&m));
            o.step();
        }
    }
    o.steps(8);
    o.state((suite, tr, sd, msg));
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let seeds: Vec<Vec<u8>> = (0..ctx.pick(3, 10)).map(seed).collect();
    // messages
    let mut msgs: Vec<Vec<u8>> = (0..ctx.pick(20, 80)).map(|n| spec::filler(n, 31)).collect();
    for n in [55usize, 56, 63, 64, 65, 111, 112, 119, 127, 128, 129, 255, 256, 1000, 4096, 65537] {
        msgs.push(spec::filler(n, 32));
        msgs.push(vec![0; n]);
    }
    msgs.push(b"{\"v\":\"KERI10JSON000000_\"}".to_vec());
    ctx.par(3 * 2 * seeds.len() * msgs.len(), |i| {
        let suite = SUITES[i % 3];
        let tr = i / 3 % 2 == 0;
        let s = &seeds[i / 6 % seeds.len()];
        let m = &msgs[i / 6 / seeds.len()];
        ctx.case(
            || format!("sign {suite} transferable={tr} seed {} message [{}] {}", hex(s), m.len(), hex(m)),
            |o| sign_all(suite, tr, s, m, o),
        );
    });
    // every byte alone, first, last and in between, once and twice
    ctx.par(3 * 256, |i| {
        let (suite, b) = (SUITES[i % 3], (i / 3) as u8);
        ctx.case(
            || format!("sign {suite} messages with byte {b:02x}"),
            |o| {
                let signer = es(Signer::new_with_raw(&seeds[0], None, Some(suite)))?;
                let v = signer.verfer();
                let p = v.raw();
                let ms: [&[u8]; 8] = [&[b], &[b, b], &[b'{', b], &[b, b'}'], &[b'a', b, b'a'], &[b, b, b'a', b, b], b"{\"v\":1}", b"a"];
                for (k, m) in ms[..6].iter().enumerate() {
                    let c = es(signer.sign_unindexed(m))?.raw();
                    let s = es(signer.sign_indexed(m, k % 2 == 0, 1, None))?.raw();
                    for x in [&c, &s] {
                        ensure!(verify(suite, &p, x, m), "message {} does not verify with the reference", hex(m));
                        same!(es(v.verify(x, m)), Ok(true), "message {}", hex(m));
                        for other in ms {
                            if other != *m {
                                ensure!(!accepts(&v, x, other), "message {} verifies as {}", hex(m), hex(other));
                            }
                        }
                        o.steps(9);
                    }
                }
                o.state((suite, b));
                Ok(())
            },
        );
    });
    ctx.section("messages");

    // every altered bit of the signature and of the key
    let short: Vec<&[u8]> = vec![b"", b"abc", b"The quick brown fox jumps over the lazy dog"];
    ctx.par(3 * seeds.len() * short.len() * 16, |i| {
        let suite = SUITES[i % 3];
        let part = i / 3 % 16;
        let s = &seeds[i / 48 % seeds.len()];
        let m = short[i / 48 / seeds.len()];
        ctx.case(
            || format!("altered signature or key {suite} seed {} message {} part {part}", hex(s), hex(m)),
            |o| {
                let signer = es(Signer::new_with_raw(s, None, Some(suite)))?;
                let v = signer.verfer();
                let sig = es(signer.sign_unindexed(m))?.raw();
                for b in (part * 32)..(part * 32 + 32) {
                    let mut x = sig.clone();
                    x[b / 8] ^= 0x80 >> (b % 8);
                    ensure!(!accepts(&v, &x, m), "verifies with signature bit {b} altered");
                    o.step();
                }
                let k = v.raw();
                for b in (part * k.len() / 2)..((part + 1) * k.len() / 2) {
                    let mut x = k.clone();
                    x[b / 8] ^= 0x80 >> (b % 8);
                    let w = es(Verfer::new_with_raw(&x, Some(&v.code())))?;
                    ensure!(!accepts(&w, &sig, m), "verifies with key bit {b} altered");
                    o.step();
                }
                if part == 0 {
                    let n = sig.len();
                    let mut bad: Vec<Vec<u8>> = (0..n).map(|k| sig[..k].to_vec()).collect();
                    for e in [0u8, 1, 0xff] {
                        bad.push([&sig[..], &[e]].concat());
                        bad.push(vec![e; n]);
                        let mut x = sig.clone();
                        x[..32].fill(e);
                        bad.push(x);
                        let mut x = sig.clone();
                        x[32..].fill(e);
                        bad.push(x);
                    }
                    bad.push([&sig[32..], &sig[..32]].concat());
                    bad.extend(twin(suite, &sig));
                    for x in bad {
                        ensure!(!accepts(&v, &x, m), "verifies {}", hex(&x));
                        o.step();
                    }
                }
                o.state((suite, s, m, part));
                Ok(())
            },
        );
    });
    ctx.section("every altered bit");

    // all pairs of keys and suites
    let mut keys = vec![];
    for suite in SUITES {
        for s in 0..ctx.pick(4, 12) {
            keys.push((suite, seed(s)));
        }
    }
    let n = keys.len();
    ctx.par(n * n, |i| {
        let (a, b) = (&keys[i % n], &keys[i / n]);
        ctx.case(
            || format!("signature of {} {} under key {} {}", a.0, hex(&a.1), b.0, hex(&b.1)),
            |o| {
                for m in &short {
                    let x = es(Signer::new_with_raw(&a.1, None, Some(a.0)))?;
                    let sig = es(x.sign_unindexed(m))?;
                    let xi = es(x.sign_indexed(m, false, 1, None))?;
                    for tr in [true, false] {
                        let v = es(Signer::new_with_raw(&b.1, Some(tr), Some(b.0)))?.verfer();
                        same!(accepts(&v, &sig.raw(), m), a == b, "transferable={tr}");
                        same!(accepts(&v, &xi.raw(), m), a == b, "indexed, transferable={tr}");
                        o.steps(2);
                    }
                }
                o.state(i);
                Ok(())
            },
        );
    });
    ctx.section("all pairs of keys");

    // codes of indexed signatures
    let mut req: Vec<(bool, u32, Option<u32>)> = vec![];
    for i in 0..ctx.pick(4200, 4200) {
        req.push((true, i, None));
        req.push((false, i, None));
    }
    let lat: Vec<u32> = if ctx.thorough {
        (0..70).chain([127, 128, 255, 256, 1000, 4030, 4031, 4032, 4094, 4095, 4096, 4097, 65535, 262143, 262144, 1 << 30, u32::MAX - 1, u32::MAX]).collect()
    } else {
        vec![0, 1, 2, 31, 62, 63, 64, 65, 127, 128, 1000, 4032, 4094, 4095, 4096, 4097, 262143, 262144, 1 << 30, u32::MAX]
    };
    for i in &lat {
        for k in &lat {
            req.push((false, *i, Some(*k)));
        }
        req.push((true, *i, None));
        req.push((false, *i, None));
    }
    // of current-only signatures the other index does not matter
    for i in &lat {
        for k in &lat {
            req.push((true, *i, Some(*k)));
        }
    }
    ctx.par(3 * req.len(), |j| {
        let suite = SUITES[j % 3];
        let (only, index, ondex) = req[j / 3];
        ctx.case(
            || format!("indexed signature {suite} only={only} index={index} ondex={ondex:?}"),
            |o| {
                let signer = es(Signer::new_with_raw(&seed(0), None, Some(suite)))?;
                let got = signer.sign_indexed(b"abc", only, index, ondex);
                o.step();
                match indexed(suite, only, index, ondex) {
                    None => ensure!(got.is_err(), "made: {:?}", got.map(|g| g.qb64())),
                    Some((code, x, y)) => {
                        let s = es(got)?;
                        same!((s.code(), s.index(), s.ondex()), (code.to_string(), x, y), "code, index, ondex");
                        same!(s.verfer(), signer.verfer(), "attached key");
                        ensure!(verify(suite, &signer.verfer().raw(), &s.raw(), b"abc"), "does not verify");
                        let e = spec::I { code: code.into(), index: x, ondex: y, raw: s.raw(), fs: spec::ic(code).unwrap().fs };
                        same!(isnap(&s), Ok(iexpected(&e)), "indexed signature");
                        let t = es(s.qb64())?;
                        same!(es(Siger::new_with_qb64(&t, Some(&signer.verfer())))?, s, "through text");
                        same!(es(Siger::new_with_qb2(&es(s.qb2())?, Some(&signer.verfer())))?, s, "through binary");
                        o.steps(4);
                    }
                }
                o.state((suite, only, index, ondex));
                Ok(())
            },
        );
    });
    ctx.section("codes of indexed signatures");
}
