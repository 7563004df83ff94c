//! C01: encoding and round trip of every code, in every form.
use super::types::*;
use super::*;
use crate::ctx::{Ctx, Obs, R};
use crate::{ensure, same, spec};

fn check(ty: &Ty, code: &str, raw: &[u8], o: &mut Obs) -> R {
    let want = spec::m_encode(code, raw);
    let got = (ty.raw)(code, raw);
    o.step();
    let (m, text) = match want {
        None => {
            ensure!(got.is_err(), "accepted raw it cannot carry: {:?}", got.map(|g| g.qb64));
            o.state(("rejected", code));
            return Ok(());
        }
        Some(x) => x,
    };
    let e = expected(&m, &text);
    let got = match got {
        Ok(g) => g,
        Err(x) => {
            // more raw material than the code takes may be refused, but never misused
            ensure!(m.raw.len() < raw.len(), "rejected valid raw: {x}");
            return Ok(());
        }
    };
    same!(got, e, "from code and raw");
    same!((ty.qb64)(&text), Ok(e.clone()), "rebuilt from qb64");
    same!((ty.qb64b)(text.as_bytes()), Ok(e.clone()), "rebuilt from qb64b");
    same!((ty.qb2)(&e.qb2), Ok(e.clone()), "rebuilt from qb2");
    same!((ty.new)(Some(code), Some(raw), None, None, None), Ok(e.clone()), "new(code, raw)");
    same!((ty.new)(None, None, Some(text.as_bytes()), None, None), Ok(e.clone()), "new(qb64b)");
    same!((ty.new)(None, None, None, Some(&text), None), Ok(e.clone()), "new(qb64)");
    same!((ty.new)(None, None, None, None, Some(&e.qb2)), Ok(e.clone()), "new(qb2)");
    o.steps(7);
    o.state((code, m.code, m.size, raw.len() % 3, if raw.len() < 100 { &text[..] } else { "" }));
    Ok(())
}

fn one(ctx: &Ctx, ty: &Ty, code: &str, raw: &[u8]) {
    ctx.case(
        || format!("{} {code} raw[{}]={}", ty.name, raw.len(), hex(raw)),
        |o| check(ty, code, raw, o),
    );
}

pub fn run(ctx: &Ctx) {
    // every fixed code of every type, every bit of the raw material
    let mut jobs = vec![];
    for ty in TYPES {
        for code in ty.codes {
            jobs.push((ty, *code));
        }
    }
    ctx.par(jobs.len(), |j| {
        let (ty, code) = jobs[j];
        let c = spec::mc(code).unwrap();
        if c.var() {
            return;
        }
        for raw in patterns(c.raw(), true) {
            if legal(ty.name, code, &raw) {
                one(ctx, ty, code, &raw);
            }
        }
        // all short raws are refused, longer ones are cut
        for n in (0..c.raw() + 4).chain([2 * c.raw(), 2 * c.raw() + 1, 255, 256, 257, 1000]) {
            for seed in [3, 4] {
                let mut raw = spec::filler(n, seed);
                if n > 0 {
                    raw[0] = 1;
                }
                one(ctx, ty, code, &raw);
            }
        }
        // every value of every byte
        for at in 0..c.raw() {
            for v in 0..=255u8 {
                for bg in ctx.pick(1..2u8, 0..3u8) {
                    let mut raw = [vec![0; c.raw()], spec::filler(c.raw(), 7), vec![0xff; c.raw()]][bg as usize].clone();
                    raw[at] = v;
                    if legal(ty.name, code, &raw) {
                        one(ctx, ty, code, &raw);
                    }
                }
            }
        }
        // two-byte material completely
        if c.raw() <= 2 && ty.name == "Matter" {
            for v in 0..1usize << (8 * c.raw()) {
                let raw = (v as u32).to_be_bytes();
                one(ctx, ty, code, &raw[4 - c.raw()..]);
            }
        }
    });
    ctx.section("fixed codes");

    // variable codes: all lengths of every residue, through every name of the code
    let top = ctx.pick(300, 4200);
    ctx.par(jobs.len() * top, |k| {
        let (ty, code) = jobs[k / top];
        let c = spec::mc(code).unwrap();
        let n = k % top;
        if !c.var() {
            return;
        }
        for raw in patterns(n, n <= 9) {
            one(ctx, ty, code, &raw);
        }
    });
    ctx.section("variable codes, short");

    // all lengths up to the promotion
    let var: Vec<&str> = spec::MATTER.iter().filter(|c| c.var()).map(|c| c.code).collect();
    let lens: Vec<usize> = (top..12_270).filter(|n| ctx.thorough || n % 3 == 0 || n % 64 < 3).collect();
    ctx.par(lens.len(), |k| {
        for code in &var {
            one(ctx, &TYPES[0], code, &spec::filler(lens[k], 8));
        }
    });
    ctx.section("variable codes, long");

    // around the promotion from small to large codes
    let lens: Vec<usize> = (12270..12300).collect();
    ctx.par(jobs.len() * lens.len(), |k| {
        let (ty, code) = jobs[k / lens.len()];
        if spec::mc(code).unwrap().var() {
            let n = lens[k % lens.len()];
            one(ctx, ty, code, &spec::filler(n, 5));
            one(ctx, ty, code, &vec![0xff; n]);
        }
    });
    ctx.section("promotion boundary");

    // sizes that fill one more character, byte or word of the size field
    let edges: Vec<usize> = [1usize << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 18].iter().flat_map(|t| [t - 1, *t, t + 1]).collect();
    ctx.par(edges.len(), |k| {
        for code in ["4A", "8AAA", "4B", "6B", "9AAB"] {
            for d in 0..3 {
                one(ctx, &TYPES[0], code, &spec::filler(edges[k] * 3 - d, 6));
            }
        }
    });
    ctx.section("sizes over several characters");

    // around the largest size
    let full = (1usize << 24) * 3;
    let mut big = vec![];
    let kinds: Vec<&str> = ctx.pick(vec!["4B", "7AAB"], vec!["4A", "5A", "6A", "4B", "5B", "6B", "7AAB", "8AAB", "9AAB"]);
    for code in kinds {
        for n in ctx.pick(vec![full - 3, full - 2, full], vec![full - 5, full - 4, full - 3, full - 2, full - 1, full, full + 1]) {
            big.push((code, n));
        }
    }
    ctx.par_threads(big.len(), 4, |k| {
        let (code, n) = big[k];
        ctx.case(
            || format!("Matter {code} raw of {n} bytes"),
            |o| {
                let raw = spec::filler(n, 6);
                let ty = &TYPES[0];
                let got = (ty.raw)(code, &raw);
                o.step();
                match spec::m_encode(code, &raw) {
                    None => ensure!(got.is_err(), "accepted oversize raw"),
                    Some((m, t)) => {
                        let e = expected(&m, &t);
                        let got = got?;
                        ensure!(got == e, "wrong encoding at the size limit: {}", got.code);
                        ensure!((ty.qb64)(&t)? == e, "wrong rebuild from qb64 at the size limit");
                        ensure!((ty.qb2)(&e.qb2)? == e, "wrong rebuild from qb2 at the size limit");
                        o.steps(2);
                    }
                }
                o.state((code, n));
                Ok(())
            },
        );
    });
    ctx.section("largest size");

    // codes that are not in the table
    let a = spec::B64;
    let mut names: Vec<String> = vec!["".into()];
    for x in a {
        names.push((*x as char).to_string());
        for y in a {
            names.push(format!("{}{}", *x as char, *y as char));
            for z in a {
                names.push(format!("{}{}{}", *x as char, *y as char, *z as char));
            }
        }
    }
    for x in a {
        for y in a {
            for c in spec::MATTER.iter().filter(|c| c.hs() == 4) {
                names.push(format!("{}{}{}", *x as char, *y as char, &c.code[2..]));
                names.push(format!("{}{}{}", &c.code[..2], *x as char, *y as char));
            }
        }
    }
    for extra in ["é", "4é", "4", "7A", "7AAé", "A ", " A", "AA", "0", "1AAa", "4AA", "7AAAA", "😀", "\u{0}"] {
        names.push(extra.into());
    }
    names.sort();
    names.dedup();
    names.retain(|n| spec::mc(n).is_none());
    ctx.par(names.len(), |k| {
        let code = &names[k];
        for n in [0usize, 3, 33, 100] {
            ctx.case(
                || format!("unknown code {code:?} with {n} bytes"),
                |o| {
                    let got = (TYPES[0].raw)(code, &spec::filler(n, 1));
                    o.step();
                    ensure!(got.is_err(), "accepted a code that is not in the table: {:?}", got.map(|g| g.qb64));
                    o.state(("unknown", code));
                    Ok(())
                },
            );
        }
    });
    ctx.section("unknown codes");

    ctx.case(
        || "published names".into(),
        |o| {
            names!(o, cesride::matter::Codex,
                Ed25519_Seed "A", Ed25519N "B", X25519 "C", Ed25519 "D", Blake3_256 "E", Blake2b_256 "F", Blake2s_256 "G", SHA3_256 "H", 
                SHA2_256 "I", ECDSA_256k1_Seed "J", Ed448_Seed "K", X448 "L", Short "M", Big "N", X25519_Private "O", X25519_Cipher_Seed "P", 
                ECDSA_256r1_Seed "Q", Salt_128 "0A", Ed25519_Sig "0B", ECDSA_256k1_Sig "0C", Blake3_512 "0D", Blake2b_512 "0E", SHA3_512 "0F", 
                SHA2_512 "0G", Long "0H", ECDSA_256r1_Sig "0I", ECDSA_256k1N "1AAA", ECDSA_256k1 "1AAB", Ed448N "1AAC", Ed448 "1AAD", 
                Ed448_Sig "1AAE", Tern "1AAF", DateTime "1AAG", X25519_Cipher_Salt "1AAH", ECDSA_256r1N "1AAI", ECDSA_256r1 "1AAJ", TBD1 "2AAA", 
                TBD2 "3AAA", StrB64_L0 "4A", StrB64_L1 "5A", StrB64_L2 "6A", StrB64_Big_L0 "7AAA", StrB64_Big_L1 "8AAA", StrB64_Big_L2 "9AAA", 
                Bytes_L0 "4B", Bytes_L1 "5B", Bytes_L2 "6B", Bytes_Big_L0 "7AAB", Bytes_Big_L1 "8AAB", Bytes_Big_L2 "9AAB", );
            Ok(())
        },
    );
    // precedence and absence of arguments
    ctx.case(
        || "no material".into(),
        |o| {
            for ty in TYPES {
                if ["Matter", "Verfer", "Cigar", "Cigar with a key", "Diger", "Saider", "Prefixer", "Bexter", "Pather"].contains(&ty.name) {
                    ensure!((ty.new)(None, None, None, None, None).is_err(), "{}: built from nothing", ty.name);
                    o.step();
                }
            }
            ensure!((TYPES[0].new)(None, Some(&[0; 32]), None, None, None).is_err(), "raw without code accepted");
            Ok(())
        },
    );
}
