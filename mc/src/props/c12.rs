//! C12: every type with material of every code, through every way of building it.
use super::types::*;
use super::*;
use crate::ctx::{Ctx, Obs, R};
use crate::{ensure, same, spec};

const DIRTY: &[&str] = &["", "A", "AAAA", "-AAB", "\u{0}"];

fn check(ty: &Ty, code: &str, raw: &[u8], o: &mut Obs) -> R {
    let (m, text) = spec::m_encode(code, raw).unwrap();
    let e = expected(&m, &text);
    let ours = ty.codes.contains(&m.code.as_str());
    let bin = &e.qb2;
    let mut got = vec![
        ("raw", (ty.raw)(code, raw)),
        ("new raw", (ty.new)(Some(code), Some(raw), None, None, None)),
        ("qb64", (ty.qb64)(&text)),
        ("qb64b", (ty.qb64b)(text.as_bytes())),
        ("qb2", (ty.qb2)(bin)),
        ("new qb64b", (ty.new)(None, None, Some(text.as_bytes()), None, None)),
        ("new qb64", (ty.new)(None, None, None, Some(&text), None)),
        ("new qb2", (ty.new)(None, None, None, None, Some(bin))),
        ("new own code, qb64b", (ty.new)(Some(&m.code), None, Some(text.as_bytes()), None, None)),
        ("new own code, qb64", (ty.new)(Some(&m.code), None, None, Some(&text), None)),
        ("new own code, qb2", (ty.new)(Some(&m.code), None, None, None, Some(bin))),
    ];
    for d in DIRTY {
        let t = format!("{text}{d}");
        let b: Vec<u8> = [&bin[..], d.as_bytes()].concat();
        got.push(("qb64 in a stream", (ty.qb64)(&t)));
        got.push(("qb64b in a stream", (ty.qb64b)(t.as_bytes())));
        got.push(("qb2 in a stream", (ty.qb2)(&b)));
    }
    o.steps(got.len() as u64);
    for (how, r) in got {
        if ours {
            same!(r, Ok(e.clone()), "{how}");
        } else {
            ensure!(r.is_err(), "accepted through {how}");
        }
    }
    if !ours {
        // naming a code of the family does not let foreign material in
        for fam in ty.codes {
            for (how, r) in [
                ("qb64b", (ty.new)(Some(fam), None, Some(text.as_bytes()), None, None)),
                ("qb64", (ty.new)(Some(fam), None, None, Some(&text), None)),
                ("qb2", (ty.new)(Some(fam), None, None, None, Some(bin))),
            ] {
                ensure!(r.is_err(), "accepted through {how} under the name {fam}");
                o.step();
            }
        }
    }
    o.state((ty.name, &m.code, raw.len()));
    Ok(())
}

fn icheck(ty: &ITy, code: &str, index: u32, ondex: Option<u32>, raw: &[u8], o: &mut Obs) -> R {
    let Some(i) = spec::i_build(code, raw, index, ondex) else {
        ensure!((ty.raw)(code, raw, index, ondex).is_err(), "accepted what the code cannot carry");
        o.step();
        return Ok(());
    };
    let mut e = iexpected(&i);
    let ours = ty.codes.contains(&code);
    let text = &e.qb64.clone();
    let made = (ty.raw)(code, raw, index, ondex);
    let parsed = spec::i_parse(text.as_bytes()).ok_or("reference cannot read its own text")?;
    let got = vec![
        ("qb64", (ty.qb64)(text)),
        ("qb64b", (ty.qb64b)(text.as_bytes())),
        ("qb2", (ty.qb2)(&e.qb2)),
        ("qb64 in a stream", (ty.qb64)(&format!("{text}AAAA"))),
        ("qb64b in a stream", (ty.qb64b)(format!("{text}AAAA").as_bytes())),
        ("qb2 in a stream", (ty.qb2)(&[&e.qb2[..], &[0, 0, 0]].concat())),
    ];
    o.steps(7);
    if ours {
        same!(made, Ok(e.clone()), "raw");
    } else {
        ensure!(made.is_err(), "accepted through raw");
    }
    e = iexpected(&parsed);
    for (how, r) in got {
        if ours {
            same!(r, Ok(e.clone()), "{how}");
        } else {
            ensure!(r.is_err(), "accepted through {how}");
        }
    }
    o.state((ty.name, code, index, ondex));
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let mut jobs = vec![];
    for ty in TYPES {
        for m in spec::MATTER {
            jobs.push((ty, m));
        }
    }
    ctx.par(jobs.len(), |j| {
        let (ty, m) = jobs[j];
        let mut raws = vec![];
        if m.var() {
            for n in 0..ctx.pick(40, 200) {
                raws.push(spec::filler(n, 9));
                raws.push(vec![0; n]);
                raws.push(vec![0xff; n]);
            }
            raws.push(spec::filler(12285, 1));
            raws.push(spec::filler(12286, 1));
            raws.push(spec::filler(12288, 1));
        } else {
            raws = patterns(m.raw(), ctx.thorough);
            for k in 0..16 {
                raws.push(spec::filler(m.raw(), 100 + k));
            }
        }
        for raw in raws {
            if ty.name.starts_with("Signer") && ty.codes.contains(&m.code) && !legal("Signer", m.code, &raw) {
                continue;
            }
            ctx.case(
                || format!("{} from {} [{}] {}", ty.name, m.code, raw.len(), hex(&raw)),
                |o| check(ty, m.code, &raw, o),
            );
        }
    });
    ctx.section("all types, all codes, all routes");

    let mut ijobs = vec![];
    for ty in ITYPES {
        for c in spec::INDEXER {
            ijobs.push((ty, c));
        }
    }
    ctx.par(ijobs.len(), |j| {
        let (ty, c) = ijobs[j];
        for index in [0u32, 1, 2, 5, 62, 63, 64, 100, 4095, 4096, 262143] {
            for ondex in [None, Some(0), Some(1), Some(5), Some(63), Some(64), Some(4095), Some(262143)] {
                let n = c.raw(if c.fs == 0 { index.min(4095) } else { index });
                for seed in 0..3 {
                    let raw = spec::filler(n, seed);
                    ctx.case(
                        || format!("{} from {} index {index} ondex {ondex:?} filler {seed}", ty.name, c.code),
                        |o| icheck(ty, c.code, index, ondex, &raw, o),
                    );
                }
            }
        }
    });
    ctx.section("indexed types, all codes, all routes");

    // names that are no codes
    let mut names: Vec<String> = ["", " ", "é", "0", "1AA", "AA", "Z", "R", "0J", "1AAK", "4C", "7AAC", "-A", "_", "😀", "\0", "A\0"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    for x in spec::B64 {
        names.push((*x as char).to_string());
        for y in spec::B64 {
            names.push(format!("{}{}", *x as char, *y as char));
            for lead in ["1AA", "2AA", "7AA", "8AA", "9AA", "1A"] {
                names.push(format!("{lead}{}{}", *x as char, if lead.len() == 2 { (*y as char).to_string() } else { String::new() }));
            }
        }
    }
    names.sort();
    names.dedup();
    names.retain(|n| spec::mc(n).is_none());
    ctx.par(names.len(), |i| {
        let c = &names[i];
        for ty in TYPES {
            ctx.case(
                || format!("{} named {c:?}", ty.name),
                |o| {
                    for n in [0, 2, 8, 16, 32, 33, 64] {
                        ensure!((ty.raw)(c, &vec![1; n]).is_err(), "accepted {n} bytes");
                        o.step();
                    }
                    Ok(())
                },
            );
        }
    });
    ctx.section("unknown codes");
}
