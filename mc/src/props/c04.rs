//! C04: every strict prefix of an encoding is rejected.
use super::c02::{bases, Rd};
use super::*;
use crate::ctx::Ctx;
use crate::{ensure, spec};
use cesride::Counter;

fn reject_text(r: &Rd, t: &[u8], o: &mut crate::ctx::Obs) -> crate::ctx::R {
    o.steps(3);
    let s = std::str::from_utf8(t).unwrap();
    let got: Vec<(&str, Result<String, String>)> = match r {
        Rd::M(ty) => vec![
            ("qb64", (ty.qb64)(s).map(|g| g.qb64)),
            ("qb64b", (ty.qb64b)(t).map(|g| g.qb64)),
            ("new(qb64)", (ty.new)(None, None, None, Some(s), None).map(|g| g.qb64)),
            ("new(qb64b)", (ty.new)(None, None, Some(t), None, None).map(|g| g.qb64)),
        ],
        Rd::I(ty) => vec![("qb64", (ty.qb64)(s).map(|g| g.qb64)), ("qb64b", (ty.qb64b)(t).map(|g| g.qb64))],
        Rd::C => vec![
            ("qb64", types::csnap(Counter::new_with_qb64(s)).map(|g| g.qb64)),
            ("qb64b", types::csnap(Counter::new_with_qb64b(t)).map(|g| g.qb64)),
        ],
    };
    for (route, g) in got {
        ensure!(g.is_err(), "{route}: truncated text accepted as {:?}", g);
    }
    Ok(())
}

fn reject_bin(r: &Rd, b: &[u8], o: &mut crate::ctx::Obs) -> crate::ctx::R {
    o.steps(1);
    let g: Result<String, String> = match r {
        Rd::M(ty) => (ty.qb2)(b).map(|g| g.qb64),
        Rd::I(ty) => (ty.qb2)(b).map(|g| g.qb64),
        Rd::C => types::csnap(Counter::new_with_qb2(b)).map(|g| g.qb64),
    };
    ensure!(g.is_err(), "qb2: truncated bytes accepted as {:?}", g);
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let mut bs = bases(true);
    // variable material of every size class, and every count
    for ty in types::TYPES.iter().filter(|t| ["Matter", "Bexter", "Pather"].contains(&t.name)) {
        for code in ty.codes.iter().filter(|c| spec::mc(c).unwrap().var()) {
            let c = spec::mc(code).unwrap();
            for k in 0..ctx.pick(24, 120) {
                let n = (3 - c.ls) % 3 + 3 * k;
                for raw in [vec![0u8; n], spec::filler(n, 2)] {
                    bs.push((Rd::M(ty), spec::m_encode(code, &raw).unwrap().1, c.cs()));
                }
            }
        }
    }
    for index in 0..ctx.pick(24u32, 120) {
        let c = spec::ic("0z").unwrap();
        let raw = spec::filler(c.raw(index), 3);
        let i = spec::i_build("0z", &raw, index, Some(index)).unwrap();
        bs.push((Rd::I(&types::ITYPES[0]), spec::i_text(&i), 4));
    }
    ctx.par(bs.len(), |k| {
        let (r, t, _) = &bs[k];
        for cut in 0..t.len() {
            let t = &t.as_bytes()[..cut];
            ctx.case(
                || format!("{} text {}", r.name(), sh(std::str::from_utf8(t).unwrap())),
                |o| {
                    o.state((r.name(), t));
                    reject_text(r, t, o)
                },
            );
            // a stream cut inside a character sequence and continued by binary garbage is still cut
            for tail in [&[0xffu8][..], &[0xc3], &[0x80, 0x80, 0x80, 0x80]] {
                let mut b = t.to_vec();
                b.extend_from_slice(tail);
                ctx.case(
                    || format!("{} bytes-text {}", r.name(), hex(&b)),
                    |o| {
                        o.step();
                        let g = match r {
                            Rd::M(ty) => (ty.qb64b)(&b).map(|g| g.qb64),
                            Rd::I(ty) => (ty.qb64b)(&b).map(|g| g.qb64),
                            Rd::C => types::csnap(Counter::new_with_qb64b(&b)).map(|g| g.qb64),
                        };
                        ensure!(g.is_err(), "truncated text before binary accepted as {:?}", g);
                        Ok(())
                    },
                );
            }
        }
        let b = spec::dec4(t.as_bytes()).unwrap();
        for cut in 0..b.len() {
            let b = &b[..cut];
            ctx.case(
                || format!("{} bytes {}", r.name(), hex(b)),
                |o| {
                    o.state((r.name(), b));
                    reject_bin(r, b, o)
                },
            );
        }
    });
    ctx.section("every cut point");

    // large material, cut at every size-relevant place
    let codes = ["7AAA", "8AAA", "9AAA", "7AAB", "8AAB", "9AAB", "4A", "5B", "6A"];
    ctx.par(codes.len() * 3, |k| {
        let code = codes[k % codes.len()];
        let c = spec::mc(code).unwrap();
        let n = (3 - c.ls) % 3 + [12282usize, 12288, 60000][k / codes.len()] / 3 * 3;
        let n = if code.len() == 2 { n.min(12285 - 3 + (3 - c.ls) % 3) } else { n };
        let t = spec::m_encode(code, &spec::filler(n, 4)).unwrap().1;
        let step = ctx.pick(97, 11);
        let mut cuts: Vec<usize> = (0..t.len()).step_by(step).collect();
        cuts.extend([t.len() - 1, t.len() - 2, t.len() - 3, t.len() - 4, 8, 9, 7]);
        let r = Rd::M(&types::TYPES[0]);
        let b = spec::dec4(t.as_bytes()).unwrap();
        for cut in cuts {
            ctx.case(
                || format!("Matter {code} of {n} bytes cut at {cut}"),
                |o| {
                    reject_text(&r, &t.as_bytes()[..cut], o)?;
                    reject_bin(&r, &b[..(cut * 3 / 4).min(b.len() - 1)], o)
                },
            );
        }
    });
    ctx.section("large material");
}
