//! C08: digests.
use super::types::*;
use super::*;
use crate::ctx::{Ctx, Obs, R};
use crate::{ensure, same, spec};
use cesride::{Diger, Matter, Saider};

fn yes(r: cesride::Result<bool>) -> Result<bool, String> {
    es(r)
}

fn check(code: &str, data: &[u8], o: &mut Obs) -> R {
    let want = spec::digest(code, data).unwrap();
    let (m, t) = spec::m_encode(code, &want).unwrap();
    let e = expected(&m, &t);
    let d = es(Diger::new_with_ser(data, Some(code)))?;
    same!(snap(&d), Ok(e.clone()), "digest");
    let d2 = es(Diger::new(Some(data), Some(code), None, None, None, None))?;
    same!(snap(&d2), Ok(e.clone()), "digest through new");
    if code == "E" {
        same!(snap(&es(Diger::new_with_ser(data, None))?), Ok(e.clone()), "default digest");
        o.step();
    }
    same!(yes(d.verify(data)), Ok(true), "verify its own data");
    let p = es(Diger::new_with_qb64(&t))?;
    same!(yes(p.verify(data)), Ok(true), "verify after parsing");
    o.steps(4);
    // near misses
    let mut near = vec![];
    let mut x = data.to_vec();
    x.push(0);
    near.push(x);
    let mut x = vec![0];
    x.extend_from_slice(data);
    if x != [data, &[0]].concat() {
        near.push(x);
    }
    if !data.is_empty() {
        near.push(data[1..].to_vec());
        near.push(data[..data.len() - 1].to_vec());
        near.push(vec![]);
        for i in [0, data.len() / 2, data.len() - 1] {
            let mut x = data.to_vec();
            x[i] ^= 1;
            near.push(x);
        }
        near.push([data, data].concat());
    }
    for n in near {
        if n != data {
            same!(yes(p.verify(&n)), Ok(false), "verify of {} bytes {}", n.len(), hex(&n));
            o.step();
        }
    }
    o.state((code, data));
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let mut lens: Vec<usize> = (0..ctx.pick(300, 2100)).collect();
    for b in [512usize, 576, 1024, 1088, 1152, 2048, 4096, 8192, 16384, 65536, 131072] {
        for d in [-1i64, 0, 1] {
            lens.push((b as i64 + d) as usize);
        }
    }
    lens.sort();
    lens.dedup();
    let nd = spec::DIGESTS.len();
    ctx.par(nd * lens.len(), |i| {
        let (code, n) = (spec::DIGESTS[i % nd], lens[i / nd]);
        let seeds = if n < 300 { 4 } else { 1 };
        for s in 0..seeds {
            let data = match s {
                0 => spec::filler(n, 11),
                1 => vec![0; n],
                2 => vec![0xff; n],
                _ => vec![b'#'; n],
            };
            ctx.case(|| format!("digest {code} of [{}] {}", data.len(), hex(&data)), |o| check(code, &data, o));
        }
    });
    ctx.section("data of all lengths");

    // all short data
    ctx.par(nd * 257, |i| {
        let code = spec::DIGESTS[i % nd];
        let a = i / nd;
        if a == 256 {
            ctx.case(|| format!("digest {code} of nothing"), |o| check(code, &[], o));
            return;
        }
        for b in 0..ctx.pick(64usize, 256) {
            let data = if b == 0 { vec![a as u8] } else { vec![a as u8, b as u8] };
            ctx.case(|| format!("digest {code} of {}", hex(&data)), |o| check(code, &data, o));
        }
    });
    ctx.section("all short data");

    // every altered bit of the data, and of the digest
    ctx.par(nd * 40, |i| {
        let (code, n) = (spec::DIGESTS[i % nd], i / nd * 2);
        let data = spec::filler(n, 21);
        ctx.case(
            || format!("altered data or digest {code} over {} bytes", data.len()),
            |o| {
                let d = es(Diger::new_with_ser(&data, Some(code)))?;
                for b in 0..8 * n {
                    let mut x = data.clone();
                    x[b / 8] ^= 0x80 >> (b % 8);
                    same!(yes(d.verify(&x)), Ok(false), "data bit {b} altered");
                    o.step();
                }
                let raw = d.raw();
                for b in 0..8 * raw.len() {
                    let mut x = raw.clone();
                    x[b / 8] ^= 0x80 >> (b % 8);
                    let y = es(Diger::new_with_raw(&x, Some(code)))?;
                    same!(yes(y.verify(&data)), Ok(false), "digest bit {b} altered");
                    same!(yes(y.compare(&data, None, Some(&d))), Ok(false), "compare with digest bit {b} altered");
                    same!(yes(d.compare(&data, Some(&es(y.qb64b())?), None)), Ok(false), "compare with digest bit {b} altered");
                    o.steps(3);
                }
                // a digest of one algorithm under the name of another of the same size
                for other in spec::DIGESTS {
                    if *other != code && spec::mc(other).unwrap().raw() == raw.len() {
                        let y = es(Diger::new_with_raw(&raw, Some(other)))?;
                        same!(yes(y.verify(&data)), Ok(false), "digest {code} named {other}");
                        o.step();
                    }
                }
                o.state((code, n));
                Ok(())
            },
        );
    });
    ctx.section("every altered bit");

    // comparisons
    let datas: Vec<Vec<u8>> = vec![
        vec![],
        b"a".to_vec(),
        b"b".to_vec(),
        b"abcdefg".to_vec(),
        spec::filler(64, 1),
        spec::filler(1025, 2),
        b"{\"v\":\"KERI10JSON000000_\"}".to_vec(),
    ];
    let n = datas.len();
    ctx.par(nd * nd, |i| {
        let (c1, c2) = (spec::DIGESTS[i % nd], spec::DIGESTS[i / nd]);
        for x in 0..n {
            for y in 0..n {
                for z in 0..n {
                    // damage: 0 none, 1 first digest, 2 second digest
                    for dmg in 0..3 {
                        ctx.case(
                            || format!("compare {c1} of data {x} with {c2} of data {y}, given data {z}, damage {dmg}"),
                            |o| {
                                let mk = |c: &str, k: usize, bad: bool| {
                                    let mut raw = spec::digest(c, &datas[k]).unwrap();
                                    if bad {
                                        let l = raw.len() - 1;
                                        raw[l] ^= 1;
                                    }
                                    es(Diger::new_with_raw(&raw, Some(c)))
                                };
                                let a = mk(c1, x, dmg == 1)?;
                                let b = mk(c2, y, dmg == 2)?;
                                let identical = c1 == c2 && x == y && dmg == 0;
                                let both = c1 != c2 && x == z && y == z && dmg == 0;
                                let want = identical || both;
                                let bq = es(b.qb64b())?;
                                same!(yes(a.compare(&datas[z], None, Some(&b))), Ok(want), "compare with diger");
                                same!(yes(a.compare(&datas[z], Some(&bq), None)), Ok(want), "compare with bytes");
                                o.steps(2);
                                o.state((c1, c2, x == y, x == z, y == z, dmg));
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    });
    ctx.section("comparisons");

    // codes that name no digest algorithm
    let mut codes: Vec<String> = spec::MATTER.iter().map(|m| m.code.to_string()).collect();
    for x in ["", "Z", "0Z", "1AAZ", "E ", "e", "EE", "0", "é", "-A", "Blake3_256"] {
        codes.push(x.into());
    }
    codes.retain(|c| !spec::DIGESTS.contains(&c.as_str()));
    for c in &codes {
        ctx.case(
            || format!("no digest code {c:?}"),
            |o| {
                for d in &datas {
                    ensure!(Diger::new_with_ser(d, Some(c)).is_err(), "digest made");
                    ensure!(Saider::new_with_raw(d, Some(c)).is_err(), "said made");
                    o.steps(2);
                }
                if let Some(m) = spec::mc(c) {
                    let raw = vec![1u8; if m.var() { 3 } else { m.raw() }];
                    ensure!(Diger::new_with_raw(&raw, Some(c)).is_err(), "diger of raw");
                    let t = spec::m_encode(c, &raw).unwrap().1;
                    let d = es(Diger::new_with_ser(b"abc", None))?;
                    ensure!(d.compare(b"abc", Some(t.as_bytes()), None).is_err(), "comparison with {t} answered");
                    o.steps(2);
                }
                o.state(c);
                Ok(())
            },
        );
    }
    ctx.case(
        || "compare with nothing".into(),
        |o| {
            o.step();
            let d = es(Diger::new_with_ser(b"abc", None))?;
            ensure!(d.compare(b"abc", None, None).is_err(), "answered");
            ensure!(d.compare(b"abc", Some(b""), None).is_err(), "empty digest answered");
            ensure!(Diger::new(None, Some("E"), None, None, None, None).is_err(), "digest of nothing");
            Ok(())
        },
    );
    ctx.section("other codes");
}
