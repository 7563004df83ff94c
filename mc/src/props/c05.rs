//! C05: no text, bytes or raw value makes a constructor or a read accessor panic.
//! Any panic inside a case is a violation; so is a value whose accessors fail to describe it.
use super::types::*;
use super::*;
use crate::ctx::{Ctx, Obs, R};
use crate::{ensure, spec};
use cesride::*;

#[derive(Clone, Copy)]
enum In<'a> {
    Text(&'a str),
    Bytes(&'a [u8]),
    Bin(&'a [u8]),
    Raw(&'a str, &'a [u8]),
}

fn base<T: Matter>(t: &T) -> R {
    let s = snap(t).map_err(|e| format!("accepted value cannot be encoded: {e}"))?;
    ensure!(s.qb64.as_bytes() == &s.qb64b[..] && s.qb64.len() == s.fs, "accepted value has inconsistent forms");
    Ok(())
}

fn read<T: Matter>(r: cesride::Result<T>, o: &mut Obs, f: impl Fn(&T)) -> R {
    o.step();
    if let Ok(t) = r {
        base(&t)?;
        f(&t);
        let _ = t.full_size();
        o.state((t.code(), t.size(), t.raw().len()));
        o.step();
    }
    Ok(())
}

struct Probe {
    name: &'static str,
    f: fn(In, &mut Obs) -> R,
}

macro_rules! probe {
    ($name:expr, $t:expr, $b:expr, $q:expr, $r:expr, $acc:expr) => {
        Probe {
            name: $name,
            f: |i, o| match i {
                In::Text(t) => read(($t)(t), o, $acc),
                In::Bytes(b) => read(($b)(b), o, $acc),
                In::Bin(b) => read(($q)(b), o, $acc),
                In::Raw(c, r) => read(($r)(c, r), o, $acc),
            },
        }
    };
}

fn iread<T: Indexer>(r: cesride::Result<T>, o: &mut Obs) -> R {
    o.step();
    if let Ok(t) = r {
        let s = isnap(&t).map_err(|e| format!("accepted value cannot be encoded: {e}"))?;
        ensure!(s.qb64.len() == s.fs, "accepted value has inconsistent forms");
        o.state((s.code, s.index));
        o.step();
    }
    Ok(())
}

fn cread(r: cesride::Result<Counter>, o: &mut Obs) -> R {
    o.step();
    if let Ok(c) = r {
        let s = csnap(Ok(c.clone())).map_err(|e| format!("accepted value cannot be encoded: {e}"))?;
        for l in 0..9 {
            let _ = c.count_as_b64(l);
        }
        o.state((s.code, s.count));
        o.step();
    }
    Ok(())
}

fn probes() -> Vec<Probe> {
    vec![
        probe!("Matter", TM::new_with_qb64, TM::new_with_qb64b, TM::new_with_qb2, TM::new_with_code_and_raw, |t: &TM| {
            let _ = t.digestive();
        }),
        probe!(
            "Verfer",
            Verfer::new_with_qb64,
            Verfer::new_with_qb64b,
            Verfer::new_with_qb2,
            |c, r| Verfer::new_with_raw(r, Some(c)),
            |t: &Verfer| {
                let _ = t.verify(&[], b"abc");
                let _ = t.verify(&[1; 64], b"");
                let _ = t.verify(&[0xff; 64], b"abc");
                let _ = t.verify(&[0xff; 63], b"abc");
                let _ = t.verify(&[0; 65], b"abc");
            }
        ),
        probe!(
            "Diger",
            Diger::new_with_qb64,
            Diger::new_with_qb64b,
            Diger::new_with_qb2,
            |c, r| Diger::new_with_raw(r, Some(c)),
            |t: &Diger| {
                let _ = t.verify(b"");
                let _ = t.compare(b"abc", Some(b"E"), None);
                let _ = t.compare(b"abc", Some(&[0xff, 0x80]), None);
                let _ = t.compare(b"abc", Some(b""), None);
                let _ = t.compare(b"abc", None, Some(t));
                let _ = t.compare(b"abc", None, None);
            }
        ),
        probe!("Saider", Saider::new_with_qb64, Saider::new_with_qb64b, Saider::new_with_qb2, |c, r| Saider::new_with_raw(r, Some(c)), |_t: &Saider| {}),
        probe!("Prefixer", Prefixer::new_with_qb64, Prefixer::new_with_qb64b, Prefixer::new_with_qb2, |c, r| Prefixer::new_with_raw(r, Some(c)), |_t: &Prefixer| {}),
        probe!("Cigar", |t| Cigar::new_with_qb64(t, None), |t| Cigar::new_with_qb64b(t, None), |t| Cigar::new_with_qb2(t, None), |c, r| Cigar::new_with_raw(r, None, Some(c)), |t: &Cigar| {
            let _ = t.verfer();
        }),
        probe!("Signer", |t| Signer::new_with_qb64(t, None), |t| Signer::new_with_qb64b(t, Some(false)), |t| Signer::new_with_qb2(t, None), |c, r| Signer::new_with_raw(r, None, Some(c)), |t: &Signer| {
            let _ = t.verfer().qb64();
            let _ = t.sign_unindexed(b"abc");
            let _ = t.sign_indexed(b"", false, 3, Some(u32::MAX));
            let _ = t.sign_indexed(b"", true, 4096, None);
            let _ = t.sign_indexed(b"", true, u32::MAX, Some(1));
        }),
        probe!("Salter", |t| Salter::new_with_qb64(t, None), |t| Salter::new_with_qb64b(t, Some("é")), |t| Salter::new_with_qb2(t, None), |c, r| Salter::new_with_raw(r, Some(c), None), |t: &Salter| {
            let _ = t.tier();
        }),
        probe!("Seqner", Seqner::new_with_qb64, Seqner::new_with_qb64b, Seqner::new_with_qb2, |c, r| Seqner::new_with_raw(r, Some(c)), |t: &Seqner| {
            let _ = t.sn();
            let _ = t.snh();
        }),
        probe!("Number", Number::new_with_qb64, Number::new_with_qb64b, Number::new_with_qb2, |c, r| Number::new_with_raw(r, Some(c)), |t: &Number| {
            let _ = t.num();
            let _ = t.numh();
            let _ = t.positive();
        }),
        probe!("Dater", Dater::new_with_qb64, Dater::new_with_qb64b, Dater::new_with_qb2, |c, r| Dater::new_with_raw(r, Some(c)), |t: &Dater| {
            let _ = t.dts();
            let _ = t.dtsb();
        }),
        probe!("Bexter", Bexter::new_with_qb64, Bexter::new_with_qb64b, Bexter::new_with_qb2, |c, r| Bexter::new_with_raw(r, Some(c)), |t: &Bexter| {
            let _ = t.bext();
        }),
        probe!("Pather", Pather::new_with_qb64, Pather::new_with_qb64b, Pather::new_with_qb2, |c, r| Pather::new_with_raw(r, Some(c)), |t: &Pather| {
            let _ = t.bext();
            let _ = t.path();
            let _ = t.root(t);
            let _ = t.strip(t);
            let _ = t.starts_with(t);
            let _ = t.resolve(&dat!({"a": [1, {"b": null}], "0": "x"}));
            let _ = t.resolve(&dat!([]));
            let _ = t.resolve(&dat!(7));
        }),
        Probe {
            name: "Indexer",
            f: |i, o| match i {
                In::Text(t) => iread(TI::new_with_qb64(t), o),
                In::Bytes(t) => iread(TI::new_with_qb64b(t), o),
                In::Bin(t) => iread(TI::new_with_qb2(t), o),
                In::Raw(c, r) => {
                    for x in [0, 1, 63, 64, 4095, 4096, u32::MAX] {
                        iread(TI::new_with_code_and_raw(c, r, x, None), o)?;
                        iread(TI::new_with_code_and_raw(c, r, x, Some(x)), o)?;
                    }
                    Ok(())
                }
            },
        },
        Probe {
            name: "Siger",
            f: |i, o| match i {
                In::Text(t) => iread(Siger::new_with_qb64(t, None), o),
                In::Bytes(t) => iread(Siger::new_with_qb64b(t, None), o),
                In::Bin(t) => iread(Siger::new_with_qb2(t, None), o),
                In::Raw(c, r) => iread(Siger::new_with_raw(r, None, Some(1), Some(1), Some(c)), o),
            },
        },
        Probe {
            name: "Counter",
            f: |i, o| match i {
                In::Text(t) => cread(Counter::new_with_qb64(t), o),
                In::Bytes(t) => cread(Counter::new_with_qb64b(t), o),
                In::Bin(t) => cread(Counter::new_with_qb2(t), o),
                In::Raw(c, r) => cread(Counter::new_with_code_and_count(c, r.len() as u32), o),
            },
        },
    ]
}

/// constructors from plain text
fn plain(t: &str, o: &mut Obs) -> R {
    read(Dater::new_with_dts(t, None), o, |d| {
        let _ = d.dts();
    })?;
    read(Bexter::new_with_bext(t), o, |d| {
        let _ = d.bext();
    })?;
    read(Pather::new_with_bext(t), o, |d| {
        let _ = d.path();
        let _ = d.resolve(&dat!({"a": {"b": 1}}));
    })?;
    read(Number::new_with_numh(t), o, |d| {
        let _ = d.num();
    })?;
    read(Seqner::new_with_snh(t), o, |d| {
        let _ = d.sn();
    })?;
    cread(Counter::new(None, Some(t), Some("-0V"), None, None, None), o)?;
    cread(Counter::new(None, Some(t), Some("-A"), None, None, None), o)?;
    let _ = Counter::sem_ver_str_to_b64(t);
    let _ = Tholder::new_with_limen(t.as_bytes());
    let _ = Tholder::new_with_sith(&dat!(t));
    let _ = Tholder::new_with_sith(&dat!([t]));
    let _ = common::deversify(t);
    let _ = common::sniff(t.as_bytes());
    o.steps(6);
    Ok(())
}

fn syms() -> Vec<String> {
    let mut v: Vec<String> = spec::B64.iter().map(|c| (*c as char).to_string()).collect();
    v.extend(["=", "#", " ", "\n", "\0", "é", "€", "😀", ".", "+", ":", "/"].iter().map(|s| s.to_string()));
    v
}

pub fn run(ctx: &Ctx) {
    let ps = probes();
    let go_t = |p: &Probe, t: &str| {
        ctx.case(|| format!("{} text {}", p.name, sh(t)), |o| (p.f)(In::Text(t), o));
        ctx.case(|| format!("{} text bytes {}", p.name, sh(t)), |o| (p.f)(In::Bytes(t.as_bytes()), o));
    };
    let go_b = |p: &Probe, b: &[u8]| ctx.case(|| format!("{} bytes {}", p.name, hex(b)), |o| (p.f)(In::Bin(b), o));
    let go_x = |p: &Probe, b: &[u8]| ctx.case(|| format!("{} text bytes 0x{}", p.name, hex(b)), |o| (p.f)(In::Bytes(b), o));
    let go_p = |t: &str| ctx.case(|| format!("plain text {}", sh(t)), |o| plain(t, o));

    let sy = syms();
    let n = sy.len();
    ctx.par(n * n, |k| {
        let (x, y) = (&sy[k / n], &sy[k % n]);
        for p in &ps {
            if k == 0 {
                go_t(p, "");
                go_b(p, &[]);
            }
            if k % n == 0 {
                go_t(p, x);
            }
            go_t(p, &format!("{x}{y}"));
            for z in &sy {
                go_t(p, &format!("{x}{y}{z}"));
            }
        }
        if k == 0 {
            go_p("");
        }
        if k % n == 0 {
            go_p(x);
        }
        go_p(&format!("{x}{y}"));
        for z in &sy {
            go_p(&format!("{x}{y}{z}"));
        }
    });
    ctx.section("all texts of up to 3 symbols");

    // all short binaries, and all two-byte heads with filled bodies
    ctx.par(1 << 16, |k| {
        let h = [(k >> 8) as u8, k as u8];
        for p in &ps {
            if k & 0xff == 0 {
                go_b(p, &h[..1]);
                go_x(p, &h[..1]);
            }
            go_b(p, &h);
            go_x(p, &h);
            for fill in [0u8, 0xff] {
                for len in ctx.pick(vec![3, 4, 5, 6], vec![3, 4, 5, 6, 7, 8, 9, 12, 33, 66, 100]) {
                    let mut b = h.to_vec();
                    b.resize(len, fill);
                    go_b(p, &b);
                }
            }
            if ctx.thorough {
                for z in 0..=255u8 {
                    go_b(p, &[h[0], h[1], z]);
                    go_x(p, &[h[0], h[1], z]);
                }
            }
        }
    });
    ctx.section("short binaries");

    // every code (and every start of one) with bodies of every length and kind
    let mut codes: Vec<String> = vec![];
    for c in spec::MATTER.iter().map(|c| c.code).chain(spec::INDEXER.iter().map(|c| c.code)).chain(spec::COUNTER.iter().map(|c| c.0)) {
        for l in 1..=c.len() {
            codes.push(c[..l].to_string());
        }
    }
    codes.sort();
    codes.dedup();
    let fills = ["A", "_", "=", "é", "€", "😀", " ", "-", "z", "."];
    ctx.par(codes.len() * fills.len(), |k| {
        let (code, fill) = (&codes[k / fills.len()], fills[k % fills.len()]);
        for p in &ps {
            for len in 0..164 {
                let t = format!("{code}{}", fill.repeat(len));
                go_t(p, &t);
            }
        }
    });
    ctx.section("codes with uniform bodies");
    ctx.par(codes.len(), |k| {
        let code = &codes[k];
        let full = spec::mc(code)
            .map(|c| c.fs)
            .or(spec::ic(code).map(|c| c.fs))
            .filter(|f| *f > 0)
            .unwrap_or(24);
        for p in &ps {
            for body in ["A", "B", "_"] {
                for at in 0..full + 2 {
                    for odd in ["é", "€", "😀", "=", "\0"] {
                        for drop in 0..=odd.len() {
                            let mut t = format!("{code}{}", body.repeat((full + 4).saturating_sub(code.len())));
                            t.replace_range(at..(at + drop).min(t.len()), odd);
                            go_t(p, &t);
                        }
                    }
                    let mut b = format!("{code}{}", body.repeat((full + 4).saturating_sub(code.len()))).into_bytes();
                    for odd in [0x80u8, 0xff, 0xc3, 0xf0] {
                        let keep = b[at];
                        b[at] = odd;
                        go_x(p, &b);
                        go_x(p, &b[..at + 1]);
                        b[at] = keep;
                    }
                }
            }
        }
    });
    ctx.section("codes with one odd character");

    // variable sizes that disagree with what follows
    let var: Vec<&spec::MC> = spec::MATTER.iter().filter(|c| c.var()).collect();
    ctx.par(var.len() * 4096, |k| {
        let c = var[k / 4096];
        let v = (k % 4096) as u64;
        let heads = if c.ss == 2 {
            vec![format!("{}{}", c.code, spec::b64n(v, 2))]
        } else {
            vec![
                format!("{}{}", c.code, spec::b64n(v, 4)),
                format!("{}{}", c.code, spec::b64n(v << 12, 4)),
                format!("{}{}", c.code, spec::b64n((v << 12) | 4095, 4)),
            ]
        };
        for p in ps.iter().filter(|p| ["Matter", "Bexter", "Pather", "Verfer"].contains(&p.name)) {
            for h in &heads {
                for body in [0usize, 1, 3, 4, 5, 8, 12] {
                    for f in ["A", "_"] {
                        let t = format!("{h}{}", f.repeat(body));
                        go_t(p, &t);
                        let mut q = t.clone();
                        while q.len() % 4 != 0 {
                            q.push('A');
                        }
                        let b = spec::dec4(q.as_bytes()).unwrap();
                        go_b(p, &b);
                        go_b(p, &b[..b.len() - 1]);
                    }
                }
            }
        }
    });
    ctx.section("variable sizes");

    // 0z: labels whose length is their index
    ctx.par(4096, |k| {
        for p in ps.iter().filter(|p| ["Indexer", "Siger"].contains(&p.name)) {
            for body in [0usize, 1, 4, 8] {
                let t = format!("0z{}{}", spec::b64n(k as u64, 2), "A".repeat(body));
                go_t(p, &t);
            }
        }
    });

    // raw values of every length for every code name, known or not
    let names: Vec<String> =
        codes.iter().cloned().chain(["", "é", "é4", "4é", "4€", "7A", "7AA", "7AAAA", "AA", "4AA", "😀", "9", "5"].iter().map(|s| s.to_string())).collect();
    ctx.par(names.len() * 150, |k| {
        let (name, n) = (&names[k / 150], k % 150);
        for fill in [0u8, 1, 0xff] {
            let raw = vec![fill; n];
            for p in &ps {
                ctx.case(|| format!("{} raw {name:?} {n} bytes of {fill}", p.name), |o| (p.f)(In::Raw(name, &raw), o));
            }
        }
    });
    ctx.section("raw values");

    // plain text: every length of every symbol; odd symbols inside a datetime
    ctx.par(sy.len(), |k| {
        for len in 0..80 {
            go_p(&sy[k].repeat(len));
            go_p(&format!("-{}", sy[k].repeat(len)));
        }
        let dts = "2020-08-22T17:50:09.988921+00:00";
        for at in 0..dts.len() {
            go_p(&format!("{}{}{}", &dts[..at], sy[k], &dts[at + 1..]));
            go_p(&format!("{}{}{}", &dts[..at], sy[k], &dts[at..]));
        }
    });
    ctx.section("plain texts");

    // general constructors with nothing, and with contradictory arguments
    ctx.case(
        || "general constructors without arguments".into(),
        |o| {
            for ty in TYPES {
                for code in [None, Some(""), Some("A"), Some("zz"), Some("é")] {
                    let _ = (ty.new)(code, None, None, None, None);
                    let _ = (ty.new)(code, Some(&[]), None, None, None);
                    let _ = (ty.new)(code, None, Some(&[]), Some(""), Some(&[]));
                    o.steps(3);
                }
            }
            let _ = Siger::new(None, None, None, None, None, None, None, None);
            let _ = Siger::new(None, None, None, Some("A"), None, None, None, None);
            let _ = Tholder::new(None, None, None);
            let _ = Tholder::new_with_limen(&[]);
            let _ = Tholder::new_with_limen(&[0xff]);
            Ok(())
        },
    );
}
