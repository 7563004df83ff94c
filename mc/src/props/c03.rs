//! C03: streams compose in text and in binary, and convert as a whole.
use super::c02::Rd;
use super::types::*;
use super::*;
use crate::ctx::{Ctx, Obs, R};
use crate::{same, spec};
use cesride::Counter;

#[derive(Clone)]
struct Tok {
    r: Rd,
    code: String,
    text: String,
    bin: Vec<u8>,
}

/// what was read, as one comparable value, with its full size
fn read_text(r: &Rd, t: &[u8], as_str: bool) -> Result<(usize, String, Vec<u8>), String> {
    let s = if as_str { Some(std::str::from_utf8(t).map_err(|e| e.to_string())?) } else { None };
    match r {
        Rd::M(ty) => {
            let g = match s {
                Some(s) => (ty.qb64)(s)?,
                None => (ty.qb64b)(t)?,
            };
            Ok((g.fs, g.qb64, g.qb2))
        }
        Rd::I(ty) => {
            let g = match s {
                Some(s) => (ty.qb64)(s)?,
                None => (ty.qb64b)(t)?,
            };
            Ok((g.fs, g.qb64, g.qb2))
        }
        Rd::C => {
            let g = csnap(match s {
                Some(s) => Counter::new_with_qb64(s),
                None => Counter::new_with_qb64b(t),
            })?;
            Ok((g.fs, g.qb64, g.qb2))
        }
    }
}

fn read_bin(r: &Rd, b: &[u8]) -> Result<(usize, String, Vec<u8>), String> {
    match r {
        Rd::M(ty) => (ty.qb2)(b).map(|g| (g.fs, g.qb64, g.qb2)),
        Rd::I(ty) => (ty.qb2)(b).map(|g| (g.fs, g.qb64, g.qb2)),
        Rd::C => csnap(Counter::new_with_qb2(b)).map(|g| (g.fs, g.qb64, g.qb2)),
    }
}

fn tokens() -> Vec<Tok> {
    let mut v = vec![];
    let mut add = |r: Rd, code: &str, text: String| {
        let bin = spec::dec4(text.as_bytes()).unwrap();
        v.push(Tok { r, code: code.into(), text, bin });
    };
    for ty in TYPES {
        for code in ty.codes {
            let c = spec::mc(code).unwrap();
            let lens = if c.var() { vec![(3 - c.ls) % 3, (3 - c.ls) % 3 + 9] } else { vec![c.raw()] };
            for n in lens {
                let mut raw = spec::filler(n, 21 + n as u64);
                if ty.name.starts_with("Signer") {
                    raw[0] = 3;
                }
                add(Rd::M(ty), code, spec::m_encode(code, &raw).unwrap().1);
            }
        }
    }
    for ty in ITYPES {
        for code in ty.codes {
            let c = spec::ic(code).unwrap();
            let x = 2;
            let on = if c.kind == 1 { None } else { Some(if c.os == 0 { x } else { 1 }) };
            let i = spec::i_build(code, &spec::filler(c.raw(x), 33), x, on).unwrap();
            add(Rd::I(ty), code, spec::i_text(&i));
        }
    }
    for (code, ss) in spec::COUNTER {
        for n in [0u64, 1, (1 << (6 * ss)) - 1] {
            add(Rd::C, code, spec::c_text(code, n).unwrap());
        }
    }
    v
}

fn walk(seq: &[&Tok], o: &mut Obs) -> R {
    let text: String = seq.iter().map(|t| t.text.as_str()).collect();
    let bin: Vec<u8> = seq.iter().flat_map(|t| t.bin.iter().copied()).collect();
    same!(spec::enc3(&bin), text, "stream conversion");
    let mut at = 0;
    for (k, t) in seq.iter().enumerate() {
        for as_str in [true, false] {
            let (fs, q, b) = read_text(&t.r, text[at..].as_bytes(), as_str)
                .map_err(|e| format!("element {k} not readable in the text stream: {e}"))?;
            o.step();
            same!(fs, t.text.len(), "full size of element {k}");
            same!(q, t.text, "element {k} of the text stream");
            same!(b, t.bin, "binary form of element {k} of the text stream");
        }
        let (fs, q, b) = read_bin(&t.r, &bin[at / 4 * 3..])
            .map_err(|e| format!("element {k} not readable in the binary stream: {e}"))?;
        o.step();
        same!(fs * 3, t.bin.len() * 4, "full size of element {k} in binary");
        same!(q, t.text, "element {k} of the binary stream");
        same!(b, t.bin, "element {k} of the binary stream");
        at += fs;
        o.state((&t.code, t.r.name(), seq[k..].iter().map(|t| &t.code[..]).collect::<Vec<_>>()));
    }
    same!(at, text.len(), "stream position at the end");
    Ok(())
}

fn label(seq: &[&Tok]) -> String {
    seq.iter().map(|t| format!("{}:{}", t.r.name(), sh(&t.text))).collect::<Vec<_>>().join(" + ")
}

pub fn run(ctx: &Ctx) {
    let toks = tokens();
    let n = toks.len();
    ctx.note(format!("{n} stream elements"));

    ctx.par(n * n, |k| {
        let seq = [&toks[k / n], &toks[k % n]];
        ctx.case(|| label(&seq), |o| walk(&seq, o));
        if k % n == 0 {
            ctx.case(|| label(&seq[..1]), |o| walk(&seq[..1], o));
        }
    });
    ctx.section("all pairs");

    let class: Vec<&Tok> = if ctx.thorough {
        toks.iter().collect()
    } else {
        toks.iter().filter(|t| ["Matter", "Indexer", "Counter"].contains(&t.r.name())).step_by(2).collect()
    };
    let c = class.len();
    ctx.par(c * c, |k| {
        for t in &class {
            let seq = [class[k / c], class[k % c], t];
            ctx.case(|| label(&seq), |o| walk(&seq, o));
        }
    });
    ctx.section("triples");

    if ctx.thorough {
        let class: Vec<&Tok> = toks.iter().filter(|t| ["Matter", "Indexer", "Counter"].contains(&t.r.name())).step_by(3).collect();
        let c = class.len();
        ctx.par(c * c * c, |k| {
            for t in &class {
                let seq = [class[k / c / c], class[k / c % c], class[k % c], t];
                ctx.case(|| label(&seq), |o| walk(&seq, o));
            }
        });
        ctx.section("quadruples");
    }

    // long material, and big counts
    let mut big: Vec<Tok> = vec![];
    for ty in TYPES.iter().filter(|t| ["Matter", "Bexter", "Pather"].contains(&t.name)) {
        for code in ty.codes {
            let c = spec::mc(code).unwrap();
            if !c.var() || (ty.name != "Matter" && !ctx.thorough && c.ls != 0) {
                continue;
            }
            let mut sizes = vec![63, 64, 1023, 1024, 4095];
            if code.len() == 4 {
                sizes.extend([4096, 8191, 8192, 16383, 16384, 21845, 21846, 32767, 32768, 65535, 65536, 65537, 131072, 262143, 262144, 262145]);
            }
            for q in sizes {
                let text = spec::m_encode(code, &spec::filler(q * 3 - c.ls, q as u64)).unwrap().1;
                let bin = spec::dec4(text.as_bytes()).unwrap();
                big.push(Tok { r: Rd::M(ty), code: code.to_string(), text, bin });
            }
        }
    }
    for (code, ss) in spec::COUNTER {
        for d in 1..=6 * *ss as u32 {
            for n in [(1u64 << d) - 1, 1 << d, (1 << d) + 1] {
                if n < 1 << (6 * ss) {
                    let text = spec::c_text(code, n).unwrap();
                    let bin = spec::dec4(text.as_bytes()).unwrap();
                    big.push(Tok { r: Rd::C, code: code.to_string(), text, bin });
                }
            }
        }
    }
    let few: Vec<&Tok> = toks.iter().filter(|t| ["Matter", "Indexer", "Counter"].contains(&t.r.name())).step_by(if ctx.thorough { 7 } else { 31 }).collect();
    ctx.par(big.len(), |k| {
        for (i, t) in few.iter().enumerate() {
            let seq = [&big[k], *t];
            ctx.case(|| label(&seq), |o| walk(&seq, o));
            if i == 0 {
                let seq = [*t, &big[k], *t];
                ctx.case(|| label(&seq), |o| walk(&seq, o));
            }
        }
    });
    ctx.section("long material and big counts");

    // whatever follows never matters
    let mut tails: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
    for t in [
        &b"AAAA"[..], b"====", b"=", b"==", b"-", b"--AAA", b"{\"v\":\"KERI10JSON\"}", b"\n", b" ", b"_", b"+/", b"\xff\xff\xff\xff",
        b"\xc3\xa9", b"\xc3", b"\xf0\x9f\x98\x80", b"\0\0\0\0", b"1AAG", b"\x80AAAA", b"A\xffA",
    ] {
        tails.push(t.to_vec());
        tails.push([t, t, t].concat());
    }
    tails.push(vec![b'A'; 5000]);
    tails.push(vec![0xfe; 5000]);
    for a in 0..=255u8 {
        tails.push(vec![a, 0x80]);
        tails.push(vec![b'A', a]);
    }
    ctx.par(n * tails.len(), |k| {
        let (t, tail) = (&toks[k / tails.len()], &tails[k % tails.len()]);
        ctx.case(
            || format!("{}:{} followed by {}", t.r.name(), sh(&t.text), hex(tail)),
            |o| {
                let mut s = t.text.clone().into_bytes();
                s.extend_from_slice(tail);
                let ok = (t.text.len(), t.text.clone(), t.bin.clone());
                same!(read_text(&t.r, &s, false), Ok(ok.clone()), "from text bytes");
                if std::str::from_utf8(&s).is_ok() {
                    same!(read_text(&t.r, &s, true), Ok(ok.clone()), "from text");
                }
                let mut b = t.bin.clone();
                b.extend_from_slice(tail);
                same!(read_bin(&t.r, &b), Ok(ok), "from bytes");
                o.steps(3);
                o.state((&t.code, tail));
                Ok(())
            },
        );
    });
    ctx.section("every element before every kind of continuation");

    // large variable material inside a stream
    let big: Vec<Tok> = ["4A", "5B", "6A", "7AAA", "8AAB", "9AAA"]
        .iter()
        .flat_map(|code| {
            let c = spec::mc(code).unwrap();
            [3000usize, 12285, 13000].map(|n| {
                let n = n / 3 * 3 + (3 - c.ls) % 3;
                let n = if code.len() == 2 { n.min(12282 + (3 - c.ls) % 3) } else { n };
                let (m, text) = spec::m_encode(code, &spec::filler(n, 5)).unwrap();
                let bin = spec::dec4(text.as_bytes()).unwrap();
                Tok { r: Rd::M(&TYPES[0]), code: m.code, text, bin }
            })
        })
        .collect();
    ctx.par(big.len() * n, |k| {
        let seq = [&big[k / n], &toks[k % n], &big[(k / n + 1) % big.len()]];
        ctx.case(|| label(&seq), |o| walk(&seq, o));
    });
    ctx.section("large elements");
}
