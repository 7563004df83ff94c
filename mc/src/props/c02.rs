//! C02: only canonical encodings are accepted, text and binary.
use super::types::*;
use super::*;
use crate::ctx::{Ctx, Obs, R};
use crate::{ensure, spec};

pub fn text_m(ty: &Ty, t: &str, o: &mut Obs) -> R {
    o.steps(2);
    let want = spec::m_parse(t.as_bytes()).filter(|m| ty.codes.contains(&m.code.as_str()));
    for (route, got) in [("qb64", (ty.qb64)(t)), ("qb64b", (ty.qb64b)(t.as_bytes()))] {
        match (&want, got) {
            (None, Err(_)) => o.state(("rejected", t.len())),
            (None, Ok(g)) => {
                return Err(format!("{route}: accepted non-canonical text, reads back as {:?}", g.qb64));
            }
            (Some(m), Err(e)) => {
                if legal(ty.name, &m.code, &m.raw) {
                    return Err(format!("{route}: rejected canonical text: {e}"));
                }
            }
            (Some(m), Ok(g)) => {
                ensure!(g.qb64 == t[..m.fs], "{route}: re-encodes as {:?}", g.qb64);
                ensure!(g == expected(m, &t[..m.fs]), "{route}: read as {g:?}");
                o.state((&m.code, m.size, m.raw.last()));
            }
        }
    }
    Ok(())
}

pub fn bin_m(ty: &Ty, b: &[u8], o: &mut Obs) -> R {
    o.step();
    let want = spec::m_parse_bin(b).filter(|m| ty.codes.contains(&m.code.as_str()));
    match (want, (ty.qb2)(b)) {
        (None, Err(_)) => {
            o.state(("rejected", b.len()));
            Ok(())
        }
        (None, Ok(g)) => Err(format!("qb2: accepted non-canonical bytes, re-encodes as {}", hex(&g.qb2))),
        (Some(m), Err(e)) => {
            ensure!(!legal(ty.name, &m.code, &m.raw), "qb2: rejected canonical bytes: {e}");
            Ok(())
        }
        (Some(m), Ok(g)) => {
            ensure!(g.qb2 == b[..m.fs * 3 / 4], "qb2: re-encodes as {}", hex(&g.qb2));
            let t = spec::enc3(&b[..m.fs * 3 / 4]);
            o.state((&m.code, m.size, m.raw.last()));
            ensure!(g == expected(&m, &t), "qb2: read as {g:?}");
            Ok(())
        }
    }
}

pub fn text_i(ty: &ITy, t: &str, o: &mut Obs) -> R {
    o.steps(2);
    let want = spec::i_parse(t.as_bytes()).filter(|m| ty.codes.contains(&m.code.as_str()));
    for (route, got) in [("qb64", (ty.qb64)(t)), ("qb64b", (ty.qb64b)(t.as_bytes()))] {
        match (&want, got) {
            (None, Err(_)) => o.state(("rejected", t.len())),
            (None, Ok(g)) => return Err(format!("{route}: accepted non-canonical text, reads back as {:?}", g.qb64)),
            (Some(_), Err(e)) => return Err(format!("{route}: rejected canonical text: {e}")),
            (Some(m), Ok(g)) => {
                ensure!(g.qb64 == t[..m.fs], "{route}: re-encodes as {:?}", g.qb64);
                ensure!(g == iexpected(m), "{route}: read as {g:?}");
                o.state((&m.code, m.index, m.ondex, m.raw.last()));
            }
        }
    }
    Ok(())
}

pub fn bin_i(ty: &ITy, b: &[u8], o: &mut Obs) -> R {
    o.step();
    let want = spec::i_parse_bin(b).filter(|m| ty.codes.contains(&m.code.as_str()));
    match (want, (ty.qb2)(b)) {
        (None, Err(_)) => {
            o.state(("rejected", b.len()));
            Ok(())
        }
        (None, Ok(g)) => Err(format!("qb2: accepted non-canonical bytes, re-encodes as {}", hex(&g.qb2))),
        (Some(_), Err(e)) => Err(format!("qb2: rejected canonical bytes: {e}")),
        (Some(m), Ok(g)) => {
            ensure!(g.qb2 == b[..m.fs * 3 / 4], "qb2: re-encodes as {}", hex(&g.qb2));
            ensure!(g == iexpected(&m), "qb2: read as {g:?}");
            o.state((&m.code, m.index, m.ondex, m.raw.last()));
            Ok(())
        }
    }
}

pub fn text_c(t: &str, o: &mut Obs) -> R {
    use cesride::Counter;
    o.steps(2);
    let want = spec::c_parse(t.as_bytes());
    for (route, got) in [
        ("qb64", csnap(Counter::new_with_qb64(t))),
        ("qb64b", csnap(Counter::new_with_qb64b(t.as_bytes()))),
        ("new(qb64)", csnap(Counter::new(None, None, None, None, Some(t), None))),
        ("new(qb64b)", csnap(Counter::new(None, None, None, Some(t.as_bytes()), None, None))),
    ] {
        match (&want, got) {
            (None, Err(_)) => o.state(("rejected", t.len())),
            (None, Ok(g)) => return Err(format!("{route}: accepted non-canonical text, reads back as {:?}", g.qb64)),
            (Some(_), Err(e)) => return Err(format!("{route}: rejected canonical text: {e}")),
            (Some((c, n, fs)), Ok(g)) => {
                ensure!(g.qb64 == t[..*fs], "{route}: re-encodes as {:?}", g.qb64);
                ensure!(Some(&g) == cexpected(c, *n).as_ref(), "{route}: read as {g:?}");
                o.state((c, n));
            }
        }
    }
    Ok(())
}

pub fn bin_c(b: &[u8], o: &mut Obs) -> R {
    use cesride::Counter;
    o.step();
    let want = spec::c_parse_bin(b);
    for (route, got) in [
        ("qb2", csnap(Counter::new_with_qb2(b))),
        ("new(qb2)", csnap(Counter::new(None, None, None, None, None, Some(b)))),
    ] {
        match (&want, got) {
            (None, Err(_)) => o.state(("rejected", b.len())),
            (None, Ok(g)) => return Err(format!("{route}: accepted non-canonical bytes, re-encodes as {}", hex(&g.qb2))),
            (Some(_), Err(e)) => return Err(format!("{route}: rejected canonical bytes: {e}")),
            (Some((c, n, fs)), Ok(g)) => {
                ensure!(g.qb2 == b[..*fs * 3 / 4], "{route}: re-encodes as {}", hex(&g.qb2));
                ensure!(Some(&g) == cexpected(c, *n).as_ref(), "{route}: read as {g:?}");
                o.state((c, n));
            }
        }
    }
    Ok(())
}

/// Which reader a text goes to.
#[derive(Clone, Copy)]
pub enum Rd {
    M(&'static Ty),
    I(&'static ITy),
    C,
}

impl Rd {
    pub fn name(&self) -> &'static str {
        match self {
            Rd::M(t) => t.name,
            Rd::I(t) => t.name,
            Rd::C => "Counter",
        }
    }
    pub fn text(&self, t: &str, o: &mut Obs) -> R {
        match self {
            Rd::M(ty) => text_m(ty, t, o),
            Rd::I(ty) => text_i(ty, t, o),
            Rd::C => text_c(t, o),
        }
    }
    pub fn bin(&self, b: &[u8], o: &mut Obs) -> R {
        match self {
            Rd::M(ty) => bin_m(ty, b, o),
            Rd::I(ty) => bin_i(ty, b, o),
            Rd::C => bin_c(b, o),
        }
    }
}

pub fn readers() -> Vec<Rd> {
    let mut v: Vec<Rd> = TYPES.iter().map(Rd::M).collect();
    v.extend(ITYPES.iter().map(Rd::I));
    v.push(Rd::C);
    v
}

/// Valid encodings of every code: (reader, text, head length)
pub fn bases(all_types: bool) -> Vec<(Rd, String, usize)> {
    let mut v = vec![];
    for ty in TYPES {
        if !all_types && ty.name != "Matter" {
            continue;
        }
        for code in ty.codes {
            let c = spec::mc(code).unwrap();
            let lens: Vec<usize> = if c.var() {
                let k = c.ls; // lengths that keep this code's lead size
                let first = (3 - k) % 3;
                vec![first, first + 3, first + 30]
            } else {
                vec![c.raw()]
            };
            for n in lens {
                for mut raw in [vec![0u8; n], vec![0xff; n], spec::filler(n, 9)] {
                    if !legal(ty.name, code, &raw) {
                        if n > 0 {
                            raw[0] = 0x5a;
                            raw[n - 1] = 0x5a;
                        }
                        if !legal(ty.name, code, &raw) {
                            continue;
                        }
                    }
                    let (m, t) = spec::m_encode(code, &raw).unwrap();
                    assert_eq!(&m.code, code);
                    v.push((Rd::M(ty), t, c.cs()));
                }
            }
        }
    }
    for ty in ITYPES {
        if !all_types && ty.name != "Indexer" {
            continue;
        }
        for code in ty.codes {
            let c = spec::ic(code).unwrap();
            for (index, ondex) in [(0u32, 0u32), (1, 1), (63, 63), (5, 0)] {
                let n = c.raw(index);
                for raw in [vec![0u8; n], vec![0xff; n], spec::filler(n, 9)] {
                    let on = if c.kind == 1 {
                        None
                    } else if c.os == 0 {
                        Some(index)
                    } else {
                        Some(ondex)
                    };
                    let i = spec::i_build(code, &raw, index, on).unwrap();
                    v.push((Rd::I(ty), spec::i_text(&i), c.cs()));
                }
            }
        }
    }
    for (code, ss) in spec::COUNTER {
        for n in [0u64, 1, (1 << (6 * ss)) - 1] {
            let t = spec::c_text(code, n).unwrap();
            let l = t.len();
            v.push((Rd::C, t, l));
        }
    }
    v
}

pub const ODD: &[&str] = &["=", "+", "/", " ", "\n", ".", "~", "\0", "é", "€", "😀", "A=", "\u{7f}"];

pub fn run(ctx: &Ctx) {
    let a = spec::B64;
    let rs = [Rd::M(&TYPES[0]), Rd::I(&ITYPES[0]), Rd::C];

    // every text of up to 4 characters of the alphabet
    ctx.par(64 * 64, |k| {
        let (x, y) = (a[k / 64] as char, a[k % 64] as char);
        for r in &rs {
            let go = |t: &str| ctx.case(|| format!("{} text {t:?}", r.name()), |o| r.text(t, o));
            go(&format!("{x}{y}"));
            if y == 'A' {
                go(&x.to_string());
            }
            let mut t = format!("{x}{y}");
            for z in a {
                t.truncate(2);
                t.push(*z as char);
                go(&t);
                for w in a {
                    t.truncate(3);
                    t.push(*w as char);
                    go(&t);
                }
            }
        }
    });
    ctx.section("all texts of up to 4 characters");

    // every binary of up to 3 bytes
    ctx.par(1 << 16, |k| {
        for r in &rs {
            let go = |b: &[u8]| ctx.case(|| format!("{} bytes {}", r.name(), hex(b)), |o| r.bin(b, o));
            let mut b = [(k >> 8) as u8, k as u8, 0];
            go(&b[..2]);
            if k & 0xff == 0 {
                go(&b[..1]);
            }
            for z in 0..=255u8 {
                b[2] = z;
                go(&b);
            }
        }
    });
    ctx.section("all binaries of up to 3 bytes");

    // all single substitutions, insertions and deletions of valid encodings
    let bs = bases(true);
    ctx.par(bs.len(), |k| {
        let (r, t, _) = &bs[k];
        let go = |t: &str| ctx.case(|| format!("{} text {}", r.name(), sh(t)), |o| r.text(t, o));
        go(t);
        for p in 0..t.len() {
            for c in a {
                let mut u = t.clone().into_bytes();
                if u[p] != *c {
                    u[p] = *c;
                    go(std::str::from_utf8(&u).unwrap());
                }
            }
            for c in ODD {
                go(&format!("{}{c}{}", &t[..p], &t[p + 1..]));
                go(&format!("{}{c}{}", &t[..p], &t[p..]));
            }
            go(&format!("{}{}", &t[..p], &t[p + 1..]));
            go(&t[..p]);
        }
        for c in ODD {
            go(&format!("{t}{c}"));
        }
        let b = spec::dec4(t.as_bytes()).unwrap();
        let go = |b: &[u8]| ctx.case(|| format!("{} bytes {}", r.name(), hex(b)), |o| r.bin(b, o));
        go(&b);
        for p in 0..b.len() {
            for v in 0..=255u8 {
                let mut u = b.clone();
                if u[p] != v {
                    u[p] = v;
                    go(&u);
                }
            }
            let mut u = b.clone();
            u.remove(p);
            go(&u);
            go(&b[..p]);
            let mut u = b.clone();
            u.insert(p, 0);
            go(&u);
        }
    });
    ctx.section("single deviations of valid encodings");

    // pairs of deviations at the code, soft, pad and tail positions
    let bs: Vec<_> = bases(ctx.thorough).into_iter().enumerate().filter(|(i, _)| ctx.thorough || i % 3 == 2).map(|x| x.1).collect();
    ctx.par(bs.len() * 64, |k| {
        let (r, t, cs) = &bs[k / 64];
        let c1 = a[k % 64];
        let mut ps: Vec<usize> = (0..(cs + 3).min(t.len())).collect();
        for q in t.len().saturating_sub(2)..t.len() {
            if !ps.contains(&q) {
                ps.push(q);
            }
        }
        for (i, p) in ps.iter().enumerate() {
            for q in &ps[i + 1..] {
                for c2 in a {
                    let mut u = t.clone().into_bytes();
                    u[*p] = c1;
                    u[*q] = *c2;
                    // no point in reading megabytes: sizes beyond the text are rejected at once
                    let s = std::str::from_utf8(&u).unwrap();
                    ctx.case(|| format!("{} text {}", r.name(), sh(s)), |o| r.text(s, o));
                    let b = spec::dec4(&u).unwrap();
                    ctx.case(|| format!("{} bytes {}", r.name(), hex(&b)), |o| r.bin(&b, o));
                }
            }
        }
    });
    ctx.section("pairs of deviations at code, soft, pad and tail");
}
