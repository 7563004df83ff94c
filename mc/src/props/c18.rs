//! C18: numbers and sequence numbers, every representation against every other.
use super::types::*;
use super::*;
use crate::ctx::{Ctx, Obs, R};
use crate::{ensure, same, spec};
use cesride::{Number, Seqner};
use std::collections::BTreeSet;

const CODES: [(&str, usize); 4] = [("M", 2), ("0H", 4), ("N", 8), ("0A", 16)];

fn smallest(v: u128) -> (&'static str, usize) {
    for (c, n) in CODES {
        if n == 16 || v < 1u128 << (8 * n) {
            return (c, n);
        }
    }
    unreachable!()
}

fn bytes(v: u128, n: usize) -> Vec<u8> {
    (0..n).map(|i| (v >> (8 * (n - 1 - i))) as u8).collect()
}

fn hexes(v: u128) -> String {
    let mut s = String::new();
    let mut started = false;
    for i in (0..32).rev() {
        let d = ((v >> (4 * i)) & 15) as u32;
        started |= d != 0 || i == 0;
        if started {
            s.push(char::from_digit(d, 16).unwrap());
        }
    }
    s
}

fn spellings(v: u128) -> Vec<String> {
    let h = hexes(v);
    let up = h.to_uppercase();
    let mixed: String =
        h.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
    let mut s = vec![h.clone(), up, mixed, format!("0{h}"), format!("{h:0>16}"), format!("{h:0>32}")];
    s.push(format!("{:0>40}", h));
    s.sort();
    s.dedup();
    s
}

type Made<T> = Vec<(String, cesride::Result<T>)>;

fn number(v: u128, o: &mut Obs) -> R {
    let (code, n) = smallest(v);
    let check = |how: &str, r: cesride::Result<Number>, code: &str, n: usize, o: &mut Obs| -> R {
        let x = es(r).map_err(|e| format!("{how}: {e}"))?;
        let (m, t) = spec::m_encode(code, &bytes(v, n)).unwrap();
        same!(es(x.num()), Ok(v), "{how}: num");
        same!(es(x.numh()), Ok(hexes(v)), "{how}: numh");
        same!(es(x.positive()), Ok(v > 0), "{how}: positive");
        same!(snap(&x), Ok(expected(&m, &t)), "{how}");
        o.steps(4);
        Ok(())
    };
    check("num", Number::new_with_num(v), code, n, o)?;
    check("new num", Number::new(Some(v), None, None, None, None, None, None), code, n, o)?;
    for h in spellings(v) {
        check(&format!("numh {h}"), Number::new_with_numh(&h), code, n, o)?;
        check(&format!("new numh {h}"), Number::new(None, Some(&h), None, None, None, None, None), code, n, o)?;
    }
    // every code wide enough carries the value
    for (code, n) in CODES.into_iter().filter(|c| c.1 >= smallest(v).1) {
        let raw = bytes(v, n);
        let (m, t) = spec::m_encode(code, &raw).unwrap();
        let e = expected(&m, &t);
        let made: Made<Number> = vec![
            ("raw".into(), Number::new_with_raw(&raw, Some(code))),
            ("qb64".into(), Number::new_with_qb64(&t)),
            ("qb64b".into(), Number::new_with_qb64b(t.as_bytes())),
            ("qb2".into(), Number::new_with_qb2(&e.qb2)),
            ("new raw".into(), Number::new(None, None, Some(code), Some(&raw), None, None, None)),
            ("new qb64b".into(), Number::new(None, None, None, None, Some(t.as_bytes()), None, None)),
            ("new qb64".into(), Number::new(None, None, None, None, None, Some(&t), None)),
            ("new qb2".into(), Number::new(None, None, None, None, None, None, Some(&e.qb2))),
        ];
        for (how, r) in made {
            check(&format!("{code} {how}"), r, code, n, o)?;
        }
        o.state((code, v));
    }
    check("default code", Number::new_with_raw(&bytes(v & 0xffff, 2), None).and_then(|x| Number::new_with_num(x.num()? | (v & !0xffff))), code, n, o)?;
    Ok(())
}

fn seqner(v: u128, o: &mut Obs) -> R {
    let raw = bytes(v, 16);
    let (m, t) = spec::m_encode("0A", &raw).unwrap();
    ensure!(t.len() == 24, "reference");
    let e = expected(&m, &t);
    let mut made: Made<Seqner> = vec![
        ("sn".into(), Seqner::new_with_sn(v)),
        ("new sn".into(), Seqner::new(Some(v), None, None, None, None, None, None)),
        ("new sn, code".into(), Seqner::new(Some(v), None, Some("0A"), None, None, None, None)),
        ("raw".into(), Seqner::new_with_raw(&raw, Some("0A"))),
        ("raw, default code".into(), Seqner::new_with_raw(&raw, None)),
        ("qb64".into(), Seqner::new_with_qb64(&t)),
        ("qb64b".into(), Seqner::new_with_qb64b(t.as_bytes())),
        ("qb2".into(), Seqner::new_with_qb2(&e.qb2)),
        ("new qb64b".into(), Seqner::new(None, None, None, None, Some(t.as_bytes()), None, None)),
        ("new qb64".into(), Seqner::new(None, None, None, None, None, Some(&t), None)),
        ("new qb2".into(), Seqner::new(None, None, None, None, None, None, Some(&e.qb2))),
    ];
    for h in spellings(v) {
        made.push((format!("snh {h}"), Seqner::new_with_snh(&h)));
        made.push((format!("new snh {h}"), Seqner::new(None, Some(&h), None, None, None, None, None)));
    }
    for (how, r) in made {
        let x = es(r).map_err(|e| format!("{how}: {e}"))?;
        same!(es(x.sn()), Ok(v), "{how}: sn");
        same!(es(x.snh()), Ok(hexes(v)), "{how}: snh");
        same!(snap(&x), Ok(e.clone()), "{how}");
        o.steps(3);
    }
    o.state(("seqner", v));
    Ok(())
}

/// None: not a hexadecimal number of at most 128 bits
fn parse(h: &str) -> Option<u128> {
    if h.is_empty() {
        return None;
    }
    let mut v: u128 = 0;
    for c in h.chars() {
        let d = match c {
            '0'..='9' => c as u32 - '0' as u32,
            'a'..='f' => c as u32 - 'a' as u32 + 10,
            'A'..='F' => c as u32 - 'A' as u32 + 10,
            _ => return None,
        };
        if v >> 124 != 0 {
            return None;
        }
        v = v << 4 | d as u128;
    }
    Some(v)
}

fn text(h: &str, o: &mut Obs) -> R {
    let want = if h.is_empty() { Some(0) } else { parse(h) };
    same!(Number::new_with_numh(h).ok().and_then(|n| n.num().ok()), want, "number from {h:?}");
    o.step();
    if !h.is_empty() {
        same!(Seqner::new_with_snh(h).ok().and_then(|n| n.sn().ok()), want, "sequence number from {h:?}");
        o.step();
    }
    o.state(h);
    Ok(())
}

pub fn run(ctx: &'static Ctx) {
    ctx.case(
        || "published names".into(),
        |o| {
            names!(o, cesride::number::Codex, Short "M", Long "0H", Big "N", Huge "0A");
            let mut all = vec![String::new(), "é".into(), "M ".into(), "0AA".into()];
            for a in spec::B64 {
                all.push((*a as char).into());
                for b in spec::B64 {
                    all.push(format!("{}{}", *a as char, *b as char));
                }
            }
            all.extend(spec::MATTER.iter().map(|c| c.code.to_string()));
            for t in &all {
                same!(cesride::number::Codex::has_code(t), ["M", "0H", "N", "0A"].contains(&&t[..]), "number code {t:?}");
                o.step();
            }
            Ok(())
        },
    );
    let mut vals: BTreeSet<u128> = (0..=ctx.pick(65536u128 + 256, (1 << 22) + 256)).collect();
    let near = ctx.pick(2i128, 300);
    for b in 0..=128u32 {
        let p = if b == 128 { 0u128 } else { 1u128 << b };
        for d in -near..=near {
            vals.insert(p.wrapping_add(d as u128));
        }
        // two bits set, and a run of ones
        for c in 0..b.min(127) {
            vals.insert(p.wrapping_add(1u128 << c));
            vals.insert(p.wrapping_sub(1u128 << c));
        }
    }
    // one hex digit, and one byte, in each place; the same digit everywhere below
    for place in 0..32u32 {
        for d in 0..16u128 {
            vals.insert(d << (4 * place));
            vals.insert(u128::MAX ^ (d << (4 * place)));
            vals.insert((0..=place).fold(0u128, |a, _| a << 4 | d));
        }
    }
    for byte in 0..16u32 {
        for d in 0..256u128 {
            vals.insert(d << (8 * byte));
            vals.insert(u128::MAX ^ (d << (8 * byte)));
        }
    }
    let mut p = 1u128;
    while let Some(q) = p.checked_mul(10) {
        vals.extend([p - 1, p, p + 1]);
        p = q;
    }
    let vals: Vec<u128> = vals.into_iter().collect();
    ctx.par(vals.len(), |i| {
        ctx.case(|| format!("number {}", vals[i]), |o| number(vals[i], o));
        ctx.case(|| format!("sequence number {}", vals[i]), |o| seqner(vals[i], o));
    });
    ctx.section("values");

    // texts
    let mut chars: Vec<char> = (0x20u8..0x7f).map(|c| c as char).filter(|c| *c != '+').collect();
    chars.extend(['\0', '\n', '\t', '\u{7f}', 'é', '٣', '２', '１', '𝟙', '−']);
    let mut texts: BTreeSet<String> = [String::new()].into();
    for a in &chars {
        texts.insert(a.to_string());
        for b in &chars {
            texts.insert(format!("{a}{b}"));
        }
    }
    let few: Vec<char> = ctx.pick("0178aAfFgG-_ xX.é".chars().collect(), chars.clone());
    for a in &few {
        for b in &few {
            for c in &few {
                texts.insert(format!("{a}{b}{c}"));
            }
        }
    }
    // one foreign character in each place of numbers of every length, and lengths around the limit
    for len in 1..=40usize {
        for fill in ["1", "f", "0", "F", "8"] {
            let s = fill.repeat(len);
            texts.insert(s.clone());
            texts.insert(format!("0{s}"));
            texts.insert(format!("00000000{s}"));
            texts.insert(format!("0x{s}"));
            texts.insert(format!("-{s}"));
            for at in 0..=len {
                for c in ["g", "-", " ", "_", ".", "+", "\0", "é", "G", "\n", "h"] {
                    if c == "+" && at == 0 {
                        continue;
                    }
                    texts.insert(format!("{}{c}{}", &s[..at], &s[at..]));
                }
                for d in ["0", "1", "7", "9", "a", "f", "A", "F"] {
                    texts.insert(format!("{}{d}{}", &s[..at], &s[at..]));
                }
            }
        }
    }
    let texts: Vec<String> = texts.into_iter().collect();
    ctx.par(texts.len(), |i| {
        ctx.case(|| format!("hex text {:?}", texts[i]), |o| text(&texts[i], o));
    });
    ctx.section("texts");

    // raw material that is too short for its code; nothing given at all
    for (code, n) in CODES {
        for len in 0..n {
            ctx.case(
                || format!("{code} from {len} bytes"),
                |o| {
                    let raw = spec::filler(len, 3);
                    ensure!(Number::new_with_raw(&raw, Some(code)).is_err(), "number accepted");
                    ensure!(Seqner::new_with_raw(&raw, Some(code)).is_err(), "sequence number accepted");
                    o.steps(2);
                    Ok(())
                },
            );
        }
    }
    ctx.case(
        || "no argument".into(),
        |o| {
            same!(es(es(Number::new(None, None, None, None, None, None, None))?.num()), Ok(0), "number");
            same!(es(es(Seqner::new(None, None, None, None, None, None, None))?.sn()), Ok(0), "sequence number");
            o.steps(2);
            Ok(())
        },
    );
    ctx.section("short and absent");
}
