//! C20: datetimes.
use super::types::*;
use super::*;
use crate::ctx::{Ctx, Obs, R};
use crate::{ensure, same, spec};
use cesride::Dater;
use std::collections::BTreeSet;

fn carried(c: char) -> Option<char> {
    match c {
        ':' => Some('c'),
        '.' => Some('d'),
        '+' => Some('p'),
        'c' | 'd' | 'p' => None,
        '-' | '_' => Some(c),
        _ if c.is_ascii_alphanumeric() => Some(c),
        _ => None,
    }
}

fn encode(dts: &str) -> Option<String> {
    if dts.len() != 32 {
        return None;
    }
    Some("1AAG".to_string() + &dts.chars().map(carried).collect::<Option<String>>()?)
}

fn decode(text: &str) -> String {
    text[4..36]
        .chars()
        .map(|c| match c {
            'c' => ':',
            'd' => '.',
            'p' => '+',
            c => c,
        })
        .collect()
}

fn digits(s: &str) -> Option<u32> {
    if s.bytes().all(|b| b.is_ascii_digit()) {
        s.parse().ok()
    } else {
        None
    }
}

/// a date and time of the profile?
fn profile(s: &str) -> bool {
    let b = s.as_bytes();
    if b.len() != 32 || !s.is_ascii() {
        return false;
    }
    for (i, c) in [(4, b'-'), (7, b'-'), (10, b'T'), (13, b':'), (16, b':'), (19, b'.'), (29, b':')] {
        if b[i] != c {
            return false;
        }
    }
    if b[26] != b'+' && b[26] != b'-' {
        return false;
    }
    let f = |a: usize, n: usize| digits(&s[a..a + n]);
    let (Some(y), Some(mo), Some(d), Some(h), Some(mi), Some(sec), Some(_), Some(oh), Some(om)) =
        (f(0, 4), f(5, 2), f(8, 2), f(11, 2), f(14, 2), f(17, 2), f(20, 6), f(27, 2), f(30, 2))
    else {
        return false;
    };
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let days = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    (1..=12).contains(&mo)
        && d >= 1
        && d <= days[mo as usize - 1]
        && h < 24
        && mi < 60
        && sec < 60
        && oh < 24
        && om < 60
}

fn agree(how: &str, x: &Dater, dts: &str, t: &str, o: &mut Obs) -> R {
    let m = spec::m_parse(t.as_bytes()).ok_or("reference cannot read its own text")?;
    same!(es(x.dts()), Ok(dts.to_string()), "{how}: dts");
    same!(es(x.dtsb()), Ok(dts.as_bytes().to_vec()), "{how}: dtsb");
    same!(snap(x), Ok(expected(&m, t)), "{how}");
    o.steps(3);
    Ok(())
}

fn routes(t: &str) -> Vec<(&'static str, cesride::Result<Dater>)> {
    let m = spec::m_parse(t.as_bytes()).unwrap();
    let bin = spec::dec4(t.as_bytes()).unwrap();
    vec![
        ("raw", Dater::new_with_raw(&m.raw, Some("1AAG"))),
        ("raw, default code", Dater::new_with_raw(&m.raw, None)),
        ("qb64", Dater::new_with_qb64(t)),
        ("qb64b", Dater::new_with_qb64b(t.as_bytes())),
        ("qb2", Dater::new_with_qb2(&bin)),
        ("new raw", Dater::new(None, None, Some(&m.raw), None, None, None)),
        ("new qb64b", Dater::new(None, None, None, Some(t.as_bytes()), None, None)),
        ("new qb64", Dater::new(None, None, None, None, Some(t), None)),
        ("new qb2", Dater::new(None, None, None, None, None, Some(&bin))),
    ]
}

/// a text of the profile: every way of building and reading agrees
fn valid(dts: &str, o: &mut Obs) -> R {
    let t = encode(dts).ok_or("reference cannot encode")?;
    for (how, r) in [
        ("dts", Dater::new_with_dts(dts, None)),
        ("dts, code", Dater::new_with_dts(dts, Some("1AAG"))),
        ("new dts", Dater::new(Some(dts), None, None, None, None, None)),
    ] {
        agree(how, &es(r)?, dts, &t, o)?;
    }
    for (how, r) in routes(&t) {
        agree(how, &es(r)?, dts, &t, o)?;
    }
    o.state(dts);
    Ok(())
}

/// any other text: rejected, or carried exactly
fn any(dts: &str, o: &mut Obs) -> R {
    let r = Dater::new_with_dts(dts, None);
    o.step();
    match encode(dts) {
        None => ensure!(r.is_err(), "accepted a text that cannot be carried"),
        Some(t) => {
            if profile(dts) {
                return valid(dts, o);
            }
            if let Ok(x) = r {
                agree("dts", &x, dts, &t, o)?;
            }
        }
    }
    o.state(dts);
    Ok(())
}

/// any encoded text: rejected, or carried exactly
fn encoded(t: &str, o: &mut Obs) -> R {
    let r = [
        ("qb64", Dater::new_with_qb64(t)),
        ("qb64b", Dater::new_with_qb64b(t.as_bytes())),
        ("new qb64", Dater::new(None, None, None, None, Some(t), None)),
        ("new qb64b", Dater::new(None, None, None, Some(t.as_bytes()), None, None)),
    ];
    let ok = spec::m_parse(t.as_bytes()).is_some_and(|m| m.code == "1AAG");
    for (how, r) in r {
        o.step();
        if !ok {
            ensure!(r.is_err(), "{how}: accepted");
        } else {
            let dts = decode(t);
            match r {
                Ok(x) => agree(how, &x, &dts, &t[..36], o)?,
                Err(e) => ensure!(!profile(&dts), "{how}: {e}"),
            }
        }
    }
    o.state(t);
    Ok(())
}

/// built without a text, while the clock shows this instant
fn present(s: i64, n: i64, o: &mut Obs) -> R {
    // proleptic Gregorian date of the day (days counted in eras of 400 years from 0000-03-01)
    let z = s / 86_400 + 719_468;
    let (era, doe) = (z / 146_097, z % 146_097);
    let yoe = (doe - doe / 1_460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let (d, m) = (doy - (153 * mp + 2) / 5 + 1, if mp < 10 { mp + 3 } else { mp - 9 });
    let y = era * 400 + yoe + i64::from(m <= 2);
    let t = s % 86_400;
    let want = format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}.{:06}+00:00", t / 3_600, t / 60 % 60, t % 60, n / 1_000);
    ensure!(profile(&want), "not of the profile: {want}");
    crate::clock::set(Some((s, n)));
    let r = crate::ctx::guard(|| {
        [("none", Dater::new(None, None, None, None, None, None)), ("code", Dater::new(None, Some("1AAG"), None, None, None, None))]
    });
    crate::clock::set(None);
    for (how, x) in r? {
        o.step();
        agree(how, &es(x)?, &want, &encode(&want).unwrap(), o)?;
    }
    o.state(&want);
    Ok(())
}

pub fn run(ctx: &'static Ctx) {
    // a local time that is not the universal one
    std::env::set_var("TZ", "<+0530>-5:30");
    let years: &[u32] = ctx.pick(
        &[0, 1, 1582, 1900, 1970, 2000, 2023, 2024, 2100, 9999],
        &[0, 1, 4, 100, 400, 1582, 1899, 1900, 1970, 1999, 2000, 2020, 2023, 2024, 2038, 2100, 4000, 9998, 9999],
    );
    let hours: &[u32] = ctx.pick(&[0, 9, 12, 23], &[0, 1, 9, 10, 12, 19, 20, 23]);
    let mins: &[u32] = ctx.pick(&[0, 59], &[0, 9, 30, 59]);
    let micros: &[u32] = ctx.pick(&[0, 1, 123456, 999999], &[0, 1, 10, 99999, 100000, 123456, 999999]);
    let offs: &[(u32, u32)] = &[(0, 0), (5, 30), (14, 0), (23, 59)];
    let mut dates = vec![];
    for y in years {
        for m in 1..=12u32 {
            let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
            let last = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1];
            for d in [1, 9, 10, 28, last] {
                dates.push(format!("{y:04}-{m:02}-{d:02}"));
            }
        }
    }
    dates.sort();
    dates.dedup();
    let mut rest = vec![];
    for h in hours {
        for m in mins {
            for s in mins {
                for u in micros {
                    for (oh, om) in offs {
                        for sign in ["+", "-"] {
                            rest.push(format!("T{h:02}:{m:02}:{s:02}.{u:06}{sign}{oh:02}:{om:02}"));
                        }
                    }
                }
            }
        }
    }
    // every date with a few times, every time with a few dates, in thorough all with all
    let all: Vec<String> = if ctx.thorough {
        dates.iter().flat_map(|d| rest.iter().step_by(7).map(move |r| format!("{d}{r}"))).chain(
            dates.iter().step_by(37).flat_map(|d| rest.iter().map(move |r| format!("{d}{r}")))).collect()
    } else {
        dates.iter().flat_map(|d| rest.iter().step_by(101).map(move |r| format!("{d}{r}"))).chain(
            dates.iter().step_by(97).flat_map(|d| rest.iter().map(move |r| format!("{d}{r}")))).collect()
    };
    ctx.par(all.len(), |i| {
        ctx.case(|| format!("datetime {}", all[i]), |o| valid(&all[i], o));
    });
    ctx.section("calendar");

    // every value of every field
    let mut fields = vec![];
    let base = "2020-08-22T17:50:09.988921+00:00";
    let mut put = |at: usize, s: String| {
        let mut t = base.to_string();
        t.replace_range(at..at + s.len(), &s);
        if profile(&t) {
            fields.push(t);
        }
    };
    for y in 0..10000 {
        put(0, format!("{y:04}"));
    }
    for n in 0..100 {
        for at in [5, 8, 11, 14, 17, 27, 30] {
            put(at, format!("{n:02}"));
        }
    }
    for k in 0..6 {
        for d in 0..10 {
            put(20 + k, format!("{d}"));
        }
    }
    put(26, "-".into());
    ctx.par(fields.len(), |i| {
        ctx.case(|| format!("datetime {}", fields[i]), |o| valid(&fields[i], o));
    });
    ctx.section("single fields");

    // deviations
    let bases = [base, "1999-12-31T23:59:59.999999-14:00", "0001-01-01T00:00:00.000000+05:30"];
    let mut chars: Vec<char> = (0u8..128).map(|c| c as char).collect();
    chars.extend(['\u{80}', 'é', 'Ａ', '٣', '\u{2013}', '\u{1F600}']);
    let mut texts = BTreeSet::new();
    for b in bases {
        for len in 0..=b.len() {
            texts.insert(b[..len].to_string());
            texts.insert(b[len..].to_string());
        }
        for at in 0..=b.len() {
            for c in &chars {
                texts.insert(format!("{}{c}{}", &b[..at], &b[at..]));
                if at < b.len() {
                    texts.insert(format!("{}{c}{}", &b[..at], &b[at + 1..]));
                    // of the right byte length again
                    let n = c.len_utf8();
                    if at + n <= b.len() {
                        texts.insert(format!("{}{c}{}", &b[..at], &b[at + n..]));
                    }
                }
            }
            if at < b.len() {
                texts.insert(format!("{}{}", &b[..at], &b[at + 1..]));
            }
        }
        for n in 1..=40 {
            texts.insert(format!("{b}{}", "0".repeat(n)));
            texts.insert(format!("{b}{}", &b.repeat(2)[..n]));
        }
        let pair: Vec<char> = ctx.pick("cdp:.+-0AT=/ é".chars().collect(), "cdp:.+-09AZaz_T=/ ,é".chars().collect());
        for at in 0..32 {
            for bt in at + 1..32 {
                for c in &pair {
                    for d in &pair {
                        let t: String = b
                            .chars()
                            .enumerate()
                            .map(|(i, x)| if i == at { *c } else if i == bt { *d } else { x })
                            .collect();
                        texts.insert(t);
                    }
                }
            }
        }
    }
    let texts: Vec<String> = texts.into_iter().collect();
    ctx.par(texts.len(), |i| {
        ctx.case(|| format!("text {:?}", texts[i]), |o| any(&texts[i], o));
    });
    ctx.section("texts one and two characters off");

    let mut texts = BTreeSet::new();
    for b in bases {
        let b = encode(b).unwrap();
        for len in 0..=b.len() {
            texts.insert(b[..len].to_string());
        }
        for at in 0..=b.len() {
            for c in &chars {
                texts.insert(format!("{}{c}{}", &b[..at], &b[at..]));
                if at < b.len() {
                    texts.insert(format!("{}{c}{}", &b[..at], &b[at + 1..]));
                }
            }
        }
    }
    let texts: Vec<String> = texts.into_iter().collect();
    ctx.par(texts.len(), |i| {
        ctx.case(|| format!("encoded {:?}", texts[i]), |o| encoded(&texts[i], o));
    });
    ctx.section("encoded texts one character off");

    // every day, and every kind of instant in some days
    let mut instants = BTreeSet::new();
    let last = 253_402_300_799i64; // 9999-12-31T23:59:59
    let days = ctx.pick(60_000i64, last / 86_400);
    for d in 0..=days {
        for (k, s) in [0i64, 86_399].into_iter().enumerate() {
            instants.insert((d * 86_400 + s, [0i64, 999_999_999][k]));
        }
    }
    let nanos = [0i64, 1, 999, 1_000, 1_001, 9_999, 99_999, 100_000, 999_999, 1_000_000, 9_999_000, 50_000_000, 123_456_789, 500_000_000, 999_999_000, 999_999_999];
    for d in [0i64, 1, 58, 59, 60, 364, 365, 789, 10_956, 10_957, 11_015, 11_016, 11_017, 19_782, 20_000, 47_540, 47_541, last / 86_400] {
        for s in (0..86_400).step_by(ctx.pick(61, 7)) {
            instants.insert((d * 86_400 + s, 987_654_321));
        }
        for s in [0, 1, 59, 60, 3_599, 3_600, 35_999, 36_000, 43_200, 86_399] {
            for n in nanos {
                instants.insert((d * 86_400 + s, n));
            }
        }
    }
    for p in 0..38 {
        for d in -1..=1 {
            let t = (1i64 << p) + d;
            if (0..=last).contains(&t) {
                instants.insert((t, 1_000));
            }
        }
    }
    let instants: Vec<(i64, i64)> = instants.into_iter().collect();
    ctx.par(instants.len(), |i| {
        let (s, n) = instants[i];
        ctx.case(|| format!("made {s}.{n:09} s after the epoch"), |o| present(s, n, o));
    });
    ctx.section("the present time");
}
