//! C13: thresholds, against exact arithmetic on integers.
use super::docs::{back, dump, val};
use super::types::*;
use super::*;
use crate::ctx::{Ctx, Obs, R};
use crate::{ensure, same, spec};
use cesride::{Matter, Tholder};
use serde_json::{json, Value as J};

#[derive(Clone, Debug, PartialEq)]
enum T {
    N(u32),
    /// clauses of reduced fractions
    W(Vec<Vec<(u128, u128)>>),
}

fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

pub fn reduce(f: (u128, u128)) -> (u128, u128) {
    let g = gcd(f.0, f.1);
    (f.0 / g, f.1 / g)
}

/// sum of reduced fractions reaches one; None when it leaves 128 bits
pub fn reaches(ws: &[(u128, u128)]) -> Option<bool> {
    let (mut n, mut d) = (0u128, 1u128);
    for (a, b) in ws {
        if *a == 0 {
            continue;
        }
        let g = gcd(d, *b);
        let l = d.checked_mul(b / g)?;
        n = n.checked_mul(l / d)?.checked_add(a.checked_mul(l / b)?)?;
        d = l;
        (n, d) = reduce((n, d));
    }
    Some(n >= d)
}

fn wtext(f: &(u128, u128)) -> String {
    match f {
        (n, 1) => n.to_string(),
        (n, d) => format!("{n}/{d}"),
    }
}

impl T {
    fn thold(&self) -> J {
        match self {
            T::N(n) => json!(n),
            T::W(c) => J::Array(c.iter().map(|c| J::Array(c.iter().map(|w| json!(wtext(w))).collect())).collect()),
        }
    }
    fn sith(&self) -> J {
        match self {
            T::N(n) => json!(format!("{n:x}")),
            T::W(c) if c.len() == 1 => self.thold()[0].clone(),
            _ => self.thold(),
        }
    }
    fn size(&self) -> u32 {
        match self {
            T::N(n) => *n,
            T::W(c) => c.iter().map(|c| c.len() as u32).sum(),
        }
    }
    fn limen(&self) -> String {
        match self {
            T::N(n) => {
                let (code, len) = if *n < 65536 { ("M", 2) } else { ("0H", 4) };
                spec::m_encode(code, &n.to_be_bytes()[4 - len..]).unwrap().1
            }
            T::W(c) => {
                let t: Vec<String> = c
                    .iter()
                    .map(|c| c.iter().map(|w| wtext(w).replace('/', "s")).collect::<Vec<_>>().join("c"))
                    .collect();
                bext(&t.join("a"))
            }
        }
    }
    fn satisfied(&self, idx: &[u32]) -> bool {
        let mut set: Vec<u32> = idx.to_vec();
        set.sort();
        set.dedup();
        match self {
            T::N(n) => *n > 0 && set.len() as u64 >= *n as u64,
            T::W(c) => {
                if set.iter().any(|i| *i >= self.size()) {
                    return false;
                }
                let mut at = 0;
                for c in c {
                    let ws: Vec<(u128, u128)> = c
                        .iter()
                        .enumerate()
                        .filter(|(k, _)| set.contains(&(at + *k as u32)))
                        .map(|(_, w)| *w)
                        .collect();
                    if !reaches(&ws).expect("reference out of range") {
                        return false;
                    }
                    at += c.len() as u32;
                }
                true
            }
        }
    }
}

/// text of base64 characters as variable size material
pub fn bext(t: &str) -> String {
    let ts = t.len() % 4;
    let ws = (4 - ts) % 4;
    let ls = (3 - ts) % 3;
    let d = spec::dec4(format!("{}{t}", "A".repeat(ws)).as_bytes()).unwrap();
    spec::m_encode("4A", &d[ls..]).unwrap().1
}

fn built(t: &Tholder) -> Result<(bool, u32, Option<u32>, String, String, String, String, String), String> {
    Ok((
        t.weighted(),
        t.size(),
        es(t.num())?,
        dump(&back(&t.thold())?),
        dump(&back(&es(t.sith())?)?),
        es(t.to_json())?,
        String::from_utf8(es(t.limen())?).unwrap(),
        match (t.number(), t.bexter()) {
            (Some(n), None) => es(n.qb64())?,
            (None, Some(b)) => es(b.qb64())?,
            _ => return Err("neither number nor text, or both".into()),
        },
    ))
}

/// everything readable, and rebuilding from every form
fn forms(t: &T, inputs: &[J], o: &mut Obs) -> Result<Tholder, String> {
    let want = (
        matches!(t, T::W(_)),
        t.size(),
        match t {
            T::N(n) => Some(*n),
            _ => None,
        },
        dump(&t.thold()),
        dump(&t.sith()),
        dump(&t.sith()),
        t.limen(),
        t.limen(),
    );
    let first = es(Tholder::new_with_sith(&val(&inputs[0])))?;
    for j in inputs {
        let x = es(Tholder::new_with_sith(&val(j))).map_err(|e| format!("sith {}: {e}", dump(j)))?;
        same!(built(&x), Ok(want.clone()), "from sith {}", dump(j));
        o.step();
    }
    let a = es(Tholder::new_with_thold(&val(&t.thold())))?;
    let b = es(Tholder::new_with_limen(t.limen().as_bytes()))?;
    let c = es(Tholder::new_with_sith(&val(&t.sith())))?;
    let d = es(Tholder::new_with_sith(&val(&json!(dump(&t.thold())))));
    let e = es(Tholder::new(Some(&val(&t.thold())), None, None))?;
    let f = es(Tholder::new(None, Some(t.limen().as_bytes()), None))?;
    let g = es(Tholder::new(None, None, Some(&val(&t.sith()))))?;
    for (how, x) in [("thold", &a), ("limen", &b), ("sith", &c), ("new thold", &e), ("new limen", &f), ("new sith", &g)] {
        same!(built(x), Ok(want.clone()), "from {how}");
        same!(*x, first, "threshold from {how}");
        o.step();
    }
    if want.0 {
        same!(built(&d?), Ok(want), "from JSON text");
    }
    o.state(dump(&t.thold()));
    Ok(first)
}

fn subsets(t: &T, th: &Tholder, o: &mut Obs) -> R {
    let n = t.size();
    for set in 0u32..1 << n {
        let idx: Vec<u32> = (0..n).filter(|i| set >> i & 1 == 1).collect();
        same!(es(th.satisfy(&idx)), Ok(t.satisfied(&idx)), "indices {idx:?}");
        o.step();
    }
    // one index outside: next to the last, and where it would wrap to one inside
    let mut idx: Vec<u32> = (0..n).collect();
    let outs = (0..32).flat_map(|p| [0, 1, n - 1, n].map(|d| (1u32 << p).wrapping_add(d)));
    for out in outs.chain([n, n + 1, 1000, u32::MAX - n, u32::MAX - 1, u32::MAX]) {
        if out >= n {
            idx.push(out);
            same!(es(th.satisfy(&idx)), Ok(t.satisfied(&idx)), "indices {idx:?}");
            idx.pop();
            same!(es(th.satisfy(&[out])), Ok(t.satisfied(&[out])), "index {out}");
            o.steps(2);
        }
    }
    Ok(())
}

fn sequences(t: &T, th: &Tholder, base: &[u32], len: usize, o: &mut Obs) -> R {
    let mut seqs: Vec<Vec<u32>> = vec![vec![]];
    let mut last = seqs.clone();
    for _ in 0..len {
        let mut next = vec![];
        for s in &last {
            for i in base {
                let mut x = s.clone();
                x.push(*i);
                next.push(x);
            }
        }
        seqs.extend(next.iter().cloned());
        last = next;
    }
    for s in &seqs {
        same!(es(th.satisfy(s)), Ok(t.satisfied(s)), "indices {s:?}");
        o.step();
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    // numbers
    let mut nums: Vec<u32> = (0..ctx.pick(600, 5000)).collect();
    for p in 8..32 {
        for d in [-1i64, 0, 1] {
            nums.push(((1i64 << p) + d) as u32);
        }
    }
    nums.extend([u32::MAX - 1, u32::MAX]);
    nums.sort();
    nums.dedup();
    ctx.par(nums.len(), |i| {
        let n = nums[i];
        ctx.case(
            || format!("numeric threshold {n}"),
            |o| {
                let t = T::N(n);
                let th = forms(&t, &[json!(n), json!(format!("{n:x}")), json!(format!("{n:X}")), json!(format!("0{n:x}"))], o)?;
                if n < 20 {
                    for k in 0..25u32 {
                        for step in [1u32, 7, 1 << 6, 1 << 8, 1 << 16, 1 << 20, 1 << 27] {
                            let idx: Vec<u32> = (0..k).map(|i| i * step).collect();
                            same!(es(th.satisfy(&idx)), Ok(t.satisfied(&idx)), "{k} indices");
                            let twice = [&idx[..], &idx[..]].concat();
                            same!(es(th.satisfy(&twice)), Ok(t.satisfied(&idx)), "{k} indices, twice");
                            let rev: Vec<u32> = idx.iter().rev().cloned().collect();
                            same!(es(th.satisfy(&rev)), Ok(t.satisfied(&idx)), "{k} indices, backwards");
                            let many = vec![3; k as usize];
                            same!(es(th.satisfy(&many)), Ok(t.satisfied(&many)), "one index {k} times");
                            o.steps(4);
                        }
                    }
                } else {
                    let k = n.min(3000);
                    let idx: Vec<u32> = (0..k).collect();
                    same!(es(th.satisfy(&idx)), Ok(t.satisfied(&idx)), "{k} indices");
                    same!(es(th.satisfy(&idx[1..])), Ok(t.satisfied(&idx[1..])), "one less");
                    let rep = [&idx[1..], &idx[1..3]].concat();
                    same!(es(th.satisfy(&rep)), Ok(t.satisfied(&rep)), "one less, some twice");
                    o.steps(3);
                }
                Ok(())
            },
        );
    });
    ctx.par(8, |n| {
        for lead in 0..4u32 {
            ctx.case(
                || format!("numeric threshold {n}, all sequences of indices from {lead}"),
                |o| {
                    let t = T::N(n as u32);
                    let th = es(Tholder::new_with_sith(&val(&json!(n))))?;
                    let base: Vec<u32> = (0..ctx.pick(5, 6)).map(|k| k + lead * 61).collect();
                    sequences(&t, &th, &base, ctx.pick(6, 7), o)
                },
            );
        }
    });
    ctx.section("numeric thresholds");

    // all weighted thresholds over small fractions
    let ws: Vec<(u128, u128)> =
        ctx.pick(vec![(0, 1), (1, 1), (1, 2), (1, 3), (2, 3)], vec![(0, 1), (1, 1), (1, 2), (1, 3), (2, 3), (1, 4), (3, 4)]);
    let mut clauses: Vec<Vec<(u128, u128)>> = vec![];
    let mut last: Vec<Vec<(u128, u128)>> = vec![vec![]];
    for _ in 0..3 {
        let mut next = vec![];
        for c in &last {
            for w in &ws {
                let mut x = c.clone();
                x.push(*w);
                next.push(x);
            }
        }
        clauses.extend(next.iter().cloned());
        last = next;
    }
    let good: Vec<Vec<(u128, u128)>> = clauses.iter().filter(|c| reaches(c).unwrap()).cloned().collect();
    let bad: Vec<Vec<(u128, u128)>> = clauses.iter().filter(|c| !reaches(c).unwrap()).cloned().collect();
    let g = good.len();
    ctx.par(g * (g + 1), |i| {
        let (a, b) = (i % g, i / g);
        let t = if b == g { T::W(vec![good[a].clone()]) } else { T::W(vec![good[a].clone(), good[b].clone()]) };
        ctx.case(
            || format!("weighted threshold {}", dump(&t.thold())),
            |o| {
                let mut inputs = vec![t.thold(), json!(dump(&t.thold()))];
                if b == g {
                    inputs.push(t.thold()[0].clone());
                    inputs.push(json!(dump(&t.thold()[0])));
                }
                let th = forms(&t, &inputs, o)?;
                subsets(&t, &th, o)?;
                if b == g {
                    let base: Vec<u32> = (0..=t.size()).collect();
                    sequences(&t, &th, &base, 4, o)?;
                }
                Ok(())
            },
        );
    });
    ctx.section("weighted thresholds of one and two clauses");

    // many clauses: every one of them must reach one
    let kinds: Vec<Vec<(u128, u128)>> = vec![vec![(1, 1)], vec![(1, 2), (1, 2)], vec![(1, 2), (1, 2), (1, 2)], vec![(0, 1), (1, 1)], vec![(2, 3), (1, 3), (1, 3)]];
    let lens: Vec<usize> = (4..=20).chain(ctx.pick(vec![31, 32, 33, 64, 65, 100, 127, 128, 129], (21..=70).chain([127, 128, 129, 255, 256, 257]).collect())).collect();
    ctx.par(lens.len() * (kinds.len() + 1), |i| {
        let (n, k) = (lens[i % lens.len()], i / lens.len());
        let t = T::W((0..n).map(|c| kinds[if k == kinds.len() { c % k } else { k }].clone()).collect());
        ctx.case(
            || format!("weighted threshold of {n} clauses {}", sh(&dump(&t.thold()))),
            |o| {
                let th = forms(&t, &[t.thold()], o)?;
                let all: Vec<u32> = (0..t.size()).collect();
                same!(es(th.satisfy(&all)), Ok(true), "all");
                same!(es(th.satisfy(&[])), Ok(false), "none");
                for gone in &all {
                    for other in [None, Some((*gone + 1) % t.size()), Some((*gone + 7) % t.size())] {
                        let idx: Vec<u32> = all.iter().cloned().filter(|x| x != gone && Some(*x) != other).rev().collect();
                        same!(es(th.satisfy(&idx)), Ok(t.satisfied(&idx)), "all but {gone} and {other:?}");
                        o.step();
                    }
                }
                Ok(())
            },
        );
    });
    // long clauses: any two keys of each suffice
    let long: Vec<usize> = ctx.pick(vec![127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025], (120..=1030).collect());
    ctx.par(long.len() * 3, |i| {
        let (n, k) = (long[i / 3], i % 3);
        ctx.case(
            || format!("weighted threshold of {n} halves, shape {k}"),
            |o| {
                let h = vec![(1, 2); n];
                let t = T::W(match k {
                    0 => vec![h],
                    1 => vec![h, vec![(1, 1)]],
                    _ => vec![vec![(1, 2), (1, 2), (1, 2)], h],
                });
                let th = forms(&t, &[t.thold()], o)?;
                same!(th.size(), t.size(), "size");
                let mut at: Vec<u32> = vec![0, 1, 2, 3, 4];
                for b in [127u32, 255, 256, 511, 512, n as u32 - 2, t.size() - 3] {
                    at.extend(b..b + 4);
                }
                at.sort();
                at.dedup();
                for x in &at {
                    for y in &at {
                        for idx in [vec![*x, *y], vec![0, 1, *x, *y], vec![*x, 0, n as u32, *y, 1]] {
                            same!(es(th.satisfy(&idx)), Ok(t.satisfied(&idx)), "by {idx:?}");
                            o.step();
                        }
                    }
                }
                o.state((n, k));
                Ok(())
            },
        );
    });
    ctx.section("weighted thresholds of many clauses");

    // three clauses
    let few: Vec<Vec<(u128, u128)>> = good.iter().filter(|c| c.len() <= 2).cloned().collect();
    let f = few.len();
    ctx.par(f * f * f, |i| {
        let t = T::W(vec![few[i % f].clone(), few[i / f % f].clone(), few[i / f / f].clone()]);
        ctx.case(
            || format!("weighted threshold {}", dump(&t.thold())),
            |o| {
                let th = forms(&t, &[t.thold()], o)?;
                subsets(&t, &th, o)
            },
        );
    });
    ctx.section("weighted thresholds of three clauses");

    // clauses that cannot reach one, alone and beside good ones
    ctx.par(bad.len(), |i| {
        let b = &bad[i];
        let bj = T::W(vec![b.clone()]).thold()[0].clone();
        ctx.case(
            || format!("weak clause {}", dump(&bj)),
            |o| {
                let fine = json!(["1"]);
                for j in [json!([bj]), bj.clone(), json!([fine, bj]), json!([bj, fine]), json!([fine, bj, fine]), json!(dump(&bj)), json!(dump(&json!([bj])))] {
                    ensure!(Tholder::new_with_sith(&val(&j)).is_err(), "accepted as sith {}", dump(&j));
                    o.step();
                    if j[0].is_array() {
                        ensure!(Tholder::new_with_thold(&val(&j)).is_err(), "accepted as thold {}", dump(&j));
                        o.step();
                    }
                }
                ensure!(Tholder::new_with_limen(T::W(vec![b.clone()]).limen().as_bytes()).is_err(), "accepted as limen");
                o.state(dump(&bj));
                Ok(())
            },
        );
    });
    ctx.section("clauses that cannot reach one");

    // fractions that floating point or machine words get wrong: n weights of 1/n are all needed
    ctx.par(ctx.pick(130, 400), |i| {
        let n = i as u128 + 1;
        ctx.case(
            || format!("{n} weights of 1/{n}"),
            |o| {
                let t = T::W(vec![vec![reduce((1, n)); n as usize]]);
                let th = forms(&t, &[t.thold()], o)?;
                let all: Vec<u32> = (0..n as u32).collect();
                same!(es(th.satisfy(&all)), Ok(true), "all");
                for k in 0..n as usize {
                    let mut idx = all.clone();
                    idx.remove(k);
                    same!(es(th.satisfy(&idx)), Ok(false), "all but {k}");
                    idx.extend_from_slice(&idx.clone());
                    same!(es(th.satisfy(&idx)), Ok(false), "all but {k}, twice");
                    o.steps(2);
                }
                // with a second clause after it, and with slack
                let t = T::W(vec![vec![reduce((1, n)); n as usize + 1], vec![(1, 1), (1, 1)]]);
                let th = forms(&t, &[t.thold()], o)?;
                for k in 0..(n + 1) as u32 {
                    for second in [vec![], vec![n as u32 + 1], vec![n as u32 + 2]] {
                        let mut idx: Vec<u32> = (0..(n + 1) as u32).filter(|x| *x != k).collect();
                        idx.extend(second);
                        same!(es(th.satisfy(&idx)), Ok(t.satisfied(&idx)), "all but {k}");
                        o.step();
                    }
                }
                Ok(())
            },
        );
    });
    // pairs of fractions just under, at and over one
    let dmax = ctx.pick(24u128, 60);
    ctx.par((dmax * dmax) as usize, |i| {
        let (d1, d2) = (i as u128 % dmax + 1, i as u128 / dmax + 1);
        ctx.case(
            || format!("pairs of fractions over {d1} and {d2}"),
            |o| {
                for n1 in 0..=d1 {
                    for n2 in 0..=d2 {
                        let raw = json!([[format!("{n1}/{d1}"), format!("{n2}/{d2}")]]);
                        let t = T::W(vec![vec![reduce((n1, d1)), reduce((n2, d2))]]);
                        let got = Tholder::new_with_sith(&val(&raw));
                        o.step();
                        let T::W(c) = &t else { unreachable!() };
                        if reaches(&c[0]).unwrap() {
                            let th = es(got)?;
                            same!(dump(&back(&th.thold())?), dump(&t.thold()), "thold of {}", dump(&raw));
                            for idx in [&[][..], &[0], &[1], &[0, 1], &[1, 0], &[0, 0], &[2]] {
                                same!(es(th.satisfy(idx)), Ok(t.satisfied(idx)), "{} by {idx:?}", dump(&raw));
                                o.step();
                            }
                            let again = es(Tholder::new_with_limen(&es(th.limen())?))?;
                            same!(again, th, "rebuilt from limen of {}", dump(&raw));
                        } else {
                            ensure!(got.is_err(), "accepted {}", dump(&raw));
                        }
                    }
                }
                Ok(())
            },
        );
    });
    // sums of many prime fractions, completed to exactly one
    let primes = [2u128, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83];
    ctx.par(primes.len(), |k| {
        ctx.case(
            || format!("sum of fractions over {} primes", k + 1),
            |o| {
                // sum of 1/(2p) over the first primes, completed
                let mut ws = vec![];
                let (mut n, mut d) = (0u128, 1u128);
                for p in &primes[..=k] {
                    let b = p * p.max(&2);
                    let Some(l) = (d / gcd(d, b)).checked_mul(b) else { break };
                    if l > 1 << 100 {
                        break;
                    }
                    n = n * (l / d) + l / b;
                    d = l;
                    ws.push((1u128, b));
                }
                ensure!(n < d, "reference");
                ws.push(reduce((d - n, d)));
                let t = T::W(vec![ws.clone()]);
                let th = forms(&t, &[t.thold()], o)?;
                let all: Vec<u32> = (0..ws.len() as u32).collect();
                same!(es(th.satisfy(&all)), Ok(true), "all");
                for x in 0..ws.len() {
                    let mut idx = all.clone();
                    idx.remove(x);
                    same!(es(th.satisfy(&idx)), Ok(false), "all but {x}");
                    o.step();
                }
                // just short of one
                let l = ws.len() - 1;
                let (a, b) = ws[l];
                ws[l] = reduce((a * 8 - 1, b * 8));
                let t = T::W(vec![ws]);
                ensure!(Tholder::new_with_sith(&val(&t.thold())).is_err(), "accepted a sum just short of one");
                Ok(())
            },
        );
    });
    for (a, b, ok) in [
        ("333333333333333333333333333333333333333333/1000000000000000000000000000000000000000000", "666666666666666666666666666666666666666667/1000000000000000000000000000000000000000000", true),
        ("333333333333333333333333333333333333333333/1000000000000000000000000000000000000000000", "666666666666666666666666666666666666666666/1000000000000000000000000000000000000000000", false),
        ("9007199254740992/9007199254740993", "1/9007199254740993", true),
        ("9007199254740991/9007199254740993", "1/9007199254740993", false),
        ("18446744073709551615/18446744073709551616", "1/18446744073709551616", true),
        ("18446744073709551615/18446744073709551616", "1/18446744073709551617", false),
        ("4294967295/4294967296", "1/4294967296", true),
        ("4294967294/4294967296", "1/4294967296", false),
    ] {
        ctx.case(
            || format!("large fractions {a} and {b}"),
            |o| {
                o.step();
                let got = Tholder::new_with_sith(&val(&json!([a, b])));
                same!(got.is_ok(), ok, "accepted");
                if let Ok(t) = got {
                    same!(es(t.satisfy(&[0, 1])), Ok(true), "both");
                    same!(es(t.satisfy(&[0])), Ok(false), "the first");
                    same!(es(t.satisfy(&[1])), Ok(false), "the second");
                }
                Ok(())
            },
        );
    }
    ctx.section("exact arithmetic");

    // ill-formed expressions
    let mut ill: Vec<J> = vec![
        json!([]), json!([[]]), json!([["1"], []]), json!([[], ["1"]]), json!([[["1"]]]), json!(null), json!(true), json!(1.5), json!(-1),
        json!(-2147483648i64), json!({}), json!({"0": "1"}), json!(""), json!("-1"), json!("g"), json!("0x1"), json!("1/2"), json!(" 1"), json!("1 "),
        json!("é"), json!("[]"), json!("[[]]"), json!("["), json!("[1]"), json!("[\"1\""), json!("[null]"), json!(4294967296u64), json!("100000000"),
        json!(9223372036854775807i64), json!(18446744073709551615u64), json!("ffffffffffffffff"), json!("ffffffffffffffffffffffffffffffffff"),
        json!(["1", ["1"]]), json!([["1"], "1"]), json!([["1"], null]), json!([["1"], 1]), json!([1]), json!([[1]]), json!([["1", 1]]), json!([[null]]), json!([[true]]),
        json!([[1.0]]), json!([[{}]]),
    ];
    for w in ["2", "-1", "3/2", "-1/2", "1/-2", "1/0", "0/0", "a", "", "/", "1/", "/2", "1/2/3", "1//2", "1.0", "0.5", "1e0", " 1", "1 ", "1 /2", "1/ 2", "1/2 ", "é", "½", "one", "1/x", "x/2", "10", "00", "01", "0x1", "1/2\n", "2/1", "1000000000000000000000000/999999999999999999999999", "null",
        "-1/-2", "-0/1", "0/-1", "-0", "+1/2", "1/+2", "+1", "+0", "1_/2", "1_0/20", "1/2_0", "_1/2", "-", "+", "_", "-/1", "1/-", "-1/1", "-1/3", "-3/1", "1/-1", "4/3", "101/100", "1/3/1", "１/２", "٣/٤"] {
        for j in [json!(["1", "1", w]), json!([w, "1", "1"]), json!([["1/2", "1/2", "1", w], ["1"]]), json!([["1"], ["1", w, "1/2", "1/2", "1/2"]]), json!([w, w, "1"]), json!([w]), json!([[w]]), json!(["1", w]), json!([w, "1"]), json!([["1"], [w]]), json!([["1"], ["1", w]]), json!([["1/2", "1/2", w]])] {
            ill.push(j.clone());
            ill.push(json!(dump(&j)));
        }
    }
    ctx.par(ill.len(), |i| {
        let j = &ill[i];
        ctx.case(
            || format!("ill-formed threshold {}", dump(j)),
            |o| {
                ensure!(Tholder::new_with_sith(&val(j)).is_err(), "accepted as sith");
                if !j.is_string() {
                    ensure!(Tholder::new_with_thold(&val(j)).is_err(), "accepted as thold");
                }
                o.steps(2);
                o.state(dump(j));
                Ok(())
            },
        );
    });
    ctx.case(
        || "no threshold".into(),
        |o| {
            ensure!(Tholder::new(None, None, None).is_err(), "accepted nothing");
            ensure!(Tholder::new_with_limen(b"").is_err(), "accepted an empty text");
            o.steps(2);
            Ok(())
        },
    );
    // encoded forms: text of every kind of weighted expression, well-formed or not
    let mut texts: Vec<String> = vec![];
    let al = ["0", "1", "2", "s", "c", "a", "-", "_"];
    let mut last = vec![String::new()];
    for _ in 0..ctx.pick(5, 6) {
        let mut next = vec![];
        for p in &last {
            for c in al {
                next.push(format!("{p}{c}"));
            }
        }
        texts.extend(next.iter().cloned());
        last = next;
    }
    ctx.par(texts.len(), |i| {
        let x = &texts[i];
        ctx.case(
            || format!("threshold text {x}"),
            |o| {
                let t = parse(x);
                let got = Tholder::new_with_limen(bext(x).as_bytes());
                o.step();
                match t {
                    None => ensure!(got.is_err(), "accepted"),
                    Some(t) => {
                        let th = es(got)?;
                        same!(dump(&back(&th.thold())?), dump(&t.thold()), "thold");
                        subsets(&t, &th, o)?;
                    }
                }
                o.state(x);
                Ok(())
            },
        );
    });
    // encoded numbers of every code, and material of other codes
    for m in spec::MATTER {
        ctx.case(
            || format!("threshold from material of code {}", m.code),
            |o| {
                let n = if m.var() { 3 } else { m.raw() };
                let mut raw = vec![0u8; n];
                if n > 0 {
                    raw[n - 1] = 5;
                }
                let text = spec::m_encode(m.code, &raw).unwrap().1;
                let got = Tholder::new_with_limen(text.as_bytes());
                o.step();
                if ["M", "0H", "N", "0A"].contains(&m.code) {
                    let th = es(got)?;
                    same!(es(th.num()), Ok(Some(5)), "number");
                    same!(th.size(), 5, "size");
                    if n > 4 {
                        for k in 0..n - 4 {
                            let mut r = raw.clone();
                            r[k] = 1;
                            let text = spec::m_encode(m.code, &r).unwrap().1;
                            ensure!(Tholder::new_with_limen(text.as_bytes()).is_err(), "accepted a number beyond 32 bits");
                            o.step();
                        }
                    }
                } else {
                    ensure!(got.is_err(), "accepted");
                }
                o.state(m.code);
                Ok(())
            },
        );
    }
    ctx.section("ill-formed and encoded expressions");
}

/// reads the text of a weighted threshold
fn parse(x: &str) -> Option<T> {
    let mut out = vec![];
    for c in x.split('a') {
        let mut clause = vec![];
        for w in c.split('c') {
            let p: Vec<&str> = w.split('s').collect();
            clause.push(match p[..] {
                ["0"] => (0, 1),
                ["1"] => (1, 1),
                [a, b] => {
                    let (a, b): (u128, u128) = (a.parse().ok()?, b.parse().ok()?);
                    if b == 0 || a > b {
                        return None;
                    }
                    reduce((a, b))
                }
                _ => return None,
            });
        }
        if !reaches(&clause)? {
            return None;
        }
        out.push(clause);
    }
    Some(T::W(out))
}
