//! C23: fresh secrets, with the system's entropy source played by `crate::entropy`.
use super::c09::{public, verfer_code, verify};
use super::c22::{conflicts, spread, spread_until, Explore, Worker};
use super::ops::Op;
use super::types::es;
use super::*;
use crate::ctx::{guard, h64, Ctx};
use crate::entropy::{self, Answer, Script};
use crate::sched::Sched;
use cesride::{Matter, Salter, Signer};

const A: [Answer; 5] = [Answer::Full, Answer::Short(1), Answer::Half, Answer::AllButOne, Answer::Interrupted];
const STREAMS: u64 = 5;

/// a secret as the library made it
struct Made {
    raw: Vec<u8>,
}

struct Maker {
    name: &'static str,
    /// code of the seed; empty for a salt
    suite: &'static str,
    len: usize,
    f: fn() -> Result<Made, String>,
}

fn salter(r: cesride::Result<Salter>, tier: &str) -> Result<Made, String> {
    let s = es(r)?;
    if s.code() != "0A" || s.tier() != tier {
        return Err(format!("WRONG: code {} tier {}", s.code(), s.tier()));
    }
    Ok(Made { raw: s.raw() })
}

fn signer(r: cesride::Result<Signer>, suite: &str, transferable: bool) -> Result<Made, String> {
    let s = es(r)?;
    let v = s.verfer();
    if s.code() != suite || v.code() != verfer_code(suite, transferable) {
        return Err(format!("WRONG: codes {} {}", s.code(), v.code()));
    }
    let Some(p) = public(suite, &s.raw()) else {
        return Err(format!("WRONG: {:?} is no secret of {suite}", s.raw()));
    };
    if p != v.raw() {
        return Err("WRONG: the key is not that of the secret".into());
    }
    match es(s.sign_unindexed(b"message")) {
        Ok(c) if verify(suite, &p, &c.raw(), b"message") => {}
        x => return Err(format!("WRONG: signature {:?}", x.map(|c| c.raw()))),
    }
    Ok(Made { raw: s.raw() })
}

const MAKERS: [Maker; 14] = [
    Maker { name: "salter", suite: "", len: 16, f: || salter(Salter::new_with_defaults(None), "low") },
    Maker { name: "salter high", suite: "", len: 16, f: || salter(Salter::new_with_defaults(Some("high")), "high") },
    Maker { name: "salter new", suite: "", len: 16, f: || salter(Salter::new(None, Some("0A"), None, None, None, None), "low") },
    Maker { name: "signer", suite: "A", len: 32, f: || signer(Signer::new_with_defaults(None, None), "A", true) },
    Maker { name: "signer A", suite: "A", len: 32, f: || signer(Signer::new_with_defaults(Some(true), Some("A")), "A", true) },
    Maker { name: "signer A fixed", suite: "A", len: 32, f: || signer(Signer::new_with_defaults(Some(false), Some("A")), "A", false) },
    Maker { name: "signer J", suite: "J", len: 32, f: || signer(Signer::new_with_defaults(None, Some("J")), "J", true) },
    Maker { name: "signer J fixed", suite: "J", len: 32, f: || signer(Signer::new_with_defaults(Some(false), Some("J")), "J", false) },
    Maker { name: "signer Q", suite: "Q", len: 32, f: || signer(Signer::new_with_defaults(None, Some("Q")), "Q", true) },
    Maker { name: "signer Q fixed", suite: "Q", len: 32, f: || signer(Signer::new_with_defaults(Some(false), Some("Q")), "Q", false) },
    Maker { name: "new A", suite: "A", len: 32, f: || signer(Signer::new(None, Some("A"), None, None, None, None), "A", true) },
    Maker { name: "new J", suite: "J", len: 32, f: || signer(Signer::new(Some(true), Some("J"), None, None, None, None), "J", true) },
    Maker { name: "new Q", suite: "Q", len: 32, f: || signer(Signer::new(Some(false), Some("Q"), None, None, None, None), "Q", false) },
    // things that use no entropy or fail, between those that do
    Maker {
        name: "other work",
        suite: "",
        len: 0,
        f: || {
            let s = es(Signer::new_with_raw(&[7; 32], None, None))?;
            es(s.sign_unindexed(b"x"))?;
            let t = es(Salter::new_with_raw(&[7; 16], None, None))?;
            es(t.stretch(Some(32), Some("a"), None, Some(true)))?;
            for bad in [Signer::new_with_defaults(None, Some("B")), Signer::new_with_raw(&[7; 31], None, None), Signer::new_with_raw(&[0; 32], None, Some("J"))] {
                if bad.is_ok() {
                    return Err("WRONG: made from nothing".into());
                }
            }
            if Salter::new(None, Some("0B"), None, None, None, None).is_ok() {
                return Err("WRONG: salt of another code".into());
            }
            Ok(Made { raw: vec![] })
        },
    },
];

/// what came of each maker, where in the stream its requests lie, and the stream
struct Ran {
    made: Vec<(Result<Made, String>, usize, usize)>,
    script: Script,
}

fn play(h: &[usize], seed: u64, prefix: &[u8], answers: &[Answer]) -> Ran {
    entropy::set(Script { seed, prefix: prefix.to_vec(), answers: answers.to_vec(), ..Default::default() });
    let mut made = vec![];
    for m in h {
        let a = entropy::delivered();
        let r = guard(|| (MAKERS[*m].f)()).unwrap_or_else(Err);
        made.push((r, a, entropy::delivered()));
    }
    Ran { made, script: entropy::take().unwrap() }
}

/// Every byte of every secret must be one that the source delivered for that secret, at the same place
/// of the stream whatever the stream was, each place used once.
fn attributed(h: &[usize], answers: &[Answer]) -> Result<u64, String> {
    let runs: Vec<Ran> = (0..STREAMS).map(|s| play(h, 77 + s, &[], answers)).collect();
    let mut steps = 0;
    for (k, m) in h.iter().enumerate() {
        let what = |e: String| format!("object {k} ({}): {e}", MAKERS[*m].name);
        let (_, a, b) = &runs[0].made[k];
        let mut raws = vec![];
        for r in &runs {
            if (r.made[k].1, r.made[k].2) != (*a, *b) {
                return Err(what("asks for different amounts for different bytes".into()));
            }
            match &r.made[k].0 {
                Ok(m) => raws.push(&m.raw),
                Err(e) => return Err(what(e.clone())),
            }
        }
        steps += raws.len() as u64;
        let n = MAKERS[*m].len;
        if raws.iter().any(|r| r.len() != n) {
            return Err(what(format!("{} bytes instead of {n}", raws[0].len())));
        }
        let mut used = vec![];
        for j in 0..n {
            match (*a..*b).find(|p| !used.contains(p) && (0..runs.len()).all(|r| runs[r].script.delivered[*p] == raws[r][j])) {
                Some(p) => used.push(p),
                None => {
                    return Err(what(format!(
                        "byte {j} of {} is none that was obtained for it (requests {:?}, {} delivered for it)",
                        crate::ctx::clip(&format!("{:?}", raws[0])),
                        runs[0].script.asked,
                        b - a
                    )))
                }
            }
        }
    }
    Ok(steps)
}

fn hex32(s: &str) -> Vec<u8> {
    (0..32).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// draws that are no secrets of the suite, and draws at the edge that are
fn draws(suite: &str) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
    let n = hex32(match suite {
        "J" => "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
        _ => "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
    });
    let add = |x: &[u8], d: i32| {
        let mut v = x.to_vec();
        let mut c = d;
        for b in v.iter_mut().rev() {
            let t = *b as i32 + c;
            *b = t as u8;
            c = t >> 8;
        }
        v
    };
    let zero = vec![0; 32];
    let max = vec![0xff; 32];
    let one = add(&zero, 1);
    if suite == "J" || suite == "Q" {
        (vec![zero, n.clone(), add(&n, 1), max], vec![one, add(&n, -1), add(&n, -2)])
    } else {
        (vec![], vec![zero, one, max])
    }
}

fn words<T: Clone>(alphabet: &[T], n: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out.into_iter().flat_map(|w| alphabet.iter().map(move |a| [w.clone(), vec![a.clone()]].concat())).collect();
    }
    out
}

fn show(h: &[usize]) -> String {
    h.iter().map(|m| format!("[{}]", MAKERS[*m].name)).collect::<Vec<_>>().join(" ")
}

enum Case {
    /// objects made one after the other
    Objects(Vec<usize>, Vec<Answer>),
    /// the source fails after these answers; then it works again
    Failing(usize, Vec<Answer>),
    /// the source delivers these draws first
    Draws(usize, Vec<Vec<u8>>, Vec<Answer>),
}

fn check(c: &Case) -> Result<u64, String> {
    match c {
        Case::Objects(h, answers) => attributed(h, answers),
        Case::Failing(m, answers) => {
            let mut answers = answers.clone();
            answers.push(Answer::Fails);
            let at = answers.len();
            let r = play(&[*m], 5, &[], &answers);
            if r.script.requests >= at {
                // it asked and got nothing
                match &r.made[0].0 {
                    Ok(m) => return Err(format!("made of {} bytes although the source failed", m.raw.len())),
                    Err(e) if e.starts_with("WRONG") => return Err(e.clone()),
                    Err(_) => {}
                }
            } else if let Err(e) = &r.made[0].0 {
                return Err(e.clone());
            }
            // the next one is as good as any
            attributed(&[*m, *m], &[]).map_err(|e| format!("after a failure: {e}"))
        }
        Case::Draws(m, draws, answers) => {
            let prefix = draws.concat();
            let r = play(&[*m], 9, &prefix, answers);
            let raw = match &r.made[0].0 {
                Ok(x) => &x.raw,
                Err(e) => return Err(e.clone()),
            };
            if !r.script.delivered.windows(MAKERS[*m].len).any(|w| w == &raw[..]) {
                return Err(format!("{raw:?} was not drawn"));
            }
            Ok(2)
        }
    }
}

pub fn run(ctx: &Ctx) {
    let secret: Vec<usize> = (0..MAKERS.len()).filter(|m| MAKERS[*m].len > 0).collect();
    let mut cases: Vec<(String, Case)> = vec![];
    // histories
    for d in 1..=3 {
        let all: Vec<usize> = (0..MAKERS.len()).collect();
        for h in words(&all, d) {
            cases.push((format!("objects {}", show(&h)), Case::Objects(h, vec![])));
        }
    }
    let few: Vec<usize> = vec![0, 3, 6, 8, 13];
    for d in 4..=ctx.pick(4, 6) {
        for h in words(&few, d) {
            cases.push((format!("objects {}", show(&h)), Case::Objects(h, vec![])));
        }
    }
    // answers
    for m in &secret {
        for n in 1..=ctx.pick(4, 6) {
            for w in words(&A, n) {
                cases.push((format!("[{}] answers {w:?}", MAKERS[*m].name), Case::Objects(vec![*m, *m], w)));
            }
        }
        for n in 1..MAKERS[*m].len {
            for k in 0..4 {
                let mut w = vec![Answer::Full; k];
                w.push(Answer::Short(n));
                cases.push((format!("[{}] answers {w:?}", MAKERS[*m].name), Case::Objects(vec![*m, *m], w.clone())));
                w.push(Answer::Interrupted);
                w.push(Answer::Short(1));
                cases.push((format!("[{}] answers {w:?}", MAKERS[*m].name), Case::Objects(vec![*m, *m], w)));
            }
        }
        for a in [Answer::Short(1), Answer::Short(2), Answer::Half, Answer::AllButOne, Answer::Interrupted] {
            for n in [40, 200] {
                cases.push((format!("[{}] answers {a:?} {n} times", MAKERS[*m].name), Case::Objects(vec![*m, *m], vec![a; n])));
            }
        }
        for n in 0..=ctx.pick(3, 4) {
            for w in words(&A, n) {
                cases.push((format!("[{}] fails after {w:?}", MAKERS[*m].name), Case::Failing(*m, w)));
            }
        }
        // draws
        if MAKERS[*m].suite.is_empty() {
            for x in [vec![0; 16], vec![255; 16]] {
                cases.push((format!("[{}] draws {x:?}", MAKERS[*m].name), Case::Draws(*m, vec![x], vec![])));
            }
            continue;
        }
        let (bad, edge) = draws(MAKERS[*m].suite);
        for n in 0..=ctx.pick(3, 4) {
            for w in words(&bad, n) {
                for e in edge.iter().map(Some).chain([None]) {
                    let draws: Vec<Vec<u8>> = w.iter().chain(e).cloned().collect();
                    if draws.is_empty() {
                        continue;
                    }
                    let label = format!("[{}] draws {}", MAKERS[*m].name, draws.iter().map(|d| d.iter().map(|b| format!("{b:02x}")).collect::<String>()).collect::<Vec<_>>().join(" "));
                    for a in [vec![], vec![Answer::Short(1)], vec![Answer::AllButOne], vec![Answer::Half, Answer::Interrupted], vec![Answer::Full, Answer::Half]] {
                        cases.push((format!("{label} answers {a:?}"), Case::Draws(*m, draws.clone(), a)));
                    }
                }
            }
        }
    }
    let (cases, chunk) = (&cases, 16);
    spread(ctx, "objects made one after the other and answers of the source", cases.len().div_ceil(chunk), |w: &mut Worker, s: &Sched, i| {
        for (label, c) in &cases[i * chunk..((i + 1) * chunk).min(cases.len())] {
            if !w.wanted(label) {
                continue;
            }
            let r = s.alone(|| match check(c) {
                Ok(n) => n.to_string(),
                Err(e) => format!("!{e}"),
            });
            match r {
                Err(e) => w.violation(label.clone(), e),
                Ok(t) => match t.parse::<u64>() {
                    Ok(n) => w.count(n, h64(label)),
                    Err(_) => w.violation(label.clone(), t[1..].to_string()),
                },
            }
        }
    });

    // two threads
    fn own(m: usize) -> String {
        for k in 0..2 {
            let r = play(&[m], 1000 + k + 7919 * crate::sched::me(), &[], &[]);
            match &r.made[0].0 {
                Ok(x) if r.script.delivered.windows(x.raw.len()).any(|w| w == &x.raw[..]) => {}
                Ok(x) => return format!("{:?} was not obtained for it", x.raw),
                Err(e) => return e.clone(),
            }
        }
        "ok".into()
    }
    let ops: Vec<Op> = secret.iter().map(|m| Op { name: MAKERS[*m].name.to_string(), heavy: false, f: { let m = *m; Box::new(move || own(m)) } }).collect();
    let n = ops.len();
    let ops = &ops;
    for warm in [false, true] {
        let name = if warm { "warm" } else { "cold" };
        let until = std::time::Instant::now() + std::time::Duration::from_secs(ctx.pick(150, 1_200));
        spread_until(ctx, &format!("two threads, {name}"), n * n, Some(until), |w: &mut Worker, s: &Sched, i| {
            let (oa, ob) = (&ops[i / n], &ops[i % n]);
            let before = || {
                if warm {
                    (oa.f)();
                    (ob.f)();
                }
            };
            let (fa, fb) = (|| (oa.f)(), || (ob.f)());
            let runs = [0, 1].map(|first| s.run(&before, [&fa, &fb], first, &[], &[], None));
            let focus = conflicts(&[&runs[0], &runs[1]]);
            for first in [0, 1] {
                let mut e = Explore {
                    before: &before,
                    ops: [oa, ob],
                    want: ["ok", "ok"],
                    first,
                    focus: &focus,
                    bound: if focus.is_empty() { 0 } else { ctx.pick(2, 3) },
                    name: name.to_string(),
                    budget: ctx.pick(2_000, 20_000),
                    diverged: 0,
                };
                e.run(w, s, &[], &[]);
                if e.budget == 0 {
                    w.note(format!("budget reached: {name} [{}] || [{}]", oa.name, ob.name));
                }
            }
        });
    }
}
