//! C21: JSON values.
use super::types::es;
use super::*;
use crate::ctx::{Ctx, Obs, R};
use crate::{ensure, same};
use cesride::data::Value;
use serde_json::{json, Map, Value as J};
use std::collections::{BTreeSet, HashMap};
use std::convert::TryFrom;

/// content read member by member through the accessors; only one accessor answers for each kind
fn walk(v: &Value, j: &J) -> R {
    let kinds = [
        v.to_bool().is_ok(),
        v.to_string().is_ok(),
        v.to_i64().is_ok(),
        v.to_f64().is_ok(),
        v.to_vec().is_ok(),
        v.to_map().is_ok(),
    ];
    let only = |k: usize| -> R {
        for (i, x) in kinds.iter().enumerate() {
            ensure!(*x == (i == k), "accessor {i} answers {x} for {}", sh(&j.to_string()));
        }
        Ok(())
    };
    match j {
        J::Null => {
            only(9)?;
            ensure!(*v == Value::Null, "null became something else");
        }
        J::Bool(b) => {
            only(0)?;
            same!(es(v.to_bool()), Ok(*b), "bool");
            same!(es(bool::try_from(v)), Ok(*b), "bool");
        }
        J::String(s) => {
            only(1)?;
            same!(es(v.to_string()), Ok(s.clone()), "string");
            same!(es(String::try_from(v)), Ok(s.clone()), "string");
        }
        J::Number(n) => {
            if let Some(i) = n.as_i64() {
                only(2)?;
                same!(es(v.to_i64()), Ok(i), "integer");
                same!(es(i64::try_from(v)), Ok(i), "integer");
                if i.unsigned_abs() <= 1 << 53 {
                    same!(es(f64::try_from(v)), Ok(i as f64), "integer as float");
                }
            } else if n.is_u64() {
                // has no accessor that could carry it, and none may answer with another number
                only(9)?;
                ensure!(i64::try_from(v).is_err(), "a large integer became a small one");
            } else {
                only(3)?;
                let f = n.as_f64().unwrap();
                ensure!(es(v.to_f64())?.to_bits() == f.to_bits(), "float {f:?}");
                ensure!(es(f64::try_from(v))?.to_bits() == f.to_bits(), "float {f:?}");
            }
        }
        J::Array(a) => {
            only(4)?;
            let w = es(v.to_vec())?;
            same!(es(Vec::try_from(v)), Ok(w.clone()), "array");
            same!(w.len(), a.len(), "array length");
            for (i, (x, y)) in w.iter().zip(a).enumerate() {
                walk(x, y)?;
                same!(&v[i], x, "element {i}");
            }
            same!(Value::from(&w[..]), *v, "array rebuilt");
        }
        J::Object(m) => {
            only(5)?;
            let w = es(v.to_map())?;
            let keys: Vec<&String> = w.keys().collect();
            same!(keys, m.keys().collect::<Vec<_>>(), "keys in order");
            for (i, ((_, x), (k, y))) in w.iter().zip(m).enumerate() {
                walk(x, y)?;
                same!(&v[k.as_str()], x, "value of {k:?}");
                same!(&v[i], x, "value {i}");
            }
            same!(Value::from(&w), *v, "map rebuilt");
        }
    }
    Ok(())
}

fn check(j: &J, o: &mut Obs) -> R {
    let v = Value::from(j);
    let text = serde_json::to_string(j).unwrap();
    walk(&v, j)?;
    same!(es(v.to_json()), Ok(text.clone()), "to_json");
    same!(format!("{v}"), text, "displayed");
    let again: J = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    // (the parser of serde_json reads some floats one unit off: no business of this library)
    if again == *j {
        same!(Value::from(&again), v, "read back from its own text");
    }
    let copy = v.clone();
    same!(copy, v, "clone");
    o.steps(4);
    o.state(&text);
    Ok(())
}

fn one(ctx: &'static Ctx, j: &J) {
    ctx.case(|| format!("json {}", sh(&j.to_string())), |o| check(j, o));
}

fn ints(ctx: &Ctx) -> Vec<J> {
    let mut s: BTreeSet<u64> = (0..=ctx.pick(2000, 200_000)).collect();
    for b in 0..64 {
        for d in 0..5u64 {
            s.insert((1u64 << b).wrapping_add(d).wrapping_sub(2));
        }
    }
    s.extend([u64::MAX, u64::MAX - 1]);
    let mut p = 1u64;
    while let Some(q) = p.checked_mul(10) {
        s.extend([p - 1, p, p + 1]);
        p = q;
    }
    s.extend([p - 1, p, p + 1]);
    let mut out = vec![];
    for x in s {
        out.push(json!(x));
        if x <= i64::MAX as u64 {
            out.push(json!(-(x as i64)));
        }
    }
    out.push(json!(i64::MIN));
    out.push(json!(i64::MIN + 1));
    out
}

fn floats() -> Vec<J> {
    let mut b = BTreeSet::new();
    for e in 0..2047u64 {
        for m in [0, 1, (1 << 52) - 1, 1 << 51, 0x5555555555555] {
            b.insert(e << 52 | m);
        }
    }
    for k in -30..30i32 {
        for x in [1.0, 1.5, 3.0, 9.0, 12345.678, 9007199254740993.0] {
            b.insert((x * 10f64.powi(k)).to_bits());
        }
    }
    let mut out = vec![];
    for x in b {
        for s in [0u64, 1 << 63] {
            let f = f64::from_bits(x | s);
            if f.is_finite() {
                out.push(json!(f));
            }
        }
    }
    out
}

pub fn run(ctx: &'static Ctx) {
    let nums: Vec<J> = ints(ctx).into_iter().chain(floats()).collect();
    ctx.par(nums.len(), |i| {
        one(ctx, &nums[i]);
        one(ctx, &json!({ "k": nums[i], "l": [nums[i], nums[i]] }));
    });
    ctx.section("numbers");

    // numbers as they are spelled in a text
    let spelled = [
        "0", "-0", "0.0", "-0.0", "1.0", "1e0", "1E5", "1e-5", "1.0e2", "-1.5e+3", "100000000000000000000",
        "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "1e300",
        "0.1", "0.30000000000000004", "123456789.123456789", "5e-324", "1.7976931348623157e308", "2.2250738585072014e-308",
    ];
    for t in spelled {
        ctx.case(
            || format!("number text {t}"),
            |o| {
                let j: J = serde_json::from_str(t).map_err(|e| e.to_string())?;
                check(&j, o)
            },
        );
    }
    ctx.section("spelled numbers");

    // every character, alone and among others
    ctx.par(0x110000 / 256, |blk| {
        for c in (blk * 256) as u32..(blk * 256 + 256) as u32 {
            if let Some(c) = char::from_u32(c) {
                let s = c.to_string();
                one(ctx, &json!(s));
                if c < '\u{3000}' || ctx.thorough {
                    one(ctx, &json!({ format!("{s}a{s}"): [format!("x{s}{s}\"")] }));
                }
            }
        }
    });
    ctx.section("single characters");
    let sp: Vec<char> = "\"\\/\u{0}\u{1}\u{8}\u{c}\n\r\t\u{1f}\u{7f}\u{80} a#é\u{2028}\u{2029}\u{feff}\u{ffff}\u{1F600}:,{}[]"
        .chars()
        .collect();
    let n = sp.len();
    ctx.par(n * n, |i| {
        let (a, b) = (sp[i / n], sp[i % n]);
        one(ctx, &json!(format!("{a}{b}")));
        for c in &sp {
            one(ctx, &json!(format!("{a}{b}{c}")));
            one(ctx, &json!({ format!("{a}{b}"): c.to_string(), format!("{c}{b}"): null }));
        }
    });
    ctx.section("special characters, up to three");

    // documents
    let atoms: Vec<J> = vec![
        J::Null,
        json!(true),
        json!(false),
        json!(0),
        json!(-1),
        json!(u64::MAX),
        json!(i64::MIN),
        json!(0.5),
        json!(1.0),
        json!(1e21),
        json!(""),
        json!("a"),
        json!("\"\\\u{1}é"),
        json!([]),
        json!({}),
    ];
    let keys = ["a", "b", "", "\"\\", "z", "0", "é\n"];
    let mut level: Vec<J> = atoms.clone();
    for x in &atoms {
        level.push(json!([x]));
        for k in keys {
            level.push(json!({ k: x }));
        }
        for y in &atoms {
            level.push(json!([x, y]));
            level.push(json!({"b": x, "a": y}));
        }
    }
    let two = level.clone();
    ctx.par(two.len(), |i| {
        one(ctx, &two[i]);
        one(ctx, &json!([two[i]]));
        one(ctx, &json!({ "z": two[i] }));
        // one more level, paired with everything small (with everything, in thorough)
        let few = ctx.pick(atoms.len() + 40, two.len());
        for y in &two[..few] {
            one(ctx, &json!([two[i], y]));
            one(ctx, &json!({"y": two[i], "x": y}));
        }
    });
    ctx.section("documents to depth 3");

    // every order of up to 4 (5) keys
    let most = ctx.pick(4, 5);
    let mut orders: Vec<Vec<usize>> = vec![vec![]];
    let mut at = 0;
    while at < orders.len() {
        if orders[at].len() < most {
            for k in 0..keys.len() {
                if !orders[at].contains(&k) {
                    let mut q = orders[at].clone();
                    q.push(k);
                    orders.push(q);
                }
            }
        }
        at += 1;
    }
    ctx.par(orders.len(), |i| {
        let mut m = Map::new();
        for (n, k) in orders[i].iter().enumerate() {
            m.insert(keys[*k].to_string(), if n % 2 == 0 { json!(n) } else { json!({"q": n, "p": [n]}) });
        }
        let j = J::Object(m.clone());
        one(ctx, &j);
        // built by assignment, one key after the other, then overwritten in another order
        ctx.case(
            || format!("assigned {j}"),
            |o| {
                let mut v = cesride::data::dat!({});
                for (k, x) in &m {
                    v[k.as_str()] = Value::from(x);
                    o.step();
                }
                walk(&v, &j)?;
                same!(es(v.to_json()), Ok(j.to_string()), "to_json");
                let mut want = m.clone();
                for (k, x) in m.iter().rev() {
                    v[k.as_str()] = cesride::data::dat!([Value::from(x)].as_slice());
                    want.insert(k.clone(), json!([x]));
                    o.step();
                }
                let want = J::Object(want);
                walk(&v, &want)?;
                same!(es(v.to_json()), Ok(want.to_string()), "to_json after assignment");
                Ok(())
            },
        );
    });
    ctx.section("key orders");

    // deep documents
    for depth in [4usize, 16, 64, 100, 120] {
        let mut a = json!("x");
        let mut b = json!(1);
        let mut c = json!(null);
        for i in 0..depth {
            a = json!([a]);
            b = json!({ "k": b });
            c = if i % 2 == 0 { json!([c, i]) } else { json!({"z": i, "y": c}) };
        }
        for j in [a, b, c] {
            one(ctx, &j);
        }
    }
    for len in [100usize, 10_000] {
        one(ctx, &J::Array((0..len).map(|i| json!(i)).collect()));
        let mut m = Map::new();
        for i in 0..len {
            m.insert(format!("k{}", (i * 7919) % len), json!(i));
        }
        one(ctx, &J::Object(m));
        one(ctx, &json!("é\"x".repeat(len)));
    }
    ctx.section("deep and long");

    // native numbers, text, maps and the macro
    ctx.par(65536, |i| {
        ctx.case(
            || format!("native integer {i}"),
            |o| {
                let w = |v: Value, x: i64| -> R {
                    walk(&v, &json!(x))?;
                    same!(es(v.to_json()), Ok(x.to_string()), "to_json");
                    Ok(())
                };
                w(Value::from(i as u8), (i as u8) as i64)?;
                w(Value::from(i as i8), (i as i8) as i64)?;
                w(Value::from(i as u16), i as i64)?;
                w(Value::from(i as i16), (i as i16) as i64)?;
                let (u, s) = ((i as u32) << 16 | 0xfffe, ((i as u32) << 16 | 1) as i32);
                w(Value::from(u), u as i64)?;
                w(Value::from(s), s as i64)?;
                let l = ((i as u64) << 48 | i as u64) as i64;
                w(Value::from(l), l)?;
                let f = f32::from_bits((i as u32) << 16 | 3);
                if f.is_finite() {
                    walk(&Value::from(f), &json!(f as f64))?;
                    walk(&Value::from(f as f64), &json!(f as f64))?;
                }
                o.steps(8);
                Ok(())
            },
        );
    });
    ctx.case(
        || "macro and maps".into(),
        |o| {
            use cesride::data::dat;
            let s = "text".to_string();
            let n = 5i64;
            let v = dat!({"z": null, "y": true, "x": false, "w": [1, "a", [], {}, null, n, &s], "v": {"b": 1.5, "a": (-3)}, "u": &s, "t": n});
            let j = json!({"z": null, "y": true, "x": false, "w": [1, "a", [], {}, null, n, s], "v": {"b": 1.5, "a": -3}, "u": s, "t": n});
            walk(&v, &j)?;
            same!(es(v.to_json()), Ok(j.to_string()), "to_json");
            same!(v, Value::from(&j), "as converted");
            let mut h = HashMap::new();
            for i in 0..50 {
                h.insert(format!("k{i}"), dat!(i));
            }
            let v = es(Value::from(&h).to_map())?;
            same!(v.len(), 50, "size");
            for (k, x) in &h {
                same!(v.get(k), Some(x), "{k}");
            }
            o.steps(3);
            Ok(())
        },
    );
    // the macro, token by token as that of serde_json
    macro_rules! both {
        ($($t:tt)*) => {
            ctx.case(
                || format!("macro {}", stringify!($($t)*)),
                |o| {
                    let (v, j) = (cesride::data::dat!($($t)*), json!($($t)*));
                    o.step();
                    walk(&v, &j)?;
                    same!(v, Value::from(&j), "as converted");
                    Ok(())
                },
            );
        };
    }
    let (k, t, n) = ("key", "text".to_string(), 7i64);
    both!(null);
    both!(true);
    both!(false);
    both!(1);
    both!(-1);
    both!(1.5);
    both!("a");
    both!([]);
    both!({});
    both!([null]);
    both!([true]);
    both!([false]);
    both!([null, true, false]);
    both!([false, null, true,]);
    both!([true, true, false, false, null, null]);
    both!([[true], [false], [null], {}, []]);
    both!([{"a": true}, {"a": false}, {"a": null}]);
    both!([1, true, "x", false, &t, null, n]);
    both!({"a": true});
    both!({"a": false});
    both!({"a": null});
    both!({"a": true, "b": false, "c": null, "d": [], "e": {}, "f": 1});
    both!({"f": 1, "e": {}, "d": [], "c": null, "b": false, "a": true,});
    both!({"n": null, "o": {"x": false, "y": true}, "p": [false, true]});
    both!({k: n, "t": &t, "u": {k: &t, "v": [n, n + 1, &t]}});
    both!({"a": n + 1, "b": [n - 1, {"c": n * 2}], "d": -2});
    ctx.section("native values");

    // assignment into documents: every sequence of a few writes, against the same writes on JSON
    type Path = &'static [Step];
    enum Step {
        K(&'static str),
        I(usize),
    }
    use Step::*;
    let paths: [Path; 11] = [
        &[K("a")],
        &[K("b")],
        &[K("c")],
        &[K("a"), K("x")],
        &[K("a"), K("y")],
        &[K("a"), K("x"), K("p")],
        &[K("b"), I(0)],
        &[K("b"), I(1)],
        &[K("b"), I(1), K("q")],
        &[I(0)],
        &[I(1), K("x")],
    ];
    let vals = [json!(1), json!({"x": 1}), json!([null, {"q": "é", "r": 2}, true])];
    let starts = [json!({}), json!({"a": {"x": {"p": 1, "o": 2}, "y": 3}, "b": [1, {"q": 1}]}), json!({"b": [[], {}], "a": {}})];
    fn jat<'a>(mut j: &'a mut J, p: Path, write: bool) -> Option<&'a mut J> {
        for (n, s) in p.iter().enumerate() {
            j = match (s, j) {
                (K(k), J::Object(m)) => {
                    if write && n + 1 == p.len() && !m.contains_key(*k) {
                        m.insert(k.to_string(), J::Null);
                    }
                    m.get_mut(*k)?
                }
                (I(i), J::Array(a)) => a.get_mut(*i)?,
                (I(i), J::Object(m)) => m.iter_mut().nth(*i)?.1,
                _ => return None,
            };
        }
        Some(j)
    }
    let ops = paths.len() * vals.len();
    let depth = ctx.pick(3u32, 4);
    ctx.par(starts.len() * ops, |i| {
        let start = &starts[i / ops];
        for rest in 0..ops.pow(depth - 1) {
            ctx.case(
                || format!("writes {} then {rest} into {start}", i % ops),
                |o| {
                    let mut j = start.clone();
                    let mut v = Value::from(&j);
                    let mut code = rest;
                    let mut op = i % ops;
                    for _ in 0..depth {
                        let (p, x) = (paths[op % paths.len()], &vals[op / paths.len()]);
                        if let Some(slot) = jat(&mut j, p, true) {
                            *slot = x.clone();
                            let mut at = &mut v;
                            for s in p {
                                at = match s {
                                    K(k) => &mut at[*k],
                                    I(i) => &mut at[*i],
                                };
                            }
                            *at = Value::from(x);
                            o.step();
                        }
                        same!(es(v.to_json()), Ok(j.to_string()), "after a write");
                        for p in paths {
                            if let Some(y) = jat(&mut j, p, false) {
                                let mut at = &v;
                                for s in p {
                                    at = match s {
                                        K(k) => &at[*k],
                                        I(i) => &at[*i],
                                    };
                                }
                                same!(at, &Value::from(&*y), "read back");
                            }
                        }
                        op = code % ops;
                        code /= ops;
                    }
                    o.state(j.to_string());
                    Ok(())
                },
            );
        }
    });
    ctx.section("sequences of writes");
    // new fields of a document of any length go last, and change no other
    for n in (0..40usize).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1_000]) {
        ctx.case(
            || format!("a field added to {n}"),
            |o| {
                let mut m: serde_json::Map<String, J> = (0..n).map(|i| (format!("k{i}"), json!(i))).collect();
                let mut v = Value::from(&J::Object(m.clone()));
                for k in ["z", "a", "0", ""] {
                    v[k] = Value::from(&json!({ k: n }));
                    m.insert(k.into(), json!({ k: n }));
                    o.step();
                    same!(es(v.to_json()), Ok(J::Object(m.clone()).to_string()), "added {k:?}");
                }
                for i in [0, n / 2, n.saturating_sub(1)] {
                    if n > 0 {
                        v[&format!("k{i}")[..]] = Value::from(&json!(null));
                        m.insert(format!("k{i}"), json!(null));
                        o.step();
                        same!(es(v.to_json()), Ok(J::Object(m.clone()).to_string()), "changed {i}");
                    }
                }
                let mut l: Vec<J> = (0..n).map(|i| json!(i)).collect();
                let mut v = Value::from(&json!(l));
                for i in 0..n {
                    v[i] = Value::from(&json!([i, "x"]));
                    l[i] = json!([i, "x"]);
                }
                o.steps(n as u64);
                same!(es(v.to_json()), Ok(json!(l).to_string()), "elements changed");
                o.state((n, "added"));
                Ok(())
            },
        );
    }
    ctx.section("long documents written");
}
