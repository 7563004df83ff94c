//! C26: the WebAssembly binding, driven natively, against the core calls it stands for.
//! The binding is compiled against stand-ins for wasm-bindgen and js-sys (mc/stubs) that keep a
//! JavaScript value as the Rust value behind it.
use super::c09;
use super::c15::{bases, key};
use super::docs::*;
use super::*;
use crate::ctx::{guard, Ctx, Obs, R};
use crate::{ensure, same, spec};
use cesride::{Bext, Bexter, Cigar, Dater, Diger, Indexer, Matter, Number, Prefixer, Sadder, Saider, Salter, Seqner, Serder, Siger, Signer, Tholder, Verfer};
use cesride_wasm as w;
use serde_json::{json, Value as J};
use std::fmt::Debug;
use wasm_bindgen::JsValue;

/// a call of the binding that has no failure
fn js<T>(f: impl FnOnce() -> T) -> Result<Option<T>, String> {
    guard(f).map(Some)
}

/// a call of the binding that may fail: the result, if there is one
fn jr<T>(f: impl FnOnce() -> Result<T, JsValue>) -> Result<Option<T>, String> {
    Ok(je(f)?.ok())
}

/// the result or the message of the JavaScript error
fn je<T>(f: impl FnOnce() -> Result<T, JsValue>) -> Result<Result<T, String>, String> {
    match guard(f)? {
        Ok(t) => Ok(Ok(t)),
        Err(e) => match e.get::<js_sys::Error>() {
            Some(e) => Ok(Err(e.message())),
            None => Err(format!("thrown: {e:?}, no error object")),
        },
    }
}

/// what is in an array of the binding
fn items<T: 'static>(a: &js_sys::Array, view: impl Fn(&T) -> Result<View, String>) -> Result<Vec<View>, String> {
    a.iter().map(|v| v.get::<T>().ok_or("another class in the array".to_string()).and_then(&view)).collect()
}

fn array(v: Option<&[&str]>) -> Option<js_sys::Array> {
    v.map(|v| v.iter().map(|s| JsValue::from_str(s)).collect())
}

type View = Vec<String>;

fn show<T: Debug>(t: T) -> String {
    format!("{t:?}")
}

macro_rules! mw {
    ($w:expr) => {
        vec![
            show(js(|| $w.code())?),
            show(js(|| $w.raw())?),
            show(jr(|| $w.qb64())?),
            show(jr(|| $w.qb64b())?),
            show(jr(|| $w.qb2())?),
        ]
    };
}
macro_rules! mc {
    ($c:expr) => {
        vec![show(Some($c.code())), show(Some($c.raw())), show($c.qb64().ok()), show($c.qb64b().ok()), show($c.qb2().ok())]
    };
}

/// one call through the binding and the core call it stands for
macro_rules! pair {
    ($o:expr, $what:expr, $w:expr, $c:expr, $view:ident) => {{
        $o.steps(2);
        match (je(|| $w)?, $c) {
            (Err(a), Err(b)) => same!(a, b.to_string(), "{}: the error", $what),
            (Ok(a), Ok(b)) => {
                let (x, y) = ($view::wasm(&a)?, $view::core(&b));
                same!(x, y, "{}", $what);
                $o.state((&$what, &y));
            }
            (Ok(_), Err(_)) => return Err(format!("{}: the binding gives what the core refuses", $what)),
            (Err(_), Ok(_)) => return Err(format!("{}: the binding refuses what the core gives", $what)),
        }
    }};
}

macro_rules! views {
    ($($name:ident, $wt:ty, $ct:ty, |$x:ident| $we:expr, |$y:ident| $ce:expr;)*) => { $(
        #[allow(non_snake_case)]
        mod $name {
            use super::*;
            #[allow(unused_mut)]
            pub fn wasm($x: &$wt) -> Result<View, String> { let mut v: View = mw!($x); v.extend::<View>($we); Ok(v) }
            #[allow(unused_mut)]
            pub fn core($y: &$ct) -> View { let mut v: View = mc!($y); v.extend::<View>($ce); v }
        }
    )* };
}

macro_rules! plain {
    ($($name:ident, $t:ty;)*) => { $(
        #[allow(non_snake_case)]
        mod $name {
            use super::*;
            pub fn wasm(x: &$t) -> Result<View, String> { Ok(vec![show(x)]) }
            pub fn core(x: &$t) -> View { vec![show(x)] }
        }
    )* };
}

plain! { bools, bool; texts_, String; bytes, Vec<u8>; }

views! {
    verfers, w::VerferWrapper, Verfer, |x| vec![show(js(|| x.size())?)], |y| vec![show(Some(y.size()))];
    digers, w::DigerWrapper, Diger, |x| vec![show(js(|| x.size())?)], |y| vec![show(Some(y.size()))];
    saiders, w::SaiderWrapper, Saider, |x| vec![show(js(|| x.size())?)], |y| vec![show(Some(y.size()))];
    prefixers, w::PrefixerWrapper, Prefixer, |x| vec![show(js(|| x.size())?)], |y| vec![show(Some(y.size()))];
    cigars, w::CigarWrapper, Cigar,
        |x| { let mut v = vec![show(js(|| x.size())?)]; v.extend(verfers::wasm(&x.verfer())?); v },
        |y| { let mut v = vec![show(Some(y.size()))]; v.extend(verfers::core(&y.verfer())); v };
    sigers, w::SigerWrapper, Siger,
        |x| { let mut v = vec![show((x.index(), x.ondex()))]; v.extend(verfers::wasm(&x.verfer())?); v },
        |y| { let mut v = vec![show((y.index(), y.ondex()))]; v.extend(verfers::core(&y.verfer())); v };
    signers, w::SignerWrapper, Signer,
        |x| { let mut v = vec![show(js(|| x.size())?)]; v.extend(verfers::wasm(&x.verfer())?); v },
        |y| { let mut v = vec![show(Some(y.size()))]; v.extend(verfers::core(&y.verfer())); v };
    salters, w::SalterWrapper, Salter, |x| vec![show(js(|| x.size())?), x.tier()], |y| vec![show(Some(y.size())), y.tier()];
    daters, w::DaterWrapper, Dater,
        |x| vec![show(js(|| x.size())?), show(jr(|| x.dts())?), show(jr(|| x.dtsb())?)],
        |y| vec![show(Some(y.size())), show(y.dts().ok()), show(y.dtsb().ok())];
    bexters, w::BexterWrapper, Bexter, |x| vec![show(js(|| x.size())?), show(jr(|| x.bext())?)], |y| vec![show(Some(y.size())), show(y.bext().ok())];
    numbers, w::NumberWrapper, Number,
        |x| vec![show(js(|| x.size())?), show(jr(|| x.num().map(u128::from))?), show(jr(|| x.numh())?)],
        |y| vec![show(Some(y.size())), show(y.num().ok()), show(y.numh().ok())];
    seqners, w::SeqnerWrapper, Seqner,
        |x| vec![show(js(|| x.size())?), show(jr(|| x.sn().map(u128::from))?), show(jr(|| x.snh())?)],
        |y| vec![show(Some(y.size())), show(y.sn().ok()), show(y.snh().ok())];
}

mod tholders {
    use super::*;
    pub fn wasm(x: &w::TholderWrapper) -> Result<View, String> {
        let mut v = vec![
            show(js(|| x.thold().value())?),
            show((x.weighted(), x.size())),
            show(jr(|| x.num())?),
            show(jr(|| x.limen())?),
            show(jr(|| x.sith().map(|v| v.value()))?),
            show(jr(|| x.to_json())?),
        ];
        for ix in INDICES {
            v.push(show(jr(|| x.satisfy(ix))?));
        }
        match x.number() {
            Some(n) => v.extend(numbers::wasm(&n)?),
            None => v.push("no number".into()),
        }
        match x.bexter() {
            Some(n) => v.extend(bexters::wasm(&n)?),
            None => v.push("no bexter".into()),
        }
        Ok(v)
    }
    pub fn core(y: &Tholder) -> View {
        let mut v = vec![
            show(y.thold().to_json().ok()),
            show((y.weighted(), y.size())),
            show(y.num().ok()),
            show(y.limen().ok()),
            show(y.sith().ok().map(|s| s.to_json().unwrap())),
            show(y.to_json().ok()),
        ];
        for ix in INDICES {
            v.push(show(y.satisfy(ix).ok()));
        }
        match y.number() {
            Some(n) => v.extend(numbers::core(&n)),
            None => v.push("no number".into()),
        }
        match y.bexter() {
            Some(n) => v.extend(bexters::core(&n)),
            None => v.push("no bexter".into()),
        }
        v
    }
}

const INDICES: &[&[u32]] = &[&[], &[0], &[1], &[0, 1], &[0, 0], &[1, 2], &[0, 1, 2], &[3], &[u32::MAX], &[2, 1, 0, 5]];

mod serders {
    use super::*;
    pub fn wasm(x: &w::SerderWrapper) -> Result<View, String> {
        let mut v = vec![x.code(), show(x.raw()), x.ked().value(), x.ident(), x.kind(), show(x.size())];
        v.extend(saiders::wasm(&x.saider())?);
        for t in [jr(|| x.tholder())?, jr(|| x.ntholder())?] {
            match t {
                Some(Some(t)) => v.extend(tholders::wasm(&t)?),
                Some(None) => v.push("none".into()),
                None => v.push("error".into()),
            }
        }
        match jr(|| x.sner())? {
            Some(n) => v.extend(numbers::wasm(&n)?),
            None => v.push("error".into()),
        }
        match jr(|| x.fner())? {
            Some(Some(n)) => v.extend(numbers::wasm(&n)?),
            Some(None) => v.push("none".into()),
            None => v.push("error".into()),
        }
        v.push(show(jr(|| x.sn().map(u128::from))?));
        v.push(show(jr(|| x._fn().map(u128::from))?));
        for a in [jr(|| x.verfers())?, jr(|| x.werfers())?] {
            v.push(show(a.map(|a| items(&a, verfers::wasm)).transpose()?));
        }
        v.push(show(jr(|| x.digers())?.map(|a| items(&a, digers::wasm)).transpose()?));
        Ok(v)
    }
    pub fn core(y: &Serder) -> View {
        let mut v = vec![y.code(), show(y.raw()), y.ked().to_json().unwrap(), y.ident(), y.kind(), show(y.size())];
        v.extend(saiders::core(&y.saider()));
        for t in [y.tholder(), y.ntholder()] {
            match t {
                Ok(Some(t)) => v.extend(tholders::core(&t)),
                Ok(None) => v.push("none".into()),
                Err(_) => v.push("error".into()),
            }
        }
        match y.sner() {
            Ok(n) => v.extend(numbers::core(&n)),
            Err(_) => v.push("error".into()),
        }
        match y.fner() {
            Ok(Some(n)) => v.extend(numbers::core(&n)),
            Ok(None) => v.push("none".into()),
            Err(_) => v.push("error".into()),
        }
        v.push(show(y.sn().ok()));
        v.push(show(y._fn().ok()));
        for a in [y.verfers(), y.werfers()] {
            v.push(show(a.ok().map(|a| a.iter().map(verfers::core).collect::<Vec<View>>())));
        }
        v.push(show(y.digers().ok().map(|a| a.iter().map(digers::core).collect::<Vec<View>>())));
        v
    }
}

fn s(t: Option<&str>) -> Option<String> {
    t.map(String::from)
}

fn b(t: Option<&[u8]>) -> Option<Vec<u8>> {
    t.map(|x| x.to_vec())
}

/// (text, raw, code) of every kind of primitive
fn pool() -> Vec<(String, Vec<u8>, &'static str)> {
    let mut v = vec![];
    for m in spec::MATTER {
        for n in if m.var() { vec![0usize, 1, 2, 3, 30, 300] } else { vec![m.raw()] } {
            let raw = c09::seed(n + 7).into_iter().cycle().take(n).collect::<Vec<u8>>();
            if let Some((_, t)) = spec::m_encode(m.code, &raw) {
                v.push((t, raw, m.code));
            }
        }
    }
    for c in ["A", "J", "Q"] {
        for tr in [false, true] {
            let code = c09::verfer_code(c, tr);
            let raw = c09::public(c, &c09::seed(1)).unwrap();
            v.push((spec::m_encode(code, &raw).unwrap().1, raw, code));
        }
    }
    v.push(("1AAG2020-08-22T17c50c09d988921p00c00".into(), vec![], "1AAG"));
    v.push(("6AABAAAA".into(), b"abc".to_vec(), "zz"));
    v.push(("".into(), vec![], ""));
    v.push(("é".into(), vec![0xff], "é"));
    v
}

/// constructors taken by all primitives
macro_rules! common {
    ($o:expr, $t:expr, $wt:ident, $ct:ident, $view:ident) => {{
        let (t, raw, code) = $t;
        let cut = t.chars().take(t.chars().count().max(1) - 1).collect::<String>();
        for x in [t.to_string(), format!("{t}AAAA"), cut, "not".into(), String::new(), format!(" {t}"), format!("{t} "), format!("{t}\n"), t.repeat(40)] {
            pair!($o, concat!(stringify!($ct), "::new_with_qb64b"), w::$wt::new_with_qb64b(x.as_bytes()), $ct::new_with_qb64b(x.as_bytes()), $view);
            pair!($o, concat!(stringify!($ct), "::new_with_qb64"), w::$wt::new_with_qb64(&x), $ct::new_with_qb64(&x), $view);
            let bin = spec::dec4(x.as_bytes()).unwrap_or_default();
            pair!($o, concat!(stringify!($ct), "::new_with_qb2"), w::$wt::new_with_qb2(&bin), $ct::new_with_qb2(&bin), $view);
        }
        for c in [None, Some(*code), Some("zz"), Some(""), Some(&format!("{code} ")[..]), Some(&format!(" {code}")[..])] {
            for r in [&raw[..], &raw[..raw.len().saturating_sub(1)], &[], &raw.repeat(40)] {
                pair!($o, concat!(stringify!($ct), "::new_with_raw"), w::$wt::new_with_raw(r, s(c)), $ct::new_with_raw(r, c), $view);
            }
        }
    }};
}

/// every choice of the options, each given and not
struct Given {
    bits: u32,
    at: u32,
}

impl Given {
    fn new(bits: u32) -> Self {
        Given { bits, at: 0 }
    }
    fn pick<T>(&mut self, t: T) -> Option<T> {
        self.at += 1;
        (self.bits >> (self.at - 1) & 1 == 1).then_some(t)
    }
}

// the general constructors, each argument given and not
fn general(t: &str, raw: &[u8], code: &str, bin: &[u8], o: &mut Obs) -> R {
    for bits in 0..32u32 {
        let mut g = Given::new(bits);
        let (c, r, qb, q, q2) = (g.pick(code), g.pick(&raw[..]), g.pick(t.as_bytes()), g.pick(&t[..]), g.pick(&bin[..]));
        pair!(o, "Verfer::new", w::VerferWrapper::new(s(c), b(r), b(qb), s(q), b(q2)), Verfer::new(c, r, qb, q, q2), verfers);
        let long = "a".repeat(1000);
        for x in ["", " 2020-08-22T17:50:09.988921+00:00", "2020-08-22T17:50:09.988921+00:00\n", &long] {
            let y = Some(x.as_bytes());
            pair!(o, "Diger::new", w::DigerWrapper::new(b(y), s(c), b(r), b(qb), s(q), b(q2)), Diger::new(y, c, r, qb, q, q2), digers);
            pair!(o, "Dater::new", w::DaterWrapper::new(s(Some(x)), s(c), b(r), b(qb), s(q), b(q2)), Dater::new(Some(x), c, r, qb, q, q2), daters);
            pair!(o, "Bexter::new", w::BexterWrapper::new(s(Some(x)), s(c), b(r), b(qb), s(q), b(q2)), Bexter::new(Some(x), c, r, qb, q, q2), bexters);
        }
        for x in [None, Some(&b"2020-08-22T17:50:09.988921+00:00"[..])] {
            let xt = x.map(|x| std::str::from_utf8(x).unwrap());
            pair!(o, "Diger::new", w::DigerWrapper::new(b(x), s(c), b(r), b(qb), s(q), b(q2)), Diger::new(x, c, r, qb, q, q2), digers);
            if bits & 30 == 0 && xt.is_none() {
                // the time of the call
                let now = jr(|| w::DaterWrapper::new(None, s(c), None, None, None, None).ok().unwrap().dts())?;
                let core = Dater::new(None, c, None, None, None, None).is_ok();
                same!(now.is_some_and(|t| t.len() == 32 && t.ends_with("+00:00")), core, "the time of the call");
            } else {
                pair!(o, "Dater::new", w::DaterWrapper::new(s(xt), s(c), b(r), b(qb), s(q), b(q2)), Dater::new(xt, c, r, qb, q, q2), daters);
            }
            for xt in [xt, xt.map(|_| "abc_-"), xt.map(|_| ""), xt.map(|_| " abc"), xt.map(|_| "abc\n")] {
                pair!(o, "Bexter::new", w::BexterWrapper::new(s(xt), s(c), b(r), b(qb), s(q), b(q2)), Bexter::new(xt, c, r, qb, q, q2), bexters);
            }
        }
        for n in [None, Some(u128::from(u64::MAX) << 32)] {
            for h in [None, Some("1f"), Some(""), Some(" 1f"), Some("1f ")] {
                let u = || n.map(w::U128Wrapper::from);
                pair!(o, "Number::new", w::NumberWrapper::new(u(), s(h), s(c), b(r), b(qb), s(q), b(q2)), Number::new(n, h, c, r, qb, q, q2), numbers);
                pair!(o, "Seqner::new", w::SeqnerWrapper::new(u(), s(h), s(c), b(r), b(qb), s(q), b(q2)), Seqner::new(n, h, c, r, qb, q, q2), seqners);
            }
        }
        let v = Verfer::new_with_raw(&c09::public("J", &c09::seed(3)).unwrap(), Some("1AAB")).unwrap();
        let wv = w::VerferWrapper::new_with_raw(&v.raw(), s(Some("1AAB"))).ok().unwrap();
        for with in [false, true] {
            let (a, x) = (with.then(|| wv.clone()), with.then_some(&v));
            pair!(o, "Cigar::new", w::CigarWrapper::new(a, s(c), b(r), b(qb), s(q), b(q2)), Cigar::new(x, c, r, qb, q, q2), cigars);
        }
        if bits & 30 != 0 {
            // otherwise random
            for tr in [None, Some(false), Some(true)] {
                pair!(o, "Signer::new", w::SignerWrapper::new(tr, s(c), b(r), b(qb), s(q), b(q2)), Signer::new(tr, c, r, qb, q, q2), signers);
            }
            for tier in [None, Some("low"), Some("med"), Some("high"), Some("none")] {
                pair!(o, "Salter::new", w::SalterWrapper::new(s(tier), s(c), b(r), b(qb), s(q), b(q2)), Salter::new(tier, c, r, qb, q, q2), salters);
            }
        }
        for l in [None, Some("i")] {
            for sad in [None, Some(json!({"i": "", "d": "", "x": 1}))] {
                let wv = || sad.as_ref().map(|j| w::ValueWrapper::new(&dump(j)).ok().unwrap());
                let cv = sad.as_ref().map(val);
                pair!(o, "Saider::new", w::SaiderWrapper::new(wv(), s(l), None, None, s(c), b(r), b(qb), s(q), b(q2)), Saider::new(cv.as_ref(), l, None, None, c, r, qb, q, q2), saiders);
                pair!(o, "Prefixer::new", w::PrefixerWrapper::new(wv(), None, s(c), b(r), b(qb), s(q), b(q2)), Prefixer::new(cv.as_ref(), None, c, r, qb, q, q2), prefixers);
            }
        }
    }
    Ok(())
}

fn primitives(t: &(String, Vec<u8>, &'static str), o: &mut Obs) -> R {
    common!(o, t, VerferWrapper, Verfer, verfers);
    common!(o, t, DigerWrapper, Diger, digers);
    common!(o, t, SaiderWrapper, Saider, saiders);
    common!(o, t, PrefixerWrapper, Prefixer, prefixers);
    common!(o, t, DaterWrapper, Dater, daters);
    common!(o, t, BexterWrapper, Bexter, bexters);
    common!(o, t, NumberWrapper, Number, numbers);
    common!(o, t, SeqnerWrapper, Seqner, seqners);
    let (t, raw, code) = t;
    let bin = spec::dec4(t.as_bytes()).unwrap_or_default();
    general(t, raw, code, &bin, o)?;
    // given, and empty
    general("", &[], "", &[], o)?;
    general(t, raw, "", &bin, o)?;
    // the forms that are nearly right
    general(&format!("{t} "), raw, &format!("{code} "), &bin, o)?;
    general(&format!(" {t}"), &raw.repeat(40), &format!(" {code}"), &bin.repeat(40), o)?;
    general(&t.repeat(40), &raw[..raw.len().saturating_sub(1)], code, &bin[..bin.len().saturating_sub(1)], o)?;
    for x in [&t[..], "", "a", "abcd", "2020-08-22T17:50:09.988921+00:00", "2020-08-22T17:50:09.988921Z", "é", "a_b/c", " abcd", "abcd ", "2020-08-22T17:50:09.988921+00:00 ", &t.repeat(40), &"a".repeat(4097)] {
        for c in [None, Some(*code), Some("1AAG"), Some("4A"), Some(""), Some("1AAG ")] {
            pair!(o, "Dater::new_with_dts", w::DaterWrapper::new_with_dts(x, s(c)), Dater::new_with_dts(x, c), daters);
        }
        pair!(o, "Bexter::new_with_bext", w::BexterWrapper::new_with_bext(x), Bexter::new_with_bext(x), bexters);
    }
    // with one more argument
    for t in [&t[..], &format!(" {t}"), &format!("{t} "), &format!("{t}\n"), &format!("\n{t}"), &t.repeat(40), ""] {
        with_more(t, raw, code, &spec::dec4(t.as_bytes()).unwrap_or_default(), o)?;
    }
    with_more(t, &raw.repeat(40), code, &bin, o)
}

fn with_more(t: &str, raw: &[u8], code: &str, bin: &[u8], o: &mut Obs) -> R {
    let v = Verfer::new_with_raw(&c09::public("A", &c09::seed(3)).unwrap(), Some("D")).unwrap();
    let wv = w::VerferWrapper::new_with_raw(&v.raw(), s(Some("D"))).ok().unwrap();
    for with in [false, true] {
        let a = || with.then(|| wv.clone());
        let x = with.then_some(&v);
        pair!(o, "Cigar::new_with_qb64", w::CigarWrapper::new_with_qb64(t, a()), Cigar::new_with_qb64(t, x), cigars);
        pair!(o, "Cigar::new_with_qb64b", w::CigarWrapper::new_with_qb64b(t.as_bytes(), a()), Cigar::new_with_qb64b(t.as_bytes(), x), cigars);
        pair!(o, "Cigar::new_with_qb2", w::CigarWrapper::new_with_qb2(bin, a()), Cigar::new_with_qb2(bin, x), cigars);
        for c in [None, Some(code), Some(""), Some(&format!("{code} ")[..])] {
            pair!(o, "Cigar::new_with_raw", w::CigarWrapper::new_with_raw(raw, a(), s(c)), Cigar::new_with_raw(raw, x, c), cigars);
        }
    }
    for tr in [None, Some(false), Some(true)] {
        pair!(o, "Signer::new_with_qb64", w::SignerWrapper::new_with_qb64(t, tr), Signer::new_with_qb64(t, tr), signers);
        pair!(o, "Signer::new_with_qb64b", w::SignerWrapper::new_with_qb64b(t.as_bytes(), tr), Signer::new_with_qb64b(t.as_bytes(), tr), signers);
        pair!(o, "Signer::new_with_qb2", w::SignerWrapper::new_with_qb2(bin, tr), Signer::new_with_qb2(bin, tr), signers);
        for c in [None, Some(code), Some(""), Some(&format!("{code} ")[..])] {
            pair!(o, "Signer::new_with_raw", w::SignerWrapper::new_with_raw(raw, tr, s(c)), Signer::new_with_raw(raw, tr, c), signers);
        }
    }
    for tier in [None, Some("low"), Some("med"), Some("high"), Some("x"), Some(""), Some("high ")] {
        pair!(o, "Salter::new_with_qb64", w::SalterWrapper::new_with_qb64(t, s(tier)), Salter::new_with_qb64(t, tier), salters);
        pair!(o, "Salter::new_with_qb64b", w::SalterWrapper::new_with_qb64b(t.as_bytes(), s(tier)), Salter::new_with_qb64b(t.as_bytes(), tier), salters);
        pair!(o, "Salter::new_with_qb2", w::SalterWrapper::new_with_qb2(bin, s(tier)), Salter::new_with_qb2(bin, tier), salters);
        for c in [None, Some(code), Some(""), Some(&format!("{code} ")[..])] {
            pair!(o, "Salter::new_with_raw", w::SalterWrapper::new_with_raw(raw, s(c), s(tier)), Salter::new_with_raw(raw, c, tier), salters);
        }
    }
    Ok(())
}

fn indexed(o: &mut Obs, code: &str, index: u32, ondex: u32) -> R {
    let raw = spec::filler(64, 4);
    let v = Verfer::new_with_raw(&c09::public("Q", &c09::seed(3)).unwrap(), Some("1AAJ")).unwrap();
    let wv = w::VerferWrapper::new_with_raw(&v.raw(), s(Some("1AAJ"))).ok().unwrap();
    let t = spec::i_build(code, &raw, index, None).map(|i| spec::i_text(&i)).unwrap_or("A".into());
    for (code, t) in [(code, t.clone()), (&format!("{code} "), format!(" {t}")), (&format!(" {code}"), format!("{t}\n")), ("", String::new())] {
        indexed_as(o, code, index, ondex, &raw, &t, &v, &wv)?;
    }
    Ok(())
}

fn indexed_as(o: &mut Obs, code: &str, index: u32, ondex: u32, raw: &[u8], t: &str, v: &Verfer, wv: &w::VerferWrapper) -> R {
    let bin = spec::dec4(t.as_bytes()).unwrap_or_default();
    for bits in 0..256u32 {
        let mut g = Given::new(bits);
        let (i, n, c, r) = (g.pick(index), g.pick(ondex), g.pick(code), g.pick(raw));
        let (qb, q, q2, has) = (g.pick(t.as_bytes()), g.pick(t), g.pick(&bin[..]), g.pick(()).is_some());
        let (a, x) = (has.then(|| wv.clone()), has.then_some(v));
        pair!(o, "Siger::new", w::SigerWrapper::new(a.clone(), i, n, s(c), b(r), b(qb), s(q), b(q2)), Siger::new(x, i, n, c, r, qb, q, q2), sigers);
        if bits >> 4 & 7 == 0 {
            pair!(o, "Siger::new_with_raw", w::SigerWrapper::new_with_raw(raw, a.clone(), i, n, s(c)), Siger::new_with_raw(raw, x, i, n, c), sigers);
            pair!(o, "Siger::new_with_qb64", w::SigerWrapper::new_with_qb64(t, a.clone()), Siger::new_with_qb64(t, x), sigers);
            pair!(o, "Siger::new_with_qb64b", w::SigerWrapper::new_with_qb64b(t.as_bytes(), a.clone()), Siger::new_with_qb64b(t.as_bytes(), x), sigers);
            pair!(o, "Siger::new_with_qb2", w::SigerWrapper::new_with_qb2(&bin, a), Siger::new_with_qb2(&bin, x), sigers);
        }
    }
    Ok(())
}

fn u128s(n: u128, o: &mut Obs) -> R {
    same!(u128::from(w::U128Wrapper::from(n)), n, "through the binding's words");
    pair!(o, "Number::new_with_num", w::NumberWrapper::new_with_num(n.into()), Number::new_with_num(n), numbers);
    pair!(o, "Seqner::new_with_sn", w::SeqnerWrapper::new_with_sn(n.into()), Seqner::new_with_sn(n), seqners);
    for h in [format!("{n:x}"), format!("{n:X}"), format!("{n:x}g"), format!("0{n:x}"), format!("{n:x} "), format!(" {n:x}"), format!("+{n:x}"), format!("{n:x}").repeat(40), "".into()] {
        pair!(o, "Number::new_with_numh", w::NumberWrapper::new_with_numh(&h), Number::new_with_numh(&h), numbers);
        pair!(o, "Seqner::new_with_snh", w::SeqnerWrapper::new_with_snh(&h), Seqner::new_with_snh(&h), seqners);
    }
    for c in ["M", "0H", "N", "0A", "H", "", "N "] {
        let n = Some(n);
        let u = || n.map(w::U128Wrapper::from);
        pair!(o, "Number::new", w::NumberWrapper::new(u(), None, s(Some(c)), None, None, None, None), Number::new(n, None, Some(c), None, None, None, None), numbers);
    }
    Ok(())
}

fn thresholds(j: &J, o: &mut Obs) -> R {
    let t = dump(j);
    let v = val(j);
    let wv = || w::ValueWrapper::new(&t).ok().unwrap();
    same!(wv().value(), t, "the value");
    pair!(o, "Tholder::new_with_sith", w::TholderWrapper::new_with_sith(wv()), Tholder::new_with_sith(&v), tholders);
    pair!(o, "Tholder::new_with_thold", w::TholderWrapper::new_with_thold(wv()), Tholder::new_with_thold(&v), tholders);
    let limen = Tholder::new_with_sith(&v).and_then(|t| t.limen()).unwrap_or(b"4AAA".to_vec());
    pair!(o, "Tholder::new_with_limen", w::TholderWrapper::new_with_limen(&limen), Tholder::new_with_limen(&limen), tholders);
    for (bits, limen) in (0..8).flat_map(|b| [&limen[..], &[], b"4AAA\n"].map(|l| (b, l))) {
        let mut g = Given::new(bits);
        let (a, l, z) = (g.pick(()), g.pick(limen), g.pick(()));
        let two = val(&json!("2"));
        let wtwo = || w::ValueWrapper::new("\"2\"").ok().unwrap();
        pair!(
            o,
            "Tholder::new",
            w::TholderWrapper::new(a.map(|_| wv()), b(l), z.map(|_| wtwo())),
            Tholder::new(a.map(|_| &v), l, z.map(|_| &two)),
            tholders
        );
    }
    Ok(())
}

const IGNORES: &[Option<&[&str]>] = &[None, Some(&[]), Some(&["x"]), Some(&["i", "d"]), Some(&["v", "zz"])];
const ALLOWS: &[Option<&[&str]>] = &[None, Some(&[]), Some(&["D"]), Some(&["E", "D"]), Some(&["B", "x"])];

fn documents(j: &J, o: &mut Obs) -> R {
    let t = dump(j);
    let v = val(j);
    let wv = || w::ValueWrapper::new(&t).ok().unwrap();
    for code in [None, Some("E"), Some("F"), Some("0D"), Some("D"), Some("B"), Some("zz")] {
        for kind in [None, Some("JSON"), Some("CBOR")] {
            pair!(o, "Serder::new_with_ked", w::SerderWrapper::new_with_ked(wv(), s(code), s(kind)), Serder::new_with_ked(&v, code, kind), serders);
            for label in [None, Some("d"), Some("i"), Some("x")] {
                for ignore in IGNORES {
                    let ig = *ignore;
                    o.steps(2);
                    let a = je(|| w::SaiderWrapper::saidify(wv(), s(code), s(kind), s(label), array(ig)))?;
                    match (a, Saider::saidify(&v, code, kind, label, ig)) {
                        (Ok(a), Ok((c, k))) => {
                            same!(saiders::wasm(&a.saider())?, saiders::core(&c), "saidify: identifier");
                            same!(a.value(), k.to_json().unwrap(), "saidify: document");
                            let k2 = || w::ValueWrapper::new(&a.value()).ok().unwrap();
                            for p in [None, Some(false), Some(true)] {
                                for ver in [None, Some(false), Some(true)] {
                                    pair!(o, "Saider::verify", a.saider().verify(k2(), p, ver, s(kind), s(label), array(ig)), c.verify(&k, p, ver, kind, label, ig), bools);
                                    pair!(o, "Saider::verify", a.saider().verify(wv(), p, ver, s(kind), s(label), array(ig)), c.verify(&v, p, ver, kind, label, ig), bools);
                                }
                            }
                            // options of one another's values
                            pair!(o, "Saider::verify", a.saider().verify(k2(), None, None, s(label), s(kind), None), c.verify(&k, None, None, label, kind, None), bools);
                        }
                        (Err(a), Err(c)) => same!(a, c.to_string(), "saidify: the error"),
                        (a, c) => return Err(format!("saidify: the binding {}, the core {}", a.is_ok(), c.is_ok())),
                    }
                    pair!(o, "Saider::new_with_sad", w::SaiderWrapper::new_with_sad(wv(), s(label), s(kind), array(ig), s(code)), Saider::new_with_sad(&v, label, kind, ig, code), saiders);
                    if kind.is_none() {
                        pair!(o, "Saider::new", w::SaiderWrapper::new(Some(wv()), s(label), s(kind), array(ig), s(code), None, None, None, None), Saider::new(Some(&v), label, kind, ig, code, None, None, None, None), saiders);
                    }
                }
            }
        }
        for allow in ALLOWS {
            let al = *allow;
            pair!(o, "Prefixer::new_with_ked", w::PrefixerWrapper::new_with_ked(wv(), array(al), s(code)), Prefixer::new_with_ked(&v, al, code), prefixers);
            pair!(o, "Prefixer::new", w::PrefixerWrapper::new(Some(wv()), array(al), s(code), None, None, None, None), Prefixer::new(Some(&v), al, code, None, None, None, None), prefixers);
        }
        for pre in [key("D", 1), key("E", 1), key("B", 1)] {
            let (a, c) = (w::PrefixerWrapper::new_with_qb64(&pre).ok().unwrap(), Prefixer::new_with_qb64(&pre).unwrap());
            for p in [None, Some(false), Some(true)] {
                pair!(o, "Prefixer::verify", a.verify(wv(), p), c.verify(&v, p), bools);
            }
        }
    }
    if let Ok(p) = Prefixer::new_with_ked(&v, None, Some("E")) {
        let a = w::PrefixerWrapper::new_with_qb64(&p.qb64().unwrap()).ok().unwrap();
        for x in [None, Some(false), Some(true)] {
            pair!(o, "Prefixer::verify", a.verify(wv(), x), p.verify(&v, x), bools);
        }
    }
    // events addressed under every algorithm
    for code in spec::DIGESTS {
        let Ok((_, k)) = Saider::saidify(&v, Some(code), None, None, None) else { continue };
        let k = k.to_json().unwrap();
        let ked = val(&serde_json::from_str(&k).unwrap());
        let wk = || w::ValueWrapper::new(&k).ok().unwrap();
        for c in [None, Some(*code), Some("E"), Some("0D"), Some(&format!("{code} ")[..])] {
            for kind in [None, Some("JSON"), Some("CBOR")] {
                pair!(o, "Serder::new_with_ked", w::SerderWrapper::new_with_ked(wk(), s(c), s(kind)), Serder::new_with_ked(&ked, c, kind), serders);
                pair!(o, "Serder::new", w::SerderWrapper::new(s(c), None, s(kind), Some(wk()), None), Serder::new(c, None, kind, Some(&ked), None), serders);
                pair!(o, "Serder::new", w::SerderWrapper::new(s(c), b(Some(k.as_bytes())), s(kind), None, None), Serder::new(c, Some(k.as_bytes()), kind, None, None), serders);
            }
        }
    }
    // options that are nearly right, one at a time
    let many: Vec<String> = (0..300).map(|i| format!("x{i}")).chain(["i".into(), "d".into()]).collect();
    let many: Vec<&str> = many.iter().map(String::as_str).collect();
    let odd = |n: usize, at: usize, t: &'static [&'static str]| (n == at).then_some(t).unwrap_or(&[]).iter().map(|x| Some(*x)).chain([None]);
    for at in 0..4 {
        for code in odd(0, at, &["", "E ", " E"]) {
            for kind in odd(1, at, &["", "JSON ", "json"]) {
                for label in odd(2, at, &["", "d ", " d", "D"]) {
                    for ig in odd(3, at, &["", " i"]).map(|x| x.map(|x| vec![x])).chain([(at == 3).then(|| many.clone())]) {
                        let ig = ig.as_deref();
                        pair!(o, "Serder::new_with_ked", w::SerderWrapper::new_with_ked(wv(), s(code), s(kind)), Serder::new_with_ked(&v, code, kind), serders);
                        pair!(o, "Saider::saidify", w::SaiderWrapper::saidify(wv(), s(code), s(kind), s(label), array(ig)).map(|r| r.saider()), Saider::saidify(&v, code, kind, label, ig).map(|r| r.0), saiders);
                        pair!(o, "Saider::new_with_sad", w::SaiderWrapper::new_with_sad(wv(), s(label), s(kind), array(ig), s(code)), Saider::new_with_sad(&v, label, kind, ig, code), saiders);
                        pair!(o, "Saider::new", w::SaiderWrapper::new(Some(wv()), s(label), s(kind), array(ig), s(code), None, None, None, None), Saider::new(Some(&v), label, kind, ig, code, None, None, None, None), saiders);
                        pair!(o, "Prefixer::new_with_ked", w::PrefixerWrapper::new_with_ked(wv(), array(ig), s(code)), Prefixer::new_with_ked(&v, ig, code), prefixers);
                        pair!(o, "Prefixer::new", w::PrefixerWrapper::new(Some(wv()), array(ig), s(code), None, None, None, None), Prefixer::new(Some(&v), ig, code, None, None, None, None), prefixers);
                        if let (Ok(k), Ok(c)) = (w::SaiderWrapper::saidify(wv(), None, None, None, None), Saider::saidify(&v, None, None, None, None)) {
                            let k2 = || w::ValueWrapper::new(&k.value()).ok().unwrap();
                            pair!(o, "Saider::verify", k.saider().verify(k2(), None, None, s(kind), s(label), array(ig)), c.0.verify(&c.1, None, None, kind, label, ig), bools);
                        }
                    }
                }
            }
        }
    }
    // the general constructor
    let raw = sized(&obj(j)).map(|d| dump(&J::Object(d)).into_bytes()).unwrap_or(t.clone().into_bytes());
    let sad = json!({"v": "KERI10JSON000000_", "d": key("E", 3), "z": 1});
    let (cut, more) = (&raw[..raw.len() - 1], [&raw[..], &[b' '; 300]].concat());
    for (bits, (code, raw, kind)) in [("E", &raw[..], "JSON"), ("", &[], ""), ("E ", cut, "JSON "), ("0D", &more, "CBOR")].into_iter().flat_map(|v| (0..32).map(move |b| (b, v))) {
        let mut g = Given::new(bits);
        let (c, r, k, ked, old) = (g.pick(code), g.pick(raw), g.pick(kind), g.pick(()), g.pick(()));
        let core_sad = Serder::new_with_ked(&val(&sad), None, None).ok();
        let wasm_sad = jr(|| w::SerderWrapper::new_with_ked(w::ValueWrapper::new(&dump(&sad)).ok().unwrap(), None, None))?;
        ensure!(core_sad.is_some() == wasm_sad.is_some(), "the other event");
        pair!(
            o,
            "Serder::new",
            w::SerderWrapper::new(s(c), b(r), s(k), ked.map(|_| wv()), old.and(wasm_sad)),
            Serder::new(c, r, k, ked.map(|_| &v), old.and(core_sad.as_ref())),
            serders
        );
    }
    Ok(())
}

fn signing(suite: &str, tr: bool, o: &mut Obs) -> R {
    let sd = c09::seed(5);
    let a = w::SignerWrapper::new_with_raw(&sd, Some(tr), s(Some(suite))).ok().unwrap();
    let c = Signer::new_with_raw(&sd, Some(tr), Some(suite)).unwrap();
    let random = suite != "A"; // signatures of the curve suites draw a nonce each time
    for msg in [&b""[..], b"a", &[0xff; 100], &[7; 300], &[7; 70_000]] {
        if random {
            let x = jr(|| a.sign_unindexed(msg))?.ok_or("no signature")?;
            let y = c.sign_unindexed(msg).unwrap();
            o.steps(4);
            same!((x.code(), x.size(), x.raw().len()), (y.code(), y.size(), y.raw().len()), "sign_unindexed");
            same!(verfers::wasm(&x.verfer())?, verfers::core(&y.verfer()), "sign_unindexed: key");
            ensure!(c.verfer().verify(&x.raw(), msg).unwrap(), "the binding's signature fails");
        } else {
            pair!(o, "Signer::sign_unindexed", a.sign_unindexed(msg), c.sign_unindexed(msg), cigars);
        }
        for only in [false, true] {
            for index in [0, 1, 63, 64, 255, 256, 4095, 4096, 65535, 65536, u32::MAX] {
                for ondex in [None, Some(0), Some(1), Some(63), Some(64), Some(255), Some(256), Some(4095), Some(4096), Some(65535), Some(65536), Some(u32::MAX)] {
                    if msg.len() > 200 && index > 1 {
                        continue;
                    }
                    if random {
                        o.steps(2);
                        match (jr(|| a.sign_indexed(msg, only, index, ondex))?, c.sign_indexed(msg, only, index, ondex)) {
                            (None, Err(_)) => {}
                            (Some(x), Ok(y)) => {
                                same!((x.code(), x.raw().len(), x.index(), x.ondex()), (y.code(), y.raw().len(), y.index(), y.ondex()), "sign_indexed");
                                same!(verfers::wasm(&x.verfer())?, verfers::core(&y.verfer()), "sign_indexed: key");
                                ensure!(c.verfer().verify(&x.raw(), msg).unwrap(), "the binding's indexed signature fails");
                            }
                            (x, y) => return Err(format!("sign_indexed: the binding {}, the core {}", x.is_some(), y.is_ok())),
                        }
                        continue;
                    }
                    pair!(o, "Signer::sign_indexed", a.sign_indexed(msg, only, index, ondex), c.sign_indexed(msg, only, index, ondex), sigers);
                }
            }
        }
        let sig = c.sign_unindexed(msg).unwrap().raw();
        let mut bad = sig.clone();
        bad[10] ^= 1;
        for x in [&sig[..], &bad, &sig[..63], &[]] {
            for m in [msg, b"b"] {
                pair!(o, "Verfer::verify", a.verfer().verify(x, m), c.verfer().verify(x, m), bools);
            }
        }
    }
    Ok(())
}

fn digests(code: &str, o: &mut Obs) -> R {
    for ser in [&b""[..], b"abc", b" abc ", &[0x80; 200], &[0x80; 4097], &[1; 70_000]] {
        for c in [String::new(), format!("{code} "), format!(" {code}")] {
            pair!(o, "Diger::new_with_ser", w::DigerWrapper::new_with_ser(ser, s(Some(&c))), Diger::new_with_ser(ser, Some(&c)), digers);
        }
        pair!(o, "Diger::new_with_ser", w::DigerWrapper::new_with_ser(ser, s(Some(code))), Diger::new_with_ser(ser, Some(code)), digers);
        pair!(o, "Diger::new_with_ser", w::DigerWrapper::new_with_ser(ser, None), Diger::new_with_ser(ser, None), digers);
        let (Some(a), Ok(c)) = (jr(|| w::DigerWrapper::new_with_ser(ser, s(Some(code))))?, Diger::new_with_ser(ser, Some(code))) else { continue };
        for x in [&b""[..], b"abc", b" abc ", &[0x80; 200], &[0x80; 4097], &[0x80; 4096], &[1; 70_000]] {
            pair!(o, "Diger::verify", a.verify(x), c.verify(x), bools);
            for other in spec::DIGESTS {
                for y in [&b""[..], b"abc"] {
                    let d = Diger::new_with_ser(y, Some(other)).unwrap();
                    let wd = w::DigerWrapper::new_with_ser(y, s(Some(other))).ok().unwrap();
                    let dig = d.qb64b().unwrap();
                    pair!(o, "Diger::compare with bytes", a.compare_dig(x, &dig), c.compare(x, Some(&dig), None), bools);
                    pair!(o, "Diger::compare with a digest", a.compare_diger(x, &wd), c.compare(x, None, Some(&d)), bools);
                }
            }
            pair!(o, "Diger::compare with bytes", a.compare_dig(x, b"no"), c.compare(x, Some(b"no"), None), bools);
        }
    }
    Ok(())
}

struct Given7<'a>(&'a str, bool, &'a str, &'a str, usize, usize, usize);

fn salts(bits: u32, o: &mut Obs) -> R {
    let long = "0/".repeat(300);
    for all in [
        Given7("J", false, "pa", "med", 2, 3, 19),
        Given7("A", true, "", "", 0, 0, 0),
        Given7("", false, " pa", "low ", 1, 255, 300),
        Given7("Q", true, "pa ", "high", 18, 256, 66_000),
        Given7("zz", false, &long, "low", 300, 65_535, 32),
        Given7("A ", true, "\u{0}é", "x", 1, usize::MAX, 4),
    ] {
        salts_with(bits, &all, o)?;
    }
    Ok(())
}

fn salts_with(bits: u32, all: &Given7, o: &mut Obs) -> R {
    let raw = b"0123456789abcdef";
    let a = w::SalterWrapper::new_with_raw(raw, None, s(Some("low"))).ok().unwrap();
    let c = Salter::new_with_raw(raw, None, Some("low")).unwrap();
    let mut g = Given::new(bits);
    let (code, trans, path, tier, count, start) = (g.pick(all.0), g.pick(all.1), g.pick(all.2), g.pick(all.3), g.pick(all.4), g.pick(all.5));
    let size = g.pick(all.6);
    let temp = Some(true);
    pair!(o, "Salter::stretch", a.stretch(size, s(path), s(tier), temp), c.stretch(size, path, tier, temp), bytes);
    pair!(o, "Salter::signer", a.signer(s(code), trans, s(path), s(tier), temp), c.signer(code, trans, path, tier, temp), signers);
    o.steps(2);
    let x = jr(|| a.signers(count, start, s(path), s(code), trans, s(tier), temp))?;
    match (x, c.signers(count, start, path, code, trans, tier, temp)) {
        (Some(x), Ok(y)) => {
            same!((x.len(), x.is_empty()), (y.len(), y.is_empty()), "signers");
            for (i, y) in y.iter().enumerate() {
                same!(signers::wasm(&x.get(i).unwrap())?, signers::core(y), "signer {i}");
            }
            ensure!(x.get(y.len()).is_none(), "one signer too many");
        }
        (None, Err(_)) => {}
        (x, y) => return Err(format!("signers: the binding {}, the core {}", x.is_some(), y.is_ok())),
    }
    if bits < 2 && all.4 == 2 {
        for tier in ["low", "low ", "", "none"] {
            let temp = (bits == 1).then_some(false);
            let (a, c) = (w::SalterWrapper::new_with_raw(raw, None, s(Some("high"))).ok().unwrap(), Salter::new_with_raw(raw, None, Some("high")).unwrap());
            let (tier, count) = (Some(tier), Some(1));
            pair!(o, "Salter::stretch", a.stretch(None, None, s(tier), temp), c.stretch(None, None, tier, temp), bytes);
            pair!(o, "Salter::signer", a.signer(None, None, None, s(tier), temp), c.signer(None, None, None, tier, temp), signers);
            let x = jr(|| a.signers(count, None, None, None, None, s(tier), temp))?.map(|x| signers::wasm(&x.get(0).unwrap())).transpose()?;
            let y = c.signers(count, None, None, None, None, tier, temp).ok().map(|y| signers::core(&y[0]));
            same!(x, y, "Salter::signers at tier {tier:?}");
            // a fresh salt
            let x = jr(|| w::SalterWrapper::new_with_defaults(s(tier)))?.map(|x| (x.tier(), x.code(), x.size(), x.raw().len()));
            let y = Salter::new_with_defaults(tier).ok().map(|x| (x.tier(), x.code(), x.size(), x.raw().len()));
            same!(x, y, "Salter::new_with_defaults at tier {tier:?}");
        }
        // without the shortcut, at the lowest cost
        pair!(o, "Salter::stretch", a.stretch(None, None, s(Some("low")), (bits == 1).then_some(false)), c.stretch(None, None, Some("low"), (bits == 1).then_some(false)), bytes);
    }
    Ok(())
}

fn codes(o: &mut Obs) -> R {
    use w::CesrideIndexerCodex as I;
    use w::CesrideMatterCodex as M;
    macro_rules! m {
        ($($n:ident $c:expr),* $(,)?) => { $( same!(w::matter_codex_code(M::$n), $c.to_string(), "matter code {}", stringify!($n)); o.step(); )* };
    }
    macro_rules! i {
        ($($n:ident $c:expr),* $(,)?) => { $( same!(w::indexer_codex_code(I::$n), $c.to_string(), "indexer code {}", stringify!($n)); o.step(); )* };
    }
    m!(
        Ed25519Seed "A", Ed25519N "B", X25519 "C", Ed25519 "D", Blake3_256 "E", Blake2b_256 "F", Blake2s_256 "G", SHA3_256 "H", SHA2_256 "I",
        ECDSA_256k1_Seed "J", Ed448_Seed "K", X448 "L", Short "M", Big "N", X25519_Private "O", X25519_Cipher_Seed "P", Salt_128 "0A", Ed25519_Sig "0B",
        ECDSA_256k1_Sig "0C", Blake3_512 "0D", Blake2b_512 "0E", SHA3_512 "0F", SHA2_512 "0G", Long "0H", ECDSA_256k1N "1AAA", ECDSA_256k1 "1AAB",
        Ed448N "1AAC", Ed448 "1AAD", Ed448_Sig "1AAE", Tern "1AAF", DateTime "1AAG", X25519_Cipher_Salt "1AAH", TBD1 "2AAA", TBD2 "3AAA",
        StrB64_L0 "4A", StrB64_L1 "5A", StrB64_L2 "6A", StrB64_Big_L0 "7AAA", StrB64_Big_L1 "8AAA", StrB64_Big_L2 "9AAA",
        Bytes_L0 "4B", Bytes_L1 "5B", Bytes_L2 "6B", Bytes_Big_L0 "7AAB", Bytes_Big_L1 "8AAB", Bytes_Big_L2 "9AAB",
    );
    i!(
        Ed25519 "A", Ed25519_Crt "B", ECDSA_256k1 "C", ECDSA_256k1_Crt "D", Ed448 "0A", Ed448_Crt "0B", Ed25519_Big "2A", Ed25519_Big_Crt "2B",
        ECDSA_256k1_Big "2C", ECDSA_256k1_Big_Crt "2D", Ed448_Big "3A", Ed448_Big_Crt "3B", TBD0 "0z", TBD1 "1z", TBD4 "4z",
    );
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.case(|| "codes".into(), codes);
    let pool = pool();
    ctx.par(pool.len(), |i| {
        ctx.case(|| format!("primitives of {}", sh(&pool[i].0)), |o| primitives(&pool[i], o));
    });
    ctx.section("primitives");
    let ix: Vec<(&str, u32, u32)> = spec::INDEXER
        .iter()
        .map(|c| c.code)
        .chain(["zz"])
        .flat_map(|c| [0, 1, 63, 64, 4095, 4096, u32::MAX].into_iter().flat_map(move |i| [0, 1, 63, 64, 4095].into_iter().map(move |o| (c, i, o))))
        .collect();
    ctx.par(ix.len(), |i| {
        let (c, x, y) = ix[i];
        ctx.case(|| format!("indexed {c} {x} {y}"), |o| indexed(o, c, x, y));
    });
    ctx.section("indexed signatures");
    let mut nums: Vec<u128> = vec![0, u128::MAX, u64::MAX as u128, u32::MAX as u128, 1 << 64, (1 << 64) + 1, (5 << 64) | 9];
    for b in 0..128 {
        nums.extend([1u128 << b, (1u128 << b) - 1, !(1u128 << b), u128::MAX >> b]);
    }
    if ctx.thorough {
        nums.extend((0..70_000u128).flat_map(|n| [n, n << 48, n << 112, !n]));
    }
    ctx.par(nums.len(), |i| {
        ctx.case(|| format!("number {}", nums[i]), |o| u128s(nums[i], o));
    });
    ctx.section("numbers in two words");
    let ws = [json!("1"), json!("0"), json!("1/2"), json!("1/3"), json!("2/3"), json!("x"), json!(1)];
    let mut th: Vec<J> = vec![json!(0), json!(1), json!(2), json!(-1), json!(1.5), json!("0"), json!("1"), json!("2"), json!("ff"), json!("100000000"), json!(4294967296u64), json!(""), json!("x"), json!(null), json!(true), json!([]), json!([[]]), json!({})];
    for a in &ws {
        th.extend([json!([a]), json!([[a]])]);
        for b in &ws {
            th.extend([json!([a, b]), json!([[a, b]]), json!([[a], [b]])]);
            for c in &ws {
                th.extend([json!([a, b, c]), json!([[a, b], [c]]), json!([[a], [b, c]])]);
            }
        }
    }
    ctx.par(th.len(), |i| {
        ctx.case(|| format!("threshold {}", dump(&th[i])), |o| thresholds(&th[i], o));
    });
    ctx.section("thresholds");
    let mut docs: Vec<J> = bases(false);
    docs.extend(bases(true));
    docs.push(json!({}));
    docs.push(json!({"d": "", "x": [1, -1, 1.5, u64::MAX, i64::MIN, null, true, "é\u{0}\"", {"z": 1, "a": 2}]}));
    for b in bases(false).into_iter().take(5) {
        for (_, m) in mutants(&b, &[]).into_iter().step_by(ctx.pick(7, 1)) {
            docs.push(m);
        }
    }
    ctx.par(docs.len(), |i| {
        ctx.case(|| format!("document {}", sh(&dump(&docs[i]))), |o| documents(&docs[i], o));
    });
    for t in ["", "{", "nul", "{\"a\":1,}", "'x'", "01"] {
        ctx.case(
            || format!("value {t}"),
            |_| {
                ensure!(jr(|| w::ValueWrapper::new(t).map(|v| v.value()))?.is_none(), "taken as a value");
                Ok(())
            },
        );
    }
    ctx.section("documents");
    for c in c09::SUITES {
        for tr in [false, true] {
            ctx.case(|| format!("signing {c} {tr}"), |o| signing(c, tr, o));
        }
    }
    for c in spec::MATTER {
        ctx.case(|| format!("digests {}", c.code), |o| digests(c.code, o));
    }
    ctx.par(128, |i| {
        ctx.case(|| format!("salts {i}"), |o| salts(i as u32, o));
    });
    ctx.section("signing, digests, stretching");
}
