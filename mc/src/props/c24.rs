//! C24: key event logs. Every history of an honest controller up to a depth, and in every state every
//! alteration of what it sends next, is given to a validator written with the library and to a
//! reference; both must take and refuse the same messages and come to the same state.
use super::c09;
use super::c17::addressed;
use super::docs::*;
use super::kel::{decide, threshold, Boss, Library, Log, View};
use super::types::es;
use crate::ctx::{guard, h64, Ctx, Obs, R};
use crate::entropy::{self, Script};
use crate::{ensure, same, spec};
use cesride::data::Value;
use cesride::{Indexer, Matter, Prefixer, Sadder, Serder, Signer};
use serde_json::{json, Map, Value as J};

#[derive(Clone, Debug, PartialEq)]
struct Key {
    suite: &'static str,
    trans: bool,
    n: usize,
}

impl Key {
    fn text(&self) -> String {
        let p = c09::public(self.suite, &c09::seed(self.n)).unwrap();
        spec::m_encode(c09::verfer_code(self.suite, self.trans), &p).unwrap().1
    }
    fn signer(&self) -> Signer {
        Signer::new_with_raw(&c09::seed(self.n), Some(self.trans), Some(self.suite)).unwrap()
    }
    fn raw(&self, msg: &[u8]) -> Vec<u8> {
        self.signer().sign_unindexed(msg).unwrap().raw()
    }
    fn digest(&self) -> String {
        // digests of different kinds, so that they have different sizes
        let code = ["E", "E", "H", "E", "0D"][self.n % 5];
        spec::m_encode(code, &spec::digest(code, self.text().as_bytes()).unwrap()).unwrap().1
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Prefix {
    Basic,
    Digest,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Th {
    Num(usize),
    Halves,
    Nested,
}

impl Th {
    /// a threshold of this kind for n keys
    fn of(&self, n: usize) -> J {
        match self {
            Th::Num(k) => json!(format!("{:x}", n.min(*k))),
            Th::Halves if n >= 2 => json!(vec!["1/2"; n]),
            Th::Nested if n == 3 => json!([["1/2", "1/2"], ["1"]]),
            Th::Nested if n == 2 => json!([["1"], ["1"]]),
            _ => json!(vec!["1"; n]),
        }
    }
}

#[derive(Clone, Debug)]
struct Config {
    name: &'static str,
    suites: &'static [&'static str],
    keys: usize,
    th: Th,
    prefix: Prefix,
    trans: bool,
    wits: &'static [&'static str],
    toad: usize,
    /// under a delegator
    under: bool,
}

const CONFIGS: &[Config] = &[
    Config { name: "one key", suites: &["A"], keys: 1, th: Th::Num(1), prefix: Prefix::Basic, trans: true, wits: &[], toad: 0, under: false },
    Config { name: "nontransferable", suites: &["A"], keys: 1, th: Th::Num(1), prefix: Prefix::Basic, trans: false, wits: &[], toad: 0, under: false },
    Config { name: "one k256 key", suites: &["J"], keys: 1, th: Th::Num(1), prefix: Prefix::Digest, trans: true, wits: &[], toad: 0, under: false },
    Config { name: "two keys", suites: &["A"], keys: 2, th: Th::Num(2), prefix: Prefix::Digest, trans: true, wits: &[], toad: 0, under: false },
    Config { name: "one of two keys", suites: &["A", "Q"], keys: 2, th: Th::Num(1), prefix: Prefix::Digest, trans: true, wits: &[], toad: 0, under: false },
    Config { name: "halves of three keys", suites: &["A", "J", "Q"], keys: 3, th: Th::Halves, prefix: Prefix::Digest, trans: true, wits: &[], toad: 0, under: false },
    Config { name: "nested clauses", suites: &["A"], keys: 3, th: Th::Nested, prefix: Prefix::Digest, trans: true, wits: &[], toad: 0, under: false },
    Config { name: "r1 and witnesses", suites: &["Q"], keys: 1, th: Th::Num(1), prefix: Prefix::Digest, trans: true, wits: &["A", "J"], toad: 1, under: false },
    Config { name: "three witnesses", suites: &["A"], keys: 2, th: Th::Num(1), prefix: Prefix::Digest, trans: true, wits: &["A", "A", "Q"], toad: 2, under: false },
    Config { name: "under a delegator", suites: &["A"], keys: 1, th: Th::Num(1), prefix: Prefix::Digest, trans: true, wits: &[], toad: 0, under: true },
    Config { name: "two keys and a witness under a delegator", suites: &["Q", "A"], keys: 2, th: Th::Halves, prefix: Prefix::Digest, trans: true, wits: &["A"], toad: 1, under: true },
    Config { name: "many keys", suites: &["A"], keys: 66, th: Th::Num(3), prefix: Prefix::Digest, trans: true, wits: &[], toad: 0, under: false },
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Icp,
    Ixn,
    Anchor,
    Rot,
    /// only as many of the next keys as needed, in another order, and a new one
    Partial,
    /// the last rotation: no next keys
    Null,
    /// a witness leaves and another joins
    Wits,
}

/// a signature in an event's own words
#[derive(Clone, Debug)]
struct Sig {
    code: String,
    index: u32,
    ondex: u32,
    raw: Vec<u8>,
}

impl Sig {
    fn text(&self) -> Option<String> {
        let c = spec::ic(&self.code)?;
        let i = spec::I { code: self.code.clone(), index: self.index, ondex: self.ondex, raw: self.raw.clone(), fs: c.fs };
        if self.index as usize >= 1 << (6 * c.ms()) || (c.os > 0 && self.ondex as usize >= 1 << (6 * c.os)) {
            return None;
        }
        Some(spec::i_text(&i))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Frame {
    Plain,
    V,
    BigV,
}

type Group = (&'static str, u64, String);

fn text_of(groups: &[Group], frame: Frame) -> Option<String> {
    let mut t = String::new();
    for (c, n, body) in groups {
        t += &spec::c_text(c, *n)?;
        t += body;
    }
    Some(match frame {
        Frame::Plain => t,
        Frame::V => spec::c_text("-V", t.len() as u64 / 4)? + &t,
        Frame::BigV => spec::c_text("-0V", t.len() as u64 / 4)? + &t,
    })
}

fn with(raw: &[u8], att: &str, bin: bool) -> Vec<u8> {
    let mut m = raw.to_vec();
    if bin {
        m.extend(spec::dec4(att.as_bytes()).unwrap());
    } else {
        m.extend_from_slice(att.as_bytes());
    }
    m
}

/// where an honest controller stands
#[derive(Clone)]
struct Node {
    label: String,
    log: Option<Log>,
    lib: Option<Library>,
    view: Option<View>,
    msgs: Vec<Vec<u8>>,
    keys: Vec<Key>,
    next: Vec<Key>,
    nt: J,
    wits: Vec<Key>,
    fresh: usize,
    over: bool,
    boss: Option<Box<Node>>,
}

/// who signs, and for which places
#[derive(Clone, Debug)]
struct Slot {
    key: Key,
    index: u32,
    ondex: Option<u32>,
    only: bool,
}

/// an honest message before it is put together
#[derive(Clone)]
struct Draft {
    doc: Map<String, J>,
    raw: Vec<u8>,
    slots: Vec<Slot>,
    sigs: Vec<Sig>,
    wits: Vec<Key>,
    wsigs: Vec<Sig>,
    src: Option<Source>,
    after: Node,
}

/// where an event of the delegator is found
#[derive(Clone, Debug)]
struct Source {
    sn: u128,
    said: String,
}

fn groups_of(src: &Option<Source>, sigs: &[Sig], wsigs: &[Sig], couples: &[(String, &'static str, Vec<u8>)]) -> Option<Vec<Group>> {
    let mut g: Vec<Group> = vec![];
    let body = |v: &[Sig]| v.iter().map(|s| s.text()).collect::<Option<String>>();
    if !sigs.is_empty() {
        g.push(("-A", sigs.len() as u64, body(sigs)?));
    }
    if !wsigs.is_empty() {
        g.push(("-B", wsigs.len() as u64, body(wsigs)?));
    }
    if !couples.is_empty() {
        g.push(("-C", couples.len() as u64, couples.iter().map(|(k, c, r)| k.clone() + &spec::m_encode(c, r).unwrap().1).collect()));
    }
    if let Some(s) = src {
        g.push(("-G", 1, source(s.sn, &s.said)));
    }
    Some(g)
}

fn source(sn: u128, said: &str) -> String {
    spec::m_encode("0A", &sn.to_be_bytes()).unwrap().1 + said
}

fn named(v: &[Key]) -> J {
    json!(v.iter().map(|k| k.text()).collect::<Vec<_>>())
}

fn digests(v: &[Key]) -> J {
    json!(v.iter().map(|k| k.digest()).collect::<Vec<_>>())
}

fn make(cfg: &Config, k: usize, n: usize) -> Key {
    Key { suite: cfg.suites[k % cfg.suites.len()], trans: cfg.trans, n }
}

impl Node {
    fn root(cfg: &Config, base: usize) -> Node {
        let keys: Vec<Key> = (0..cfg.keys).map(|k| make(cfg, k, base + k)).collect();
        let next: Vec<Key> = if cfg.trans { (0..cfg.keys).map(|k| make(cfg, k, base + cfg.keys + k)).collect() } else { vec![] };
        let wits = cfg.wits.iter().enumerate().map(|(k, s)| Key { suite: s, trans: false, n: base + 400 + k }).collect();
        Node {
            label: cfg.name.into(),
            log: None,
            lib: None,
            view: None,
            msgs: vec![],
            keys,
            next,
            nt: J::Null,
            wits,
            fresh: base + 2 * cfg.keys,
            over: false,
            boss: cfg.under.then(|| Box::new(chief(base + 450))),
        }
    }

    /// what is known of the delegator
    fn known(&self) -> Boss {
        match &self.boss {
            Some(b) => Boss { pre: b.view.as_ref().unwrap().pre.clone(), events: b.msgs.iter().map(|m| event_of(m)).collect() },
            None => Boss::default(),
        }
    }

    /// the smallest set of next keys that will do
    fn enough(&self) -> Vec<usize> {
        let n = self.next.len();
        match threshold(&self.nt) {
            Some(t) if n <= 8 => {
                let mut all: Vec<Vec<usize>> = (1..1usize << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect();
                all.sort_by_key(|v: &Vec<usize>| (v.len(), v.clone()));
                all.into_iter().find(|v| t.met(&v.iter().map(|i| *i as u32).collect())).unwrap()
            }
            _ => vec![0, n - 2, n - 1],
        }
    }

    fn steps(&self, cfg: &Config) -> Vec<Step> {
        match (self.log.is_some(), self.over) {
            (false, _) => vec![Step::Icp],
            (_, true) => vec![],
            _ => {
                let mut v = vec![Step::Ixn, Step::Anchor, Step::Rot, Step::Partial, Step::Null];
                if !cfg.wits.is_empty() {
                    v.push(Step::Wits);
                }
                v
            }
        }
    }

    /// what the controller sends for a step
    fn draft(&self, cfg: &Config, step: Step) -> Draft {
        let mut dr = self.undelegated(cfg, step);
        if let (Some(b), true) = (&self.boss, dr.doc.contains_key("k")) {
            let b = seals(b, json!([{"a": "b"}, {"i": dr.doc["i"], "s": dr.doc["s"], "d": dr.doc["d"]}]));
            dr.src = Some(last(&b));
            dr.after.boss = Some(Box::new(b));
        }
        dr
    }

    fn undelegated(&self, cfg: &Config, step: Step) -> Draft {
        let mut after = self.clone();
        after.label = format!("{}/{step:?}", self.label);
        let mut slots: Vec<Slot> = vec![];
        let many = cfg.keys > 8;
        let mut d = Map::new();
        let mut put = |k: &str, v: J| d.insert(k.into(), v);
        put("v", json!("KERI10JSON000000_"));
        let toad = |n: usize| json!(format!("{:x}", n.min(cfg.toad)));
        let t = match step {
            Step::Icp if cfg.under => "dip",
            Step::Icp => "icp",
            Step::Ixn | Step::Anchor => "ixn",
            _ if cfg.under => "drt",
            _ => "rot",
        };
        put("t", json!(t));
        put("d", json!(""));
        match (step, &self.view) {
            (Step::Icp, _) => {
                put("i", if cfg.prefix == Prefix::Basic { json!(self.keys[0].text()) } else { json!("") });
                put("s", json!("0"));
                put("kt", cfg.th.of(self.keys.len()));
                put("k", named(&self.keys));
                after.nt = if self.next.is_empty() { json!("0") } else { cfg.th.of(self.next.len()) };
                put("nt", after.nt.clone());
                put("n", digests(&self.next));
                put("bt", toad(self.wits.len()));
                put("b", named(&self.wits));
                put("c", json!([]));
                put("a", json!([]));
                if let Some(b) = &self.boss {
                    put("di", json!(b.view.as_ref().unwrap().pre));
                }
                after.over = self.next.is_empty();
                let at: Vec<usize> = if many { vec![0, 64, 65] } else { (0..self.keys.len()).collect() };
                slots.extend(at.iter().map(|i| Slot { key: self.keys[*i].clone(), index: *i as u32, ondex: None, only: false }));
            }
            (Step::Ixn | Step::Anchor, Some(v)) => {
                put("i", json!(v.pre));
                put("s", json!(format!("{:x}", v.sn + 1)));
                put("p", json!(v.said));
                put("a", if step == Step::Ixn { json!([]) } else { json!([{"i": v.pre, "s": "0", "d": v.said}, {"é": [1, null, true, "\"\\\n"]}]) });
                let at: Vec<usize> = if self.keys.len() > 8 { vec![65, 0, 64] } else { (0..self.keys.len()).collect() };
                slots.extend(at.iter().map(|i| Slot { key: self.keys[*i].clone(), index: *i as u32, ondex: None, only: false }));
            }
            (_, Some(v)) => {
                let (keys, at): (Vec<Key>, Vec<Option<u32>>) = if step == Step::Partial {
                    let mut shown = self.enough();
                    shown.reverse();
                    let mut k: Vec<Key> = shown.iter().map(|i| self.next[*i].clone()).collect();
                    let mut o: Vec<Option<u32>> = shown.iter().map(|i| Some(*i as u32)).collect();
                    k.push(make(cfg, k.len(), after.fresh));
                    o.push(None);
                    after.fresh += 1;
                    (k, o)
                } else {
                    (self.next.clone(), (0..self.next.len()).map(|i| Some(i as u32)).collect())
                };
                after.keys = keys.clone();
                after.next = vec![];
                if step != Step::Null {
                    for k in 0..if many { 4 } else { cfg.keys } {
                        after.next.push(make(cfg, k, after.fresh));
                        after.fresh += 1;
                    }
                }
                after.over = step == Step::Null;
                put("i", json!(v.pre));
                put("s", json!(format!("{:x}", v.sn + 1)));
                put("p", json!(v.said));
                put("kt", cfg.th.of(keys.len()));
                put("k", named(&keys));
                after.nt = if after.next.is_empty() { json!("0") } else { cfg.th.of(after.next.len()) };
                put("nt", after.nt.clone());
                put("n", digests(&after.next));
                let (cut, add) = if step == Step::Wits {
                    let new = Key { suite: "A", trans: false, n: after.fresh };
                    after.fresh += 1;
                    (vec![after.wits.remove(0)], vec![new])
                } else {
                    (vec![], vec![])
                };
                after.wits.extend(add.clone());
                put("bt", toad(after.wits.len()));
                put("br", named(&cut));
                put("ba", named(&add));
                put("a", json!([]));
                let places: Vec<usize> = if keys.len() > 8 { vec![0, 64, 65] } else { (0..keys.len()).collect() };
                for i in places {
                    slots.push(Slot { key: keys[i].clone(), index: i as u32, ondex: at[i], only: at[i].is_none() });
                }
            }
            _ => unreachable!(),
        }
        let doc = seal(&d, cfg.prefix == Prefix::Digest);
        let raw = dump(&J::Object(doc.clone())).into_bytes();
        let wits = after.wits.clone();
        let mut draft = Draft { doc, raw, slots, sigs: vec![], wits, wsigs: vec![], src: None, after };
        draft.sigs = sign(&draft.slots, &draft.raw);
        draft.wsigs = draft
            .wits
            .iter()
            .enumerate()
            .map(|(i, w)| Sig { code: ["B", "D", "F"][suite(w)].into(), index: i as u32, ondex: 0, raw: w.raw(&draft.raw) })
            .collect();
        draft
    }
}

fn suite(k: &Key) -> usize {
    c09::SUITES.iter().position(|s| *s == k.suite).unwrap()
}

/// size, SAID and, for an inception whose prefix is one, the prefix
fn seal(d: &Map<String, J>, digest: bool) -> Map<String, J> {
    if digest && (d["t"] == json!("icp") || d["t"] == json!("dip")) {
        if let Some(p) = addressed(d, "E") {
            let mut d = d.clone();
            d.insert("i".into(), json!(p));
            d.insert("d".into(), json!(p));
            return sized(&d).unwrap();
        }
    }
    match saidify(d, "E", "d", &[]) {
        Some((_, d)) => d,
        None => d.clone(),
    }
}

/// signatures by the library
fn sign(slots: &[Slot], raw: &[u8]) -> Vec<Sig> {
    slots
        .iter()
        .map(|s| {
            let g = s.key.signer().sign_indexed(raw, s.only, s.index, s.ondex).unwrap();
            Sig { code: g.code(), index: g.index(), ondex: g.ondex(), raw: g.raw() }
        })
        .collect()
}

/// the event as the library makes it
fn by_library(doc: &Map<String, J>) -> Result<Vec<u8>, String> {
    let digest = (doc["t"] == json!("icp") || doc["t"] == json!("dip")) && doc["i"] == doc["d"];
    let mut blank = doc.clone();
    blank.insert("v".into(), json!("KERI10JSON000000_"));
    blank.insert("d".into(), json!(""));
    if digest {
        blank.insert("i".into(), json!(""));
    }
    let mut ked: Value = val(&J::Object(blank));
    if digest {
        let t = es(es(Prefixer::new_with_ked(&ked, None, Some(cesride::matter::Codex::Blake3_256)))?.qb64())?;
        ked["i"] = val(&json!(t));
        ked["d"] = val(&json!(t));
    } else {
        ked = es(cesride::Saider::saidify(&ked, Some(cesride::matter::Codex::Blake3_256), None, None, None))?.1;
    }
    Ok(es(Serder::new_with_ked(&ked, None, None))?.raw())
}

/// Both validators on one message. Ok(Some) when both took it.
fn both(node: &Node, msg: &[u8], o: &mut Obs) -> Result<Option<(Log, Library)>, String> {
    let boss = node.known();
    let want = decide(node.log.as_ref(), &boss, msg);
    let got = guard(|| {
        let mut s = msg;
        let l = Library::next(node.lib.as_ref(), &boss, &mut s)?;
        // all of the message is the message
        if !s.is_empty() {
            return Err("something is left".into());
        }
        let v = l.view()?;
        Ok::<_, String>((l, v))
    })?;
    o.steps(2);
    o.state((&node.label, h64(&msg)));
    match (want, got) {
        (None, Err(_)) => Ok(None),
        (Some(w), Ok((l, v))) => {
            same!(v, w.view, "the state after the event");
            Ok(Some((w, l)))
        }
        (Some(_), Err(e)) => Err(format!("an authorized event was refused: {e}: {}", show(msg))),
        (None, Ok(_)) => Err(format!("an event that is not authorized was accepted: {}", show(msg))),
    }
}

fn show(m: &[u8]) -> String {
    let t: String = m.iter().map(|c| if (32..127).contains(c) { (*c as char).to_string() } else { format!("\\x{c:02x}") }).collect();
    if t.len() > 3000 {
        format!("{}..[{} bytes, h={:016x}]", &t[..3000], m.len(), h64(&m))
    } else {
        t
    }
}

/// every alteration of a message, as (label, bytes)
fn alterations(cfg: &Config, node: &Node, dr: &Draft, deep: bool, f: &mut dyn FnMut(String, Vec<u8>)) {
    let raw = &dr.raw;
    let many = cfg.keys > 8;
    let wgroups = |sigs: &[Sig]| groups_of(&dr.src, sigs, &dr.wsigs, &[]);
    // ---- which signatures, in which order, how often
    let n = dr.sigs.len();
    let mut words: Vec<Vec<usize>> = vec![vec![]];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..(n + 1).min(if deep { 4 } else { 3 }) {
        last = last.iter().flat_map(|w| (0..n).map(move |i| [w.clone(), vec![i]].concat())).collect();
        words.extend(last.clone());
    }
    for w in &words {
        let s: Vec<Sig> = w.iter().map(|i| dr.sigs[*i].clone()).collect();
        let g = wgroups(&s).unwrap();
        f(format!("signatures {w:?}"), with(raw, &text_of(&g, Frame::Plain).unwrap(), false));
        if w.len() <= 2 {
            for bin in [false, true] {
                for fr in [Frame::Plain, Frame::V, Frame::BigV] {
                    if bin || fr != Frame::Plain {
                        f(format!("signatures {w:?} {fr:?} binary {bin}"), with(raw, &text_of(&g, fr).unwrap(), bin));
                    }
                }
            }
        }
    }
    let whole = wgroups(&dr.sigs).unwrap();
    let honest = text_of(&whole, Frame::Plain).unwrap();
    // ---- one signature altered
    let others: Vec<(&str, Key)> = {
        let mut v = vec![("stranger", Key { suite: "A", trans: true, n: 9001 }), ("stranger", Key { suite: "J", trans: true, n: 9002 }), ("stranger", Key { suite: "Q", trans: true, n: 9003 })];
        v.extend(node.keys.iter().take(3).map(|k| ("former", k.clone())));
        v.extend(dr.after.keys.iter().take(3).map(|k| ("current", k.clone())));
        v.extend(dr.after.next.iter().take(3).map(|k| ("next", k.clone())));
        v.extend(dr.wits.iter().take(2).map(|k| ("witness", k.clone())));
        v
    };
    let families = [["A", "B", "2A", "2B"], ["C", "D", "2C", "2D"], ["E", "F", "2E", "2F"]];
    for (at, s) in dr.sigs.iter().enumerate() {
        let alone = |s: Sig| -> Vec<Sig> { vec![s] };
        let put = |s: Sig| -> Vec<Sig> {
            let mut v = dr.sigs.clone();
            v[at] = s;
            v
        };
        let mut one = |label: String, s: Sig| {
            for (how, v) in [("among all", put(s.clone())), ("alone", alone(s.clone()))] {
                if n == 1 && how == "alone" {
                    continue;
                }
                if let Some(g) = wgroups(&v) {
                    f(format!("signature {at} {how}: {label}"), with(raw, &text_of(&g, Frame::Plain).unwrap(), false));
                }
            }
        };
        // every code, index and position in the prior list
        let k = node.keys.len().max(dr.after.keys.len()) as u32;
        let mut places: Vec<u32> = if many { vec![0, 1, 62, 63, 64, 65, 66] } else { (0..=k).collect() };
        places.extend([63, 64, 4095]);
        places.dedup();
        for fam in &families {
            for code in fam {
                let c = spec::ic(code).unwrap();
                for index in &places {
                    let ond: Vec<u32> = if c.os > 0 { places.clone() } else { vec![if c.kind == 0 { *index } else { 0 }] };
                    for ondex in ond {
                        if (*code, *index, ondex) == (s.code.as_str(), s.index, s.ondex) {
                            continue;
                        }
                        one(format!("as {code} {index} {ondex}"), Sig { code: code.to_string(), index: *index, ondex, raw: s.raw.clone() });
                    }
                }
            }
        }
        // made by others, over the same
        for (who, k) in &others {
            let r = k.raw(raw);
            if r == s.raw {
                continue;
            }
            for code in [s.code.as_str(), families[suite(k)][0], families[suite(k)][2]] {
                one(format!("by {who} {} {} as {code}", k.suite, k.n), Sig { code: code.into(), raw: r.clone(), ..s.clone() });
            }
        }
        // over something else
        let key = &dr.slots[at].key;
        let mut longer = raw.clone();
        longer.push(b' ');
        let mut things: Vec<(&str, Vec<u8>)> = vec![
            ("nothing", vec![]),
            ("the event but its last byte", raw[..raw.len() - 1].to_vec()),
            ("the event but its first byte", raw[1..].to_vec()),
            ("the event and a space", longer),
            ("the event twice", [raw.clone(), raw.clone()].concat()),
            ("the identifier of the event", dr.doc["d"].as_str().unwrap().as_bytes().to_vec()),
            ("the digest of the event", spec::digest("E", raw).unwrap()),
        ];
        if let Some(p) = node.msgs.last() {
            things.push(("the event before", event_of(p)));
        }
        for (what, b) in things {
            one(format!("over {what}"), Sig { raw: key.raw(&b), ..s.clone() });
        }
        // bytes of it
        for (j, bit) in (0..64).flat_map(|j| [(j, 1u8), (j, 0x80)]).filter(|(j, b)| deep || (j % 7 == 0 && *b == 1) || *j == 63 || *j == 32) {
            let mut r = s.raw.clone();
            r[j] ^= bit;
            one(format!("byte {j} ^ {bit:#x}"), Sig { raw: r, ..s.clone() });
        }
        one("zeros".into(), Sig { raw: vec![0; 64], ..s.clone() });
        one("halves swapped".into(), Sig { raw: [&s.raw[32..], &s.raw[..32]].concat(), ..s.clone() });
        // two signatures exchange their places
        for b in 0..n {
            if b != at {
                let mut v = dr.sigs.clone();
                let (x, y) = (v[at].raw.clone(), v[b].raw.clone());
                v[at].raw = y;
                v[b].raw = x;
                f(format!("signatures {at} and {b} exchange indices"), with(raw, &text_of(&wgroups(&v).unwrap(), Frame::Plain).unwrap(), false));
                let mut v = dr.sigs.clone();
                v[b].raw = dr.sigs[at].raw.clone();
                f(format!("signature {at} also as {b}"), with(raw, &text_of(&wgroups(&v).unwrap(), Frame::Plain).unwrap(), false));
                let mut v = dr.sigs.clone();
                let (x, y) = (v[at].ondex, v[b].ondex);
                if spec::ic(&v[at].code).unwrap().os > 0 && spec::ic(&v[b].code).unwrap().os > 0 {
                    v[at].ondex = y;
                    v[b].ondex = x;
                    f(format!("signatures {at} and {b} exchange prior places"), with(raw, &text_of(&wgroups(&v).unwrap(), Frame::Plain).unwrap(), false));
                }
            }
        }
    }
    // ---- witnesses: every set, in either form
    let w = dr.wits.len();
    if w > 0 {
        for form in 0..3usize.pow(w as u32) {
            let mut ws = vec![];
            let mut cs = vec![];
            for i in 0..w {
                match form / 3usize.pow(i as u32) % 3 {
                    1 => ws.push(dr.wsigs[i].clone()),
                    2 => cs.push((dr.wits[i].text(), c09::sig_code(dr.wits[i].suite), dr.wsigs[i].raw.clone())),
                    _ => {}
                }
            }
            for bin in [false, true] {
                let g = groups_of(&dr.src, &dr.sigs, &ws, &cs).unwrap();
                f(format!("receipts {form} binary {bin}"), with(raw, &text_of(&g, Frame::Plain).unwrap(), bin));
            }
        }
        for i in 0..w {
            let s = &dr.wsigs[i];
            let twice = vec![s.clone(), s.clone()];
            f(format!("receipt {i} twice"), with(raw, &text_of(&groups_of(&dr.src, &dr.sigs, &twice, &[]).unwrap(), Frame::Plain).unwrap(), false));
            let c = (dr.wits[i].text(), c09::sig_code(dr.wits[i].suite), s.raw.clone());
            f(format!("receipt {i} in both forms"), with(raw, &text_of(&groups_of(&dr.src, &dr.sigs, &[s.clone()], &[c.clone()]).unwrap(), Frame::Plain).unwrap(), false));
            f(format!("receipt couple {i} twice"), with(raw, &text_of(&groups_of(&dr.src, &dr.sigs, &[], &[c.clone(), c.clone()]).unwrap(), Frame::Plain).unwrap(), false));
            for j in 0..=w as u32 {
                for code in ["A", "B", "D", "F", "2A", "2B"] {
                    let x = Sig { code: code.into(), index: j, ondex: if code == "A" || code == "2A" { j } else { 0 }, raw: s.raw.clone() };
                    f(format!("receipt {i} as {code} {j}"), with(raw, &text_of(&groups_of(&dr.src, &dr.sigs, &[x], &[]).unwrap(), Frame::Plain).unwrap(), false));
                }
                // another's key beside it
                if let Some(k) = dr.wits.get(j as usize) {
                    let c = (k.text(), c09::sig_code(k.suite), s.raw.clone());
                    f(format!("receipt {i} by the name of {j}"), with(raw, &text_of(&groups_of(&dr.src, &dr.sigs, &[], &[c]).unwrap(), Frame::Plain).unwrap(), false));
                }
            }
            let mut r = s.raw.clone();
            r[17] ^= 4;
            let bad = Sig { raw: r, ..s.clone() };
            f(format!("receipt {i} damaged"), with(raw, &text_of(&groups_of(&dr.src, &dr.sigs, &[bad], &[]).unwrap(), Frame::Plain).unwrap(), false));
            let former = node.wits.iter().find(|k| !dr.wits.contains(k));
            for (who, k) in [("a stranger", Some(&Key { suite: "A", trans: false, n: 9004 })), ("a former witness", former), ("the controller", dr.after.keys.first())] {
                if let Some(k) = k {
                    let c = (k.text(), c09::sig_code(k.suite), k.raw(raw));
                    f(format!("receipts by {who}"), with(raw, &text_of(&groups_of(&dr.src, &dr.sigs, &[], &[c.clone(), c]).unwrap(), Frame::Plain).unwrap(), false));
                }
            }
        }
        // in one another's groups
        let body: String = dr.wsigs.iter().map(|s| s.text().unwrap()).collect();
        let own: String = dr.sigs.iter().map(|s| s.text().unwrap()).collect();
        let (a, b) = (dr.sigs.len() as u64, dr.wsigs.len() as u64);
        for (l, g) in [
            ("all as the controller's", vec![("-A", a, own.clone()), ("-A", b, body.clone())]),
            ("all as witnesses'", vec![("-B", a, own.clone()), ("-B", b, body.clone())]),
            ("exchanged", vec![("-B", a, own.clone()), ("-A", b, body.clone())]),
            ("witnesses first", vec![("-B", b, body.clone()), ("-A", a, own.clone())]),
            ("no controller", vec![("-B", b, body.clone())]),
        ] {
            f(format!("groups {l}"), with(raw, &text_of(&g, Frame::Plain).unwrap(), false));
        }
    }
    // ---- framing
    for (i, (c, k, body)) in whole.iter().enumerate() {
        let mut put = |label: String, g: Group, fr: Frame, bin: bool| {
            let mut v = whole.clone();
            v[i] = g;
            if let Some(t) = text_of(&v, fr) {
                f(format!("group {i} {label} {fr:?} binary {bin}"), with(raw, &t, bin));
            }
        };
        for bin in [false, true] {
            for fr in [Frame::Plain, Frame::V] {
                for d in [-2i64, -1, 1, 2, 63, 4095] {
                    let m = *k as i64 + d;
                    if m >= 0 {
                        put(format!("counts {m}"), (c, m as u64, body.clone()), fr, bin);
                    }
                }
                for code in ["-A", "-B", "-C", "-D", "-E", "-F", "-G", "-H", "-I", "-J", "-K", "-L", "-V", "-0V", "--AAA"] {
                    if code != *c {
                        put(format!("as {code}"), (code, *k, body.clone()), fr, bin);
                    }
                }
                put("without content".into(), (c, *k, String::new()), fr, bin);
                put("without some of its content".into(), (c, *k, body[..body.len() - 4].into()), fr, bin);
                put("with an empty one behind".into(), (c, *k, format!("{body}-AAA")), fr, bin);
                put("with another behind".into(), (c, *k, format!("{body}-AAB")), fr, bin);
                put("with text behind".into(), (c, *k, format!("{body}AAAA")), fr, bin);
                put("with a line behind".into(), (c, *k, format!("{body}-AA-")), fr, bin);
            }
        }
        if body.len() > 100 && *k > 1 {
            // split in two groups
            let len = body.len() / *k as usize;
            if dr.sigs.iter().all(|s| s.text().unwrap().len() == len) {
                let (x, y) = body.split_at(len);
                put("split".into(), (c, 1, format!("{x}{}{y}", spec::c_text(c, k - 1).unwrap())), Frame::Plain, false);
                put("split wrongly".into(), (c, 1, format!("{x}{}{y}", spec::c_text(c, *k).unwrap())), Frame::Plain, false);
            }
        }
    }
    let q = honest.len() as u64 / 4;
    for code in ["-V", "-0V"] {
        for m in [0, 1, q - 1, q, q + 1, q + 22, 4095] {
            for bin in [false, true] {
                f(format!("framed {code} {m} of {q} binary {bin}"), with(raw, &(spec::c_text(code, m).unwrap() + &honest), bin));
            }
        }
        let inner = spec::c_text(code, q).unwrap() + &honest;
        f(format!("framed twice {code}"), with(raw, &(spec::c_text("-V", inner.len() as u64 / 4).unwrap() + &inner), false));
        f(format!("framed and not {code}"), with(raw, &(inner.clone() + &honest), false));
        f(format!("framed, two frames {code}"), with(raw, &(inner.clone() + &inner), false));
    }
    // ---- cut anywhere
    for bin in [false, true] {
        let m = with(raw, &honest, bin);
        let from = if bin { raw.len() } else { 0 };
        let step = if deep && !many { 1 } else { 5 };
        for cut in (from..m.len()).filter(|c| c % step == 0 || *c + 6 >= m.len() || (*c + 3 >= raw.len() && *c <= raw.len() + 6)) {
            f(format!("cut at {cut} binary {bin}"), m[..cut].to_vec());
        }
        for extra in ["\0", " ", "{", "-", "A", "-A", "\n", "-AAA", "-VAA"] {
            let mut x = m.clone();
            x.extend_from_slice(extra.as_bytes());
            f(format!("{extra:?} behind binary {bin}"), x);
        }
    }
    for extra in [" ", "\n", "{}", "-AAA", "A"] {
        f(format!("{extra:?} before"), with(extra.as_bytes(), std::str::from_utf8(&with(raw, &honest, false)).unwrap(), false));
        f(format!("{extra:?} between"), with(&[raw, extra.as_bytes()].concat(), &honest, false));
    }
    // ---- the source of the delegation
    if let Some(src) = &dr.src {
        let plain = groups_of(&None, &dr.sigs, &dr.wsigs, &[]).unwrap();
        let b = node.boss.as_ref().unwrap();
        let digest = |t: &str| spec::m_encode(t, &spec::m_parse(src.said.as_bytes()).unwrap().raw).unwrap().1;
        let mut saids = vec![src.said.clone(), dr.doc["d"].as_str().unwrap().into(), b.view.as_ref().unwrap().pre.clone(), b.view.as_ref().unwrap().said.clone(), digest("F"), digest("H"), digest("I"), digest("B")];
        saids.push(spec::m_encode("0D", &[7; 64]).unwrap().1);
        let mut couples = vec![];
        for said in &saids {
            for sn in [src.sn, 0, 1, src.sn - 1, src.sn + 1, src.sn + 256, 1 << 32 | src.sn, 1 << 64 | src.sn, u128::MAX] {
                couples.push((format!("{sn} {said}"), source(sn, said)));
            }
        }
        let good = source(src.sn, &src.said);
        for code in ["0B", "0C", "0H", "M", "E", "A"] {
            if let Some((_, t)) = spec::m_encode(code, &[0; 64]) {
                couples.push((format!("the number as {code}"), t + &src.said));
            }
        }
        for (l, c) in &couples {
            for (how, n, body) in [("alone", 1, c.clone()), ("first", 2, format!("{c}{good}")), ("second", 2, format!("{good}{c}")), ("uncounted", 1, format!("{good}{c}"))] {
                for bin in [false, true] {
                    let mut g = plain.clone();
                    g.push(("-G", n, body.clone()));
                    f(format!("source {l} {how} binary {bin}"), with(raw, &text_of(&g, Frame::Plain).unwrap(), bin));
                }
            }
        }
        for at in 0..=plain.len() {
            let mut g = plain.clone();
            g.insert(at, ("-G", 1, good.clone()));
            f(format!("the source at place {at}"), with(raw, &text_of(&g, Frame::Plain).unwrap(), false));
        }
        f("no source".into(), with(raw, &text_of(&plain, Frame::Plain).unwrap(), false));
    }
    // ---- the event altered
    if !many {
        let strangers: Vec<Slot> = dr.slots.iter().enumerate().map(|(i, s)| Slot { key: Key { suite: s.key.suite, trans: true, n: 9100 + i }, ..s.clone() }).collect();
        let mut edits = mutants(&J::Object(dr.doc.clone()), &[]);
        edits.extend(targeted(cfg, node, dr, &strangers));
        for (l, j) in edits {
            let Some(d) = j.as_object() else { continue };
            let plain = dump(&j).into_bytes();
            f(format!("event with {l}"), with(&plain, &honest, false));
            if !d.contains_key("d") || !d.contains_key("t") || !d.contains_key("v") {
                continue;
            }
            let again = dump(&J::Object(seal(d, cfg.prefix == Prefix::Digest))).into_bytes();
            if again != *raw && again != plain {
                f(format!("event with {l}, sealed"), with(&again, &honest, false));
            }
            for (b, how) in [(&plain, "as it is"), (&again, "sealed")] {
                if b == raw {
                    continue;
                }
                let wsigs: Vec<Sig> = dr.wits.iter().zip(&dr.wsigs).map(|(k, s)| Sig { raw: k.raw(b), ..s.clone() }).collect();
                let g = groups_of(&dr.src, &sign(&dr.slots, b), &wsigs, &[]).unwrap();
                f(format!("event with {l}, {how}, signed by the controller"), with(b, &text_of(&g, Frame::Plain).unwrap(), false));
                if how == "sealed" {
                    let g = groups_of(&dr.src, &sign(&strangers, b), &wsigs, &[]).unwrap();
                    f(format!("event with {l}, {how}, signed by a stranger"), with(b, &text_of(&g, Frame::Plain).unwrap(), false));
                    if !node.msgs.is_empty() {
                        let old: Vec<Slot> = node.keys.iter().enumerate().map(|(i, k)| Slot { key: k.clone(), index: i as u32, ondex: None, only: false }).collect();
                        let g = groups_of(&dr.src, &sign(&old, b), &wsigs, &[]).unwrap();
                        f(format!("event with {l}, {how}, signed by the former keys"), with(b, &text_of(&g, Frame::Plain).unwrap(), false));
                    }
                }
            }
        }
    }
    // ---- what was sent before, and to come
    for (i, m) in node.msgs.iter().enumerate() {
        f(format!("message {i} again"), m.clone());
        let e = event_of(m);
        f(format!("event {i} with these signatures"), with(&e, &honest, false));
        f(format!("this event with the signatures of {i}"), [raw.clone(), m[e.len()..].to_vec()].concat());
    }
}

/// The same event under delegators who did something else. The logs given to the callback stand for
/// what is known of the delegator.
fn delegators(cfg: &Config, node: &Node, dr: &Draft, deep: bool, f: &mut dyn FnMut(String, &Node, Vec<u8>)) {
    let (Some(b), Some(src)) = (&node.boss, &dr.src) else { return };
    let (i, s, d) = (&dr.doc["i"], &dr.doc["s"], &dr.doc["d"]);
    let sealed = |a: J| {
        let b = seals(b, a);
        let mut dr = dr.clone();
        dr.src = Some(last(&b));
        (b, dr)
    };
    let sent = |dr: &Draft, raw: &[u8], sigs: &[Sig], wsigs: &[Sig]| with(raw, &text_of(&groups_of(&dr.src, sigs, wsigs, &[]).unwrap(), Frame::Plain).unwrap(), false);
    let known = |b: Node| {
        let mut n = node.clone();
        n.boss = Some(Box::new(b));
        n
    };
    let m = sent(dr, &dr.raw, &dr.sigs, &dr.wsigs);
    f("nothing known of the delegator".into(), &known(Node { msgs: vec![], ..(**b).clone() }), m.clone());
    f("the delegator's seal not yet known".into(), &known((**b).clone()), m.clone());
    let mut none = node.clone();
    none.boss = None;
    f("no delegator".into(), &none, m.clone());
    let mut later = dr.after.boss.as_deref().unwrap().clone();
    later = seals(&later, json!([]));
    f("the delegator went on".into(), &known(later), m.clone());
    // another, who seals the same
    let mut other = chief(7600);
    while other.msgs.len() as u128 <= src.sn {
        other = seals(&other, json!([{"i": i, "s": s, "d": d}]));
    }
    let mut theirs = dr.clone();
    theirs.src = Some(last(&other));
    f("another delegator".into(), &known(other.clone()), sent(&theirs, &dr.raw, &dr.sigs, &dr.wsigs));
    f("another delegator, the right source".into(), &known(other), m);
    // other seals
    let one = |k: &str, v: J| {
        let mut o = json!({"i": i, "s": s, "d": d});
        o[k] = v;
        o
    };
    let hex = s.as_str().unwrap();
    let mut anchors = vec![
        json!([]),
        json!([{"i": i, "s": s, "d": d}]),
        json!([{"d": d, "s": s, "i": i}]),
        json!([[{"i": i, "s": s, "d": d}]]),
        json!([{"seal": {"i": i, "s": s, "d": d}}]),
        json!([d]),
        json!([i, s, d]),
        json!([{"i": i, "s": s}]),
        json!([{"s": s, "d": d}]),
        json!([{"i": i, "d": d}]),
        json!([{"d": d}]),
        json!([{}]),
        json!([{"i": i, "s": s, "d": d, "x": ""}]),
        json!([null, 1, true, "x", [], {"i": i, "s": s, "d": d}]),
        json!([one("i", d.clone()), one("d", i.clone())]),
    ];
    for k in ["i", "s", "d"] {
        for v in [J::Null, json!(""), json!([]), json!(true), json!(0), json!(1.0), one("i", json!(1)), json!([dr.doc[k]])] {
            anchors.push(json!([one(k, v)]));
        }
        let t = dr.doc[k].as_str().unwrap();
        for v in [format!("{t} "), format!(" {t}"), t.to_lowercase(), t.to_uppercase(), format!("0{t}"), format!("{t}0"), t[..t.len() - 1].to_string()] {
            anchors.push(json!([one(k, json!(v))]));
        }
    }
    for v in ["0", "1", "2", "3", "00", "01"] {
        anchors.push(json!([one("s", json!(v))]));
    }
    if let Ok(n) = u64::from_str_radix(hex, 16) {
        anchors.push(json!([one("s", json!(n))]));
    }
    for b in &node.msgs {
        let e: J = serde_json::from_slice(&event_of(b)).unwrap();
        anchors.push(json!([{"i": e["i"], "s": e["s"], "d": e["d"]}]));
        anchors.push(json!([one("d", e["d"].clone())]));
    }
    for a in anchors {
        let (b, dr) = sealed(a.clone());
        f(format!("the delegator seals {a}"), &known(b), sent(&dr, &dr.raw, &dr.sigs, &dr.wsigs));
    }
    // the event altered, and the delegator seals that
    let strangers: Vec<Slot> = dr.slots.iter().enumerate().map(|(i, s)| Slot { key: Key { suite: s.key.suite, trans: true, n: 9100 + i }, ..s.clone() }).collect();
    let mut edits = targeted(cfg, node, dr, &strangers);
    if deep {
        edits.extend(mutants(&J::Object(dr.doc.clone()), &[]));
    }
    for (l, j) in edits {
        let Some(x) = j.as_object() else { continue };
        if !["d", "t", "v", "i", "s"].iter().all(|k| x.contains_key(*k)) {
            continue;
        }
        let x = seal(x, cfg.prefix == Prefix::Digest);
        let raw = dump(&J::Object(x.clone())).into_bytes();
        let (b, dr) = sealed(json!([{"i": x["i"], "s": x["s"], "d": x["d"]}]));
        let b = known(b);
        let wsigs: Vec<Sig> = dr.wits.iter().zip(&dr.wsigs).map(|(k, s)| Sig { raw: k.raw(&raw), ..s.clone() }).collect();
        f(format!("event with {l}, signed by the controller, sealed by the delegator"), &b, sent(&dr, &raw, &sign(&dr.slots, &raw), &wsigs));
        f(format!("event with {l}, signed by strangers, sealed by the delegator"), &b, sent(&dr, &raw, &sign(&strangers, &raw), &wsigs));
    }
}

/// a delegator: one key, and events that seal
fn chief(base: usize) -> Node {
    let cfg = &CONFIGS[2];
    let n = Node::root(cfg, base);
    settle(&n, n.draft(cfg, Step::Icp), &mut Obs::default()).unwrap()
}

fn seals(b: &Node, a: J) -> Node {
    let cfg = &CONFIGS[2];
    let mut dr = b.draft(cfg, Step::Ixn);
    let mut d = dr.doc.clone();
    d.insert("a".into(), a);
    d.insert("d".into(), json!(""));
    dr.doc = seal(&d, true);
    dr.raw = dump(&J::Object(dr.doc.clone())).into_bytes();
    dr.sigs = sign(&dr.slots, &dr.raw);
    settle(b, dr, &mut Obs::default()).unwrap()
}

fn last(b: &Node) -> Source {
    let v = b.view.as_ref().unwrap();
    Source { sn: v.sn, said: v.said.clone() }
}

/// the event at the start of an honest message
fn event_of(m: &[u8]) -> Vec<u8> {
    let at = (0..12).find(|k| rever(&m[*k..]).is_some()).unwrap();
    m[..rever(&m[at..]).unwrap().4 as usize].to_vec()
}

/// changes an attacker would think of
fn targeted(cfg: &Config, node: &Node, dr: &Draft, strangers: &[Slot]) -> Vec<(String, J)> {
    let mut out = vec![];
    let mut put = |l: String, f: &dyn Fn(&mut Map<String, J>)| {
        let mut d = dr.doc.clone();
        f(&mut d);
        if d != dr.doc {
            out.push((l, J::Object(d)));
        }
    };
    let theirs = named(&strangers.iter().map(|s| s.key.clone()).collect::<Vec<_>>());
    for (i, m) in node.msgs.iter().enumerate() {
        let e: J = serde_json::from_slice(&event_of(m)).unwrap();
        put(format!("p of {i}"), &|d| {
            if d.contains_key("p") {
                d["p"] = e["d"].clone();
            }
        });
        put(format!("s of {i}"), &|d| d["s"] = e["s"].clone());
        put(format!("i the identifier of event {i}"), &|d| d["i"] = e["d"].clone());
    }
    for s in ["0", "1", "2", "00", "01", "3", "ffffffffffffffffffffffffffffffff", "100000000000000000000000000000000", "-1", "+1", "A", "g", "1 "] {
        put(format!("s={s}"), &|d| d["s"] = json!(s));
    }
    put("keys of strangers".into(), &|d| {
        if d.contains_key("k") {
            d["k"] = theirs.clone();
        }
    });
    put("next keys of strangers".into(), &|d| {
        if d.contains_key("n") {
            d["n"] = digests(&strangers.iter().map(|s| s.key.clone()).collect::<Vec<_>>());
        }
    });
    put("keys of the previous".into(), &|d| {
        if d.contains_key("k") {
            d["k"] = named(&node.keys);
        }
    });
    put("a further key".into(), &|d| {
        if d.contains_key("k") {
            d["k"].as_array_mut().unwrap().push(json!(strangers[0].key.text()));
        }
    });
    put("a key twice".into(), &|d| {
        if d.contains_key("k") {
            let k = d["k"][0].clone();
            d["k"].as_array_mut().unwrap().push(k);
        }
    });
    put("a next key twice".into(), &|d| {
        if d.contains_key("n") && !d["n"].as_array().unwrap().is_empty() {
            let k = d["n"][0].clone();
            d["n"].as_array_mut().unwrap().push(k);
        }
    });
    for k in ["kt", "nt"] {
        for x in [
            json!("0"),
            json!("1"),
            json!("2"),
            json!("3"),
            json!("4"),
            json!("01"),
            json!(""),
            json!([]),
            json!([[]]),
            json!(["1"]),
            json!(["1", "0"]),
            json!(["0", "1"]),
            json!(["1/2", "1/2"]),
            json!(["1/3", "2/3"]),
            json!(["1/3", "1/3", "1/3"]),
            json!(["1/3", "1/3"]),
            json!(["1", "1"]),
            json!(["1", "1", "1"]),
            json!([["1"], ["1"]]),
            json!([["1"], ["1/2", "1/2"]]),
            json!([["1/2", "1/2"], ["1"]]),
            json!([["1/2"], ["1"]]),
            json!(["3/2"]),
            json!(["1/0"]),
            json!(["0/1", "1/1"]),
            json!(["99999999999/100000000000", "1/100000000000"]),
            json!(["1/3", "1/3", "33333333333/100000000000"]),
            json!(["1/2", "1/2", "0"]),
            json!(["1/2", "1/4", "1/4"]),
        ] {
            put(format!("{k}={x}"), &|d| {
                if d.contains_key(k) {
                    d[k] = x.clone();
                }
            });
        }
    }
    for k in ["bt", "br", "ba", "b"] {
        for x in [json!("0"), json!("1"), json!("2"), json!("3"), json!("4"), json!([]), named(&node.wits), named(&dr.wits), named(&strangers.iter().map(|s| s.key.clone()).collect::<Vec<_>>())] {
            put(format!("{k}={x}"), &|d| {
                if d.contains_key(k) {
                    d[k] = x.clone();
                }
            });
        }
        if let Some(w) = node.wits.first() {
            put(format!("{k} twice"), &|d| {
                if d.contains_key(k) {
                    d[k] = named(&[w.clone(), w.clone()]);
                }
            });
        }
    }
    for t in ["icp", "rot", "ixn", "dip", "drt", "vcp", "rpy", "ICP", "xyz"] {
        put(format!("t={t}"), &|d| d["t"] = json!(t));
    }
    for v in ["KERI10JSON000000_", "KERI11JSON000000_", "KERI20JSON000000_", "ACDC10JSON000000_", "KERI10CBOR000000_", "KERI10MGPK000000_"] {
        put(format!("v={v}"), &|d| {
            let n = dr.raw.len();
            d["v"] = json!(format!("{}{n:06x}_", &v[..10]))
        });
    }
    for k in [-1i64, 1, 2, 44, 88] {
        put(format!("size {k:+}"), &|d| d["v"] = json!(version("KERI", 1, 0, "JSON", (dr.raw.len() as i64 + k) as usize)));
    }
    let _ = cfg;
    out
}

fn honest(cfg: &Config, node: &Node, step: Step, o: &mut Obs) -> Result<Node, String> {
    settle(node, node.draft(cfg, step), o)
}

fn settle(node: &Node, dr: Draft, o: &mut Obs) -> Result<Node, String> {
    let lib = by_library(&dr.doc)?;
    same!(String::from_utf8_lossy(&lib), String::from_utf8_lossy(&dr.raw), "the event made with the library");
    let g = groups_of(&dr.src, &dr.sigs, &dr.wsigs, &[]).unwrap();
    let msg = with(&dr.raw, &text_of(&g, Frame::Plain).unwrap(), false);
    let mut at = node.clone();
    at.boss = dr.after.boss.clone();
    let Some((log, lib)) = both(&at, &msg, o)? else {
        return Err(format!("both refuse an honest message: {}", show(&msg)));
    };
    let mut after = dr.after;
    after.view = Some(log.view.clone());
    after.log = Some(log);
    after.lib = Some(lib);
    after.msgs.push(msg);
    Ok(after)
}

/// what validating this sequence of messages, skipping the ones refused, comes to
fn deliver(msgs: &[&Vec<u8>], root: &Node, o: &mut Obs) -> R {
    let mut n = root.clone();
    for m in msgs {
        if let Some((log, lib)) = both(&n, m, o)? {
            n.log = Some(log);
            n.lib = Some(lib);
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    entropy::set(Script { seed: 24, ..Default::default() });
    // ---- honest histories
    let depth = ctx.pick(4, 5);
    let deep = ctx.thorough;
    let mut all: Vec<(usize, Node)> = vec![];
    let mut edge: Vec<(usize, Node)> = CONFIGS.iter().enumerate().map(|(c, cfg)| (c, Node::root(cfg, 2000 + 500 * c))).collect();
    for level in 0..depth {
        let jobs: Vec<(usize, &Node, Step)> = edge.iter().flat_map(|(c, n)| n.steps(&CONFIGS[*c]).into_iter().map(move |s| (*c, n, s))).collect();
        let out = std::sync::Mutex::new(vec![]);
        ctx.par(jobs.len(), |i| {
            let (c, n, s) = &jobs[i];
            entropy::set(Script { seed: 24, ..Default::default() });
            ctx.case(
                || format!("{}/{s:?}", n.label),
                |o| {
                    let after = honest(&CONFIGS[*c], n, *s, o)?;
                    out.lock().unwrap().push((i, (*c, after)));
                    Ok(())
                },
            );
        });
        let mut out = out.into_inner().unwrap();
        out.sort_by_key(|(i, _)| *i);
        let next: Vec<(usize, Node)> = out.into_iter().map(|(_, n)| n).collect();
        all.append(&mut edge);
        edge = next;
        ctx.section(&format!("honest histories of {} events", level + 1));
    }
    let leaves = edge;

    // ---- every alteration of every next message
    let limit = ctx.pick(3, 4);
    let jobs: Vec<(usize, &Node, Step)> = all
        .iter()
        .filter(|(c, n)| n.msgs.len() < if CONFIGS[*c].keys > 8 || (CONFIGS[*c].under && !deep) { 2 } else { limit })
        .flat_map(|(c, n)| n.steps(&CONFIGS[*c]).into_iter().map(move |s| (*c, n, s)))
        .collect();
    ctx.par(jobs.len(), |i| {
        let (c, n, s) = &jobs[i];
        let cfg = &CONFIGS[*c];
        entropy::set(Script { seed: 24, ..Default::default() });
        let dr = n.draft(cfg, *s);
        // what the delegator has done by then
        let mut at = (*n).clone();
        at.boss = dr.after.boss.clone();
        alterations(cfg, n, &dr, deep && n.msgs.len() < 2, &mut |label, m| {
            ctx.case(|| format!("{}/{s:?}: {label}", n.label), |o| both(&at, &m, o).map(|_| ()));
        });
        delegators(cfg, n, &dr, deep, &mut |label, at, m| {
            ctx.case(|| format!("{}/{s:?}: {label}", n.label), |o| both(at, &m, o).map(|_| ()));
        });
    });
    ctx.section("alterations of the next message");

    // ---- messages of other branches, other logs and from further on, in every state
    let pool: Vec<(usize, &Node)> = all.iter().filter(|(_, n)| !n.msgs.is_empty() && n.msgs.len() <= 3).map(|(c, n)| (*c, n)).collect();
    let states: Vec<(usize, &Node)> = all.iter().filter(|(_, n)| n.msgs.len() < limit).map(|(c, n)| (*c, n)).collect();
    ctx.par(states.len(), |i| {
        let (c, n) = states[i];
        for (d, other) in &pool {
            // all of one's own, and those of two other identifiers
            if c != *d && *d != (c + 1) % CONFIGS.len() && *d != 0 {
                continue;
            }
            let m = other.msgs.last().unwrap();
            let mut at = (*n).clone();
            if other.boss.is_some() {
                at.boss = other.boss.clone();
            }
            ctx.case(|| format!("{}: the last of {}", n.label, other.label), |o| both(&at, m, o).map(|_| ()));
        }
    });
    ctx.section("messages of other histories");

    // ---- every order of delivery of the messages of two branches
    for (c, cfg) in CONFIGS.iter().enumerate() {
        if cfg.keys > 8 || !cfg.trans {
            continue;
        }
        let find = |l: &str| all.iter().chain(&leaves).find(|(d, n)| *d == c && n.label == format!("{}{l}", cfg.name)).map(|(_, n)| n);
        let branches: Vec<&Node> = ["/Icp/Ixn/Rot", "/Icp/Rot/Partial", "/Icp/Rot/Null"].iter().filter_map(|l| find(l)).collect();
        let mut msgs: Vec<&Vec<u8>> = branches.iter().flat_map(|n| n.msgs.iter()).collect();
        msgs.sort();
        msgs.dedup();
        let mut root = all.iter().find(|(d, n)| *d == c && n.msgs.is_empty()).unwrap().1.clone();
        root.boss = branches.last().and_then(|n| n.boss.clone());
        let root = &root;
        let len = ctx.pick(4, 5);
        let total = msgs.len().pow(len as u32);
        ctx.par(total, |i| {
            let w: Vec<usize> = (0..len).map(|k| i / msgs.len().pow(k as u32) % msgs.len()).collect();
            ctx.case(
                || format!("{}: delivered {w:?}", cfg.name),
                |o| deliver(&w.iter().map(|i| msgs[*i]).collect::<Vec<_>>(), root, o),
            );
        });
    }
    ctx.section("orders of delivery");

    // ---- whole histories as one stream
    ctx.par(leaves.len(), |i| {
        let (c, n) = &leaves[i];
        for bin in [false, true] {
            for fr in [Frame::Plain, Frame::V] {
                ctx.case(
                    || format!("{} as one stream {fr:?} binary {bin}", n.label),
                    |o| {
                        let boss = n.known();
                        let mut stream = vec![];
                        let mut want = vec![];
                        let mut log: Option<Log> = None;
                        for m in &n.msgs {
                            let e = event_of(m);
                            let att = std::str::from_utf8(&m[e.len()..]).unwrap();
                            let att = match fr {
                                Frame::Plain => att.to_string(),
                                _ => spec::c_text("-V", att.len() as u64 / 4).unwrap() + att,
                            };
                            let m = with(&e, &att, bin);
                            log = decide(log.as_ref(), &boss, &m);
                            ensure!(log.is_some(), "the reference refuses an honest message");
                            want.push(log.clone().unwrap().view);
                            stream.extend(m);
                        }
                        guard(|| {
                            let mut s = &stream[..];
                            let mut lib: Option<Library> = None;
                            for w in &want {
                                lib = Some(Library::next(lib.as_ref(), &boss, &mut s)?);
                                same!(lib.as_ref().unwrap().view()?, w.clone(), "the state");
                                o.step();
                            }
                            ensure!(s.is_empty(), "the stream has not been used up");
                            Ok(())
                        })?
                    },
                );
            }
        }
        let _ = c;
    });
    ctx.section("histories as one stream");
    ctx.note(format!("{} configurations, honest histories of up to {depth} events, {} of them at full length", CONFIGS.len(), leaves.len()));
    ctx.note("every message given to a byte-level reference validator and to one built from the library; verdict and resulting state compared");
    entropy::take();
}
