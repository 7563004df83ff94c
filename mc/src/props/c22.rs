//! C22: results depend on the arguments only, whatever ran before or runs at the same time.
use super::objects::{kinds, Act, Kind};
use super::ops::{all, families, twins, Op};
use super::*;
use crate::ctx::{guard, h64, Ctx};
use crate::ensure;
use crate::sched::{Outcome, Sched};
use cesride::Salter;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Write};
use std::sync::atomic::Ordering::SeqCst;

fn call(op: &Op) -> String {
    guard(|| (op.f)()).unwrap_or_else(|e| e)
}

/// One part of the exploration: runs in a process of its own, reports through a pipe.
pub(super) struct Worker<'a> {
    ctx: &'a Ctx,
    out: std::fs::File,
    traces: u64,
    steps: u64,
    states: BTreeSet<u64>,
    bad: u64,
    /// when to stop, in case there is more to explore than on the tree this was made for
    until: Option<std::time::Instant>,
}

impl Worker<'_> {
    pub(super) fn wanted(&self, label: &str) -> bool {
        self.ctx.replay.as_ref().map(|r| r.contains(label)).unwrap_or(true)
    }
    fn late(&self) -> bool {
        self.until.is_some_and(|t| std::time::Instant::now() > t)
    }
    pub(super) fn count(&mut self, steps: u64, state: u64) {
        self.traces += 1;
        self.steps += steps;
        self.states.insert(state);
    }
    pub(super) fn violation(&mut self, label: String, what: String) {
        if self.wanted(&label) && self.bad < 60 {
            self.bad += 1;
            let _ = writeln!(self.out, "{}", serde_json::json!({"l": label, "e": what}));
        }
    }
    pub(super) fn found(&mut self, i: usize, x: u64) {
        let _ = writeln!(self.out, "{}", serde_json::json!({"i": i, "x": x}));
    }
    pub(super) fn note(&mut self, what: String) {
        let _ = writeln!(self.out, "{}", serde_json::json!({"n": what}));
    }
}

/// Runs `f(w, i)` for all i < n in forked worker processes.
pub(super) fn spread(ctx: &Ctx, name: &str, n: usize, f: impl Fn(&mut Worker, &Sched, usize)) -> Vec<(usize, u64)> {
    spread_until(ctx, name, n, None, f)
}

pub(super) fn spread_until(ctx: &Ctx, name: &str, n: usize, until: Option<std::time::Instant>, f: impl Fn(&mut Worker, &Sched, usize)) -> Vec<(usize, u64)> {
    let workers = crate::ctx::threads().min(n.max(1));
    // work is handed out through a counter all workers share
    let next = unsafe {
        &*(libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0)
            as *const std::sync::atomic::AtomicUsize)
    };
    let mut kids = vec![];
    for k in 0..workers {
        let mut fd = [0; 2];
        unsafe {
            assert!(libc::pipe(fd.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fd[0]);
                for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
                    libc::signal(s, libc::SIG_DFL);
                }
                use std::os::fd::FromRawFd;
                let mut w = Worker { ctx, out: std::fs::File::from_raw_fd(fd[1]), traces: 0, steps: 0, states: BTreeSet::new(), bad: 0, until };
                crate::sched::pin(k);
                let sched = Sched::new();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= n || w.bad >= 60 {
                        break;
                    }
                    if w.late() {
                        w.note(format!("time limit: {name}, {} of {n} not explored by this process", n - i));
                        break;
                    }
                    f(&mut w, &sched, i);
                }));
                if r.is_err() {
                    w.violation(format!("{name}: worker"), crate::ctx::take_panic());
                }
                let _ = writeln!(w.out, "{}", serde_json::json!({"t": w.traces, "s": w.steps, "st": w.states}));
                libc::_exit(0);
            }
            libc::close(fd[1]);
            kids.push((pid, fd[0]));
        }
    }
    let mut violations = vec![];
    let mut found = vec![];
    for (pid, fd) in kids {
        use std::os::fd::FromRawFd;
        let r = std::io::BufReader::new(unsafe { std::fs::File::from_raw_fd(fd) });
        let mut complete = false;
        for l in r.lines().map_while(|l| l.ok()) {
            let v: serde_json::Value = serde_json::from_str(&l).unwrap();
            if let Some(l) = v["l"].as_str() {
                violations.push((l.to_string(), v["e"].as_str().unwrap().to_string()));
            } else if let Some(i) = v["i"].as_u64() {
                found.push((i as usize, v["x"].as_u64().unwrap()));
            } else if let Some(n) = v["n"].as_str() {
                ctx.note(n);
            } else {
                complete = true;
                ctx.traces.fetch_add(v["t"].as_u64().unwrap(), SeqCst);
                ctx.transitions.fetch_add(v["s"].as_u64().unwrap(), SeqCst);
                ctx.states.lock().unwrap().extend(v["st"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
            }
        }
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} }
        if !complete {
            violations.push((format!("{name}: worker process"), format!("died: wait status {st:x}")));
        }
    }
    violations.sort_by_key(|v| (v.0.len(), v.0.clone()));
    for (l, e) in violations {
        ctx.record(l, e);
    }
    ctx.section(name);
    found.sort();
    found
}

/// every word over 0..k of length 3, as one cyclic sequence
fn de_bruijn(k: usize) -> Vec<u16> {
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, out: &mut Vec<u16>) {
        if t > n {
            if n % p == 0 {
                out.extend(a[1..=p].iter().map(|x| *x as u16));
            }
            return;
        }
        a[t] = a[t - p];
        db(t + 1, p, k, n, a, out);
        for j in a[t - p] + 1..k {
            a[t] = j;
            db(t + 1, t, k, n, a, out);
        }
    }
    let mut out = vec![];
    db(1, 1, k, 3, &mut vec![0; k * 3 + 1], &mut out);
    let (x, y) = (out[0], out[1]);
    out.push(x);
    out.push(y);
    out
}

fn history(ops: &[Op], h: &[usize]) -> String {
    h.iter().map(|i| format!("[{}]", ops[*i].name)).collect::<Vec<_>>().join(" ")
}

/// words both threads touch and at least one writes
pub(super) fn conflicts(runs: &[&Outcome]) -> Vec<u64> {
    let mut seen: BTreeMap<u64, [(bool, bool); 2]> = BTreeMap::new();
    for r in runs {
        for p in &r.points {
            if p.kind < 2 {
                let e = &mut seen.entry(p.addr).or_default()[p.tid as usize];
                if p.kind == 1 {
                    e.1 = true;
                } else {
                    e.0 = true;
                }
            }
        }
    }
    seen.into_iter()
        .filter(|(_, [a, b])| (a.0 || a.1) && (b.0 || b.1) && (a.1 || b.1))
        .map(|(k, _)| k)
        .collect()
}

/// Does the other thread, later in this run, access what point i accesses, one of them writing?
/// Otherwise running the other thread first leads to the same result (dynamic partial order reduction).
fn races(points: &[crate::sched::Point], i: usize) -> bool {
    let p = points[i];
    points[i + 1..].iter().any(|q| q.tid != p.tid && q.kind < 2 && q.addr == p.addr && (p.kind == 1 || q.kind == 1))
}

pub(super) struct Explore<'a> {
    pub(super) before: &'a dyn Fn(),
    pub(super) ops: [&'a Op; 2],
    pub(super) want: [&'a str; 2],
    pub(super) first: usize,
    pub(super) focus: &'a [u64],
    pub(super) bound: usize,
    pub(super) name: String,
    pub(super) budget: u64,
    pub(super) diverged: u64,
}

impl Explore<'_> {
    pub(super) fn run(&mut self, w: &mut Worker, s: &Sched, dev: &[u32], seen: &[crate::sched::Point]) {
        if self.budget == 0 {
            return;
        }
        if w.late() {
            self.budget = 0;
            return;
        }
        self.budget -= 1;
        let (a, b) = (self.ops[0], self.ops[1]);
        let fa = || call(a);
        let fb = || call(b);
        let r = s.run(self.before, [&fa, &fb], self.first, dev, self.focus, None);
        // the same schedule must lead to the same points
        let k = dev.last().map(|d| *d as usize).unwrap_or(0);
        if !seen.is_empty() && (r.points.len() < k || r.points[..k] != seen[..k]) {
            self.diverged += 1;
        }
        w.count(r.points.len() as u64 + 2, h64(&(&self.name, r.points.iter().map(|p| (p.tid, p.kind, p.addr)).collect::<Vec<_>>())));
        let label = format!("schedule {}: [{}] || [{}], thread {} first, switching at {dev:?}", self.name, a.name, b.name, self.first);
        judge(w, &label, &r, self.want);
        if dev.len() < self.bound {
            for i in dev.last().map(|d| *d as usize + 1).unwrap_or(0)..r.points.len() {
                if r.points[i].choice == 1 && races(&r.points, i) {
                    let mut d = dev.to_vec();
                    d.push(i as u32);
                    self.run(w, s, &d, &r.points);
                }
            }
        }
    }
}

pub(super) fn judge(w: &mut Worker, label: &str, r: &Outcome, want: [&str; 2]) {
    if !r.how.is_empty() {
        w.violation(label.to_string(), r.how.clone());
        return;
    }
    for t in 0..2 {
        match &r.out[t] {
            Some(x) if x == want[t] => {}
            Some(x) => w.violation(label.to_string(), format!("thread {t}: got {}, expected {}", crate::ctx::clip(x), crate::ctx::clip(want[t]))),
            None => w.violation(label.to_string(), format!("thread {t} gave no result")),
        }
    }
}

/// the object after the writes `w`
fn fresh(k: &Kind, w: &[usize]) -> Box<dyn std::any::Any> {
    let mut o = (k.make)();
    for i in w {
        k.run(o.as_mut(), *i);
    }
    o
}

/// what matters of a sequence of steps for what is read afterwards
fn effective(k: &Kind, h: &[usize]) -> Vec<usize> {
    let mut w: Vec<usize> = vec![];
    for i in h {
        let s = &k.steps[*i];
        if matches!(s.act, Act::Write(_)) && !s.neutral {
            if s.full {
                w.clear();
            }
            w.push(*i);
        }
    }
    w
}

fn steps(k: &Kind, h: &[usize]) -> String {
    h.iter().map(|i| format!("[{}]", k.steps[*i].name)).collect::<Vec<_>>().join(" ")
}

struct Ptr(*mut dyn std::any::Any);
unsafe impl Sync for Ptr {}
impl Ptr {
    fn get(&self) -> &dyn std::any::Any {
        unsafe { &*self.0 }
    }
}

/// One object: what is read depends on what was written only, and not on what was read before,
/// is read at the same time, or was tried and failed.
fn objects(ctx: &Ctx) {
    let ks = kinds();
    ctx.note(format!("{} kinds of objects, {} of them may be shared by threads", ks.len(), ks.iter().filter(|k| k.sync).count()));
    for k in &ks {
        let n = k.steps.len();
        let reads: Vec<usize> = (0..n).filter(|i| matches!(k.steps[*i].act, Act::Read(_))).collect();
        let light: Vec<usize> = (0..n).filter(|i| !k.steps[*i].heavy).collect();
        // words of one and two steps, then each read; with heavy ones of one step
        let mut words: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
        words.extend(light.iter().flat_map(|a| light.iter().map(|b| vec![*a, *b])));
        if ctx.thorough {
            words.extend(light.iter().flat_map(|a| light.iter().flat_map(|b| light.iter().map(|c| vec![*a, *b, *c]))));
        }
        let want: std::sync::Mutex<BTreeMap<(Vec<usize>, usize), String>> = Default::default();
        ctx.par(words.len(), |i| {
            let h = &words[i];
            let w = effective(k, h);
            let few: Vec<usize> = reads.iter().copied().filter(|r| !k.steps[*r].heavy || h.len() < 2).collect();
            ctx.case(
                || format!("object {}: {}", k.name, steps(k, h)),
                |o| {
                    for r in &few {
                        let key = (w.clone(), *r);
                        let known = want.lock().unwrap().get(&key).cloned();
                        let want = match known {
                            Some(x) => x,
                            None => {
                                let x = k.run(fresh(k, &w).as_mut(), *r);
                                want.lock().unwrap().insert(key, x.clone());
                                x
                            }
                        };
                        let mut x = (k.make)();
                        for i in h {
                            k.run(x.as_mut(), *i);
                        }
                        let got = k.run(x.as_mut(), *r);
                        o.steps(h.len() as u64 + 1);
                        ensure!(got == want, "then {}: got {}, a fresh object gives {}", k.steps[*r].name, crate::ctx::clip(&got), crate::ctx::clip(&want));
                    }
                    o.state(h64(&(&k.name, h)));
                    Ok(())
                },
            );
        });
        let single: Vec<(usize, String)> = reads.iter().map(|r| (*r, k.run(fresh(k, &[]).as_mut(), *r))).collect();
        // all words of three reads on one and the same object, and each read over and over
        ctx.case(
            || format!("object {}: all words of three reads", k.name),
            |o| {
                let few: Vec<&(usize, String)> = single.iter().filter(|(r, _)| !k.steps[*r].heavy).collect();
                let mut x = (k.make)();
                if few.len() > 1 {
                    for (at, i) in de_bruijn(few.len()).iter().enumerate() {
                        let (r, want) = few[*i as usize];
                        let got = k.run(x.as_mut(), *r);
                        ensure!(got == *want, "read {at}, {}: got {}, a fresh object gives {}", k.steps[*r].name, crate::ctx::clip(&got), crate::ctx::clip(want));
                        o.step();
                    }
                }
                Ok(())
            },
        );
        ctx.par(single.len(), |i| {
            let (r, want) = &single[i];
            ctx.case(
                || format!("object {}: [{}] again and again", k.name, k.steps[*r].name),
                |o| {
                    let mut x = (k.make)();
                    for at in 0..if k.steps[*r].heavy { 20 } else { ctx.pick(300, 70_000) } {
                        let got = k.run(x.as_mut(), *r);
                        ensure!(got == *want, "time {at}: got {}, a fresh object gives {}", crate::ctx::clip(&got), crate::ctx::clip(want));
                        o.step();
                    }
                    Ok(())
                },
            );
        });
    }
    ctx.section("histories of one object");

    // two threads read one object: it lies in memory of its own, which is watched
    let len = 4096 * 4;
    let page = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) } as *mut u8;
    assert!(page as isize != -1);
    let mut jobs = vec![];
    for (ki, k) in ks.iter().enumerate().filter(|(_, k)| k.sync && k.size <= len) {
        let reads: Vec<usize> = (0..k.steps.len()).filter(|i| matches!(k.steps[*i].act, Act::Read(_))).collect();
        for a in &reads {
            for b in reads.iter().filter(|b| *b >= a) {
                jobs.push((ki, *a, *b));
            }
        }
    }
    for warm in [false, true] {
        let name = if warm { "shared object, warm" } else { "shared object, cold" };
        let until = std::time::Instant::now() + std::time::Duration::from_secs(ctx.pick(40, 1_200));
        let explored = spread_until(ctx, name, jobs.len(), Some(until), |w, s, i| {
            let (ki, a, b) = jobs[i];
            let k = &ks[ki];
            let want = [k.run(fresh(k, &[]).as_mut(), a), k.run(fresh(k, &[]).as_mut(), b)];
            let want = [want[0].as_str(), want[1].as_str()];
            let o = Ptr((k.place)(page));
            let op = |r: usize| Op { name: format!("{}: {}", k.name, k.steps[r].name), heavy: false, f: Box::new(|| String::new()) };
            let (oa, ob) = (op(a), op(b));
            let read = |r: usize| match &k.steps[r].act {
                Act::Read(f) => guard(|| f(o.get())).unwrap_or_else(|e| e),
                Act::Write(_) => unreachable!(),
            };
            let before = || {
                if warm {
                    read(a);
                    read(b);
                }
            };
            let (fa, fb) = (|| read(a), || read(b));
            let extra = (page as u64, page as u64 + ((k.size as u64 + 4095) & !4095).max(4096));
            let mut runs = vec![];
            for first in [0, 1] {
                let r = s.run(&before, [&fa, &fb], first, &[], &[], Some(extra));
                w.count(r.points.len() as u64 + 2, h64(&(7, warm, ki, a, b, first)));
                judge(w, &format!("{name}: [{}] || [{}], thread {first} first, no switches", oa.name, ob.name), &r, want);
                runs.push(r);
            }
            let focus = conflicts(&[&runs[0], &runs[1]]);
            if focus.is_empty() {
                return;
            }
            w.found(i, 0);
            for first in [0, 1] {
                let mut e = ExploreShared { before: &before, f: [&fa, &fb], want, first, focus: &focus, bound: ctx.pick(2, 3), budget: ctx.pick(2_000, 50_000), label: format!("{name}: [{}] || [{}]", oa.name, ob.name) };
                e.run(w, s, &[]);
                if e.budget == 0 {
                    w.note(format!("budget reached: {}", e.label));
                }
            }
        });
        ctx.note(format!("{name}: {} of {} pairs of reads of one object meet in a write", explored.len(), jobs.len()));
    }
}

struct ExploreShared<'a> {
    before: &'a dyn Fn(),
    f: [crate::sched::Op<'a>; 2],
    want: [&'a str; 2],
    first: usize,
    focus: &'a [u64],
    bound: usize,
    budget: u64,
    label: String,
}

impl ExploreShared<'_> {
    fn run(&mut self, w: &mut Worker, s: &Sched, dev: &[u32]) {
        if self.budget == 0 {
            return;
        }
        if w.late() {
            self.budget = 0;
            return;
        }
        self.budget -= 1;
        let r = s.run(self.before, self.f, self.first, dev, self.focus, None);
        w.count(r.points.len() as u64 + 2, h64(&(&self.label, r.points.iter().map(|p| (p.tid, p.kind, p.addr)).collect::<Vec<_>>())));
        judge(w, &format!("{}, thread {} first, switching at {dev:?}", self.label, self.first), &r, self.want);
        if dev.len() < self.bound {
            for i in dev.last().map(|d| *d as usize + 1).unwrap_or(0)..r.points.len() {
                if r.points[i].choice == 1 && races(&r.points, i) {
                    let mut d = dev.to_vec();
                    d.push(i as u32);
                    self.run(w, s, &d);
                }
            }
        }
    }
}

/// Many different arguments one after the other, over and over, forwards and backwards.
fn many(ctx: &Ctx) {
    let fs = families();
    let n = |k: usize| fs[k].limit.min(ctx.pick(700, 5000));
    // each in a fresh process, some of them per job
    let jobs: Vec<(usize, usize)> = (0..fs.len()).flat_map(|k| (0..n(k)).step_by(16).map(move |i| (k, i))).collect();
    let total: usize = (0..fs.len()).map(n).sum();
    let shared = unsafe { libc::mmap(std::ptr::null_mut(), total * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) } as *mut u64;
    assert!(shared as isize != -1);
    let at = |k: usize, i: usize| unsafe { &mut *shared.add((0..k).map(n).sum::<usize>() + i) };
    let one = |k: usize, i: usize| guard(|| (fs[k].f)(i)).unwrap_or_else(|e| e);
    spread(ctx, "many arguments, each in a fresh process", jobs.len(), |w, s, j| {
        let (k, a) = jobs[j];
        for i in a..(a + 16).min(n(k)) {
            match s.alone(|| one(k, i)) {
                Ok(x) => *at(k, i) = h64(&x),
                Err(e) => w.violation(format!("{} {i} in a fresh process", fs[k].name), e),
            }
            w.count(1, h64(&(11, k, i)));
        }
    });
    spread(ctx, "many arguments, one after the other", fs.len() + 1, |w, s, k| {
        let mut h: Vec<(usize, usize)> = vec![];
        if k < fs.len() {
            let n = n(k);
            h.extend((0..n).map(|i| (k, i)));
            h.extend((0..n).map(|i| (k, i)));
            h.extend((0..n).rev().map(|i| (k, i)));
            h.extend((0..n).flat_map(|i| [(k, i), (k, 0), (k, i)]));
        } else {
            // all kinds in turn
            for _ in 0..2 {
                h.extend((0..n(0)).flat_map(|i| (0..fs.len()).filter(move |k| i < n(*k)).map(move |k| (k, i))));
            }
        }
        let name = if k < fs.len() { fs[k].name } else { "all kinds in turn" };
        let r = s.alone(|| {
            for (x, (k, i)) in h.iter().enumerate() {
                let got = one(*k, *i);
                if h64(&got) != *at(*k, *i) {
                    return format!("call {x}, {} {i}: got {}", fs[*k].name, crate::ctx::clip(&got));
                }
            }
            String::new()
        });
        w.count(h.len() as u64, h64(&(12, k)));
        match r {
            Ok(t) if t.is_empty() => {}
            Ok(t) => w.violation(format!("many arguments: {name}"), format!("{t}, which is not what a fresh process gives")),
            Err(e) => w.violation(format!("many arguments: {name}"), e),
        }
    });
}

/// every word of two over 0..k, as one sequence
fn pairs(k: usize) -> Vec<usize> {
    let mut out = vec![];
    for a in 0..k {
        out.push(a);
        for b in a + 1..k {
            out.push(a);
            out.push(b);
        }
    }
    out.push(0);
    out
}

/// Long texts of one length that differ in one place: each after each other, in one process.
fn alike(ctx: &Ctx) {
    let ts = twins();
    let jobs: Vec<(usize, usize)> = (0..ts.len()).flat_map(|k| ts[k].lens.iter().map(move |l| (k, *l))).collect();
    spread(ctx, "long arguments that differ in one place", jobs.len(), |w, s, j| {
        let (k, len) = jobs[j];
        let base: Vec<u8> = (0..len).map(|i| b"abcdefghijklmnopqrstuvwxyz0123456789"[(i * 7 + i / 36) % 36]).collect();
        let mut at: Vec<usize> = [0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096].into();
        at.extend([len / 3, len / 2, len - 1, len - 2]);
        at.extend([8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257].iter().filter(|x| **x <= len).map(|x| len - x));
        at.retain(|x| *x < len);
        at.sort();
        at.dedup();
        let mut texts = vec![String::from_utf8(base.clone()).unwrap()];
        for i in at {
            let mut t = base.clone();
            t[i] = if t[i] == b'q' { b'r' } else { b'q' };
            texts.push(String::from_utf8(t).unwrap());
        }
        // results are longer than what a process can hand back
        let one = |i: usize| format!("{:016x}", h64(&guard(|| (ts[k].f)(&texts[i], &texts[0])).unwrap_or_else(|e| e)));
        let name = format!("{} of {len}", ts[k].name);
        let t0 = std::time::Instant::now();
        let mut want = vec![];
        for i in 0..texts.len() {
            match s.alone(|| one(i)) {
                Ok(x) => want.push(x),
                Err(e) => {
                    w.violation(format!("{name}, variant {i} in a fresh process"), e);
                    return;
                }
            }
        }
        let h = pairs(texts.len());
        let r = s.alone(|| {
            for (x, i) in h.iter().enumerate() {
                let got = one(*i);
                if got != want[*i] {
                    return format!("call {x}, variant {i}: got a result of hash {got}");
                }
            }
            String::new()
        });
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("alike {name} {:?}", t0.elapsed());
        }
        w.count((h.len() + texts.len()) as u64, h64(&(13, k, len)));
        match r {
            Ok(t) if t.is_empty() => {}
            Ok(t) => w.violation(format!("alike: {name}"), format!("{t}, which is not what a fresh process gives")),
            Err(e) => w.violation(format!("alike: {name}"), e),
        }
    });
}

/// Stretching without the shortcut for tests: each variant after each other.
fn in_earnest(ctx: &Ctx) {
    let vs: [(u8, usize, &str, &str); 5] = [(1, 32, "a", "low"), (1, 32, "b", "low"), (2, 32, "a", "low"), (1, 33, "a", "low"), (1, 32, "a", "med")];
    let one = |i: usize| {
        let (salt, size, path, tier) = vs[i];
        guard(|| match Salter::new_with_raw(&[salt; 16], None, None) {
            Ok(x) => format!("{:?}", x.stretch(Some(size), Some(path), Some(tier), Some(false)).map_err(|e| e.to_string())),
            Err(e) => e.to_string(),
        })
        .unwrap_or_else(|e| e)
    };
    let s = Sched::new();
    let want: Vec<String> = (0..vs.len()).map(|i| s.alone(|| one(i)).unwrap_or_else(|e| e)).collect();
    spread(ctx, "stretching in earnest", vs.len() * vs.len(), |w, s, j| {
        let h = [j / vs.len(), j % vs.len(), j / vs.len()];
        let r = s.alone(|| h.iter().map(|i| one(*i)).collect::<Vec<_>>().join(" "));
        w.count(3, h64(&(15, j)));
        let label = || format!("in earnest: {:?}", h.map(|i| vs[i]));
        match r {
            Ok(t) if t == h.map(|i| want[i].clone()).join(" ") => {}
            Ok(t) => w.violation(label(), format!("got {}, expected {}", crate::ctx::clip(&t), crate::ctx::clip(&h.map(|i| want[i].clone()).join(" ")))),
            Err(e) => w.violation(label(), e),
        }
    });
}

/// One operation of each sort, more often than 2^16 times.
fn often(ctx: &Ctx, ops: &[Op], want: &[String]) {
    let mut sorts = BTreeSet::new();
    let jobs: Vec<usize> = (0..ops.len()).filter(|i| !ops[*i].heavy && sorts.insert(ops[*i].name.split_once(' ').unwrap_or((&ops[*i].name, "")).0.to_string())).collect();
    spread(ctx, "each sort of operation 66 000 times", jobs.len(), |w, s, j| {
        let i = jobs[j];
        let t0 = std::time::Instant::now();
        let r = s.alone(|| {
            for x in 0..66_000 {
                let got = call(&ops[i]);
                if got != want[i] {
                    return format!("call {x}: got {}, expected {}", crate::ctx::clip(&got), crate::ctx::clip(&want[i]));
                }
            }
            String::new()
        });
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("often {} {:?}", ops[i].name, t0.elapsed());
        }
        w.count(66_000, h64(&(14, i)));
        match r {
            Ok(t) if t.is_empty() => {}
            Ok(t) => w.violation(format!("often: [{}]", ops[i].name), t),
            Err(e) => w.violation(format!("often: [{}]", ops[i].name), e),
        }
    });
}

/// there is something to report: no need to go on
fn found(ctx: &Ctx) -> bool {
    ctx.replay.is_none() && !ctx.violations.lock().unwrap().is_empty()
}

pub fn run(ctx: &Ctx) {
    let s = Sched::new();
    let ops = all();
    let n = ops.len();
    // results in a fresh state, twice
    let mut want: Vec<String> = vec![];
    for op in &ops {
        let label = || format!("fresh state: [{}]", op.name);
        let a = s.alone(|| call(op));
        let b = s.alone(|| call(op));
        match (a, b) {
            (Ok(a), Ok(b)) => {
                if a != b {
                    ctx.record(label(), format!("two fresh runs differ: {} and {}", crate::ctx::clip(&a), crate::ctx::clip(&b)));
                }
                if a.starts_with("panicked") {
                    ctx.record(label(), a.clone());
                }
                want.push(a);
            }
            (a, b) => {
                ctx.record(label(), format!("{a:?} {b:?}"));
                want.push(String::new());
            }
        }
        ctx.traces.fetch_add(2, SeqCst);
        ctx.transitions.fetch_add(2, SeqCst);
    }
    ctx.section("fresh state");
    let (ops, want) = (&ops, &want);
    let start = std::time::Instant::now();
    let limit = |secs: u64| Some(std::time::Instant::now() + std::time::Duration::from_secs(secs));
    let all_by = start + std::time::Duration::from_secs(ctx.pick(480, 3_600));
    // stretching in earnest takes long: only with what could be confused with it
    let slow = |i: usize| ops[i].name == "stretch in earnest";
    let apart = |a: usize, b: usize| {
        (slow(a) && !ops[b].name.starts_with("stretch")) || (slow(b) && !ops[a].name.starts_with("stretch"))
    };
    // a, b, a in a fresh process, all ordered pairs
    spread(ctx, "histories of three in a fresh process", n * n, |w, s, i| {
        let (a, b) = (i / n, i % n);
        let h = [a, b, a];
        let label = format!("history {}", history(ops, &h));
        if !w.wanted(&label) || apart(a, b) {
            return;
        }
        let r = s.alone(|| {
            for (k, x) in h.iter().enumerate() {
                let got = call(&ops[*x]);
                if got != want[*x] {
                    return format!("operation {k}: got {}, expected {}", crate::ctx::clip(&got), crate::ctx::clip(&want[*x]));
                }
            }
            String::new()
        });
        w.count(3, h64(&(1, a, b)));
        match r {
            Ok(t) if t.is_empty() => {}
            Ok(t) => w.violation(label, t),
            Err(e) => w.violation(label, e),
        }
    });

    many(ctx);
    alike(ctx);
    in_earnest(ctx);
    often(ctx, ops, want);
    if found(ctx) {
        return;
    }

    // all words of three operations, one after the other in long-lived processes
    let light: Vec<usize> = (0..n).filter(|i| !ops[*i].heavy).collect();
    let walk = de_bruijn(light.len());
    let parts = 64;
    let size = walk.len() / parts + 1;
    spread(ctx, "histories of all words of three operations", parts, |w, s, part| {
        let seg: Vec<usize> = walk[part * size..((part + 1) * size + 2).min(walk.len())].iter().map(|i| light[*i as usize]).collect();
        let r = s.alone(|| {
            for (k, x) in seg.iter().enumerate() {
                let got = call(&ops[*x]);
                if got != want[*x] {
                    return format!("{k} {}", crate::ctx::clip(&got));
                }
            }
            String::new()
        });
        w.count(seg.len() as u64, h64(&(2, part)));
        match r {
            Ok(t) if t.is_empty() => {}
            Err(e) => w.violation(format!("history of segment {part}"), e),
            Ok(t) => {
                let (k, got) = t.split_once(' ').unwrap();
                let k: usize = k.parse().unwrap();
                // the shortest history that shows it
                let mut label = format!("history of segment {part} up to {k}");
                for len in 2..=4.min(k + 1) {
                    let h = &seg[k + 1 - len..=k];
                    let again = s.alone(|| h.iter().map(|x| call(&ops[*x])).last().unwrap());
                    if again.as_ref() != Ok(&want[seg[k]]) {
                        label = format!("history {}", history(ops, h));
                        break;
                    }
                }
                w.violation(label, format!("got {got}, expected {}", crate::ctx::clip(&want[seg[k]])));
            }
        }
    });

    if found(ctx) {
        return;
    }

    // two threads
    for warm in [false, true] {
        let name = if warm { "warm" } else { "cold" };
        let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (a..n).map(move |b| (a, b))).filter(|(a, b)| !apart(*a, *b)).collect();
        let sequential = |w: &mut Worker, s: &Sched, i: usize| -> Vec<u64> {
            let (a, b) = pairs[i];
            let (oa, ob) = (&ops[a], &ops[b]);
            let before = || {
                if warm {
                    call(oa);
                    call(ob);
                }
            };
            let (fa, fb) = (|| call(oa), || call(ob));
            let want = [want[a].as_str(), want[b].as_str()];
            let mut runs = vec![];
            for first in [0, 1] {
                let r = s.run(&before, [&fa, &fb], first, &[], &[], None);
                w.count(r.points.len() as u64 + 2, h64(&(3, warm, a, b, first)));
                judge(w, &format!("schedule {name}: [{}] || [{}], thread {first} first, no switches", oa.name, ob.name), &r, want);
                runs.push(r);
            }
            let focus = conflicts(&[&runs[0], &runs[1]]);
            if !focus.is_empty() {
                // pairs with the same accesses in the same order
                let mut order: Vec<(usize, u32, u32, u64)> = vec![];
                for (k, r) in runs.iter().enumerate() {
                    for p in &r.points {
                        let e = (k, p.tid, p.kind, p.addr);
                        if focus.contains(&p.addr) && !order.contains(&e) {
                            order.push(e);
                        }
                    }
                }
                w.found(i, h64(&order));
            }
            focus
        };
        let found = spread_until(ctx, &format!("two threads, {name}, one after the other"), pairs.len(), Some(all_by), |w, s, i| {
            sequential(w, s, i);
        });
        if super::c22::found(ctx) {
            return;
        }
        let mut kinds = BTreeSet::new();
        let chosen: Vec<(usize, bool)> = found.iter().map(|(i, x)| (*i, kinds.insert(*x))).collect();
        ctx.note(format!("{name}: {} of {} pairs of operations access common statics, in {} ways", found.len(), pairs.len(), kinds.len()));
        // first the ways, then more of the pairs
        let mut chosen = chosen;
        chosen.sort_by_key(|c| !c.1);
        let until = limit(ctx.pick(90, 1_200)).min(Some(all_by + std::time::Duration::from_secs(60)));
        spread_until(ctx, &format!("two threads, {name}, interleaved"), chosen.len(), until, |w, s, k| {
            let (i, representative) = chosen[k];
            let (a, b) = pairs[i];
            let (oa, ob) = (&ops[a], &ops[b]);
            let focus = sequential(w, s, i);
            let before = || {
                if warm {
                    call(oa);
                    call(ob);
                }
            };
            let bound = if representative { ctx.pick(3, 5) } else { ctx.pick(1, 2) };
            for first in [0, 1] {
                let mut e = Explore {
                    before: &before,
                    ops: [oa, ob],
                    want: [want[a].as_str(), want[b].as_str()],
                    first,
                    focus: &focus,
                    bound,
                    name: name.to_string(),
                    budget: if slow(a) || slow(b) { 40 } else { ctx.pick(4_000, 100_000) },
                    diverged: 0,
                };
                e.run(w, s, &[], &[]);
                if e.budget == 0 {
                    w.note(format!("budget reached: {name} [{}] || [{}]", oa.name, ob.name));
                }
                if e.diverged > 0 {
                    w.note(format!("{} schedules of {name} [{}] || [{}] did not repeat", e.diverged, oa.name, ob.name));
                }
            }
        });
    }
    // last, for it leaves what is made on first use behind in this process
    objects(ctx);
}
