//! A controlled scheduler for unmodified code.
//!
//! Two threads run one operation each in a child process; only the one holding the token runs.
//! All writable static memory of the program (and, on request, the page an object lives in) is
//! made inaccessible while they run, so every access to it traps: that is a scheduling point. The
//! handler lets the access through by unprotecting, single-stepping the one instruction and
//! protecting again. Futex waits are answered by switching to the other thread, so locks held
//! across a preemption are seen as blocking. Between two such points a thread touches only memory
//! of its own (or memory it reached through one of them), so these points suffice for data that
//! is guarded by, or lives in, static memory or the shared object.

use std::cell::Cell;
use std::sync::atomic::{AtomicI32, AtomicU32, AtomicU64, Ordering::SeqCst};

pub const MAX_POINTS: usize = 1 << 14;
pub const OUT: usize = 1 << 15;

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C)]
pub struct Point {
    pub tid: u32,
    /// 0 read, 1 write, 2 futex wait
    pub kind: u32,
    pub addr: u64,
    /// the other thread could have run instead
    pub choice: u32,
    pub taken: u32,
}

/// Lives in memory shared with the parent.
#[repr(C)]
pub struct Shared {
    token: AtomicI32,
    ready: AtomicI32,
    release: AtomicI32,
    finished: [AtomicI32; 2],
    ranges: [(u64, u64); 64],
    nranges: usize,
    ndev: usize,
    dev: [u32; 8],
    nown: usize,
    own: [(u64, u64); 256],
    nfocus: usize,
    focus: [u64; 1024],
    waits: AtomicU32,
    stuck: AtomicU32,
    last: [(u64, u64, u32); 2],
    npoints: usize,
    points: [Point; MAX_POINTS],
    done: AtomicI32,
    steps: AtomicU64,
    nout: [usize; 2],
    out: [[u8; OUT]; 2],
}

struct Me {
    sh: *mut Shared,
    tid: usize,
}

thread_local! {
    static ME: Cell<*mut Me> = const { Cell::new(std::ptr::null_mut()) };
}

#[inline(always)]
unsafe fn sys(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn fwait(w: &AtomicI32, v: i32) {
    sys(libc::SYS_futex, w as *const _ as i64, libc::FUTEX_WAIT as i64, v as i64, 0, 0, 0);
}

unsafe fn fwake(w: &AtomicI32) {
    sys(libc::SYS_futex, w as *const _ as i64, libc::FUTEX_WAKE as i64, i32::MAX as i64, 0, 0, 0);
}

unsafe fn protect(sh: &Shared, prot: i32) {
    for i in 0..sh.nranges {
        let (a, b) = sh.ranges[i];
        sys(libc::SYS_mprotect, a as i64, (b - a) as i64, prot as i64, 0, 0, 0);
    }
}

unsafe fn wait_token(sh: &Shared, tid: usize) {
    loop {
        let t = sh.token.load(SeqCst);
        if t == tid as i32 {
            return;
        }
        fwait(&sh.token, t);
    }
}

unsafe fn switch_to(sh: &Shared, from: usize) {
    sh.token.store(1 - from as i32, SeqCst);
    fwake(&sh.token);
    wait_token(sh, from);
}

/// a scheduling point of the running thread, before the access happens
unsafe fn point(me: &Me, kind: u32, addr: u64, ip: u64) {
    let sh = &mut *me.sh;
    let other = sh.finished[1 - me.tid].load(SeqCst) == 0;
    if kind != 2 {
        // a thread that spins on one instruction makes no new state
        let last = &mut sh.last[me.tid];
        if last.0 == addr && last.1 == ip {
            last.2 += 1;
        } else {
            *last = (addr, ip, 0);
        }
        if last.2 > 3 {
            return;
        }
    }
    let i = sh.npoints;
    if i >= MAX_POINTS {
        sh.stuck.store(2, SeqCst);
        sys(libc::SYS_exit_group, 7, 0, 0, 0, 0, 0);
    }
    let deviate = kind == 2 || sh.dev[..sh.ndev].contains(&(i as u32));
    sh.points[i] = Point { tid: me.tid as u32, kind, addr, choice: (other && kind != 2) as u32, taken: (other && deviate) as u32 };
    sh.npoints = i + 1;
    if other && deviate {
        sh.last = [(0, 0, 0); 2];
        switch_to(sh, me.tid);
    } else if kind == 2 && sh.waits.fetch_add(1, SeqCst) > 2000 {
        // waits for something nobody is left to do
        sh.stuck.store(1, SeqCst);
        sys(libc::SYS_exit_group, 7, 0, 0, 0, 0, 0);
    }
}

unsafe extern "C" fn on_fault(sig: i32, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let me = ME.with(|m| m.get());
    let uc = &mut *(uc as *mut libc::ucontext_t);
    let addr = (*info).si_addr() as u64;
    if me.is_null() || !(&*(*me).sh).ranges[..(*(*me).sh).nranges].iter().any(|r| r.0 <= addr && addr < r.1) {
        // a fault of its own
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = libc::SIG_DFL;
        libc::sigaction(sig, &sa, std::ptr::null_mut());
        return;
    }
    let me = &*me;
    let sh = &*me.sh;
    let write = (uc.uc_mcontext.gregs[libc::REG_ERR as usize] & 2) != 0;
    let ip = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as u64;
    sh.steps.fetch_add(1, SeqCst);
    let word = addr & !7;
    if if sh.nfocus == 0 { sh.own[..sh.nown].iter().any(|(a, b)| word + 8 > *a && word < *b) } else { sh.focus[..sh.nfocus].contains(&word) } {
        point(me, write as u32, word, ip);
    }
    protect(sh, libc::PROT_READ | libc::PROT_WRITE);
    uc.uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100;
}

unsafe extern "C" fn on_step(_sig: i32, _info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let me = ME.with(|m| m.get());
    let uc = &mut *(uc as *mut libc::ucontext_t);
    uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
    if !me.is_null() {
        protect(&*(*me).sh, libc::PROT_NONE);
    }
}

/// Every `syscall` of the standard library and of crates in this program comes through here.
///
/// # Safety
/// As the C function of the same name.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex {
        let me = ME.with(|m| m.get());
        if !me.is_null() {
            let op = b & 127;
            if op == libc::FUTEX_WAIT as i64 || op == libc::FUTEX_WAIT_BITSET as i64 {
                point(&*me, 2, a as u64 & !7, 0);
            }
            return 0;
        }
    }
    if n == libc::SYS_getrandom {
        return crate::entropy::getrandom(a as *mut libc::c_void, b as usize, c as u32) as i64;
    }
    let r = sys(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}

/// the writable statics of the library; those of other crates are trusted to be used properly
pub fn library_words() -> Vec<(u64, u64)> {
    let data = std::fs::read("/proc/self/exe").unwrap();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let base = u64::from_str_radix(maps.split('-').next().unwrap(), 16).unwrap();
    let u16_at = |i: usize| u16::from_le_bytes(data[i..i + 2].try_into().unwrap()) as usize;
    let u32_at = |i: usize| u32::from_le_bytes(data[i..i + 4].try_into().unwrap()) as usize;
    let u64_at = |i: usize| u64::from_le_bytes(data[i..i + 8].try_into().unwrap());
    let (shoff, shentsize, shnum) = (u64_at(40) as usize, u16_at(58), u16_at(60));
    let writable = statics();
    let mut out = vec![];
    for i in 0..shnum {
        let h = shoff + i * shentsize;
        // SHT_SYMTAB
        if u32_at(h + 4) != 2 {
            continue;
        }
        let (off, size, link) = (u64_at(h + 24) as usize, u64_at(h + 32) as usize, u32_at(h + 40));
        let strs = u64_at(shoff + link * shentsize + 24) as usize;
        for k in 0..size / 24 {
            let s = off + k * 24;
            // objects (not thread-local ones)
            if data[s + 4] & 15 != 1 {
                continue;
            }
            let name = &data[strs + u32_at(s)..];
            let name = String::from_utf8_lossy(&name[..name.iter().position(|b| *b == 0).unwrap()]).to_string();
            let (a, n) = (base + u64_at(s + 8), u64_at(s + 16).max(1));
            if name.contains("7cesride") && !name.contains("_2mc") && writable.iter().any(|w| w.0 <= a && a < w.1) {
                out.push((a, a + n));
            }
        }
    }
    out.sort();
    out
}

/// the writable static memory of this program
pub fn statics() -> Vec<(u64, u64)> {
    let exe = std::fs::read_link("/proc/self/exe").unwrap();
    let exe = exe.to_string_lossy().to_string();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let mut out: Vec<(u64, u64)> = vec![];
    let mut end = 0;
    for l in maps.lines() {
        let mut w = l.split_whitespace();
        let (r, p) = (w.next().unwrap(), w.next().unwrap());
        let path = l.splitn(6, ' ').nth(5).unwrap_or("").trim();
        let (a, b) = r.split_once('-').unwrap();
        let (a, b) = (u64::from_str_radix(a, 16).unwrap(), u64::from_str_radix(b, 16).unwrap());
        if path == exe || (path.is_empty() && a == end) {
            end = b;
            if p.starts_with("rw") {
                match out.last_mut() {
                    Some(l) if l.1 == a => l.1 = b,
                    _ => out.push((a, b)),
                }
            }
        } else {
            end = 0;
        }
    }
    out
}

/// Keeps this process on one processor: only one thread runs at a time anyway, and protection
/// changes are cheap when no other processor has to be told.
pub fn pin(k: usize) {
    unsafe {
        let mut old: libc::cpu_set_t = std::mem::zeroed();
        let size = std::mem::size_of::<libc::cpu_set_t>();
        if libc::sched_getaffinity(0, size, &mut old) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|i| libc::CPU_ISSET(*i, &old)).collect();
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[k % cpus.len()], &mut set);
        libc::sched_setaffinity(0, size, &set);
    }
}

pub struct Outcome {
    pub points: Vec<Point>,
    pub out: [Option<String>; 2],
    pub how: String,
    pub steps: u64,
}

pub struct Sched {
    sh: *mut Shared,
    own: Vec<(u64, u64)>,
}

pub type Op<'a> = &'a (dyn Fn() -> String + Sync);

fn put(sh: &mut Shared, tid: usize, s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(OUT);
    sh.out[tid][..n].copy_from_slice(&b[..n]);
    sh.nout[tid] = n + 1;
}

fn get(sh: &Shared, tid: usize) -> Option<String> {
    let n = sh.nout[tid];
    (n > 0).then(|| String::from_utf8_lossy(&sh.out[tid][..n - 1]).to_string())
}

impl Default for Sched {
    fn default() -> Self {
        Self::new()
    }
}

impl Sched {
    pub fn new() -> Self {
        let sh = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Shared>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        } as *mut Shared;
        assert!(sh as isize != -1);
        Sched { sh, own: library_words() }
    }

    /// Runs `f` in a child process forked from here; its text comes back, or how the child died.
    pub fn alone(&self, f: impl FnOnce() -> String) -> Result<String, String> {
        let sh = unsafe { &mut *self.sh };
        sh.nout = [0, 0];
        let how = self.fork(|| {
            let s = f();
            put(unsafe { &mut *self.sh }, 0, &s);
        });
        match get(sh, 0) {
            Some(s) if how.is_empty() => Ok(s),
            _ => Err(how),
        }
    }

    fn fork(&self, f: impl FnOnce()) -> String {
        unsafe {
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
                    libc::signal(s, libc::SIG_DFL);
                }
                libc::alarm(60);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                libc::_exit(if r.is_ok() { 0 } else { 9 });
            }
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
                String::new()
            } else if libc::WIFSIGNALED(st) {
                match libc::WTERMSIG(st) {
                    libc::SIGALRM => "did not return".into(),
                    libc::SIGSEGV => "memory fault (SIGSEGV)".into(),
                    libc::SIGABRT => "abort".into(),
                    s => format!("signal {s}"),
                }
            } else {
                match (*self.sh).stuck.load(SeqCst) {
                    1 => "deadlock: waits for something nobody is left to do".into(),
                    2 => "does not come to an end (livelock)".into(),
                    _ => format!("exit status {}", libc::WEXITSTATUS(st)),
                }
            }
        }
    }

    /// Runs the two operations in a fresh child after `before`, thread `first` first, switching
    /// threads at the points numbered in `dev`. Points at addresses outside `focus` do not count
    /// (all do when it is empty). `extra` is memory watched besides the statics.
    pub fn run(&self, before: &dyn Fn(), ops: [Op; 2], first: usize, dev: &[u32], focus: &[u64], extra: Option<(u64, u64)>) -> Outcome {
        let sh = unsafe { &mut *self.sh };
        sh.token.store(-1, SeqCst);
        sh.ready.store(0, SeqCst);
        sh.release.store(0, SeqCst);
        sh.finished[0].store(0, SeqCst);
        sh.finished[1].store(0, SeqCst);
        sh.nranges = 0;
        if focus.is_empty() {
            if let Some(r) = extra {
                sh.ranges[0] = r;
                sh.nranges = 1;
            }
        }
        {
            // only the pages that matter
            let mut pages: Vec<u64> = focus.iter().map(|w| w & !4095).collect();
            if focus.is_empty() {
                pages.extend(self.own.iter().flat_map(|(a, b)| (a >> 12..=(b - 1) >> 12).map(|p| p << 12)));
            }
            pages.sort();
            pages.dedup();
            for p in pages {
                if sh.nranges > 0 && (sh.ranges[sh.nranges - 1].1 == p || sh.nranges == sh.ranges.len()) {
                    // the pages between, if any, are statics too
                    sh.ranges[sh.nranges - 1].1 = p + 4096;
                } else {
                    sh.ranges[sh.nranges] = (p, p + 4096);
                    sh.nranges += 1;
                }
            }
        }
        sh.ndev = dev.len();
        sh.dev[..dev.len()].copy_from_slice(dev);
        assert!(focus.len() <= sh.focus.len());
        sh.nfocus = focus.len();
        sh.nown = 0;
        for r in self.own.iter().copied().chain(extra) {
            assert!(sh.nown < sh.own.len());
            sh.own[sh.nown] = r;
            sh.nown += 1;
        }
        sh.focus[..focus.len()].copy_from_slice(focus);
        sh.waits.store(0, SeqCst);
        sh.stuck.store(0, SeqCst);
        sh.last = [(0, 0, 0); 2];
        sh.npoints = 0;
        sh.done.store(0, SeqCst);
        sh.steps.store(0, SeqCst);
        sh.nout = [0, 0];
        let shp = self.sh as usize;
        let how = self.fork(|| {
            let sh = unsafe { &mut *(shp as *mut Shared) };
            before();
            unsafe {
                let mut sa: libc::sigaction = std::mem::zeroed();
                sa.sa_sigaction = on_fault as *const () as usize;
                sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
                libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
                sa.sa_sigaction = on_step as *const () as usize;
                libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
            }
            std::thread::scope(|s| {
                for tid in 0..2 {
                    let op = ops[tid];
                    s.spawn(move || unsafe {
                        let sh = &mut *(shp as *mut Shared);
                        let mut me = Me { sh: shp as *mut Shared, tid };
                        sh.ready.fetch_add(1, SeqCst);
                        fwake(&sh.ready);
                        wait_token(sh, tid);
                        ME.with(|m| m.set(&mut me));
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(op));
                        let text = match r {
                            Ok(t) => t,
                            Err(_) => "panicked".to_string(),
                        };
                        put(sh, tid, &text);
                        sh.finished[tid].store(1, SeqCst);
                        if sh.finished[1 - tid].load(SeqCst) == 0 {
                            sh.token.store(1 - tid as i32, SeqCst);
                            fwake(&sh.token);
                        } else {
                            sh.done.store(1, SeqCst);
                            fwake(&sh.done);
                        }
                        while sh.release.load(SeqCst) == 0 {
                            fwait(&sh.release, 0);
                        }
                        ME.with(|m| m.set(std::ptr::null_mut()));
                    });
                }
                unsafe {
                    while sh.ready.load(SeqCst) < 2 {
                        fwait(&sh.ready, sh.ready.load(SeqCst).min(1));
                    }
                    protect(sh, libc::PROT_NONE);
                    sh.token.store(first as i32, SeqCst);
                    fwake(&sh.token);
                    while sh.done.load(SeqCst) == 0 {
                        fwait(&sh.done, 0);
                    }
                    protect(sh, libc::PROT_READ | libc::PROT_WRITE);
                    sh.release.store(1, SeqCst);
                    fwake(&sh.release);
                }
            });
        });
        Outcome {
            points: sh.points[..sh.npoints.min(MAX_POINTS)].to_vec(),
            out: [get(sh, 0), get(sh, 1)],
            how,
            steps: sh.steps.load(SeqCst),
        }
    }
}

/// the number of the controlled thread that asks, 2 for any other
pub fn me() -> u64 {
    let me = ME.with(|m| m.get());
    if me.is_null() {
        2
    } else {
        unsafe { (*me).tid as u64 }
    }
}
