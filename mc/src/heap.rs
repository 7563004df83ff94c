//! The allocator of the harness. While a thread watches for secrets, every block that is given back
//! on that thread is searched for them first, and every block it takes and keeps is remembered.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Heap;

struct Watch {
    secrets: Vec<Vec<u8>>,
    live: Vec<(usize, usize)>,
    hits: Vec<String>,
    blocks: u64,
}

thread_local! {
    static WATCH: Cell<*mut Watch> = const { Cell::new(std::ptr::null_mut()) };
    static ON: Cell<bool> = const { Cell::new(false) };
}

unsafe fn bytes<'a>(p: usize, n: usize) -> &'a [u8] {
    std::slice::from_raw_parts(p as *const u8, n)
}

impl Watch {
    fn find(&self, b: &[u8]) -> Option<usize> {
        self.secrets.iter().position(|s| b.len() >= s.len() && b.windows(s.len()).any(|w| w == &s[..]))
    }
}

/// runs `f` on the watch of this thread, with watching off (so that `f` may allocate)
fn with(f: impl FnOnce(&mut Watch)) {
    if let Ok(p) = WATCH.try_with(|w| w.replace(std::ptr::null_mut())) {
        if !p.is_null() {
            f(unsafe { &mut *p });
            WATCH.with(|w| w.set(p));
        }
    }
}

fn watched() -> bool {
    WATCH.try_with(|w| !w.get().is_null()).unwrap_or(false)
}

fn on() -> bool {
    ON.try_with(|o| o.get()).unwrap_or(false)
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !on() {
            return System.alloc(l);
        }
        // without what the block held before
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            with(|w| w.live.push((p as usize, l.size())));
        }
        p
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if on() {
            with(|w| w.live.push((p as usize, l.size())));
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if watched() {
            with(|w| {
                let at = w.live.iter().rposition(|x| x.0 == p as usize);
                if let Some(at) = at {
                    w.live.swap_remove(at);
                }
                // what the caller made and what the caller gives back are the caller's business
                if on() && at.is_some() {
                    w.blocks += 1;
                    if let Some(k) = w.find(bytes(p as usize, l.size())) {
                        w.hits.push(format!("a block of {} bytes was given back with {}", l.size(), name(w, k)));
                    }
                }
            });
        }
        System.dealloc(p, l)
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !watched() {
            return System.realloc(p, l, n);
        }
        // as the system may do it: a new block, the old one given back
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

fn name(w: &Watch, k: usize) -> String {
    match std::str::from_utf8(&w.secrets[k]) {
        Ok(s) => format!("the text {s:?} of the secret in it"),
        Err(_) => format!("the bytes {:02x?} of the secret in it", w.secrets[k]),
    }
}

/// work of the harness in the middle of a watched call
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let was = ON.with(|o| o.replace(false));
    let t = f();
    ON.with(|o| o.set(was));
    t
}

/// what was seen: leaks, and how many blocks were searched
pub struct Seen {
    pub hits: Vec<String>,
    pub blocks: u64,
}

/// Calls the library (`f`) watching for the secrets; `after` looks at, and disposes of, what is the
/// caller's. Whatever the library took in `f` and still keeps afterwards is searched, too.
pub fn watch<T>(secrets: Vec<Vec<u8>>, f: impl FnOnce() -> T, after: impl FnOnce(T)) -> Seen {
    let mut w = Box::new(Watch { secrets, live: Vec::with_capacity(256), hits: vec![], blocks: 0 });
    let p: *mut Watch = &mut *w;
    WATCH.with(|c| c.set(p));
    ON.with(|o| o.set(true));
    let t = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ON.with(|o| o.set(false));
    if let Ok(t) = t {
        after(t);
    }
    WATCH.with(|c| c.set(std::ptr::null_mut()));
    for (p, n) in &w.live {
        w.blocks += 1;
        if let Some(k) = w.find(unsafe { bytes(*p, *n) }) {
            let h = format!("a block of {n} bytes is kept with {}", name(&w, k));
            w.hits.push(h);
        }
    }
    Seen { hits: std::mem::take(&mut w.hits), blocks: w.blocks }
}
