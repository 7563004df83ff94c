//! The system's entropy source as seen by this program: every request goes through here, and while a
//! `Script` is set on a thread its requests are answered by it.
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Answer {
    Full,
    /// this many bytes only
    Short(usize),
    /// half of what was asked for
    Half,
    /// all but one byte of what was asked for
    AllButOne,
    Interrupted,
    Fails,
}

/// What a thread's requests get, one answer per request and full ones after that, and what they got.
#[derive(Clone, Default)]
pub struct Script {
    pub seed: u64,
    /// delivered before the bytes that follow from the seed
    pub prefix: Vec<u8>,
    pub answers: Vec<Answer>,
    pub requests: usize,
    pub asked: Vec<usize>,
    pub delivered: Vec<u8>,
}

thread_local! {
    static SCRIPT: RefCell<Option<Script>> = const { RefCell::new(None) };
}

impl Script {
    /// byte `i` of the stream
    fn byte(&self, i: usize) -> u8 {
        match self.prefix.get(i) {
            Some(b) => *b,
            None => {
                // splitmix64
                let mut z = self.seed.wrapping_add((i as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15));
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
                (z ^ (z >> 31)) as u8
            }
        }
    }

    fn answer(&mut self, len: usize) -> Result<usize, i32> {
        if len == 0 {
            return Ok(0);
        }
        let a = self.answers.get(self.requests).copied().unwrap_or(Answer::Full);
        self.requests += 1;
        self.asked.push(len);
        match a {
            Answer::Full => Ok(len),
            Answer::Short(n) => Ok(n.clamp(1, len)),
            Answer::Half => Ok((len / 2).max(1)),
            Answer::AllButOne => Ok((len - 1).max(1)),
            Answer::Interrupted => Err(libc::EINTR),
            Answer::Fails => Err(libc::EIO),
        }
    }
}

pub fn set(s: Script) {
    SCRIPT.with(|c| *c.borrow_mut() = Some(s));
}

pub fn take() -> Option<Script> {
    SCRIPT.with(|c| c.borrow_mut().take())
}

/// how much the current script has delivered
pub fn delivered() -> usize {
    SCRIPT.with(|c| c.borrow().as_ref().map(|s| s.delivered.len()).unwrap_or(0))
}

/// # Safety
/// As the C function of the same name.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: u32) -> isize {
    let scripted = crate::heap::outside(|| SCRIPT.try_with(|c| {
        c.try_borrow_mut().ok().and_then(|mut s| {
            s.as_mut().map(|s| match s.answer(len) {
                Ok(n) => {
                    for i in 0..n {
                        let b = s.byte(s.delivered.len());
                        *(buf as *mut u8).add(i) = b;
                        s.delivered.push(b);
                    }
                    n as isize
                }
                Err(e) => {
                    *libc::__errno_location() = e;
                    -1
                }
            })
        })
    }));
    if let Ok(Some(r)) = scripted {
        return r;
    }
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") libc::SYS_getrandom => r, in("rdi") buf, in("rsi") len, in("rdx") flags as u64,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r as isize
}
