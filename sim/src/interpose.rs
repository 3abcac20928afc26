//! libc entry points the code under test reaches for time and randomness,
//! redirected to the simulator while a simulated run is in progress.
use std::arch::asm;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub static ACTIVE: AtomicBool = AtomicBool::new(false);

pub const EXIT_FUTEX: i32 = 71;
pub const EXIT_MEMORY: i32 = 72;

#[repr(C)]
pub struct Timespec {
    pub sec: i64,
    pub nsec: i64,
}
#[repr(C)]
pub struct Timeval {
    sec: i64,
    usec: i64,
}

unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

/// Real monotonic nanoseconds, whatever the simulator says.
pub fn real_ns() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe {
        raw(228, 1, &mut t as *mut _ as usize, 0, 0, 0, 0);
    }
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

fn on() -> bool {
    ACTIVE.load(Relaxed) && tokio::sim::active()
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    if on() {
        let ns = match clk {
            0 | 5 => tokio::sim::wall_ns(),
            1 | 4 | 6 | 7 => tokio::sim::now(),
            _ => tokio::sim::now(),
        };
        (*ts).sec = (ns / 1_000_000_000) as i64;
        (*ts).nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    raw(228, clk as usize, ts as usize, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut Timeval, _tz: usize) -> i32 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    clock_gettime(0, &mut t);
    if !tv.is_null() {
        (*tv).sec = t.sec;
        (*tv).usec = t.nsec / 1000;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    clock_gettime(0, &mut t);
    if !p.is_null() {
        *p = t.sec;
    }
    t.sec
}
unsafe fn sleep_ns(ts: *const Timespec) {
    let ns = (*ts).sec as u64 * 1_000_000_000 + (*ts).nsec as u64;
    tokio::sim::block_for(ns);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> i32 {
    if on() {
        sleep_ns(req);
        return 0;
    }
    raw(35, req as usize, rem as usize, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, fl: i32, req: *const Timespec, rem: *mut Timespec) -> i32 {
    if on() {
        if fl & 1 != 0 {
            let t = (*req).sec as u64 * 1_000_000_000 + (*req).nsec as u64;
            let n = tokio::sim::now();
            if t > n {
                tokio::sim::block_for(t - n);
            }
        } else {
            sleep_ns(req);
        }
        return 0;
    }
    -raw(230, c as usize, fl as usize, req as usize, rem as usize, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if on() {
        tokio::sim::preempt();
        return 0;
    }
    raw(24, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, fl: u32) -> isize {
    if on() {
        tokio::sim::fill_random(std::slice::from_raw_parts_mut(buf, len));
        return len as isize;
    }
    raw(318, buf as usize, len, fl as usize, 0, 0, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    getrandom(buf, len, 0);
    0
}
extern "C" {
    fn __errno_location() -> *mut i32;
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if on() {
        if n == 318 {
            return getrandom(a as *mut u8, b, c as u32) as i64;
        }
        if n == 202 {
            let op = b & 0x7f;
            if op == 0 || op == 9 {
                let cur = *(a as *const u32);
                if cur == c as u32 {
                    if d != 0 {
                        // timed wait: let simulated time pass
                        tokio::sim::block_for(1_000_000);
                        *__errno_location() = 110;
                        return -1;
                    }
                    // The only thread would sleep on a lock for ever.
                    exit_now(EXIT_FUTEX);
                }
                *__errno_location() = 11;
                return -1;
            }
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw(231, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}

// ---- heap accounting -------------------------------------------------------
pub struct Counting;
pub static CUR: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

fn add(n: usize) {
    let c = CUR.load(Relaxed).wrapping_add(n);
    CUR.store(c, Relaxed);
    if c > PEAK.load(Relaxed) && c < usize::MAX / 2 {
        PEAK.store(c, Relaxed);
        if c > LIMIT.load(Relaxed) {
            exit_now(EXIT_MEMORY);
        }
    }
}
fn sub(n: usize) {
    CUR.store(CUR.load(Relaxed).wrapping_sub(n), Relaxed);
}
use std::alloc::{GlobalAlloc, Layout, System};
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            add(n - l.size())
        } else {
            sub(l.size() - n)
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

// ---- process plumbing ------------------------------------------------------
pub mod sys {
    extern "C" {
        pub fn fork() -> i32;
        pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
        pub fn pipe(fds: *mut i32) -> i32;
        pub fn close(fd: i32) -> i32;
        pub fn read(fd: i32, b: *mut u8, n: usize) -> isize;
        pub fn write(fd: i32, b: *const u8, n: usize) -> isize;
        pub fn mmap(a: *mut u8, n: usize, prot: i32, fl: i32, fd: i32, off: i64) -> *mut u8;
        pub fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
        pub fn poll(f: *mut PollFd, n: u64, t: i32) -> i32;
        pub fn kill(pid: i32, sig: i32) -> i32;
        pub fn open(p: *const i8, fl: i32, ...) -> i32;
        pub fn dup2(a: i32, b: i32) -> i32;
        pub fn personality(p: u64) -> i32;
        pub fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
        pub fn socketpair(d: i32, t: i32, p: i32, sv: *mut i32) -> i32;
        pub fn getppid() -> i32;
    }
    #[repr(C)]
    pub struct PollFd {
        pub fd: i32,
        pub events: i16,
        pub revents: i16,
    }
}
