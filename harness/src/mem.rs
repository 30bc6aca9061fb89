//! Counting global allocator: live/peak heap bytes of the process and a hard cap.
//! The cap turns unbounded allocation in the code under test into an observable event
//! (exit code 77 and a MEMCAP line) instead of taking the sandbox down.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
static BIG: AtomicUsize = AtomicUsize::new(usize::MAX);
static COUNT: AtomicUsize = AtomicUsize::new(0);

static JITTER: AtomicUsize = AtomicUsize::new(0);
static TICK: AtomicUsize = AtomicUsize::new(1);
/// every n-th or so call of the allocator gives up its time slice (0: never)
pub fn set_jitter(n: usize) {
    JITTER.store(n, Relaxed)
}
#[cold]
fn jitter(n: usize) {
    let x = TICK.fetch_add(0x9e37_79b9_7f4a_7c15, Relaxed);
    let x = (x ^ x >> 29).wrapping_mul(0xbf58_476d_1ce4_e5b9) >> 33;
    if x % n == 0 {
        if x & 0x1000 != 0 {
            std::thread::yield_now()
        } else {
            std::thread::sleep(std::time::Duration::from_micros((x >> 13) as u64 % 200))
        }
    }
}
static REQ: AtomicUsize = AtomicUsize::new(0);
/// largest single request since the last call
pub fn take_request() -> usize {
    REQ.swap(0, Relaxed)
}
fn add(n: usize) {
    REQ.fetch_max(n, Relaxed);
    let j = JITTER.load(Relaxed);
    if j != 0 {
        jitter(j)
    }
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
    COUNT.fetch_add(1, Relaxed);
    if l > CAP.load(Relaxed) || n >= BIG.load(Relaxed) {
        die(l, n);
    }
}
extern "C" {
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}
#[cold]
fn die(live: usize, n: usize) -> ! {
    let mut b = [0u8; 64];
    let mut p = 0;
    // a literal command's claimed length: one odd-sized request made while holding no more than usual
    let literal = n >= BIG.load(Relaxed) && n % 4096 != 0 && live - n < 100 << 20;
    for c in if literal { b"\nMEMBIG " } else { b"\nMEMCAP " } {
        b[p] = *c;
        p += 1;
    }
    for v in [live, n] {
        let mut d = [0u8; 20];
        let mut k = 0;
        let mut v = v;
        loop {
            d[k] = b'0' + (v % 10) as u8;
            v /= 10;
            k += 1;
            if v == 0 {
                break;
            }
        }
        while k > 0 {
            k -= 1;
            b[p] = d[k];
            p += 1;
        }
        b[p] = b' ';
        p += 1;
    }
    b[p] = b'\n';
    p += 1;
    unsafe {
        write(1, b.as_ptr(), p);
        _exit(77)
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        LIVE.fetch_sub(l.size(), Relaxed);
        System.realloc(p, l, n)
    }
}
pub fn live() -> usize {
    LIVE.load(Relaxed)
}
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
pub fn reset_peak() {
    PEAK.store(LIVE.load(Relaxed), Relaxed)
}
pub fn count() -> usize {
    COUNT.load(Relaxed)
}
pub fn set_cap(n: usize) {
    CAP.store(n, Relaxed);
    // under a tight cap, a single request of a quarter of a gigabyte is told apart from accumulation
    if n <= 1 << 30 {
        BIG.store(1 << 28, Relaxed)
    }
}
