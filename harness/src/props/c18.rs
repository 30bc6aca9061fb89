//! C18: the same work gives the same bytes, whatever happened before and whatever memory contained.
use super::c05::{mutate, valid};
use super::MB;
use crate::cmds;
use crate::drive::*;
use crate::ffi::*;
use crate::gen;
use crate::opts;
use crate::pool::*;
use crate::rng::{fnv, mix, Rng};
use alloc_no_stdlib::{Allocator, SliceWrapperMut};
use alloc_stdlib::heap_alloc::WrapBox;

use divans::{Compressor, Decompressor, DefaultCDF16, StaticCommand, DivansCompressorFactory, DivansCompressorOptions, DivansDecompressorFactory, Nop};
use std::os::raw::c_void;
use std::sync::{Arc, Mutex};

type Shelf<T> = Arc<Mutex<Vec<Box<[T]>>>>;
/// one shelf of blocks for many coders; freed blocks are handed out again
#[derive(Clone)]
pub struct Recycle<T: Clone> {
    shelf: Shelf<T>,
    /// what the allocator interface's contract has blocks filled with
    default: T,
}
impl<T: Clone> Recycle<T> {
    fn new(default: T) -> Self {
        Recycle { shelf: Arc::new(Mutex::new(vec![])), default }
    }
}
impl<T: Clone> Allocator<T> for Recycle<T> {
    type AllocatedMemory = WrapBox<T>;
    fn alloc_cell(&mut self, n: usize) -> WrapBox<T> {
        let mut s = self.shelf.lock().unwrap();
        if let Some(i) = s.iter().position(|b| b.len() == n) {
            let mut b = s.swap_remove(i);
            b.fill(self.default.clone());
            return b.into_vec().into();
        }
        vec![self.default.clone(); n].into()
    }
    fn free_cell(&mut self, b: WrapBox<T>) {
        let b: Box<[T]> = b.into();
        let mut s = self.shelf.lock().unwrap();
        if b.len() > 0 && s.len() < 64 {
            s.push(b)
        }
    }
}
/// the memory a set of coders shares
pub struct Mem {
    a8: Recycle<u8>,
    a32: Recycle<u32>,
    acdf: Recycle<DefaultCDF16>,
    acmd: Recycle<StaticCommand>,
}
impl Mem {
    fn new() -> Mem {
        Mem { a8: Recycle::new(0), a32: Recycle::new(0), acdf: Recycle::new(Default::default()), acmd: Recycle::new(StaticCommand::nop()) }
    }
}
type DHyb = divans::BrotliDivansHybridCompressorFactory<Recycle<u8>, Recycle<DefaultCDF16>, Comb>;
type DInt = divans::DivansCompressorFactoryStruct<Recycle<u8>, Recycle<DefaultCDF16>>;
type DDec = divans::DivansDecompressorFactoryStruct<Recycle<u8>, Recycle<DefaultCDF16>, Recycle<StaticCommand>>;

extern "C" fn junk_alloc(o: *mut c_void, n: usize) -> *mut c_void {
    let f = unsafe { &*(o as *const u8) };
    unsafe {
        let total = n + 64;
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(total, 64));
        std::ptr::write_bytes(p, *f, total);
        *(p as *mut usize) = total;
        p.add(64) as *mut c_void
    }
}
extern "C" fn junk_free(_: *mut c_void, p: *mut c_void) {
    unsafe {
        let p = (p as *mut u8).sub(64);
        let total = *(p as *const usize);
        std::ptr::write_bytes(p, 0xee, total);
        std::alloc::dealloc(p, std::alloc::Layout::from_size_align_unchecked(total, 64));
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    Hybrid,
    Internal,
    Commands(bool),
    C(bool),
}
/// one piece of work, everything about it fixed
#[derive(Clone)]
pub struct Job {
    pub how: How,
    pub data: Arc<Vec<u8>>,
    pub cs: Arc<Vec<cmds::Cmd>>,
    pub o: DivansCompressorOptions,
    pub is: Sched,
    pub os: Sched,
    pub r: Rng,
}
impl Job {
    pub fn random(r: &mut Rng, max: usize) -> (Job, String) {
        let (d, fam) = gen::data(r, max);
        let mut o = opts::random(r, d.len() < 6000).o;
        o.stride_detection_quality = None;
        let how = match r.us(8) {
            0 | 1 | 2 => How::Hybrid,
            3 => How::Internal,
            4 | 5 => How::Commands(r.bool()),
            6 => How::C(true),
            _ => How::C(false),
        };
        let mut cs = vec![];
        let mut data = d;
        if let How::Commands(_) = how {
            let lg = r.range(10, 20);
            o.window_size = Some(lg as i32);
            let g = cmds::G { maxdist: (1 << lg) - 1, maxout: r.logu(1, max), maxcmds: 200, modes: true, empty: r.chance(1, 4) };
            let (a, w) = cmds::gen(r, &g);
            cs = a;
            data = w;
        }
        let (is, os) = (Sched::random(r, data.len()), Sched::random(r, data.len()));
        let desc = format!("{:?}, {} bytes {}, in {:?} out {:?}, {:?}", how, data.len(), fam, is, os, o);
        (Job { how, data: Arc::new(data), cs: Arc::new(cs), o, is, os, r: r.clone() }, desc)
    }
    fn go<C: Compressor>(&self, c: &mut C) -> Result<Vec<u8>, String> {
        let mut r = self.r.clone();
        let mut st = Stats::default();
        if let How::Commands(_) = self.how {
            let dc = cmds::to_divans(&self.cs);
            encode_cmds(c, &dc, &self.is, &self.os, &mut r, &mut st, self.data.len() * 2 + self.cs.len() * 40 + MB)
        } else {
            encode_all(c, &self.data, &self.is, &self.os, &mut r, &mut st)
        }
    }
    /// with freshly initialised memory
    pub fn run(&self) -> Result<Vec<u8>, String> {
        match self.how {
            How::Hybrid | How::Commands(true) => {
                let mut e = hybrid(self.o);
                let x = self.go(&mut e);
                e.free();
                x
            }
            How::Internal | How::Commands(false) => {
                let mut e = internal(self.o);
                let x = self.go(&mut e);
                e.free();
                x
            }
            How::C(i) => {
                let mut e = CEnc::new();
                for (s, v) in selectors(&self.o, i) {
                    e.set(s, v);
                }
                self.go(&mut e)
            }
        }
    }
    /// with memory that holds junk or the leavings of other coders
    fn run_dirty(&self, m: &Mem, fill: u8) -> Result<Vec<u8>, String> {
        match self.how {
            How::Hybrid | How::Commands(true) => {
                let mut e = DHyb::new(m.a8.clone(), m.a32.clone(), m.acdf.clone(), self.o, comb());
                let x = self.go(&mut e);
                e.free();
                x
            }
            How::Internal | How::Commands(false) => {
                let mut e = DInt::new(m.a8.clone(), m.a32.clone(), m.acdf.clone(), self.o, ());
                let x = self.go(&mut e);
                e.free();
                x
            }
            How::C(i) => {
                let f = Box::new(fill);
                let mut e = CEnc(unsafe { divans_new_compressor_with_custom_alloc(CAlloc { alloc: Some(junk_alloc), free: Some(junk_free), opaque: &*f as *const u8 as *mut c_void }) });
                for (s, v) in selectors(&self.o, i) {
                    e.set(s, v);
                }
                let x = self.go(&mut e);
                drop(e);
                x
            }
        }
    }
}
fn diff(a: &Result<Vec<u8>, String>, b: &Result<Vec<u8>, String>) -> Option<String> {
    match (a, b) {
        (Ok(x), Ok(y)) if x == y => None,
        (Err(x), Err(y)) if x == y => None,
        (Ok(x), Ok(y)) => Some(first_diff(x, y)),
        (x, y) => Some(format!("{:?} against {:?}", x.as_ref().map(|v| v.len()), y.as_ref().map(|v| v.len()))),
    }
}
fn dec_dirty(s: &[u8], mt: bool, m: &Mem, is: &Sched, os: &Sched, r: &mut Rng, cap: usize) -> Decoded {
    let mut st = Stats::default();
    let mut d = DDec::new(m.a8.clone(), m.acdf.clone(), m.acmd.clone(), false, mt);
    let x = decode_with(|i, io, o, oo| d.decode(i, io, o, oo), s, is, os, r, &mut st, cap);
    d.free();
    x
}
fn ddiff(a: &Decoded, b: &Decoded) -> Option<String> {
    if a.out != b.out {
        return Some(format!("{} ({:?} / {:?})", first_diff(&a.out, &b.out), a.end, b.end));
    }
    let k = |e: &End| match e {
        End::Failed(_) => "failed".to_string(),
        e => format!("{:?}", e),
    };
    if k(&a.end) != k(&b.end) {
        return Some(format!("{:?} against {:?}", a.end, b.end));
    }
    None
}

fn case(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let max = if r.chance(1, 6) { 60_000 } else { 6000 };
    let (job, desc) = Job::random(r, max);
    let a = job.run();
    c.eval(1);
    if let Ok(a) = &a {
        c.distinct(mix(fnv(a)));
    }
    c.seen(format!("work:{:?}", job.how));
    if c.idx < 6 {
        c.sample = Some(format!("{} -> {:?} bytes", desc, a.as_ref().map(|v| v.len())));
    }
    let v = |what: &str, d: String| Err(viol(format!("same work, different compressed bytes: {}", what), format!("{} [{}]", d, desc)));
    // other work in between
    let (other, _) = Job::random(r, 3000);
    let _ = other.run();
    if let Some(d) = diff(&a, &job.run()) {
        return v("repeated after other work", d);
    }
    c.eval(1);
    // dirty memory
    let m = Mem::new();
    for k in 0..2 {
        if let Some(d) = diff(&a, &job.run_dirty(&m, r.u64() as u8)) {
            return v(if k == 0 { "shared allocator, or junk from the C allocator" } else { "memory of other coders" }, d);
        }
        c.eval(1);
        let _ = other.run_dirty(&m, 0x55);
    }
    // several threads at once
    if r.chance(1, 4) {
        c.seen("threads");
        let hs: Vec<_> = (0..4)
            .map(|k| {
                let j = if k == 3 { other.clone() } else { job.clone() };
                std::thread::spawn(move || j.run())
            })
            .collect();
        for (k, h) in hs.into_iter().enumerate() {
            let x = match h.join() {
                Ok(x) => x,
                Err(_) => return v("thread", "panicked".into()),
            };
            if k < 3 {
                c.eval(1);
                if let Some(d) = diff(&a, &x) {
                    return v("on several threads", d);
                }
            }
        }
    }
    // another process
    if c.idx % 64 == 0 {
        c.seen("other process");
        c.eval(1);
        let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["job", &c.seed.to_string(), &c.idx.to_string()]).env("SOME_VARIABLE", "x".repeat(r.us(3000))).output();
        if let Ok(o) = out {
            let s = String::from_utf8_lossy(&o.stdout).trim().to_string();
            let want = match &a {
                Ok(a) => format!("{:x} {}", fnv(a), a.len()),
                Err(_) => "error".into(),
            };
            if o.status.success() && s != want {
                return v("in another process", format!("{} against {}", s, want));
            }
        }
    }
    // decoding: valid and damaged streams
    let mut s = match a {
        Ok(a) => a,
        Err(_) => valid(r, 2000).1,
    };
    let damaged = r.bool();
    if damaged {
        mutate(r, &mut s);
    }
    c.seen(if damaged { "decode:damaged" } else { "decode:valid" });
    let (is, os) = (Sched::random(r, s.len()), Sched::random(r, job.data.len()));
    let cap = job.data.len() * 2 + 300_000;
    let base = r.clone();
    let mut st = Stats::default();
    let x = decode_all(&s, false, false, &is, &os, &mut base.clone(), &mut st, cap);
    c.seen(format!("decode:{}", x.kind()));
    let y = decode_all(&s, false, false, &is, &os, &mut base.clone(), &mut st, cap);
    let w = |what: &str, d: String| Err(viol(format!("same stream, different decoded result: {}", what), format!("{} [{} stream bytes, damaged={}, in {:?} out {:?}; {}]", d, s.len(), damaged, is, os, desc)));
    if let Some(d) = ddiff(&x, &y) {
        return w("repeated", d);
    }
    if x.end == End::OutLimit {
        return Ok(());
    }
    let m2 = Mem::new();
    let m = if r.bool() { &m } else { &m2 };
    let mt = r.chance(1, 4) && !damaged;
    let z = dec_dirty(&s, mt, m, &is, &os, &mut base.clone(), cap);
    c.eval(2);
    if let Some(d) = ddiff(&x, &z) {
        return w(if mt { "shared allocator, threaded" } else { "shared allocator" }, d);
    }
    Ok(())
}
/// `vh job SEED IDX`: the work of a case, in this process
pub fn job(seed: u64, idx: u64) -> String {
    let c = Case::new("C18", seed, idx, false);
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let max = if r.chance(1, 6) { 60_000 } else { 6000 };
    let (job, _) = Job::random(r, max);
    match job.run() {
        Ok(a) => format!("{:x} {}", fnv(&a), a.len()),
        Err(_) => "error".into(),
    }
}
pub fn plan() -> Plan {
    Plan {
        prop: "C18",
        quick: 1000,
        thorough: 60_000,
        rule: "one evaluation = one repetition of a piece of work (compression through one of six public ways, or decoding of a valid or damaged stream) after other work, in recycled or junk-filled memory, on several threads or in another process, compared byte for byte with the first; distinct = distinct compressed streams",
        assumptions: &["repetitions make the same calls with the same buffer sizes"],
        memcap: 6000 * MB,
        workers: 8,
        budget: 90,
        case,
    }
}
