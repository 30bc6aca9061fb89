//! C08: allocator ledger. Every block handed out by the caller's allocators is returned once, whole.
use super::c05::{mutate, valid};
use super::MB;
use crate::cmds;
use crate::drive::{Sched, *};
use crate::ffi::*;
use crate::gen;
use crate::mem;
use crate::opts;
use crate::pool::*;
use crate::rng::{fnv, mix, Rng};
use alloc_no_stdlib::{Allocator, SliceWrapper, SliceWrapperMut};
use brotli::enc;
use divans::{Compressor, Decompressor, DefaultCDF16, DivansCompressorFactory, DivansCompressorOptions, DivansDecompressorFactory, DivansOutputResult, DivansResult, Nop, StaticCommand};
use std::collections::HashMap;
use std::os::raw::c_void;
use std::sync::{Arc, Mutex};

#[derive(Default)]
pub struct Book {
    next: u64,
    out: HashMap<u64, (&'static str, usize)>,
    bad: Vec<String>,
    pub allocs: u64,
    pub frees: u64,
}
pub type Ledger = Arc<Mutex<Book>>;
impl Book {
    fn verdict(&self) -> Option<(String, String)> {
        if let Some(b) = self.bad.first() {
            let sig = b.split(" [").next().unwrap().to_string();
            return Some((sig, format!("{} ({} in all)", b, self.bad.len())));
        }
        if !self.out.is_empty() {
            let mut v: Vec<_> = self.out.values().collect();
            v.sort();
            return Some(("block never returned".into(), format!("{} of {} blocks still out: {:?}", v.len(), self.allocs, &v[..v.len().min(8)])));
        }
        None
    }
}
/// a block that knows which ledger it is entered in
pub struct Block<T> {
    v: Box<[T]>,
    id: u64,
    led: Option<Ledger>,
}
impl<T> Default for Block<T> {
    fn default() -> Self {
        Block { v: Vec::new().into_boxed_slice(), id: 0, led: None }
    }
}
impl<T> SliceWrapper<T> for Block<T> {
    fn slice(&self) -> &[T] {
        &self.v
    }
}
impl<T> SliceWrapperMut<T> for Block<T> {
    fn slice_mut(&mut self) -> &mut [T] {
        &mut self.v
    }
}
impl<T> std::ops::Index<usize> for Block<T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.v[i]
    }
}
impl<T> std::ops::IndexMut<usize> for Block<T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        &mut self.v[i]
    }
}
impl<T> Drop for Block<T> {
    fn drop(&mut self) {
        if let Some(l) = self.led.take() {
            let mut l = l.lock().unwrap();
            if let Some((k, n)) = l.out.remove(&self.id) {
                l.bad.push(format!("block dropped instead of returned [{} of {} elements]", k, n));
            }
        }
    }
}
pub struct Rec<T> {
    led: Ledger,
    default: T,
    kind: &'static str,
}
impl<T: Clone> Clone for Rec<T> {
    fn clone(&self) -> Self {
        Rec { led: self.led.clone(), default: self.default.clone(), kind: self.kind }
    }
}
impl<T: Clone> Rec<T> {
    pub fn new(led: &Ledger, default: T, kind: &'static str) -> Self {
        Rec { led: led.clone(), default, kind }
    }
}
impl<T: Clone> Allocator<T> for Rec<T> {
    type AllocatedMemory = Block<T>;
    fn alloc_cell(&mut self, n: usize) -> Block<T> {
        if n == 0 {
            return Block::default(); // an empty block needs no return
        }
        let mut l = self.led.lock().unwrap();
        l.next += 1;
        l.allocs += 1;
        let id = l.next;
        l.out.insert(id, (self.kind, n));
        Block { v: vec![self.default.clone(); n].into_boxed_slice(), id, led: Some(self.led.clone()) }
    }
    fn free_cell(&mut self, mut b: Block<T>) {
        let led = match b.led.take() {
            None => return, // default block
            Some(l) => l,
        };
        let mut l = self.led.lock().unwrap();
        if !Arc::ptr_eq(&led, &self.led) {
            l.bad.push(format!("block returned to another coder's allocator [{}]", self.kind));
            return;
        }
        l.frees += 1;
        match l.out.remove(&b.id) {
            Some((k, n)) => {
                if n != b.v.len() || k != self.kind {
                    let e = format!("block returned changed [{} {} as {} {}]", k, n, self.kind, b.v.len());
                    l.bad.push(e);
                }
            }
            None => l.bad.push(format!("block returned twice [{}]", self.kind)),
        }
    }
}
type RComb = enc::CombiningAllocator<
    Rec<u8>,
    Rec<u16>,
    Rec<i32>,
    Rec<u32>,
    Rec<u64>,
    Rec<enc::command::Command>,
    Rec<enc::util::floatX>,
    Rec<enc::v8>,
    Rec<enc::s16>,
    Rec<enc::PDF>,
    Rec<enc::StaticCommand>,
    Rec<enc::histogram::HistogramLiteral>,
    Rec<enc::histogram::HistogramCommand>,
    Rec<enc::histogram::HistogramDistance>,
    Rec<enc::cluster::HistogramPair>,
    Rec<enc::histogram::ContextType>,
    Rec<enc::entropy_encode::HuffmanTree>,
    Rec<enc::ZopfliNode>,
>;
fn rcomb(l: &Ledger) -> RComb {
    enc::CombiningAllocator::new(
        Rec::new(l, 0, "brotli u8"),
        Rec::new(l, 0, "brotli u16"),
        Rec::new(l, 0, "brotli i32"),
        Rec::new(l, 0, "brotli u32"),
        Rec::new(l, 0, "brotli u64"),
        Rec::new(l, Default::default(), "brotli command"),
        Rec::new(l, 0.0, "brotli float"),
        Rec::new(l, Default::default(), "brotli v8"),
        Rec::new(l, Default::default(), "brotli s16"),
        Rec::new(l, Default::default(), "brotli pdf"),
        Rec::new(l, Default::default(), "brotli static command"),
        Rec::new(l, Default::default(), "brotli histogram literal"),
        Rec::new(l, Default::default(), "brotli histogram command"),
        Rec::new(l, Default::default(), "brotli histogram distance"),
        Rec::new(l, Default::default(), "brotli histogram pair"),
        Rec::new(l, Default::default(), "brotli context type"),
        Rec::new(l, Default::default(), "brotli tree"),
        Rec::new(l, Default::default(), "brotli zopfli"),
    )
}
type RHyb = divans::BrotliDivansHybridCompressorFactory<Rec<u8>, Rec<DefaultCDF16>, RComb>;
type RInt = divans::DivansCompressorFactoryStruct<Rec<u8>, Rec<DefaultCDF16>>;
type RDec = divans::DivansDecompressorFactoryStruct<Rec<u8>, Rec<DefaultCDF16>, Rec<StaticCommand>>;
fn r8(l: &Ledger) -> Rec<u8> {
    Rec::new(l, 0, "u8")
}
fn r32(l: &Ledger) -> Rec<u32> {
    Rec::new(l, 0, "u32")
}
fn rcdf(l: &Ledger) -> Rec<DefaultCDF16> {
    Rec::new(l, Default::default(), "cdf")
}
fn rcmd(l: &Ledger) -> Rec<StaticCommand> {
    Rec::new(l, StaticCommand::nop(), "command")
}

/// the C side: blocks carry a red zone on either side and stay in quarantine after their return
const RED: usize = 64;
#[derive(Default)]
pub struct CBook {
    out: HashMap<usize, usize>,
    freed: HashMap<usize, usize>,
    bad: Vec<String>,
    allocs: u64,
    fill: u8,
    owner: Option<std::thread::ThreadId>,
    foreign: u64,
}
pub struct CLedger(Mutex<CBook>);
impl CLedger {
    pub fn new(fill: u8) -> Box<CLedger> {
        Box::new(CLedger(Mutex::new(CBook { fill, owner: Some(std::thread::current().id()), ..Default::default() })))
    }
    /// calls made by a thread that does not own the ledger
    pub fn foreign(&self) -> u64 {
        self.0.lock().unwrap().foreign
    }
    pub fn calloc(&self) -> CAlloc {
        CAlloc { alloc: Some(c_alloc), free: Some(c_free), opaque: self as *const CLedger as *mut c_void }
    }
    pub fn verdict(&self) -> Option<(String, String)> {
        let b = self.0.lock().unwrap();
        if let Some(x) = b.bad.first() {
            return Some((x.split(" [").next().unwrap().to_string(), format!("{} ({} in all)", x, b.bad.len())));
        }
        if !b.out.is_empty() {
            let mut v: Vec<_> = b.out.values().collect();
            v.sort();
            return Some(("block never returned".into(), format!("{} of {} blocks still out, sizes {:?}", v.len(), b.allocs, &v[..v.len().min(8)])));
        }
        for (p, n) in &b.freed {
            let s = unsafe { std::slice::from_raw_parts((*p - RED) as *const u8, n + 2 * RED) };
            if let Some(i) = s.iter().position(|x| *x != 0xdd) {
                return Some(("block written after its return".into(), format!("block of {} bytes, offset {}", n, i as i64 - RED as i64)));
            }
        }
        None
    }
}
impl Drop for CLedger {
    fn drop(&mut self) {
        let b = self.0.lock().unwrap();
        for (p, n) in b.freed.iter().chain(b.out.iter()) {
            unsafe { std::alloc::dealloc((*p - RED) as *mut u8, std::alloc::Layout::from_size_align_unchecked(n + 2 * RED, 64)) }
        }
    }
}
extern "C" fn c_alloc(o: *mut c_void, n: usize) -> *mut c_void {
    let l = unsafe { &*(o as *const CLedger) };
    let mut b = l.0.lock().unwrap();
    b.allocs += 1;
    if b.owner != Some(std::thread::current().id()) {
        b.foreign += 1;
    }
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n + 2 * RED, 64));
        std::ptr::write_bytes(p, 0xdb, n + 2 * RED);
        std::ptr::write_bytes(p.add(RED), b.fill, n);
        let p = p.add(RED);
        b.out.insert(p as usize, n);
        p as *mut c_void
    }
}
extern "C" fn c_free(o: *mut c_void, p: *mut c_void) {
    let l = unsafe { &*(o as *const CLedger) };
    let mut b = l.0.lock().unwrap();
    if b.owner != Some(std::thread::current().id()) {
        b.foreign += 1;
    }
    match b.out.remove(&(p as usize)) {
        Some(n) => {
            let s = unsafe { std::slice::from_raw_parts_mut((p as usize - RED) as *mut u8, n + 2 * RED) };
            if s[..RED].iter().chain(s[RED + n..].iter()).any(|x| *x != 0xdb) {
                b.bad.push(format!("memory around a block was written [{} bytes]", n));
            }
            s.fill(0xdd);
            b.freed.insert(p as usize, n);
        }
        None => {
            let e = if b.freed.contains_key(&(p as usize)) { "block returned twice" } else { "address returned that was never handed out" };
            b.bad.push(format!("{} [{:?}]", e, p));
        }
    }
}

/// how a use of a coder ends
#[derive(Clone, Copy, Debug, PartialEq)]
enum Stop {
    /// after this many calls
    Calls(usize),
    Finish,
}
fn run_enc<C: Compressor>(e: &mut C, d: &[u8], cs: Option<&[cmds::Cmd]>, is: &Sched, os: &Sched, stop: Stop, r: &mut Rng) -> (&'static str, Vec<u8>) {
    let mut out = vec![];
    let mut calls = 0;
    let left = |calls: usize| match stop {
        Stop::Calls(n) => calls >= n,
        Stop::Finish => false,
    };
    let mut k = 0;
    if let Some(cs) = cs {
        let dc = cmds::to_divans(cs);
        let mut io = 0;
        while io < dc.len() {
            if left(calls) {
                return ("released while encoding", out);
            }
            calls += 1;
            let mut b = vec![0u8; os.next(r, calls).clamp(0, 100_000)];
            let mut oo = 0;
            match e.encode_commands(&dc[..], &mut io, &mut b, &mut oo) {
                DivansOutputResult::Failure(_) => return ("failed", out),
                _ => {}
            }
            out.extend_from_slice(&b[..oo]);
            if calls > 5_000_000 {
                return ("stuck", out);
            }
        }
    } else {
        let mut pos = 0;
        while pos < d.len() {
            if left(calls) {
                return ("released while encoding", out);
            }
            calls += 1;
            k += 1;
            let n = is.next(r, k).min(d.len() - pos);
            let mut b = vec![0u8; os.next(r, calls).clamp(0, 100_000)];
            let (mut io, mut oo) = (0, 0);
            match e.encode(&d[pos..pos + n], &mut io, &mut b, &mut oo) {
                DivansResult::Failure(_) => return ("failed", out),
                _ => {}
            }
            pos += io;
            out.extend_from_slice(&b[..oo]);
            if calls > 5_000_000 {
                return ("stuck", out);
            }
        }
    }
    loop {
        if left(calls) {
            return ("released while flushing", out);
        }
        calls += 1;
        let mut b = vec![0u8; os.next(r, calls).clamp(0, 100_000)];
        let mut oo = 0;
        let x = e.flush(&mut b, &mut oo);
        out.extend_from_slice(&b[..oo]);
        match x {
            DivansOutputResult::Success => return ("finished", out),
            DivansOutputResult::Failure(_) => return ("failed", out),
            _ => {}
        }
        if calls > 5_000_000 {
            return ("stuck", out);
        }
    }
}
fn run_dec(mut f: impl FnMut(&[u8], &mut usize, &mut [u8], &mut usize) -> DivansResult, s: &[u8], is: &Sched, os: &Sched, stop: Stop, r: &mut Rng, cap: usize) -> (&'static str, Vec<u8>) {
    let (mut pos, mut avail, mut k, mut calls, mut idle) = (0, 0, 0, 0, 0);
    let mut out = vec![];
    loop {
        if let Stop::Calls(n) = stop {
            if calls >= n {
                return ("released while decoding", out);
            }
        }
        calls += 1;
        if avail == pos {
            k += 1;
            avail = (pos + is.next(r, k).min(s.len())).min(s.len());
        }
        let mut b = vec![0u8; os.next(r, calls).clamp(0, 100_000)];
        let (mut io, mut oo) = (0, 0);
        let x = f(&s[pos..avail], &mut io, &mut b, &mut oo);
        pos += io;
        out.extend_from_slice(&b[..oo]);
        idle = if io + oo == 0 { idle + 1 } else { 0 };
        match x {
            DivansResult::Success => return ("finished", out),
            DivansResult::Failure(_) => return ("failed", out),
            DivansResult::NeedsMoreInput if pos == s.len() && idle > 1 => return ("released at the end of a cut stream", out),
            _ => {}
        }
        if out.len() > cap || idle > 100_000 {
            return ("released at the limit", out);
        }
    }
}
fn stop(r: &mut Rng) -> Stop {
    if r.bool() {
        Stop::Finish
    } else {
        Stop::Calls(r.logu(0, 400).saturating_sub(r.us(2)))
    }
}
/// uses with the built-in allocators: the process heap must come back to where it was
fn heap(c: &mut Case, r: &mut Rng) -> Result<(), Viol> {
    let max = if r.chance(1, 5) { 60_000 } else { 4000 };
    let (d, fam) = gen::data(r, max);
    let mut s = valid(r, max).1;
    let dam = r.us(3);
    match dam {
        0 => {}
        1 => {
            mutate(r, &mut s);
        }
        _ => {
            let n = r.us(s.len() + 1);
            s.truncate(n);
        }
    }
    let mut o = opts::random(r, d.len() < 6000).o;
    o.stride_detection_quality = None;
    let (mt, skip, st) = (r.bool(), r.chance(1, 3), stop(r));
    let what = r.us(8);
    let n = if what < 3 { d.len() } else { s.len() };
    let (is, os) = (Sched::random(r, n), Sched::random(r, n));
    let buf = r.logu(1, 70_000);
    let how = ["C compressor", "compressing reader", "compressing writer", "C decompressor", "decompressing reader", "decompressing writer", "decompressor dropped", "compressor dropped"][what];
    let desc = format!("{} of {} bytes {}, stream {} ({}), threads {}, skip_crc {}, buffer {}, in {:?} out {:?}, {:?}, {:?}", how, d.len(), fam, s.len(), ["valid", "damaged", "cut"][dam], mt, skip, buf, is, os, st, o);
    let cap = s.len() * 100 + 100_000;
    let base = mem::live();
    let end = {
        let steps = match st {
            Stop::Calls(n) => n,
            Stop::Finish => 3_000_000,
        };
        let rd = |x: &mut dyn std::io::Read, r: &mut Rng| {
            for k in 0..steps {
                let mut b = vec![0u8; os.next(r, k).clamp(1, 100_000)];
                match x.read(&mut b) {
                    Ok(0) => return "finished",
                    Ok(_) => {}
                    Err(_) => return "failed",
                }
            }
            "released early"
        };
        let wr = |x: &mut dyn std::io::Write, d: &[u8], r: &mut Rng| {
            let mut pos = 0;
            for k in 0..steps {
                if pos == d.len() {
                    return match x.flush() {
                        Ok(_) => "finished",
                        Err(_) => "failed",
                    };
                }
                let n = is.next(r, k).clamp(1, d.len() - pos);
                match x.write(&d[pos..pos + n]) {
                    Ok(m) => pos += m,
                    Err(_) => return "failed",
                }
            }
            "released early"
        };
        let sink = Limit(cap);
        match what {
            0 => {
                let mut e = CEnc::new();
                for (s, v) in selectors(&o, r.bool()) {
                    e.set(s, v);
                }
                run_enc(&mut e, &d, None, &is, &os, st, r).0
            }
            1 if mt => rd(&mut divans::DivansBrotliHybridCompressorReader::new(&d[..], o, buf), r),
            1 => rd(&mut divans::DivansExperimentalCompressorReader::new(&d[..], o, buf), r),
            2 if mt => wr(&mut divans::DivansBrotliHybridCompressorWriter::new(sink, o, buf), &d, r),
            2 => wr(&mut divans::DivansExperimentalCompressorWriter::new(sink, o, buf), &d, r),
            3 => {
                let mut q = CDec(unsafe { divans_new_decompressor_with_custom_alloc(CAlloc::none(), skip as u8, mt as u8) });
                run_dec(|i, io, o, oo| q.decode(i, io, o, oo), &s, &is, &os, st, r, cap).0
            }
            4 => rd(&mut divans::DivansDecompressorReader::new(&s[..], buf, skip, mt), r),
            5 => wr(&mut divans::DivansDecompressorWriter::new(sink, buf, skip, mt), &s, r),
            6 => {
                let mut q = decoder(skip, mt);
                run_dec(|i, io, o, oo| q.decode(i, io, o, oo), &s, &is, &os, st, r, cap).0
            }
            _ => {
                let mut e = internal(o);
                run_enc(&mut e, &d, None, &is, &os, st, r).0
            }
        }
    };
    let mut now = mem::live();
    let t = std::time::Instant::now();
    while now > base && mt && t.elapsed().as_secs() < 5 {
        std::thread::sleep(std::time::Duration::from_millis(1)); // the decoding thread ends by itself
        now = mem::live();
    }
    c.eval(1);
    c.distinct(mix(fnv(desc.as_bytes())));
    c.seen(format!("{}: {}{}", how, end, if mt && what >= 3 { ", threads" } else { "" }));
    if now > base {
        return Err(viol(format!("{}: heap memory not released ({})", how, end), format!("{} bytes stay allocated [{}]", now - base, desc)));
    }
    Ok(())
}
/// a writer that takes so much and no more
struct Limit(usize);
impl std::io::Write for Limit {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.len() > self.0 {
            return Err(std::io::ErrorKind::Other.into());
        }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
static WARM: std::sync::Once = std::sync::Once::new();
fn case(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    if r.chance(1, 3) {
        WARM.call_once(|| {
            // what the runtime allocates once
            for i in 0..6 {
                let mut q = c.rng.clone();
                let _ = heap(&mut Case::new("C08", 0, i, false), &mut q);
            }
        });
        return heap(c, r);
    }
    let led: Ledger = Default::default();
    let what = r.us(12);
    let st = stop(r);
    let by_ref = r.chance(1, 3);
    let (how, end, desc, sum);
    let mut cbook: Option<Box<CLedger>> = None;
    if what < 6 {
        let max = if r.chance(1, 5) { 100_000 } else { 6000 };
        let (mut d, mut fam) = gen::data(r, max);
        let grow = r.chance(1, 25);
        if grow {
            // so much that every internal buffer has to be replaced by a larger one
            d = bulky(r);
            fam = "bulky";
        }
        let mut o: DivansCompressorOptions = opts::random(r, d.len() < 6000).o;
        o.stride_detection_quality = None;
        let mut cs = None;
        if what == 4 || what == 5 {
            let lg = r.range(10, 20);
            o.window_size = Some(lg as i32);
            let g = cmds::G { maxdist: (1 << lg) - 1, maxout: r.logu(1, 20_000), maxcmds: 200, modes: true, empty: r.chance(1, 4) };
            let (a, w) = cmds::gen(r, &g);
            cs = Some(a);
            d = w;
        }
        let (mut is, mut os) = (Sched::random(r, d.len()), Sched::random(r, d.len()));
        if grow {
            is = Sched::Fixed(*r.pick(&[4096, 65_536, 1 << 20]));
            os = Sched::Fixed(*r.pick(&[512, 4096, 65_536]));
        }
        desc = format!("{} bytes {}, in {:?} out {:?}, {:?}, {:?}", d.len(), fam, is, os, st, o);
        let cref = cs.as_ref().map(|x| &x[..]);
        let x = match what {
            0 | 1 | 4 => {
                how = "hybrid";
                let mut e = RHyb::new(r8(&led), r32(&led), rcdf(&led), o, rcomb(&led));
                let x = run_enc(&mut e, &d, cref, &is, &os, st, r);
                if by_ref {
                    e.free_ref()
                } else {
                    e.free();
                }
                x
            }
            2 | 5 => {
                how = "internal";
                let mut e = RInt::new(r8(&led), r32(&led), rcdf(&led), o, ());
                let x = run_enc(&mut e, &d, cref, &is, &os, st, r);
                if by_ref {
                    e.free_ref()
                } else {
                    e.free();
                }
                x
            }
            _ => {
                how = "C compressor";
                let cb = CLedger::new(r.byte());
                let mut e = CEnc(unsafe { divans_new_compressor_with_custom_alloc(cb.calloc()) });
                for (s, v) in selectors(&o, r.bool()) {
                    e.set(s, v);
                }
                let x = run_enc(&mut e, &d, None, &is, &os, st, r);
                extra_c(r, |n| unsafe { divans_compressor_malloc_u8(e.0, n) }, |p, n| unsafe { divans_compressor_free_u8(e.0, p, n) });
                extra_c(r, |n| unsafe { divans_compressor_malloc_usize(e.0, n) }, |p, n| unsafe { divans_compressor_free_usize(e.0, p, n) });
                drop(e);
                cbook = Some(cb);
                x
            }
        };
        end = x.0;
        sum = fnv(&x.1);
    } else {
        let max = if r.chance(1, 5) { 60_000 } else { 4000 };
        let mut s = valid(r, max).1;
        let grow = r.chance(1, 25);
        if grow {
            let mut o: DivansCompressorOptions = opts::random(r, false).o;
            o.stride_detection_quality = None;
            let mut e = internal(o);
            s = run_enc(&mut e, &bulky(r), None, &Sched::Fixed(1 << 20), &Sched::Fixed(65_536), Stop::Finish, r).1;
        }
        let dam = r.us(3);
        match dam {
            0 => {}
            1 => {
                mutate(r, &mut s);
            }
            _ => {
                let n = r.us(s.len() + 1);
                s.truncate(n);
            }
        }
        let mt = r.chance(1, 3);
        let skip = r.chance(1, 3);
        let (mut is, mut os) = (Sched::random(r, s.len()), Sched::random(r, s.len() * 3));
        if grow {
            is = Sched::Fixed(*r.pick(&[4096, 65_536, 1 << 20]));
            os = Sched::Fixed(*r.pick(&[512, 4096, 65_536]));
        }
        desc = format!("{} stream bytes ({}), threads {}, skip_crc {}, in {:?} out {:?}, {:?}", s.len(), ["valid", "damaged", "cut"][dam], mt, skip, is, os, st);
        let cap = s.len() * 100 + 100_000;
        let x = if what < 10 {
            how = if mt { "decompressor, threads" } else { "decompressor" };
            let mut dd = RDec::new(r8(&led), rcdf(&led), rcmd(&led), skip, mt);
            let x = run_dec(|i, io, o, oo| dd.decode(i, io, o, oo), &s, &is, &os, st, r, cap);
            if by_ref {
                dd.free_ref()
            } else {
                dd.free();
            }
            x
        } else {
            how = if mt { "C decompressor, threads" } else { "C decompressor" };
            let cb = CLedger::new(r.byte());
            let mut dd = CDec(unsafe { divans_new_decompressor_with_custom_alloc(cb.calloc(), skip as u8, mt as u8) });
            let x = run_dec(|i, io, o, oo| dd.decode(i, io, o, oo), &s, &is, &os, st, r, cap);
            extra_c(r, |n| unsafe { divans_decompressor_malloc_u8(dd.0, n) }, |p, n| unsafe { divans_decompressor_free_u8(dd.0, p, n) });
            extra_c(r, |n| unsafe { divans_decompressor_malloc_usize(dd.0, n) }, |p, n| unsafe { divans_decompressor_free_usize(dd.0, p, n) });
            drop(dd);
            cbook = Some(cb);
            x
        };
        end = x.0;
        sum = fnv(&x.1);
    }
    c.eval(1);
    c.distinct(mix(sum ^ fnv(desc.as_bytes())));
    c.seen(format!("{}: {}{}", how, end, if cbook.is_none() && by_ref { ", by reference" } else { "" }));
    let (v, n) = match &cbook {
        Some(cb) => (cb.verdict(), cb.0.lock().unwrap().allocs),
        None => {
            // a worker thread may hold its allocators for a moment longer
            let l = led.lock().unwrap();
            (l.verdict(), l.allocs)
        }
    };
    c.add("blocks handed out and accounted for", n);
    if c.idx < 5 {
        c.sample = Some(format!("{} {}: {} blocks [{}]", how, end, n, desc));
    }
    if let Some((sig, d)) = v {
        return Err(viol(format!("{}: {} ({})", how, sig, end), format!("{} [{} {}{}; {}]", d, how, end, if by_ref { " by ref" } else { "" }, desc)));
    }
    Ok(())
}
/// data that hardly compresses, of 70 to 400 KB
fn bulky(r: &mut Rng) -> Vec<u8> {
    let n = r.range(70_000, 400_000) as usize;
    let m = *r.pick(&[255u8, 255, 127, 63]);
    let mut d: Vec<u8> = (0..n).map(|_| r.byte() & m).collect();
    if r.bool() {
        let k = n / 3;
        d.copy_within(0..k, n - k);
    }
    d
}
fn extra_c<T>(r: &mut Rng, a: impl Fn(usize) -> *mut T, f: impl Fn(*mut T, usize)) {
    let n = r.us(3);
    let v: Vec<(*mut T, usize)> = (0..n)
        .map(|_| {
            let n = r.logu(1, 3000);
            (a(n), n)
        })
        .collect();
    for (p, n) in v {
        unsafe { std::ptr::write_bytes(p as *mut u8, 0x5a, n * std::mem::size_of::<T>()) };
        f(p, n)
    }
}
pub fn plan() -> Plan {
    let _ = mem::live;
    Plan {
        prop: "C08",
        quick: 3000,
        thorough: 60_000,
        rule: "one evaluation = one use of a compressor or decompressor (Rust or C interface) with recording allocators, released at its end, after an error or after a random number of calls; the ledger must balance (every third use has the built-in allocators, and the process heap must return to its size); distinct = distinct uses",
        assumptions: &["empty blocks need not be returned", "a compressor or decompressor is released by its own free function"],
        memcap: 6000 * MB,
        workers: 8,
        budget: 90,
        case,
    }
}
