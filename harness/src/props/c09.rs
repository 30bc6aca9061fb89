//! C09: the C interface, called through c/divans/ffi.h, with buffers between unmapped pages.
use super::c05::{hostile, mutate, valid};
use super::c08::CLedger;
use super::MB;
use crate::drive::*;
use crate::ffi::*;
use crate::gen;
use crate::opts;
use crate::pool::*;
use crate::rng::{fnv, mix, Rng};
use divans::interface::{ErrMsg, StrideSelection};
use divans::{BrotliCompressionSetting, Compressor, DivansCompressorOptions, DivansOutputResult, DivansResult, LiteralPredictionModeNibble, Speed};
use std::os::raw::{c_char, c_int, c_void};
use std::sync::OnceLock;

extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    fn munmap(a: *mut c_void, n: usize) -> c_int;
    fn mprotect(a: *mut c_void, n: usize, prot: c_int) -> c_int;
    fn dlopen(f: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
}
#[allow(clippy::type_complexity)]
struct Drv {
    new_c: extern "C" fn(*const CAlloc) -> *mut c_void,
    set: extern "C" fn(*mut c_void, c_int, u32) -> c_int,
    set_raw: extern "C" fn(*mut c_void, u8, u32) -> c_int,
    encode: extern "C" fn(*mut c_void, *const u8, usize, *mut usize, *mut u8, usize, *mut usize) -> c_int,
    flush: extern "C" fn(*mut c_void, *mut u8, usize, *mut usize) -> c_int,
    free_c: extern "C" fn(*mut c_void),
    new_d: extern "C" fn(*const CAlloc, c_int, c_int) -> *mut c_void,
    decode: extern "C" fn(*mut c_void, *const u8, usize, *mut usize, *mut u8, usize, *mut usize) -> c_int,
    free_d: extern "C" fn(*mut c_void),
}
static DRV: OnceLock<Result<Drv, String>> = OnceLock::new();
fn drv() -> Result<&'static Drv, Viol> {
    DRV.get_or_init(|| unsafe {
        let p = match std::env::var("VH_SHIM") {
            Ok(x) => x.into(),
            _ => std::env::current_exe().unwrap().parent().unwrap().parent().unwrap().join("drv.so"),
        };
        let log = std::fs::read_to_string(p.with_extension("log")).unwrap_or_default();
        let f = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
        let h = dlopen(f.as_ptr(), 2);
        if h.is_null() {
            return Err(format!("{:?}: {}", p, log));
        }
        let s = |n: &str| dlsym(h, std::ffi::CString::new(n).unwrap().as_ptr());
        macro_rules! sym {
            ($n:expr) => {
                std::mem::transmute(s($n))
            };
        }
        let t: [*const (); 10] = [
            divans_new_compressor as *const (),
            divans_new_compressor_with_custom_alloc as *const (),
            divans_set_option as *const (),
            divans_encode as *const (),
            divans_encode_flush as *const (),
            divans_free_compressor as *const (),
            divans_new_decompressor as *const (),
            divans_new_decompressor_with_custom_alloc as *const (),
            divans_decode as *const (),
            divans_free_decompressor as *const (),
        ];
        let init: extern "C" fn(*const *const ()) = sym!("drv_init");
        init(t.as_ptr());
        Ok(Drv {
            new_c: sym!("drv_new_c"),
            set: sym!("drv_set"),
            set_raw: sym!("drv_set_raw"),
            encode: sym!("drv_encode"),
            flush: sym!("drv_flush"),
            free_c: sym!("drv_free_c"),
            new_d: sym!("drv_new_d"),
            decode: sym!("drv_decode"),
            free_d: sym!("drv_free_d"),
        })
    })
    .as_ref()
    .map_err(|e| viol("a C program written to c/divans/ffi.h does not compile", e.clone()))
}

const PAGE: usize = 4096;
/// memory that exists only during a call, with an unmapped page at either end
struct Guarded {
    base: usize,
    cap: usize,
    key: (usize, usize),
    at: usize,
    prot: (usize, usize),
}
impl Guarded {
    fn new(cap: usize) -> Self {
        let cap = (cap + PAGE - 1) / PAGE * PAGE;
        let p = unsafe { mmap(std::ptr::null_mut(), cap + 2 * PAGE, 0, 0x22, -1, 0) };
        assert!(p as isize != -1, "mmap");
        Guarded { base: p as usize + PAGE, cap, key: (0, 0), at: 0, prot: (0, 0) }
    }
    fn open(&mut self, n: usize, end: bool) -> *mut u8 {
        assert!(n <= self.cap);
        self.at = if end { self.base + self.cap - n } else { self.base };
        let lo = self.at / PAGE * PAGE;
        let hi = (self.at + n + PAGE - 1) / PAGE * PAGE;
        self.prot = (lo, hi - lo);
        if hi > lo {
            unsafe { assert_eq!(mprotect(lo as *mut c_void, hi - lo, 3), 0) };
        }
        self.at as *mut u8
    }
    fn set(&mut self, prot: c_int) {
        if self.prot.1 > 0 {
            unsafe { assert_eq!(mprotect(self.prot.0 as *mut c_void, self.prot.1, prot), 0) };
        }
    }
    /// `d`, readable only
    fn input(&mut self, d: &[u8], end: bool) -> *const u8 {
        let key = (d.as_ptr() as usize, d.len());
        if key == self.key && !d.is_empty() {
            self.set(1);
            return self.at as *const u8;
        }
        let p = self.open(d.len(), end);
        unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len()) };
        self.set(1);
        self.key = key;
        p
    }
    fn output(&mut self, d: &[u8], end: bool) -> *mut u8 {
        let p = self.open(d.len(), end);
        unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len()) };
        p
    }
    fn take(&mut self, d: &mut [u8]) {
        unsafe { std::ptr::copy_nonoverlapping(self.at as *const u8, d.as_mut_ptr(), d.len()) };
    }
}
impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe { munmap((self.base - PAGE) as *mut c_void, self.cap + 2 * PAGE) };
    }
}
struct Bufs {
    i: Guarded,
    o: Guarded,
    n: Guarded,
    end: bool,
    null: bool,
    calls: u64,
    bad: Option<String>,
}
impl Bufs {
    fn new(icap: usize, end: bool, null: bool) -> Self {
        Bufs { i: Guarded::new(icap), o: Guarded::new((1 << 17) + 64), n: Guarded::new(PAGE), end, null, calls: 0, bad: None }
    }
    fn call(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize, f: impl FnOnce(*const u8, usize, *mut usize, *mut u8, usize, *mut usize) -> c_int) -> c_int {
        self.calls += 1;
        let mut ip = self.i.input(i, self.end);
        let mut op = self.o.output(o, self.end);
        if self.null {
            // an empty buffer of a C program often has no address
            if i.is_empty() {
                ip = std::ptr::null();
            }
            if o.is_empty() {
                op = std::ptr::null_mut();
            }
        }
        let np = self.n.open(2 * std::mem::size_of::<usize>(), true) as *mut usize;
        unsafe {
            *np = *io;
            *np.add(1) = *oo;
        }
        let x = unsafe { f(ip, i.len(), np, op, o.len(), np.add(1)) };
        unsafe {
            *io = *np;
            *oo = *np.add(1);
        }
        self.o.take(o);
        // until the next call there is nothing to touch
        self.i.set(0);
        self.o.set(0);
        self.n.set(0);
        if x > 3 {
            self.bad = Some(format!("unknown result code {}", x - 100));
        }
        x
    }
}
fn result(x: c_int) -> DivansResult {
    match x {
        0 => DivansResult::Success,
        1 => DivansResult::NeedsMoreInput,
        2 => DivansResult::NeedsMoreOutput,
        _ => DivansResult::Failure(ErrMsg::UnexpectedEof),
    }
}
struct GEnc<'a> {
    d: &'a Drv,
    s: *mut c_void,
    b: Bufs,
}
impl<'a> Compressor for GEnc<'a> {
    fn encode(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize) -> DivansResult {
        let (d, s) = (self.d, self.s);
        result(self.b.call(i, io, o, oo, |ip, n, io, op, m, oo| (d.encode)(s, ip, n, io, op, m, oo)))
    }
    fn flush(&mut self, o: &mut [u8], oo: &mut usize) -> DivansOutputResult {
        let (d, s) = (self.d, self.s);
        match self.b.call(&[], &mut 0, o, oo, |_, _, _, op, m, oo| (d.flush)(s, op, m, oo)) {
            0 => DivansOutputResult::Success,
            2 => DivansOutputResult::NeedsMoreOutput,
            x => {
                if x == 1 {
                    self.b.bad = Some("flush asks for input".into());
                }
                DivansOutputResult::Failure(ErrMsg::UnexpectedEof)
            }
        }
    }
    fn encode_commands<S: alloc_no_stdlib::SliceWrapper<u8> + Default>(&mut self, _: &[divans::interface::Command<S>], _: &mut usize, _: &mut [u8], _: &mut usize) -> DivansOutputResult {
        unreachable!()
    }
}
const QUALITY: c_int = 0;
const NAMES: [&str; 20] = [
    "quality", "window", "lgblock", "mixing", "brotli commands", "brotli bitstream", "context map", "cm high", "stride", "stride detection", "depth", "stride high", "cm low", "stride low", "score", "speed detection", "bitmask", "q9.5", "literal mode", "optimizer",
];
/// the option calls a C program makes for `o`, and `o` as they leave it
fn settings(r: &mut Rng, o: &DivansCompressorOptions, internal: bool) -> (Vec<(c_int, u32)>, DivansCompressorOptions) {
    let mut w = DivansCompressorOptions::default();
    let mut v: Vec<(c_int, u32)> = vec![];
    macro_rules! opt {
        ($n:expr, $f:ident) => {
            if let Some(x) = o.$f {
                v.push(($n, x as u32));
                w.$f = o.$f;
            }
        };
    }
    opt!(QUALITY, quality);
    opt!(1, window_size);
    opt!(2, lgblock);
    opt!(3, dynamic_context_mixing);
    opt!(9, stride_detection_quality);
    opt!(10, prior_depth);
    opt!(14, brotli_literal_byte_score);
    opt!(15, speed_detection_quality);
    if let Some(m) = o.force_literal_context_mode {
        v.push((18, m.0 as u32));
        w.force_literal_context_mode = Some(LiteralPredictionModeNibble(m.0));
    }
    if internal {
        v.push((4, 0));
        w.use_brotli = BrotliCompressionSetting::UseInternalCommandSelection;
    } else {
        match r.us(4) {
            0 => {}
            1 => {
                v.push((4, 2));
                w.use_brotli = BrotliCompressionSetting::UseBrotliBitstream;
            }
            2 => {
                v.push((5, 1));
                w.use_brotli = BrotliCompressionSetting::UseBrotliBitstream;
            }
            _ => {
                v.push((4, 1));
                w.use_brotli = BrotliCompressionSetting::UseBrotliCommandSelection;
            }
        }
    }
    if r.chance(3, 4) {
        v.push((6, o.use_context_map as u32));
        w.use_context_map = o.use_context_map;
    }
    if r.chance(1, 3) {
        let x = if r.bool() { r.us(2) as u32 } else { u32::from(o.divans_ir_optimizer) };
        v.push((19, x));
        w.divans_ir_optimizer = x as u8;
    }
    if r.chance(1, 2) {
        v.push((16, o.prior_bitmask_detection as u32));
        w.prior_bitmask_detection = o.prior_bitmask_detection;
    }
    if r.chance(1, 4) && !internal {
        // where it matters: the two highest qualities
        let q = 10 + r.us(2) as u16;
        v.retain(|x| x.0 != QUALITY);
        v.push((QUALITY, u32::from(q)));
        w.quality = Some(q);
        w.q9_5 = r.bool();
        v.push((17, if w.q9_5 { *r.pick(&[1, 2, 254, 255]) } else { 0 }));
    } else if r.chance(1, 3) {
        v.push((17, if o.q9_5 { *r.pick(&[1, 1, 2, 255]) } else { 0 }));
        w.q9_5 = o.q9_5;
    }
    if r.chance(1, 2) {
        let s = r.us(9);
        v.push((8, s as u32));
        w.force_stride_value = opts::STRIDES[s];
        let _: StrideSelection = w.force_stride_value;
    }
    if r.chance(1, 2) {
        // all four, so that what the first of them does to the others does not matter
        let n = Speed::ENCODER_DEFAULT_PALETTE.len();
        let k: Vec<usize> = (0..4).map(|_| r.us(n)).collect();
        v.push((13, k[0] as u32)); // stride low
        v.push((11, k[1] as u32)); // stride high
        v.push((12, k[2] as u32)); // context map low
        v.push((7, k[3] as u32)); // context map high
        let s = |i: usize| Speed::ENCODER_DEFAULT_PALETTE[k[i]];
        w.literal_adaptation = Some([s(0), s(1), s(2), s(3)]);
    }
    for i in (1..v.len()).rev() {
        let j = r.us(i + 1);
        v.swap(i, j);
    }
    // set twice: the later one counts
    if !v.is_empty() && r.chance(1, 3) {
        let j = r.us(v.len());
        let x = match v[j].0 {
            QUALITY => r.us(12),
            1 => r.range(10, 24),
            2 => r.range(16, 24),
            3 => r.us(3),
            4 => 1 + r.us(2),
            6 | 17 => r.us(2),
            8 => r.us(9),
            10 => r.us(16),
            16 => r.us(2),
            _ => v[j].1 as usize,
        };
        let i = r.us(j + 1);
        v.insert(i, (v[j].0, x as u32));
    }
    (v, w)
}
/// a call that must be refused and change nothing
fn refused(d: &Drv, s: *mut c_void, r: &mut Rng) -> Result<&'static str, Viol> {
    let big = |r: &mut Rng, n: u32| if r.bool() { n + r.us(8) as u32 } else { n.max(r.u32()) };
    let (x, what) = match r.us(6) {
        0 => ((d.set_raw)(s, 0, r.u32()), "option 0"),
        1 => ((d.set_raw)(s, 64 + r.us(192) as u8, r.us(20) as u32), "unknown option"),
        2 => ((d.set)(s, 4, big(r, 3)), "brotli command selection above 2"),
        3 => ((d.set)(s, 6, big(r, 2)), "context map above 1"),
        4 => ((d.set)(s, 8, big(r, 9)), "stride above 8"),
        _ => ((d.set)(s, *r.pick(&[7, 11, 12, 13]), big(r, Speed::ENCODER_DEFAULT_PALETTE.len() as u32)), "adaptation outside the palette"),
    };
    if x != 3 {
        return Err(viol(format!("accepted: {}", what), format!("result {}", x)));
    }
    Ok(what)
}
/// calls lacking a state or an offset must fail without touching anything
fn nulls(c: &mut Case, d: &Drv, cs: *mut c_void, ds: *mut c_void, r: &mut Rng) -> Result<(), Viol> {
    let nul = std::ptr::null_mut::<c_void>();
    let no = std::ptr::null_mut::<usize>();
    let mut b = [7u8; 40];
    let i = [1u8; 20];
    let (mut io, mut oo) = (3usize, 5usize);
    let k = r.us(8);
    let x = match k {
        0 => (d.encode)(nul, i.as_ptr(), 20, &mut io, b.as_mut_ptr(), 40, &mut oo),
        1 => (d.flush)(nul, b.as_mut_ptr(), 40, &mut oo),
        2 => (d.decode)(nul, i.as_ptr(), 20, &mut io, b.as_mut_ptr(), 40, &mut oo),
        3 => (d.set)(nul, 0, 5),
        4 if !cs.is_null() => (d.encode)(cs, i.as_ptr(), 20, no, b.as_mut_ptr(), 40, &mut oo),
        5 if !cs.is_null() => (d.encode)(cs, i.as_ptr(), 20, &mut io, b.as_mut_ptr(), 40, no),
        6 if !ds.is_null() => (d.decode)(ds, i.as_ptr(), 20, no, b.as_mut_ptr(), 40, &mut oo),
        7 if !ds.is_null() => (d.decode)(ds, i.as_ptr(), 20, &mut io, b.as_mut_ptr(), 40, no),
        _ if !cs.is_null() => (d.flush)(cs, b.as_mut_ptr(), 40, no),
        _ => return Ok(()),
    };
    if x != 3 || io != 3 || oo != 5 || b != [7u8; 40] {
        return Err(viol("call without a state or an offset", format!("variant {}: result {}, offsets {} {}", k, x, io, oo)));
    }
    c.seen("null argument refused");
    Ok(())
}
fn case(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let d = drv()?;
    let enc = r.bool();
    let early = r.chance(1, 6);
    let led = if r.chance(1, 2) { Some(CLedger::new(r.byte())) } else { None };
    let ca = led.as_ref().map(|l| l.calloc());
    let cap = ca.as_ref().map_or(std::ptr::null(), |a| a as *const CAlloc);
    let (end, null) = (r.bool(), r.bool());
    let desc;
    let how;
    if enc {
        let max = if r.chance(1, 6) { 150_000 } else { 6000 };
        let (data, fam) = if r.chance(1, 30) { (vec![], "none") } else { gen::data(r, max) };
        let mut o = opts::random(r, data.len() < 6000).o;
        if r.chance(3, 4) {
            o.stride_detection_quality = None;
        }
        let intern = r.chance(1, 3);
        let (calls, want) = settings(r, &o, intern);
        let (is, os) = (Sched::random(r, data.len()), Sched::random(r, data.len()));
        desc = format!("{} bytes {}, in {:?} out {:?}, buffers at the {}, custom allocator {}, C options {:?}", data.len(), fam, is, os, if end { "end" } else { "start" }, led.is_some(), calls.iter().map(|(n, v)| format!("{}={}", NAMES[*n as usize], v)).collect::<Vec<_>>());
        let s = (d.new_c)(cap);
        if s.is_null() {
            return Err(viol("no compressor", desc));
        }
        let mut g = GEnc { d, s, b: Bufs::new(data.len() + 64, end, null) };
        for (n, v) in &calls {
            if r.chance(1, 4) {
                c.seen(format!("refused: {}", refused(d, s, r)?));
            }
            if (d.set)(s, *n, *v) != 0 {
                return Err(viol(format!("option {} refused", NAMES[*n as usize]), format!("value {} [{}]", v, desc)));
            }
            c.seen(format!("option {}", NAMES[*n as usize]));
        }
        if r.chance(1, 4) {
            nulls(c, d, s, std::ptr::null_mut(), r)?;
        }
        if early {
            how = "compressor freed early";
            let n = r.us(12);
            let mut pos = 0;
            for k in 0..n {
                let (mut io, mut oo) = (0, 0);
                let m = is.next(r, k).min(data.len() - pos);
                let mut b = vec![CANARY; os.next(r, k).min(1 << 17)];
                let x = if pos == data.len() { g.b.call(&[], &mut 0, &mut b, &mut oo, |_, _, _, op, m, oo| (d.flush)(s, op, m, oo)) } else { g.b.call(&data[pos..pos + m], &mut io, &mut b, &mut oo, |ip, n, io, op, m, oo| (d.encode)(s, ip, n, io, op, m, oo)) };
                pos += io;
                if x == 3 || (x == 0 && pos == data.len()) {
                    break;
                }
            }
            (d.free_c)(s);
        } else {
            how = "compressor";
            let mut st = Stats::default();
            let (mut r1, mut r2) = (r.clone(), r.clone());
            let x = encode_all(&mut g, &data, &is, &os, &mut r1, &mut st);
            // options are for before the work, and a refusal does no harm
            if (d.set)(s, QUALITY, 5) != 3 {
                return Err(viol("option accepted after compression began", desc));
            }
            (d.free_c)(s);
            if let Some(b) = &g.b.bad {
                return Err(viol("result code", format!("{} [{}]", b, desc)));
            }
            let x = match x {
                Ok(x) => x,
                Err(e) => return Err(viol("C compressor", format!("{} [{}]", e, desc))),
            };
            // the same through the Rust interface
            let y = if intern {
                let mut e = internal(want);
                let y = encode_all(&mut e, &data, &is, &os, &mut r2, &mut st);
                e.free();
                y
            } else {
                let mut e = hybrid(want);
                let y = encode_all(&mut e, &data, &is, &os, &mut r2, &mut st);
                e.free();
                y
            };
            match y {
                Ok(y) if y == x => {}
                Ok(y) => return Err(viol("the C interface compresses otherwise than the Rust interface with the same options", format!("{} [{}]", first_diff(&y, &x), desc))),
                Err(e) => return Err(viol("the Rust interface fails where the C interface does not", format!("{} [{}]", e, desc))),
            }
            let z = decode_simple(&x, false, data.len() + 100_000);
            if z.end != End::Success || z.out != data {
                return Err(viol("stream of the C interface does not decode to the data", format!("{:?}, {} [{}]", z.end, first_diff(&data, &z.out), desc)));
            }
            c.seen(format!("empty buffers {}", if null { "NULL" } else { "with address" }));
            c.distinct(mix(fnv(&x)));
        }
        c.add("calls between unmapped pages", g.b.calls);
    } else {
        let mx = if r.chance(1, 6) { 60_000 } else { 4000 };
        let kind = r.us(4);
        let (s, k) = match kind {
            0 | 1 => (valid(r, mx).1, "valid"),
            2 => {
                let mut s = valid(r, mx).1;
                mutate(r, &mut s);
                (s, "damaged")
            }
            _ => (hostile(r).0, "hostile"),
        };
        let (skip, mt) = if led.is_some() { (r.chance(1, 3), r.bool()) } else { (false, true) };
        if let Ok(p) = std::env::var("VH_DUMP") {
            let _ = std::fs::write(p, &s);
        }
        let (is, os) = (Sched::random(r, s.len()), Sched::random(r, s.len() * 3));
        desc = format!("{} stream of {} bytes, skip_crc {}, threads {}, in {:?} out {:?}, buffers at the {}, custom allocator {}", k, s.len(), skip, mt, is, os, if end { "end" } else { "start" }, led.is_some());
        let q = (d.new_d)(cap, truth(r, skip), truth(r, mt));
        if q.is_null() {
            return Err(viol("no decompressor", desc));
        }
        let mut b = Bufs::new(s.len() + 64, end, null);
        if r.chance(1, 4) {
            nulls(c, d, std::ptr::null_mut(), q, r)?;
        }
        let limit = if kind < 2 { 64 * MB } else { 2 * MB };
        if early {
            how = "decompressor freed early";
            let n = r.us(12);
            let mut pos = 0;
            for k in 0..n {
                let (mut io, mut oo) = (0, 0);
                let m = is.next(r, k).min(s.len() - pos);
                let mut o = vec![CANARY; os.next(r, k).min(1 << 17)];
                let x = b.call(&s[pos..pos + m], &mut io, &mut o, &mut oo, |ip, n, io, op, m, oo| (d.decode)(q, ip, n, io, op, m, oo));
                pos += io;
                if x == 3 || x == 0 {
                    break;
                }
            }
            (d.free_d)(q);
        } else {
            how = "decompressor";
            let mut st = Stats::default();
            let mut r1 = r.clone();
            let x = decode_with(|i, io, o, oo| result(b.call(i, io, o, oo, |ip, n, io, op, m, oo| (d.decode)(q, ip, n, io, op, m, oo))), &s, &is, &os, &mut r1, &mut st, limit);
            (d.free_d)(q);
            if let Some(b) = &b.bad {
                return Err(viol("result code", format!("{} [{}]", b, desc)));
            }
            let mut r2 = r.clone();
            let y = decode_all(&s, skip, mt, &is, &os, &mut r2, &mut st, limit);
            c.seen(format!("{} stream: {}", k, x.kind()));
            let limited = x.end == End::OutLimit || y.end == End::OutLimit;
            // with threads, an error in a stream that does not reach its end is reported by the next call or not at all, by timing
            let late = mt && matches!(x.kind(), "wants-input" | "failed") && matches!(y.kind(), "wants-input" | "failed");
            if (!limited && !late && x.kind() != y.kind()) || (x.end == End::Success && x.out != y.out) || (!limited && !mt && x.out != y.out) {
                return Err(viol("the C interface decodes otherwise than the Rust interface", format!("{:?} after {} bytes, {:?} after {} bytes [{}]", x.end, x.out.len(), y.end, y.out.len(), desc)));
            }
            if let End::Proto(p) = &x.end {
                return Err(viol("C decompressor", format!("{} [{}]", p, desc)));
            }
            c.distinct(mix(fnv(&s)));
        }
        c.add("calls between unmapped pages", b.calls);
    }
    c.eval(1);
    c.seen(format!("{}{}", how, if led.is_some() { ", custom allocator" } else { "" }));
    if c.idx < 6 {
        c.sample = Some(desc.clone());
    }
    if let Some(l) = led {
        c.add("allocator calls on another thread", l.foreign());
        if let Some((s, e)) = l.verdict() {
            return Err(viol(format!("{}: {}", how, s), format!("{} [{}]", e, desc)));
        }
    }
    Ok(())
}
/// what C code passes for a truth value
fn truth(r: &mut Rng, b: bool) -> c_int {
    if b {
        *r.pick(&[1, 1, 1, 2, 0x80, 0xf0, 255])
    } else {
        0
    }
}
pub fn plan() -> Plan {
    Plan {
        prop: "C09",
        quick: 3000,
        thorough: 60_000,
        rule: "one evaluation = one life of a C compressor or decompressor driven through a C shim compiled against c/divans/ffi.h, buffers placed against unmapped pages and inaccessible between calls, compared with the Rust interface; distinct = distinct streams",
        assumptions: &["a caller passes offsets within its buffers and releases each state once"],
        memcap: 6000 * MB,
        workers: 8,
        budget: 60,
        case,
    }
}
