//! C10: Read and Write adapters over short, interrupted and failing streams.
use super::c05::valid;
use super::MB;
use crate::drive::*;
use crate::gen;
use crate::opts;
use crate::pool::*;
use crate::rng::{fnv, mix, Rng};
use divans::*;
use std::io::{Error, ErrorKind, Read, Write};

/// underlying reader: short reads, interruptions, hard errors at given call numbers
struct Src<'a> {
    d: &'a [u8],
    pos: usize,
    r: Rng,
    sched: Sched,
    intr: u64,
    err_at: Vec<u64>,
    calls: u64,
    errs: u64,
    ints: u64,
    eofs: u64,
}
impl<'a> Read for &mut Src<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.r.chance(self.intr, 8) {
            self.ints += 1;
            return Err(Error::new(ErrorKind::Interrupted, "again"));
        }
        if self.err_at.contains(&self.calls) {
            self.errs += 1;
            let k = *self.r.pick(&[ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::Other]);
            return Err(Error::new(k, "injected"));
        }
        if b.is_empty() {
            return Ok(0);
        }
        let n = self.sched.next(&mut self.r, self.calls as usize).max(1).min(b.len()).min(self.d.len() - self.pos);
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        if n == 0 {
            self.eofs += 1;
        }
        Ok(n)
    }
}
struct Sink<'a> {
    out: &'a mut Vec<u8>,
    r: Rng,
    sched: Sched,
    intr: u64,
    /// fail (for ever) once this many bytes were taken
    fail_after: Option<usize>,
    zero: bool,
    calls: u64,
    flushes: u64,
    fails: &'a mut u64,
    /// bytes were taken since the last flush
    dirty: &'a mut bool,
    fail_flush: bool,
}
impl<'a> Write for Sink<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.r.chance(self.intr, 8) {
            return Err(Error::new(ErrorKind::Interrupted, "again"));
        }
        let mut n = self.sched.next(&mut self.r, self.calls as usize).max(1).min(b.len());
        if let Some(f) = self.fail_after {
            let left = f.saturating_sub(self.out.len());
            if left == 0 {
                *self.fails += 1;
                if self.zero {
                    return Ok(0);
                }
                return Err(Error::new(ErrorKind::Other, "injected"));
            }
            n = n.min(left);
        }
        self.out.extend_from_slice(&b[..n]);
        *self.dirty |= n != 0;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.flushes += 1;
        if self.fail_flush {
            return Err(Error::new(ErrorKind::Other, "injected"));
        }
        *self.dirty = false;
        Ok(())
    }
}
/// reads everything, counting errors; injected errors are retried, others end it
fn slurp<R: Read>(rd: &mut R, rs: &Sched, r: &mut Rng, cap: usize, injected: &mut u64) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    let mut k = 0;
    let mut empties = 0;
    loop {
        let n = rs.next(r, k).max(1).min(1 << 17);
        k += 1;
        if empties < 20 && r.chance(1, 10) {
            empties += 1;
            match rd.read(&mut []) {
                Ok(0) => {}
                Ok(x) => return Err(format!("read of an empty buffer returned {}", x)),
                Err(e) => {
                    if e.to_string() == "injected" {
                        *injected += 1;
                    } else {
                        return Err(format!("read of an empty buffer: {:?}", e));
                    }
                }
            }
        }
        let mut b = vec![CANARY; n + 3];
        match rd.read(&mut b[..n]) {
            Ok(0) => break,
            Ok(m) if m > n => return Err(format!("read returned {} for a buffer of {}", m, n)),
            Ok(m) => out.extend_from_slice(&b[..m]),
            Err(e) => {
                if e.to_string() == "injected" {
                    *injected += 1;
                } else {
                    return Err(format!("{:?}", e));
                }
            }
        }
        if out.len() > cap {
            return Err("output runs away".into());
        }
    }
    // the end must be stable
    let mut b = [0u8; 16];
    for _ in 0..3 {
        match rd.read(&mut b) {
            Ok(0) => {}
            x => return Err(format!("read after the end returned {:?}", x)),
        }
    }
    Ok(out)
}
fn spew<W: Write>(w: &mut W, d: &[u8], ws: &Sched, r: &mut Rng, midflush: bool) -> Result<(), String> {
    let mut pos = 0;
    let mut k = 0;
    while pos < d.len() {
        let n = ws.next(r, k).max(1).min(d.len() - pos);
        k += 1;
        let m = w.write(&d[pos..pos + n]).map_err(|e| format!("write: {:?}", e))?;
        if m == 0 || m > n {
            return Err(format!("write returned {} for {} bytes", m, n));
        }
        pos += m;
        if r.chance(1, 16) {
            let m = w.write(&[]).map_err(|e| format!("empty write: {:?}", e))?;
            if m != 0 {
                return Err(format!("empty write returned {}", m));
            }
        }
        if midflush && r.chance(1, 12) {
            w.flush().map_err(|e| format!("mid flush: {:?}", e))?;
        }
    }
    w.flush().map_err(|e| format!("flush: {:?}", e))?;
    // flushing a finished stream again adds nothing and succeeds
    w.flush().map_err(|e| format!("second flush: {:?}", e))
}
const BUFS: [usize; 14] = [0, 1, 2, 3, 5, 15, 16, 17, 100, 255, 256, 257, 4096, 65536];

fn case(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let kind = r.us(6);
    let names = ["hybrid reader", "internal reader", "decompressing reader", "hybrid writer", "internal writer", "decompressing writer"];
    let name = names[kind];
    let bs = *r.pick(&BUFS);
    let max = if bs != 0 && bs < 20 { 6_000 } else { 60_000 };
    let (d, s, desc);
    let mut opt = opts::random(r, false).o;
    opt.stride_detection_quality = None;
    if kind == 2 || kind == 5 {
        let v = valid(r, max);
        d = v.0;
        s = v.1;
        desc = v.2;
    } else {
        let (x, f) = gen::data(r, max);
        desc = format!("{} {} {:?}", f, x.len(), opt);
        d = x;
        s = Vec::new();
    }
    let src_data: &[u8] = if kind == 2 || kind == 5 { &s } else { &d };
    let skip = r.chance(1, 5);
    let mt = r.chance(1, 4);
    let cap = d.len() * 2 + 200_000;
    let (us, cs) = (Sched::random(r, src_data.len()), Sched::random(r, max));
    let intr = r.below(4);
    let faulty = r.chance(1, 2);
    let mode = format!("{} buffer {} underlying {:?} caller {:?} interruptions {}/8 mt={} [{}]", name, bs, us, cs, intr, mt, desc);
    c.eval(1);
    c.distinct(mix(fnv(src_data)) ^ mix(fnv(mode.as_bytes())));
    c.seen(name.to_string());
    if c.idx < 6 {
        c.sample = Some(mode.clone());
    }
    let check = |got: &[u8]| -> Result<(), Viol> {
        if kind == 2 || kind == 5 {
            if got != &d[..] {
                return Err(viol(format!("{} delivers wrong bytes", name), format!("{} {}", first_diff(&d, got), mode)));
            }
        } else {
            let x = decode_simple(got, false, cap);
            if x.end != End::Success || x.out != d || x.consumed != got.len() {
                return Err(viol(format!("{} writes a stream that does not decode to its input", name), format!("{:?} {} {}", x.end, first_diff(&d, &x.out), mode)));
            }
        }
        Ok(())
    };
    if kind < 3 {
        let calls = (src_data.len() / 50 + 3) as u64;
        let err_at: Vec<u64> = if faulty { (0..r.range(1, 4)).map(|_| 1 + r.below(calls.min(12))).collect() } else { vec![] };
        let mut src = Src { d: src_data, pos: 0, r: Rng::new(r.u64()), sched: us.clone(), intr, err_at, calls: 0, errs: 0, ints: 0, eofs: 0 };
        let mut inj = 0;
        let out = match kind {
            0 => slurp(&mut DivansBrotliHybridCompressorReader::new(&mut src, opt, bs), &cs, r, cap, &mut inj),
            1 => slurp(&mut DivansExperimentalCompressorReader::new(&mut src, opt, bs), &cs, r, cap, &mut inj),
            _ => slurp(&mut DivansDecompressorReader::new(&mut src, bs, skip, mt), &cs, r, cap, &mut inj),
        };
        c.add("underlying read calls", src.calls);
        c.add("interruptions", src.ints);
        c.add("hard errors injected", src.errs);
        let out = out.map_err(|e| viol(format!("{} fails", name), format!("{} {}", e, mode)))?;
        if inj != src.errs {
            return Err(viol(format!("{} does not report errors of the underlying stream one for one", name), format!("{} injected, {} reported; {}", src.errs, inj, mode)));
        }
        check(&out)?;
    } else {
        // what a faultless sink receives
        let mut run = |fail_after: Option<usize>, zero: bool, fail_flush: bool, r: &mut Rng| -> (Vec<u8>, Result<(), String>, u64, bool) {
            let mut out = Vec::new();
            let mut fails = 0;
            let mut dirty = false;
            let sink = Sink { out: &mut out, r: Rng::new(r.u64()), sched: us.clone(), intr, fail_after, zero, calls: 0, flushes: 0, fails: &mut fails, dirty: &mut dirty, fail_flush };
            let mut wr = Rng::new(77);
            let e = match kind {
                3 => spew(&mut DivansBrotliHybridCompressorWriter::new(sink, opt, bs), &d, &cs, &mut wr, false),
                4 => spew(&mut DivansExperimentalCompressorWriter::new(sink, opt, bs), &d, &cs, &mut wr, false),
                _ => spew(&mut DivansDecompressorWriter::new(sink, bs, skip, mt), &s, &cs, &mut wr, true),
            };
            (out, e, fails, dirty)
        };
        let (out, e, _, dirty) = run(None, false, false, r);
        e.map_err(|e| viol(format!("{} fails", name), format!("{} {}", e, mode)))?;
        check(&out)?;
        if dirty {
            return Err(viol(format!("{}: a successful flush leaves the sink unflushed", name), mode));
        }
        if faulty && r.chance(1, 4) {
            let (_, e, _, _) = run(None, false, true, r);
            c.seen("sink that cannot flush");
            if e.is_ok() {
                return Err(viol(format!("{} swallows an error of the sink's flush", name), mode));
            }
        }
        if faulty && !out.is_empty() {
            let at = if r.bool() { r.us(out.len()) } else { out.len() - 1 - r.us(out.len().min(20)) };
            let zero = r.chance(1, 4);
            let (o2, e2, fails, _) = run(Some(at), zero, false, r);
            c.add("sink failures", fails);
            c.seen("failing sink");
            if e2.is_ok() {
                return Err(viol(format!("{} swallows an error of the sink", name), format!("sink fails after {} of {} bytes; {}", at, out.len(), mode)));
            }
            if o2.len() > at || o2[..] != out[..o2.len()] {
                return Err(viol(format!("{} gave the failing sink bytes that are not a prefix", name), mode));
            }
        }
    }
    Ok(())
}
pub fn plan() -> Plan {
    Plan {
        prop: "C10",
        quick: 2500,
        thorough: 60_000,
        rule: "one evaluation = one adapter driven to the end over one underlying stream with random short transfers, interruptions and injected errors; distinct = distinct (data, schedule) pairs",
        assumptions: &["a Write adapter whose sink failed is not used further"],
        memcap: 3000 * MB,
        workers: 8,
        budget: 60,
        case,
    }
}
