//! C11: call protocol of encode / flush / decode.
use super::c05::{hostile, valid};
use super::MB;
use crate::drive::*;
use crate::gen;
use crate::opts;
use crate::pool::*;
use crate::rng::{fnv, mix, Rng};
use divans::{Compressor, Decompressor, DivansOutputResult, DivansResult};

/// consecutive calls that were given input (or had none left to give) and output space and moved nothing
const STALL: u64 = 4;

struct Mon {
    calls: u64,
    stall: u64,
    max_stall: u64,
    log: Vec<String>,
}
struct Ret {
    io: usize,
    out: Vec<u8>,
}
impl Mon {
    /// One call inside larger buffers at nonzero offsets, everything around the windows watched.
    fn call<R, F: FnOnce(&[u8], &mut usize, &mut [u8], &mut usize) -> R>(&mut self, r: &mut Rng, what: &str, inp: &[u8], space: usize, f: F) -> Result<(R, Ret), Viol>
    where
        R: std::fmt::Debug,
    {
        self.calls += 1;
        let lead_i = if r.chance(1, 3) { r.range(1, 40) } else { 0 };
        let lead_o = if r.chance(1, 3) { r.range(1, 40) } else { 0 };
        let mut ib = vec![0x5A; lead_i];
        ib.extend_from_slice(inp);
        let icopy = ib.clone();
        let mut ob: Vec<u8> = (0..lead_o + space).map(|k| (k as u8).wrapping_mul(37) ^ CANARY).collect();
        let ocopy = ob.clone();
        let (mut io, mut oo) = (lead_i, lead_o);
        let res = f(&ib, &mut io, &mut ob, &mut oo);
        self.log.push(format!("{}(in {} @{}, out {} @{}) -> {:?} in+{} out+{}", what, inp.len(), lead_i, space, lead_o, res, io as i64 - lead_i as i64, oo as i64 - lead_o as i64));
        if self.log.len() > 40 {
            self.log.drain(..20);
        }
        if io < lead_i || io > ib.len() {
            return Err(viol(format!("{}: input offset left the buffer or went back", what), self.tail()));
        }
        if oo < lead_o || oo > ob.len() {
            return Err(viol(format!("{}: output offset left the buffer or went back", what), self.tail()));
        }
        if ib != icopy {
            return Err(viol(format!("{}: input modified", what), self.tail()));
        }
        if ob[..lead_o] != ocopy[..lead_o] {
            return Err(viol(format!("{}: bytes before the output offset modified", what), self.tail()));
        }
        if ob[oo..] != ocopy[oo..] {
            return Err(viol(format!("{}: bytes after the written range modified", what), self.tail()));
        }
        Ok((res, Ret { io: io - lead_i, out: ob[lead_o..oo].to_vec() }))
    }
    fn tail(&self) -> String {
        self.log[self.log.len().saturating_sub(8)..].join(" ; ")
    }
    fn progress(&mut self, moved: bool, fair: bool, what: &str) -> Result<(), Viol> {
        if moved {
            self.stall = 0;
        } else if fair {
            self.stall += 1;
            self.max_stall = self.max_stall.max(self.stall);
            if self.stall > STALL {
                return Err(viol(format!("{}: no progress", what), self.tail()));
            }
        }
        Ok(())
    }
}

fn compressor<C: Compressor>(e: &mut C, d: &[u8], r: &mut Rng, m: &mut Mon, c: &mut Case, internal: bool) -> Result<Vec<u8>, Viol> {
    let mut out = Vec::new();
    let mut pos = 0;
    let (is, os) = (Sched::random(r, d.len()), Sched::random(r, d.len()));
    let mut k = 0;
    while pos < d.len() {
        let n = is.next(r, k).min(d.len() - pos);
        k += 1;
        let mut off = 0;
        loop {
            let space = if r.chance(1, 6) { 0 } else { os.next(r, k).min(1 << 17) };
            k += 1;
            let (res, ret) = m.call(r, "encode", &d[pos + off..pos + n], space, |i, io, o, oo| e.encode(i, io, o, oo))?;
            off += ret.io;
            out.extend_from_slice(&ret.out);
            m.progress(ret.io > 0 || !ret.out.is_empty(), space > 0 && n > 0, "encode")?;
            match res {
                DivansResult::NeedsMoreInput => {
                    if off != n {
                        return Err(viol("encode asks for input with input unread", m.tail()));
                    }
                    break;
                }
                DivansResult::NeedsMoreOutput => {
                    if !internal && space == 0 {
                        c.seen("encode: zero space");
                    }
                    if ret.out.len() < space {
                        c.seen("encode: NeedsMoreOutput with space left");
                    }
                }
                DivansResult::Success => return Err(viol("encode reports Success", m.tail())),
                DivansResult::Failure(f) => return Err(viol("encode fails on valid input", format!("{:?} {}", f, m.tail()))),
            }
        }
        pos += n;
    }
    loop {
        let space = if r.chance(1, 6) { 0 } else { os.next(r, k).min(1 << 17) };
        k += 1;
        let (res, ret) = m.call(r, "flush", &[], space, |_, _, o, oo| e.flush(o, oo))?;
        out.extend_from_slice(&ret.out);
        m.progress(!ret.out.is_empty(), space > 0, "flush")?;
        match res {
            DivansOutputResult::Success => break,
            DivansOutputResult::NeedsMoreOutput => {
                if ret.out.len() < space {
                    c.seen("flush: NeedsMoreOutput with space left");
                }
            }
            DivansOutputResult::Failure(f) => return Err(viol("flush fails on valid input", format!("{:?} {}", f, m.tail()))),
        }
        if out.len() > d.len() * 2 + (1 << 20) {
            return Err(viol("flush output runs away", m.tail()));
        }
    }
    // after completion
    for k in 0..3 {
        let (res, ret) = m.call(r, "flush after completion", &[], 50, |_, _, o, oo| e.flush(o, oo))?;
        if !ret.out.is_empty() {
            return Err(viol("flush after completion emits bytes", m.tail()));
        }
        if let DivansOutputResult::NeedsMoreOutput = res {
            return Err(viol("flush after completion asks for output", m.tail()));
        }
        if k == 1 {
            let (_, ret) = m.call(r, "encode after completion", &[1, 2, 3], 50, |i, io, o, oo| e.encode(i, io, o, oo))?;
            if !ret.out.is_empty() {
                return Err(viol("encode after completion emits bytes", m.tail()));
            }
        }
    }
    Ok(out)
}

fn case(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let mut m = Mon { calls: 0, stall: 0, max_stall: 0, log: vec![] };
    let kind = r.us(4);
    if kind < 2 {
        let (d, fam) = gen::data(r, 20_000);
        let mut o = opts::random(r, false).o;
        o.stride_detection_quality = None;
        let desc = format!("{} {} {:?}", fam, d.len(), o);
        let x = if kind == 0 {
            let mut e = hybrid(o);
            let x = compressor(&mut e, &d, r, &mut m, c, false);
            e.free();
            x
        } else {
            let mut e = internal(o);
            let x = compressor(&mut e, &d, r, &mut m, c, true);
            e.free();
            x
        };
        let out = x.map_err(|v| viol(v.sig, format!("{} [{}]", v.detail, desc)))?;
        let x = decode_simple(&out, false, d.len() + 100_000);
        if x.end != End::Success || x.out != d || x.consumed != out.len() {
            return Err(viol("stream made under this call sequence does not decode", format!("{:?} {} [{}]", x.end, first_diff(&d, &x.out), desc)));
        }
        // calls are bounded by the bytes moved: every call that stalls is bounded by STALL in a row,
        // and zero-space calls were ours
        c.distinct(mix(fnv(&out)) ^ m.calls);
        c.seen(if kind == 0 { "hybrid compressor" } else { "internal compressor" });
        if c.idx < 6 {
            c.sample = Some(format!("{} calls [{}] ... {}", m.calls, desc, m.tail()));
        }
    } else {
        let (s, desc, d) = if kind == 2 {
            let (d, s, x) = valid(r, 20_000);
            (s, x, Some(d))
        } else {
            let (s, x) = hostile(r);
            (s, x, None)
        };
        let mt = r.chance(1, 4);
        let mut dec = decoder(r.chance(1, 3), mt);
        let (is, os) = (Sched::random(r, s.len()), Sched::random(r, 50_000));
        let res = (|| -> Result<(), Viol> {
            let mut pos = 0;
            let mut avail = 0;
            let mut k = 0;
            let mut out = Vec::new();
            let mut end = "";
            let mut polls = 0;
            while end == "" {
                let space = if r.chance(1, 6) { 0 } else { os.next(r, k).min(1 << 17) };
                k += 1;
                let (res, ret) = m.call(r, "decode", &s[pos..avail], space, |i, io, o, oo| dec.decode(i, io, o, oo))?;
                pos += ret.io;
                out.extend_from_slice(&ret.out);
                let moved = ret.io > 0 || !ret.out.is_empty();
                match res {
                    DivansResult::NeedsMoreInput => {
                        if pos != avail {
                            return Err(viol("decode asks for input with input unread", m.tail()));
                        }
                        m.stall = 0;
                        if avail == s.len() {
                            polls += 1;
                            if polls > 3 {
                                end = "wants input";
                            }
                        } else {
                            let n = is.next(r, k).min(s.len() - avail);
                            avail += n;
                        }
                    }
                    DivansResult::NeedsMoreOutput => {
                        if ret.out.len() < space {
                            c.seen("decode: NeedsMoreOutput with space left");
                        }
                        m.progress(moved, space > 0, "decode")?;
                    }
                    DivansResult::Success => end = "success",
                    DivansResult::Failure(_) => end = "failure",
                }
                if out.len() > 8 * MB {
                    end = "limit";
                }
            }
            c.seen(format!("decode ends: {} ({})", end, if d.is_some() { "valid" } else { "hostile" }));
            if let Some(d) = &d {
                if end != "success" || out != *d {
                    return Err(viol("valid stream does not decode under this call sequence", format!("{} {} {}", end, first_diff(d, &out), m.tail())));
                }
            }
            if end == "success" || end == "failure" {
                for k in 0..4 {
                    let junk = [0u8, 1, 2, 0xff, 0xfe, 0xff];
                    let n = if k % 2 == 0 { 0 } else { 6 };
                    let (res, ret) = m.call(r, "decode after the end", &junk[..n], 60, |i, io, o, oo| dec.decode(i, io, o, oo))?;
                    if !ret.out.is_empty() {
                        return Err(viol(format!("decode after {} emits bytes", end), m.tail()));
                    }
                    match (end, &res) {
                        ("success", DivansResult::Success) => {}
                        ("failure", DivansResult::Success) => return Err(viol("decode succeeds after it failed", m.tail())),
                        ("success", _) => return Err(viol("decode leaves the success state", m.tail())),
                        (_, x) => c.seen(format!("after failure: {}", format!("{:?}", x).split('(').next().unwrap())),
                    }
                }
            }
            Ok(())
        })();
        dec.free();
        res.map_err(|v| viol(v.sig, format!("{} mt={} in {:?} out {:?} [{}]", v.detail, mt, is, os, desc)))?;
        c.distinct(mix(fnv(&s)) ^ m.calls);
        c.seen(if mt { "mt decoder" } else { "serial decoder" });
    }
    c.eval(m.calls);
    c.add("calls monitored", m.calls);
    c.seen(format!("longest stall: {} calls", m.max_stall));
    Ok(())
}
pub fn plan() -> Plan {
    Plan {
        prop: "C11",
        quick: 8000,
        thorough: 120_000,
        rule: "one evaluation = one monitored API call (offsets, guard bytes around both windows, progress); distinct = distinct (stream, number of calls) histories",
        assumptions: &["a call given no output space is not expected to advance"],
        memcap: 3000 * MB,
        workers: 8,
        budget: 60,
        case,
    }
}
