//! C03: decoded bytes do not depend on chunking or API path.  C07: cut streams.
use super::c05::valid;
use super::MB;
use crate::drive::*;
use crate::ffi::*;
use crate::gen;
use crate::pool::*;
use crate::rng::{fnv, mix, Rng};
use divans::{Decompressor, DivansDecompressorReader, DivansDecompressorWriter, DivansResult};
use std::io::{Read, Write};

/// read to the end through the Read adapter; (bytes, error)
pub fn via_reader(s: &[u8], buf: usize, skip: bool, mt: bool, rs: &Sched, r: &mut Rng, cap: usize) -> (Vec<u8>, Option<String>) {
    let mut rd = DivansDecompressorReader::new(std::io::Cursor::new(s), buf, skip, mt);
    let mut out = Vec::new();
    let mut k = 0;
    loop {
        let n = rs.next(r, k).max(1).min(1 << 17);
        k += 1;
        let mut b = vec![0u8; n];
        match rd.read(&mut b) {
            Ok(0) => return (out, None),
            Ok(m) => {
                if m > n {
                    return (out, Some(format!("Read returned {} for a buffer of {}", m, n)));
                }
                out.extend_from_slice(&b[..m]);
            }
            Err(e) => return (out, Some(format!("{:?}", e))),
        }
        if out.len() > cap {
            return (out, Some("output limit".into()));
        }
    }
}
pub fn via_writer(s: &[u8], buf: usize, skip: bool, mt: bool, ws: &Sched, r: &mut Rng) -> (Vec<u8>, Option<String>) {
    let mut out = Vec::new();
    let mut err = None;
    {
        let mut w = DivansDecompressorWriter::new(&mut out, buf, skip, mt);
        let mut pos = 0;
        let mut k = 0;
        while pos < s.len() {
            let n = ws.next(r, k).max(1).min(s.len() - pos);
            k += 1;
            match w.write(&s[pos..pos + n]) {
                Ok(m) => {
                    if m == 0 || m > n {
                        err = Some(format!("Write returned {} for {} bytes", m, n));
                        break;
                    }
                    pos += m
                }
                Err(e) => {
                    err = Some(format!("{:?}", e));
                    break;
                }
            }
            if r.chance(1, 20) {
                if let Err(e) = w.flush() {
                    err = Some(format!("flush {:?}", e));
                    break;
                }
            }
        }
        if err.is_none() {
            if let Err(e) = w.flush() {
                err = Some(format!("flush {:?}", e));
            }
        }
    }
    (out, err)
}
pub fn cdec(r: &mut Rng, mt: bool) -> CDec {
    CDec(unsafe {
        if mt {
            divans_new_decompressor()
        } else if r.bool() {
            divans_new_serial_decompressor()
        } else {
            divans_new_decompressor_with_custom_alloc(CAlloc::none(), 0, 0)
        }
    })
}
/// calls after Success: nothing more may come out, and the result must stay Success
fn after<F: FnMut(&[u8], &mut usize, &mut [u8], &mut usize) -> DivansResult>(mut f: F, r: &mut Rng) -> Result<(), String> {
    for k in 0..3 {
        let n = [0usize, 5, 0][k];
        let mut i = vec![0u8; n];
        r.fill(&mut i);
        let mut o = [CANARY; 40];
        let (mut io, mut oo) = (0, 7);
        let res = f(&i, &mut io, &mut o, &mut oo);
        if oo != 7 || o.iter().any(|b| *b != CANARY) {
            return Err(format!("call {} after Success wrote output", k));
        }
        if io > n {
            return Err(format!("call {} after Success moved the input offset out of the buffer", k));
        }
        match res {
            DivansResult::Success => {}
            x => return Err(format!("call {} after Success returned {:?}", k, x)),
        }
    }
    Ok(())
}

fn case(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let small = r.chance(2, 3);
    let (d, s, desc) = valid(r, if small { 3000 } else { 60_000 });
    c.distinct(mix(fnv(&s)));
    c.add("stream bytes", s.len() as u64);
    if c.idx < 6 {
        c.sample = Some(format!("{} -> {} bytes, decoded by all paths", desc, s.len()));
    }
    let mut st = Stats::default();
    let cap = d.len() + 100_000;
    let bad = |what: &str, got: &[u8], end: &str| -> Result<(), Viol> {
        if end != "ok" {
            return Err(viol(format!("{} does not complete a stream that decodes elsewhere", what.split(' ').next().unwrap()), format!("{} ended {} after {} of {} bytes [{}]", what, end, got.len(), d.len(), desc)));
        }
        if got != &d[..] {
            return Err(viol(format!("{} delivers other bytes", what.split(' ').next().unwrap()), format!("{}: {} [{}]", what, first_diff(&d, got), desc)));
        }
        Ok(())
    };
    let endof = |e: &End| match e {
        End::Success => "ok".to_string(),
        e => format!("{:?}", e),
    };
    // streaming, several schedules; includes the fully bytewise one on small streams
    let nsched = if small { 5 } else { 3 };
    for k in 0..nsched {
        let (is, os) = match k {
            0 if small => (Sched::Fixed(1), Sched::Fixed(1)),
            1 if small => (Sched::Fixed(1), Sched::Rand { max: 50, zero: 4 }),
            2 if small => (Sched::Rand { max: 20, zero: 4 }, Sched::Fixed(1)),
            _ => (Sched::random(r, s.len()), Sched::random(r, d.len())),
        };
        let mt = r.chance(1, 4);
        let mut dec = decoder(r.chance(1, 5), mt);
        let x = decode_with(|i, io, o, oo| dec.decode(i, io, o, oo), &s, &is, &os, r, &mut st, cap);
        let w = format!("streaming decoder (mt={} in {:?} out {:?})", mt, is, os);
        let z = bad(&w, &x.out, &endof(&x.end));
        let z2 = if z.is_ok() { after(|i, io, o, oo| dec.decode(i, io, o, oo), r).map_err(|e| viol("decoder after completion misbehaves", format!("{}: {} [{}]", w, e, desc))) } else { Ok(()) };
        dec.free();
        z?;
        z2?;
        c.eval(1);
        c.seen(format!("streaming in:{} out:{}{}", is.cls(), os.cls(), if mt { " mt" } else { "" }));
    }
    // all the input offered at once inside a larger buffer, at an offset
    for mt in [false, true] {
        let bs = *r.pick(&[0usize, 1, 2, 7, 16, 255, 256, 257, 4096, 65536]);
        let rs = Sched::random(r, d.len());
        let (o, e) = via_reader(&s, bs, r.chance(1, 5), mt, &rs, r, cap);
        bad(&format!("Reader (buffer {} mt={} reads {:?})", bs, mt, rs), &o, &e.unwrap_or("ok".into()))?;
        let ws = Sched::random(r, s.len());
        let bs = *r.pick(&[0usize, 1, 2, 7, 16, 255, 256, 257, 4096, 65536]);
        let (o, e) = via_writer(&s, bs, r.chance(1, 5), mt, &ws, r);
        bad(&format!("Writer (buffer {} mt={} writes {:?})", bs, mt, ws), &o, &e.unwrap_or("ok".into()))?;
        let (is, os) = (Sched::random(r, s.len()), Sched::random(r, d.len()));
        let mut cd = cdec(r, mt);
        let x = decode_with(|i, io, o, oo| cd.decode(i, io, o, oo), &s, &is, &os, r, &mut st, cap);
        bad(&format!("C-decoder (mt={} in {:?} out {:?})", mt, is, os), &x.out, &endof(&x.end))?;
        after(|i, io, o, oo| cd.decode(i, io, o, oo), r).map_err(|e| viol("C decoder after completion misbehaves", format!("{} [{}]", e, desc)))?;
        c.eval(3);
        c.seen(format!("reader/writer/c mt={}", mt));
    }
    c.add("api calls", st.calls);
    c.add("suspensions for output", st.need_out);
    c.add("suspensions for input", st.need_in);
    Ok(())
}
pub fn plan() -> Plan {
    Plan {
        prop: "C03",
        quick: 2000,
        thorough: 20_000,
        rule: "one evaluation = one valid stream decoded by one path (streaming serial or threaded, Read adapter, Write adapter, C) under one random or bytewise chunking and compared with the original; distinct = distinct streams",
        assumptions: &[],
        memcap: 3000 * MB,
        workers: 8,
        budget: 60,
        case,
    }
}

fn cut(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let max = if r.chance(1, 6) { 30_000 } else { 1500 };
    let (d, s, desc) = valid(r, max);
    c.distinct(mix(fnv(&s)));
    if c.idx < 6 {
        c.sample = Some(format!("{} -> {} bytes, every cut", desc, s.len()));
    }
    // every cut of this stream, bytewise: after each byte the decoder must not claim completion
    if s.len() < 6000 {
        for mt in [false, true] {
            if mt && s.len() > 400 {
                continue;
            }
            let skip = r.chance(1, 3);
            let mut dec = decoder(skip, mt);
            let mut out: Vec<u8> = Vec::new();
            let mut res = Ok(());
            let os = *r.pick(&[1usize, 9, 100, 5000]);
            'f: for i in 0..s.len() - 1 {
                let mut io = 0;
                let mut spin = 0;
                loop {
                    let mut o = vec![0u8; os];
                    let mut oo = 0;
                    let x = dec.decode(&s[i..i + 1], &mut io, &mut o, &mut oo);
                    out.extend_from_slice(&o[..oo]);
                    spin = if oo > 0 { 0 } else { spin + 1 };
                    match x {
                        DivansResult::NeedsMoreInput => {
                            if io == 1 {
                                break;
                            }
                        }
                        DivansResult::NeedsMoreOutput => {}
                        DivansResult::Success => {
                            res = Err(viol("cut stream reported complete", format!("streaming mt={} skip={} after {} of {} bytes, {} of {} out [{}]", mt, skip, i + 1, s.len(), out.len(), d.len(), desc)));
                            break 'f;
                        }
                        DivansResult::Failure(m) => {
                            res = Err(viol("prefix of a valid stream rejected while more could follow", format!("{:?} after {} of {} [{}]", m, i + 1, s.len(), desc)));
                            break 'f;
                        }
                    }
                    if spin > 200 {
                        res = Err(viol("no progress on a prefix", format!("byte {} of {} [{}]", i, s.len(), desc)));
                        break 'f;
                    }
                }
                if out.len() > d.len() || out[..] != d[..out.len()] {
                    res = Err(viol("bytes delivered from a cut stream are not a prefix", format!("after {} bytes: {} [{}]", i + 1, first_diff(&d, &out), desc)));
                    break 'f;
                }
            }
            dec.free();
            res?;
            c.eval(s.len() as u64 - 1);
            c.add(if mt { "cuts, streaming mt" } else { "cuts, streaming serial" }, s.len() as u64 - 1);
        }
    }
    // sampled cuts by the other paths: biased to both ends
    for _ in 0..14 {
        let n = match r.us(4) {
            0 => r.us(s.len()),
            1 => s.len() - 1 - r.us(14.min(s.len())),
            2 => r.us(20.min(s.len())),
            _ => s.len() - 1 - r.logu(0, s.len() - 1),
        };
        let p = &s[..n];
        let mt = r.chance(1, 3);
        let skip = r.chance(1, 4);
        match r.us(3) {
            0 => {
                let bs = *r.pick(&[0usize, 1, 3, 16, 100, 257, 4096]);
                let rs = Sched::random(r, d.len());
                let (o, e) = via_reader(p, bs, skip, mt, &rs, r, d.len() + 100_000);
                c.seen(format!("reader cut: {}", if e.is_some() { "error" } else { "clean end" }));
                if o.len() > d.len() || o[..] != d[..o.len()] {
                    return Err(viol("Reader delivers bytes that are not a prefix from a cut stream", format!("cut {} of {}: {} [{}]", n, s.len(), first_diff(&d, &o), desc)));
                }
                if e.is_none() && n > 0 {
                    return Err(viol("Reader ends cleanly on a cut stream", format!("cut {} of {}, {} of {} bytes delivered, buffer {} mt={} reads {:?} [{}]", n, s.len(), o.len(), d.len(), bs, mt, rs, desc)));
                }
            }
            1 => {
                let (is, os) = (Sched::random(r, n), Sched::random(r, d.len()));
                let mut st = Stats::default();
                let mut cd = cdec(r, mt);
                let x = decode_with(|i, io, o, oo| cd.decode(i, io, o, oo), p, &is, &os, r, &mut st, d.len() + 100_000);
                c.seen(format!("c cut: {}", x.kind()));
                if x.end == End::Success {
                    return Err(viol("C decoder completes a cut stream", format!("cut {} of {} [{}]", n, s.len(), desc)));
                }
                if let End::Proto(m) = x.end {
                    return Err(viol("C decoder breaks the protocol on a cut stream", format!("{} cut {} of {} [{}]", m, n, s.len(), desc)));
                }
                if x.out.len() > d.len() || x.out[..] != d[..x.out.len()] {
                    return Err(viol("C decoder delivers bytes that are not a prefix", format!("cut {} of {}: {} [{}]", n, s.len(), first_diff(&d, &x.out), desc)));
                }
            }
            _ => {
                let (is, os) = (Sched::random(r, n), Sched::random(r, d.len()));
                let mut st = Stats::default();
                let x = decode_all(p, skip, mt, &is, &os, r, &mut st, d.len() + 100_000);
                c.seen(format!("streaming cut: {}", x.kind()));
                if x.end == End::Success {
                    return Err(viol("cut stream reported complete", format!("cut {} of {} mt={} [{}]", n, s.len(), mt, desc)));
                }
                if let End::Proto(m) = x.end {
                    return Err(viol("decoder breaks the protocol on a cut stream", format!("{} cut {} of {} [{}]", m, n, s.len(), desc)));
                }
                if x.out.len() > d.len() || x.out[..] != d[..x.out.len()] {
                    return Err(viol("bytes delivered from a cut stream are not a prefix", format!("cut {} of {}: {} [{}]", n, s.len(), first_diff(&d, &x.out), desc)));
                }
            }
        }
        c.eval(1);
    }
    let _ = gen::FAMILIES;
    Ok(())
}
pub fn plan_cut() -> Plan {
    Plan {
        prop: "C07",
        quick: 2000,
        thorough: 30_000,
        rule: "one evaluation = one cut position of one valid stream offered to one decoding path; every cut of streams below 6000 bytes is visited by the streaming decoder, other paths sample cuts; distinct = distinct streams",
        assumptions: &["the Write adapter has no call that ends a stream, so it cannot report a cut"],
        memcap: 3000 * MB,
        workers: 8,
        budget: 60,
        case: cut,
    }
}
