//! C25: heap held while decoding, and while compressing with the internal compressor.
use super::MB;
use crate::cmds::{self, Cmd};
use crate::drive::*;
use crate::gen;
use crate::mem;
use crate::opts;
use crate::pool::*;
use crate::rng::{fnv, mix, Rng};
use divans::{Compressor, Decompressor, DivansOutputResult, DivansResult};

/// bytes made up as they are needed, the same every time
fn byte_at(seed: u64, style: usize, i: usize) -> u8 {
    match style {
        0 => (mix(seed ^ (i as u64)) >> 13) as u8,
        1 => (mix(seed ^ ((i % 977) as u64)) >> 13) as u8,
        2 => b"etaoin shrdlu"[(mix(seed ^ (i as u64)) % 13) as usize],
        _ => {
            if (i >> 14) & 1 == 0 {
                (mix(seed ^ (i as u64)) >> 13) as u8
            } else {
                b'x'
            }
        }
    }
}
/// Decode offering pieces of at most `p` bytes, the next one only when asked for; output in pieces of `o`.
/// Returns (bytes out, checksum, peak of the heap over what was held before).
fn decode_peak(s: &[u8], mt: bool, p: usize, o: usize) -> Result<(usize, u64, usize), String> {
    let mut obuf = vec![0u8; o];
    let base = mem::live();
    mem::reset_peak();
    let mut d = decoder(false, mt);
    let (mut pos, mut avail, mut n, mut h) = (0, p.min(s.len()), 0usize, 0u64);
    let mut idle = 0;
    let res = loop {
        let (mut io, mut oo) = (0, 0);
        let r = d.decode(&s[pos..avail], &mut io, &mut obuf, &mut oo);
        pos += io;
        for &b in &obuf[..oo] {
            h = h.wrapping_mul(0x100000001b3) ^ b as u64;
        }
        n += oo;
        idle = if io + oo == 0 { idle + 1 } else { 0 };
        match r {
            DivansResult::Success => break Ok(()),
            DivansResult::Failure(m) => break Err(format!("decoding failed: {:?}", m)),
            DivansResult::NeedsMoreInput => {
                if (pos == s.len() && idle > 0) || idle > 3 {
                    break Err("decoder wants more input than there is".to_string());
                }
                if pos == avail {
                    avail = (avail + p).min(s.len());
                    idle = 0;
                }
            }
            DivansResult::NeedsMoreOutput => {
                if idle > 1000 {
                    break Err("decoder makes no progress".to_string());
                }
            }
        }
    };
    let peak = mem::peak() - base;
    d.free();
    res.map(|_| (n, h, peak))
}
fn hash(d: &[u8]) -> u64 {
    d.iter().fold(0u64, |h, &b| h.wrapping_mul(0x100000001b3) ^ b as u64)
}
/// Compress `n` made-up bytes through the internal compressor, holding only pieces.
fn internal_stream(o: divans::DivansCompressorOptions, seed: u64, style: usize, n: usize, p: usize, on: usize) -> Result<(Vec<u8>, u64, usize), String> {
    let mut out = Vec::with_capacity(3 * n + 100_000);
    let cap = out.capacity();
    let mut obuf = vec![0u8; on];
    let mut ibuf = vec![0u8; p];
    let base = mem::live();
    mem::reset_peak();
    let mut e = internal(o);
    let (mut i, mut h) = (0, 0u64);
    let mut put = |b: &[u8]| {
        if out.len() + b.len() <= cap {
            out.extend_from_slice(b)
        }
    };
    while i < n {
        let k = p.min(n - i);
        for j in 0..k {
            ibuf[j] = byte_at(seed, style, i + j);
            h = h.wrapping_mul(0x100000001b3) ^ ibuf[j] as u64;
        }
        let mut io = 0;
        while io < k {
            let mut oo = 0;
            match e.encode(&ibuf[..k], &mut io, &mut obuf, &mut oo) {
                DivansResult::Failure(m) => return Err(format!("encode failed {:?}", m)),
                _ => put(&obuf[..oo]),
            }
        }
        i += k;
    }
    loop {
        let mut oo = 0;
        let r = e.flush(&mut obuf, &mut oo);
        put(&obuf[..oo]);
        match r {
            DivansOutputResult::Success => break,
            DivansOutputResult::Failure(m) => return Err(format!("flush failed {:?}", m)),
            DivansOutputResult::NeedsMoreOutput => {}
        }
    }
    let peak = mem::peak() - base;
    e.free();
    Ok((out, h, peak))
}
fn style_name(s: usize) -> &'static str {
    ["random", "repeated", "text", "mixed"][s]
}
fn scale(r: &mut Rng, c: &Case) -> usize {
    let top = if c.thorough { 9 << 20 } else { 3 << 20 };
    if r.chance(1, 3) {
        r.range(top / 2, top)
    } else {
        r.logu(20_000, top)
    }
}
fn case(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let mut o = opts::random(r, false).o;
    o.stride_detection_quality = None;
    let lg = if r.chance(2, 3) { r.range(10, 16) } else { r.range(17, 24) };
    o.window_size = Some(lg as i32);
    o.lgblock = Some(*r.pick(&[16u32, 17, 18]));
    let how = r.us(4);
    let (s, h, n, lit, desc);
    match how {
        0 | 1 => {
            let style = r.us(4);
            let seed = r.u64();
            let len = scale(r, c);
            let p = r.logu(1, 65536).max(if len > 300_000 { 500 } else { 1 });
            let on = r.logu(1, 65536).max(if len > 300_000 { 500 } else { 1 });
            let x = internal_stream(o, seed, style, len, p, on).map_err(|e| viol("internal compressor failed", e))?;
            let limit = enc_limit(lg, x.0.len());
            c.eval(1);
            c.seen("internal compressor measured");
            let d = format!("internal, {} bytes {}, window {}, pieces {}, output {}", len, style_name(style), lg, p, on);
            if x.2 > limit {
                return Err(viol("internal compressor holds more memory than its window and its output explain", format!("{} > {} bytes [{} {:?}]", x.2, limit, d, o)));
            }
            // literal commands of the internal compressor are at most what its ring buffer holds
            s = x.0;
            h = x.1;
            n = len;
            lit = 1usize << lg;
            desc = d;
        }
        2 => {
            o.quality = Some(r.us(10) as u16); // the slow searches add time, not memory in the decoder
            o.q9_5 = false;
            let len = (scale(r, c) / 2).min(2 << 20);
            let style = r.us(4);
            let seed = r.u64();
            let d: Vec<u8> = (0..len).map(|i| byte_at(seed, style, i)).collect();
            let mut st = Stats::default();
            let mut e = hybrid(o);
            let x = encode_all(&mut e, &d, &Sched::All, &Sched::All, r, &mut st);
            e.free();
            s = x.map_err(|e| viol("hybrid compressor failed", e))?;
            h = hash(&d);
            n = len;
            lit = len.min(1 << 24); // brotli leaves incompressible data as one literal per meta-block
            desc = format!("hybrid, {} bytes {}, window {}, block {:?}", len, style_name(style), lg, o.lgblock);
        }
        _ => {
            // a few commands that make a lot of output
            let ring = 1usize << lg;
            let mut cs = vec![];
            let mut v: Vec<u8> = vec![];
            let want = scale(r, c) * 4;
            let biggest = r.logu(16, 200_000);
            let src = gen::data(r, 5000).0;
            while v.len() < want {
                let x = if v.is_empty() || r.chance(1, 3) {
                    let m = r.logu(1, biggest);
                    Cmd::Lit((0..m).map(|i| if src.is_empty() || i % 7 == 0 { r.byte() } else { src[i % src.len()] }).collect(), r.bool())
                } else {
                    Cmd::Copy { distance: r.logu(1, v.len().min(ring - 1)) as u32, num: r.logu(1, want / 2) as u32 }
                };
                cmds::push(&mut v, &x).unwrap();
                cs.push(x);
            }
            let dc = cmds::to_divans(&cs);
            let mut st = Stats::default();
            let mut e = internal(o);
            let x = encode_cmds(&mut e, &dc, &Sched::All, &Sched::All, r, &mut st, v.len() * 3 + (1 << 20));
            e.free();
            s = x.map_err(|e| viol("compressor did not take the commands", e))?;
            h = hash(&v);
            n = v.len();
            lit = biggest;
            desc = format!("{} commands, {} bytes, literals to {}, window {}", cs.len(), v.len(), biggest, lg);
        }
    }
    // hold nothing else while measuring
    let p = r.logu(1, 65536).max(if s.len() > 300_000 { 300 } else { 1 });
    let on = r.logu(1, 65536).max(if n > 300_000 { 300 } else { 1 });
    let mt = r.bool();
    let desc = format!("{}; {} compressed, input in pieces of {}, output in pieces of {}, mt={}, {:?}", desc, s.len(), p, on, mt, o);
    let (got, gh, peak) = decode_peak(&s, mt, p, on).map_err(|e| viol("valid stream was not decoded", format!("{} [{}]", e, desc)))?;
    c.eval(1);
    c.distinct(mix(fnv(&s)));
    c.seen(format!("decoded: {}, {}", ["internal", "internal", "hybrid", "commands"][how], if mt { "threads" } else { "serial" }));
    c.seen(format!("window {}", lg));
    c.add("bytes decoded under measurement", got as u64);
    if got != n || gh != h {
        return Err(viol("decoded bytes differ", format!("{} vs {} bytes [{}]", n, got, desc)));
    }
    let limit = dec_limit(lg, lit, p);
    if c.idx < 4 {
        c.sample = Some(format!("{} -> peak {} of {}", desc, peak, limit));
    }
    if peak > limit {
        return Err(viol("decoder holds more memory than its window, literals and input pieces explain", format!("{} > {} bytes [{}]", peak, limit, desc)));
    }
    Ok(())
}
fn enc_limit(lg: usize, out: usize) -> usize {
    // measured: 24.4 MB of models and tables, the ring buffer, as much again for
    // literals (twice while growing), and
    // what is compressed but not yet written: the two streams are interleaved with a bounded lag, so
    // up to a flush all but 131 KB may be held, in buffers that grow by doubling (both sizes at once)
    3 * (1 << lg) + 27 * MB + 6 * out
}
fn dec_limit(lg: usize, lit: usize, p: usize) -> usize {
    // measured: 24.7 MB of models and fixed buffers
    (1 << lg) + lit + 4 * p + 27 * MB
}
pub fn plan() -> Plan {
    Plan {
        prop: "C25",
        quick: 250,
        thorough: 2500,
        rule: "one evaluation = the peak of the process heap (counting global allocator) during one decoding, or one compression with the internal compressor, compared with a bound that depends only on the window, the largest literal command and the size of the input pieces; the decoded bytes are checked too; distinct = distinct streams",
        assumptions: &["the caller offers input in bounded pieces, the next one when the decoder asks for input", "streams are those the project's compressors write"],
        memcap: 6000 * MB,
        workers: 8,
        budget: 120,
        case,
    }
}
