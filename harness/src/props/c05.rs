//! hostile inputs to the decoder
use super::MB;
use crate::drive::*;
use crate::gen;
use crate::mem;
use divans::Decompressor;
use crate::opts;
use crate::pool::*;
use crate::rng::{fnv, mix, Rng};

/// a stream of these commands, by either compressor
pub fn encode_cs(r: &mut Rng, cs: &[crate::cmds::Cmd], lg: usize, n: usize) -> Result<Vec<u8>, String> {
    let mut o = opts::random(r, false).o;
    o.stride_detection_quality = None;
    o.window_size = Some(lg as i32);
    let dc = crate::cmds::to_divans(cs);
    let mut st = Stats::default();
    let bound = n * 2 + cs.len() * 40 + (1 << 20);
    if r.bool() {
        let mut e = hybrid(o);
        let x = encode_cmds(&mut e, &dc, &Sched::All, &Sched::All, r, &mut st, bound);
        e.free();
        x
    } else {
        let mut e = internal(o);
        let x = encode_cmds(&mut e, &dc, &Sched::All, &Sched::All, r, &mut st, bound);
        e.free();
        x
    }
}
/// A valid stream made with small effort, both compressors.
pub fn valid(r: &mut Rng, max: usize) -> (Vec<u8>, Vec<u8>, String) {
    loop {
        if r.chance(1, 4) {
            // the whole command space
            let lg = *r.pick(&[10usize, 12, 16, 22]);
            let maxout = r.logu(1, max.max(1));
            let g = crate::cmds::G { maxdist: (1 << lg) - 1, maxout, maxcmds: *r.pick(&[8, 40, 300]), modes: r.chance(7, 8), empty: r.chance(1, 4) };
            let (cs, want) = crate::cmds::gen(r, &g);
            if let Ok(e) = encode_cs(r, &cs, lg, want.len()) {
                return (want, e, format!("{} commands, {} bytes, window {}", cs.len(), maxout, lg));
            }
            continue;
        }
        let (d, fam) = gen::data(r, max);
        let mut o = opts::random(r, false);
        if o.o.quality.unwrap_or(5) > 7 {
            o.o.quality = Some(5);
        }
        if o.o.quality.unwrap_or(5) < 2 {
            o.o.quality = Some(2);
        }
        o.o.divans_ir_optimizer = 0;
        o.o.stride_detection_quality = None;
        let mut st = Stats::default();
        let hyb = r.bool();
        let desc = format!("{} {} {} {:?}", if hyb { "hyb" } else { "int" }, fam, d.len(), o.o);
        let e = if hyb {
            let mut e = hybrid(o.o);
            encode_all(&mut e, &d, &Sched::All, &Sched::All, r, &mut st)
        } else {
            o.o.window_size = Some(22);
            let mut e = internal(o.o);
            encode_all(&mut e, &d, &Sched::All, &Sched::All, r, &mut st)
        };
        if let Ok(e) = e {
            return (d, e, desc);
        }
    }
}
/// returns a description of the damage
pub fn mutate(r: &mut Rng, s: &mut Vec<u8>) -> String {
    let mut d = Vec::new();
    let n = if r.chance(1, 2) { 1 } else { r.range(1, 6) };
    for _ in 0..n {
        if s.is_empty() {
            break;
        }
        let l = s.len();
        // bias to the front: the command nibbles decide most
        let p = match r.us(4) {
            0 => r.us(l),
            1 => 16 + r.us(64),
            2 => r.us(24),
            _ => l.saturating_sub(1 + r.us(24)),
        }
        .min(l - 1);
        match r.us(8) {
            0 => {
                s[p] ^= 1 << r.us(8);
                d.push(format!("bit@{}", p));
            }
            1 => {
                s[p] = r.byte();
                d.push(format!("byte@{}", p));
            }
            2 => {
                let k = r.logu(1, 64).min(l - p);
                s.drain(p..p + k);
                d.push(format!("del {}@{}", k, p));
            }
            3 => {
                let k = r.logu(1, 64);
                let mut x = vec![0u8; k];
                r.fill(&mut x);
                let t = s.split_off(p);
                s.extend_from_slice(&x);
                s.extend_from_slice(&t);
                d.push(format!("ins {}@{}", k, p));
            }
            4 => {
                let k = r.logu(1, 400).min(l - p);
                let v = *r.pick(&[0u8, 0xff, 0xf0, 0x0f, 0xfe]);
                for b in s[p..p + k].iter_mut() {
                    *b = v;
                }
                d.push(format!("fill {:#x} {}@{}", v, k, p));
            }
            5 => {
                let k = r.logu(1, 400).min(l - p);
                let q = r.us(l - k + 1);
                let t: Vec<u8> = s[q..q + k].to_vec();
                s[p..p + k].copy_from_slice(&t);
                d.push(format!("copy {}@{}<-{}", k, p, q));
            }
            6 => {
                let k = r.logu(1, 4000).min(l - p);
                let mut x = vec![0u8; k];
                r.fill(&mut x);
                s[p..p + k].copy_from_slice(&x);
                d.push(format!("noise {}@{}", k, p));
            }
            _ => {
                s.truncate(p);
                d.push(format!("cut@{}", p));
            }
        }
    }
    d.join(",")
}
/// A stream with every checksum right whose commands are invalid, or reach further back than its window.
pub fn invalid_commands(r: &mut Rng) -> (Vec<u8>, String) {
    loop {
        let lg = r.range(11, 22);
        let maxout = r.logu(1, 60_000);
        let g = crate::cmds::G { maxdist: (1 << lg) - 1, maxout, maxcmds: *r.pick(&[8, 40, 300]), modes: r.bool(), empty: r.chance(1, 4) };
        let (mut cs, want) = crate::cmds::gen(r, &g);
        let mut desc = format!("{} commands", cs.len());
        // the encoder interprets nothing but the distance of copies, so these reach the decoder as they are
        if r.bool() {
            let (mode, k) = (r.us(3), r.us(cs.len()));
            match (&mut cs[k], mode) {
                (crate::cmds::Cmd::Copy { distance, .. }, 0) => *distance = (r.u32() >> r.us(31)).max(1).min(1 << 24),
                (crate::cmds::Cmd::Copy { num, .. }, _) => *num = r.u32() >> r.range(6, 31),
                (crate::cmds::Cmd::Dict { fin, .. }, 0) => *fin = r.byte(),
                (crate::cmds::Cmd::Dict { transform, .. }, 1) => *transform = r.byte(),
                (crate::cmds::Cmd::Dict { id, .. }, _) => *id = r.u32() >> r.range(8, 31),
                _ => {}
            }
            desc += ", one changed";
        }
        let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| encode_cs(r, &cs, lg, want.len() + 100_000)));
        let mut s = match e {
            Ok(Ok(s)) => s,
            _ => {
                // commands that cannot be written down
                crate::pool::forget_panics();
                continue;
            }
        };
        if r.bool() {
            s[5] = r.range(10, lg) as u8;
            desc += &format!(", window {} said to be {}", lg, s[5]);
            let n = s.len() - 8;
            let crc = super::c15::crc32c(&s[..n]);
            s[n..n + 4].copy_from_slice(&crc.to_le_bytes());
        }
        return (s, desc);
    }
}
/// hostile stream: valid framing with random payload, mutation of a valid stream, or noise
pub fn hostile(r: &mut Rng) -> (Vec<u8>, String) {
    match r.us(7) {
        6 => invalid_commands(r),
        0 => {
            let n = r.logu(0, 3000);
            let mut v = vec![0u8; n];
            r.fill(&mut v);
            (v, format!("noise {}", n))
        }
        1 | 2 => {
            // header + mux packets of random bytes
            let mut v = vec![0xff, 0xe5, 0x8c, 0x9f, 0, if r.chance(1, 10) { r.byte() } else { r.range(10, 24) as u8 }];
            v.extend_from_slice(&[0; 10]);
            let np = r.range(1, 12);
            for _ in 0..np {
                let id = r.us(2) as u8;
                let n = r.logu(1, 3000);
                if r.bool() {
                    v.push(id);
                    v.push(((n - 1) & 0xff) as u8);
                    v.push(((n - 1) >> 8) as u8);
                    let z = r.us(3);
                    for _ in 0..n {
                        v.push(match z {
                            0 => r.byte(),
                            1 => 0,
                            _ => 0xff ^ (r.byte() & r.byte() & r.byte()),
                        });
                    }
                } else {
                    let sz = r.range(1, 3);
                    v.push(id | ((sz as u8) << 4));
                    for _ in 0..(1024 << (sz as usize * 2)).min(70_000) {
                        v.push(r.byte());
                    }
                }
            }
            if r.bool() {
                v.extend_from_slice(&[0xff, 0xfe, 0xff]);
                for _ in 0..4 {
                    v.push(r.byte());
                }
                v.extend_from_slice(b"ans~");
            }
            (v, format!("framed noise, {} packets", np))
        }
        _ => {
            let (_, mut s, desc) = valid(r, 6000);
            let m = mutate(r, &mut s);
            (s, format!("{} of {}", m, desc))
        }
    }
}
fn case(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    // case 0: a recorded stream whose first literal claims 4 GB (known finding)
    let (s, desc) = if c.idx == 0 { (include_bytes!("../../data/bigliteral.bin").to_vec(), "recorded: literal of 4 GB".to_string()) } else { hostile(r) };
    let mt = false;
    let (is, os) = (Sched::random(r, s.len()), Sched::random(r, 100_000));
    let skip = r.bool();
    let mut st = Stats::default();
    if std::env::var("VH_DUMP").is_ok() {
        let _ = std::fs::write("/tmp/hostile.bin", &s);
    }
    // the heap the decoder holds, told apart from what this loop holds
    let (mut held, mut peak, mut req) = (0i64, 0i64, 0usize);
    let l0 = mem::live();
    let mut q = decoder(skip, mt);
    held += mem::live() as i64 - l0 as i64;
    let d = decode_with(
        |i, io, o, oo| {
            let l = mem::live() as i64;
            mem::reset_peak();
            mem::take_request();
            let x = q.decode(i, io, o, oo);
            peak = peak.max(held + mem::peak() as i64 - l);
            held += mem::live() as i64 - l;
            req = req.max(mem::take_request());
            x
        },
        &s,
        &is,
        &os,
        r,
        &mut st,
        8 * MB,
    );
    q.free();
    let window = if s.len() > 5 && s[5] <= 24 { 1i64 << s[5] } else { 0 };
    // 24 MB of tables whatever the stream says; a literal shows as the largest single request, if larger than those
    // of the tables (then it hides among them), and may be held in three places
    let bound = (30i64 << 20) + window + 4 * s.len() as i64 + 3 * (req as i64).max(10 << 20);
    c.seen(format!("heap held at most {}0 % of its bound", 10 * peak / bound + 1));
    c.seen(format!("stream: {}", desc.split(|x: char| x.is_ascii_digit() || x == ' ' || x == '@' || x == ',').find(|x| !x.is_empty()).unwrap_or("")));
    c.eval(1);
    c.distinct(mix(fnv(&s)));
    c.seen(format!("end:{}", d.kind()));
    c.add("bytes out", d.out.len() as u64);
    if c.idx < 6 {
        c.sample = Some(format!("{} ({} bytes) -> {:?}, {} bytes out", desc, s.len(), d.end, d.out.len()));
    }
    if held != 0 {
        c.seen("decoder held memory");
    }
    if peak > bound {
        return Err(viol("the decoder holds more memory than window, input and largest literal account for", format!("{} bytes; bound {}, window {}, largest request {}, stream {} [{} skip={} {:?} {:?}]", peak, bound, window, req, s.len(), desc, skip, is, os)));
    }
    if let End::Proto(p) = d.end {
        return Err(viol(format!("protocol: {}", p.chars().take(60).collect::<String>()), format!("{} [{} skip={} {:?} {:?}]", p, desc, skip, is, os)));
    }
    Ok(())
}
pub fn plan() -> Plan {
    Plan { prop: "C05", quick: 6000, thorough: 200_000, rule: "one evaluation = one hostile stream (noise, framed noise, or 1-6 mutations of a valid stream) decoded under one random chunking with panics, overflow checks, heap cap, CPU limit and offset monitor armed; distinct = distinct byte strings", assumptions: &[], memcap: 700 * MB, workers: 8, budget: 90, case }
}

/// damage aimed at the places where acceptance is decided: literal bytes, end marker, checksum
fn damage(r: &mut Rng, s: &mut Vec<u8>, other: &[u8]) -> String {
    let l = s.len();
    match r.us(7) {
        6 if other.len() > 30 && other[..other.len() - 8] != s[..l - 8] => {
            // another stream whole, with a checksum that is nearly its own
            let n = other.len() - 8;
            let own = super::c15::crc32c(&other[..n]);
            let near = match r.us(5) {
                0 => own ^ 1 << r.us(32),
                1 => own ^ (r.range(1, 255) as u32) << (8 * r.us(4)),
                2 => !own,
                3 => own.swap_bytes(),
                _ => own.wrapping_add(1 + r.us(3) as u32),
            };
            let mut v = other.to_vec();
            v[n..n + 4].copy_from_slice(&near.to_le_bytes());
            if near != own {
                *s = v;
            }
            "nearly right checksum".into()
        }
        0 if l > 30 => {
            // the checksum itself
            let p = l - 8 + r.us(4);
            s[p] ^= 1 << r.us(8);
            format!("checksum bit@{}", p)
        }
        1 if l > 30 => {
            // one bit somewhere in the packets
            let p = 16 + r.us(l - 16);
            s[p] ^= 1 << r.us(8);
            format!("bit@{}", p)
        }
        2 if l > 30 && other.len() > 30 => {
            // another stream's body before this one's trailer, or the other way round
            let (a, b) = if r.bool() { (other, &s[..]) } else { (&s[..], other) };
            let mut v = a[..a.len() - 8].to_vec();
            v.extend_from_slice(&b[b.len() - 8..]);
            *s = v;
            "trailer of another stream".into()
        }
        3 if l > 60 => {
            // swap two bytes
            let (p, q) = (16 + r.us(l - 16), 16 + r.us(l - 16));
            s.swap(p, q);
            format!("swap {} {}", p, q)
        }
        _ => mutate(r, s),
    }
}
fn case_corrupt(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let (d, s, desc) = valid(r, 6000);
    let (_, other, _) = valid(r, 600);
    c.distinct(mix(fnv(&s)));
    let mut st = Stats::default();
    for k in 0..8 {
        let mut s2 = s.clone();
        let m = damage(r, &mut s2, &other);
        if s2 == s {
            continue;
        }
        let is = Sched::random(r, s2.len());
        // output space: among others exactly what the original needs, so that the checksum is reached with a full buffer
        let os = match r.us(5) {
            0 => Sched::Fixed(d.len().max(1)),
            1 => Sched::List(vec![d.len().saturating_sub(1), 1, 0, 1]),
            2 => Sched::Fixed(r.range(1, 40)),
            _ => Sched::random(r, d.len()),
        };
        let path = r.us(5);
        let cap = d.len() + 30_000;
        let (ok, out, name) = match path {
            0 => {
                let mut x = super::c03::cdec(r, false);
                let d = decode_with(|i, io, o, oo| x.decode(i, io, o, oo), &s2, &is, &os, r, &mut st, cap);
                (d.end == End::Success, d.out, "C decoder")
            }
            1 => {
                let (o, e) = super::c03::via_reader(&s2, r.logu(1, 9000), false, false, &os, r, cap);
                (e.is_none(), o, "Read adapter")
            }
            2 => {
                let (o, e) = super::c03::via_writer(&s2, r.logu(1, 9000), false, false, &is, r);
                // the Write adapter cannot tell the end of the stream from a pause: it accepts when it reports
                // no error although the decoder, given the same bytes, gets to the end of the stream
                let x = decode_simple(&s2, false, cap);
                (e.is_none() && (x.end == End::Success || format!("{:?}", x.end).contains("Checksum")), o, "Write adapter")
            }
            3 if k == 0 => {
                let x = decode_all(&s2, false, true, &is, &os, r, &mut st, cap);
                (x.end == End::Success, x.out, "threaded decoder")
            }
            _ => {
                let x = decode_all(&s2, false, false, &is, &os, r, &mut st, cap);
                (x.end == End::Success, x.out, "decoder")
            }
        };
        c.eval(1);
        c.seen(format!("{}: {}", name, if ok { "accepted" } else { "not accepted" }));
        c.seen(format!("damage: {}", m.split(|x: char| x == '@' || x.is_ascii_digit() || x == ',').next().unwrap_or("")));
        if out.len() >= d.len() {
            c.seen("as many bytes as the original came out");
        }
        if ok && out != d {
            return Err(viol(format!("corrupted stream accepted by the {} with other bytes", name), format!("{}; {}; in {:?} out {:?}; {}", m, first_diff(&d, &out), is, os, desc)));
        }
        if ok && m.starts_with("checksum") {
            return Err(viol(format!("wrong checksum accepted by the {}", name), format!("{}; in {:?} out {:?}; {}", m, is, os, desc)));
        }
    }
    if c.idx < 6 {
        c.sample = Some(format!("{} stream bytes of {}", s.len(), desc));
    }
    Ok(())
}
pub fn plan_corrupt() -> Plan {
    Plan { prop: "C06", quick: 4000, thorough: 100_000, rule: "one evaluation = one altered stream (bit, byte, range, splice, foreign trailer, checksum bits) decoded by one path under one chunking with CRC checking on; accepted only if the bytes equal the original's; distinct = distinct original streams (8 alterations each)", assumptions: &["a 32-bit checksum collision (2^-32 per corrupted stream) would be reported wrongly", "the Write adapter has no end-of-stream call; bytes it hands on before an error are not an acceptance"], memcap: 30_000 * MB, workers: 8, budget: 90, case: case_corrupt }
}
