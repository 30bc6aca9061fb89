//! C15: container header, end marker, checksum and trailer, against an independent CRC-32C.
use super::MB;
use crate::drive::*;
use crate::gen;
use crate::opts;
use crate::pool::*;
use crate::rng::{fnv, mix, Rng};
use std::io::{Read, Write};

const MAGIC: [u8; 4] = [0xff, 0xe5, 0x8c, 0x9f];
/// CRC-32C one bit at a time (polynomial 0x1EDC6F41 reflected), nothing shared with the code under test
pub fn crc32c(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0x82f6_3b78 } else { c >> 1 };
        }
    }
    !c
}
fn recrc(s: &mut [u8]) {
    let n = s.len();
    let c = crc32c(&s[..n - 8]);
    s[n - 8..n - 4].copy_from_slice(&[c as u8, (c >> 8) as u8, (c >> 16) as u8, (c >> 24) as u8]);
}
/// compress by one of the public ways; returns (stream, window asked for, description)
pub fn make(r: &mut Rng, d: &[u8], st: &mut Stats) -> Result<(Vec<u8>, Option<i32>, String), String> {
    let mut o = opts::random(r, false).o;
    o.divans_ir_optimizer = 0;
    o.stride_detection_quality = None;
    o.quality = Some(o.quality.unwrap_or(5).max(2).min(7));
    let w = o.window_size;
    let (is, os) = (Sched::random(r, d.len()), Sched::random(r, d.len()));
    let how = r.us(6);
    let desc = format!("{} in {:?} out {:?} {:?}", ["hybrid", "internal", "Reader", "Writer", "C", "Reader internal"][how], is, os, o);
    let s = match how {
        0 => encode_all(&mut hybrid(o), d, &is, &os, r, st)?,
        1 => encode_all(&mut internal(o), d, &is, &os, r, st)?,
        2 | 5 => {
            let mut v = vec![];
            let bs = r.logu(1, 5000);
            let x = if how == 2 {
                divans::DivansBrotliHybridCompressorReader::new(std::io::Cursor::new(d), o, bs).read_to_end(&mut v)
            } else {
                divans::DivansExperimentalCompressorReader::new(std::io::Cursor::new(d), o, bs).read_to_end(&mut v)
            };
            x.map_err(|e| format!("{:?}", e))?;
            v
        }
        3 => {
            let mut v = vec![];
            {
                let mut w = divans::DivansBrotliHybridCompressorWriter::new(&mut v, o, r.logu(1, 5000));
                w.write_all(d).and_then(|_| w.flush()).map_err(|e| format!("{:?}", e))?;
            }
            v
        }
        _ => {
            let mut c = crate::ffi::CEnc::new();
            if let Some(w) = w {
                c.set(2, w as u32);
            }
            c.set(1, 5);
            encode_all(&mut c, d, &is, &os, r, st)?
        }
    };
    Ok((s, w, desc))
}
#[derive(PartialEq, Debug)]
enum Got {
    Refused,
    Asks,
    Done(bool),
    Odd(String),
}
fn offer(s: &[u8], d: &[u8], skip: bool, mt: bool, r: &mut Rng, st: &mut Stats) -> Got {
    let is = match r.us(4) {
        0 => Sched::Fixed(1),
        1 => Sched::Rand { max: 20, zero: 2 },
        _ => Sched::All,
    };
    let os = if r.bool() { Sched::Fixed(d.len().max(1)) } else { Sched::Fixed(65536) };
    let x = if r.chance(1, 6) {
        let mut c = crate::ffi::CDec(unsafe { crate::ffi::divans_new_decompressor_with_custom_alloc(crate::ffi::CAlloc::none(), if skip { *r.pick(&[1, 1, 2, 0xf0, 255]) } else { 0 }, mt as u8) });
        decode_with(|i, io, o, oo| c.decode(i, io, o, oo), s, &is, &os, r, st, d.len() + 100_000)
    } else {
        decode_all(s, skip, mt, &is, &os, r, st, d.len() + 100_000)
    };
    match x.end {
        End::Success => Got::Done(x.out == d),
        End::Failed(_) => Got::Refused,
        End::WantsInput => Got::Asks,
        e => Got::Odd(format!("{:?}", e)),
    }
}
fn case(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let mut st = Stats::default();
    let max = if r.chance(1, 5) { 40_000 } else { 800 };
    let (d, fam) = gen::data(r, max);
    let (s, w, desc) = make(r, &d, &mut st).map_err(|e| viol("compression of ordinary data failed", format!("{} ({} {})", e, fam, d.len())))?;
    let n = s.len();
    c.distinct(mix(fnv(&s)));
    c.eval(1);
    c.seen(format!("made by {}", desc.split(' ').next().unwrap()));
    if c.idx < 5 {
        c.sample = Some(format!("{} bytes {} -> {} stream bytes, header {:02x?}, trailer {:02x?}", d.len(), fam, n, &s[..16.min(n)], &s[n.saturating_sub(11)..]));
    }
    if n < 16 + 3 + 8 || s[..4] != MAGIC {
        return Err(viol("stream does not start with the magic", format!("{:02x?} {}", &s[..n.min(16)], desc)));
    }
    if s[5] < 10 || s[5] > 24 {
        return Err(viol("announced window size outside 10 to 24", format!("{} {}", s[5], desc)));
    }
    if s[5] as i32 != w.unwrap_or(22) {
        return Err(viol("announced window size is not the one in use", format!("{} asked {:?} {}", s[5], w, desc)));
    }
    c.seen(format!("window {}", s[5]));
    if s[4] != 0 || s[6..16].iter().any(|b| *b != 0) {
        return Err(viol("unused header bytes are not zero", format!("{:02x?} {}", &s[..16], desc)));
    }
    if s[n - 4..] != *b"ans~" {
        return Err(viol("stream does not end with the trailer magic", format!("{:02x?} {}", &s[n - 12..], desc)));
    }
    if s[n - 11..n - 8] != [0xff, 0xfe, 0xff] {
        return Err(viol("end marker missing before the checksum", format!("{:02x?} {}", &s[n - 12..], desc)));
    }
    let want = crc32c(&s[..n - 8]);
    let have = u32::from(s[n - 8]) | u32::from(s[n - 7]) << 8 | u32::from(s[n - 6]) << 16 | u32::from(s[n - 5]) << 24;
    if want != have {
        return Err(viol("checksum is not the CRC-32C of the stream", format!("{:08x} should be {:08x} over {} bytes {}", have, want, n - 8, desc)));
    }
    c.add("checksummed bytes", n as u64 - 8);
    let mut ask = |s: &[u8], skip: bool, must: bool, what: &str, r: &mut Rng, st: &mut Stats| -> Result<(), Viol> {
        let mt = r.chance(1, 5);
        let g = offer(s, &d, skip, mt, r, st);
        c.eval(1);
        let class = what.split(':').next().unwrap();
        c.seen(format!("{}{}", class, if skip { " (skip_crc)" } else { "" }));
        match (must, &g) {
            (true, Got::Done(true)) | (false, Got::Refused) => Ok(()),
            (true, _) => Err(viol(format!("{}: refused or misread", class), format!("{} skip={} mt={}: {:?} {}", what, skip, mt, g, desc))),
            (false, _) => Err(viol(format!("{}: not refused", class), format!("{} skip={} mt={}: {:?} {}", what, skip, mt, g, desc))),
        }
    };
    for skip in [false, true] {
        ask(&s, skip, true, "intact stream", r, &mut st)?;
    }
    let alter = |r: &mut Rng, b: u8| -> u8 {
        if r.bool() {
            b ^ (1 << r.us(8))
        } else {
            b.wrapping_add(r.range(1, 255) as u8)
        }
    };
    // magic: refused whatever the checksum says
    for at in 0..4 {
        let mut m = s.clone();
        m[at] = alter(r, m[at]);
        if r.bool() {
            recrc(&mut m);
        }
        ask(&m, r.bool(), false, &format!("wrong magic byte: {} = {:02x}", at, m[at]), r, &mut st)?;
    }
    // window: everything outside 10..=24 refused; inside only the checksum can tell
    for k in 0..12 {
        let v = match k {
            0 => 9u8,
            1 => 25,
            2 => 0,
            3 => 255,
            4 => s[5].wrapping_add(32),
            5 => s[5] | 128,
            _ => r.byte(),
        };
        let mut m = s.clone();
        m[5] = v;
        if v < 10 || v > 24 {
            if r.bool() {
                recrc(&mut m);
            }
            ask(&m, r.bool(), false, &format!("window out of range: {}", v), r, &mut st)?;
        } else if v > s[5] {
            // a larger window than needed decodes alike, so only the checksum can refuse it
            ask(&m, false, false, &format!("window altered under the checksum: {}", v), r, &mut st)?;
        }
    }
    // bytes nobody reads are still under the checksum
    for at in [4usize, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15] {
        if r.chance(1, 2) {
            let mut m = s.clone();
            m[at] = alter(r, m[at]);
            ask(&m, false, false, &format!("header byte altered under the checksum: {}", at), r, &mut st)?;
            recrc(&mut m);
            ask(&m, false, true, &format!("unused header byte with matching checksum: {}", at), r, &mut st)?;
        }
    }
    // checksum value
    for k in 0..4 {
        let mut m = s.clone();
        m[n - 8 + k] = alter(r, m[n - 8 + k]);
        ask(&m, false, false, &format!("wrong checksum byte: {} = {:02x}", k, m[n - 8 + k]), r, &mut st)?;
        ask(&m, true, true, &format!("wrong checksum ignored: {}", k), r, &mut st)?;
    }
    for k in 0..3 {
        let mut m = s.clone();
        match k {
            0 => m[n - 8..n - 4].iter_mut().for_each(|b| *b = 0),
            1 => m[n - 8..n - 4].reverse(),
            _ => m[n - 8..n - 4].iter_mut().for_each(|b| *b = !*b),
        }
        if m != s {
            ask(&m, false, false, &format!("whole checksum replaced: {}", k), r, &mut st)?;
            ask(&m, true, true, &format!("whole checksum replaced and ignored: {}", k), r, &mut st)?;
        }
    }
    // trailer magic, with and without checksum checking
    for k in 4..8 {
        for skip in [false, true] {
            let mut m = s.clone();
            m[n - 8 + k] = alter(r, m[n - 8 + k]);
            ask(&m, skip, false, &format!("wrong trailer magic byte: {} = {:02x}", k, m[n - 8 + k]), r, &mut st)?;
        }
    }
    Ok(())
}
pub fn plan() -> Plan {
    Plan { prop: "C15", quick: 700, thorough: 100_000, rule: "one evaluation = one stream from a public compressor path compared byte for byte with the container layout (magic, window, end marker, independently computed CRC-32C, trailer magic), or one alteration of a header or trailer byte offered to a decoder and its verdict compared with the one required; distinct = distinct streams", assumptions: &[], memcap: 3000 * MB, workers: 8, budget: 60, case }
}
