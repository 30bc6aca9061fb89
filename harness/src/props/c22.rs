//! C22: option values inside and outside their documented ranges.
use super::MB;
use crate::drive::*;
use crate::ffi::*;
use crate::gen;
use crate::opts;
use crate::pool::*;
use crate::rng::{fnv, mix, Rng};
use divans::{BrotliCompressionSetting, DivansCompressorOptions, LiteralPredictionModeNibble, Speed};

fn wild32(r: &mut Rng) -> u32 {
    match r.us(8) {
        0 => r.u32(),
        1 => *r.pick(&[u32::MAX, 1 << 31, (1 << 31) - 1, 1 << 16, 65535, 32768, 32767, 256, 255, 128, 127]),
        2 => r.u32() & 0xffff,
        3 => 256 + r.us(32) as u32,
        4 => 0u32.wrapping_sub(r.us(30) as u32),
        _ => r.us(40) as u32,
    }
}
fn wild_speed(r: &mut Rng) -> Speed {
    let mut v = || -> i16 {
        match r.us(4) {
            0 => (r.u32() as i16).min(0x4800),
            1 => *r.pick(&[i16::MIN, -1, 0, 1, 0x4000, 0x3fff, 0x2000, -0x4000]),
            2 => -(r.us(300) as i16),
            _ => r.range(0, 0x4000) as i16,
        }
    };
    let (a, b) = (v(), v());
    Speed::new(a, b)
}
/// (options, description of the fields outside their ranges)
fn wild(r: &mut Rng) -> (DivansCompressorOptions, String) {
    let mut o = opts::random(r, true).o;
    o.stride_detection_quality = None;
    let mut odd = String::new();
    let n = r.range(1, 4);
    for _ in 0..n {
        match r.us(13) {
            0 => {
                o.window_size = Some(wild32(r) as i32);
                odd += &format!("window {:?} ", o.window_size);
            }
            1 => {
                o.lgblock = Some(wild32(r));
                odd += &format!("lgblock {:?} ", o.lgblock);
            }
            2 => {
                o.quality = Some(wild32(r) as u16);
                odd += &format!("quality {:?} ", o.quality);
            }
            3 => {
                o.dynamic_context_mixing = Some(wild32(r) as u8);
                odd += &format!("mixing {:?} ", o.dynamic_context_mixing);
            }
            4 => {
                o.prior_depth = Some(wild32(r) as u8);
                odd += &format!("depth {:?} ", o.prior_depth);
            }
            5 => {
                o.prior_bitmask_detection = wild32(r) as u8;
                odd += &format!("bitmask {:?} ", o.prior_bitmask_detection);
            }
            6 => {
                o.speed_detection_quality = Some(wild32(r) as u8);
                odd += &format!("speedq {:?} ", o.speed_detection_quality);
            }
            7 => {
                o.brotli_literal_byte_score = Some(wild32(r));
                odd += &format!("score {:?} ", o.brotli_literal_byte_score);
            }
            8 | 9 => {
                o.literal_adaptation = Some([wild_speed(r), wild_speed(r), wild_speed(r), wild_speed(r)]);
                odd += "speeds ";
            }
            10 => {
                o.force_literal_context_mode = Some(LiteralPredictionModeNibble(wild32(r) as u8));
                odd += &format!("mode {:?} ", o.force_literal_context_mode);
            }
            11 => {
                o.divans_ir_optimizer = wild32(r) as u8;
                odd += &format!("ir {:?} ", o.divans_ir_optimizer);
            }
            _ => {
                o.use_brotli = *r.pick(&[BrotliCompressionSetting::UseInternalCommandSelection, BrotliCompressionSetting::UseBrotliBitstream, BrotliCompressionSetting::UseBrotliCommandSelection]);
                odd += "use_brotli ";
            }
        }
    }
    (o, odd)
}
fn case(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let max = if r.chance(1, 8) { 30_000 } else { 3000 };
    let (d, fam) = gen::data(r, max);
    let (is, os) = (Sched::random(r, d.len()), Sched::random(r, d.len()));
    let mut st = Stats::default();
    let how = r.us(4);
    let desc;
    let odd;
    let enc = match how {
        0 | 1 => {
            let (o, s) = wild(r);
            odd = s;
            desc = format!("{} {:?}", ["hybrid", "internal"][how], o);
            if how == 0 {
                let mut e = hybrid(o);
                let x = encode_all(&mut e, &d, &is, &os, r, &mut st);
                e.free();
                x
            } else {
                let mut e = internal(o);
                let x = encode_all(&mut e, &d, &is, &os, r, &mut st);
                e.free();
                x
            }
        }
        2 => {
            let (o, s) = wild(r);
            odd = s;
            desc = format!("C for {:?}", o);
            let mut e = CEnc::new();
            let i = r.bool();
            for (s, v) in selectors(&o, i) {
                e.set(s, v);
            }
            encode_all(&mut e, &d, &is, &os, r, &mut st)
        }
        _ => {
            // selectors and values at random
            let mut e = CEnc::new();
            let mut l = String::new();
            let n = r.range(1, 8);
            let mut refused = 0;
            for _ in 0..n {
                let sel = if r.chance(1, 10) { r.u32() as u8 } else { r.range(0, 22) as u8 };
                if sel == 10 {
                    continue; // stride detection: see C01
                }
                let v = if r.bool() { r.us(20) as u32 } else { wild32(r) };
                let x = e.set(sel, v);
                l += &format!("set({}, {})={} ", sel, v, x);
                if x != OK && x != FAIL {
                    return Err(viol("divans_set_option returned neither success nor failure", l));
                }
                if x == FAIL {
                    refused += 1;
                }
                if (sel == 0 || sel > 20) && x == OK {
                    return Err(viol("divans_set_option accepted an unknown option", l));
                }
            }
            c.add("set_option refused", refused);
            odd = l.clone();
            desc = format!("C {}", l);
            let x = encode_all(&mut e, &d, &is, &os, r, &mut st);
            // options are for before the work
            if e.set(1, 5) != FAIL {
                return Err(viol("divans_set_option accepted an option after compression began", l));
            }
            x
        }
    };
    let desc = format!("{} bytes {}, odd: {}, in {:?} out {:?}, {}", d.len(), fam, odd, is, os, desc);
    c.eval(1);
    c.seen(["via hybrid", "via internal", "via C, mapped", "via C, random selectors"][how]);
    for w in odd.split(' ').filter(|w| w.chars().all(|c| c.is_alphabetic()) && w.len() > 1) {
        c.seen(format!("option {}", w));
    }
    if c.idx < 8 {
        c.sample = Some(format!("{} -> {:?}", desc, enc.as_ref().map(|e| e.len())));
    }
    match enc {
        Err(e) => {
            if e.starts_with("encode failed") || e.starts_with("flush failed") {
                c.seen("outcome: failure reported");
                return Ok(());
            }
            Err(viol("compressor neither failed nor finished", format!("{} [{}]", e, desc)))
        }
        Ok(s) => {
            c.seen("outcome: stream");
            c.distinct(mix(fnv(&s)));
            if s.len() < 16 || s[5] < 10 || s[5] > 24 {
                return Err(viol("window size outside 10 to 24 announced", format!("{:?} [{}]", s.get(5), desc)));
            }
            c.seen(format!("window {}", s[5]));
            let (is, os) = (Sched::random(r, s.len()), Sched::random(r, d.len()));
            let x = decode_all(&s, false, r.chance(1, 4), &is, &os, r, &mut st, d.len() + 100_000);
            if x.end != End::Success {
                return Err(viol("accepted options gave a stream that does not decode", format!("{:?} after {} bytes [{}]", x.end, x.out.len(), desc)));
            }
            if x.out != d {
                return Err(viol("accepted options gave a stream that decodes to other bytes", format!("{} [{}]", first_diff(&d, &x.out), desc)));
            }
            Ok(())
        }
    }
}
pub fn plan() -> Plan {
    Plan {
        prop: "C22",
        quick: 2500,
        thorough: 60_000,
        rule: "one evaluation = one compressor made with one to several option values anywhere in their types' ranges (Rust options, and C option calls with arbitrary selectors and values), fed data to the end: a failure must be reported or the stream must decode to the data; distinct = distinct compressed streams",
        assumptions: &["stride detection is left off (known finding of C01: it panics inside the brotli dependency)"],
        memcap: 6000 * MB,
        workers: 8,
        budget: 90,
        case,
    }
}
