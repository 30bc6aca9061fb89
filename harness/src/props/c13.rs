//! C13: the entropy coder on its own, driven with arbitrary valid distributions. C14: the adaptive models on their own.
use super::MB;
use crate::drive::{DefaultDecoder, DefaultEncoder};
use crate::pool::*;
use crate::rng::{fnv, mix, Rng};
use alloc_stdlib::HeapAlloc;
use divans::interface::{ReadableBytes, WritableBytes};
use divans::{ArithmeticEncoderOrDecoder, BaseCDF, DefaultCDF16, DivansResult, NewWithAllocator, Speed, CDF16};

const SCALE: i32 = 1 << 15;

/// any strictly increasing distribution, wide and narrow ones included
#[derive(Clone, Copy, Default, Debug)]
struct AnyCdf {
    c: [i16; 16],
}
impl BaseCDF for AnyCdf {
    fn num_symbols() -> u8 {
        16
    }
    fn cdf(&self, s: u8) -> i16 {
        self.c[s as usize & 15]
    }
    fn div_by_max(&self, v: i32) -> i32 {
        v / self.c[15] as i32
    }
    fn max(&self) -> i16 {
        self.c[15]
    }
    fn log_max(&self) -> Option<i8> {
        None
    }
}
impl CDF16 for AnyCdf {
    fn blend(&mut self, _s: u8, _d: Speed) {}
    fn average(&self, _o: &Self, _m: i32) -> Self {
        *self
    }
}
/// pdf * 32768 / max >= 2 keeps every symbol codable (that is what C14 checks of the real models)
fn any_cdf(r: &mut Rng) -> AnyCdf {
    let mut c = [0i16; 16];
    let max = match r.us(4) {
        0 => r.range(64, 200),
        1 => r.range(8192, 16000),
        2 => *r.pick(&[64usize, 128, 256, 1024, 4096, 8192]),
        _ => r.logu(64, 16000),
    };
    let hot = r.us(16);
    let style = r.us(3);
    let mut w = [0usize; 16];
    for (i, x) in w.iter_mut().enumerate() {
        *x = match style {
            0 => r.range(1, 1000),
            1 => {
                if i == hot {
                    1_000_000
                } else {
                    1
                }
            }
            _ => r.logu(1, 1_000_000),
        };
    }
    // at least two units each
    let spare = max - 32;
    let total: usize = w.iter().sum();
    let mut acc = 0;
    let mut cum = 0;
    for i in 0..16 {
        cum += w[i];
        acc = 2 * (i + 1) + spare * cum / total;
        c[i] = acc as i16;
    }
    debug_assert_eq!(acc, max);
    AnyCdf { c }
}

enum Sym {
    Bit(bool, u8),
    Any(u8, AnyCdf),
    Model(u8, usize),
}
struct Pieces {
    mode: usize,
}
impl Pieces {
    fn next(&self, r: &mut Rng) -> usize {
        match self.mode {
            0 => 1,
            1 => r.range(0, 5),
            2 => r.range(1, 40),
            3 => *r.pick(&[3usize, 4, 5, 15, 16, 17]),
            4 => r.logu(1, 100_000),
            _ => 1 << 20,
        }
    }
}
fn case(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let mut m8 = HeapAlloc::<u8>::new(0);
    let n = match r.us(if c.thorough { 10 } else { 24 }) {
        0 => r.range(0, 3) + 65536 - 1,
        1 => r.range(0, 3) + 131072 - 1,
        2 => r.range(65000, 200_000),
        3 => r.range(0, 4),
        _ => r.logu(1, 4000),
    };
    let palette: Vec<AnyCdf> = (0..6).map(|_| any_cdf(r)).collect();
    let speeds: Vec<Speed> = (0..4).map(|_| crate::opts::named_speed(r)).collect();
    let kinds = r.range(1, 7); // bit 0 bits, bit 1 arbitrary distributions, bit 2 adaptive models
    let rare = r.range(0, 16) as u64; // how often the unlikely symbol is taken
    let mut enc_models = [DefaultCDF16::default(); 4];
    let mut dec_models = enc_models;
    let mut enc = <DefaultEncoder as NewWithAllocator<u8_alloc>>::new(&mut m8);
    let mut syms: Vec<Sym> = Vec::with_capacity(n);
    let mut ranges = Vec::with_capacity(n);
    let mut wire: Vec<u8> = vec![];
    let ep = Pieces { mode: r.us(6) };
    let drain = |e: &mut DefaultEncoder, wire: &mut Vec<u8>, r: &mut Rng| -> Result<(), Viol> {
        let mut stuck = 0;
        while e.has_data_to_drain_or_fill() {
            let k = ep.next(r);
            let mut b = vec![0xA7u8; k + 2];
            let mut o = 1usize;
            let (mut z, no): (usize, &[u8]) = (0, &[]);
            {
                let (b1, _) = b.split_at_mut(k + 1);
                e.drain_or_fill_internal_buffer(&mut ReadableBytes { data: no, read_offset: &mut z }, &mut WritableBytes { data: b1, write_offset: &mut o });
            }
            if o < 1 || o > k + 1 || b[0] != 0xA7 || b[o..].iter().any(|x| *x != 0xA7) {
                return Err(viol("entropy coder wrote outside the range it reports", format!("offset {} of {}", o, k)));
            }
            wire.extend_from_slice(&b[1..o]);
            stuck = if o == 1 && k > 0 { stuck + 1 } else { 0 };
            if stuck > 2 {
                return Err(viol("entropy encoder drain makes no progress", ""));
            }
        }
        Ok(())
    };
    for _ in 0..n {
        let kind = loop {
            let k = r.us(3);
            if kinds >> k & 1 == 1 {
                break k;
            }
        };
        let s = match kind {
            0 => {
                let p = *r.pick(&[0u8, 1, 2, 127, 128, 129, 254, 255, 17]);
                Sym::Bit(if r.chance(rare, 16) { r.bool() } else { p < 128 }, p)
            }
            1 => Sym::Any(if r.chance(rare, 16) { r.us(16) as u8 } else { 3 }, if r.chance(1, 8) { any_cdf(r) } else { *r.pick(&palette) }),
            _ => Sym::Model(if r.chance(rare, 16) { r.us(16) as u8 } else { 7 }, r.us(4)),
        };
        let range = match &s {
            Sym::Bit(b, p) => {
                let mut b = *b;
                enc.get_or_put_bit_without_billing(&mut b, *p);
                None
            }
            Sym::Any(x, cdf) => {
                let mut x = *x;
                Some(enc.get_or_put_nibble_without_billing(&mut x, cdf))
            }
            Sym::Model(x, m) => {
                let mut y = *x;
                let rg = enc.get_or_put_nibble_without_billing(&mut y, &enc_models[*m]);
                enc_models[*m].blend(*x, speeds[*m]);
                Some(rg)
            }
        };
        syms.push(s);
        ranges.push(range);
        drain(&mut enc, &mut wire, r)?;
    }
    enc.close();
    drain(&mut enc, &mut wire, r)?;
    enc.close();
    if enc.has_data_to_drain_or_fill() {
        return Err(viol("entropy encoder produces bytes after it was closed and drained", format!("{} symbols", n)));
    }
    enc.free(&mut m8);
    let mut dec = <DefaultDecoder as NewWithAllocator<u8_alloc>>::new(&mut m8);
    let dp = Pieces { mode: r.us(6) };
    let mut pos = 0usize;
    for (i, s) in syms.iter().enumerate() {
        let mut stuck = 0;
        while dec.has_data_to_drain_or_fill() {
            let k = dp.next(r).min(wire.len() - pos);
            let mut o = 1usize;
            let mut b = vec![0u8];
            b.extend_from_slice(&wire[pos..pos + k]);
            let mut z = 0usize;
            let res = dec.drain_or_fill_internal_buffer(&mut ReadableBytes { data: &b, read_offset: &mut o }, &mut WritableBytes { data: &mut [], write_offset: &mut z });
            if o < 1 || o > b.len() || z != 0 {
                return Err(viol("entropy decoder read outside the bytes offered", format!("offset {} of {}", o, b.len())));
            }
            pos += o - 1;
            if matches!(res, DivansResult::Success) == dec.has_data_to_drain_or_fill() {
                return Err(viol("entropy decoder result disagrees with its demand for bytes", format!("{:?}", res)));
            }
            stuck = if o == 1 && k > 0 { stuck + 1 } else { 0 };
            if stuck > 2 {
                return Err(viol("entropy decoder fill makes no progress", format!("at symbol {}", i)));
            }
            if pos == wire.len() && dec.has_data_to_drain_or_fill() {
                return Err(viol("entropy decoder wants more bytes than the encoder made", format!("at symbol {} of {}, {} bytes", i, n, wire.len())));
            }
        }
        let bad = |got: String, want: String| Err(viol("entropy decoder returned another symbol", format!("symbol {} of {}: {} instead of {}", i, n, got, want)));
        match s {
            Sym::Bit(b, p) => {
                let mut g = !*b;
                dec.get_or_put_bit_without_billing(&mut g, *p);
                if g != *b {
                    return bad(format!("bit {}", g), format!("{} at probability {}", b, p));
                }
            }
            Sym::Any(x, cdf) => {
                let mut g = 99u8;
                let rg = dec.get_or_put_nibble_without_billing(&mut g, cdf);
                if g != *x || Some(rg) != ranges[i] {
                    return bad(format!("nibble {} {:?}", g, rg), format!("{} {:?} under {:?}", x, ranges[i], cdf));
                }
            }
            Sym::Model(x, m) => {
                let mut g = 99u8;
                let rg = dec.get_or_put_nibble_without_billing(&mut g, &dec_models[*m]);
                if g != *x || Some(rg) != ranges[i] {
                    return bad(format!("nibble {} {:?}", g, rg), format!("{} {:?}", x, ranges[i]));
                }
                dec_models[*m].blend(g, speeds[*m]);
            }
        }
    }
    if n > 0 && pos != wire.len() {
        return Err(viol("entropy decoder left bytes unread", format!("{} of {} read after {} symbols", pos, wire.len(), n)));
    }
    if n == 0 && !wire.is_empty() {
        return Err(viol("entropy encoder made bytes of nothing", ""));
    }
    c.eval(n.max(1) as u64);
    c.distinct(mix(fnv(&wire) ^ n as u64));
    c.add("symbols", n as u64);
    c.add("bytes", wire.len() as u64);
    c.seen(format!("chunks {}", (n + 65535) / 65536));
    if n > 0 && n % 65536 == 0 {
        c.seen("length an exact multiple of the internal chunk");
    }
    c.seen(format!("symbol kinds {:03b}", kinds));
    if c.idx < 5 {
        c.sample = Some(format!("{} symbols, kinds {:03b}, {} bytes, hand-over modes {}/{}", n, kinds, wire.len(), ep.mode, dp.mode));
    }
    Ok(())
}
#[allow(non_camel_case_types)]
type u8_alloc = HeapAlloc<u8>;
pub fn plan() -> Plan {
    Plan { prop: "C13", quick: 15_000, thorough: 400_000, rule: "one evaluation = one symbol coded and decoded back (value, probability range and byte consumption compared); distinct = distinct encoded byte strings", assumptions: &[], memcap: 3000 * MB, workers: 8, budget: 90, case }
}

// ---------------------------------------------------------------- C14
/// full check of one model: the intervals of its 16 symbols, and the offsets that map back to them
fn check_model<F: Fn() -> String>(m: &DefaultCDF16, r: &mut Rng, full: bool, what: F) -> Result<(), Viol> {
    let max = m.max() as i32;
    let mut prev = 0i32;
    for s in 0..16u8 {
        let v = m.cdf(s) as i32;
        if v <= prev {
            return Err(viol("model gives a symbol no probability", format!("{}: cumulative frequencies {:?}", what(), (0..16).map(|i| m.cdf(i)).collect::<Vec<_>>())));
        }
        prev = v;
    }
    let mut end = 0i32;
    for s in 0..16u8 {
        let x = m.sym_to_start_and_freq(s);
        let (st, fr) = (x.range.start as i32, x.range.freq as i32);
        let show = || format!("{}: symbol {} start {} freq {} of {:?}", what(), s, st, fr, (0..16).map(|i| m.cdf(i)).collect::<Vec<_>>());
        if x.sym != s || fr < 1 {
            return Err(viol("model interval of a symbol is empty", show()));
        }
        if st < end || st + fr > SCALE {
            return Err(viol("model intervals overlap or leave the coder's range", show()));
        }
        end = st + fr;
        // the reciprocal used instead of a division must be exact
        let want_st = if s == 0 { 0 } else { ((m.cdf(s - 1) as i32) << 15) / max } + 1;
        let want_fr = ((m.cdf(s) as i32) << 15) / max - want_st;
        if (st, fr) != (want_st, want_fr) {
            return Err(viol("model interval differs from the exact division", format!("{}; exact {} {}", show(), want_st, want_fr)));
        }
        let mid = st + r.us(fr as usize) as i32;
        for o in [st, mid, st + fr - 1] {
            let y = m.cdf_offset_to_sym_start_and_freq(o as i16);
            if y != x {
                return Err(viol("offset inside a symbol's interval maps to another symbol", format!("{}; offset {} -> {:?}", show(), o, y)));
            }
        }
    }
    if full {
        for o in 0..SCALE {
            let y = m.cdf_offset_to_sym_start_and_freq(o as i16);
            let (st, fr) = (y.range.start as i32, y.range.freq as i32);
            if m.sym_to_start_and_freq(y.sym) != y {
                return Err(viol("offset maps to a symbol with another interval", format!("{}: offset {} {:?}", what(), o, y)));
            }
            // offsets on the borders belong to nobody; all others to the interval that holds them
            if o < st - 1 || o > st + fr {
                return Err(viol("offset inside a symbol's interval maps to another symbol", format!("{}: offset {} -> {:?}", what(), o, y)));
            }
        }
    }
    if !m.valid() {
        return Err(viol("model calls itself invalid", what()));
    }
    Ok(())
}
fn any_speed(r: &mut Rng) -> Speed {
    match r.us(5) {
        0 => crate::opts::named_speed(r),
        1 => Speed::from_f8_tuple((r.byte(), r.byte())),
        2 => Speed::new(*r.pick(&[0i16, 1, 0x1e00i16, 0x1dff, 0x1000]), *r.pick(&[0i16, 1, 16, 48, 63, 64, 0x3fff, 0x4000])),
        3 => *r.pick(&Speed::ENCODER_DEFAULT_PALETTE),
        _ => Speed::new(r.logu(1, 0x1e00) as i16, r.logu(1, 0x4000) as i16),
    }
}
fn case_model(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let mut ms = [DefaultCDF16::default(); 3];
    let mut h = 0u64;
    let steps = r.logu(20, 6000);
    let mut sp: Vec<Speed> = (0..3).map(|_| any_speed(r)).collect();
    let style = r.us(6);
    let vary = r.chance(1, 3);
    let mut cur = r.us(16) as u8;
    let mut lo = i16::MAX;
    let mut hi = 0;
    for k in 0..steps {
        let w = r.us(3);
        if vary && r.chance(1, 20) {
            sp[w] = any_speed(r);
        }
        let sym = match style {
            0 => r.us(16) as u8,
            1 => cur,
            2 => {
                if r.chance(1, 50) {
                    r.us(16) as u8
                } else {
                    cur
                }
            }
            3 => (k % 16) as u8,
            4 => {
                if r.chance(1, 200) {
                    cur = r.us(16) as u8
                }
                cur
            }
            _ => *r.pick(&[0u8, 15]),
        };
        ms[w].blend(sym, sp[w]);
        h = mix(h ^ fnv(&(0..16).flat_map(|i| ms[w].cdf(i).to_le_bytes()).collect::<Vec<u8>>()));
        lo = lo.min(ms[w].max());
        hi = hi.max(ms[w].max());
        let full = k + 1 == steps && r.chance(1, 8);
        check_model(&ms[w], r, full, || format!("after update {} with symbol {} at {:?}", k, sym, sp[w]))?;
        c.eval(1);
        // what literal coding does: two models mixed at a weight of 0 to 1 in steps of 1/256
        if r.chance(1, 4) {
            let o = (w + 1) % 3;
            let rate = match r.us(4) {
                0 => 0,
                1 => SCALE,
                _ => (r.range(0, 256) as i32) << 7,
            };
            let a = ms[w].average(&ms[o], rate);
            let full = r.chance(1, 2000);
            check_model(&a, r, full, || format!("mix at {} of {:?} and {:?}", rate, (0..16).map(|i| ms[w].cdf(i)).collect::<Vec<_>>(), (0..16).map(|i| ms[o].cdf(i)).collect::<Vec<_>>()))?;
            c.eval(1);
            c.seen("mixed models checked");
        }
        c.distinct(h);
    }
    if c.hashes.len() > 40 {
        c.hashes.truncate(40);
    }
    c.add("updates", steps as u64);
    c.seen(format!("symbol pattern {}", style));
    c.seen(format!("largest total seen about 2^{}", 16 - (hi as u16).leading_zeros()));
    c.seen(format!("smallest total seen about 2^{}", 16 - (lo as u16).leading_zeros()));
    if c.idx < 5 {
        c.sample = Some(format!("{} updates, pattern {}, speeds {:?}, totals {}..{}", steps, style, sp, lo, hi));
    }
    Ok(())
}
pub fn plan_model() -> Plan {
    Plan { prop: "C14", quick: 40_000, thorough: 400_000, rule: "one evaluation = one model checked after an update or a mix: 16 intervals against exact division, emptiness, overlap, range, and offsets mapped back (all 32768 offsets for a sample); distinct = distinct update histories (at most 40 counted per case)", assumptions: &["adaptation speeds are those a stream can carry: increments up to 0x1e00, limits up to 0x4000"], memcap: 3000 * MB, workers: 8, budget: 90, case: case_model }
}
