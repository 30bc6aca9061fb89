//! C12: the stream multiplexer against a plain queue model. C13: entropy coder. C14: adaptive models.
use super::MB;
use crate::pool::*;
use crate::rng::{fnv, mix, Rng};
use alloc_no_stdlib::SliceWrapper;
use alloc_stdlib::HeapAlloc;
use divans::interface::{StreamDemuxer, StreamMuxer};
use divans::mux::Mux;

type M = Mux<HeapAlloc<u8>>;

fn size(r: &mut Rng) -> usize {
    match r.us(10) {
        0 => 0,
        1 => r.range(1, 20),
        2 => *r.pick(&[4095usize, 4096, 4097, 16383, 16384, 16385, 65535, 65536, 65537, 131072, 131073, 131074]),
        3 => r.logu(1, 300_000),
        4 => 16,
        _ => r.logu(1, 5000),
    }
}
/// bytes that look like headers and markers as often as not
fn payload(r: &mut Rng, n: usize) -> Vec<u8> {
    let mode = r.us(4);
    (0..n)
        .map(|_| match mode {
            0 => r.byte(),
            1 => *[0u8, 1, 0xff, 0xfe, 0x10, 0x11, 0x20, 0x21, 0x30, 0x31].get(r.us(10)).unwrap(),
            2 => 0xff,
            _ => r.byte() & 3,
        })
        .collect()
}
struct Model {
    sent: [Vec<u8>; 2],
    got: [usize; 2],
}
struct Side {
    wire: Vec<u8>,
    fed: usize,
}
fn check_stream(m: &mut M, model: &mut Model, s: usize, n: usize, how: usize) -> Result<(), Viol> {
    let avail = m.data_ready(s as u8);
    let n = n.min(avail);
    let bytes: Vec<u8>;
    match how {
        0 => {
            bytes = m.peek(s as u8)[..n].to_vec();
            m.consume(s as u8, n);
        }
        1 => {
            let mut b = m.read_buffer();
            let o = *b[s].read_offset;
            bytes = b[s].data[o..o + n].to_vec();
            *b[s].read_offset += n;
        }
        _ => {
            // the threaded decoder takes the whole buffer away
            let x = core::mem::replace(m.edit(s as u8), Default::default());
            bytes = x.slice().to_vec();
        }
    }
    let at = model.got[s];
    if at + bytes.len() > model.sent[s].len() {
        return Err(viol("demultiplexer delivered bytes nobody sent", format!("stream {}: {} bytes at {}, only {} sent", s, bytes.len(), at, model.sent[s].len())));
    }
    if bytes[..] != model.sent[s][at..at + bytes.len()] {
        return Err(viol("stream bytes changed, moved or reordered by the multiplexer", format!("stream {} at {}: {}", s, at, crate::drive::first_diff(&model.sent[s][at..at + bytes.len()], &bytes))));
    }
    model.got[s] += bytes.len();
    Ok(())
}
fn feed(d: &mut M, m8: &mut HeapAlloc<u8>, side: &mut Side, n: usize, c: &mut Case) -> Result<(), Viol> {
    let n = n.min(side.wire.len() - side.fed);
    if d.encountered_eof() {
        return Ok(());
    }
    let k = d.write_linear(&side.wire[side.fed..side.fed + n], m8);
    if k > n {
        return Err(viol("demultiplexer consumed more than it was given", format!("{} of {}", k, n)));
    }
    if k < n && !d.encountered_eof() {
        return Err(viol("demultiplexer stopped consuming before the end of the stream", format!("{} of {} at {}", k, n, side.fed)));
    }
    side.fed += k;
    c.add("wire bytes", k as u64);
    Ok(())
}
/// the multiplexed format, by its description: a length of 1 to 65536 in two bytes, or one of three
/// fixed lengths in the header byte, then so many bytes of one stream; an end marker
fn packets(r: &mut Rng, m: &mut Model, wire: &mut Vec<u8>) {
    for _ in 0..r.logu(1, 40) {
        let s = r.us(2);
        let n = if r.chance(1, 4) {
            let k = r.us(3);
            wire.push(s as u8 | (k as u8 + 1) << 4);
            4096 << (2 * k)
        } else {
            let n = if r.chance(1, 8) { *r.pick(&[65_536, 65_535, 255, 256, 257, 4096]) } else { r.logu(1, 65_536) };
            wire.extend_from_slice(&[s as u8, (n - 1) as u8, ((n - 1) >> 8) as u8]);
            n
        };
        let p = payload(r, n);
        wire.extend_from_slice(&p);
        m.sent[s].extend_from_slice(&p);
    }
    wire.extend_from_slice(&[0xff, 0xfe, 0xff]);
}
fn case(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let mut m8 = HeapAlloc::<u8>::new(0);
    let (mut w, mut d) = (M::default(), M::default());
    let mut model = Model { sent: [vec![], vec![]], got: [0, 0] };
    let mut side = Side { wire: vec![], fed: 0 };
    // one wire in eight is written by hand: packets of any length the format has
    let hand = r.chance(1, 8);
    if hand {
        packets(r, &mut model, &mut side.wire);
        c.seen("packets written by hand");
    }
    let ops = if hand { 0 } else { r.logu(1, 60) };
    // how the two streams share the traffic: even, lopsided, or one of them silent for long
    let bias = *r.pick(&[1u64, 8, 16, 15, 0]);
    let tail = { let n = r.us(20); payload(r, n) }; // bytes after the end of the stream belong to somebody else
    let mut kinds = 0u64;
    for _ in 0..ops {
        match r.us(6) {
            0 | 1 | 2 => {
                let s = if r.chance(bias, 16) { 1 } else { 0 };
                let n = size(r);
                let p = payload(r, n);
                if r.bool() {
                    let k = w.write(s as u8, &p, &mut m8);
                    if k != n {
                        return Err(viol("multiplexer accepted only part of the bytes", format!("{} of {}", k, n)));
                    }
                    model.sent[s].extend_from_slice(&p);
                } else {
                    // the encoder's way: append into the buffer it is offered
                    let mut b = w.write_buffer(&mut m8);
                    let o = *b[s].write_offset;
                    let k = n.min(b[s].data.len() - o);
                    if b[s].data.len() - o < 16 {
                        return Err(viol("multiplexer offered less room than it promises", format!("{} bytes", b[s].data.len() - o)));
                    }
                    b[s].data[o..o + k].copy_from_slice(&p[..k]);
                    *b[s].write_offset += k;
                    model.sent[s].extend_from_slice(&p[..k]);
                }
                kinds |= 1;
            }
            3 => {
                let mut o = vec![0xA7u8; size(r)];
                let k = w.linearize(&mut o);
                if k > o.len() || o[k..].iter().any(|b| *b != 0xA7) {
                    return Err(viol("multiplexer wrote outside the range it reports", format!("{} of {}", k, o.len())));
                }
                if w.wrote_eof() {
                    return Err(viol("multiplexer claims the end was written before it was flushed", ""));
                }
                side.wire.extend_from_slice(&o[..k]);
                if k > 0 {
                    c.seen("linearize produced bytes");
                }
                kinds |= 2;
            }
            4 => {
                let n = if r.chance(1, 4) { r.us(4) } else { size(r) };
                feed(&mut d, &mut m8, &mut side, n, c)?;
                kinds |= 4;
            }
            _ => {
                let (s, n, how) = (r.us(2), size(r), r.us(6));
                check_stream(&mut d, &mut model, s, n, how.min(2))?;
            }
        }
        if d.encountered_eof() {
            return Err(viol("demultiplexer saw an end that was not written", format!("after {} of {} wire bytes", side.fed, side.wire.len())));
        }
    }
    let mut stuck = 0;
    let tiny = r.bool() && model.sent[0].len() + model.sent[1].len() < 20_000;
    while !hand && !w.wrote_eof() {
        let n = if tiny { r.range(0, 5) } else { size(r) };
        let mut o = vec![0xA7u8; n];
        let k = w.flush(&mut o);
        if k > n || o[k..].iter().any(|b| *b != 0xA7) {
            return Err(viol("multiplexer wrote outside the range it reports", format!("flush {} of {}", k, n)));
        }
        side.wire.extend_from_slice(&o[..k]);
        stuck = if k == 0 && n > 0 { stuck + 1 } else { 0 };
        if stuck > 3 {
            return Err(viol("multiplexer flush makes no progress", format!("{} bytes of room, nothing written, end not reached", n)));
        }
        if k > 0 && r.chance(1, 3) {
            feed(&mut d, &mut m8, &mut side, k / 2, c)?;
        }
    }
    let total = model.sent[0].len() + model.sent[1].len();
    let end = side.wire.len();
    side.wire.extend_from_slice(&tail);
    let bytewise = r.bool() && end - side.fed < 20_000;
    while !d.encountered_eof() {
        if side.fed >= end {
            return Err(viol("demultiplexer read past the end marker or missed it", format!("{} of {}", side.fed, end)));
        }
        // hand over bytes of what follows together with the end marker, as a container does
        let n = if bytewise { 1 } else { size(r).max(1) };
        feed(&mut d, &mut m8, &mut side, n, c)?;
        if r.chance(1, 4) {
            let (s, n, how) = (r.us(2), size(r), r.us(4));
            check_stream(&mut d, &mut model, s, n, how.min(2))?;
        }
    }
    if side.fed != end {
        return Err(viol("demultiplexer ended at the wrong place", format!("{} of {} wire bytes", side.fed, end)));
    }
    for s in 0..2 {
        check_stream(&mut d, &mut model, s, usize::MAX, r.us(3))?;
        if model.got[s] != model.sent[s].len() {
            return Err(viol("multiplexer lost bytes of a stream", format!("stream {}: {} of {} arrived", s, model.got[s], model.sent[s].len())));
        }
    }
    if !d.consumed_all_streams_until_eof() {
        return Err(viol("demultiplexer does not report the end after all is consumed", ""));
    }
    w.free_mux(&mut m8);
    d.free_demux(&mut m8);
    c.eval(1);
    c.distinct(mix(fnv(&side.wire)));
    c.add("payload bytes", total as u64);
    c.seen(format!("operations mix {:03b}", kinds));
    if model.sent[0].len().max(model.sent[1].len()) > 131_073 {
        c.seen("a stream above the flush variance");
    }
    if c.idx < 5 {
        c.sample = Some(format!("{} operations, {} + {} payload bytes, {} wire bytes", ops, model.sent[0].len(), model.sent[1].len(), end));
    }
    Ok(())
}
pub fn plan() -> Plan {
    Plan { prop: "C12", quick: 200_000, thorough: 6_000_000, rule: "one evaluation = one history of append (two ways), linearize, flush, feed and take (three ways) operations with random sizes on a real multiplexer/demultiplexer pair, every byte compared with a queue per stream; distinct = distinct wire contents", assumptions: &[], memcap: 3000 * MB, workers: 8, budget: 90, case }
}
