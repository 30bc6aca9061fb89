//! multi-threaded decoder vs serial decoder
use super::c05::*;
use super::MB;
use crate::drive::*;
use crate::pool::*;
use crate::rng::{fnv, mix};
use divans::Decompressor;

fn case(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let kind = r.us(4);
    let (mut s, desc);
    match kind {
        0 | 1 => {
            let (_, e, d) = valid(r, 20_000);
            s = e;
            desc = d;
        }
        2 => {
            let (_, e, d) = valid(r, 20_000);
            s = e;
            let n = r.us(s.len());
            s.truncate(n);
            desc = format!("truncated to {} of {}", n, d);
        }
        _ => {
            let (h, d) = hostile(r);
            s = h;
            desc = d;
        }
    }
    let skip = r.chance(1, 4);
    let (is, os) = (Sched::random(r, s.len()), Sched::random(r, 100_000));
    let mut st = Stats::default();
    let a = decode_all(&s, skip, false, &Sched::All, &Sched::Fixed(65536), r, &mut st, 8 * MB);
    c.seen(format!("serial:{}:{}", ["valid", "valid", "truncated", "hostile"][kind], a.kind()));
    // early free: give only part of the work
    let early = kind == 1;
    if early {
        let mut d = decoder(skip, true);
        let calls = r.range(0, 12);
        let mut pos = 0;
        let mut got = Vec::new();
        for _ in 0..calls {
            let n = is.next(r, 0).min(s.len() - pos);
            let mut o = vec![0u8; os.next(r, 0).min(70000)];
            let (mut i, mut oo) = (0, 0);
            let _ = d.decode(&s[pos..pos + n], &mut i, &mut o, &mut oo);
            pos += i;
            got.extend_from_slice(&o[..oo]);
        }
        d.free();
        c.seen("early free");
        if got.len() > a.out.len() || got[..] != a.out[..got.len()] {
            return Err(viol("mt output before free is not a prefix of the serial output", desc));
        }
        c.eval(1);
        return Ok(());
    }
    let b = decode_all(&s, skip, true, &is, &os, r, &mut st, 8 * MB);
    c.eval(1);
    c.distinct(mix(fnv(&s)));
    c.seen(format!("mt:{}:{}", ["valid", "valid", "truncated", "hostile"][kind], b.kind()));
    for (w, x) in &[("serial", &a), ("mt", &b)] {
        if let End::Proto(p) = &x.end {
            return Err(viol(format!("{} decoder breaks the call protocol", w), format!("{} [{}]", p, desc)));
        }
    }
    // The worker thread may run ahead and report a failure that the serial decoder has not reached
    // yet (or vice versa), so only "complete" versus "not complete" is comparable on broken streams.
    if (a.end == End::Success) != (b.end == End::Success) {
        return Err(viol("mt and serial end differently", format!("serial {:?}/{} vs mt {:?}/{}; {}", a.end, a.out.len(), b.end, b.out.len(), desc)));
    }
    if kind < 2 && a.end != End::Success {
        return Err(viol("valid stream not decoded", format!("serial {:?}/{} vs mt {:?}/{}; {}", a.end, a.out.len(), b.end, b.out.len(), desc)));
    }
    let n = a.out.len().min(b.out.len());
    if a.out[..n] != b.out[..n] || (a.end == End::Success && a.out.len() != b.out.len()) {
        return Err(viol("mt and serial outputs differ", format!("{} {}", first_diff(&a.out, &b.out), desc)));
    }
    Ok(())
}
pub fn plan() -> Plan {
    Plan { prop: "C04", quick: 9000, thorough: 200_000, rule: "one evaluation = one stream (valid, cut, mutated, noise) driven through a threaded decoder under one chunking to its end, or freed at a random call, and compared with the serial decoder on the same stream; distinct = distinct streams", assumptions: &[], memcap: 30_000 * MB, workers: 8, budget: 90, case }
}
