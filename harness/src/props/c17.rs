//! C17 command sequences through the compressor and back.
use super::c16::{culprit, short};
use super::MB;
use crate::cmds;
use crate::drive::*;
use crate::opts;
use crate::pool::*;
use crate::rng::{fnv, mix};

fn case(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let mut o = opts::random(r, false).o;
    o.stride_detection_quality = None;
    let lg = match r.us(5) {
        0 => r.range(10, 12),
        1 => 24,
        _ => r.range(10, 24),
    };
    o.window_size = Some(lg as i32);
    let ring = 1usize << lg;
    // now and then copies of millions of bytes
    let giant = r.chance(1, 100);
    let maxout = if giant { r.range(2 << 20, 36 << 20) } else if r.chance(1, 12) { 300_000 } else { r.logu(1, 30_000) };
    let many = !giant && r.chance(1, 40);
    let maxout = if many { 400_000 } else { maxout };
    let g = cmds::G { maxdist: ring - 1, maxout, maxcmds: if many { 4 * cmds::MANY } else if r.bool() || giant { 40 } else { 500 }, modes: r.chance(5, 6), empty: r.chance(1, 4) };
    let (cs, want) = cmds::gen(r, &g);
    let dc = cmds::to_divans(&cs);
    let hyb = r.bool();
    let (is, os, is2, os2) = (Sched::random(r, cs.len()), Sched::random(r, want.len()), Sched::random(r, want.len()), Sched::random(r, want.len()));
    let mt = r.chance(1, 4);
    let mut st = Stats::default();
    let desc = format!("{} commands, {} bytes, {}, in {:?} out {:?}, decode in {:?} out {:?} mt={}, {:?}", cs.len(), want.len(), if hyb { "hybrid" } else { "internal" }, is, os, is2, os2, mt, o);
    let bound = want.len() * 2 + cs.len() * 40 + (1 << 20);
    let enc = if hyb {
        let mut e = hybrid(o);
        let x = encode_cmds(&mut e, &dc, &is, &os, r, &mut st, bound);
        e.free();
        x
    } else {
        let mut e = internal(o);
        let x = encode_cmds(&mut e, &dc, &is, &os, r, &mut st, bound);
        e.free();
        x
    };
    let enc = enc.map_err(|e| viol("compressor did not take a valid command sequence", format!("{} [{}]", e, desc)))?;
    let dec = decode_all(&enc, false, mt, &is2, &os2, r, &mut st, want.len() + 100_000);
    c.eval(1);
    c.distinct(mix(fnv(&enc)));
    for x in &cs {
        c.seen(format!("command:{}", short(x).split(|ch: char| !ch.is_alphabetic()).next().unwrap()));
        if let cmds::Cmd::Pred(p) = x {
            c.seen(format!("pred:{}{}{}", if p.bare { "bare " } else { "" }, if p.lit.is_empty() { "" } else { "lit " }, if p.dist.is_empty() { "" } else { "dist " }));
        }
    }
    c.seen(if mt { "decoder:mt" } else { "decoder:serial" });
    c.seen(if hyb { "encoder:hybrid" } else { "encoder:internal" });
    c.add("plain bytes", want.len() as u64);
    if cs.len() > 4096 {
        c.seen("more than 4096 commands");
    }
    if c.idx < 4 {
        c.sample = Some(desc.clone());
    }
    let n = want.len().min(dec.out.len());
    if want[..n] != dec.out[..n] {
        return Err(viol("decoded bytes differ from what the commands denote", format!("{} {} [{}]", first_diff(&want, &dec.out), culprit(&cs, &want, &dec.out), desc)));
    }
    match dec.end {
        End::Success if dec.out.len() == want.len() => Ok(()),
        e => Err(viol("encoded commands do not decode", format!("{:?} {} of {} {} [{}]", e, dec.out.len(), want.len(), culprit(&cs, &want, &dec.out), desc))),
    }
}
pub fn plan() -> Plan {
    Plan {
        prop: "C17",
        quick: 15_000,
        thorough: 100_000,
        rule: "one evaluation = one valid command sequence (random context maps, mixing values, speeds, block switches, copies, words, literals) encoded through encode_commands under random options and chunkings, decoded, and compared with the reference expansion; distinct = distinct streams",
        assumptions: &["dictionary transforms are those of the brotli crate"],
        memcap: 6000 * MB,
        workers: 8,
        budget: 90,
        case,
    }
}
