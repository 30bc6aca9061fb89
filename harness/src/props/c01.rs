//! C01 hybrid round trip, C02 internal round trip.
use super::MB;
use crate::drive::*;
use crate::gen;
use crate::opts;
use crate::pool::*;
use crate::rng::{fnv, mix};

fn case(c: &mut Case, hyb: bool) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    // now and then megabytes (several metablocks, several rounds of the buffers), or tens of megabytes of repetition
    let size = r.us(240);
    let (d, fam) = match size {
        0..=19 => gen::big(r, 160_000),
        20..=22 => gen::big(r, 2_500_000),
        23 if hyb => {
            let what = if r.bool() { "run" } else { "text" };
            let mut v = gen::gen_family(r, what, 50_000);
            let n = r.range(1, v.len().max(1));
            v.truncate(n.min(v.len()));
            if v.is_empty() {
                v.push(9)
            }
            let want = r.range(3_000_000, 22_000_000);
            while v.len() < want {
                v.extend_from_within(..)
            }
            v.truncate(want);
            (v, "repeated many times")
        }
        _ => gen::data(r, 40_000),
    };
    let large = d.len() > 200_000;
    let mut o = opts::random(r, d.len() < 12_000);
    if large {
        o.o.quality = Some(o.o.quality.unwrap_or(5).min(6));
        o.o.divans_ir_optimizer &= (d.len() < 3_000_000) as u8;
    }
    let pieces = |r: &mut crate::rng::Rng| if large { r.pick(&[Sched::All, Sched::Fixed(4096), Sched::Fixed(65536), Sched::Fixed(100_003), Sched::Rand { max: 200_000, zero: 2 }]).clone() } else { Sched::random(r, d.len()) };
    let (is, os) = (pieces(r), pieces(r));
    let (is2, os2) = (pieces(r), pieces(r));
    let mt = r.chance(1, 4);
    let mut st = Stats::default();
    let desc = format!("{} data, {} bytes, in {:?} out {:?}, decode in {:?} out {:?} mt={}, {}", fam, d.len(), is, os, is2, os2, mt, o.desc);
    let enc = if hyb {
        let mut e = hybrid(o.o);
        let x = encode_all(&mut e, &d, &is, &os, r, &mut st);
        e.free();
        x
    } else {
        let mut e = internal(o.o);
        let x = encode_all(&mut e, &d, &is, &os, r, &mut st);
        e.free();
        x
    };
    let enc = enc.map_err(|e| viol("compressor did not finish on valid input and options", format!("{} [{}]", e, desc)))?;
    let dec = decode_all(&enc, false, mt, &is2, &os2, r, &mut st, d.len() + 100_000);
    let sample = format!("{} -> {} bytes ({})", d.len(), enc.len(), desc);
    c.eval(1);
    c.distinct(mix(fnv(&enc)));
    c.seen(format!("data:{}", fam));
    c.seen(format!("enc-in:{}", is.cls()));
    c.seen(format!("enc-out:{}", os.cls()));
    c.seen(format!("dec-out:{}", os2.cls()));
    c.seen(if mt { "decoder:mt" } else { "decoder:serial" });
    c.add("api calls", st.calls);
    c.add("NeedsMoreOutput seen", st.need_out);
    c.add("plain bytes", d.len() as u64);
    c.add("compressed bytes", enc.len() as u64);
    if c.idx < 8 {
        c.sample = Some(sample);
    }
    match dec.end {
        End::Success => {}
        e => return Err(viol(format!("own stream not decodable: {}", match e { End::Failed(_) => "failure", End::WantsInput => "decoder wants more input", End::OutLimit => "decoder output runs away", _ => "protocol" }), format!("{:?} after {} of {} bytes out [{}]", e, dec.out.len(), d.len(), desc))),
    }
    if dec.out != d {
        return Err(viol("decoded bytes differ from the input", format!("{} [{}]", first_diff(&d, &dec.out), desc)));
    }
    if dec.consumed != enc.len() {
        return Err(viol("decoder finished without consuming its whole stream", format!("{} of {} [{}]", dec.consumed, enc.len(), desc)));
    }
    Ok(())
}
fn hyb(c: &mut Case) -> Result<(), Viol> {
    case(c, true)
}
fn int(c: &mut Case) -> Result<(), Viol> {
    case(c, false)
}
const RULE: &str = "one evaluation = one (data, options, input chunking, output chunking) compressed and decoded through the real streaming API, decoded bytes compared with the input; distinct = distinct compressed streams";
pub fn plan() -> Plan {
    Plan { prop: "C01", quick: 3000, thorough: 60_000, rule: RULE, assumptions: &["brotli 3.1.8 dependency as vendored"], memcap: 6000 * MB, workers: 8, budget: 90, case: hyb }
}
pub fn plan_int() -> Plan {
    Plan { prop: "C02", quick: 5000, thorough: 60_000, rule: RULE, assumptions: &[], memcap: 6000 * MB, workers: 8, budget: 90, case: int }
}
