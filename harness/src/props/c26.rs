//! C26: sizes of compressed streams.
use super::MB;
use crate::drive::*;
use crate::gen;
use crate::opts;
use crate::pool::*;
use crate::rng::{fnv, mix, Rng};

/// bytes, bits of information in them as drawn, family
fn source(r: &mut Rng, n: usize) -> (Vec<u8>, f64, &'static str) {
    match r.us(3) {
        0 => {
            let p = r.logu(1, 600);
            let b: Vec<u8> = (0..p).map(|_| r.byte()).collect();
            ((0..n).map(|i| b[i % p]).collect(), p as f64 * 8.0, "repeated")
        }
        1 => {
            let k = r.range(2, 64);
            let a: Vec<u8> = (0..k).map(|_| r.byte()).collect();
            let sk = r.us(3);
            let d: Vec<u8> = (0..n)
                .map(|_| {
                    let mut x = r.us(k);
                    for _ in 0..sk {
                        x = x.min(r.us(k));
                    }
                    a[x]
                })
                .collect();
            let h = order0(&d);
            (d, h, "independent")
        }
        _ => {
            let k = r.range(2, 40);
            let a: Vec<u8> = (0..k).map(|_| r.byte()).collect();
            let t: Vec<Vec<usize>> = (0..k).map(|_| (0..r.range(1, 4)).map(|_| r.us(k)).collect()).collect();
            let (mut s, mut d, mut h) = (0, vec![], 0f64);
            for _ in 0..n {
                h += (t[s].len() as f64).log2();
                s = *r.pick(&t[s]);
                d.push(a[s]);
            }
            (d, h, "markov")
        }
    }
}
fn order0(d: &[u8]) -> f64 {
    let mut c = [0f64; 256];
    for &x in d {
        c[x as usize] += 1.0;
    }
    c.iter().filter(|x| **x > 0.0).map(|x| -x * (x / d.len() as f64).log2()).sum()
}
fn case(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let mut o = opts::random(r, false).o;
    o.stride_detection_quality = None;
    let class = r.us(3);
    o.literal_adaptation = match class {
        0 => None,
        1 => Some([opts::named_speed(r), opts::named_speed(r), opts::named_speed(r), opts::named_speed(r)]),
        _ => Some([opts::speed(r), opts::speed(r), opts::speed(r), opts::speed(r)]),
    };
    let hyb = r.bool();
    let learn = r.bool();
    let (d, info, fam) = if learn {
        let n = r.range(20_000, 60_000);
        source(r, n)
    } else {
        let max = 1 << r.range(3, 18);
        if r.bool() {
            let n = r.us(max);
            ((0..n).map(|_| r.byte()).collect(), 0.0, "random")
        } else {
            (gen::data(r, max).0, 0.0, "any")
        }
    };
    let (is, os) = if r.chance(1, 3) { (Sched::random(r, d.len()), Sched::random(r, d.len())) } else { (Sched::All, Sched::All) };
    let mut st = Stats::default();
    let z = if hyb {
        let mut e = hybrid(o);
        let x = encode_all(&mut e, &d, &is, &os, r, &mut st);
        e.free();
        x
    } else {
        let mut e = internal(o);
        let x = encode_all(&mut e, &d, &is, &os, r, &mut st);
        e.free();
        x
    };
    let desc = format!("{} {} bytes {}, {} bits of information, in {:?} out {:?}, {:?}", if hyb { "hybrid" } else { "internal" }, d.len(), fam, info as u64, is, os, o);
    let z = z.map_err(|e| viol("compressor failed", format!("{} [{}]", e, desc)))?;
    c.eval(1);
    c.distinct(mix(fnv(&z)));
    let (n, s) = (d.len() as f64, z.len() as f64);
    let who = if hyb { "hybrid" } else { "internal" };
    let speeds = ["default speeds", "named speeds", "any speeds"][class];
    c.seen(format!("{}, {}, {}", who, speeds, fam));
    if c.idx < 6 {
        c.sample = Some(format!("{} -> {}", desc, z.len()));
    }
    // measured worst: 1.087n+150 / 1.52n+150 / 2.03n+300 over 20000 runs
    let lim = [1.14 * n + 220.0, 1.7 * n + 300.0, 2.8 * n + 500.0][class];
    if s > lim {
        return Err(viol("stream is larger than its bound", format!("{} -> {} > {} [{}]", d.len(), z.len(), lim as u64, desc)));
    }
    if learn && class < 2 {
        // measured worst (first two classes): repeated +141 +383; independent 1.07 1.21 internal, 1.65 1.66 hybrid
        let lim = match (fam, hyb) {
            ("repeated", true) => info / 8.0 + [400.0, 900.0][class],
            ("repeated", false) => 0.75 * n,
            ("independent", true) => info / 8.0 * 2.2 + 700.0,
            ("independent", false) => info / 8.0 * [1.2, 1.5][class] + 700.0,
            ("markov", true) => order0(&d) / 8.0 * 2.2 + 900.0,
            _ => order0(&d) / 8.0 * [1.25, 1.6][class] + 900.0,
        };
        c.add("streams held against the information in their data", 1);
        if s > lim {
            return Err(viol("stream is far larger than the information in its data", format!("{} {} -> {} > {} [{}]", fam, d.len(), z.len(), lim as u64, desc)));
        }
    }
    Ok(())
}
pub fn plan() -> Plan {
    Plan {
        prop: "C26",
        quick: 2500,
        thorough: 60_000,
        rule: "one evaluation = one compression whose size is compared with a bound on expansion (1.14n+220 with default speeds, 1.7n+300 with the named ones, 2.8n+500 with any) and, for data drawn from a source of known information content, with a bound proportional to that content; distinct = distinct streams",
        assumptions: &["the bounds were fixed from the worst of 25000 measured runs with a margin of a quarter to a half of the overhead"],
        memcap: 6000 * MB,
        workers: 8,
        budget: 90,
        case,
    }
}
