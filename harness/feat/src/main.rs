//! C24: the codec built with some set of features.
//! feat enc SEED FIRST N DIR TAG   compresses jobs FIRST.. into DIR/<i>.TAG
//! feat dec DIR FILE...            decompresses FILE (serial, threaded) and prints "FILE END LEN HASH" each
//! feat model SEED sweep|random    the adaptive models of this build: hashes of the intervals they give, "MODEL NAME HASH" each
#[path = "../../src/cmds.rs"]
pub mod cmds;
#[path = "../../src/drive.rs"]
pub mod drive;
#[path = "../../src/gen.rs"]
pub mod gen;
#[path = "../../src/opts.rs"]
pub mod opts;
#[path = "../../src/rng.rs"]
pub mod rng;
use divans::{BaseCDF, DefaultCDF16, Speed, CDF16};
use drive::*;
use rng::Rng;
pub const MB: usize = 1 << 20;
#[path = "job.rs"]
mod job;

extern "C" {
    fn mallopt(p: i32, v: i32) -> i32;
}
/// what the coder and the decoder get from a model
fn look(m: &DefaultCDF16, h: &mut u64, r: &mut Rng) {
    for s in 0..16u8 {
        let x = m.sym_to_start_and_freq(s);
        *h = rng::mix(*h ^ (x.range.start as u16 as u64 | (x.range.freq as u16 as u64) << 16 | (m.cdf(s) as u16 as u64) << 32));
    }
    for _ in 0..4 {
        let x = m.cdf_offset_to_sym_start_and_freq(r.us(1 << 15) as i16);
        *h = rng::mix(*h ^ (x.sym as u64 | (x.range.start as u16 as u64) << 8 | (x.range.freq as u16 as u64) << 24));
    }
}
fn models(seed: u64, sweep: bool) {
    let mut r = Rng::new(seed);
    let r = &mut r;
    if sweep {
        // every total a model can have: one by one up to the largest limit, then by one large step
        for shape in 0..3 {
            let one = Speed::new(1, 0x4000);
            let mut m = DefaultCDF16::default();
            let mut h = 0u64;
            let sym = |k: usize, r: &mut Rng| -> u8 {
                match shape {
                    0 => (k % 16) as u8,
                    1 => r.us(16) as u8,
                    _ => (r.us(4) * r.us(4) + (k >> 12)) as u8 & 15,
                }
            };
            let mut k = 0;
            loop {
                look(&m, &mut h, r);
                if m.max() % 512 == 511 {
                    println!("MODEL totals-to-{}-shape-{} {:016x}", m.max(), shape, h);
                }
                if m.max() == 0x3fff {
                    break;
                }
                m.blend(sym(k, r), one);
                k += 1;
            }
            for inc in 1..=0x1e00i16 {
                let mut n = m;
                n.blend(sym(inc as usize, r), Speed::new(inc, i16::MAX));
                look(&n, &mut h, r);
                if inc % 512 == 0 {
                    println!("MODEL totals-to-{}-shape-{} {:016x}", n.max(), shape, h);
                }
            }
        }
    }
    for k in 0..60 {
        let mut m = [DefaultCDF16::default(); 2];
        let mut h = 0u64;
        let sp = [Speed::from_f8_tuple((r.byte(), r.byte())), Speed::new(r.logu(1, 0x1e00) as i16, r.logu(16, 0x4000) as i16)];
        let few = r.range(1, 16);
        for _ in 0..r.logu(10, 1500) {
            let w = r.us(2);
            m[w].blend(r.us(few) as u8, sp[w]);
            look(&m[w], &mut h, r);
            if r.chance(1, 3) {
                let x = m[w].average(&m[1 - w], (r.range(0, 256) as i32) << 7);
                look(&x, &mut h, r);
            }
        }
        println!("MODEL history-{} {:016x}", k, h);
    }
}
fn main() {
    // keep the megabytes of codec state in the heap instead of mapping them anew for every job
    unsafe {
        mallopt(-3, 1 << 25);
        mallopt(-1, i32::MAX);
    }
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "enc" => {
            let (seed, first, n): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
            for i in first..first + n {
                let j = job::make(seed, i);
                let s = job::encode(&j);
                match s {
                    Ok(s) => std::fs::write(format!("{}/{}.{}", a[5], i, a[6]), s).unwrap(),
                    Err(e) => println!("FAILED {} {}", i, e),
                }
            }
        }
        "dec" => {
            for f in &a[3..] {
                let s = std::fs::read(format!("{}/{}", a[2], f)).unwrap();
                for mt in [false, true] {
                    let mut r = Rng::new(s.len() as u64);
                    let mut st = Stats::default();
                    let x = decode_all(&s, false, mt, &Sched::Fixed(4096), &Sched::Fixed(4096), &mut r, &mut st, 64 * MB);
                    println!("DEC {} {} {} {:016x}", f, x.kind(), x.out.len(), rng::fnv(&x.out));
                }
            }
        }
        "model" => models(a[2].parse().unwrap(), a[3] == "sweep"),
        _ => std::process::exit(2),
    }
    println!("DONE");
}
