//! One compression job, the same in every build.
use crate::cmds;
use crate::drive::*;
use crate::gen;
use crate::opts;
use crate::rng::{mix, Rng};
use divans::DivansCompressorOptions;

pub struct Job {
    pub data: Vec<u8>,
    pub cs: Vec<cmds::Cmd>,
    pub o: DivansCompressorOptions,
    /// 0 Brotli-assisted, 1 own match finder, 2 commands
    pub how: usize,
    pub desc: String,
}
pub fn make(seed: u64, i: u64) -> Job {
    let mut rr = Rng::new(mix(seed ^ mix(i ^ 0xfea7)));
    let r = &mut rr;
    let max = if r.chance(1, 6) { 60_000 } else { 5000 };
    let (mut data, fam) = gen::data(r, max);
    let mut o = opts::random(r, data.len() < 5000).o;
    o.stride_detection_quality = None;
    let how = r.us(3);
    let mut cs = vec![];
    if how == 2 {
        let lg = r.range(10, 20);
        o.window_size = Some(lg as i32);
        let g = cmds::G { maxdist: (1 << lg) - 1, maxout: r.logu(1, 20_000), maxcmds: 200, modes: true, empty: false };
        let (a, w) = cmds::gen(r, &g);
        cs = a;
        data = w;
    }
    let desc = format!("job {}: {} of {} bytes {}, {:?}", i, ["hybrid", "internal", "commands"][how], data.len(), fam, o);
    Job { data, cs, o, how, desc }
}
pub fn encode(j: &Job) -> Result<Vec<u8>, String> {
    let mut r = Rng::new(7);
    let mut st = Stats::default();
    match j.how {
        0 => {
            let mut e = hybrid(j.o);
            let x = encode_all(&mut e, &j.data, &Sched::All, &Sched::Fixed(65536), &mut r, &mut st);
            e.free();
            x
        }
        1 => {
            let mut e = internal(j.o);
            let x = encode_all(&mut e, &j.data, &Sched::All, &Sched::Fixed(65536), &mut r, &mut st);
            e.free();
            x
        }
        _ => {
            let mut e = internal(j.o);
            let d = cmds::to_divans(&j.cs);
            let x = encode_cmds(&mut e, &d, &Sched::All, &Sched::Fixed(65536), &mut r, &mut st, j.data.len() * 2 + j.cs.len() * 40 + (1 << 20));
            e.free();
            x
        }
    }
}
