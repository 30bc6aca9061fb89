//! C23: streams stored by an earlier build decode to the same bytes.
//! data/golden.bin was written by the harness linked against the repository's original commit
//! (tools/golden.sh); `gold` is the case that makes one stream.
use super::c18::{How, Job};
use crate::{cmds, gen};
use super::c15::crc32c;
use super::MB;
use crate::drive::*;
use crate::pool::*;
use crate::rng::{fnv, mix};

/// one stream made, checked by decoding it here, and written to $VH_GOLD/<idx>
fn make(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let max = match c.idx % 16 {
        0 => 200_000,
        1..=4 => 20_000,
        _ => 3000,
    };
    let (job, _) = Job::random(r, max);
    let limit = if c.idx % 64 == 1 { 30_000 } else { 5000 };
    write(c, &job, limit)
}
/// the second bank: many block types, copies of every length, inputs of several kinds at high quality
fn make2(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let (mut job, _) = Job::random(r, 3000);
    let limit = match c.idx % 8 {
        0..=3 => {
            let lg = r.range(10, 20);
            job.o.window_size = Some(lg as i32);
            job.how = How::Commands(r.bool());
            let g = cmds::G { maxdist: (1 << lg) - 1, maxout: r.logu(1000, 10_000), maxcmds: 500, modes: true, empty: false };
            let (a, w) = cmds::gen(r, &g);
            job.cs = a.into();
            job.data = w.into();
            3500
        }
        4 | 5 => {
            let lg = r.range(16, 24);
            job.o.window_size = Some(lg as i32);
            job.how = How::Commands(r.bool());
            let g = cmds::G { maxdist: (1 << lg) - 1, maxout: 1 << r.range(18, 24), maxcmds: 40, modes: r.bool(), empty: false };
            let (a, w) = cmds::gen(r, &g);
            job.cs = a.into();
            job.data = w.into();
            if c.idx % 32 < 8 { 3500 } else { 0 }
        }
        _ => {
            job.how = How::Hybrid;
            job.o.quality = Some(r.range(9, 11) as u16);
            let mut d = vec![];
            for _ in 0..r.range(2, 8) {
                d.extend_from_slice(&gen::data(r, 12_000).0);
            }
            job.data = d.into();
            6000
        }
    };
    write(c, &job, limit)
}
/// the third bank: commands with runs of literals of every length up to half a megabyte
fn make3(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let (mut job, _) = Job::random(r, 3000);
    let lg = r.range(16, 24);
    job.o.window_size = Some(lg as i32);
    job.how = How::Commands(r.bool());
    let g = cmds::G { maxdist: 60_000, maxout: 3000, maxcmds: 60, modes: r.bool(), empty: false };
    let (mut a, _) = cmds::gen(r, &g);
    let top = *r.pick(&[1 << 9, 1 << 12, 1 << 15, 1 << 17]);
    for _ in 0..r.range(2, 12) {
        let n = r.range(top / 3, top * 2);
        let (x, y, p) = (r.byte(), r.byte(), r.range(20, 3000));
        let mut d = vec![x; n];
        let mut i = r.us(p);
        while i < n {
            d[i] = y;
            i += p;
        }
        let at = r.us(a.len() + 1);
        a.insert(at, cmds::Cmd::Lit(d, r.chance(1, 6)));
    }
    match cmds::expand(&a) {
        Some(w) => job.data = w.into(),
        None => return Ok(()),
    }
    job.cs = a.into();
    write(c, &job, 6000)
}
fn write(c: &mut Case, job: &Job, limit: usize) -> Result<(), Viol> {
    let s = match job.run() {
        Ok(s) => s,
        Err(_) => return Ok(()),
    };
    if s.len() > limit {
        return Ok(());
    }
    let x = decode_simple(&s, false, job.data.len() + MB);
    if x.end != End::Success || x.out != *job.data {
        return Ok(());
    }
    let mut f = Vec::new();
    let d = format!("{:?} w{:?} q{:?} mix{:?} cm{} mode{:?} stride{:?} depth{:?} ad{} ir{}", job.how, job.o.window_size, job.o.quality, job.o.dynamic_context_mixing, job.o.use_context_map as u8, job.o.force_literal_context_mode.map(|x| x.0), job.o.force_stride_value, job.o.prior_depth, job.o.literal_adaptation.is_some() as u8, job.o.divans_ir_optimizer);
    f.push(d.len() as u8);
    f.extend_from_slice(d.as_bytes());
    f.extend_from_slice(&(x.out.len() as u32).to_le_bytes());
    f.extend_from_slice(&fnv(&x.out).to_le_bytes());
    f.extend_from_slice(&crc32c(&x.out).to_le_bytes());
    f.extend_from_slice(&(s.len() as u32).to_le_bytes());
    f.extend_from_slice(&s);
    if let Ok(dir) = std::env::var("VH_GOLD") {
        let _ = std::fs::write(format!("{}/{:06}", dir, c.idx), f);
    }
    c.eval(1);
    Ok(())
}
pub fn gold() -> Plan {
    Plan { prop: "GOLD", quick: 4000, thorough: 4000, rule: "", assumptions: &[], memcap: 6000 * MB, workers: 8, budget: 300, case: make }
}
pub fn gold2() -> Plan {
    Plan { prop: "GOLD2", quick: 2000, thorough: 2000, case: make2, ..gold() }
}
pub fn gold3() -> Plan {
    Plan { prop: "GOLD3", quick: 1500, thorough: 1500, case: make3, ..gold() }
}
static BANKS: [&[u8]; 3] = [include_bytes!("../../data/golden.bin"), include_bytes!("../../data/golden2.bin"), include_bytes!("../../data/golden3.bin")];
struct G {
    desc: String,
    len: usize,
    fnv: u64,
    crc: u32,
    s: &'static [u8],
}
fn all() -> Vec<G> {
    BANKS.iter().flat_map(|b| bank(b)).collect()
}
fn bank(b: &'static [u8]) -> Vec<G> {
    let mut v = vec![];
    let mut p = 0;
    let u32at = |p: usize| u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]);
    while p < b.len() {
        let n = b[p] as usize;
        let desc = String::from_utf8_lossy(&b[p + 1..p + 1 + n]).to_string();
        p += 1 + n;
        let len = u32at(p) as usize;
        let fnv = u32at(p + 4) as u64 | (u32at(p + 8) as u64) << 32;
        let crc = u32at(p + 12);
        let sl = u32at(p + 16) as usize;
        p += 20;
        v.push(G { desc, len, fnv, crc, s: &b[p..p + sl] });
        p += sl;
    }
    v
}
fn case(c: &mut Case) -> Result<(), Viol> {
    thread_local!(static ALL: Vec<G> = all());
    ALL.with(|a| {
        let mut rr = c.rng.clone();
        let r = &mut rr;
        let g = &a[c.idx as usize % a.len()];
        let first = (c.idx as usize) < a.len();
        let (is, os) = if first { (Sched::All, Sched::Fixed(65536)) } else { (Sched::random(r, g.s.len()), Sched::random(r, g.len)) };
        let mt = !first && r.chance(1, 3);
        let mut st = Stats::default();
        let x = decode_all(g.s, false, mt, &is, &os, r, &mut st, g.len + 100_000);
        c.eval(1);
        c.distinct(mix(fnv(g.s)));
        for w in g.desc.split(' ').skip(1) {
            c.seen(w.to_string());
        }
        c.seen(format!("made by {}", g.desc.split(' ').next().unwrap_or("")));
        c.add("plain bytes", x.out.len() as u64);
        if c.idx < 8 {
            c.sample = Some(format!("stored stream {} ({}): {} -> {} bytes", c.idx, g.desc, g.s.len(), g.len));
        }
        let d = format!("stored stream {} [{}], {} bytes holding {}, mt={} in {:?} out {:?}: {:?}, {} bytes out", c.idx as usize % a.len(), g.desc, g.s.len(), g.len, mt, is, os, x.end, x.out.len());
        if x.end != End::Success {
            return Err(viol("stored stream is no longer decodable", d));
        }
        if x.out.len() != g.len || fnv(&x.out) != g.fnv || crc32c(&x.out) != g.crc {
            return Err(viol("stored stream decodes to other bytes than it did", d));
        }
        Ok(())
    })
}
pub fn plan() -> Plan {
    Plan {
        prop: "C23",
        quick: 10_000,
        thorough: 100_000,
        rule: "one evaluation = one stream stored by the original build decoded (first in one piece, then with random chunking, serial and threaded) and its bytes compared with the recorded length, FNV and CRC-32C; distinct = distinct stored streams",
        assumptions: &["the stored streams were written by the repository's original commit"],
        memcap: 6000 * MB,
        workers: 8,
        budget: 90,
        case,
    }
}
