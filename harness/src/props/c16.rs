//! C16 command interpreter against a plain vector.
use super::MB;
use crate::cmds::{self, Cmd};
use crate::drive::*;
use crate::pool::*;
use crate::rng::{fnv, mix};
use divans::{DivansOutputResult, DivansRecodeState};

struct Ring(Vec<u8>);
impl alloc_no_stdlib::SliceWrapper<u8> for Ring {
    fn slice(&self) -> &[u8] {
        &self.0
    }
}
impl alloc_no_stdlib::SliceWrapperMut<u8> for Ring {
    fn slice_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl Default for Ring {
    fn default() -> Self {
        Ring(vec![])
    }
}

fn case(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    // a word and its affixes must fit a ring
    let lg = match r.us(4) {
        0 => r.range(6, 9),
        1 => r.range(10, 12),
        2 => 16,
        _ => r.range(6, 18),
    };
    let ring = 1usize << lg;
    let maxout = if r.chance(1, 10) { 400_000 } else { r.logu(1, 12 * ring.min(8192)) };
    let many = r.chance(1, 1000);
    let maxout = if many { 400_000 } else { maxout };
    let g = cmds::G { maxdist: ring - 1, maxout, maxcmds: if many { 4 * cmds::MANY } else if r.bool() { 60 } else { 600 }, modes: r.chance(1, 3), empty: r.chance(1, 4) };
    let (mut cs, mut want) = cmds::gen(r, &g);
    let spoiled = r.chance(1, 3);
    if spoiled {
        let at = cmds::spoil(r, &mut cs, ring);
        // what it denotes up to the broken command
        want = cmds::expand(&cs[..at]).unwrap();
    }
    let dc = cmds::to_divans(&cs);
    let api = r.us(2);
    let os = Sched::random(r, want.len());
    let snap = r.chance(1, 4);
    let desc = format!("ring 2^{}, {} commands, {} bytes, out {:?}, {}", lg, cs.len(), want.len(), os, if api == 0 { "encode_commands" } else { "encode_cmd" });
    let mut st = DivansRecodeState::new(Ring(vec![if r.bool() { 0 } else { r.byte() }; ring]));
    let mut out: Vec<u8> = vec![];
    let (mut k, mut idle, mut calls) = (0usize, 0u32, 0u64);
    let mut failed: Option<usize> = None;
    macro_rules! call {
        ($f:expr) => {{
            let on = os.next(r, k).min(1 << 17);
            k += 1;
            calls += 1;
            let lead = if r.chance(1, 4) { r.range(1, 9) } else { 0 };
            let mut b = vec![CANARY; lead + on];
            let mut o = lead;
            let res = $f(&mut st, &mut b[..], &mut o);
            if o < lead || o > b.len() {
                return Err(viol("interpreter moved the output offset outside the buffer", format!("{} -> {} of {} [{}]", lead, o, b.len(), desc)));
            }
            if b[..lead].iter().chain(&b[o..]).any(|x| *x != CANARY) {
                return Err(viol("interpreter wrote outside the range it reported", desc.clone()));
            }
            out.extend_from_slice(&b[lead..o]);
            idle = if o > lead || on == 0 || matches!(res, DivansOutputResult::Success) { 0 } else { idle + 1 };
            if idle > 40 {
                return Err(viol("interpreter makes no progress", format!("{:?} [{}]", res, desc)));
            }
            res
        }};
    }
    if api == 0 {
        let step = r.logu(1, cs.len() + 1);
        let mut pos = 0;
        'all: while pos < dc.len() {
            let e = (pos + step).min(dc.len());
            let mut io = pos;
            loop {
                match call!(|s: &mut DivansRecodeState<Ring>, b: &mut [u8], o: &mut usize| divans::Compressor::encode_commands(s, &dc[..e], &mut io, b, o)) {
                    DivansOutputResult::Success => break,
                    DivansOutputResult::NeedsMoreOutput => {}
                    DivansOutputResult::Failure(_) => {
                        failed = Some(io);
                        break 'all;
                    }
                }
            }
            if io != e {
                return Err(viol("encode_commands reported success before the last command", format!("{} of {} [{}]", io, e, desc)));
            }
            pos = e;
        }
    } else {
        'each: for (i, x) in dc.iter().enumerate() {
            loop {
                match call!(|s: &mut DivansRecodeState<Ring>, b: &mut [u8], o: &mut usize| s.encode_cmd(x, b, o)) {
                    DivansOutputResult::Success => break,
                    DivansOutputResult::NeedsMoreOutput => {}
                    DivansOutputResult::Failure(_) => {
                        failed = Some(i);
                        break 'each;
                    }
                }
            }
            if snap {
                // a snapshot taken and restored at rest changes nothing
                let s = st.snapshot_ringbuffer();
                st.restore_ringbuffer_to_snapshot(s);
            }
        }
    }
    loop {
        match call!(|s: &mut DivansRecodeState<Ring>, b: &mut [u8], o: &mut usize| s.flush(b, o)) {
            DivansOutputResult::Success => break,
            DivansOutputResult::NeedsMoreOutput => {}
            DivansOutputResult::Failure(e) => return Err(viol("flush of the interpreter failed", format!("{:?} [{}]", e, desc))),
        }
    }
    c.eval(cs.len() as u64);
    c.add("interpreter calls", calls);
    c.add("bytes produced", out.len() as u64);
    c.seen(format!("ring:2^{}", lg));
    for x in &cs {
        match x {
            Cmd::Lit(..) => c.seen("literal"),
            Cmd::Copy { distance, num } => c.seen(if *distance as usize >= ring { "copy beyond the ring" } else if *distance as usize == ring - 1 { "copy from the whole ring" } else if num > distance { "overlapping copy" } else { "copy" }),
            Cmd::Dict { transform, .. } => c.seen(if *transform == 0 { "word" } else { "transformed word" }),
            _ => c.seen("mode command"),
        }
    }
    let n = want.len().min(out.len());
    if out[..n] != want[..n] {
        return Err(viol("interpreter output differs from the reference expansion", format!("{} [{}] {}", first_diff(&want, &out), desc, culprit(&cs, &want, &out))));
    }
    match failed {
        None => {
            if !spoiled && out.len() != want.len() {
                return Err(viol("interpreter output differs from the reference expansion", format!("{} [{}]", first_diff(&want, &out), desc)));
            }
            if spoiled {
                c.seen("odd command accepted");
                // if the reference gives the whole sequence a meaning it must be that
                match cmds::expand(&cs) {
                    Some(full) => {
                        if full != out {
                            return Err(viol("interpreter output differs from the reference expansion", format!("{} [{}]", first_diff(&full, &out), desc)));
                        }
                    }
                    None => {
                        if must_fail(&cs, ring) {
                            return Err(viol("interpreter accepted an invalid command", desc));
                        }
                    }
                }
            }
        }
        Some(i) => {
            c.seen("refused");
            if cmds::expand(&cs).is_some() && !far(&cs, ring) {
                return Err(viol("interpreter refused a valid command", format!("command {} {:?} [{}]", i, short(&cs[i.min(cs.len() - 1)]), desc)));
            }
            if out.len() < want.len() {
                return Err(viol("bytes of the commands before a refused one are lost", format!("{} of {} [{}]", out.len(), want.len(), desc)));
            }
        }
    }
    if api == 1 || failed.is_none() {
        if st.num_bytes_encoded() != out.len() {
            return Err(viol("num_bytes_encoded is wrong", format!("{} for {} bytes [{}]", st.num_bytes_encoded(), out.len(), desc)));
        }
    }
    c.distinct(mix(fnv(&want)) ^ cs.len() as u64);
    if c.idx < 4 {
        c.sample = Some(desc);
    }
    Ok(())
}
fn far(cs: &[Cmd], ring: usize) -> bool {
    cs.iter().any(|x| match x {
        Cmd::Copy { distance, .. } => *distance as usize >= ring,
        _ => false,
    })
}
/// commands no interpreter with this ring can honour
fn must_fail(cs: &[Cmd], ring: usize) -> bool {
    cs.iter().any(|x| match x {
        Cmd::Copy { distance, num } => *num > 0 && (*distance == 0 || *distance as usize >= ring),
        Cmd::Dict { size, transform, fin, id } => {
            *size > 24
                || *transform > 120
                || match cmds::word(*size, *transform, *id) {
                    Some(w) => *fin != 0 && w.len() != *fin as usize,
                    None => false,
                }
        }
        _ => false,
    })
}
pub fn short(c: &Cmd) -> String {
    match c {
        Cmd::Lit(d, h) => format!("Lit({} bytes, {})", d.len(), h),
        Cmd::Pred(p) => format!("Pred(lit {} dist {} mode {} math {} adv {} bare {})", p.lit.len(), p.dist.len(), p.mode, p.math, p.adv, p.bare),
        x => format!("{:?}", x),
    }
}
pub fn culprit(cs: &[Cmd], want: &[u8], out: &[u8]) -> String {
    let at = want.iter().zip(out).position(|(a, b)| a != b).unwrap_or(want.len().min(out.len()));
    let mut v = vec![];
    for (i, x) in cs.iter().enumerate() {
        if cmds::push(&mut v, x).is_none() {
            break;
        }
        if v.len() > at {
            return format!("in command {} {}", i, short(x));
        }
    }
    String::new()
}
pub fn plan() -> Plan {
    Plan {
        prop: "C16",
        quick: 400_000,
        thorough: 6_000_000,
        rule: "one evaluation = one command interpreted (literal, copy, dictionary word, mode) by the real interpreter under one output chunking, its bytes compared with an expansion over a plain vector; one sequence in three is spoiled by an invalid command; distinct = distinct outputs",
        assumptions: &["dictionary transforms are those of the brotli crate", "a command is repeated unchanged until it is accepted", "ring buffers are powers of two of at least 64 bytes"],
        memcap: 3000 * MB,
        workers: 8,
        budget: 90,
        case,
    }
}
