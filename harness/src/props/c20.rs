//! C20: what the IR optimizer makes of a command sequence, compared with our own reading of it.
use super::MB;
use crate::cmds::{self, Cmd};
use crate::drive::*;
use crate::gen;
use crate::opts;
use crate::pool::*;
use crate::rng::{fnv, mix};
use alloc_no_stdlib::Allocator;
use alloc_stdlib::HeapAlloc;
use brotli::enc::interface::{BlockSwitch, CopyCommand, DictCommand, LiteralBlockSwitch, LiteralCommand, PredictionModeContextMap, StaticCommand};
use brotli::interface::{Command, Nop};
use brotli::{InputPair, InputReference, InputReferenceMut, SliceOffset};
use divans::interface::DefaultCDF16;
use divans::mux::Mux;
use divans::{DivansCodec, EncoderSpecialization, NewWithAllocator};

type C = Command<SliceOffset>;
/// our commands as brotli hands them over: literals are ranges of the bytes they are part of
fn to_offsets(cs: &[Cmd], hist: usize, cut: usize) -> Vec<C> {
    let mut out = vec![];
    let mut at = hist;
    for c in cs {
        match c {
            Cmd::Lit(d, h) => {
                let mut lit = |from: usize, n: usize| {
                    if n != 0 {
                        out.push(Command::Literal(LiteralCommand { data: SliceOffset(from, n as u32), prob: Default::default(), high_entropy: *h }))
                    }
                };
                if at < cut && at + d.len() > cut {
                    lit(at, cut - at);
                    lit(cut, at + d.len() - cut);
                } else {
                    lit(at, d.len());
                }
                at += d.len();
            }
            Cmd::Copy { distance, num } => {
                out.push(Command::Copy(CopyCommand { distance: *distance, num_bytes: *num }));
                at += *num as usize;
            }
            Cmd::Dict { size, transform, fin, id } => {
                out.push(Command::Dict(DictCommand { word_size: *size, transform: *transform, final_size: *fin, empty: 0, word_id: *id }));
                at += *fin as usize;
            }
            Cmd::BsC(t) => out.push(Command::BlockSwitchCommand(BlockSwitch::new(*t))),
            Cmd::BsD(t) => out.push(Command::BlockSwitchDistance(BlockSwitch::new(*t))),
            Cmd::BsL(t, s) => out.push(Command::BlockSwitchLiteral(LiteralBlockSwitch::new(*t, *s))),
            Cmd::Pred(_) => {}
        }
    }
    out
}
/// back again; an error when a literal is not a range brotli could hand over
fn from_offsets(cs: &[C], mb: &[u8], cut: usize) -> Result<Vec<Cmd>, String> {
    let mut out = vec![];
    for (i, c) in cs.iter().enumerate() {
        out.push(match c {
            Command::Literal(l) => {
                let (a, n) = (l.data.0, l.data.1 as usize);
                if a + n > mb.len() {
                    return Err(format!("literal command {} reaches {} past the end of its input", i, a + n - mb.len()));
                }
                if a < cut && a + n > cut {
                    return Err(format!("literal command {} ({}+{}) spans the boundary at {} of its input", i, a, n, cut));
                }
                Cmd::Lit(mb[a..a + n].to_vec(), l.high_entropy)
            }
            Command::Copy(c) => Cmd::Copy { distance: c.distance, num: c.num_bytes },
            Command::Dict(d) => Cmd::Dict { size: d.word_size, transform: d.transform, fin: d.final_size, id: d.word_id },
            Command::BlockSwitchCommand(b) => Cmd::BsC(b.block_type()),
            Command::BlockSwitchDistance(b) => Cmd::BsD(b.block_type()),
            Command::BlockSwitchLiteral(b) => Cmd::BsL(b.block_type(), b.stride()),
            Command::PredictionMode(_) => return Err(format!("command {} has become a prediction mode", i)),
        });
    }
    Ok(out)
}
/// everything but the literals, and where it applies
fn rest(cs: &[Cmd], hist: usize, copies: bool) -> Vec<(usize, String)> {
    let mut at = hist;
    let mut v = vec![];
    for c in cs {
        match c {
            Cmd::Lit(d, _) => at += d.len(),
            Cmd::Copy { num, .. } => {
                if copies && *num != 0 {
                    v.push((at, format!("{:?}", c)));
                }
                at += *num as usize;
            }
            Cmd::Dict { fin, .. } => {
                if !copies {
                    v.push((at, format!("{:?}", c)));
                }
                at += *fin as usize;
            }
            _ => {
                if !copies {
                    v.push((at, format!("{:?}", c)));
                }
            }
        }
    }
    v
}
fn direct(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let mut o = opts::random(r, false).o;
    o.stride_detection_quality = None;
    o.divans_ir_optimizer = 1;
    if let Some(ref mut v) = o.literal_adaptation {
        // as the compressors limit them
        for s in v.iter_mut() {
            *s = divans::Speed::new(s.inc().min(0x1e00), s.lim());
        }
    }
    let lg = if r.chance(1, 4) { 24 } else { r.range(10, 24) };
    let ring = 1usize << lg;
    // a history, so that copies reach before the commands at hand
    let hist: Vec<u8> = if r.bool() { vec![] } else { gen::data(r, 3000).0 };
    let hist = hist[..hist.len().min(ring - 1)].to_vec();
    let g = cmds::G { maxdist: ring - 1, maxout: r.logu(1, 20_000), maxcmds: if r.bool() { 40 } else { 600 }, modes: r.chance(4, 5), empty: r.chance(1, 6) };
    let (mut cs, _) = cmds::gen(r, &g);
    // one prediction mode ahead of the commands, none among them
    let pm = cs.iter().find_map(|c| if let Cmd::Pred(p) = c { Some(p.clone()) } else { None });
    cs.retain(|c| !matches!(c, Cmd::Pred(_)));
    if r.chance(2, 5) {
        // many small literals and copies
        let src = gen::data(r, 4000).0;
        let n = if r.chance(1, 40) { r.range(300, 12_000) } else { r.range(20, 300) };
        cs.clear();
        let mut at = 0;
        for _ in 0..n {
            match r.us(12) {
                0..=4 => {
                    let m = r.range(1, 9);
                    cs.push(Cmd::Lit((0..m).map(|i| *src.get((at + i) % src.len().max(1)).unwrap_or(&7)).collect(), r.chance(1, 8)));
                    at += m;
                }
                5 => cs.push(Cmd::BsL(r.us(4) as u8, r.us(9) as u8)),
                6 => cs.push(Cmd::Dict { size: 4, transform: 0, fin: 4, id: r.us(1024) as u32 }),
                _ => cs.push(Cmd::Copy { distance: r.logu(1, ring - 1) as u32, num: 1 }),
            }
        }
    }
    if r.bool() || cs.len() > 100 {
        // shorter copies, near one another and at repeated distances: what the optimizer is about
        let mut ds = vec![1u32, 4, 11, 15, 16];
        let mut at = hist.len();
        for c in cs.iter_mut() {
            match c {
                Cmd::Copy { distance, num } => {
                    if *num > 0 {
                        *num = r.range(1, 12) as u32;
                    }
                    if r.chance(2, 3) {
                        let k = r.us(ds.len());
                        let d = (ds[k] as i64 + if r.bool() { 0 } else { r.range(0, 6) as i64 - 3 }).max(1) as u32;
                        *distance = d;
                    }
                    *distance = (*distance).min(at as u32).min(ring as u32 - 1).max(1);
                    if at == 0 {
                        *num = 0;
                    }
                    let k = r.us(ds.len());
                    ds[k] = *distance;
                    at += *num as usize;
                }
                Cmd::Lit(d, _) => at += d.len(),
                Cmd::Dict { fin, .. } => at += *fin as usize,
                _ => {}
            }
        }
    }
    let mut all = hist.clone();
    for x in &cs {
        if cmds::push(&mut all, x).is_none() {
            // the rewrite above left a copy from before the start: not a valid sequence
            c.seen("sequence made invalid by the generator, skipped");
            return Ok(());
        }
    }
    // the bytes come in two pieces, as from a ring buffer
    let cut = match r.us(4) {
        0 => all.len(),
        1 => hist.len(),
        _ => r.range(0, all.len()),
    };
    let mut a = to_offsets(&cs, hist.len(), cut);
    let before = from_offsets(&a, &all, cut).expect("own conversion");
    let p = pm.unwrap_or_else(|| Box::new(cmds::pred(r)));
    let mut lit = p.lit.clone();
    let mut pred = vec![];
    if !p.bare {
        pred.extend_from_slice(&[p.mode, p.math, p.adv, 0]);
        pred.extend_from_slice(&p.mixing);
        pred.extend_from_slice(&p.speeds);
        pred.extend_from_slice(&p.dist);
    }
    let mut m8: HeapAlloc<u8> = HeapAlloc::new(0);
    let (e1, e2) = (DefaultEncoder::new(&mut m8), DefaultEncoder::new(&mut m8));
    let mut codec = DivansCodec::new(
        m8,
        HeapAlloc::new(DefaultCDF16::default()),
        e1,
        e2,
        EncoderSpecialization::new(),
        Default::default(),
        lg,
        o.dynamic_context_mixing.unwrap_or(0),
        o.prior_depth,
        o.literal_adaptation,
        o.use_context_map,
        o.force_stride_value,
        false,
    );
    let odd_lru = r.chance(1, 3);
    if odd_lru {
        // as later in a stream
        for d in codec.cross_command_state.bk.distance_lru.iter_mut() {
            *d = if r.bool() { r.range(1, 40) as u32 } else { r.logu(1, ring - 1) as u32 };
        }
    }
    let desc = format!("{} commands, {} bytes after {} of history, cut at {}, window {}, prediction {:?}, {:?}", a.len(), all.len() - hist.len(), hist.len(), cut, lg, (p.bare, p.lit.len(), p.dist.len()), o);
    let lru = codec.cross_command_state.bk.distance_lru;
    let mut mc: HeapAlloc<StaticCommand> = HeapAlloc::new(StaticCommand::nop());
    let mut buf = mc.alloc_cell(0);
    let after;
    {
        let mb = InputPair(InputReference { data: &all[..cut], orig_offset: 0 }, InputReference { data: &all[cut..], orig_offset: cut });
        let mut pm = PredictionModeContextMap { literal_context_map: InputReferenceMut { data: &mut lit, orig_offset: 0 }, predmode_speed_and_distance_context_map: InputReferenceMut { data: &mut pred, orig_offset: 0 } };
        let res = divans::ir_optimize::ir_optimize::<DefaultCDF16, DefaultEncoder, HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, HeapAlloc<StaticCommand>>(&mut pm, &mut a, mb, &mut codec, lg as u8, o, &mut mc, &mut buf);
        after = match res {
            Ok(v) => from_offsets(v, &all, cut),
            Err(e) => return Err(viol("optimizer failed on a valid command sequence", format!("{:?} [{}]", e, desc))),
        };
    }
    let unchanged = codec.cross_command_state.bk.distance_lru == lru;
    codec.free();
    c.eval(1);
    c.seen(if odd_lru { "distance cache: as later in a stream" } else { "distance cache: initial" });
    c.seen(if cut == all.len() { "input: one piece" } else { "input: two pieces" });
    let after = after.map_err(|e| viol("optimizer made a literal of bytes outside its input", format!("{} [{}]", e, desc)))?;
    if !unchanged {
        return Err(viol("optimizer changed the state of the codec it works for", desc));
    }
    let mut now = hist.clone();
    for (i, x) in after.iter().enumerate() {
        if cmds::push(&mut now, x).is_none() {
            return Err(viol("optimizer made an invalid command", format!("{} {} [{}]", i, super::c16::short(x), desc)));
        }
    }
    if now != all {
        return Err(viol("optimized commands denote other bytes", format!("{} [{}]", first_diff(&all, &now), desc)));
    }
    if rest(&before, hist.len(), false) != rest(&after, hist.len(), false) {
        return Err(viol("optimizer dropped, duplicated or moved a dictionary word or block switch", desc));
    }
    let (cb, ca) = (rest(&before, hist.len(), true), rest(&after, hist.len(), true));
    let mut it = cb.iter();
    if !ca.iter().all(|x| it.any(|y| x == y)) {
        return Err(viol("optimizer made up a copy", desc));
    }
    c.distinct(mix(fnv(format!("{:?}{:?}", after.len(), all).as_bytes())));
    c.add("copies kept", ca.len() as u64);
    c.add("copies merged into literals", (cb.len() - ca.len()) as u64);
    let lits = |v: &[Cmd]| v.iter().filter(|c| matches!(c, Cmd::Lit(..))).count() as u64;
    c.add("literals merged", lits(&before) - lits(&after).min(lits(&before)));
    c.add("commands in", before.len() as u64);
    if c.idx < 4 {
        c.sample = Some(format!("{} -> {} commands, {} copies -> {}", desc, after.len(), cb.len(), ca.len()));
    }
    Ok(())
}
fn whole(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let mut o = {
        let heavy = r.chance(1, 8);
        opts::random(r, heavy).o
    };
    o.stride_detection_quality = None;
    o.divans_ir_optimizer = *r.pick(&[1u8, 1, 2, 255]);
    // small windows and blocks: the commands' input wraps in brotli's ring buffer
    if r.bool() {
        o.window_size = Some(r.range(10, 16) as i32);
        o.lgblock = Some(16);
    }
    let max = if r.chance(1, 6) { 400_000 } else { 20_000 };
    let (d, fam) = gen::data(r, max);
    let (is, os) = (Sched::random(r, d.len()), Sched::random(r, d.len()));
    let mut st = Stats::default();
    let desc = format!("hybrid, {} bytes {}, in {:?} out {:?}, {:?}", d.len(), fam, is, os, o);
    let mut e = hybrid(o);
    let x = encode_all(&mut e, &d, &is, &os, r, &mut st);
    e.free();
    c.eval(1);
    c.seen("whole compressor");
    let s = x.map_err(|e| viol("compressor with the optimizer failed", format!("{} [{}]", e, desc)))?;
    let x = decode_simple(&s, false, d.len() + 100_000);
    if x.end != End::Success || x.out != d {
        return Err(viol("stream made with the optimizer does not decode to the input", format!("{:?} {} [{}]", x.end, first_diff(&d, &x.out), desc)));
    }
    c.distinct(mix(fnv(&s)));
    Ok(())
}
fn case(c: &mut Case) -> Result<(), Viol> {
    if c.idx % 5 == 4 {
        whole(c)
    } else {
        direct(c)
    }
}
pub fn plan() -> Plan {
    Plan {
        prop: "C20",
        quick: 8000,
        thorough: 80_000,
        rule: "one evaluation = one command sequence put through the optimizer and its result compared with our own reading of the sequence (bytes denoted, block switches and dictionary words in place, no copy made up, literals within the input pieces), or (every fifth) one compression with the optimizer on decoded back; distinct = distinct optimized results",
        assumptions: &["the optimizer is called as its one caller calls it: the commands' bytes in one or two pieces, no prediction mode among the commands"],
        memcap: 6000 * MB,
        workers: 8,
        budget: 90,
        case,
    }
}
