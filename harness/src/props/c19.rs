//! C19: the queue between the thread that decodes commands and the thread that writes bytes.
//! Two kinds of case: the queue itself with both ends played by this file and every item stamped,
//! and the whole threaded decoder. Both run with random delays, also in the allocator, and in a
//! build of everything under ThreadSanitizer.
use super::c05::{hostile, valid};
use super::MB;
use crate::drive::*;
use crate::pool::*;
use crate::rng::{fnv, mix, Rng};
use alloc_no_stdlib::{Allocator, SliceWrapper, SliceWrapperMut};
use alloc_stdlib::StandardAlloc;
use divans::interface::*;
use divans::multithreading::{BufferedMultiWorker, MultiWorker};
use divans::slice_util::{AllocatedMemoryPrefix, AllocatedMemoryRange};
use divans::threading::*;
use divans::threading::StaticCommand;
use divans::Decompressor;

type A = StandardAlloc;
type Map = PredictionModeContextMap<AllocatedMemoryPrefix<u8, A>>;
type Cmd = Command<AllocatedMemoryPrefix<u8, A>>;
struct NoSpec;
impl EncoderOrDecoderRecoderSpecialization for NoSpec {
    fn get_recoder_output<'a>(&'a mut self, b: &'a mut [u8]) -> &'a mut [u8] {
        b
    }
    fn get_recoder_output_offset<'a>(&self, o: &'a mut usize, _: &'a mut usize) -> &'a mut usize {
        o
    }
}
#[derive(Clone, Copy)]
struct Delays {
    every: usize,
    max: usize,
}
impl Delays {
    fn hit(&self, r: &mut Rng) {
        if self.every == 0 || r.us(self.every) != 0 {
            return;
        }
        match r.us(4) {
            0 => std::thread::yield_now(),
            1 => std::thread::sleep(std::time::Duration::from_micros(r.us(self.max) as u64)),
            _ => {
                for _ in 0..r.us(self.max * 20) {
                    std::hint::spin_loop()
                }
            }
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    /// a command; true: prediction mode, with a context map
    Cmd(bool),
    /// use up what is left of the current input buffer
    Data,
    /// the worker fails
    Fail,
    /// the worker stops without a word about it (its stream failed elsewhere)
    Quit,
}
#[derive(Default, Debug)]
struct Sent {
    cmds: Vec<(u32, bool)>,
    /// first byte of every buffer used up, in order
    used: Vec<u32>,
    /// stamps of context maps sent
    maps: Vec<u32>,
    eof: bool,
    failed: bool,
    complaint: Option<String>,
    saw_err: bool,
    /// distinct maps that came back to the worker
    maps_back: usize,
}
fn stamp_buf(i: u32, n: usize) -> AllocatedMemoryRange<u8, A> {
    let mut m = <A as Allocator<u8>>::alloc_cell(&mut A::default(), n);
    for (k, b) in m.slice_mut().iter_mut().enumerate() {
        *b = (i.wrapping_mul(31) as u8).wrapping_add(k as u8);
    }
    let s = m.slice_mut();
    s[..4].copy_from_slice(&i.to_le_bytes());
    AllocatedMemoryRange::realloc(m, 0..n)
}
fn buf_ok(b: &[u8]) -> Option<u32> {
    let i = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
    for (k, x) in b.iter().enumerate().skip(4) {
        if *x != (i.wrapping_mul(31) as u8).wrapping_add(k as u8) {
            return None;
        }
    }
    Some(i)
}
fn new_map() -> Map {
    let mut a = A::default();
    let l = <A as Allocator<u8>>::alloc_cell(&mut a, 64);
    let p = <A as Allocator<u8>>::alloc_cell(&mut a, Map::size_of_combined_array(16));
    PredictionModeContextMap { literal_context_map: AllocatedMemoryPrefix::realloc(l, 64), predmode_speed_and_distance_context_map: AllocatedMemoryPrefix::realloc(p, Map::size_of_combined_array(16)) }
}
fn stamp_map(m: &mut Map, i: u32) {
    let s = m.literal_context_map.slice_mut();
    for (k, b) in s.iter_mut().enumerate() {
        *b = (i as u8).wrapping_mul(7).wrapping_add(k as u8);
    }
    s[..4].copy_from_slice(&i.to_le_bytes());
}
fn map_stamp(m: &Map) -> Option<u32> {
    let s = m.literal_context_map.slice();
    if s.len() != 64 {
        return None;
    }
    let i = u32::from_le_bytes([s[0], s[1], s[2], s[3]]);
    for (k, b) in s.iter().enumerate().skip(4) {
        if *b != (i as u8).wrapping_mul(7).wrapping_add(k as u8) {
            return None;
        }
    }
    Some(i)
}
/// The worker's end. `spares`: context maps in circulation that it starts with.
fn worker<W: ThreadToMain<A>>(w: W, script: Vec<Act>, spares: usize, mut r: Rng, dl: Delays, has_err: &dyn Fn() -> bool) -> Sent {
    let mut s = Sent::default();
    let mut dm = ThreadToMainDemuxer::<A, W>::new(w);
    let mut maps: Vec<Map> = (0..spares).map(|_| new_map()).collect();
    let mut seq = 0u32;
    let mut spec = NoSpec;
    // the stamp of the buffer in hand
    let mut cur: Option<u32> = None;
    let mut eof = false;
    'all: for a in script {
        dl.hit(&mut r);
        match a {
            Act::Cmd(pm) => {
                let mut m = None;
                if pm {
                    if maps.is_empty() {
                        match dm.pull_context_map(None) {
                            Ok(m) => {
                                if !m.has_context_speeds() {
                                    s.complaint = Some("an empty context map was handed back to the worker".into());
                                    break 'all;
                                }
                                s.maps_back += 1;
                                maps.push(m)
                            }
                            Err(()) => {
                                s.saw_err = true;
                                break 'all;
                            }
                        }
                    }
                    m = maps.pop();
                }
                let mut c: Cmd = match m {
                    Some(mut m) => {
                        stamp_map(&mut m, seq);
                        Command::PredictionMode(m)
                    }
                    None => Command::Copy(CopyCommand { distance: seq, num_bytes: seq ^ 0x5555 }),
                };
                loop {
                    let mut oo = 0;
                    match dm.push_cmd(&mut c, None, None, &mut spec, &mut [], &mut oo) {
                        DivansOutputResult::Success => break,
                        DivansOutputResult::NeedsMoreOutput => std::thread::yield_now(),
                        DivansOutputResult::Failure(_) => {
                            s.saw_err = true;
                            break 'all;
                        }
                    }
                }
                s.cmds.push((seq, pm));
                if pm {
                    s.maps.push(seq);
                }
                seq += 1;
            }
            Act::Data => loop {
                if eof {
                    break;
                }
                // takes the next buffer if none is at hand, hands back one that is used up
                let n = {
                    let b = dm.edit(0);
                    if b.slice().len() != 0 {
                        match buf_ok(b.0.slice()) {
                            None => {
                                s.complaint = Some("a buffer reached the worker with other content".into());
                                break 'all;
                            }
                            Some(i) => {
                                if cur != Some(i) {
                                    if b.1.start != 0 {
                                        s.complaint = Some(format!("buffer {} reached the worker partly read", i));
                                        break 'all;
                                    }
                                    cur = Some(i);
                                    s.used.push(i);
                                }
                            }
                        }
                    }
                    b.slice().len()
                };
                if n == 0 {
                    if dm.encountered_eof() {
                        eof = true;
                    } else if has_err() {
                        s.saw_err = true;
                        break 'all;
                    } else {
                        // no room yet to hand back the buffer that is used up
                        std::thread::yield_now();
                        continue;
                    }
                } else {
                    let k = if r.bool() { n } else { r.range(1, n) };
                    dm.consume(0, k);
                }
                break;
            },
            Act::Fail => {
                s.failed = true;
                <ThreadToMainDemuxer<A, W> as ThreadToMain<A>>::broadcast_err(&mut dm, ErrMsg::UnexpectedEof);
                return s;
            }
            Act::Quit => {
                <ThreadToMainDemuxer<A, W> as ThreadToMain<A>>::broadcast_err(&mut dm, ErrMsg::MissingAllocator(77));
                s.failed = true;
                return s;
            }
        }
    }
    if s.saw_err || s.complaint.is_some() {
        <ThreadToMainDemuxer<A, W> as ThreadToMain<A>>::broadcast_err(&mut dm, ErrMsg::UnexpectedEof);
        return s;
    }
    // what is left of the input, as the decoder reads up to the end of its commands
    match dm.push_eof() {
        DivansOutputResult::Success => s.eof = true,
        _ => s.saw_err = true,
    }
    s
}
#[derive(Default, Debug)]
struct Got {
    cmds: Vec<(u32, bool)>,
    back: Vec<u32>,
    maps: Vec<u32>,
    pushed: u32,
    end: &'static str,
    pulls: u64,
    shape: u64,
    complaint: Option<String>,
}
/// The main thread's end. `stop`: gives up with an error after that many pulls.
fn main_end<W: MainToThread<A, CommandOutputType = AllocatedMemoryPrefix<StaticCommand, A>>>(w: &mut W, bufs: u32, size: usize, stop: Option<u64>, ret_maps: bool, mut r: Rng, dl: Delays) -> Got {
    let mut g = Got::default();
    let mut a = A::default();
    let mut out: AllocatedMemoryPrefix<StaticCommand, A> = AllocatedMemoryPrefix::realloc(<A as Allocator<StaticCommand>>::alloc_cell(&mut a, NUM_SERIAL_COMMANDS_BUFFERED), 0);
    let mut next: Option<AllocatedMemoryRange<u8, A>> = None;
    let mut outstanding = 0i64;
    loop {
        dl.hit(&mut r);
        if stop == Some(g.pulls) {
            w.broadcast_err(ErrMsg::UnexpectedEof);
            g.end = "stopped";
            return g;
        }
        // hand over input
        let want = if outstanding == 0 { 1 } else { r.us(3) };
        for _ in 0..want {
            if next.is_none() && g.pushed < bufs {
                next = Some(stamp_buf(g.pushed, r.range(4, size)));
            }
            if let Some(mut b) = next.take() {
                match w.push(&mut b) {
                    Ok(()) => {
                        if b.0.slice().len() != 0 {
                            g.complaint = Some("an accepted buffer stayed with its sender".into());
                        }
                        outstanding += 1;
                        g.pushed += 1;
                    }
                    Err(()) => {
                        if outstanding < 2 && b.slice().len() != 0 && g.end == "" && outstanding == 0 {
                            g.complaint = Some("an empty queue refused a buffer".into());
                        }
                        next = Some(b);
                        break;
                    }
                }
            }
        }
        if outstanding == 0 && next.is_none() && g.pushed == bufs {
            w.end_of_data();
        }
        let mut data = [AllocatedMemoryRange::<u8, A>::default(), AllocatedMemoryRange::<u8, A>::default()];
        let mut pm = [empty_prediction_mode_context_map(), empty_prediction_mode_context_map()];
        out.1 = 0;
        let st = w.pull(&mut out, &mut data, &mut pm);
        g.pulls += 1;
        let nd = data.iter().filter(|d| d.0.slice().len() != 0).count();
        g.shape = mix(g.shape ^ (out.1 as u64) << 8 ^ nd as u64);
        for d in data.iter() {
            if d.0.slice().len() != 0 {
                outstanding -= 1;
                match buf_ok(d.0.slice()) {
                    Some(i) => g.back.push(i),
                    None => g.complaint = Some("a buffer came back with other content".into()),
                }
            }
        }
        let mut maps = std::collections::VecDeque::new();
        for m in pm.iter_mut() {
            if m.has_context_speeds() {
                let x = std::mem::replace(m, empty_prediction_mode_context_map());
                match map_stamp(&x) {
                    Some(i) => maps.push_back((i, x)),
                    None => g.complaint = Some("a context map arrived with other content".into()),
                }
            }
        }
        for c in out.slice() {
            match c {
                Command::Copy(c) => {
                    if c.num_bytes != c.distance ^ 0x5555 {
                        g.complaint = Some("a command arrived changed".into());
                    }
                    g.cmds.push((c.distance, false));
                }
                Command::PredictionMode(_) => match maps.pop_front() {
                    Some((i, m)) => {
                        g.cmds.push((i, true));
                        g.maps.push(i);
                        if ret_maps && w.push_context_map(m).is_err() {
                            g.complaint = Some("no room for a context map that was in circulation".into());
                        }
                    }
                    None => g.complaint = Some("a prediction mode command arrived before its context map".into()),
                },
                _ => g.complaint = Some("a command nobody sent".into()),
            }
        }
        if !maps.is_empty() && matches!(st, CommandResult::Ok) {
            g.complaint = Some("a context map arrived before its command".into());
        }
        if g.complaint.is_some() {
            w.broadcast_err(ErrMsg::UnexpectedEof);
            g.end = "complaint";
            return g;
        }
        match st {
            CommandResult::Ok => {}
            CommandResult::Eof => {
                g.end = "eof";
                return g;
            }
            CommandResult::Err(_) => {
                g.end = "err";
                return g;
            }
        }
    }
}
fn queue(c: &mut Case, r: &mut Rng) -> Result<(), Viol> {
    let mut mc = A::default();
    let buffered = r.bool();
    let bufs = r.us(12) as u32;
    let size = r.range(5, 64);
    let n = r.logu(1, 3000);
    let spares = r.range(1, 2);
    let pms = r.chance(1, 2);
    let mut script = vec![];
    for _ in 0..n {
        script.push(match r.us(12) {
            0 | 1 => Act::Data,
            2 if pms => Act::Cmd(true),
            _ => Act::Cmd(false),
        });
    }
    let fail = r.us(6);
    let mut stop = None;
    match fail {
        0 => {
            let at = r.us(script.len());
            script.truncate(at);
            script.push(if r.bool() { Act::Fail } else { Act::Quit });
        }
        1 => stop = Some(r.us(20) as u64),
        _ => {
            // reads all its input, like a decoder does
            for _ in 0..bufs as usize * size + 2 {
                script.push(Act::Data);
            }
        }
    }
    let dl = |r: &mut Rng| Delays { every: *r.pick(&[0, 1, 3, 20, 200]), max: *r.pick(&[5, 50, 300]) };
    let (d1, d2) = (dl(r), dl(r));
    let (r1, r2) = (Rng::new(r.u64()), Rng::new(r.u64()));
    let desc = format!("{} queue, {} buffers of up to {} bytes, {} steps of the worker, {} context maps, {}", if buffered { "buffered" } else { "plain" }, bufs, size, script.len(), spares, ["the worker fails", "the main thread stops", "", "", "", ""][fail]);
    let h = |g: &mut Got| g.shape;
    let (mut g, s) = if buffered {
        let w = BufferedMultiWorker::<A, A>::new(&mut mc);
        let mut m = w.worker.clone();
        let e = m.clone();
        let t = std::thread::spawn(move || worker(w, script, spares, r1, d1, &|| e.has_err()));
        let g = main_end(&mut m, bufs, size, stop, true, r2, d2);
        if g.end == "eof" || g.end == "err" {
            // the decoder frees in any state: whoever still waits is told
            m.abandon();
        }
        (g, t.join())
    } else {
        let w = MultiWorker::<A, A>::new(&mut mc);
        let mut m = w.clone();
        let e = m.clone();
        let t = std::thread::spawn(move || worker(w, script, spares, r1, d1, &|| e.has_err()));
        let g = main_end(&mut m, bufs, size, stop, true, r2, d2);
        if g.end == "eof" || g.end == "err" {
            m.abandon();
        }
        (g, t.join())
    };
    let s = match s {
        Ok(s) => s,
        Err(_) => return Err(viol("the worker panicked", desc)),
    };
    c.eval(1);
    c.distinct(mix(h(&mut g)));
    c.seen(format!("{} queue ends: {}", if buffered { "buffered" } else { "plain" }, g.end));
    c.add("commands handed over", g.cmds.len() as u64);
    c.add("buffers handed over and back", g.back.len() as u64);
    c.add("context maps handed over", g.maps.len() as u64);
    c.add("context maps handed back", s.maps_back as u64);
    c.add("batches pulled", g.pulls);
    let show = |x: &str| format!("{} [{}; sent {} commands, {} buffers used, eof {}, failed {}, saw error {}; got {} commands, {} buffers back, end {}]", x, desc, s.cmds.len(), s.used.len(), s.eof, s.failed, s.saw_err, g.cmds.len(), g.back.len(), g.end);
    for x in [&s.complaint, &g.complaint] {
        if let Some(x) = x {
            return Err(viol(x.clone(), show("")));
        }
    }
    if s.saw_err && stop.is_none() && g.end != "eof" {
        return Err(viol("the worker was told of an error nobody raised", show("")));
    }
    if g.cmds.len() > s.cmds.len() + 1 || g.cmds.iter().zip(s.cmds.iter()).any(|(a, b)| a != b) {
        return Err(viol("commands do not arrive once and in order", show(&format!("first difference at {:?}", g.cmds.iter().zip(s.cmds.iter()).position(|(a, b)| a != b)))));
    }
    for (k, i) in s.used.iter().enumerate() {
        if *i != k as u32 {
            return Err(viol("buffers do not reach the worker once and in order", show(&format!("{:?}", s.used))));
        }
    }
    for (k, i) in g.back.iter().enumerate() {
        if *i != k as u32 {
            return Err(viol("buffers do not come back once and in order", show(&format!("{:?}", g.back))));
        }
    }
    if g.back.len() > s.used.len() {
        return Err(viol("a buffer came back unread", show("")));
    }
    if g.end == "eof" {
        if g.cmds != s.cmds {
            return Err(viol("commands are missing at the end", show("")));
        }
        if !s.eof {
            return Err(viol("an end nobody sent", show("")));
        }
    }
    if s.eof && stop.is_none() && g.end != "eof" {
        return Err(viol("the end was not delivered", show("")));
    }
    if s.failed && g.end != "err" {
        return Err(viol("the worker's failure was not delivered", show("")));
    }
    if fail >= 2 && g.end == "err" {
        return Err(viol("an error nobody raised", show("")));
    }
    if c.idx < 8 {
        c.sample = Some(show("queue run"));
    }
    Ok(())
}
fn whole(c: &mut Case, r: &mut Rng) -> Result<(), Viol> {
    let max = if cfg!(feature = "nocount") { 3000 } else { 8000 };
    let kind = r.us(4);
    let (s, desc) = match kind {
        0 | 1 => {
            let (_, e, d) = valid(r, max);
            (e, d)
        }
        2 => {
            let (_, mut e, d) = valid(r, max);
            let n = r.us(e.len());
            e.truncate(n);
            (e, format!("truncated to {} of {}", n, d))
        }
        _ => hostile(r),
    };
    let skip = r.chance(1, 4);
    let (is, os) = (Sched::random(r, s.len()), Sched::random(r, 100_000));
    let mut st = Stats::default();
    let a = decode_all(&s, skip, false, &Sched::All, &Sched::Fixed(65536), r, &mut st, 4 * MB);
    crate::mem::set_jitter(*r.pick(&[0, 1, 4, 30]));
    let res = (|| {
        if kind == 1 {
            let mut d = decoder(skip, true);
            let calls = r.range(0, 12);
            let mut pos = 0;
            let mut got = Vec::new();
            for _ in 0..calls {
                let n = is.next(r, 0).min(s.len() - pos);
                let mut o = vec![0u8; os.next(r, 0).min(70000)];
                let (mut i, mut oo) = (0, 0);
                let _ = d.decode(&s[pos..pos + n], &mut i, &mut o, &mut oo);
                pos += i;
                got.extend_from_slice(&o[..oo]);
            }
            if r.bool() {
                d.free();
                c.seen("decoder: freed early");
            } else {
                drop(d);
                c.seen("decoder: dropped early");
            }
            if got.len() > a.out.len() || got[..] != a.out[..got.len()] {
                return Err(viol("threaded output before free is not a prefix of the serial output", desc.clone()));
            }
            return Ok(());
        }
        let b = decode_all(&s, skip, true, &is, &os, r, &mut st, 4 * MB);
        c.seen(format!("decoder: {} stream: {}", ["valid", "valid", "cut", "hostile"][kind], b.kind()));
        let n = a.out.len().min(b.out.len());
        if (a.end == End::Success) != (b.end == End::Success) || a.out[..n] != b.out[..n] || (a.end == End::Success && a.out.len() != b.out.len()) {
            return Err(viol("threaded and serial decoder differ", format!("serial {:?}/{}, threaded {:?}/{}, {} [{}]", a.end, a.out.len(), b.end, b.out.len(), first_diff(&a.out, &b.out), desc)));
        }
        Ok(())
    })();
    crate::mem::set_jitter(0);
    c.eval(1);
    c.distinct(mix(fnv(&s)));
    res
}
fn case(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    if c.idx % 3 == 0 {
        whole(c, r)
    } else {
        queue(c, r)
    }
}
pub fn plan() -> Plan {
    Plan {
        prop: "C19",
        quick: 6000,
        thorough: 300_000,
        rule: "one evaluation = one run of the two-sided queue with stamped commands, input buffers and context maps under random delays (all items accounted for on both sides at the end), or one stream through the threaded decoder compared with the serial one; repeated with everything compiled under ThreadSanitizer, any report of which is a violation; distinct = distinct sequences of batch sizes seen by the receiving side, and distinct streams",
        assumptions: &["items, their order and accesses are those of the executions observed; the scheduler is perturbed, not enumerated"],
        memcap: 12_000 * MB,
        workers: 8,
        budget: 80,
        case,
    }
}
