//! Own model of the command (IR) layer: generator and reference expansion over a plain vector.
use crate::gen;
use crate::rng::Rng;
use brotli::enc::interface::{BlockSwitch, CopyCommand, DictCommand, LiteralBlockSwitch, LiteralCommand, PredictionModeContextMap};
use divans::interface::Command;

#[derive(Clone, Debug, PartialEq)]
pub struct Pred {
    pub lit: Vec<u8>,
    pub dist: Vec<u8>,
    pub mode: u8,
    pub math: u8,
    pub adv: u8,
    pub mixing: Vec<u8>,
    pub speeds: [u8; 12],
    /// no speeds, mixing values or distance map at all
    pub bare: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Cmd {
    Lit(Vec<u8>, bool),
    Copy { distance: u32, num: u32 },
    Dict { size: u8, transform: u8, fin: u8, id: u32 },
    Pred(Box<Pred>),
    BsC(u8),
    BsD(u8),
    BsL(u8, u8),
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct V(pub Vec<u8>);
impl alloc_no_stdlib::SliceWrapper<u8> for V {
    fn slice(&self) -> &[u8] {
        &self.0
    }
}
pub fn to_divans(cmds: &[Cmd]) -> Vec<Command<V>> {
    cmds.iter().map(one).collect()
}
pub fn one(c: &Cmd) -> Command<V> {
    match c {
        Cmd::Lit(d, h) => Command::Literal(LiteralCommand { data: V(d.clone()), prob: Default::default(), high_entropy: *h }),
        Cmd::Copy { distance, num } => Command::Copy(CopyCommand { distance: *distance, num_bytes: *num }),
        Cmd::Dict { size, transform, fin, id } => Command::Dict(DictCommand { word_size: *size, transform: *transform, final_size: *fin, empty: 0, word_id: *id }),
        Cmd::BsC(t) => Command::BlockSwitchCommand(BlockSwitch::new(*t)),
        Cmd::BsD(t) => Command::BlockSwitchDistance(BlockSwitch::new(*t)),
        Cmd::BsL(t, s) => Command::BlockSwitchLiteral(LiteralBlockSwitch::new(*t, *s)),
        Cmd::Pred(p) => {
            let mut v = vec![];
            if !p.bare {
                v.extend_from_slice(&[p.mode, p.math, p.adv, 0]);
                v.extend_from_slice(&p.mixing);
                v.extend_from_slice(&p.speeds);
                v.extend_from_slice(&p.dist);
            }
            Command::PredictionMode(PredictionModeContextMap { literal_context_map: V(p.lit.clone()), predmode_speed_and_distance_context_map: V(v) })
        }
    }
}
/// commands handed back by divans, in our form
pub fn from_divans<S: alloc_no_stdlib::SliceWrapper<u8>>(c: &Command<S>) -> Cmd {
    match c {
        Command::Literal(l) => Cmd::Lit(l.data.slice().to_vec(), l.high_entropy),
        Command::Copy(c) => Cmd::Copy { distance: c.distance, num: c.num_bytes },
        Command::Dict(d) => Cmd::Dict { size: d.word_size, transform: d.transform, fin: d.final_size, id: d.word_id },
        Command::BlockSwitchCommand(b) => Cmd::BsC(b.block_type()),
        Command::BlockSwitchDistance(b) => Cmd::BsD(b.block_type()),
        Command::BlockSwitchLiteral(b) => Cmd::BsL(b.block_type(), b.stride()),
        Command::PredictionMode(p) => {
            let v = p.predmode_speed_and_distance_context_map.slice();
            let bare = v.len() < 4 + 8192 + 12;
            let mut speeds = [0; 12];
            if !bare {
                speeds.copy_from_slice(&v[4 + 8192..4 + 8192 + 12]);
            }
            Cmd::Pred(Box::new(Pred {
                lit: p.literal_context_map.slice().to_vec(),
                dist: if bare { vec![] } else { v[4 + 8192 + 12..].to_vec() },
                mode: *v.get(0).unwrap_or(&0),
                math: *v.get(1).unwrap_or(&1),
                adv: *v.get(2).unwrap_or(&0),
                mixing: if bare { vec![] } else { v[4..4 + 8192].to_vec() },
                speeds,
                bare,
            }))
        }
    }
}
/// A dictionary word after its transform; None when there is no such word or transform.
pub fn word(size: u8, transform: u8, id: u32) -> Option<Vec<u8>> {
    let n = size as usize;
    if n < 4 || n > 24 || transform > 120 || id >= 1 << gen::DICT_BITS[n] {
        return None;
    }
    let off = gen::DICT_OFF[n] as usize + n * id as usize;
    let w = &gen::brotli_dict()[off..off + n];
    let mut out = [0u8; 64];
    let k = brotli::TransformDictionaryWord(&mut out, w, n as i32, transform as i32);
    Some(out[..k as usize].to_vec())
}
/// What a command sequence denotes (None: it denotes nothing, the sequence is invalid).
pub fn expand(cmds: &[Cmd]) -> Option<Vec<u8>> {
    let mut v = vec![];
    for c in cmds {
        push(&mut v, c)?;
    }
    Some(v)
}
pub fn push(v: &mut Vec<u8>, c: &Cmd) -> Option<()> {
    match c {
        Cmd::Lit(d, _) => v.extend_from_slice(d),
        Cmd::Copy { distance, num } => {
            let d = *distance as usize;
            if *num > 0 && (d == 0 || d > v.len()) {
                return None;
            }
            for _ in 0..*num {
                let b = v[v.len() - d];
                v.push(b);
            }
        }
        Cmd::Dict { size, transform, fin, id } => {
            let w = word(*size, *transform, *id)?;
            if *fin != 0 && w.len() != *fin as usize {
                return None;
            }
            v.extend_from_slice(&w);
        }
        _ => {}
    }
    Some(())
}
pub struct G {
    /// furthest allowed copy distance
    pub maxdist: usize,
    pub maxout: usize,
    pub maxcmds: usize,
    /// block switches and prediction modes too
    pub modes: bool,
    /// copies and literals of no bytes
    pub empty: bool,
}
fn map(r: &mut Rng, n: usize) -> Vec<u8> {
    let top = *r.pick(&[1usize, 2, 3, 4, 13, 14, 15, 16, 17, 64, 256]);
    match r.us(6) {
        0 => (0..n).map(|i| (i % top) as u8).collect(),
        1 => vec![r.us(top) as u8; n],
        2 => (0..n).map(|i| (i * top / n.max(1)) as u8).collect(),
        3 => {
            let mut x = 0u8;
            (0..n)
                .map(|_| {
                    if r.chance(1, 8) {
                        x = x.wrapping_add(1)
                    } else if r.chance(1, 6) {
                        x = r.us(top) as u8
                    }
                    x
                })
                .collect()
        }
        _ => (0..n).map(|_| r.us(top) as u8).collect(),
    }
}
pub fn pred(r: &mut Rng) -> Pred {
    let bare = r.chance(1, 8);
    let nl = if r.chance(1, 6) { 0 } else { 64 * r.logu(1, 256) };
    let nd = if r.chance(1, 6) || bare { 0 } else { 4 * r.logu(1, 256) };
    let lit = map(r, nl);
    let dist = map(r, nd);
    let mixing = if bare {
        vec![]
    } else {
        match r.us(4) {
            0 => vec![0; 8192],
            1 => vec![r.us(16) as u8; 8192],
            2 => (0..8192).map(|i| (i / 512) as u8).collect(),
            _ => (0..8192).map(|_| r.us(16) as u8).collect(),
        }
    };
    let mut speeds = [0u8; 12];
    if r.bool() {
        for s in speeds.iter_mut() {
            *s = if r.chance(1, 4) { 0 } else { r.us(0x78) as u8 };
        }
    }
    Pred { lit, dist, mode: r.us(4) as u8, math: r.us(4) as u8, adv: r.chance(1, 4) as u8, mixing, speeds, bare }
}
/// A random valid sequence and what it denotes.
/// at this many commands they are small ones
pub const MANY: usize = 5000;
pub fn gen(r: &mut Rng, g: &G) -> (Vec<Cmd>, Vec<u8>) {
    let mut v: Vec<u8> = vec![];
    let mut out = vec![];
    let many = g.maxcmds >= MANY;
    let n = if many { r.logu(2000, g.maxcmds) } else { r.logu(1, g.maxcmds) };
    let mut recent = vec![4usize, 11, 15, 16];
    let style = r.us(4);
    let (src, _) = gen::data(r, 8000);
    let src = if src.is_empty() { vec![7; 9] } else { src };
    let mut at = 0usize;
    if g.modes && r.chance(5, 6) {
        out.push(Cmd::Pred(Box::new(pred(r))));
    }
    let mut top = [0u8; 3];
    // now and then, prediction modes one after the other
    let heavy = g.modes && r.chance(1, 8);
    let mut npred = 0;
    while out.len() < n && v.len() < g.maxout {
        let left = g.maxout - v.len();
        let pick = r.us(16);
        let c = if heavy && npred < 12 && pick >= 9 {
            npred += 1;
            Cmd::Pred(Box::new(pred(r)))
        } else if g.modes && pick == 15 {
            match r.us(8) {
                0 | 1 => Cmd::BsC(bt(r, &mut top[0])),
                2 | 3 => Cmd::BsD(bt(r, &mut top[1])),
                4 if r.chance(1, 6) => Cmd::Pred(Box::new(pred(r))),
                _ => Cmd::BsL(bt(r, &mut top[2]), r.us(9) as u8),
            }
        } else if pick >= 13 || (style == 2 && pick >= 8) {
            let size = r.range(4, 24) as u8;
            let transform = if r.chance(1, 3) { 0 } else { r.us(121) as u8 };
            let id = if r.chance(1, 8) { (1 << gen::DICT_BITS[size as usize]) - 1 } else { r.us(1 << gen::DICT_BITS[size as usize]) as u32 };
            let w = word(size, transform, id).unwrap();
            if w.is_empty() || w.len() > left {
                continue;
            }
            Cmd::Dict { size, transform, fin: w.len() as u8, id }
        } else if pick >= 7 && !v.is_empty() || (style == 1 && pick > 2 && !v.is_empty()) {
            let lim = v.len().min(g.maxdist);
            let d = match r.us(9) {
                0 => lim,
                1 => r.range(1, lim.min(70)),
                2 => lim.saturating_sub(r.us(4)).max(1),
                3 => *r.pick(&recent),
                4 => (*r.pick(&recent) + r.us(7)).saturating_sub(3),
                5 => 1usize << r.us(24),
                6 => (1usize << r.us(24)) - 1,
                _ => r.logu(1, lim),
            };
            let d = d.min(lim).max(1);
            let num = match r.us(8) {
                0 => r.range(1, 20),
                1 => d,
                2 => d + r.us(5),
                3 => d.saturating_sub(r.us(3)).max(1),
                4 => d * r.range(1, 5),
                5 => r.logu(1, 100_000),
                6 if g.maxout > 1 << 20 => (1usize << r.range(18, 25)) + r.us(5) - 2,
                7 if g.maxout > 1 << 20 => r.logu(1 << 16, g.maxout),
                _ => r.logu(1, 300),
            }
            .min(left);
            recent[r.us(4)] = d;
            let num = if many { num.min(1 + d % 30) } else { num };
            let num = if g.empty && r.chance(1, 40) { 0 } else { num };
            Cmd::Copy { distance: d as u32, num: num as u32 }
        } else {
            let m = match r.us(8) {
                0 => r.range(1, 20),
                1 => *r.pick(&[14usize, 15, 16, 17, 31, 32, 63, 64, 65, 255, 256, 257, 1023, 1024, 1025]),
                2 => r.logu(1, 20_000),
                _ => r.logu(1, 200),
            }
            .min(left);
            let m = if many { m.min(7) } else { m };
            let m = if g.empty && r.chance(1, 40) { 0 } else { m };
            let hi = r.chance(1, 5);
            let d: Vec<u8> = if hi { (0..m).map(|_| r.byte()).collect() } else { (0..m).map(|i| src[(at + i) % src.len()]).collect() };
            at = (at + m) % src.len();
            Cmd::Lit(d, hi)
        };
        push(&mut v, &c).unwrap();
        out.push(c);
    }
    (out, v)
}
/// a block type; `top` is the largest so far (the one after it has a code of its own)
fn bt(r: &mut Rng, top: &mut u8) -> u8 {
    let t = match r.us(6) {
        0 if r.chance(1, 4) => r.byte(),
        1 => r.us(16) as u8,
        2 | 3 => top.wrapping_add(1),
        _ => r.us(4) as u8,
    };
    *top = t.max(*top);
    t
}
/// Break a sequence somewhere (the result is invalid by the reference, or near the edge of it).
pub fn spoil(r: &mut Rng, cmds: &mut Vec<Cmd>, ring: usize) -> usize {
    let at = r.us(cmds.len() + 1);
    let c = match r.us(8) {
        0 => Cmd::Copy { distance: 0, num: r.logu(1, 1000) as u32 },
        1 => Cmd::Copy { distance: (ring + r.us(3)) as u32, num: r.logu(1, 1000) as u32 },
        2 => Cmd::Copy { distance: r.u32() >> r.us(31), num: r.logu(1, 5000) as u32 },
        3 => Cmd::Dict { size: r.range(4, 24) as u8, transform: if r.bool() { r.range(121, 123) } else { r.range(121, 255) } as u8, fin: 0, id: r.us(32) as u32 },
        5 if r.bool() => {
            // the words around the end of the dictionary
            let size = r.range(4, 24) as u8;
            let room = gen::brotli_dict().len() as u32 - gen::DICT_OFF[size as usize];
            Cmd::Dict { size, transform: 0, fin: 0, id: (room / size as u32 + r.us(3) as u32).saturating_sub(1) }
        }
        4 => Cmd::Dict { size: *r.pick(&[0u8, 1, 2, 3, 25, 26, 40, 255]), transform: r.us(121) as u8, fin: r.us(30) as u8, id: r.u32() >> r.us(32) },
        5 => Cmd::Dict { size: r.range(4, 24) as u8, transform: r.us(121) as u8, fin: 0, id: r.u32() >> r.us(20) },
        6 => Cmd::Dict { size: r.range(4, 24) as u8, transform: 0, fin: r.range(1, 60) as u8, id: 0 },
        _ => Cmd::Copy { distance: u32::max_value() - r.us(3) as u32, num: r.logu(1, 100) as u32 },
    };
    cmds.insert(at, c);
    at
}
