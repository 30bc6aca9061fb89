//! Streaming drivers with an inline protocol monitor.
use crate::rng::Rng;
use alloc_no_stdlib::SliceWrapper;
use alloc_stdlib::HeapAlloc;
use brotli::enc;
use divans::interface::Command;
use divans::{
    BrotliDivansHybridCompressorFactory, Compressor, Decompressor, DefaultCDF16, DivansCompressorFactory, DivansCompressorFactoryStruct, DivansCompressorOptions,
    DivansDecompressorFactory, DivansDecompressorFactoryStruct, DivansOutputResult, DivansResult, Nop, StaticCommand,
};

pub type Comb = enc::CombiningAllocator<
    HeapAlloc<u8>,
    HeapAlloc<u16>,
    HeapAlloc<i32>,
    HeapAlloc<u32>,
    HeapAlloc<u64>,
    HeapAlloc<enc::command::Command>,
    HeapAlloc<enc::util::floatX>,
    HeapAlloc<enc::v8>,
    HeapAlloc<enc::s16>,
    HeapAlloc<enc::PDF>,
    HeapAlloc<enc::StaticCommand>,
    HeapAlloc<enc::histogram::HistogramLiteral>,
    HeapAlloc<enc::histogram::HistogramCommand>,
    HeapAlloc<enc::histogram::HistogramDistance>,
    HeapAlloc<enc::cluster::HistogramPair>,
    HeapAlloc<enc::histogram::ContextType>,
    HeapAlloc<enc::entropy_encode::HuffmanTree>,
    HeapAlloc<enc::ZopfliNode>,
>;
pub type HybFactory = BrotliDivansHybridCompressorFactory<HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, Comb>;
pub type Hybrid = <HybFactory as DivansCompressorFactory<HeapAlloc<u8>, HeapAlloc<u32>, HeapAlloc<DefaultCDF16>>>::ConstructedCompressor;
pub type IntFactory = DivansCompressorFactoryStruct<HeapAlloc<u8>, HeapAlloc<DefaultCDF16>>;
pub type Internal = <IntFactory as DivansCompressorFactory<HeapAlloc<u8>, HeapAlloc<u32>, HeapAlloc<DefaultCDF16>>>::ConstructedCompressor;
pub type DecFactory = DivansDecompressorFactoryStruct<HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, HeapAlloc<StaticCommand>>;
pub type DefaultDecoder = <DecFactory as DivansDecompressorFactory<HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, HeapAlloc<StaticCommand>>>::DefaultDecoder;
pub type DefaultEncoder = <IntFactory as DivansCompressorFactory<HeapAlloc<u8>, HeapAlloc<u32>, HeapAlloc<DefaultCDF16>>>::DefaultEncoder;
pub type Decoder = divans::DivansDecompressor<DefaultDecoder, HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, HeapAlloc<StaticCommand>>;

pub fn comb() -> Comb {
    enc::CombiningAllocator::new(
        HeapAlloc::<u8>::new(0),
        HeapAlloc::<u16>::new(0),
        HeapAlloc::<i32>::new(0),
        HeapAlloc::<u32>::new(0),
        HeapAlloc::<u64>::new(0),
        HeapAlloc::<enc::command::Command>::new(Default::default()),
        HeapAlloc::<enc::util::floatX>::new(0.0 as enc::util::floatX),
        HeapAlloc::<enc::v8>::new(Default::default()),
        HeapAlloc::<enc::s16>::new(Default::default()),
        HeapAlloc::<enc::PDF>::new(Default::default()),
        HeapAlloc::<enc::StaticCommand>::new(Default::default()),
        HeapAlloc::<enc::histogram::HistogramLiteral>::new(Default::default()),
        HeapAlloc::<enc::histogram::HistogramCommand>::new(Default::default()),
        HeapAlloc::<enc::histogram::HistogramDistance>::new(Default::default()),
        HeapAlloc::<enc::cluster::HistogramPair>::new(Default::default()),
        HeapAlloc::<enc::histogram::ContextType>::new(Default::default()),
        HeapAlloc::<enc::entropy_encode::HuffmanTree>::new(Default::default()),
        HeapAlloc::<enc::ZopfliNode>::new(Default::default()),
    )
}
pub fn hybrid(o: DivansCompressorOptions) -> Hybrid {
    <HybFactory as DivansCompressorFactory<HeapAlloc<u8>, HeapAlloc<u32>, HeapAlloc<DefaultCDF16>>>::new(HeapAlloc::new(0), HeapAlloc::new(0), HeapAlloc::new(DefaultCDF16::default()), o, comb())
}
pub fn internal(o: DivansCompressorOptions) -> Internal {
    <IntFactory as DivansCompressorFactory<HeapAlloc<u8>, HeapAlloc<u32>, HeapAlloc<DefaultCDF16>>>::new(HeapAlloc::new(0), HeapAlloc::new(0), HeapAlloc::new(DefaultCDF16::default()), o, ())
}
pub fn decoder(skip_crc: bool, mt: bool) -> Decoder {
    DecFactory::new(HeapAlloc::new(0), HeapAlloc::new(DefaultCDF16::default()), HeapAlloc::new(StaticCommand::nop()), skip_crc, mt)
}

/// How to cut a byte stream into the pieces offered per call.
#[derive(Clone, Debug, PartialEq)]
pub enum Sched {
    All,
    Fixed(usize),
    /// random sizes 1..=max, log distributed; `zero` chance/16 of an empty offer
    Rand { max: usize, zero: u64 },
    /// cycle through explicit sizes
    List(Vec<usize>),
}
impl Sched {
    pub fn next(&self, r: &mut Rng, k: usize) -> usize {
        match self {
            Sched::All => usize::MAX / 2,
            Sched::Fixed(n) => *n,
            Sched::Rand { max, zero } => {
                if *zero > 0 && r.chance(*zero, 16) {
                    0
                } else {
                    r.logu(1, *max)
                }
            }
            Sched::List(l) => l[k % l.len()],
        }
    }
    pub fn random(r: &mut Rng, total: usize) -> Sched {
        // tiny chunks only when the total is small enough to be affordable
        let tiny = total < 30_000;
        match r.us(9) {
            0 => Sched::All,
            1 if tiny => Sched::Fixed(1),
            2 if tiny => Sched::Fixed(r.range(1, 7)),
            3 => Sched::Fixed(*r.pick(&[15usize, 16, 17, 31, 64, 127, 255, 256, 257])),
            4 => Sched::Fixed(r.logu(64, 70_000)),
            5 => Sched::Rand { max: r.logu(8, 70_000), zero: 0 },
            6 => Sched::Rand { max: r.logu(8, 70_000), zero: 3 },
            7 => Sched::Fixed(*r.pick(&[1023usize, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537])),
            _ => {
                let n = r.range(1, 5);
                let lo = if tiny { 1 } else { 40 };
                Sched::List((0..n).map(|_| r.logu(lo, 5000)).collect())
            }
        }
    }
    pub fn cls(&self) -> &'static str {
        match self {
            Sched::All => "all",
            Sched::Fixed(1) => "1",
            Sched::Fixed(n) if *n < 16 => "2-15",
            Sched::Fixed(n) if *n < 256 => "16-255",
            Sched::Fixed(n) if *n < 4096 => "256-4k",
            Sched::Fixed(_) => "4k+",
            Sched::Rand { zero: 0, .. } => "rand",
            Sched::Rand { .. } => "rand+empty",
            Sched::List(_) => "list",
        }
    }
}

/// protocol violations observed by the monitor (property C11) are returned as strings
pub type Proto = Result<(), String>;

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub calls: u64,
    pub need_in: u64,
    pub need_out: u64,
    pub zero_progress: u64,
    pub unconsumed_needin: u64,
    pub unfilled_needout: u64,
}

pub const CANARY: u8 = 0xA7;
const ZP_LIMIT: u64 = 64;

/// One monitored call. `f` performs the call on (input, in_off, output, out_off).
/// Output buffer is `obuf[0..olen]`; returns the result.
fn monitored<R, F: FnOnce(&[u8], &mut usize, &mut [u8], &mut usize) -> R>(
    what: &str,
    input: &[u8],
    in_off: &mut usize,
    obuf: &mut [u8],
    out_off: &mut usize,
    f: F,
) -> Result<R, String> {
    let (i0, o0) = (*in_off, *out_off);
    let pre = crate::rng::fnv(&obuf[..o0]);
    let r = f(input, in_off, obuf, out_off);
    if *in_off < i0 || *in_off > input.len() {
        return Err(format!("{}: input offset moved from {} to {} with input length {}", what, i0, *in_off, input.len()));
    }
    if *out_off < o0 || *out_off > obuf.len() {
        return Err(format!("{}: output offset moved from {} to {} with output length {}", what, o0, *out_off, obuf.len()));
    }
    if crate::rng::fnv(&obuf[..o0]) != pre {
        return Err(format!("{}: bytes before the output offset {} were modified", what, o0));
    }
    Ok(r)
}

/// Encode `data` through a `Compressor`, cutting the input by `is` and giving output space by `os`.
pub fn encode_all<C: Compressor>(c: &mut C, data: &[u8], is: &Sched, os: &Sched, r: &mut Rng, st: &mut Stats) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    let mut pos = 0usize;
    let mut k = 0usize;
    let mut zp = 0u64;
    let bound = data.len() * 2 + (1 << 20);
    let mut first = !data.is_empty() || r.bool(); // nothing to compress: flushed with or without a call before
    while pos < data.len() || (first && data.is_empty()) {
        first = false;
        let n = is.next(r, k).min(data.len() - pos);
        let mut inpos = 0usize;
        let chunk = &data[pos..pos + n];
        loop {
            let on = os.next(r, k + 1).min(1 << 17);
            let lead = if r.chance(1, 4) { r.range(0, 9) } else { 0 };
            let mut obuf = vec![CANARY; on + lead];
            let mut oo = lead;
            let i0 = inpos;
            k += 1;
            st.calls += 1;
            let res = monitored("encode", chunk, &mut inpos, &mut obuf, &mut oo, |i, io, o, oo| c.encode(i, io, o, oo))?;
            out.extend_from_slice(&obuf[lead..oo]);
            let progress = inpos != i0 || oo != lead;
            match res {
                DivansResult::Failure(m) => return Err(format!("encode failed: {:?}", m)),
                DivansResult::Success | DivansResult::NeedsMoreInput => {
                    st.need_in += 1;
                    if inpos != chunk.len() {
                        st.unconsumed_needin += 1;
                        if !progress {
                            zp += 1;
                        } else {
                            zp = 0;
                        }
                    } else {
                        zp = 0;
                        break;
                    }
                }
                DivansResult::NeedsMoreOutput => {
                    st.need_out += 1;
                    if progress || on == 0 {
                        zp = 0;
                    } else {
                        st.zero_progress += 1;
                        zp += 1;
                    }
                }
            }
            if zp > ZP_LIMIT {
                return Err(format!("encode makes no progress: {} consecutive calls with {} input bytes unread and output space given returned {:?}", zp, chunk.len() - inpos, res));
            }
            if out.len() > bound {
                return Err(format!("encoder output {} exceeds 2*n+1M for n={}", out.len(), data.len()));
            }
        }
        pos += n;
    }
    flush_all(c, os, r, st, &mut out, bound)?;
    Ok(out)
}

pub fn flush_all<C: Compressor>(c: &mut C, os: &Sched, r: &mut Rng, st: &mut Stats, out: &mut Vec<u8>, bound: usize) -> Proto {
    let mut zp = 0;
    let mut k = 0usize;
    loop {
        let on = os.next(r, k).min(1 << 17);
        let lead = if r.chance(1, 4) { r.range(0, 9) } else { 0 };
        let mut obuf = vec![CANARY; on + lead];
        let mut oo = lead;
        k += 1;
        st.calls += 1;
        let mut dummy = 0usize;
        let res = monitored("flush", &[], &mut dummy, &mut obuf, &mut oo, |_, _, o, oo| c.flush(o, oo))?;
        out.extend_from_slice(&obuf[lead..oo]);
        match res {
            DivansOutputResult::Failure(m) => return Err(format!("flush failed: {:?}", m)),
            DivansOutputResult::Success => return Ok(()),
            DivansOutputResult::NeedsMoreOutput => {
                st.need_out += 1;
                if oo == lead && on != 0 {
                    st.zero_progress += 1;
                    zp += 1;
                } else {
                    zp = 0;
                }
            }
        }
        if zp > ZP_LIMIT {
            return Err("flush makes no progress: NeedsMoreOutput with output space given and nothing written".to_string());
        }
        if out.len() > bound {
            return Err(format!("flush output {} exceeds bound {}", out.len(), bound));
        }
    }
}

/// Encode IR commands through `encode_commands`
pub fn encode_cmds<C: Compressor, S: SliceWrapper<u8> + Default>(c: &mut C, cmds: &[Command<S>], is: &Sched, os: &Sched, r: &mut Rng, st: &mut Stats, bound: usize) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    let mut pos = 0;
    let mut k = 0;
    let mut zp = 0u64;
    while pos < cmds.len() {
        let n = is.next(r, k).max(1).min(cmds.len() - pos);
        let chunk = &cmds[pos..pos + n];
        let mut ci = 0usize;
        loop {
            let on = os.next(r, k + 1).min(1 << 17);
            let lead = if r.chance(1, 4) { r.range(0, 9) } else { 0 };
            let mut obuf = vec![CANARY; on + lead];
            let mut oo = lead;
            if ci == 0 && r.chance(1, 16) {
                // nothing to encode, or nothing left to encode
                let mut e = if r.bool() { 0 } else { pos };
                let e0 = e;
                match c.encode_commands(&cmds[..e], &mut e, &mut obuf, &mut oo) {
                    DivansOutputResult::Failure(m) => return Err(format!("encode_commands of nothing failed: {:?}", m)),
                    DivansOutputResult::Success | DivansOutputResult::NeedsMoreOutput => {}
                }
                if e != e0 || oo > obuf.len() || oo < lead {
                    return Err("encode_commands of nothing moved an offset".into());
                }
                out.extend_from_slice(&obuf[lead..oo]);
                continue;
            }
            let c0 = ci;
            k += 1;
            st.calls += 1;
            let mut dummy = 0usize;
            let res = monitored("encode_commands", &[], &mut dummy, &mut obuf, &mut oo, |_, _, o, oo| c.encode_commands(chunk, &mut ci, o, oo))?;
            out.extend_from_slice(&obuf[lead..oo]);
            if ci < c0 || ci > chunk.len() {
                return Err(format!("encode_commands: command offset moved from {} to {} of {}", c0, ci, chunk.len()));
            }
            match res {
                DivansOutputResult::Failure(m) => return Err(format!("encode_commands failed: {:?}", m)),
                DivansOutputResult::Success => {
                    if ci != chunk.len() {
                        return Err(format!("encode_commands returned Success having consumed {} of {} commands", ci, chunk.len()));
                    }
                    break;
                }
                DivansOutputResult::NeedsMoreOutput => {
                    st.need_out += 1;
                    if oo == lead && ci == c0 && on != 0 {
                        zp += 1;
                    } else {
                        zp = 0;
                    }
                }
            }
            if zp > ZP_LIMIT {
                return Err("encode_commands makes no progress: NeedsMoreOutput with output space given".to_string());
            }
            if out.len() > bound {
                return Err(format!("encode_commands output {} exceeds bound {}", out.len(), bound));
            }
        }
        pos += n;
    }
    flush_all(c, os, r, st, &mut out, bound)?;
    Ok(out)
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Success,
    /// all input was consumed (or the decoder kept asking) and it still wants more
    WantsInput,
    Failed(String),
    /// protocol violation seen by the monitor
    Proto(String),
    /// produced more than the cap
    OutLimit,
}
#[derive(Clone, Debug)]
pub struct Decoded {
    pub end: End,
    pub out: Vec<u8>,
    pub consumed: usize,
}
impl Decoded {
    pub fn kind(&self) -> &'static str {
        match self.end {
            End::Success => "success",
            End::WantsInput => "wants-input",
            End::Failed(_) => "failed",
            End::Proto(_) => "proto",
            End::OutLimit => "outlimit",
        }
    }
}

/// Drive any decoder-shaped step function.
pub fn decode_with<F: FnMut(&[u8], &mut usize, &mut [u8], &mut usize) -> DivansResult>(mut f: F, input: &[u8], is: &Sched, os: &Sched, r: &mut Rng, st: &mut Stats, cap: usize) -> Decoded {
    let mut out = Vec::new();
    let mut pos = 0usize; // consumed
    let mut avail = 0usize; // end of the offered window
    let mut k = 0usize;
    let mut zp = 0u64;
    let mut end_polls = 0;
    loop {
        if avail == pos && avail < input.len() {
            let n = is.next(r, k).min(input.len() - avail);
            avail += n;
        }
        let on = os.next(r, k + 1).min(1 << 17);
        let lead = if r.chance(1, 4) { r.range(0, 9) } else { 0 };
        let mut obuf = vec![CANARY; on + lead];
        let mut oo = lead;
        let mut io = 0usize;
        let chunk = &input[pos..avail];
        k += 1;
        st.calls += 1;
        let res = match monitored("decode", chunk, &mut io, &mut obuf, &mut oo, |i, io, o, oo| f(i, io, o, oo)) {
            Ok(r) => r,
            Err(e) => return Decoded { end: End::Proto(e), out, consumed: pos },
        };
        pos += io;
        out.extend_from_slice(&obuf[lead..oo]);
        let progress = io > 0 || oo > lead;
        match res {
            DivansResult::Success => return Decoded { end: End::Success, out, consumed: pos },
            DivansResult::Failure(m) => return Decoded { end: End::Failed(format!("{:?}", m)), out, consumed: pos },
            DivansResult::NeedsMoreInput => {
                st.need_in += 1;
                if pos != avail {
                    st.unconsumed_needin += 1;
                }
                if avail == input.len() {
                    if pos == avail && !progress {
                        end_polls += 1;
                        if end_polls >= 2 {
                            return Decoded { end: End::WantsInput, out, consumed: pos };
                        }
                    } else if !progress {
                        zp += 1;
                        if zp > ZP_LIMIT {
                            // it insists on input while it refuses the rest of the stream it was given
                            return Decoded { end: End::Proto(format!("decode asks for input but does not consume the {} bytes offered", avail - pos)), out, consumed: pos };
                        }
                    } else {
                        zp = 0;
                    }
                } else {
                    // give it more than it left unread
                    let n = is.next(r, k).max(1).min(input.len() - avail);
                    if pos != avail || n > 0 {
                        avail += n;
                    }
                    if progress {
                        zp = 0;
                    }
                }
            }
            DivansResult::NeedsMoreOutput => {
                st.need_out += 1;
                if oo < obuf.len() {
                    st.unfilled_needout += 1;
                }
                if progress || on == 0 {
                    zp = 0;
                } else {
                    st.zero_progress += 1;
                    zp += 1;
                    if zp > ZP_LIMIT {
                        return Decoded { end: End::Proto("decode returns NeedsMoreOutput with output space given and makes no progress".into()), out, consumed: pos };
                    }
                }
            }
        }
        if out.len() > cap {
            return Decoded { end: End::OutLimit, out, consumed: pos };
        }
    }
}

pub fn decode_all(input: &[u8], skip_crc: bool, mt: bool, is: &Sched, os: &Sched, r: &mut Rng, st: &mut Stats, cap: usize) -> Decoded {
    let mut d = decoder(skip_crc, mt);
    let res = decode_with(|i, io, o, oo| d.decode(i, io, o, oo), input, is, os, r, st, cap);
    d.free();
    res
}
/// plain decode, one shot
pub fn decode_simple(input: &[u8], skip_crc: bool, cap: usize) -> Decoded {
    let mut r = Rng::new(1);
    let mut st = Stats::default();
    decode_all(input, skip_crc, false, &Sched::All, &Sched::Fixed(65536), &mut r, &mut st, cap)
}
pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let n = a.len().min(b.len());
    for i in 0..n {
        if a[i] != b[i] {
            return format!("first difference at byte {} ({:#x} vs {:#x}), lengths {} vs {}", i, a[i], b[i], a.len(), b.len());
        }
    }
    format!("lengths {} vs {} (common prefix equal)", a.len(), b.len())
}
