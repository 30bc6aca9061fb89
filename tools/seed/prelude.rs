#![allow(dead_code, unused_imports)]
use alloc_stdlib::HeapAlloc;
use brotli::enc;
use divans::*;
type Comb = enc::CombiningAllocator<HeapAlloc<u8>, HeapAlloc<u16>, HeapAlloc<i32>, HeapAlloc<u32>, HeapAlloc<u64>, HeapAlloc<enc::command::Command>, HeapAlloc<enc::util::floatX>, HeapAlloc<enc::v8>, HeapAlloc<enc::s16>, HeapAlloc<enc::PDF>, HeapAlloc<enc::StaticCommand>, HeapAlloc<enc::histogram::HistogramLiteral>, HeapAlloc<enc::histogram::HistogramCommand>, HeapAlloc<enc::histogram::HistogramDistance>, HeapAlloc<enc::cluster::HistogramPair>, HeapAlloc<enc::histogram::ContextType>, HeapAlloc<enc::entropy_encode::HuffmanTree>, HeapAlloc<enc::ZopfliNode>>;
fn comb() -> Comb {
    enc::CombiningAllocator::new(HeapAlloc::new(0), HeapAlloc::new(0), HeapAlloc::new(0), HeapAlloc::new(0), HeapAlloc::new(0), HeapAlloc::new(Default::default()), HeapAlloc::new(0.0 as enc::util::floatX), HeapAlloc::new(Default::default()), HeapAlloc::new(Default::default()), HeapAlloc::new(Default::default()), HeapAlloc::new(Default::default()), HeapAlloc::new(Default::default()), HeapAlloc::new(Default::default()), HeapAlloc::new(Default::default()), HeapAlloc::new(Default::default()), HeapAlloc::new(Default::default()), HeapAlloc::new(Default::default()), HeapAlloc::new(Default::default()))
}
type HF = BrotliDivansHybridCompressorFactory<HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, Comb>;
type IF = DivansCompressorFactoryStruct<HeapAlloc<u8>, HeapAlloc<DefaultCDF16>>;
type DF = DivansDecompressorFactoryStruct<HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, HeapAlloc<StaticCommand>>;
fn hybrid(o: DivansCompressorOptions) -> <HF as DivansCompressorFactory<HeapAlloc<u8>, HeapAlloc<u32>, HeapAlloc<DefaultCDF16>>>::ConstructedCompressor {
    <HF as DivansCompressorFactory<HeapAlloc<u8>, HeapAlloc<u32>, HeapAlloc<DefaultCDF16>>>::new(HeapAlloc::new(0), HeapAlloc::new(0), HeapAlloc::new(DefaultCDF16::default()), o, comb())
}
fn internal(o: DivansCompressorOptions) -> <IF as DivansCompressorFactory<HeapAlloc<u8>, HeapAlloc<u32>, HeapAlloc<DefaultCDF16>>>::ConstructedCompressor {
    <IF as DivansCompressorFactory<HeapAlloc<u8>, HeapAlloc<u32>, HeapAlloc<DefaultCDF16>>>::new(HeapAlloc::new(0), HeapAlloc::new(0), HeapAlloc::new(DefaultCDF16::default()), o, ())
}
fn compress<C: Compressor>(c: &mut C, d: &[u8], inp: usize, outp: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut b = vec![0u8; outp];
    for piece in d.chunks(inp) {
        let mut i = 0;
        loop {
            let mut o = 0;
            let r = c.encode(piece, &mut i, &mut b, &mut o);
            out.extend_from_slice(&b[..o]);
            match r {
                DivansResult::NeedsMoreInput => break,
                DivansResult::NeedsMoreOutput => {}
                x => panic!("encode {:?}", x),
            }
        }
    }
    loop {
        let mut o = 0;
        let r = c.flush(&mut b, &mut o);
        out.extend_from_slice(&b[..o]);
        match r {
            DivansOutputResult::Success => return out,
            DivansOutputResult::NeedsMoreOutput => {}
            x => panic!("flush {:?}", x),
        }
    }
}
fn hyb(o: DivansCompressorOptions, d: &[u8]) -> Vec<u8> {
    compress(&mut hybrid(o), d, 1 << 16, 1 << 16)
}
fn int(o: DivansCompressorOptions, d: &[u8]) -> Vec<u8> {
    compress(&mut internal(o), d, 1 << 16, 1 << 16)
}
/// (ended in Success, bytes); Err = failure or no progress
fn decode(s: &[u8], skip: bool, mt: bool, inp: usize, outp: usize) -> Result<(bool, Vec<u8>), String> {
    let mut dec = DF::new(HeapAlloc::new(0), HeapAlloc::new(DefaultCDF16::default()), HeapAlloc::new(StaticCommand::nop()), skip, mt);
    let mut out = vec![];
    let mut b = vec![0u8; outp];
    let (mut i, mut avail, mut idle) = (0usize, 0usize, 0);
    let ret = loop {
        let (before, mut o) = (i, 0);
        let r = dec.decode(&s[..avail], &mut i, &mut b, &mut o);
        out.extend_from_slice(&b[..o]);
        idle = if i > before || o > 0 { 0 } else { idle + 1 };
        match r {
            DivansResult::Success => break Ok((true, out)),
            DivansResult::Failure(e) => break Err(format!("{:?} after {} bytes", e, out.len())),
            DivansResult::NeedsMoreInput => {
                if avail == s.len() {
                    break Ok((false, out));
                }
                avail = (avail + inp).min(s.len());
            }
            DivansResult::NeedsMoreOutput => {
                if idle > 1000 {
                    break Err("no progress".into());
                }
            }
        }
    };
    dec.free();
    ret
}
fn text(n: usize, seed: u64) -> Vec<u8> {
    let w = ["the ", "quick ", "brown ", "fox ", "jumps ", "over ", "lazy ", "dogs ", "and ", "then ", "runs ", "away, ", "while ", "Everyone ", "watches.\n", "time ", "people ", "information ", "government ", "through "];
    let mut x = seed | 1;
    let mut v = vec![];
    while v.len() < n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.extend_from_slice(w[(x >> 33) as usize % w.len()].as_bytes());
    }
    v.truncate(n);
    v
}
fn noise(n: usize, seed: u64) -> Vec<u8> {
    let mut x = seed | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 40) as u8
        })
        .collect()
}
fn fail(m: &str) -> ! {
    println!("PROPERTY BROKEN: {}", m);
    std::process::exit(1)
}
