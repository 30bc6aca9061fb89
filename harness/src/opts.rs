//! Random compressor options inside the documented ranges.
use crate::rng::Rng;
use divans::interface::StrideSelection;
use divans::{BrotliCompressionSetting, DivansCompressorOptions, LiteralPredictionModeNibble, Speed};

pub const STRIDES: [StrideSelection; 10] = [
    StrideSelection::PriorDisabled,
    StrideSelection::Stride1,
    StrideSelection::Stride2,
    StrideSelection::Stride3,
    StrideSelection::Stride4,
    StrideSelection::Stride5,
    StrideSelection::Stride6,
    StrideSelection::Stride7,
    StrideSelection::Stride8,
    StrideSelection::UseBrotliRec,
];

pub fn named_speed(r: &mut Rng) -> Speed {
    *r.pick(&[Speed::GEOLOGIC, Speed::GLACIAL, Speed::MUD, Speed::SLOW, Speed::MED, Speed::FAST, Speed::PLANE, Speed::ROCKET])
}

/// named speeds, and any other increment and limit up to the largest the format carries
pub fn speed(r: &mut Rng) -> Speed {
    match r.us(4) {
        0 => Speed::new(r.range(0, 0x4000) as i16, r.range(0, 0x4000) as i16),
        1 => Speed::new(r.logu(1, 0x4000) as i16, r.logu(16, 0x4000) as i16),
        _ => named_speed(r),
    }
}

pub struct O {
    pub o: DivansCompressorOptions,
    pub desc: String,
}

/// `qmin` lowest brotli quality to choose.
pub fn random(r: &mut Rng, heavy_ok: bool) -> O {
    let mut o = DivansCompressorOptions::default();
    let plain = r.chance(1, 6);
    if !plain {
        o.window_size = if r.chance(1, 12) { None } else { Some(r.range(10, 24) as i32) };
        o.lgblock = if r.chance(1, 6) { None } else { Some(*r.pick(&[0u32, 16, 16, 17, 18, 19, 20, 21, 22, 24])) };
        let q = if heavy_ok && r.chance(1, 4) { r.range(9, 11) } else { r.range(0, 9) };
        o.quality = if r.chance(1, 30) { None } else { Some(q as u16) };
        o.q9_5 = r.chance(1, 8);
        o.dynamic_context_mixing = match r.us(5) {
            0 => None,
            1 => Some(0),
            2 => Some(1),
            3 => Some(2),
            _ => Some(r.range(0, 7) as u8),
        };
        o.use_context_map = r.chance(3, 4);
        o.force_stride_value = STRIDES[if r.bool() { 9 } else { r.us(10) }];
        o.prior_depth = if r.chance(1, 4) { Some(r.range(0, 15) as u8) } else { None };
        o.prior_bitmask_detection = r.us(2) as u8;
        o.stride_detection_quality = if r.chance(1, 3) { Some(r.range(0, 3) as u8) } else { None };
        o.speed_detection_quality = if r.chance(1, 3) { Some(r.range(0, 2) as u8) } else { None };
        o.brotli_literal_byte_score = if r.chance(1, 5) { Some(r.range(0, 2048) as u32) } else { None };
        o.literal_adaptation = if r.chance(1, 3) { Some([speed(r), speed(r), speed(r), speed(r)]) } else { None };
        o.force_literal_context_mode = match r.us(8) {
            0 => Some(LiteralPredictionModeNibble::lsb6()),
            1 => Some(LiteralPredictionModeNibble::msb6()),
            2 => Some(LiteralPredictionModeNibble::utf8()),
            3 => Some(LiteralPredictionModeNibble::signed()),
            _ => None,
        };
        o.divans_ir_optimizer = if r.chance(1, 6) { 1 } else { 0 };
        o.use_brotli = BrotliCompressionSetting::UseBrotliCommandSelection;
    } else if !heavy_ok {
        o.quality = Some(5);
    }
    let desc = format!("{:?}", o);
    O { o, desc }
}
