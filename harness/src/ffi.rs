//! The C interface as a C caller sees it (c/divans/ffi.h), linked from the rlib.
use divans::DivansResult;
use std::os::raw::c_void;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct CAlloc {
    pub alloc: Option<extern "C" fn(*mut c_void, usize) -> *mut c_void>,
    pub free: Option<extern "C" fn(*mut c_void, *mut c_void)>,
    pub opaque: *mut c_void,
}
impl CAlloc {
    pub fn none() -> Self {
        CAlloc { alloc: None, free: None, opaque: std::ptr::null_mut() }
    }
}
pub enum CState {}
pub enum DState {}
pub const OK: u8 = 0;
pub const NEED_IN: u8 = 1;
pub const NEED_OUT: u8 = 2;
pub const FAIL: u8 = 3;
#[allow(improper_ctypes)]
extern "C" {
    pub fn divans_new_compressor() -> *mut CState;
    pub fn divans_new_compressor_with_custom_alloc(a: CAlloc) -> *mut CState;
    pub fn divans_set_option(s: *mut CState, sel: u8, v: u32) -> u8;
    pub fn divans_encode(s: *mut CState, i: *const u8, n: usize, io: *mut usize, o: *mut u8, m: usize, oo: *mut usize) -> u8;
    pub fn divans_encode_flush(s: *mut CState, o: *mut u8, m: usize, oo: *mut usize) -> u8;
    pub fn divans_free_compressor(s: *mut CState);
    pub fn divans_compressor_malloc_u8(s: *mut CState, n: usize) -> *mut u8;
    pub fn divans_compressor_free_u8(s: *mut CState, p: *mut u8, n: usize);
    pub fn divans_compressor_malloc_usize(s: *mut CState, n: usize) -> *mut usize;
    pub fn divans_compressor_free_usize(s: *mut CState, p: *mut usize, n: usize);
    pub fn divans_new_decompressor() -> *mut DState;
    pub fn divans_new_serial_decompressor() -> *mut DState;
    pub fn divans_new_decompressor_with_custom_alloc(a: CAlloc, skip_crc: u8, mt: u8) -> *mut DState;
    pub fn divans_decode(s: *mut DState, i: *const u8, n: usize, io: *mut usize, o: *mut u8, m: usize, oo: *mut usize) -> u8;
    pub fn divans_free_decompressor(s: *mut DState);
    pub fn divans_decompressor_malloc_u8(s: *mut DState, n: usize) -> *mut u8;
    pub fn divans_decompressor_free_u8(s: *mut DState, p: *mut u8, n: usize);
    pub fn divans_decompressor_malloc_usize(s: *mut DState, n: usize) -> *mut usize;
    pub fn divans_decompressor_free_usize(s: *mut DState, p: *mut usize, n: usize);
}
pub fn res(c: u8) -> DivansResult {
    match c {
        OK => DivansResult::Success,
        NEED_IN => DivansResult::NeedsMoreInput,
        NEED_OUT => DivansResult::NeedsMoreOutput,
        _ => DivansResult::Failure(divans::interface::ErrMsg::UnexpectedEof),
    }
}
pub struct CDec(pub *mut DState);
impl CDec {
    pub fn decode(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize) -> DivansResult {
        res(unsafe { divans_decode(self.0, i.as_ptr(), i.len(), io, o.as_mut_ptr(), o.len(), oo) })
    }
}
impl Drop for CDec {
    fn drop(&mut self) {
        unsafe { divans_free_decompressor(self.0) }
    }
}
pub struct CEnc(pub *mut CState);
impl CEnc {
    pub fn new() -> Self {
        CEnc(unsafe { divans_new_compressor() })
    }
    pub fn set(&mut self, sel: u8, v: u32) -> u8 {
        unsafe { divans_set_option(self.0, sel, v) }
    }
}
impl Drop for CEnc {
    fn drop(&mut self) {
        unsafe { divans_free_compressor(self.0) }
    }
}
impl divans::Compressor for CEnc {
    fn encode(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize) -> DivansResult {
        res(unsafe { divans_encode(self.0, i.as_ptr(), i.len(), io, o.as_mut_ptr(), o.len(), oo) })
    }
    fn flush(&mut self, o: &mut [u8], oo: &mut usize) -> divans::DivansOutputResult {
        match unsafe { divans_encode_flush(self.0, o.as_mut_ptr(), o.len(), oo) } {
            OK => divans::DivansOutputResult::Success,
            NEED_OUT => divans::DivansOutputResult::NeedsMoreOutput,
            _ => divans::DivansOutputResult::Failure(divans::interface::ErrMsg::UnexpectedEof),
        }
    }
    fn encode_commands<S: alloc_no_stdlib::SliceWrapper<u8> + Default>(&mut self, _: &[divans::interface::Command<S>], _: &mut usize, _: &mut [u8], _: &mut usize) -> divans::DivansOutputResult {
        unreachable!()
    }
}
/// the option calls a C caller would make for `o` (as far as the C interface offers them)
pub fn selectors(o: &divans::DivansCompressorOptions, internal: bool) -> Vec<(u8, u32)> {
    let mut v = vec![];
    let mut opt = |sel: u8, x: Option<u32>| {
        if let Some(x) = x {
            v.push((sel, x))
        }
    };
    opt(1, o.quality.map(|x| x as u32));
    opt(2, o.window_size.map(|x| x as u32));
    opt(3, o.lgblock);
    opt(4, o.dynamic_context_mixing.map(|x| x as u32));
    opt(5, Some(if internal { 0 } else { 1 }));
    opt(7, Some(o.use_context_map as u32));
    opt(10, o.stride_detection_quality.map(|x| x as u32));
    opt(11, o.prior_depth.map(|x| x as u32));
    opt(15, o.brotli_literal_byte_score);
    opt(16, o.speed_detection_quality.map(|x| x as u32));
    opt(17, Some(o.prior_bitmask_detection as u32));
    opt(18, Some(o.q9_5 as u32));
    opt(19, o.force_literal_context_mode.map(|x| x.0 as u32));
    opt(20, Some(o.divans_ir_optimizer as u32));
    let s = crate::opts::STRIDES.iter().position(|x| format!("{:?}", x) == format!("{:?}", o.force_stride_value)).unwrap_or(9);
    if s < 9 {
        opt(9, Some(s as u32));
    }
    v
}
