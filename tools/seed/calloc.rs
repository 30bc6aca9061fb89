/// A caller's allocator, for the C interface, that keeps account of its blocks.
use std::collections::HashMap;
use std::os::raw::c_void;
use std::sync::Mutex;
#[repr(C)]
#[derive(Clone, Copy)]
struct CAlloc {
    alloc: Option<extern "C" fn(*mut c_void, usize) -> *mut c_void>,
    free: Option<extern "C" fn(*mut c_void, *mut c_void)>,
    opaque: *mut c_void,
}
enum St {}
#[allow(improper_ctypes)]
extern "C" {
    fn divans_new_decompressor_with_custom_alloc(a: CAlloc, skip_crc: u8, mt: u8) -> *mut St;
    fn divans_decode(s: *mut St, i: *const u8, n: usize, io: *mut usize, o: *mut u8, m: usize, oo: *mut usize) -> u8;
    fn divans_free_decompressor(s: *mut St);
    fn divans_new_compressor_with_custom_alloc(a: CAlloc) -> *mut St;
    fn divans_set_option(s: *mut St, sel: u8, v: u32) -> u8;
    fn divans_encode(s: *mut St, i: *const u8, n: usize, io: *mut usize, o: *mut u8, m: usize, oo: *mut usize) -> u8;
    fn divans_encode_flush(s: *mut St, o: *mut u8, m: usize, oo: *mut usize) -> u8;
    fn divans_free_compressor(s: *mut St);
}
type Book = Mutex<(HashMap<usize, usize>, usize)>;
extern "C" fn c_alloc(o: *mut c_void, n: usize) -> *mut c_void {
    let b = unsafe { &*(o as *const Book) };
    let p = unsafe { std::alloc::alloc_zeroed(std::alloc::Layout::from_size_align_unchecked(n + 32, 32)) };
    b.lock().unwrap().0.insert(p as usize, n + 32);
    p as *mut c_void
}
extern "C" fn c_free(o: *mut c_void, p: *mut c_void) {
    let b = unsafe { &*(o as *const Book) };
    let mut b = b.lock().unwrap();
    match b.0.remove(&(p as usize)) {
        Some(n) => unsafe { std::alloc::dealloc(p as *mut u8, std::alloc::Layout::from_size_align_unchecked(n, 32)) },
        None => b.1 += 1,
    }
}
/// Decode at most `calls` calls, release, and say how many blocks are missing or were returned wrongly.
fn account(s: &[u8], mt: bool, inp: usize, outp: usize, calls: usize) -> usize {
    let book: Box<Book> = Default::default();
    unsafe {
        let d = divans_new_decompressor_with_custom_alloc(CAlloc { alloc: Some(c_alloc), free: Some(c_free), opaque: &*book as *const Book as *mut c_void }, 0, mt as u8);
        let mut b = vec![0u8; outp];
        let (mut i, mut avail) = (0usize, inp.min(s.len()));
        for _ in 0..calls {
            let mut o = 0;
            match divans_decode(d, s.as_ptr(), avail, &mut i, b.as_mut_ptr(), b.len(), &mut o) {
                1 if avail == s.len() => break,
                1 => avail = (avail + inp).min(s.len()),
                2 => {}
                _ => break,
            }
        }
        divans_free_decompressor(d);
    }
    let b = book.lock().unwrap();
    b.0.len() + b.1
}
