pub mod cmds;
pub mod drive;
pub mod ffi;
pub mod gen;
pub mod mem;
pub mod opts;
pub mod pool;
pub mod props;
pub mod rng;
#[cfg(not(feature = "nocount"))]
#[global_allocator]
static A: mem::Counting = mem::Counting;
