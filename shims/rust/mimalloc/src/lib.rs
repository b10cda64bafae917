//! Offline stand-in: an allocator that passes everything on to the system's.
use std::alloc::{GlobalAlloc, Layout, System};
pub struct MiMalloc;
unsafe impl GlobalAlloc for MiMalloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
