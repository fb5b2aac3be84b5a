//! Stands in for wee_alloc, which is meant for WebAssembly.
use std::alloc::{GlobalAlloc, Layout, System};
pub struct WeeAlloc;
impl WeeAlloc { pub const INIT: WeeAlloc = WeeAlloc; }
unsafe impl GlobalAlloc for WeeAlloc {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { System.realloc(p, l, n) }
}
