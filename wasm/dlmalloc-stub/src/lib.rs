#![no_std]
pub struct Dlmalloc;
impl Dlmalloc {
    pub const fn new() -> Self { Dlmalloc }
    pub unsafe fn malloc(&mut self, _s: usize, _a: usize) -> *mut u8 { core::ptr::null_mut() }
    pub unsafe fn calloc(&mut self, _s: usize, _a: usize) -> *mut u8 { core::ptr::null_mut() }
    pub unsafe fn free(&mut self, _p: *mut u8, _s: usize, _a: usize) {}
    pub unsafe fn realloc(&mut self, _p: *mut u8, _o: usize, _a: usize, _n: usize) -> *mut u8 { core::ptr::null_mut() }
}
