//! wasm32 side of C28: replays histories handed over by run.js.
#![allow(static_mut_refs)]
#[path = "../../harness/src/portexec.rs"]
mod portexec;
use std::alloc::{GlobalAlloc, Layout};
use std::ptr::{addr_of, addr_of_mut, null_mut};

/// power-of-two size classes with free lists over memory.grow
struct Classes;
static mut FREE: [*mut u8; 32] = [null_mut(); 32];
static mut TOP: usize = 0;
static mut END: usize = 0;
/// set when the 4 GB of wasm32 are used up
static mut FULL: bool = false;
unsafe impl GlobalAlloc for Classes {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let k = l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros() as usize;
        if k >= 32 {
            return null_mut();
        }
        let head = FREE[k];
        if !head.is_null() {
            FREE[k] = *(head as *mut *mut u8);
            return head;
        }
        let size = 1usize << k;
        let align = size.min(65536);
        let at = (TOP + align - 1) & !(align - 1);
        let Some(end) = at.checked_add(size) else {
            FULL = true;
            return null_mut();
        };
        if end > END {
            let pages = (end - END).div_ceil(65536);
            let old = core::arch::wasm32::memory_grow(0, pages);
            if old == usize::MAX {
                FULL = true;
                return null_mut();
            }
            if END == 0 {
                // the first grown page follows the module's own data
                TOP = old * 65536;
                END = TOP + pages * 65536;
                return self.alloc(l);
            }
            END += pages * 65536;
        }
        TOP = end;
        at as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let k = l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros() as usize;
        *(p as *mut *mut u8) = FREE[k];
        FREE[k] = p;
    }
}
#[global_allocator]
static A: Classes = Classes;

static mut INPUT: Vec<u8> = Vec::new();
static mut LOG: Vec<u64> = Vec::new();
static mut MESSAGE: String = String::new();

#[no_mangle]
pub unsafe extern "C" fn input(len: usize) -> *mut u8 {
    let v = &mut *addr_of_mut!(INPUT);
    v.clear();
    v.resize(len, 0);
    v.as_mut_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn run() {
    std::panic::set_hook(Box::new(|i| {
        let m = &mut *addr_of_mut!(MESSAGE);
        *m = format!("{}", i);
    }));
    (*addr_of_mut!(LOG)).clear();
    portexec::exec(&*addr_of!(INPUT), &mut *addr_of_mut!(LOG));
}
#[no_mangle]
pub unsafe extern "C" fn memory_full() -> u32 {
    FULL as u32
}
#[no_mangle]
pub unsafe extern "C" fn log_ptr() -> *const u64 {
    (&*addr_of!(LOG)).as_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn log_len() -> usize {
    (&*addr_of!(LOG)).len()
}
#[no_mangle]
pub unsafe extern "C" fn message_ptr() -> *const u8 {
    (&*addr_of!(MESSAGE)).as_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn message_len() -> usize {
    (&*addr_of!(MESSAGE)).len()
}
