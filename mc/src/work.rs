//! Counting what the library does (configurations "work*" only): `wrap.sh` has the compiler put a call to
//! `__sanitizer_cov_trace_pc_guard` at every basic block of the library (instantiated generics of std
//! included); bytes moved, compared, filled and allocated are counted in the functions below, which take the
//! place of the C library's. One unit is a basic block or 16 bytes.
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::cell::Cell;

thread_local!(static WORK: Cell<u64> = const { Cell::new(0) });
#[cfg(feature = "sched")]
thread_local!(static BLOCKS: Cell<u64> = const { Cell::new(0) });
#[inline(always)]
fn add(n: u64) {
    let _ = WORK.try_with(|w| w.set(w.get().wrapping_add(n)));
}
pub fn read() -> u64 {
    WORK.with(|w| w.get())
}
#[cfg(feature = "sched")]
/// Basic blocks of the library that this thread has run.
pub fn blocks() -> u64 {
    BLOCKS.with(|w| w.get())
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    add(1);
    #[cfg(feature = "sched")]
    {
        let _ = BLOCKS.try_with(|w| w.set(w.get().wrapping_add(1)));
        crate::sched::point();
    }
}
/// Accesses to memory that is neither stack nor heap, which only a library with global state has, are places to
/// stop at, too.
#[cfg(feature = "sched")]
mod accesses {
    extern "C" {
        static __data_start: u8;
        static _end: u8;
    }
    #[inline(always)]
    fn access(a: usize) {
        let (s, e) = (std::ptr::addr_of!(__data_start) as usize, std::ptr::addr_of!(_end) as usize);
        if a >= s && a < e {
            let _ = super::BLOCKS.try_with(|w| w.set(w.get().wrapping_add(1)));
            crate::sched::point();
        }
    }
    macro_rules! hooks {
        ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(a: usize) { access(a) })* };
    }
    hooks!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
        __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
}

#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    add(n as u64 / 16);
    asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    d
}
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    add(n as u64 / 16);
    if (d as usize).wrapping_sub(s as usize) >= n {
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    } else {
        let k = n.wrapping_sub(1);
        asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.wrapping_add(k) => _, inout("rsi") s.wrapping_add(k) => _, options(nostack));
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    add(n as u64 / 16);
    asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8, options(nostack, preserves_flags));
    d
}
unsafe fn compare(a: *const u8, b: *const u8, n: usize) -> i32 {
    if n == 0 {
        return 0;
    }
    let (above, below): (u8, u8);
    let left: usize;
    asm!("repe cmpsb", "seta {a}", "setb {b}", a = out(reg_byte) above, b = out(reg_byte) below,
        inout("rcx") n => left, inout("rdi") b => _, inout("rsi") a => _, options(nostack, readonly));
    add((n - left) as u64 / 16);
    above as i32 - below as i32
}
#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    compare(a, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    compare(a, b, n)
}

pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(1 + l.size() as u64 / 16);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(1 + l.size() as u64 / 16);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(1 + (n.max(l.size())) as u64 / 16);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;
