// Vocabulary of the analysed clients. The engine interprets these calls itself; nothing here ever runs.
#[allow(dead_code, unused_variables)]
pub mod probe {
    #[inline(never)] pub fn any() -> usize { loop {} }
    #[inline(never)] pub fn any_u8() -> u8 { loop {} }
    #[inline(never)] pub fn any_u16() -> u16 { loop {} }
    #[inline(never)] pub fn any_u32() -> u32 { loop {} }
    #[inline(never)] pub fn any_bool() -> bool { loop {} }
    #[inline(never)] pub fn assume(c: bool) { loop {} }
    #[inline(never)] pub fn check(tag: &'static str, c: bool) { loop {} }
    #[inline(never)] pub fn reach(tag: &'static str) { loop {} }
    #[inline(never)] pub fn event(kind: usize, a: usize) { loop {} }
    #[inline(never)] pub fn count(kind: usize, a: usize) -> usize { loop {} }
    #[inline(never)] pub fn slice_ids<T>(n: usize, base: usize) -> &'static [T] { loop {} }
    #[inline(never)] pub fn slice_any<T>(n: usize) -> &'static [T] { loop {} }
    #[inline(never)] pub fn str_any(n: usize) -> &'static str { loop {} }
    #[inline(never)] pub fn buf<T>(size: usize, align: usize) -> *mut T { loop {} }
    #[inline(never)] pub fn alloc_may_fail(on: bool) { loop {} }
    #[inline(never)] pub fn live() -> usize { loop {} }
    #[inline(never)] pub fn allocs() -> usize { loop {} }
    #[inline(never)] pub fn block_size<T>(p: *const T) -> usize { loop {} }
    #[inline(never)] pub fn same_addr<T: ?Sized, U: ?Sized>(p: *const T, q: *const U) -> bool { loop {} }
    #[inline(never)] pub fn same_block<T: ?Sized, U: ?Sized>(p: *const T, q: *const U) -> bool { loop {} }
    #[inline(never)] pub fn off<T: ?Sized, U: ?Sized>(p: *const T, q: *const U) -> usize { loop {} }
    #[inline(never)] pub fn byte_at<T: ?Sized>(p: *const T, o: usize) -> u8 { loop {} }
    /// From here on `p` and all allocations that exist now are only shared; writing to them is a violation.
    #[inline(never)] pub fn shared<T: ?Sized>(p: *const T) { loop {} }
    #[inline(never)] pub fn unshared() { loop {} }
    /// The `size` bytes at `p` must be live storage for an object of alignment `align`.
    #[inline(never)] pub fn storage(p: *const u8, size: usize, align: usize) { loop {} }
    /// Ends this path.
    #[inline(never)] pub fn stop() -> ! { loop {} }
    /// As `catch`, where the user's code is known to panic no more than once: nothing else may panic while that unwinds.
    #[inline(never)] pub fn catch_once<F: FnOnce()>(f: F) -> bool { f(); false }
    /// Runs `f`; true if it panicked.
    #[inline(never)] pub fn catch<F: FnOnce()>(f: F) -> bool { f(); false }
}
#[allow(unused_imports)]
use probe::*;
