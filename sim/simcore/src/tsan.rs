//! Targets of LLVM's tsan instrumentation: every atomic operation of the code
//! under test is a scheduling point.
use crate::kernel::{yield_point, Yield};
use std::sync::atomic::*;

#[inline]
fn y() {
    yield_point(Yield::Atomic);
}

macro_rules! atomics {
    ($t:ty, $a:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $casv:ident, $cass:ident, $casw:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *mut $t, _o: i32) -> $t {
            y();
            <$a>::from_ptr(p).load(Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _o: i32) {
            y();
            <$a>::from_ptr(p).store(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _o: i32) -> $t {
            y();
            <$a>::from_ptr(p).swap(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _o: i32) -> $t {
            y();
            <$a>::from_ptr(p).fetch_add(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _o: i32) -> $t {
            y();
            <$a>::from_ptr(p).fetch_sub(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _o: i32) -> $t {
            y();
            <$a>::from_ptr(p).fetch_and(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _o: i32) -> $t {
            y();
            <$a>::from_ptr(p).fetch_or(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _o: i32) -> $t {
            y();
            <$a>::from_ptr(p).fetch_xor(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _o: i32) -> $t {
            y();
            <$a>::from_ptr(p).fetch_nand(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casv(p: *mut $t, c: $t, v: $t, _o: i32, _f: i32) -> $t {
            y();
            match <$a>::from_ptr(p).compare_exchange(c, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cass(p: *mut $t, c: *mut $t, v: $t, _o: i32, _f: i32) -> i32 {
            y();
            match <$a>::from_ptr(p).compare_exchange(*c, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(_) => 1,
                Err(x) => {
                    *c = x;
                    0
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casw(p: *mut $t, c: *mut $t, v: $t, o: i32, f: i32) -> i32 {
            $cass(p, c, v, o, f)
        }
    };
}
atomics!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val, __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak);
atomics!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val, __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak);
atomics!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val, __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak);
atomics!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val, __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak);

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    fence(Ordering::SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}
#[no_mangle]
pub extern "C" fn __tsan_init() {}

macro_rules! nops { ($($n:ident),*) => { $(#[no_mangle] pub extern "C" fn $n(_p: *const u8) {})* } }
nops!(
    __tsan_read1, __tsan_read2, __tsan_read4, __tsan_read8, __tsan_read16, __tsan_write1, __tsan_write2, __tsan_write4,
    __tsan_write8, __tsan_write16, __tsan_unaligned_read2, __tsan_unaligned_read4, __tsan_unaligned_read8,
    __tsan_unaligned_read16, __tsan_unaligned_write2, __tsan_unaligned_write4, __tsan_unaligned_write8,
    __tsan_unaligned_write16, __tsan_func_entry, __tsan_vptr_read
);
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(_p: *const u8, _v: *const u8) {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    std::ptr::write_bytes(d, c as u8, n);
    d
}
