//! Heap of a simulated run: a fixed address range, filled in a fixed order, so that
//! what depends on addresses (lock tables hashed by address) repeats exactly.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering};

const BASE: usize = 0x2000_0000_0000;
const SIZE: usize = 2 << 30;
const CLASSES: usize = 27; // 16 octets to 1 GiB

pub struct Heap;
static LOCK: AtomicBool = AtomicBool::new(false);
static mut ON: bool = false;
/// two arenas: what the code under test (and its runtime) holds, and what the simulator and the harness keep
static mut NEXT: [usize; 2] = [BASE, BASE + SIZE];
static mut FREE: [[usize; CLASSES]; 2] = [[0; CLASSES]; 2];
static mut LIVE: usize = 0;
static mut OWN: u32 = 0;

/// While this lives, allocations are the simulator's own.  Never held across a switch of threads.
pub struct Own;
pub fn own() -> Own {
    step(1);
    Own
}
impl Drop for Own {
    fn drop(&mut self) {
        step(-1);
    }
}
/// The compiler may otherwise move this past an allocation, which it takes to read no variables.
fn step(d: i32) {
    unsafe {
        std::arch::asm!("");
        OWN = OWN.wrapping_add_signed(d);
        std::arch::asm!("");
    }
}
/// Octets the code under test holds at the moment.
pub fn live() -> usize {
    unsafe { LIVE }
}

/// Reserves the range; before the first fork.
pub fn reserve() {
    let f = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE;
    let p = unsafe { libc::mmap(BASE as *mut _, 2 * SIZE, libc::PROT_READ | libc::PROT_WRITE, f, -1, 0) };
    assert_eq!(p as usize, BASE, "the heap range is taken");
}
/// From here on everything is allocated in the range; in the child, before anything else.
pub fn enter() {
    unsafe { ON = true }
}

fn class(l: &Layout) -> usize {
    let n = l.size().max(l.align()).max(16).next_power_of_two();
    n.trailing_zeros() as usize - 4
}
fn locked<T>(f: impl FnOnce() -> T) -> T {
    while LOCK.swap(true, Ordering::Acquire) {
        std::hint::spin_loop();
    }
    let r = f();
    LOCK.store(false, Ordering::Release);
    r
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON {
            return System.alloc(l);
        }
        let c = class(&l);
        if c >= CLASSES {
            return std::ptr::null_mut();
        }
        locked(|| {
            let k = usize::from(OWN > 0);
            if k == 0 {
                LIVE += l.size();
            }
            let p = FREE[k][c];
            if p != 0 {
                FREE[k][c] = *(p as *const usize);
                return p as *mut u8;
            }
            let n = 16usize << c;
            let al = n.min(4096).max(l.align());
            let a = (NEXT[k] + al - 1) & !(al - 1);
            if a + n > BASE + (k + 1) * SIZE {
                return std::ptr::null_mut();
            }
            NEXT[k] = a + n;
            a as *mut u8
        })
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if !(BASE..BASE + 2 * SIZE).contains(&a) {
            return System.dealloc(p, l);
        }
        let c = class(&l);
        locked(|| {
            let k = usize::from(a >= BASE + SIZE);
            if k == 0 {
                LIVE -= l.size();
            }
            *(a as *mut usize) = FREE[k][c];
            FREE[k][c] = a;
        })
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let a = p as usize;
        if !ON && !(BASE..BASE + 2 * SIZE).contains(&a) {
            return System.realloc(p, l, n);
        }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        if (BASE..BASE + 2 * SIZE).contains(&a) && class(&nl) == class(&l) {
            if a < BASE + SIZE {
                LIVE = LIVE + n - l.size();
            }
            return p;
        }
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
