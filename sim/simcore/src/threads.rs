//! Real OS threads, one running at a time.
use crate::kernel::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }
static mut KEY: libc::pthread_key_t = 0;

type CreateFn = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    *mut libc::c_void,
) -> libc::c_int;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> libc::c_int;
type DetachFn = unsafe extern "C" fn(libc::pthread_t) -> libc::c_int;
static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;
static mut REAL_DETACH: Option<DetachFn> = None;

pub fn set_me(i: usize) {
    ME.with(|m| m.set(i));
}

pub fn init_once() {
    unsafe {
        if REAL_CREATE.is_none() {
            REAL_CREATE = Some(std::mem::transmute::<*mut libc::c_void, CreateFn>(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr())));
            REAL_JOIN = Some(std::mem::transmute::<*mut libc::c_void, JoinFn>(libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr())));
            REAL_DETACH = Some(std::mem::transmute::<*mut libc::c_void, DetachFn>(libc::dlsym(libc::RTLD_NEXT, c"pthread_detach".as_ptr())));
            let mut k = 0;
            libc::pthread_key_create(&mut k, Some(on_exit));
            KEY = k;
        }
    }
}

fn futex_wait(a: &AtomicU32, v: u32) {
    unsafe {
        crate::interpose::raw6(libc::SYS_futex as usize, a as *const _ as usize, 128, v as usize, 0, 0, 0);
    }
}
fn futex_wake(a: &AtomicU32) {
    unsafe {
        crate::interpose::raw6(libc::SYS_futex as usize, a as *const _ as usize, 1 | 128, 1, 0, 0, 0);
    }
}

fn grant(next: usize) {
    let s = st();
    s.cur = next;
    s.switches += 1;
    let b: *const AtomicU32 = &*s.threads[next].baton;
    unsafe {
        (*b).store(1, Ordering::Release);
        futex_wake(&*b);
    }
}

fn wait_baton(b: *const AtomicU32) {
    let b = unsafe { &*b };
    while b.load(Ordering::Acquire) == 0 {
        futex_wait(b, 0);
    }
    b.store(0, Ordering::Relaxed);
    if let Some(t) = st().reap.take() {
        unsafe { (REAL_JOIN.unwrap())(t, std::ptr::null_mut()) };
    }
}

pub fn switch(me: usize, next: usize) {
    let b: *const AtomicU32 = &*st().threads[me].baton;
    grant(next);
    wait_baton(b);
}

struct Start {
    idx: usize,
    baton: *const AtomicU32,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
}

extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    let s = unsafe { Box::from_raw(p as *mut Start) };
    let (idx, baton, f, arg) = (s.idx, s.baton, s.f, s.arg);
    set_me(idx);
    wait_baton(baton);
    drop(s);
    unsafe { libc::pthread_setspecific(KEY, 1 as *const libc::c_void) };
    f(arg)
}

/// Runs after the thread-local destructors of the thread.
unsafe extern "C" fn on_exit(v: *mut libc::c_void) {
    let n = v as usize;
    if n < 3 {
        libc::pthread_setspecific(KEY, (n + 1) as *const libc::c_void);
        return;
    }
    if !active() {
        // The simulation is over: this thread must never run again.
        loop {
            libc::pause();
        }
    }
    let me = ME.with(|m| m.get());
    let s = st();
    s.threads[me].state = TState::Done;
    for i in 0..s.threads.len() {
        if s.threads[i].state == (TState::Join { target: me }) {
            s.make_runnable(i);
        }
    }
    s.reap = Some(s.threads[me].real);
    let next = pick_next();
    grant(next);
}

pub unsafe fn sim_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
) -> libc::c_int {
    if REAL_CREATE.is_none() {
        init_once();
    }
    if !active() {
        return (REAL_CREATE.unwrap())(out, attr, f, arg);
    }
    let s = st();
    let idx = s.threads.len();
    let tag = s.threads[s.cur].tag;
    s.threads.push(Th {
        state: TState::Run,
        timed_out: false,
        baton: Box::new(0.into()),
        real: 0,
        joined: false,
        tag,
        nopreempt: 0,
    });
    let baton: *const AtomicU32 = &*s.threads[idx].baton;
    let b = Box::into_raw(Box::new(Start { idx, baton, f, arg }));
    let mut t: libc::pthread_t = 0;
    let r = (REAL_CREATE.unwrap())(&mut t, attr, trampoline, b as *mut libc::c_void);
    if r != 0 {
        s.threads[idx].state = TState::Done;
        return r;
    }
    *out = t;
    s.threads[idx].real = t;
    s.runq.push(idx);
    count("thread_created");
    yield_point(Yield::Syscall);
    0
}

pub unsafe fn sim_join(t: libc::pthread_t, ret: *mut *mut libc::c_void) -> libc::c_int {
    if REAL_CREATE.is_none() {
        init_once();
    }
    if !active() {
        return (REAL_JOIN.unwrap())(t, ret);
    }
    let s = st();
    let Some(i) = s.threads.iter().position(|x| x.real == t && !x.joined) else {
        return libc::ESRCH;
    };
    if s.threads[i].state != TState::Done {
        block(TState::Join { target: i });
    }
    st().threads[i].joined = true;
    if !ret.is_null() {
        *ret = std::ptr::null_mut();
    }
    0
}

pub unsafe fn sim_detach(t: libc::pthread_t) -> libc::c_int {
    if REAL_CREATE.is_none() {
        init_once();
    }
    if !active() {
        return (REAL_DETACH.unwrap())(t);
    }
    if let Some(x) = st().threads.iter_mut().find(|x| x.real == t && !x.joined) {
        x.joined = true;
    }
    0
}
