//! Global state, virtual time, scheduling decisions.
use crate::net::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, BinaryHeap};
use std::sync::atomic::{AtomicBool, Ordering};

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
static mut ST: *mut State = std::ptr::null_mut();

#[inline]
pub fn active() -> bool {
    ACTIVE.load(Ordering::Relaxed)
}
#[inline]
pub fn st() -> &'static mut State {
    unsafe { &mut *ST }
}

pub const MS: u64 = 1_000_000;
pub const US: u64 = 1_000;
pub const SEC: u64 = 1_000_000_000;
/// simulated CLOCK_MONOTONIC at simulation time 0
pub const MONO_BASE: u64 = 1_000_000 * SEC;

#[derive(Clone, Debug)]
pub enum Sched {
    /// Probabilities are out of 65536.
    Random {
        seed: u64,
        p_atomic: u32,
        p_syscall: u32,
        p_pick: u32,
        p_stall: u32,
        max_stall_us: u32,
    },
    /// choice point -> (choice, stall in microseconds); anything else: default
    Replay(BTreeMap<u64, (u32, u32)>),
}

#[derive(Clone, Debug)]
pub struct SimCfg {
    pub sched: Sched,
    pub entropy: u64,
    /// virtual nanoseconds per scheduling point
    pub step_ns: u64,
    pub max_steps: u64,
    pub max_time_ns: u64,
    pub realtime_base_ns: i64,
    pub latency_us: u64,
    pub rxq_cap: usize,
    pub icmp: bool,
    pub fates: BTreeMap<(u8, u64), Fate>,
    pub sysfaults: BTreeMap<(u32, &'static str, u64), i32>,
    /// (from_us, to_us, class): everything sent in the window is lost
    pub partitions: Vec<(u64, u64, u8)>,
    /// (label, from, to) in microseconds: that socket's send buffer is full
    pub sndfull: Vec<(u32, u64, u64)>,
    pub ephemeral_range: u16,
    /// what host names stand for
    pub names: Vec<(&'static str, Vec<std::net::IpAddr>)>,
}
impl Default for SimCfg {
    fn default() -> Self {
        SimCfg {
            sched: Sched::Replay(BTreeMap::new()),
            entropy: 1,
            step_ns: 0,
            max_steps: 3_000_000,
            max_time_ns: 3600 * SEC,
            realtime_base_ns: 1_700_000_000 * SEC as i64,
            latency_us: 500,
            rxq_cap: 256,
            icmp: false,
            fates: BTreeMap::new(),
            sysfaults: BTreeMap::new(),
            partitions: vec![],
            sndfull: vec![],
            ephemeral_range: 20000,
            names: vec![],
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TState {
    Run,
    Futex { addr: usize, bits: u32, deadline: u64 },
    Epoll { ep: usize, deadline: u64 },
    Sleep { deadline: u64 },
    Stall { deadline: u64 },
    Join { target: usize },
    Done,
}
pub const NEVER: u64 = u64::MAX;

pub struct Th {
    pub state: TState,
    pub timed_out: bool,
    pub baton: Box<std::sync::atomic::AtomicU32>,
    pub real: libc::pthread_t,
    pub joined: bool,
    pub tag: Tag,
    pub nopreempt: u32,
}

/// Which simulated host (and which call on it) the running code belongs to.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Tag {
    pub host: u32,
    pub label: u32,
}

pub struct Timed {
    pub at: u64,
    pub seq: u64,
    pub what: TimedWhat,
}
pub enum TimedWhat {
    Deliver(Dgram),
    Icmp { sock: usize, errno: i32 },
    Notify { sock: usize, bits: u32 },
    Call(Box<dyn FnOnce()>),
}
impl PartialEq for Timed {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for Timed {}
impl PartialOrd for Timed {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Timed {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

pub struct State {
    pub cfg: SimCfg,
    pub now: u64,
    pub realtime_off: i64,
    pub seq: u64,
    pub steps: u64,
    pub choice_points: u64,
    pub switches: u64,
    pub rng: Rng,
    pub entropy: Rng,
    pub recorded: Vec<(u64, u32, u32)>,
    pub sched_hash: u64,
    pub threads: Vec<Th>,
    pub runq: Vec<usize>,
    pub cur: usize,
    pub reap: Option<libc::pthread_t>,
    pub heap: BinaryHeap<Timed>,
    pub heap_seq: u64,
    pub in_event: bool,
    pub quiescent: Vec<(u64, u64)>,
    pub net: Net,
    pub out: [Vec<u8>; 2],
    pub counters: BTreeMap<&'static str, u64>,
    pub finisher: fn(&str) -> !,
}

pub fn fnv(h: u64, x: u64) -> u64 {
    let mut h = h;
    for i in 0..8 {
        h ^= (x >> (8 * i)) & 0xff;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

/// Turns the calling process into a simulation; the caller becomes thread 0.
pub fn start(cfg: SimCfg, finisher: fn(&str) -> !) {
    crate::interpose::keep();
    crate::threads::init_once();
    let seed = match &cfg.sched {
        Sched::Random { seed, .. } => *seed,
        _ => 0,
    };
    let s = Box::new(State {
        now: 0,
        realtime_off: 0,
        seq: 0,
        steps: 0,
        choice_points: 0,
        switches: 0,
        rng: Rng::new(seed),
        entropy: Rng::derive(cfg.entropy, 77),
        recorded: vec![],
        sched_hash: 0xcbf2_9ce4_8422_2325,
        threads: vec![Th {
            state: TState::Run,
            timed_out: false,
            baton: Box::new(0.into()),
            real: unsafe { libc::pthread_self() },
            joined: false,
            tag: Tag::default(),
            nopreempt: 0,
        }],
        runq: vec![],
        cur: 0,
        reap: None,
        heap: BinaryHeap::new(),
        heap_seq: 0,
        in_event: false,
        quiescent: vec![],
        net: Net::new(),
        out: [vec![], vec![]],
        counters: BTreeMap::new(),
        finisher,
        cfg,
    });
    unsafe { ST = Box::into_raw(s) };
    crate::threads::set_me(0);
    ACTIVE.store(true, Ordering::SeqCst);
}

/// Ends the simulation in this process (state stays readable through `st()`).
pub fn stop() {
    ACTIVE.store(false, Ordering::SeqCst);
}

pub fn count(k: &'static str) {
    let _own = crate::alloc::own();
    *st().counters.entry(k).or_insert(0) += 1;
}
pub fn now() -> u64 {
    st().now
}
pub fn next_seq() -> u64 {
    let s = st();
    s.seq += 1;
    s.seq
}
pub fn abort_run(outcome: &str) -> ! {
    stop();
    (st().finisher)(outcome)
}

/// Runs `f` without giving the baton away (for harness bookkeeping).
pub fn no_preempt<R>(f: impl FnOnce() -> R) -> R {
    if !active() {
        return f();
    }
    let me = st().cur;
    struct Undo(usize);
    impl Drop for Undo {
        fn drop(&mut self) {
            st().threads[self.0].nopreempt -= 1;
        }
    }
    st().threads[me].nopreempt += 1;
    let _own = crate::alloc::own();
    let _undo = Undo(me);
    f()
}

pub fn set_tag(tag: Tag) -> Tag {
    let s = st();
    let me = s.cur;
    std::mem::replace(&mut s.threads[me].tag, tag)
}

pub fn at(delay_ns: u64, what: TimedWhat) {
    let _own = crate::alloc::own();
    let s = st();
    s.heap_seq += 1;
    s.heap.push(Timed { at: s.now + delay_ns, seq: s.heap_seq, what });
}

impl State {
    fn decide(&mut self, n_alt: usize, p: u32, may_stall: bool) -> (u32, u32) {
        let cp = self.choice_points;
        self.choice_points += 1;
        let (c, stall) = match &self.cfg.sched {
            Sched::Replay(m) => m.get(&cp).copied().unwrap_or((0, 0)),
            Sched::Random { p_stall, max_stall_us, .. } => {
                let (ps, ms) = (*p_stall, *max_stall_us);
                let x = (self.rng.next() & 0xffff) as u32;
                if x < p {
                    let c = 1 + self.rng.below(n_alt as u64) as u32;
                    let stall = if may_stall && ps > 0 && ((self.rng.next() & 0xffff) as u32) < ps {
                        1 + self.rng.below(ms.max(1) as u64) as u32
                    } else {
                        0
                    };
                    (c, stall)
                } else {
                    (0, 0)
                }
            }
        };
        if c != 0 {
            let _own = crate::alloc::own();
            self.recorded.push((cp, c, stall));
        }
        (c, stall)
    }

    pub fn make_runnable(&mut self, i: usize) {
        let _own = crate::alloc::own();
        self.threads[i].state = TState::Run;
        self.runq.push(i);
    }

    fn next_deadline(&self) -> u64 {
        let mut d = self.heap.peek().map(|t| t.at).unwrap_or(NEVER);
        for t in &self.threads {
            match t.state {
                TState::Futex { deadline, .. }
                | TState::Epoll { deadline, .. }
                | TState::Sleep { deadline }
                | TState::Stall { deadline } => d = d.min(deadline),
                _ => {}
            }
        }
        d
    }
}

// The functions below re-enter the state through `st()` from callbacks: no
// long-lived borrow of it may be held across those calls.

/// Delivers network events and timeouts that are due at the current time.
pub fn process_due() {
    if st().in_event {
        return;
    }
    st().in_event = true;
    let _own = crate::alloc::own();
    while let Some(t) = st().heap.peek() {
        if t.at > st().now {
            break;
        }
        let t = st().heap.pop().unwrap();
        match t.what {
            TimedWhat::Deliver(d) => crate::net::deliver(d),
            TimedWhat::Icmp { sock, errno } => crate::net::icmp(sock, errno),
            TimedWhat::Notify { sock, bits } => crate::net::notify_sock(sock, bits),
            TimedWhat::Call(f) => f(),
        }
    }
    let now = st().now;
    let mut due: Vec<(u64, usize)> = vec![];
    for (i, t) in st().threads.iter().enumerate() {
        let d = match t.state {
            TState::Futex { deadline, .. }
            | TState::Epoll { deadline, .. }
            | TState::Sleep { deadline }
            | TState::Stall { deadline } => deadline,
            _ => NEVER,
        };
        if d <= now {
            due.push((d, i));
        }
    }
    due.sort();
    for (_, i) in due {
        st().threads[i].timed_out = true;
        st().make_runnable(i);
    }
    st().in_event = false;
}

fn tick() {
    st().steps += 1;
    if st().steps > st().cfg.max_steps {
        abort_run("step-cap");
    }
    if st().cfg.step_ns > 0 {
        st().now += st().cfg.step_ns;
    }
    process_due();
}

/// Picks the thread to run when the current one cannot.
pub fn pick_next() -> usize {
    loop {
        process_due();
        if !st().runq.is_empty() {
            let n = st().runq.len();
            let p = match &st().cfg.sched {
                Sched::Random { p_pick, .. } => *p_pick,
                _ => 0,
            };
            let k = if n > 1 { st().decide(n - 1, p, false).0 as usize % n } else { 0 };
            let t = st().runq.remove(k);
            st().sched_hash = fnv(st().sched_hash, (t as u64) << 32 | 1);
            return t;
        }
        // everything is blocked
        if !st().threads.iter().any(|t| matches!(t.state, TState::Stall { .. })) {
            let _own = crate::alloc::own();
            let q = (st().seq, st().now);
            st().seq += 1;
            st().quiescent.push(q);
        }
        let d = st().next_deadline();
        if d == NEVER {
            abort_run("deadlock");
        }
        if d > st().cfg.max_time_ns {
            abort_run("time-cap");
        }
        st().now = st().now.max(d);
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Yield {
    Atomic,
    Syscall,
}

/// A scheduling point: the simulator may run other threads first.
pub fn yield_point(kind: Yield) {
    if !active() {
        return;
    }
    let s = st();
    let me = s.cur;
    if s.in_event || s.threads[me].nopreempt > 0 {
        return;
    }
    tick();
    if s.runq.is_empty() {
        return;
    }
    let p = match (&s.cfg.sched, kind) {
        (Sched::Random { p_atomic, .. }, Yield::Atomic) => *p_atomic,
        (Sched::Random { p_syscall, .. }, Yield::Syscall) => *p_syscall,
        _ => 0,
    };
    let n = s.runq.len();
    let (c, stall) = s.decide(n, p, true);
    if c == 0 {
        return;
    }
    let next = s.runq.remove((c as usize - 1) % n);
    let own = crate::alloc::own();
    if stall > 0 {
        s.threads[me].state = TState::Stall { deadline: s.now + stall as u64 * US };
        *s.counters.entry("thread_stall").or_insert(0) += 1;
    } else {
        s.runq.push(me);
    }
    *s.counters.entry("preemption").or_insert(0) += 1;
    drop(own);
    s.sched_hash = fnv(s.sched_hash, (next as u64) << 32 | 2);
    crate::threads::switch(me, next);
}

/// Voluntary yield (sched_yield): always lets another runnable thread go first.
pub fn yield_now() {
    let s = st();
    let me = s.cur;
    if s.in_event || s.threads[me].nopreempt > 0 {
        return;
    }
    tick();
    if s.runq.is_empty() {
        // A spinning thread with nobody to wait for: let time pass.
        if s.next_deadline() != NEVER {
            s.threads[me].state = TState::Stall { deadline: s.now + 10 * US };
            let n = pick_next();
            if n != me {
                crate::threads::switch(me, n);
            }
        }
        return;
    }
    s.runq.push(me);
    let n = pick_next();
    if n != me {
        crate::threads::switch(me, n);
    }
}

/// Blocks the current thread in `state`; returns true if it timed out.
pub fn block(state: TState) -> bool {
    let s = st();
    let me = s.cur;
    s.threads[me].timed_out = false;
    s.threads[me].state = state;
    // only now may time pass: an event that falls due must find this thread waiting
    tick();
    let n = pick_next();
    if n != me {
        crate::threads::switch(me, n);
    }
    let s = st();
    s.threads[me].timed_out
}
