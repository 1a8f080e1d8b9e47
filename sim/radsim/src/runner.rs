//! One forked child per simulated run.
use crate::hist::{h, on, rec, Ev};
use crate::oracle;
use crate::plan::Plan;
use crate::world;
use serde::{Deserialize, Serialize};
use simcore::{fnv, st};
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::io::Read;
use std::os::fd::FromRawFd;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct V {
    pub tags: Vec<String>,
    pub kind: String,
    pub msg: String,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Res {
    pub outcome: String,
    pub viol: Vec<V>,
    pub errors: Vec<String>,
    pub known: Vec<String>,
    pub tested: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub counters: BTreeMap<String, u64>,
    pub steps: u64,
    pub points: u64,
    pub switches: u64,
    pub time_ns: u64,
    pub events: u64,
    /// hash of the scheduling decisions
    pub sched: u64,
    /// hash of everything recorded
    pub hist: u64,
    /// hash of what the build options may not change
    pub sem: u64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub recorded: Option<Vec<(u64, u32, u32)>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub log: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub random: Option<Random>,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Random {
    pub auths: Vec<u64>,
    /// per thread
    pub ids: Vec<Vec<u8>>,
    pub salts: Vec<Vec<u16>>,
}

static mut PIPE: i32 = -1;
static mut FULL: bool = false;
static mut CHILD: bool = false;

struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if simcore::active() && on() {
            simcore::no_preempt(|| rec(Ev::Log { text: format!("{} {} {}", r.level(), r.target(), r.args()) }));
        }
    }
    fn flush(&self) {}
}
static LOGGER: Logger = Logger;

pub fn install() {
    world::init_table();
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Trace);
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if unsafe { !CHILD } {
            return old(i);
        }
        if simcore::active() && on() {
            simcore::no_preempt(|| {
                let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
                let (file, line) = i.location().map_or((String::new(), 0), |l| (l.file().to_string(), l.line()));
                rec(Ev::Panic { msg, file, line });
            });
        }
    }));
}

/// Order-sensitive hash, the same in every build.
struct Mix(u64);
impl Mix {
    fn word(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 ^= self.0 >> 29;
    }
}
impl Hasher for Mix {
    fn write(&mut self, b: &[u8]) {
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            self.word(u64::from_le_bytes(c.try_into().unwrap()));
        }
        let r = it.remainder();
        if !r.is_empty() {
            let mut x = [0u8; 8];
            x[..r.len()].copy_from_slice(r);
            x[7] = r.len() as u8;
            self.word(u64::from_le_bytes(x));
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}

enum One<'a> {
    Ev(&'a Ev),
    Net(&'a simcore::NetEv),
}
/// everything recorded, in order
fn walk(mut f: impl FnMut(u64, u64, One)) {
    let (a, b) = (&h().ev, &st().net.log);
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].seq < b[j].seq) {
            f(a[i].seq, a[i].t, One::Ev(&a[i].ev));
            i += 1;
        } else {
            f(b[j].seq, b[j].t, One::Net(&b[j].ev));
            j += 1;
        }
    }
}

fn random_of() -> Random {
    let mut r = Random::default();
    let n = world::plan().make.as_ref().map_or(0, |m| m.threads);
    r.ids = vec![vec![]; n];
    r.salts = vec![vec![]; n];
    for e in &h().ev {
        match &e.ev {
            Ev::Made { thread, auth, id, given } => {
                r.auths.push(auth.chunks(8).fold(0xcbf2_9ce4_8422_2325, |h, c| fnv(h, c.iter().fold(0, |a, b| a << 8 | *b as u64))));
                if given.is_none() {
                    r.ids[*thread].push(*id);
                }
            }
            Ev::Salt { thread, salt } => r.salts[*thread].push(u16::from_be_bytes([salt[0], salt[1]])),
            _ => {}
        }
    }
    r
}

fn finish(outcome: &str) -> ! {
    let s = st();
    let mut res = Res { outcome: outcome.to_string(), ..Default::default() };
    match std::panic::catch_unwind(|| oracle::judge(outcome)) {
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned());
            res.errors.push(format!("the oracle panicked: {m:?}"));
        }
        Ok(r) => {
            res.viol = r.viol.iter().map(|v| V { tags: v.tags.iter().map(|x| x.to_string()).collect(), kind: v.kind.clone(), msg: v.msg.clone() }).collect();
            res.errors = r.errors;
            res.known = r.known.iter().map(|x| x.to_string()).collect();
            res.tested = r.tested.iter().map(|x| (x.0.to_string(), *x.1)).collect();
            res.probes = r.probes.iter().map(|x| (x.0.to_string(), *x.1)).collect();
        }
    }
    res.counters = s.counters.iter().map(|x| (x.0.to_string(), *x.1)).collect();
    res.steps = s.steps;
    res.points = s.choice_points;
    res.switches = s.switches;
    res.time_ns = s.now;
    res.events = (h().ev.len() + s.net.log.len()) as u64;
    res.sched = s.sched_hash;
    let (mut a, mut b) = (Mix(1), Mix(1));
    let mut lines = vec![];
    let full = unsafe { FULL };
    // of a very long history, the end
    let mut skip = if res.events > 60_000 { res.events - 20_000 } else { 0 };
    walk(|seq, t, ev| {
        a.word(t);
        match ev {
            One::Ev(e) => {
                e.hash(&mut a);
                if !matches!(e, Ev::Log { .. } | Ev::Panic { .. } | Ev::Mem { .. }) {
                    b.word(t);
                    e.hash(&mut b);
                }
            }
            One::Net(e) => {
                e.hash(&mut a);
                b.word(t);
                e.hash(&mut b);
            }
        }
        if full && skip > 0 {
            skip -= 1;
        } else if full {
            lines.push(match ev {
                One::Ev(e) => format!("{seq} {t} {e:?}"),
                One::Net(e) => format!("{seq} {t} {e:?}"),
            });
        }
    });
    res.hist = a.0;
    res.sem = b.0;
    if world::plan().focus == "C25" {
        // named values show in what the oracle says of them
        for v in res.viol.iter().filter(|v| v.kind == "named-value") {
            v.msg.hash(&mut b);
        }
        res.sem = b.0;
    }
    if full {
        for (seq, t) in &s.quiescent {
            lines.push(format!("{seq} {t} quiet"));
        }
        lines.sort_by_key(|l| l.split(' ').next().unwrap().parse::<u64>().unwrap());
        res.recorded = Some(s.recorded.clone());
        res.log = Some(lines);
    }
    if world::plan().make.is_some() {
        res.random = Some(random_of());
    }
    let out = serde_json::to_vec(&res).unwrap();
    let mut off = 0;
    while off < out.len() {
        let n = unsafe { libc::write(PIPE, out[off..].as_ptr() as *const _, out.len() - off) };
        if n <= 0 {
            break;
        }
        off += n as usize;
    }
    unsafe { libc::_exit(0) }
}

/// Seconds of processor time a run may take.
fn cpu_limit(plan: &Plan) -> u64 {
    25 + plan.ops.len() as u64 / 600
}
const MEM_LIMIT: u64 = 6 << 30;

pub fn run(plan: &Plan, full: bool) -> Res {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            PIPE = fds[1];
            FULL = full;
            CHILD = true;
            let lim = libc::rlimit { rlim_cur: cpu_limit(plan), rlim_max: cpu_limit(plan) + 2 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let lim = libc::rlimit { rlim_cur: MEM_LIMIT, rlim_max: MEM_LIMIT };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            simcore::alloc::enter();
            world::set_plan(plan.clone());
            world::run(finish);
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut buf = vec![];
        let _ = f.read_to_end(&mut buf);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if let Ok(r) = serde_json::from_slice::<Res>(&buf) {
            return r;
        }
        died(plan, st)
    }
}

/// The child never reported: the code under test took the whole process with it.
fn died(plan: &Plan, status: i32) -> Res {
    let mut r = Res::default();
    let sig = if libc::WIFSIGNALED(status) { libc::WTERMSIG(status) } else { 0 };
    let hang = sig == libc::SIGXCPU || (sig == libc::SIGKILL);
    r.outcome = if hang { "hang".into() } else { format!("crash-{sig}") };
    if sig == libc::SIGKILL {
        r.errors.push("the run was killed (out of memory?)".into());
        return r;
    }
    if sig == 0 {
        r.errors.push(format!("the run ended without a report (status {status})"));
        return r;
    }
    let mut tags: Vec<&str> = vec![];
    if plan.server.is_some() {
        tags.extend(["C02", "C05", "C06", "C15"]);
    }
    if !plan.calls.is_empty() {
        tags.extend(["C08", "C10", "C11", "C24"]);
    }
    if plan.make.is_some() {
        tags.push("C16");
    }
    let msg = if hang { format!("the code ran for {} s of processor time without finishing", cpu_limit(plan)) } else { format!("the process died from signal {sig}") };
    r.viol.push(V { tags: tags.iter().map(|x| x.to_string()).collect(), kind: r.outcome.clone(), msg });
    r
}

/// Two runs that differ in the operating system's entropy only ("process restart").
pub fn compare_random(a: &Random, b: &Random) -> Option<V> {
    let bad = |kind: &str, msg: String| Some(V { tags: vec!["C16".into()], kind: kind.into(), msg });
    let set: std::collections::HashSet<u64> = a.auths.iter().copied().collect();
    let same = b.auths.iter().filter(|x| set.contains(x)).count();
    if same > 0 {
        return bad("auth-repeats-after-restart", format!("{same} authenticators occur again after a restart with fresh entropy and the same clock"));
    }
    for (i, (x, y)) in a.ids.iter().zip(&b.ids).enumerate() {
        let n = x.len().min(y.len());
        if n >= 16 && x[..16] == y[..16] {
            return bad("ids-repeat-after-restart", format!("thread {i}: the same {n} identifiers after a restart with fresh entropy and the same clock"));
        }
    }
    for (i, (x, y)) in a.salts.iter().zip(&b.salts).enumerate() {
        let n = x.len().min(y.len());
        if n >= 8 && x[..8] == y[..8] {
            return bad("salts-repeat-after-restart", format!("thread {i}: the same {n} salts after a restart with fresh entropy and the same clock"));
        }
    }
    None
}

/// A run, and for randomness worlds also its restart.
pub fn run_all(plan: &Plan, full: bool) -> Res {
    let mut r = run(plan, full);
    if plan.make.is_some() && r.viol.is_empty() && r.errors.is_empty() {
        let mut p2 = plan.clone();
        p2.entropy = plan.entropy ^ 0x5DEE_CE66_D123_4567;
        let r2 = run(&p2, false);
        r.errors.extend(r2.errors);
        r.viol.extend(r2.viol);
        if let (Some(a), Some(b)) = (&r.random, &r2.random) {
            r.viol.extend(compare_random(a, b));
        }
    }
    r
}
