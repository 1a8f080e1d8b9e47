//! radsim: deterministic simulation of radius-rs.
//!
//!   radsim work  FOCUS SEED0 STRIDE COUNT SECONDS   many runs; V/E lines and one S line
//!   radsim digest FOCUS SEED0 STRIDE COUNT SECONDS  "seed hash" per run
//!   radsim plan FOCUS SEED                          prints the plan
//!   radsim serve                                    a JSON request per line on stdin
#![allow(dead_code)]
mod attrs;
mod gen;
mod hist;
mod model;
mod oracle;
mod oracle_client;
mod plan;
mod reference;
mod runner;
mod world;

use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, Write};
use std::time::{Duration, Instant};

#[derive(Default, Serialize)]
struct Sum {
    runs: u64,
    rechecked: u64,
    steps: u64,
    points: u64,
    switches: u64,
    events: u64,
    time_ns: u128,
    seed_first: u64,
    seed_last: u64,
    tested: BTreeMap<String, u64>,
    runs_tested: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    counters: BTreeMap<String, u64>,
    known: BTreeSet<String>,
    worlds: BTreeMap<String, u64>,
    hists: Vec<u64>,
    scheds: Vec<u64>,
    samples: Vec<String>,
    seconds: f64,
    /// the longest run: milliseconds, seed
    slowest: (u64, u64),
}

fn add(a: &mut BTreeMap<String, u64>, b: &BTreeMap<String, u64>) {
    for (k, v) in b {
        *a.entry(k.clone()).or_insert(0) += v;
    }
}

fn world_of(p: &plan::Plan) -> &'static str {
    match (p.server.is_some(), !p.calls.is_empty(), p.make.is_some()) {
        (true, true, _) => "server+clients",
        (true, false, _) => "server+scripted clients",
        (false, true, _) => "clients+scripted servers",
        _ => "packet construction",
    }
}

fn describe(p: &plan::Plan, r: &runner::Res) -> String {
    format!(
        "seed {}: {}, {} worker threads, {} scripted datagrams, {} client calls, {} network fates, {} system-call faults, {} partitions; {} steps, {} preemptions, {} events, {:.3} s simulated",
        p.seed,
        world_of(p),
        p.threads,
        p.ops.len(),
        p.calls.len(),
        p.fates.len(),
        p.sysfaults.len(),
        p.partitions.len(),
        r.steps,
        r.counters.get("preemption").unwrap_or(&0),
        r.events,
        r.time_ns as f64 / 1e9
    )
}

fn work(a: &[String], digest: bool) {
    let focus = &a[0];
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed0, stride, count, secs) = (n(1), n(2), n(3), a[4].parse::<f64>().unwrap());
    let t0 = Instant::now();
    let mut s = Sum { seed_first: seed0, ..Default::default() };
    let (mut hs, mut ss) = (HashSet::new(), HashSet::new());
    let out = std::io::stdout();
    let mut bad = 0usize;
    for k in 0..count {
        if t0.elapsed() > Duration::from_secs_f64(secs) {
            break;
        }
        let seed = seed0 + k * stride;
        let p = gen::gen(seed, focus);
        let t1 = Instant::now();
        let r = runner::run_all(&p, false);
        s.slowest = s.slowest.max((t1.elapsed().as_millis() as u64, seed));
        s.seed_last = seed;
        s.runs += 1;
        s.steps += r.steps;
        s.points += r.points;
        s.switches += r.switches;
        s.events += r.events;
        s.time_ns += r.time_ns as u128;
        add(&mut s.tested, &r.tested);
        for k in r.tested.keys() {
            *s.runs_tested.entry(k.clone()).or_insert(0) += 1;
        }
        add(&mut s.probes, &r.probes);
        add(&mut s.counters, &r.counters);
        s.known.extend(r.known.iter().cloned());
        *s.worlds.entry(world_of(&p).into()).or_insert(0) += 1;
        if digest {
            writeln!(out.lock(), "D {seed} {:016x}", r.sem).unwrap();
        }
        if digest || r.tested.contains_key(focus.as_str()) {
            hs.insert(r.hist);
            if s.samples.len() < 3 && r.viol.is_empty() {
                s.samples.push(describe(&p, &r));
            }
        }
        ss.insert(r.sched);
        // the same plan must give the same run
        if k % 64 == 5 && r.viol.is_empty() {
            let r2 = runner::run(&p, false);
            s.rechecked += 1;
            if r2.hist != r.hist || r2.sched != r.sched {
                writeln!(out.lock(), "E {{\"seed\":{seed},\"errors\":[\"not deterministic\"]}}").unwrap();
            }
        }
        if !r.errors.is_empty() {
            writeln!(out.lock(), "E {}", serde_json::json!({"seed": seed, "errors": r.errors})).unwrap();
        }
        if !r.viol.is_empty() {
            writeln!(out.lock(), "V {}", serde_json::json!({"seed": seed, "viol": r.viol})).unwrap();
            bad += usize::from(r.viol.iter().any(|v| v.tags.iter().any(|t| t == focus)));
            if bad >= 10 {
                break;
            }
        }
    }
    s.hists = hs.into_iter().collect();
    s.scheds = ss.into_iter().collect();
    s.seconds = t0.elapsed().as_secs_f64();
    writeln!(out.lock(), "S {}", serde_json::to_string(&s).unwrap()).unwrap();
}

#[derive(Deserialize)]
struct Ask {
    plan: Option<plan::Plan>,
    seed: Option<u64>,
    focus: Option<String>,
    #[serde(default)]
    full: bool,
    /// only print the plan
    #[serde(default)]
    show: bool,
}

fn serve() {
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let a: Ask = match serde_json::from_str(&line) {
            Ok(a) => a,
            Err(e) => {
                println!("{}", serde_json::json!({"bad_request": e.to_string()}));
                continue;
            }
        };
        let p = a.plan.unwrap_or_else(|| gen::gen(a.seed.unwrap_or(1), a.focus.as_deref().unwrap_or("C02")));
        if a.show {
            println!("{}", serde_json::to_string(&p).unwrap());
        } else {
            println!("{}", serde_json::to_string(&runner::run_all(&p, a.full)).unwrap());
        }
        std::io::stdout().flush().unwrap();
    }
}

#[global_allocator]
static HEAP: simcore::alloc::Heap = simcore::alloc::Heap;

fn main() {
    simcore::alloc::reserve();
    runner::install();
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("work") => work(&a[1..], false),
        Some("digest") => work(&a[1..], true),
        Some("plan") => println!("{}", serde_json::to_string_pretty(&gen::gen(a[2].parse().unwrap(), &a[1])).unwrap()),
        Some("serve") => serve(),
        _ => {
            eprintln!("usage: radsim work|digest|plan|serve ...");
            std::process::exit(2);
        }
    }
}
