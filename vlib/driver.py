"""Runs the simulator over many seeds, reports, minimises, writes evidence."""
import fcntl, json, os, queue, signal, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(ROOT, "target", "sim")
BUILDS = ["md5", "openssl"]
KNOWN_FILE = os.path.join(ROOT, "known_findings.txt")
RADSIM = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
          "C17", "C18", "C19", "C21", "C23", "C24", "C27", "C28"]
# the executables whose histories are compared
PAIRS = {"C20": ["md5", "openssl"], "C25": ["md5", "modules"]}
QUICK_S = 40.0
THOROUGH_S = 720.0

REAL = ["radius crate (client, server, packet, attribute and dictionary code), built from /repo with each crypto option",
        "tokio runtime (scheduler, timers, I/O driver) and mio, std, md-5 or OpenSSL digests, rand/chrono"]
STUB = ["kernel: UDP sockets, epoll, eventfd, clocks, sleeping, entropy, futex wait/wake and thread scheduling (simulator)",
        "network between hosts (simulator)", "request handler and secret provider (scripted; the library's user supplies these)",
        "peers: scripted clients against the real server, scripted servers against the real client, real against real in mixed worlds"]
ASSUME = ["the simulated kernel behaves like Linux for the calls the code makes",
          "sampling: a clean batch is evidence, not proof",
          "scheduling points are system calls, lock operations and atomic operations of the radius and harness crates; code between two of them runs undivided, and memory is sequentially consistent"]
RULE = ("One evaluation is one simulated run: a seed generates a world (peers, secrets, requests, handler behaviour, timeouts), a fault plan "
        "(loss, duplication, delay, reordering, corruption, truncation, padding, partitions, failing system calls, ICMP errors, spurious readiness, "
        "clock jumps, stalled threads) and every scheduling decision. A run is non-trivial for this property if the oracle met at least one "
        "situation in which the property makes a demand; distinct ones differ in the hash of their complete recorded history.")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Broken(Exception):
    pass


def build():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t = time.time()
        p = subprocess.run(["bash", os.path.join(ROOT, "sim", "build.sh"), TARGET], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise Broken("the simulator does not build on this tree:\n" + p.stdout[-4000:])
        log(f"built in {time.time() - t:.1f} s")


def binary(b):
    return os.path.join(TARGET, "radsim-" + b)


def pin(pid, k):
    """One core per worker: a simulation is one thread at a time, whichever thread it is."""
    try:
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(pid, {cpus[k % len(cpus)]})
    except OSError:
        pass


class Server:
    """A simulator process answering single-run requests."""
    def __init__(self, b):
        self.b = b
        self.p = subprocess.Popen([binary(b), "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def ask(self, **kw):
        self.p.stdin.write(json.dumps(kw) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise Broken("the simulator process died")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


def once(b, **kw):
    s = Server(b)
    try:
        return s.ask(**kw)
    finally:
        s.close()


# ---------------------------------------------------------------- predicates: does this plan still fail the same way?

def hits(res, prop, kind=None):
    return [v for v in res.get("viol", []) if prop in v["tags"] and (kind is None or v["kind"] == kind)]


class Single:
    """A violation seen by the oracle in one run."""
    def __init__(self, prop, b, kind):
        self.prop, self.b, self.kind = prop, b, kind
        self.s = Server(b)

    def run(self, plan, full=False):
        r = self.s.ask(plan=plan, full=full)
        h = hits(r, self.prop, self.kind)
        return (h[0] if h else None), r

    def close(self):
        self.s.close()


class Differ:
    """Two builds that behave differently on one plan (C20, C25)."""

    def __init__(self, prop):
        self.prop = prop
        self.kind = {"C20": "backends-differ", "C25": "modules-differ"}[prop]
        self.names = PAIRS[prop]
        self.s = [Server(b) for b in self.names]

    def run(self, plan, full=False):
        r = [s.ask(plan=plan, full=full) for s in self.s]
        if r[0]["sem"] == r[1]["sem"]:
            return None, r[0]
        msg = "the two builds behave differently under one seed"
        if full:
            strip = [[" ".join(l.split(" ")[1:]) for l in x["log"] if "quiet" not in l and " Log {" not in l and " Panic {" not in l] for x in r]
            for i, (x, y) in enumerate(zip(strip[0], strip[1])):
                if x != y:
                    msg += f"; first difference at event {i}: {self.names[0]} {x[:600]} | {self.names[1]} {y[:600]}"
                    break
            else:
                msg += f"; {len(strip[0])} and {len(strip[1])} events"
        r[0]["hist"] ^= r[1]["hist"]
        return {"tags": [self.prop], "kind": self.kind, "msg": msg}, r[0]

    def close(self):
        for s in self.s:
            s.close()


# ---------------------------------------------------------------- minimisation

def ddmin(items, test, deadline):
    """Smallest sublist found for which test(list) holds; test(items) is known to hold."""
    n = 2
    items = list(items)
    if items and test([]):
        return []
    while len(items) >= 2 and time.time() < deadline:
        size = max(1, len(items) // n)
        for i in range(0, len(items), size):
            if time.time() > deadline:
                return items
            cand = items[:i] + items[i + size:]
            if cand and test(cand):
                items = cand
                n = max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def without_calls(plan, keep):
    """The plan with only the calls whose indices are in `keep`; references follow."""
    p = json.loads(json.dumps(plan))
    m = {old: new for new, old in enumerate(keep)}
    p["calls"] = [p["calls"][i] for i in keep]
    p["sysfaults"] = [dict(f, label=(0 if f["label"] == 0 else m[f["label"] - 1] + 1)) for f in p["sysfaults"] if f["label"] == 0 or f["label"] - 1 in m]
    p["sndfull"] = [[m[w[0] - 1] + 1 if w[0] - 1 in m else w[0]] + w[1:] for w in p.get("sndfull", []) if w[0] - 1 in m or w[0] - 1 not in range(len(plan["calls"]))]
    p["spurious"] = [[t, None if w is None else m[w]] for t, w in p["spurious"] if w is None or w in m]
    for c in p["calls"]:
        acts = []
        for a in c["acts"]:
            k = a["kind"]
            ref = None
            if isinstance(k, dict):
                for name in ("ReplayOf", "CrossOf"):
                    if name in k:
                        ref = k[name]
            if ref is not None:
                if ref["call"] not in m:
                    continue
                ref["call"] = m[ref["call"]]
            acts.append(a)
        c["acts"] = acts
    return p


def minimise(judge, plan, seconds):
    deadline = time.time() + seconds
    tried = [0]
    best = [plan]

    def ok(p):
        tried[0] += 1
        v, _ = judge.run(p)
        if v:
            best[0] = p
            return True
        return False

    def attempt(**kw):
        if time.time() > deadline:
            return False
        p = dict(best[0], **kw)
        return p != best[0] and ok(p)

    v, r = judge.run(plan, full=True)
    if not v:
        return plan, 0
    if r.get("recorded") is not None:
        attempt(sched={"Replay": r["recorded"]})
    attempt(threads=0, sched={"Replay": []}) or attempt(sched={"Replay": []})

    def shrink_list(key, get=None, put=None):
        cur = best[0]
        items = get(cur) if get else cur.get(key)
        if not items:
            return
        put2 = put or (lambda p, x: dict(p, **{key: x}))
        ddmin(items, lambda x: ok(put2(best[0] if not put else cur, x)), deadline)

    for rnd in range(2):
        size = len(json.dumps(best[0]))
        cur = best[0]
        if cur["calls"]:
            ddmin(list(range(len(cur["calls"]))), lambda keep: ok(without_calls(cur, keep)), deadline)
        shrink_list("ops")
        for k in ("fates", "sysfaults", "partitions", "spurious", "sndfull", "clock_jumps"):
            shrink_list(k)
        srv = best[0].get("server")
        if srv:
            if len(srv["runs"]) > 1:
                for n in (1, 2, 3):
                    if n < len(srv["runs"]) and attempt(server=dict(srv, runs=srv["runs"][:n])):
                        break
            for field, val in (("buf", None), ("skip", False)):
                s2 = best[0]["server"]
                if s2[field] != val:
                    attempt(server=dict(s2, **{field: val}))
            s2 = best[0]["server"]
            ddmin(s2["peers"], lambda x: ok(dict(best[0], server=dict(best[0]["server"], peers=x))), deadline)
        for i in range(len(best[0]["calls"])):
            for f in ("typed", "dels", "attrs", "acts", "behave"):
                c = best[0]["calls"][i]
                if len(c.get(f, [])) > (1 if f == "behave" else 0):
                    def put(x, i=i, f=f):
                        cs = list(best[0]["calls"])
                        cs[i] = dict(cs[i], **{f: x})
                        return ok(dict(best[0], calls=cs))
                    ddmin(c[f], lambda x: (f != "behave" or x) and put(x), deadline)
        for k, v in (("make", None), ("step_ns", 0), ("icmp", False), ("latency_us", 500), ("realtime_base_s", 1700000000), ("tail_us", 1000)):
            if best[0].get(k) not in (v, None):
                attempt(**{k: v})
        if isinstance(best[0]["sched"], dict) and "Replay" in best[0]["sched"]:
            sc = best[0]["sched"]["Replay"]
            ddmin(sc, lambda x: ok(dict(best[0], sched={"Replay": x})), deadline)
        if len(json.dumps(best[0])) == size or time.time() > deadline:
            break
    return best[0], tried[0]


# ---------------------------------------------------------------- batches

def seed_base(seed):
    return (int(seed) % (1 << 32)) * 100_000_000


class Batch:
    def __init__(self):
        self.sums, self.errors, self.warnings, self.found, self.other = [], [], [], [], {}


def run_batch(prop, seed, seconds, workers=8):
    b = Batch()
    base = seed_base(seed)
    q = queue.Queue()
    procs = []
    for w in range(workers):
        build = BUILDS[w * len(BUILDS) // workers]
        p = subprocess.Popen([binary(build), "work", prop, str(base + w), str(workers), "100000000", str(seconds)],
                             stdout=subprocess.PIPE, text=True, start_new_session=True)
        pin(p.pid, w)
        procs.append(p)

        def pump(p=p, build=build):
            for line in p.stdout:
                q.put((build, line))
            p.wait()
            q.put((build, None if p.returncode == 0 else f"X {p.returncode}"))
        threading.Thread(target=pump, daemon=True).start()
    live = workers
    stop_at = None
    while live:
        try:
            build, line = q.get(timeout=0.5)
        except queue.Empty:
            if stop_at and time.time() > stop_at:
                break
            continue
        if line is None:
            live -= 1
            continue
        kind, rest = line[:1], line[2:]
        if kind == "X":
            live -= 1
            if not stop_at:
                b.errors.append(f"worker ended with status {rest.strip()}")
        elif kind == "S":
            b.sums.append(json.loads(rest))
        elif kind == "E":
            d = json.loads(rest)
            for e in d["errors"]:
                (b.warnings if e == "not deterministic" else b.errors).append(f"seed {d['seed']} ({build}): {e}")
        elif kind == "V":
            d = json.loads(rest)
            mine = [v for v in d["viol"] if prop in v["tags"]]
            for v in d["viol"]:
                if prop not in v["tags"]:
                    b.other.setdefault(v["kind"], (d["seed"], build, v["tags"], v["msg"][:300]))
            if mine:
                b.found.append((d["seed"], build, mine))
                if not stop_at:
                    stop_at = time.time() + 3
        if stop_at and time.time() > stop_at:
            break
    for p in procs:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    return b


def run_pairs(prop, seed, seconds, pairs=4):
    """C20, C25: the same seeds on both builds, histories compared."""
    b = Batch()
    base = seed_base(seed)
    builds = PAIRS[prop]
    got = [{} for _ in builds]
    lock = threading.Lock()
    ths = []
    stop = threading.Event()

    def pump(k, w):
        p = subprocess.Popen([binary(builds[k]), "digest", prop, str(base + w), str(pairs), "100000000", str(seconds)],
                             stdout=subprocess.PIPE, text=True, start_new_session=True)
        pin(p.pid, w * len(builds) + k)
        for line in p.stdout:
            if line[0] == "D":
                _, s, h = line.split()
                with lock:
                    got[k][int(s)] = h
                    o = got[1 - k].get(int(s))
                    if o is not None and o != h:
                        b.found.append((int(s), "both", [{"tags": [prop], "kind": "differ", "msg": ""}]))
                        stop.set()
            elif line[0] == "S":
                b.sums.append(json.loads(line[2:]))
            elif line[0] == "E":
                d = json.loads(line[2:])
                for e in d["errors"]:
                    (b.warnings if e == "not deterministic" else b.errors).append(f"seed {d['seed']}: {e}")
            if stop.is_set():
                os.killpg(p.pid, signal.SIGKILL)
                break
        p.wait()
    for k in range(len(builds)):
        for w in range(pairs):
            t = threading.Thread(target=pump, args=(k, w))
            t.start()
            ths.append(t)
    for t in ths:
        t.join()
    b.compared = len(set(got[0]) & set(got[1]))
    return b


# ---------------------------------------------------------------- reporting

def merge(sums):
    out = {"runs": 0, "rechecked": 0, "steps": 0, "points": 0, "switches": 0, "events": 0, "time_ns": 0, "tested": {}, "runs_tested": {},
           "probes": {}, "counters": {}, "worlds": {}, "known": set(), "hists": set(), "scheds": set(), "samples": [], "seconds": 0.0}
    for s in sums:
        for k in ("runs", "rechecked", "steps", "points", "switches", "events", "time_ns"):
            out[k] += s[k]
        for k in ("tested", "runs_tested", "probes", "counters", "worlds"):
            for x, n in s[k].items():
                out[k][x] = out[k].get(x, 0) + n
        out["known"] |= set(s["known"])
        out["hists"] |= set(s["hists"])
        out["scheds"] |= set(s["scheds"])
        out["samples"] += s["samples"][:1]
        out["seconds"] = max(out["seconds"], s["seconds"])
    return out


def known_findings():
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=<id> key=<key> <text>
                parts = line.split(" ", 3)
                out[parts[2].split("=", 1)[1]] = (parts[1].split("=", 1)[1], parts[3])
    return out


def write_evidence(prop, tier, seed, cov, wall, violations, assume):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": int(seed), "level": "exploration", "coverage": cov, "assumptions": assume,
          "wall_s": round(wall, 2), "violations": violations}
    tmp = os.path.join(ROOT, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", prop + ".json"))


def report(prop, judge_of, found, min_seconds):
    """Minimises the first failure that reproduces, writes and re-runs its replay file."""
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    for seed, build, viols in sorted(found, key=lambda x: x[0])[:6]:
        kind = viols[0]["kind"]
        judge = judge_of(build, kind)
        try:
            plan = once(BUILDS[0] if build == "both" else build, seed=seed, focus=prop, show=True)
            v, _ = judge.run(plan)
            if not v:
                continue
            small, tried = minimise(judge, plan, min_seconds)
            v, r = judge.run(small, full=True)
            if not v:
                small = plan
                v, r = judge.run(small, full=True)
        finally:
            judge.close()
        path = os.path.join(ROOT, "replays", f"{prop}-{seed}-{build}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "build": build, "kind": v["kind"], "message": v["msg"], "hist": r["hist"],
                       "minimised_with_runs": tried, "plan": small, "log": (r.get("log") or [])[:2000]}, f, indent=1)
        # in a fresh process: the same violation and the same history
        same = replay(path, quiet=True)
        log(f"seed {seed} ({build}): {v['kind']}: {v['msg'][:800]}")
        log(f"minimised with {tried} runs; replay in a fresh process: {'exact' if same else 'NOT exact'}")
        return path, v
    return None, None


def judge_for(prop, build, kind):
    if prop in PAIRS:
        return Differ(prop)
    return Single(prop, build, kind)


def replay(path, quiet=False):
    d = json.load(open(path))
    if d.get("world") == "generator":
        import gensim
        return gensim.replay(d, quiet)
    if d["property"] == "C25":
        import modsim
        v = None if quiet else modsim.build()
        if d.get("world") == "modules":
            return modsim.replay(d, v)
    j = judge_for(d["property"], d["build"], d["kind"])
    try:
        v, r = j.run(d["plan"])
    finally:
        j.close()
    if not v:
        if not quiet:
            log("the recorded failure does not occur on this tree")
        return False
    exact = r["hist"] == d["hist"]
    if not quiet:
        log(f"{v['kind']}: {v['msg'][:2000]}")
        log("history identical to the recorded one" if exact else "same violation, different history")
        print(f"VIOLATION property={d['property']} replay={path}")
    return exact if quiet else True


def check(prop, tier, seed, seconds):
    t0 = time.time()
    if prop == "C25":
        import modsim
        v = modsim.build()
        if v:
            return modsim.fail(v, tier, seed, t0)
    else:
        build()
    b = run_pairs(prop, seed, seconds) if prop in PAIRS else run_batch(prop, seed, seconds)
    m = merge(b.sums)
    path = v = None
    if b.found:
        path, v = report(prop, lambda build, kind: judge_for(prop, build, kind), b.found, 45 if tier == "quick" else 240)
        if path is None:
            b.errors.append("a violation was seen but did not recur on a second run")
    hours = max(m["seconds"], 0.001) / 3600
    faults = {k: n for k, n in sorted(m["counters"].items())}
    cov = {
        "evaluations": m["runs"],
        "distinct_nontrivial": len(m["hists"]),
        "rule": RULE,
        "samples": m["samples"][:8],
        "runs_in_which_the_property_was_put_to_the_test": m["runs_tested"].get(prop, m["runs"] if prop in PAIRS else 0),
        "demands_checked": m["tested"].get(prop, getattr(b, "compared", 0)),
        "runs_per_hour": int(m["runs"] / hours),
        "seeds": f"{seed_base(seed)} upwards, one per run",
        "simulated_seconds": round(m["time_ns"] / 1e9, 1),
        "scheduling_points": m["points"],
        "steps": m["steps"],
        "thread_switches": m["switches"],
        "recorded_events": m["events"],
        "distinct_schedules": len(m["scheds"]),
        "distinct_schedules_measure": "hash of the sequence of threads chosen at every scheduling point",
        "faults_and_conditions_injected": faults,
        "probes": m["probes"],
        "worlds": m["worlds"],
        "reruns_for_determinism": m["rechecked"],
        "not_deterministic": len(b.warnings),
        "builds": PAIRS.get(prop, BUILDS),
        "components_real": REAL,
        "components_stubbed": STUB,
        "violations_of_other_properties_seen": {k: f"seed {x[0]} ({x[1]}): {','.join(x[2])}" for k, x in b.other.items()},
    }
    if prop in PAIRS:
        cov["histories_compared_between_builds"] = b.compared
    write_evidence(prop, tier, seed, cov, time.time() - t0, 1 if path else 0, ASSUME)
    for w in b.warnings[:5]:
        log("WARNING:", w)
    for k, x in b.other.items():
        log(f"note: other property affected: {k} {x}")
    for key, (p, text) in known_findings().items():
        if p == prop and key in m["known"]:
            print(f"KNOWN-FINDING: property={prop} {text}")
    log(f"{prop}: {m['runs']} runs, {len(m['hists'])} distinct non-trivial, {len(m['scheds'])} schedules, {m['time_ns'] / 1e9:.0f} s simulated, {time.time() - t0:.1f} s")
    if path:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if b.errors:
        for e in b.errors[:10]:
            log("ERROR:", e)
        return 2
    if m["runs"] == 0 or not m["hists"]:
        log("ERROR: nothing was explored")
        return 2
    return 0


def main(args):
    try:
        if args and args[0] == "build":
            build()
            import gensim, modsim
            gensim.build()
            modsim.build()
            return 0
        if args and args[0] == "replay":
            if json.load(open(args[1]))["property"] != "C25":
                build()
            return 1 if replay(args[1]) else 0
        prop = args[0]
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = os.environ.get("VERIF_SEED", "1")
        seconds = None
        i = 1
        while i < len(args):
            if args[i] == "--tier":
                tier = args[i + 1]
            elif args[i] == "--seed":
                seed = args[i + 1]
            elif args[i] == "--seconds":
                seconds = float(args[i + 1])
            i += 2
        if tier not in ("quick", "thorough"):
            tier = "quick"
        try:
            seed = int(seed)
        except ValueError:
            seed = int.from_bytes(seed.encode()[:4], "big")
        if seconds is None:
            seconds = QUICK_S if tier == "quick" else THOROUGH_S
        if prop == "C22":
            import gensim
            return gensim.check(tier, seed, seconds)
        return check(prop, tier, seed, seconds)
    except Broken as e:
        log("ERROR:", e)
        return 2
