"""C22: the real code generator run many times over generated dictionaries with seeded file system faults.

One run is one seed: dictionaries, argument order, what already lies in the output directory, the entropy the
process is given, and a fault plan at the system calls (sim/gen/shim.c). The generator is one sequential process,
so its system calls, in order, are all the schedule there is."""
import errno, hashlib, json, os, random, re, shutil, subprocess, tempfile, threading, time
import driver

TARGET = driver.TARGET
GEN = os.path.join(TARGET, "code-generator")
SHIM = os.path.join(TARGET, "shim.so")
HARD = [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EMFILE, errno.EDQUOT, errno.ENOMEM]
TIMEOUT = 30
VARIATIONS = 12
RULE = ("One evaluation is one run of the real code generator: a seed generates the dictionaries (synthetic or the committed ones), the order of "
        "the arguments, stale content in the output directory, the entropy of the process, and the faults at its system calls (failing, "
        "interrupted and short opens, reads and writes, a full disk, death at a system call followed by a second run, missing, unreadable or "
        "malformed inputs). A run is non-trivial if a fault fired or a condition (order, stale output, bad input) differed from the plain run; "
        "distinct ones differ in conditions, faults fired, exit status or outputs.")


def build():
    import fcntl
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["bash", os.path.join(driver.ROOT, "sim", "build.sh"), TARGET, "gen"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise driver.Broken("the code generator does not build on this tree:\n" + p.stdout[-4000:])


# ---------------------------------------------------------------- dictionaries

WORDS = ("Alpha Bravo Carrier Delay Echo Frame Group Host Index Jitter Key Link Mask Node Offset Path Quota Rate Session Tunnel "
         "User Vlan Window Xon Yield Zone").split()
TYPES = ["string", "octets", "ipaddr", "ipv4prefix", "ipv6addr", "ipv6prefix", "ifid", "date", "integer", "integer", "short", "octets[16]",
         "octets[2]", ("string", "has_tag"), ("integer", "has_tag"), ("string", "encrypt=1"), ("string", "has_tag,encrypt=2"), ("octets", "concat"),
         "vsa"]
BAD = ["FROB\tX-Y\t1\tstring", "ATTRIBUTE\tLonely-Thing\t7", "ATTRIBUTE\tOdd-Thing\t7\tblob", "ATTRIBUTE\tBig-Thing\t256\tstring",
       "VALUE\tSome-Thing\tBig\t70000", "ATTRIBUTE\tWord-Thing\tseven\tstring", "VALUE\tSome-Thing\tWorded\tseven", "ATTRIBUTE\tBroken-\ufffdThing\t7\tstring"]


def committed():
    d = "/repo/dicts"
    out = {}
    for n in sorted(os.listdir(d)):
        if n.startswith("dictionary."):
            out[n.split(".", 1)[1]] = open(os.path.join(d, n), encoding="utf-8").read()
    return out


def make_dicts(r, real):
    if r.random() < 0.25 and real:
        names = r.sample(sorted(real), r.randint(1, min(6, len(real))))
        if r.random() < 0.15:
            names = sorted(real)
        return {n: real[n] for n in names}
    out, known = {}, []
    exts = sorted(r.sample(["rfc%d" % i for i in range(1000, 1100)] + ["acme", "zeta"], r.randint(1, 5)))
    for e in exts:
        lines, used, mine = [], set(), []
        if r.random() < 0.5:
            lines += ["# " + e, "#\tgenerated"]
        big = r.random() < 0.2
        for _ in range(r.randint(40, 200) if big else r.randint(0, 12)):
            nm = "-".join(r.sample(WORDS, r.randint(1, 3)))
            if nm in used or any(nm == k for k, _ in known):
                continue
            used.add(nm)
            t = r.choice(TYPES)
            opt = ""
            if isinstance(t, tuple):
                t, opt = t
            sep = r.choice(["\t", "    ", "\t\t"])
            lines.append(sep.join(["ATTRIBUTE", nm, str(r.randint(1, 255)), t] + ([opt] if opt else [])))
            if t == "integer":
                mine.append((nm, e))
            if r.random() < 0.1:
                lines.append("")
            if r.random() < 0.1:
                lines.append("# " + "x" * r.randint(1, 300))
        pool = mine + (known if r.random() < 0.5 else [])
        for nm, _ in r.sample(pool, min(len(pool), r.randint(0, 6))):
            vs = set()
            for i in range(r.randint(1, 8)):
                v = "-".join(r.sample(WORDS, 2))
                if v not in vs:
                    vs.add(v)
                    lines.append("\t".join(["VALUE", nm, v, str(r.randint(0, 65535)) + ("#note" if r.random() < 0.05 else "")]))
        known += mine
        r.random() < 0.2 and lines and lines.sort(key=lambda l: not l.startswith("VALUE"))
        out[e] = "\n".join(lines) + ("" if r.random() < 0.2 else "\n")
    return out


def norm(s):
    return re.sub(r"[^0-9a-z]", "", s.lower())


def complete(ext, text, code):
    """None, or what a module lacks of its dictionary; read independently of the generator."""
    attrs, vals = [], []
    doc = set(l.strip() for l in re.findall(r"(?m)^//!(.*)$", code)) | set(re.sub(r"^//!\s*", "", l.strip()) for l in re.findall(r"(?m)^//!(.*)$", code))
    for l in text.split("\n"):
        if l.strip() and l.strip() not in doc:
            return f"the documentation of {ext} lacks the line {l!r}"
        f = l.split()
        if not f or f[0].startswith("#"):
            continue
        if f[0] == "ATTRIBUTE":
            attrs.append((norm(f[1]), int(f[2]), f[3]))
        else:
            vals.append((norm(f[1] + f[2]), int(f[3].split("#")[0])))
    got = [(norm(a), int(n)) for a, n in re.findall(r"pub\s+const\s+(\w+)_TYPE\s*:\s*AVPType\s*=\s*(\d+)(?:_?u8)?\s*;", code)]
    if sorted(got) != sorted((a, n) for a, n, _ in attrs):
        return f"{ext}: the attribute constants {got[:6]}... are not those of the dictionary {[x[:2] for x in attrs][:6]}..."
    gv = sorted((norm(a), int(n)) for a, t, n in re.findall(r"pub\s+const\s+(\w+)\s*:\s*([\w:\s]+?)\s*=\s*(\d+)(?:_?[ui]\d+)?\s*;", code) if t != "AVPType")
    if gv != sorted(vals):
        return f"{ext}: the value constants {gv[:6]}... are not those of the dictionary {sorted(vals)[:6]}..."
    fns = set(norm(f) for f in re.findall(r"pub\s+fn\s+(\w+)", code))
    for a, _, t in attrs:
        for pre in (["delete"] if t == "vsa" else ["delete", "add", "lookup"]):
            if pre + a not in fns:
                return f"{ext}: no {pre} function for {a}"
    return None


# ---------------------------------------------------------------- one execution

class Box:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="gensim-")

    def __enter__(self):
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def execute(sc, box):
    """Runs the generator through the phases of a scenario; returns its last exit status, outputs, faults fired and call counts."""
    din, dout = os.path.join(box, "in"), os.path.join(box, "out")
    for d in (din, dout):
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
    for e, text in sc["dicts"].items():
        with open(os.path.join(din, "dictionary." + e), "wb") as f:
            f.write(text.encode("utf-8").replace(b"\xef\xbf\xbd", b"\xff\xfe"))
    bad = sc.get("bad") or {}
    if bad.get("dir"):
        os.unlink(os.path.join(din, "dictionary." + bad["dir"]))
        os.mkdir(os.path.join(din, "dictionary." + bad["dir"]))
    if bad.get("missing"):
        os.unlink(os.path.join(din, "dictionary." + bad["missing"]))
    for e, n in sc.get("stale", {}).items():
        with open(os.path.join(dout, e + ".rs"), "wb") as f:
            f.write(b"// stale\n" * (n // 9 + 1))
    if bad.get("outdir"):
        shutil.rmtree(dout)
    if bad.get("outblock"):
        shutil.rmtree(os.path.join(dout, bad["outblock"] + ".rs"), ignore_errors=True)
        if os.path.exists(os.path.join(dout, bad["outblock"] + ".rs")):
            os.unlink(os.path.join(dout, bad["outblock"] + ".rs"))
        os.mkdir(os.path.join(dout, bad["outblock"] + ".rs"))
    fired, counts, status, hang = [], {}, None, False
    rep = os.path.join(box, "report")
    for plan in sc["phases"]:
        if os.path.exists(rep):
            os.unlink(rep)
        env = {"PATH": "/usr/bin:/bin", "LD_PRELOAD": SHIM, "GENSIM_IN": din, "GENSIM_OUT": dout, "GENSIM_PLAN": ";".join(plan), "GENSIM_REPORT": rep,
               "GENSIM_HASH": str(sc.get("hash", 0)), "RUST_BACKTRACE": "0"}
        args = [GEN, "-o", dout] + [os.path.join(din, "dictionary." + e) for e in sc["order"]]
        try:
            p = subprocess.run(args, env=env, cwd=box, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=TIMEOUT)
            status = p.returncode
        except subprocess.TimeoutExpired:
            status, hang = "hang", True
        counts = {}
        for l in open(rep) if os.path.exists(rep) else []:
            f = l.split()
            if f[0] == "F":
                fired.append(" ".join(f[1:]))
                if len(fired) > 200:
                    fired.pop()
            else:
                counts[f[1]] = int(f[2])
    outs = {}
    for e in sc["dicts"]:
        p = os.path.join(dout, e + ".rs")
        outs[e] = open(p, "rb").read() if os.path.isfile(p) else None
    return {"status": status, "hang": hang, "outs": outs, "fired": fired, "counts": counts}


def plain(sc):
    return {"dicts": sc["dicts"], "order": sorted(sc["dicts"]), "stale": {}, "phases": [[]], "hash": 0}


def benign(fired):
    return all(re.search(r" (i0|s[1-9]\d*)$", f) for f in fired)


def judge(sc, base, res):
    """(kind, message) if this execution breaks the property, given the plain execution on the same dictionaries."""
    if res["hang"]:
        return "generator-hangs", f"the generator did not end within {TIMEOUT} s"
    st = res["status"]
    if sc.get("bad"):
        if st == 0 and not (set(sc["bad"]) & {"outdir", "outblock"} and base and res["outs"] == base["outs"]):
            return "success-on-bad-input", f"exit status 0 although an input or the output is unusable: {sc['bad']}"
        return None
    if st == 0:
        for e in sorted(sc["dicts"]):
            if res["outs"][e] != base["outs"][e]:
                a, b = res["outs"][e], base["outs"][e]
                return "success-with-wrong-output", (f"exit status 0, but {e}.rs ({'absent' if a is None else str(len(a)) + ' octets'}) is not what the plain run "
                                                     f"produces ({len(b)} octets); faults that fired: {res['fired'][:8]}")
        return None
    if len(sc["phases"]) > 1:
        # the last phase ran without faults
        return "failure-after-crash", f"exit status {st} of a fault-free run after one that died: {res['fired'][:8]}"
    if benign(res["fired"]):
        return "failure-without-failure", f"exit status {st} although only short transfers or interruptions occurred: {res['fired'][:8]}"
    return None


def judge_plain(sc, base):
    if base["hang"]:
        return "generator-hangs", f"the generator did not end within {TIMEOUT} s"
    if base["status"] != 0:
        return "plain-run-fails", f"exit status {base['status']} of a plain run on valid dictionaries"
    for e, text in sorted(sc["dicts"].items()):
        try:
            c = complete(e, text, base["outs"][e].decode())
        except Exception as x:
            c = f"{e}: {x!r}"
        if c:
            return "success-with-incomplete-output", c
    return None


def vary(r, dicts, counts):
    """One variation: conditions and faults aimed at the calls the plain run made."""
    order = sorted(dicts)
    if r.random() < 0.6:
        r.shuffle(order)
    sc = {"dicts": dicts, "order": order, "stale": {}, "phases": [[]], "hash": r.randrange(1 << 30)}
    for e in dicts:
        if r.random() < 0.3:
            sc["stale"][e] = r.choice([1, 10, 5000, 400000])
    k = r.random()
    if k < 0.12:
        e = r.choice(order)
        w = r.random()
        if w < 0.5:
            lines = dicts[e].split("\n")
            bl = r.choice(BAD)
            at = r.choice([0, len(lines) // 2, len(lines)])
            lines.insert(at, bl)
            sc["dicts"] = dict(dicts, **{e: "\n".join(lines) + "\n"})
            sc["bad"] = {"line": bl, "in": e}
        elif w < 0.65:
            sc["bad"] = {"dir": e}
        elif w < 0.8:
            sc["bad"] = {"missing": e}
        elif w < 0.9:
            sc["bad"] = {"outblock": e}
        else:
            sc["bad"] = {"outdir": True}
        return sc
    if k < 0.22:
        return sc
    faults = []
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        cls = r.choice(["open_in", "open_out", "read", "read", "write", "write", "write"])
        n = counts.get(cls, 0)
        if not n:
            continue
        at = r.choice([0, n - 1, r.randrange(n), r.randrange(n)])
        if cls.startswith("open"):
            act = r.choice(["e%d" % r.choice(HARD), "p%d" % r.choice(HARD), "i"])
        else:
            act = r.choice(["e%d" % r.choice(HARD), "p%d" % r.choice(HARD), "i", "s%d" % r.choice([1, 2, 7, 100, 1000]), "s%d" % r.choice([1, 3, 64, 4095])])
            if cls == "write" and r.random() < 0.05:
                act = "s0"
        faults.append(f"{cls}:{at}:{act}")
    if r.random() < 0.15:
        for cls in ("read", "write"):
            for i in range(counts.get(cls, 0) * 2):
                if r.random() < 0.5 and len(faults) < 200:
                    faults.append(f"{cls}:{i}:{r.choice(['i', 's1', 's9', 's512'])}")
    w = r.random()
    if w < 0.2:
        total = counts.get("_bytes", 1)
        faults = [f"cap:{r.choice([0, 1, r.randrange(total), r.randrange(total), total - 1, total])}"]
    elif w < 0.35:
        cls = r.choice([c for c in ("open_in", "open_out", "read", "write") if counts.get(c)])
        sc["phases"] = [[f"{cls}:{r.randrange(counts[cls])}:k"], []]
        return sc
    sc["phases"] = [faults]
    return sc


def scenario_seed(seed, i):
    return driver.seed_base(seed) + i


def run_seed(s, real, box, sink):
    """Runs one seed: a plain execution and its variations. sink(kind, scenario, base, result, violation)."""
    r = random.Random(s)
    dicts = make_dicts(r, real)
    psc = plain({"dicts": dicts})
    base = execute(psc, box)
    v = judge_plain(psc, base)
    sink(s, -1, psc, base, v)
    if v:
        return
    counts = dict(base["counts"], _bytes=max(1, sum(len(x) for x in base["outs"].values())))
    for i in range(VARIATIONS):
        rr = random.Random(s * 1000 + i)
        sc = vary(rr, dicts, counts)
        res = execute(sc, box)
        sink(s, i, sc, res, judge(sc, base, res))


def full_judge(sc, box):
    if sc.get("plain"):
        base = execute(plain(sc), box)
        return judge_plain(sc, base), base
    base = None
    if not set(sc.get("bad") or ()) & {"line", "dir", "missing"}:
        base = execute(plain(sc), box)
        if judge_plain(plain(sc), base):
            return None, base
    res = execute(sc, box)
    return judge(sc, base, res), res


def digest(sc, res):
    h = hashlib.blake2b(digest_size=8)
    h.update(json.dumps([sc.get("bad"), sc["order"], sorted(sc.get("stale", {}).items()), sc["phases"], str(res["status"]), res["fired"]]).encode())
    for e in sorted(res["outs"]):
        h.update(e.encode() + b"\0" + (res["outs"][e] or b"\1"))
    return h.hexdigest()


def minimise(sc, kind, seconds):
    deadline = time.time() + seconds
    best, tried = sc, 0
    with Box() as box:
        def ok(c):
            nonlocal best, tried
            tried += 1
            v, _ = full_judge(c, box)
            if v and v[0] == kind:
                best = c
                return True
            return False

        def protect(e):
            b = best.get("bad") or {}
            return e in b.values()
        # dictionaries
        for e in list(best["dicts"]):
            if len(best["dicts"]) > 1 and not protect(e) and time.time() < deadline:
                d = {k: v for k, v in best["dicts"].items() if k != e}
                ok(dict(best, dicts=d, order=[o for o in best["order"] if o != e], stale={k: v for k, v in best.get("stale", {}).items() if k != e}))
        # faults
        for pi in range(len(best["phases"])):
            ph = best["phases"][pi]
            if ph:
                driver.ddmin(ph, lambda x: ok(dict(best, phases=best["phases"][:pi] + [x] + best["phases"][pi + 1:])), deadline)
        if best.get("stale"):
            driver.ddmin(sorted(best["stale"]), lambda x: ok(dict(best, stale={k: best["stale"][k] for k in x if k in best["stale"]})), deadline)
        if best["order"] != sorted(best["order"]):
            ok(dict(best, order=sorted(best["order"])))
        # lines
        for e in list(best["dicts"]):
            lines = best["dicts"][e].split("\n")
            keep = (best.get("bad") or {}).get("line")

            def test(x):
                if keep and (best["bad"].get("in") == e) and keep not in x:
                    return False
                return ok(dict(best, dicts=dict(best["dicts"], **{e: "\n".join(x)})))
            driver.ddmin(lines, test, deadline)
    return best, tried


def check(tier, seed, seconds):
    t0 = time.time()
    build()
    real = committed()
    lock = threading.Lock()
    st = {"runs": 0, "seeds": 0, "hard_seen": 0, "success": 0, "refused": 0, "rechecked": 0, "unstable": 0}
    faults, conds, hists, samples, found, errors = {}, {}, set(), [], [], []
    stop = time.time() + seconds
    nxt = [0]

    def worker():
        try:
            with Box() as box:
                while time.time() < stop and not found:
                    with lock:
                        i = nxt[0]
                        nxt[0] += 1
                    acc = []
                    run_seed(scenario_seed(seed, i), real, box, lambda s, k, sc, res, v: acc.append((s, k, sc, res, v)))
                    again = None
                    if i % 50 == 0 and len(acc) > 1:
                        s, k, sc, res, v = acc[1]
                        again = digest(sc, execute(sc, box)) == digest(sc, res)
                    with lock:
                        st["seeds"] += 1
                        if again is not None:
                            st["rechecked"] += 1
                            st["unstable"] += not again
                        for s, k, sc, res, v in acc:
                            st["runs"] += 1
                            st["success" if res["status"] == 0 else "refused"] += 1
                            for f in res["fired"]:
                                p = f.split()
                                a = re.sub(r"^([ep])(\d+)$", lambda m: {"e": "fails once ", "p": "fails from then on "}[m[1]] + errno.errorcode.get(int(m[2]), m[2]), p[2])
                                a = re.sub(r"^s\d+$", "short", a)
                                a = re.sub(r"^cap\d+$", "disk full", a)
                                a = {"i0": "interrupted", "k0": "process dies"}.get(a, a)
                                faults[p[0] + " " + a] = faults.get(p[0] + " " + a, 0) + 1
                            names = []
                            if sc.get("bad"):
                                names.append("bad input: " + sorted(sc["bad"])[-1])
                            if sc["order"] != sorted(sc["order"]):
                                names.append("arguments reordered")
                            if sc.get("stale"):
                                names.append("stale output present")
                            if len(sc["phases"]) > 1:
                                names.append("second run after a death")
                            for n in names:
                                conds[n] = conds.get(n, 0) + 1
                            if names or res["fired"]:
                                hists.add(digest(sc, res))
                                if len(samples) < 8:
                                    samples.append({"seed": s, "variation": k, "dictionaries": sorted(sc["dicts"]), "order": sc["order"], "stale": sc.get("stale"),
                                                    "bad": sc.get("bad"), "plan": sc["phases"], "fired": res["fired"][:6], "exit": res["status"]})
                            if v:
                                found.append((s, k, sc, v))
        except Exception as e:
            import traceback
            errors.append(traceback.format_exc())

    ths = [threading.Thread(target=worker) for _ in range(8)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    dt = max(0.001, time.time() - (stop - seconds))
    path = None
    if found:
        os.makedirs(os.path.join(driver.ROOT, "replays"), exist_ok=True)
        for s, k, sc, v in sorted(found, key=lambda x: (x[0], x[1])):
            if k < 0:
                sc = dict(sc, plain=True)
            with Box() as box:
                again, _ = full_judge(sc, box)
            if not again:
                continue
            small, tried = minimise(sc, again[0], 30 if tier == "quick" else 120)
            with Box() as box:
                v, res = full_judge(small, box)
            path = os.path.join(driver.ROOT, "replays", f"C22-{s}-{k}.json")
            json.dump({"property": "C22", "world": "generator", "seed": s, "variation": k, "kind": v[0], "message": v[1], "scenario": small,
                       "fired": res["fired"], "digest": digest(small, res), "minimised_with_runs": tried}, open(path, "w"), indent=1)
            driver.log(f"seed {s}: {v[0]}: {v[1]}; replay: {'exact' if replay(json.load(open(path)), True) else 'NOT exact'}")
            break
        else:
            errors.append("a violation was seen but did not recur on a second run")
    cov = {"evaluations": st["runs"], "distinct_nontrivial": len(hists), "rule": RULE, "samples": samples,
           "seeds": st["seeds"], "runs_per_hour": int(st["runs"] / dt * 3600),
           "simulated_seconds": "none: the generator reads no clock and does not wait", "faults_and_conditions_injected": dict(sorted(faults.items())),
           "conditions": conds, "successful_exits_compared_with_plain_run": st["success"], "failing_exits": st["refused"],
           "distinct_measure": "conditions, faults fired in order, exit status and outputs", "reruns_for_determinism": st["rechecked"], "not_deterministic": st["unstable"],
           "components_real": ["code generator binary built from /repo, regex, inflector, std file I/O"],
           "components_stubbed": ["open, read, write, fsync and getrandom are forwarded or failed by the preloaded shim; the rest is the real file system in a scratch directory"]}
    driver.write_evidence("C22", tier, seed, cov, time.time() - t0, 1 if path else 0,
                          ["sampling: a clean batch is evidence, not proof", "failures reported only by close() are not injected (Rust's File discards them)",
                           "data the kernel accepted reaches the disk"])
    driver.log(f"C22: {st['runs']} runs, {len(hists)} distinct non-trivial, {time.time() - t0:.1f} s")
    if path:
        print(f"VIOLATION property=C22 replay={path}")
        return 1
    if errors:
        for e in errors[:3]:
            driver.log("ERROR:", e)
        return 2
    if not hists:
        driver.log("ERROR: nothing was explored")
        return 2
    return 0


def replay(d, quiet=False):
    with Box() as box:
        v, res = full_judge(d["scenario"], box)
    if not v:
        if not quiet:
            driver.log("the recorded failure does not occur on this tree")
        return False
    exact = v[0] == d["kind"] and digest(d["scenario"], res) == d["digest"]
    if not quiet:
        driver.log(f"{v[0]}: {v[1]}")
        driver.log("identical to the recorded run" if exact else "same property, different run")
        print(f"VIOLATION property=C22 replay=(given file)")
        return True
    return exact
