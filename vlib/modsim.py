"""C25: the system built once with the committed dictionary modules and once with freshly generated ones, same seeds on both."""
import fcntl, json, os, shutil, subprocess, time
import driver, gensim

WS = os.path.join(driver.TARGET, "modules")
REPO = "/repo"


def put(path, data):
    """Writes only what changed, so that an unchanged tree is not built again."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path, "rb").read() == data:
        return
    with open(path, "wb") as f:
        f.write(data)


def tree(src, dst, change=lambda rel, data: data, skip=()):
    want = set()
    for d, ds, fs in os.walk(src):
        ds[:] = [x for x in ds if x not in ("target", ".git")]
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), src)
            if rel in skip:
                continue
            want.add(rel)
            put(os.path.join(dst, rel), change(rel, open(os.path.join(d, f), "rb").read()))
    for d, _, fs in os.walk(dst):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.relpath(p, dst) not in want:
                os.unlink(p)


def sh(args, **kw):
    return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build():
    """None, or (kind, message) if the generator's modules cannot take the place of the committed ones."""
    gensim.build()
    with open(os.path.join(driver.TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = sh(["bash", os.path.join(driver.ROOT, "sim", "build.sh"), driver.TARGET, "md5"])
        if p.returncode != 0:
            raise driver.Broken("the simulator does not build on this tree:\n" + p.stdout[-4000:])
        dicts = sorted(os.path.join(REPO, "dicts", d) for d in os.listdir(os.path.join(REPO, "dicts")) if d.startswith("dictionary."))
        with gensim.Box() as box:
            try:
                p = sh([gensim.GEN, "--out-dir=" + box] + dicts, cwd=box, stdin=subprocess.DEVNULL, timeout=60)
            except subprocess.TimeoutExpired:
                return "generator-hangs", "the generator does not end on the committed dictionaries"
            if p.returncode != 0:
                return "generator-fails", f"exit status {p.returncode} on the committed dictionaries: {p.stdout[-2000:]}"
            made = {f: open(os.path.join(box, f), "rb").read() for f in os.listdir(box)}
        same = lambda rel, data: made.get(os.path.basename(rel), data) if os.path.dirname(rel) == "src/core" else data
        tree(os.path.join(REPO, "radius"), os.path.join(WS, "radius"), same)
        there = set(os.listdir(os.path.join(REPO, "radius", "src", "core")))
        if set(made) - there:
            return "modules-missing", f"dictionaries without a committed module: {sorted(set(made) - there)}"
        radius = os.path.join(WS, "radius")
        tree(os.path.join(driver.ROOT, "sim"), os.path.join(WS, "sim"),
             lambda rel, data: data.replace(('"%s/radius"' % REPO).encode(), ('"%s"' % radius).encode()) if rel.endswith("Cargo.toml") else data)
        p = sh(["bash", os.path.join(WS, "sim", "build.sh"), driver.TARGET, "modules", os.path.join(driver.ROOT, "sim", "rustc-wrap.sh")])
        if p.returncode != 0:
            lines = [l for l in p.stdout.split("\n") if l.startswith(("error", "  -->", "   -->"))]
            return "modules-do-not-compile", "the library does not compile with the modules generated from the committed dictionaries: " + " ".join(lines[:8])[:1500]
    return None


def fail(v, tier, seed, t0):
    path = os.path.join(driver.ROOT, "replays", f"C25-{v[0]}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    json.dump({"property": "C25", "world": "modules", "seed": seed, "kind": v[0], "message": v[1]}, open(path, "w"), indent=1)
    cov = {"evaluations": 1, "distinct_nontrivial": 1, "rule": "no run took place: the generated modules could not be built into the system",
           "samples": [v[1][:500]], "components_real": driver.REAL, "components_stubbed": driver.STUB}
    driver.write_evidence("C25", tier, seed, cov, time.time() - t0, 1, driver.ASSUME)
    driver.log(f"{v[0]}: {v[1]}")
    print(f"VIOLATION property=C25 replay={path}")
    return 1


def replay(d, v):
    if not v or v[0] != d["kind"]:
        driver.log("the recorded failure does not occur on this tree")
        return False
    driver.log(f"{v[0]}: {v[1]}")
    print("VIOLATION property=C25 replay=(given file)")
    return True
