"""Generation of scripts by TLC, execution by the harness, validation by TLC."""
import json, os, resource, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.environ.get("GV_BUILD", os.path.join(VERIF, "build"))
WORK = os.path.join(VERIF, "work")
CORES = os.cpu_count() or 4
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building

LANES = {
    # name: (rust, features, release)
    "std": ("stable", "std", False),
    "alloc": ("stable", "alloc", False),
    "nostd": ("stable", "", False),
    "rel": ("stable", "std", True),
    "nightly": ("nightly", "std,nightly", False),
    "nalloc": ("nightly", "alloc,nightly", False),
    "nnostd": ("nightly", "nightly", False),
    "nrel": ("nightly", "std,nightly", True),
}


def lane_dir(lane):
    rust, feats, rel = LANES[lane]
    # features of the same compiler share nothing anyway
    return os.path.join(BUILD, lane)


def lane_bin(lane):
    return os.path.join(lane_dir(lane), "release" if LANES[lane][2] else "debug", "gvharness")


def build(lane):
    rust, feats, rel = LANES[lane]
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=lane_dir(lane))
    env.pop("RUSTFLAGS", None)
    tc = "+stable"
    if rust == "nightly":
        env["RUSTC"] = os.path.join(VERIF, "tools", "rustc152")
        tc = "+1.79.0"
    cmd = ["cargo", tc, "build", "-q"]
    if feats:
        cmd += ["--features", feats]
    if rel:
        cmd += ["--release"]
    t = time.time()
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise ToolError("the harness does not build (lane %s):\n%s" % (lane, r.stdout.decode(errors="replace")[-6000:]))
    return time.time() - t


# ---------------------------------------------------------------- TLC


def tlc(module, cfg, env, meta, extra=(), heap="2g", timeout=800, workers=1):
    e = dict(os.environ)
    e.update(env)
    cmd = ["java", "-Xmx" + heap, "-Xss256m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"] + \
        (["-XX:TieredStopAtLevel=1"] if workers == 1 else []) + ["-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-lncheck", "final", "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC did not finish in %d s: %s" % (timeout, module))
    out = r.stdout.decode(errors="replace")
    shutil.rmtree(meta, ignore_errors=True)
    if "Model checking completed. No error has been found." not in out:
        text = "\n".join(l for l in out.splitlines() if not l.startswith('"SCRIPT'))
        i = max(0, text.find("Error:"))
        raise ToolError("TLC failed on %s (%s, exit %d):\n%s" % (module, env, r.returncode, text[i:i + 3000]))
    states = trans = 0
    for line in out.splitlines():
        if line.endswith("states left on queue.") and "distinct states found" in line and line[0].isdigit():
            p = line.split()
            trans, states = int(p[0].replace(",", "")), int(p[3].replace(",", ""))
    return out, states, trans


GEN_DEFAULTS = dict(mode="x", hosts=[["own", "slice"]], ops=[], caps=[0, 1, 3], len=3, maxlen=4, depth=3, keys=0, weird=0,
                    huge=0, faults=[], fmax=0, src=3, hints=[0], modes=[0], masks=8, bcaps=[0, 2], walks=0, big=0)


def generate(tag, cfg, seed, work):
    """Runs Gen.tla: [(kind, host, script)], states, transitions"""
    c = dict(GEN_DEFAULTS)
    c.update(cfg)
    path = os.path.join(work, tag + ".gen.json")
    with open(path, "w") as f:
        json.dump(c, f)
    out, states, trans = tlc("Gen.tla", "Gen.cfg", {"GENCFG": path}, os.path.join(work, tag + ".meta"),
                             extra=["-seed", str(seed), "-fp", "1"])
    scripts = []
    for line in out.splitlines():
        if line.startswith('"SCRIPT '):
            _, k, h, ops = line[1:-1].split(" ", 3)
            scripts.append((k, h, ops))
    if not scripts:
        raise ToolError("no scripts from " + tag)
    return scripts, states, trans


# ---------------------------------------------------------------- running

CRASHES = 8


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))



def run_harness(binary, scripts):
    """scripts: [(id, kind, host, ops)].  Returns ({id: line}, {id: how it died})"""
    out, died = {}, {}
    todo = scripts
    while todo:
        data = "".join("%d|%s|%s|%s\n" % s for s in todo).encode()
        p = subprocess.Popen([binary], preexec_fn=limit, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        try:
            res, _ = p.communicate(data, timeout=600)
        except subprocess.TimeoutExpired:
            p.kill()
            raise ToolError("the harness did not finish")
        lines = res.decode(errors="replace").split("\n")
        n = 0
        for (sid, _, _, _), line in zip(todo, lines[:-1]):
            if not line.startswith('{"id":%d,' % sid):
                raise ToolError("unexpected output of the harness: " + line[:200])
            out[sid] = line
            n += 1
        if n == len(todo):
            if p.returncode != 0:
                raise ToolError("the harness ended with %d" % p.returncode)
            break
        died[todo[n][0]] = p.returncode
        if len(died) >= CRASHES:
            break
        todo = todo[n + 1:]
    return out, died


def split(items, n):
    n = max(1, min(n, len(items)))
    k, m = divmod(len(items), n)
    res, i = [], 0
    for j in range(n):
        e = i + k + (1 if j < m else 0)
        res.append(items[i:e])
        i = e
    return res


# ---------------------------------------------------------------- validation


ODD = [0]


def odd(lines, work, tag):
    """validates lines one half at a time to find those that TLC cannot evaluate"""
    if len(lines) == 1:
        ODD[0] += 1
        t = json.loads(lines[0])
        return [(t["id"], 0, "?", ["it"])], 0, 0
    bad, states, trans = [], 0, 0
    half = len(lines) // 2
    for j, part in enumerate((lines[:half], lines[half:])):
        if ODD[0] >= 3:
            break
        b, s, t = validate(part, work, "%s.%d" % (tag, j), 1, chunk=1 << 30)
        bad, states, trans = bad + b, states + s, trans + t
    return bad, states, trans


def validate(lines, work, tag, jobs, chunk=3000):
    """lines: recorded executions with distinct ids.  Returns mismatches [(id, event, op, aspects)], states, transitions"""
    n = 1 if jobs == 1 else max(jobs if len(lines) > 400 * jobs else (len(lines) + 399) // 400, (len(lines) + chunk - 1) // chunk)
    parts = split(lines, n)

    def one(i):
        path = os.path.join(work, "%s.%d.ndjson" % (tag, i))
        with open(path, "w") as f:
            f.write("\n".join(parts[i]))
            f.write("\n")
        try:
            out, st, tr = tlc("TraceGV.tla", "TraceGV.cfg", {"TRACES": path}, os.path.join(work, "%s.%d.meta" % (tag, i)), heap="2500m")
        except ToolError:
            # an execution that the specification cannot even be evaluated on
            os.unlink(path)
            return odd(parts[i], work, "%s.%d" % (tag, i))
        os.unlink(path)
        bad = []
        for line in out.splitlines():
            if line.startswith('"MISMATCH '):
                _, tid, l, op, asp = json.loads(line).split(" ", 4)
                bad.append((int(tid), int(l), op, json.loads(asp)))
        return bad, st, tr

    bad, states, trans = [], 0, 0
    with ThreadPoolExecutor(jobs) as ex:
        for b, s, t in ex.map(one, range(len(parts))):
            bad += b
            states += s
            trans += t
    return bad, states, trans
