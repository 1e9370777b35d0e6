"""Numbers of every size: what storages say about their capacity and do about reservations, against spec/CapacityRows.tla."""
import json, os, random, subprocess
import core

NAMES = dict(view="a b n held", fixed="a b n req st", make="a b req st m asked held")
NAMES["try"] = "a b n req st m asked held"
ROOM, THERE, DIGITS, BASE = 2 ** 63 - 1, 2 ** 28, 7, 10 ** 4


def parse(line):
    f = line.split(" ")
    r = dict(zip(NAMES[f[0]].split(), f[1:]), op=f[0])
    for k in r:
        if k not in ("op", "st"):
            r[k] = int(r[k])
    if f[0] == "fixed":
        r["st"] = "ok" if r["st"] == "1" else "no"
    return r


def encode(r):
    def digits(n):
        return [n // BASE ** i % BASE for i in range(DIGITS)]
    return json.dumps({k: v if isinstance(v, str) else digits(v) for k, v in dict(r, room=ROOM, there=THERE).items()})


def falsified(r, rng):
    """a call that cannot have happened"""
    r = dict(r)
    if r["op"] == "view":
        r["held"] += 1 if r["b"] or r["held"] < ROOM else -r["held"]
        if not r["b"]:
            r["held"] = 0
    elif r["op"] == "fixed":
        r["st"] = "no" if r["st"] == "ok" else "ok"
    elif r["op"] == "try":
        if r["st"] == "ok":
            r["m"] += 1
        else:
            r["st"] = "ok"
    else:
        if r["st"] != "ok" or not r["a"]:
            return None
        r["m"] += 1
    return r


def run(lanes, work, seed, tlc_name="caps"):
    """([(lane, call)] that contradict the specification, numbers for the evidence)"""
    rows = {}
    for lane in lanes:
        r = subprocess.run([core.lane_bin(lane), "caps"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
        out = [x for x in r.stdout.decode().split("\n") if x]
        if r.returncode != 0:
            return [(lane, dict(op="died", code=r.returncode, last=out[-1:]))], dict(capacity_calls=len(rows))
        for x in out:
            rows.setdefault(x, lane)
    rng = random.Random(seed)
    real = sorted(rows)
    if len(real) < 1000:
        raise core.ToolError("no calls recorded")
    fakes = [f for f in (falsified(parse(x), rng) for x in rng.sample(real, 200)) if f]
    # batches, examined at the same time
    from concurrent.futures import ThreadPoolExecutor
    items = [(x, parse(x)) for x in real] + [(None, f) for f in fakes]
    parts = [items[i::core.CORES] for i in range(core.CORES)]

    def one(j):
        path = os.path.join(work, "%s%d.ndjson" % (tlc_name, j))
        with open(path, "w") as f:
            f.write("\n".join(encode(r) for _, r in parts[j]) + "\n")
        out, s, _ = core.tlc("CapacityRows.tla", "CapacityRows.cfg", {"TRACES": path}, os.path.join(work, "%s%d.meta" % (tlc_name, j)))
        os.remove(path)
        if s < len(parts[j]):
            raise core.ToolError("not every call was examined")
        return [parts[j][int(json.loads(l).split(" ")[1]) - 1] for l in out.splitlines() if l.startswith('"MISMATCH ')]

    with ThreadPoolExecutor(core.CORES) as ex:
        bad = [x for p in ex.map(one, range(len(parts))) for x in p]
    caught = sum(1 for x, _ in bad if x is None)
    if caught < len(fakes):
        raise core.ToolError("falsified calls were accepted")
    return [(rows[x], r) for x, r in bad if x is not None], dict(
        capacity_calls=len(real), capacity_calls_falsified=len(fakes), capacity_calls_falsified_rejected=caught)
