"""C29: the Send and Sync implementations that the compiler derives, against spec/AutoTraits.tla."""
import json, os, shutil, subprocess, time
import core
from core import say


def check(prop, tier, seed, evid):
    t0 = time.time()
    lanes = ["std", "nightly", "nostd"] if tier == "quick" else list(core.LANES)
    work = os.path.join(core.WORK, "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    found, states, trans, n, samples, fakes, rejected = [], 0, 0, 0, [], 0, 0
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(core.build, lanes))
    for lane in lanes:
        r = subprocess.run([core.lane_bin(lane), "auto"], stdout=subprocess.PIPE, timeout=60)
        recs = sorted(set(r.stdout.decode().split("\n")) - {""})
        if len(recs) < 100:
            raise core.ToolError("no combinations recorded")
        n += len(recs)
        # every other thing the compiler could have derived for some of them
        false = []
        for x in recs[:: max(1, len(recs) // 20)]:
            for bits in ([0, 0], [0, 1], [1, 0], [1, 1]):
                y = json.loads(x)
                if y["r"] != bits:
                    y["r"] = bits
                    false.append(json.dumps(y))
        path = os.path.join(work, lane + ".ndjson")
        with open(path, "w") as f:
            f.write("\n".join(recs + false) + "\n")
        out, s, t = core.tlc("AutoTraits.tla", "AutoTraits.cfg", {"TRACES": path}, os.path.join(work, "meta"))
        states, trans = states + s, trans + t
        bad = set()
        for line in out.splitlines():
            if line.startswith('"MISMATCH '):
                _, i, what, rec = json.loads(line).split(" ", 3)
                if int(i) <= len(recs):
                    found.append((lane, what, json.loads(rec)))
                else:
                    bad.add(int(i))
        fakes, rejected = fakes + len(false), rejected + len(bad)
        samples += [json.loads(x) for x in recs[:1]]
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(evid, exist_ok=True)
    cover = dict(states=states, transitions=trans, traces_validated_against_impl=n, samples=samples, exhaustive=True,
                 explanation="for every public vector, cursor and iterator type, every combination of Send and Sync of the elements, the storage and "
                             "the predicate or source: what the compiler derives, against what the parts allow",
                 lanes=lanes, falsified=fakes, falsified_rejected=rejected)
    with open(os.path.join(evid, prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cover,
                       assumptions=["the listed storages and types stand for all others"], wall_s=round(time.time() - t0, 1),
                       violations=len(found)), f, indent=1)
    say("%s %s: %d combinations in %s, %d states, %d disagreements, %.0f s" % (prop, tier, n, "/".join(lanes), states, len(found), time.time() - t0))
    if found:
        path = os.path.join(evid, "violation-%s.json" % prop)
        with open(path, "w") as f:
            json.dump([dict(lane=l, what=w, record=r) for l, w, r in found], f, indent=1)
        for l, w, r in found[:5]:
            say("  lane %s: %s %s" % (l, w, json.dumps(r)))
        say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0
