#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough: decides a property by checking the implementation against the specification.
   check.py --replay FILE: shows a recorded disagreement again.
   check.py --selftest: the validator rejects corrupted executions."""
import json, os, random, shutil, sys, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import caps, core, models, props, families
from core import say, ToolError

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
EVID = os.path.join(core.VERIF, "evidence")
KNOWN = os.path.join(core.VERIF, "known-findings.txt")


def known_findings(prop):
    """lines `finding: property=<id> script=<k|h|ops> op=<op> aspects=<a,b> -- text`"""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                head, text = line.split(" -- ", 1)
                f = {}
                for part in ("script", "op", "aspects"):
                    i = head.index(" %s=" % part) + len(part) + 2
                    j = head.find(" %s=" % {"script": "op", "op": "aspects", "aspects": "\0"}[part], i)
                    f[part] = head[i:] if j < 0 else head[i:j]
                f["text"] = text
                res.append(f)
    return res


def configs(prop, tier):
    """[(name, configuration of Gen)] of a property"""
    res = []
    for n, f in enumerate(props.PROPS[prop]["fams"]):
        if isinstance(f, dict):
            c = dict(f)
            if tier == "thorough":
                c["walks"] = c["walks"] * 12
            res.append(("walk%d" % n, c))
            continue
        name, over = (f, {}) if isinstance(f, str) else f
        base, quick, thorough = families.FAMILIES[name]
        c = dict(base)
        c.update(thorough if tier == "thorough" else quick)
        if tier == "thorough":
            # only what selects operations and storages, not the smaller bounds
            over = {k: v for k, v in over.items() if k in ("hosts", "ops", "faults", "huge", "weird", "caps")}
        c.update(over)
        res.append((name, c))
    return res


def jobs(prop, tier):
    """splits configurations by storage, to explore them in parallel"""
    cfgs = configs(prop, tier)
    res = []
    for i, (name, c) in enumerate(cfgs):
        hosts = c["hosts"]
        groups = len(hosts) if tier == "thorough" else min(len(hosts), 1 if len(cfgs) > 10 else 2 if len(cfgs) > 4 else 3)
        if c.get("mode") == "r":
            groups = len(hosts)
        for g in range(groups):
            d = dict(c)
            d["hosts"] = hosts[g::groups]
            res.append(("%s-%d-%d" % (name, i, g), d))
    return res


def corrupted(line, rng):
    """a recorded execution with one field of one event falsified; None if there is nothing to falsify"""
    t = json.loads(line)
    choices = []
    for i, e in enumerate(t["ev"]):
        # nothing is compared after a skipped operation except the contents
        if len(e["it"]) >= 2 and e["it"][0] != e["it"][1]:
            choices.append((i, "it"))
        if e["ret"] and t["k"] != "zst" and len(set(e["ret"])) > 1:
            choices.append((i, "ret"))
        if e["dr"] and t["k"] != "zst":
            choices.append((i, "dr"))
        if e["st"] == "ok" and e["op"] not in ("fin", "drop", "dropb", "init"):
            choices.append((i, "st"))
        if e["cap"] >= 0 and t["h"] in ("slice", "arr") and t["k"] != "zst" and i > 0:
            choices.append((i, "cap"))
    if not choices:
        return None
    i, what = choices[rng.randrange(len(choices))]
    e = t["ev"][i]
    if what in ("it", "ret"):
        e[what] = e[what][::-1] if e[what] != e[what][::-1] else e[what][1:]
    elif what == "dr":
        e["dr"] = e["dr"] + [e["dr"][0]]
    elif what == "st":
        e["st"] = "none"
    elif what == "cap":
        e["cap"] += 1
    return json.dumps(t, separators=(",", ":"))


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.cfg = props.PROPS[prop]
        self.lanes = list(self.cfg["lanes"])
        if tier == "thorough":
            for l in ("alloc", "rel", "nrel", "nostd"):
                if l not in self.lanes and not (prop == "C19" and not l.startswith("n")):
                    self.lanes.append(l)
        self.work = os.path.join(core.WORK, "%s-%s-%d" % (prop, tier, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.stat = dict(gen_states=0, gen_transitions=0)
        self.bad = []  # (lane, script, event, op, aspects, line)

    def generate(self):
        t = time.time()
        scripts, seen = [], set()
        per = {}
        also = self.cfg.get("also", {})
        js = jobs(self.prop, self.tier)

        def one(j):
            i, (tag, c) = j
            return core.generate(tag, c, SEED * 1000 + i, self.work)

        with ThreadPoolExecutor(core.CORES) as ex:
            for (tag, c), (out, states, trans) in zip(js, ex.map(one, enumerate(js))):
                self.stat["gen_states"] += states
                self.stat["gen_transitions"] += trans
                name = tag.split("-")[0]
                for k, h, ops in out:
                    for hh in [h] + also.get(h, []) + ([] if also else families.SAME.get(h, [])):
                        key = (k, hh, ops + self.cfg.get("tail", ""))
                        if key not in seen:
                            seen.add(key)
                            scripts.append(key)
                            per[name] = per.get(name, 0) + 1
        self.stat["scripts"] = len(scripts)
        self.stat["scripts_by_family"] = per
        self.scripts = scripts
        self.stat["generation_s"] = round(time.time() - t, 1)

    def run(self, lane):
        """runs all scripts in a lane: [(script index, line)], crashes"""
        items = [(i, k, h, o) for i, (k, h, o) in enumerate(self.scripts)]
        with ThreadPoolExecutor(core.CORES) as ex:
            parts = list(ex.map(lambda p: core.run_harness(core.lane_bin(lane), p), core.split(items, core.CORES)))
        out, died = {}, {}
        for o, d in parts:
            out.update(o)
            died.update(d)
        return out, died

    def all(self):
        t0 = time.time()
        with ThreadPoolExecutor(len(self.lanes)) as ex:
            builds = [ex.submit(core.build, l) for l in self.lanes]
            self.models = models.run(self.cfg.get("models", []), self.tier, self.work)
            self.generate()
            for b in builds:
                b.result()
        self.stat["built_s"] = round(time.time() - t0, 1)
        # executions that were recorded in several lanes are validated once
        traces, origin, total, applied = {}, [], 0, {}
        crashes = []
        for lane in self.lanes:
            out, died = self.run(lane)
            for i, code in died.items():
                crashes.append((lane, i, code))
            for i, line in out.items():
                if line.endswith('"ev":[]}'):
                    continue
                total += 1
                # a heap with an allocator of its own has to behave like any other
                body = line[line.index(",") + 1:].replace('"h":"heapa"', '"h":"heap"', 1)
                if body not in traces:
                    traces[body] = len(origin)
                    origin.append((lane, i))
        self.stat["executions"] = total
        lines = ['{"id":%d,%s' % (n, body) for body, n in traces.items()]
        self.lines = lines
        # the binding is live: falsified executions are rejected
        rng = random.Random(SEED)
        fakes = {}
        pool = rng.sample(lines, min(len(lines), 60))
        for x in pool:
            c = corrupted(x, rng)
            if c is not None:
                n = 10 ** 8 + len(fakes)
                fakes[n] = x
                lines.append('{"id":%d,%s' % (n, c[c.index(",") + 1:]))
        t = time.time()
        bad, states, trans = core.validate(lines, self.work, "v", core.CORES)
        self.stat["validation_s"] = round(time.time() - t, 1)
        self.stat["validation_states"], self.stat["validation_transitions"] = states, trans
        rejected = {b[0] for b in bad if b[0] >= 10 ** 8}
        self.stat["falsified_executions"] = len(fakes)
        self.stat["falsified_executions_rejected"] = len(rejected)
        self.stat["traces"] = len(lines) - len(fakes)
        for n, ev, op, asp in bad:
            if n < 10 ** 8:
                lane, i = origin[n]
                self.bad.append((lane, self.scripts[i], ev, op, asp, lines[n]))
        for lane, i, code in crashes:
            self.bad.append((lane, self.scripts[i], 0, "", ["died %s" % code], ""))
        self.calls = {}
        self.wrong_calls = []
        if self.cfg.get("caps"):
            self.wrong_calls, self.calls = caps.run(self.lanes, self.work, SEED)
        return 2 * len(rejected & set(fakes)) >= len(fakes)

    def counts(self):
        """how often each operation was really performed"""
        c = {}
        for line in self.lines:
            for e in json.loads(line)["ev"]:
                if e["st"] != "skip":
                    c[e["op"]] = c.get(e["op"], 0) + 1
        return c

    def storages(self):
        """how many distinct executions were validated for each element type and storage"""
        c = {}
        for line in self.lines[:self.stat["traces"]]:
            i = line.index('"k":"')
            k, h = line[i + 5:].split('","h":"', 1)
            key = k + " " + h[:h.index('"')]
            c[key] = c.get(key, 0) + 1
        return dict(sorted(c.items()))

    def relevant(self, b):
        return any(a in self.cfg["aspects"] or a.startswith("died") for a in b[4])


def replay_file(prop, b):
    lane, (k, h, ops), ev, op, asp, line = b
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, "violation-%s.json" % prop)
    with open(path, "w") as f:
        json.dump(dict(property=prop, lane=lane, kind=k, storage=h, script=ops, event=ev, operation=op, disagreements=asp,
                       recorded=json.loads(line)["ev"] if line else None,
                       how="python3 gv/check.py --replay " + path), f, indent=1)
    return path


def check(prop, tier):
    t0 = time.time()
    r = Run(prop, tier)
    try:
        live = r.all()
    finally:
        shutil.rmtree(r.work, ignore_errors=True)
    known = known_findings(prop)
    found, listed = [], set()
    for b in r.bad:
        if not r.relevant(b):
            continue
        key = "|".join(b[1])
        hit = [f for f in known if f["script"] == key and f["op"] == b[3] and set(f["aspects"].split(",")) == set(b[4])]
        if hit:
            listed.add((key, hit[0]["text"]))
        else:
            found.append(b)
    for key, text in sorted(listed):
        say("KNOWN-FINDING: property=%s %s" % (prop, text))
    counts = r.counts()
    rng = random.Random(SEED)
    samples = []
    for x in rng.sample(r.lines[:r.stat["traces"]], min(3, r.stat["traces"])):
        t = json.loads(x)
        samples.append(dict(kind=t["k"], storage=t["h"],
                            events=[{k: e[k] for k in ("op", "a", "f", "fk", "st", "ret", "it", "cap", "dr", "cl")} for e in t["ev"]]))
    ops = sorted({o for _, c in configs(prop, tier) for o in c["ops"]})
    hosts = sorted({" ".join(h) for _, c in configs(prop, tier) for h in c["hosts"]})
    storages = r.storages()
    cover = dict(
        states=r.stat["gen_states"] + r.stat["validation_states"] + sum(m.get("states", 0) for m in r.models),
        transitions=r.stat["gen_transitions"] + r.stat["validation_transitions"] + sum(m.get("transitions", 0) for m in r.models),
        traces_validated_against_impl=r.stat["traces"],
        samples=samples,
        exhaustive=False,
        explanation="TLC explores spec/Gen.tla (GenericVec.tla) within the bounds of `families`, asserting its laws; every transition becomes a script "
                    "that the harness executes on the real crate in each lane; TLC decides with spec/TraceGV.tla whether each distinct "
                    "recorded execution is a behaviour of the specification",
        specification_states=r.stat["gen_states"], specification_transitions=r.stat["gen_transitions"],
        scripts=r.stat["scripts"], scripts_by_family=r.stat["scripts_by_family"], executions=r.stat["executions"],
        models_of_algorithms=r.models,
        lanes=r.lanes, events_by_operation=counts,
        operations_never_performed=[o for o in ops if o not in counts],
        traces_by_storage=storages, storages_never_used=[h for h in hosts if h not in storages],
        falsified_executions=r.stat["falsified_executions"],
        falsified_executions_rejected=r.stat["falsified_executions_rejected"],
        families={n + "#%d" % i: {k: v for k, v in c.items()} for i, (n, c) in enumerate(configs(prop, tier))},
        disagreements_outside_this_property=len(r.bad) - len(found) - len(listed),
        phases_s={k: v for k, v in r.stat.items() if k.endswith("_s")},
        **r.calls,
    )
    ev = dict(property=prop, tier=tier, seed=SEED, level="model_checking", coverage=cover,
              assumptions=["the bounds of `families`", "the harness records faithfully what the crate did (its falsified executions are rejected)",
                           "TLC evaluates the specification correctly"],
              wall_s=round(time.time() - t0, 1), violations=len(found) + len(r.wrong_calls))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    say("%s %s: %d scripts, %d executions in %s, %d distinct traces validated, %d+%d states, %d disagreements (%d of this property), %.0f s" %
        (prop, tier, r.stat["scripts"], r.stat["executions"], "/".join(r.lanes), r.stat["traces"], r.stat["gen_states"],
         r.stat["validation_states"], len(r.bad), len(found), time.time() - t0))
    if found:
        found.sort(key=lambda b: (len(b[1][2]), b[1]))
        for b in found[:5]:
            say("  lane %s, %s on %s: %s  -> event %d (%s): %s" % (b[0], b[1][0], b[1][1], b[1][2], b[2], b[3], ", ".join(b[4])))
        path = replay_file(prop, found[0])
        say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if r.wrong_calls:
        path = os.path.join(EVID, "violation-%s.json" % prop)
        with open(path, "w") as f:
            json.dump([dict(lane=l, call=c) for l, c in r.wrong_calls], f, indent=1)
        for l, c in r.wrong_calls[:5]:
            say("  lane %s: %s" % (l, json.dumps(c)))
        say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if not live:
        raise ToolError("falsified executions were accepted")
    return 0


def replay(path):
    v = json.load(open(path))
    core.build(v["lane"])
    out, died = core.run_harness(core.lane_bin(v["lane"]), [(1, v["kind"], v["storage"], v["script"])])
    if died:
        say("the harness died:", died[1])
        return 1
    for i, e in enumerate(json.loads(out[1])["ev"]):
        say(i + 1, json.dumps(e))
    work = os.path.join(core.WORK, "replay-%d" % os.getpid())
    os.makedirs(work)
    bad, _, _ = core.validate(list(out.values()), work, "r", 1)
    shutil.rmtree(work)
    say("disagreements with the specification:", bad)
    return 1 if bad else 0


def main():
    try:
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        if sys.argv[1] == "--setup":
            with ThreadPoolExecutor(5) as ex:
                list(ex.map(core.build, ("std", "nightly", "rel", "nrel", "nostd")))
            return 0
        if sys.argv[1] == "C29":
            import auto
            return auto.check("C29", sys.argv[2], SEED, EVID)
        if sys.argv[1] in ("C31", "C32"):
            import probe
            return probe.check(sys.argv[1], sys.argv[2], SEED, EVID)
        return check(sys.argv[1], sys.argv[2])
    except ToolError as e:
        say("error:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
