"""Specifications of the algorithms (not of the observable behaviour): model checking and proofs.

   models.py            all of them, with the small bounds
   models.py --selftest broken variants of them are rejected"""
import os, shutil, subprocess, sys, time
import core
from core import ToolError

# module: (what the configuration file says, constants, constants for the thorough tier)
MODELS = {
    "RawCursor": ("INVARIANTS Conserved LeakSafe Ordered Simulates Clean\nVIEW Pattern",
                  [dict(MaxLen=4, MaxCap=6, Grows='"heap"')],
                  [dict(MaxLen=7, MaxCap=9, Grows='"heap"'), dict(MaxLen=8, MaxCap=9, Grows='"fixed"')]),
}
MODELS["Algorithms"] = (
    "INVARIANTS Once",
    [dict(MaxLen=2, MaxNew=2, Masks="{0, 1, 2, 3}", Buffer=0, Grows='"heap"'),
     dict(MaxLen=3, MaxNew=0, Masks="{1, 2, 5}", Buffer=0, Grows='"heap"'),
     dict(MaxLen=2, MaxNew=3, Masks="{1, 2}", Buffer=2, Grows='"fixed"')],
    [dict(MaxLen=4, MaxNew=3, Masks="{0, 1, 2, 3, 4, 5, 6, 7}", Buffer=0, Grows='"heap"'),
     dict(MaxLen=3, MaxNew=4, Masks="{0, 1, 2, 3, 4, 5, 6, 7}", Buffer=2, Grows='"fixed"')])
MODELS["CapacityModel"] = (
    "INVARIANTS Sane Faithful Empty Reserved NoFalseAlarm",
    [dict(Max=15, Room=7, MaxSize=4, Least=2)],
    [dict(Max=15, Room=7, MaxSize=8, Least=4), dict(Max=31, Room=15, MaxSize=6, Least=4), dict(Max=63, Room=31, MaxSize=5, Least=3)])
# module: [(initial predicate, invariant, number of steps)]
PROOFS = {
    "CursorIndex": [("Init", "Proved", 0), ("Any", "Proved", 1)],
}
# what must be rejected: (module, text, replacement)
BROKEN = [
    ("RawCursor", "mem' = Copy(mem, wf, rf, n) /\\ rf' = rf + n", "mem' = mem /\\ rf' = rf + n"),
    ("RawCursor", "/\\ vlen' = Min2(vlen, front)", "/\\ vlen' = vlen"),
    ("RawCursor", "IsWriteFrontEmpty == IsWriteEmpty \\/ (wf = rf /\\ ~IsEmpty)", "IsWriteFrontEmpty == IsWriteEmpty"),
    ("RawCursor", "      w == wf + n\n", "      w == rf + n\n"),
    ("Algorithms", "IF c.st = \"inj\" THEN [c EXCEPT !.pan = TRUE] ELSE", "IF c.st = \"inj\" THEN c ELSE"),
    ("Algorithms", "[q EXCEPT !.vlen = q.n, !.i = 0], q.n, n, ok, \"done\")", "q, q.n, n, ok, \"done\")"),
    ("Algorithms", "DropCells([q EXCEPT !.i = @ + m], q.i", "DropCells(q, q.i"),
    ("Algorithms", "[] q.pc = \"splice_lost\" -> DropBuf(q, \"close\", \"close\")", "[] q.pc = \"splice_lost\" -> DropBuf(q, \"done\", \"close\")"),
    ("Algorithms", "![q.i + 1] = At(q.mem, q.j), ![q.j + 1] = x]", "![q.j + 1] = x, ![q.i + 1] = 0]"),
    ("Algorithms", "IF e.op = \"grow\" THEN Dropped([d EXCEPT !.n = 0], <<q.n>>, \"done\", \"done\") ELSE d", "d"),
    ("Algorithms", "Goto(q, IF q.pan THEN \"close\" ELSE \"filter_end\")", "Goto(q, \"filter_end\")"),
    ("CapacityModel", "IF up THEN Wrap(Wrap(size + y) + Wide - 1) ELSE size", "size"),
    ("CapacityModel", "Larger(Larger(need, 2 * n), Least)", "Larger(need, Least)"),
    ("CapacityModel", "IF m * a > Room THEN Same(FALSE)", "IF m > Room THEN Same(FALSE)"),
    ("CapacityModel", "IF q > Max THEN Max ELSE q", "q % (Max + 1)"),
    ("CapacityModel", "IF len + more > Max \\/ b = 0 THEN Same(FALSE)\n  ELSE Try(len + more, granted)",
     "IF b = 0 THEN Same(FALSE)\n  ELSE Try((len + more) % (Max + 1), granted)"),
    ("CursorIndex", "/\\ vlen' = Min(vlen, wf)", "/\\ vlen' = vlen"),
    ("CursorIndex", "WriteBackLen == IF IsEmpty THEN WriteLen ELSE", "WriteBackLen ==  IF IsEmpty THEN 0 ELSE"),
    ("CursorIndex", "/\\ c >= cap /\\ c >= wf + (old - wb) + n", "/\\ c >= cap /\\ c >= wf + n"),
]


def model(name, consts, work, tag, spec=core.SPEC):
    text = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + MODELS[name][0] + "\nCONSTANTS" + "".join(" %s = %s" % c for c in consts.items()) + "\n"
    cfg = os.path.join(work, "%s.cfg" % tag)
    with open(cfg, "w") as f:
        f.write(text)
    return core.tlc(os.path.join(spec, name + ".tla"), cfg, {}, os.path.join(work, tag + ".meta"), heap="6g", workers=4)[1:]


def proof(name, init, inv, steps, work, tag, spec=core.SPEC):
    out = os.path.join(work, tag)
    cmd = ["apalache-mc", "check", "--out-dir=" + out, "--init=" + init, "--next=Next", "--inv=" + inv, "--length=%d" % steps,
           os.path.join(spec, name + ".tla")]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, cwd=work)
    except subprocess.TimeoutExpired:
        raise ToolError("Apalache did not finish: %s" % name)
    shutil.rmtree(out, ignore_errors=True)
    if b"The outcome is: NoError" not in r.stdout:
        raise ToolError("%s is not proved (%s, %s):\n%s" % (name, init, inv, r.stdout.decode(errors="replace")[-1500:]))


def run(names, tier, work):
    """checks the models and proofs with these names: what was done; raises a ToolError if one does not hold"""
    done = []
    for name in names:
        t = time.time()
        if name in MODELS:
            states = trans = 0
            for i, consts in enumerate(MODELS[name][2 if tier == "thorough" else 1]):
                s, n = model(name, consts, work, "model-%s-%d" % (name, i))
                states, trans = states + s, trans + n
                done.append(dict(model=name, tool="TLC", constants=consts, states=s, transitions=n, wall_s=round(time.time() - t, 1)))
        for i, (init, inv, steps) in enumerate(PROOFS.get(name, [])):
            proof(name, init, inv, steps, work, "proof-%s-%d" % (name, i))
            done.append(dict(model=name, tool="Apalache", init=init, invariant=inv, steps=steps, bounds="all integers",
                             wall_s=round(time.time() - t, 1)))
    return done


def main():
    work = os.path.join(core.WORK, "models-%d" % os.getpid())
    os.makedirs(work)
    try:
        if "--selftest" in sys.argv:
            bad = 0
            for n, (name, old, new) in enumerate(BROKEN):
                spec = os.path.join(work, "spec%d" % n)
                shutil.copytree(core.SPEC, spec)
                path = os.path.join(spec, name + ".tla")
                text = open(path).read()
                assert text.count(old) >= 1, (name, old)
                with open(path, "w") as f:
                    f.write(text.replace(old, new))
                try:
                    if name in MODELS:
                        for i, c in enumerate(MODELS[name][1]):
                            model(name, c, work, "b%d-%d" % (n, i), spec)
                    for i, (init, inv, steps) in enumerate(PROOFS.get(name, [])):
                        proof(name, init, inv, steps, work, "p%d-%d" % (n, i), spec)
                    print("ACCEPTED", name, old, "->", new)
                    bad = 1
                except ToolError as e:
                    print("rejected", name, old[:50], "->", str(e).split("\n")[1][:100] if name in MODELS else "")
            return bad
        for d in run([a for a in sys.argv[1:]] or list(MODELS) + list(PROOFS), "quick", work):
            print(d)
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
