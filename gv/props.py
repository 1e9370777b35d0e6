"""Which behaviours decide which property, and what counts as breaking it."""
from families import *

# what disagrees with the specification
STATE = {"st", "it", "peer", "ret", "rf", "n", "vw", "bad"}
OWNED = {"drop"}
MEM = {"cap", "mv", "room", "alloc"}
MADE = {"new", "call", "clone"}

FAMS = "fams"


def random_for(ops, walks=40, hosts=OWN3, init=None, **kw):
    return walk(ops, init=init or ["init"], walks=walks, hosts=hosts, **kw)


PROPS = {
    "C01": dict(aspects=STATE | OWNED, lanes=["std", "nightly", "rel"], fams=[
        "single", "single2", ("single", dict(hosts=ODD, caps=[2, 4])),
        random_for(SINGLE, hosts=OWN3 + [["copy", "slice"], ZS], depth=40, caps=[8, 16, 20, 33], len=18, maxlen=36, walks=40)]),
    "C02": dict(aspects=OWNED | {"bad"}, lanes=["std", "nightly", "rel"], fams=[
        "single2", "retain", "two", "off", "create", "spare", "splice2",
        ("arrays", dict(hosts=[HEAP, ZSLICE])), ("cursor3", dict(depth=4)), ("drain", dict(len=3, caps=[3])), ("into", dict(hosts=[HEAP], len=3)),
        ("dedup", dict(len=3)), ("bulk", dict(hosts=OWN)),
        random_for(ANYTHING, hosts=OWN + [ZS, BOX, ["wide", "heap"]], walks=60)]),
    "C03": dict(models=["Algorithms"], aspects=STATE | OWNED | MADE, lanes=["std", "nightly", "rel"], tail=TAIL, fams=[
        "faults", "vfaults", "sfaults",
        ("drain", dict(ops=["init", "drain", "v_next", "v_fold", "v_each", "v_rfold", "v_end"], hosts=OWN + ZST[:1], len=3, caps=[3])),
        ("into", dict(ops=["init", "into_iter", "v_next_back", "v_fold", "v_each", "v_rfold", "v_end"], hosts=OWN + [BOX] + ZST[:1], len=3, caps=[3])),
        ("dfilter", dict(ops=["init", "dfilter", "v_next", "v_fold", "v_each", "v_rfold", "v_end"], hosts=OWN, modes=[1], len=3, masks=8)),
        random_for(BULK + PREDS + ["drain", "dfilter", "splice", "into_iter", "v_end", "v_end", "v_next", "v_nth", "v_fold", "v_each", "truncate", "clone_swap", "clone", "push"],
                   init=["init", "collect", "gvec_rep"], hosts=OWN + [ZS], faults=["p", "c", "d"], fmax=6, walks=80, depth=12)]),
    "C04": dict(aspects=STATE | OWNED | {"cap", "mv", "alloc", "used"}, lanes=["std", "nightly", "rel", "nostd"], fams=[
        ("single", dict(hosts=FIXED, caps=[0, 3, 4], len=4)), ("bulk", dict(hosts=FIXED, caps=[0, 3, 4], huge=1)),
        ("two", dict(hosts=[SLICE, ARR], caps=[0, 3, 4], bcaps=[0, 2, 4])), ("arrays", dict(hosts=[SLICE, ARR], caps=[0, 3, 4])),
        ("splice2", dict(hosts=[SLICE, ARR], caps=[0, 3, 4], len=4, src=4)), ("reserve", dict(hosts=FIXED, faults=[])),
        ("spare", dict(hosts=[SLICE])), ("off", dict(hosts=[SLICE])), "used", ("create", dict(hosts=[ARR, BOX, ["copy", "iarr"]], depth=2)),
        ("cursor", dict(hosts=[SLICE])),
        random_for(SINGLE + BULK + TWO + ["splice", "v_end", "cursor", "c_reserve", "c_write_front", "c_take_front", "reserve", "split_off", "spare", "s_push", "s_save"],
                   hosts=FIXED, caps=[3, 4], len=4, maxlen=9, walks=30)]),
    "C05": dict(aspects=STATE | OWNED | {"cap", "mv", "new"}, lanes=["std", "nightly", "rel", "nrel"], fams=[
        "ranges", "rangesv", ("single", dict(hosts=OWN + [ZS])), ("arrays", dict(hosts=[SLICE, ZS])), ("off", dict(hosts=OWN + [ZS])),
        ("views", dict(hosts=OWN)), ("borrow", dict(depth=2)), ("two", dict(hosts=OWN)), ("spare", dict(hosts=[SLICE])),
        ("cursor", dict(ops=["init", "cursor", "c_drop_n_front", "c_drop_n_back", "c_skip_n_front", "c_skip_n_back", "c_wslice_front", "c_wslice_back",
                             "c_write_front", "c_write_back", "c_take_front", "c_take_back", "c_skip_front", "c_skip_back", "c_drop_front", "c_drop_back",
                             "v_end"], hosts=[SLICE])),
        random_for(SINGLE + ["drain", "splice", "cursor", "dfilter", "v_end", "v_end", "v_nth", "split_off", "index"], huge=1, caps=[8, 20], len=12, maxlen=24)]),
    "C06": dict(aspects=STATE | OWNED | MEM | {"new"}, lanes=["std", "nightly", "rel", "nrel"], fams=[
        ("single", dict(ops=["init"] + TRY, hosts=OWN3 + COPY + ZST + FOREIGN + [ARR])), ("arrays", dict(ops=["init"] + TRYARR, caps=CAPS)),
        ("single2", dict(ops=["init"] + TRY)),
        ("cursor", dict(ops=["init", "cursor", "c_try_write_front", "c_try_write_back", "c_take_front", "c_take_back", "c_skip_front", "c_drop_back", "v_end"])),
        ("spare", dict(ops=["init", "spare", "s_try_push", "s_save", "v_end"])),
        random_for(TRY + TRYARR + TRY + ["push", "truncate"], hosts=OWN3 + [ZS, ARR], huge=1, walks=50)]),
    "C07": dict(caps=True, models=["CapacityModel"], aspects=STATE | MEM, lanes=["std", "nightly", "rel"], fams=[
        ("reserve", dict(hosts=[HEAP, USER, ["copy", "heap"], ["own", "refheap"], ["own", "fheap64"], ["own", "fheap8"], ["wide", "fheap8"]], faults=[], huge=0)),
        "reserve2", ("single", dict(hosts=[HEAP, USER, ["own", "fheap64"]])), ("bulk", dict(hosts=[HEAP, USER])), ("arrays", dict(hosts=[HEAP, USER])),
        ("two", dict(hosts=[HEAP, USER])), ("splice2", dict(hosts=[HEAP], caps=[0, 4])), ("create", dict(hosts=[HEAP], depth=2)),
        ("cursor", dict(hosts=[HEAP], ops=["init", "cursor", "c_reserve", "c_take_front", "c_write_front", "c_wslice_back", "v_end", "c_finish"])),
        random_for(["push"] * 6 + ["pop", "insert", "reserve", "try_reserve", "efs", "raw_rt", "heap_rt", "vec_rt", "push_arr"],
                   init=["init", "default", "new", "with_cap"], hosts=[HEAP, ["copy", "heap"], ["own", "refheap"], ["own", "fheap64"]], depth=70, maxlen=80, walks=25)]),
    "C08": dict(caps=True, models=["CapacityModel"], aspects=STATE | OWNED | MEM, lanes=["std", "nightly", "rel", "nrel"], tail=TAIL, fams=[
        "reserve", ("create", dict(ops=["init", "with_cap"], depth=2)),
        ("bulk", dict(ops=["init", "grow", "resize", "grow_with", "resize_with", "extend"], hosts=OWN3 + [["own", "fheap64"], ["own", "refheap"]])),
        ("cursor", dict(ops=["init", "cursor", "c_reserve", "c_take_front", "c_skip_front", "c_write_front", "v_end"], hosts=OWN3, huge=1)),
        random_for(["reserve", "try_reserve", "try_reserve", "push", "pop", "cursor", "c_reserve", "c_take_front", "c_take_front", "v_end", "with_cap"],
                   init=["init", "with_cap"], hosts=[HEAP, USER, ["own", "fheap64"], ["own", "refheap"], ZS, SLICE], huge=1, faults=["a"], fmax=1)]),
    "C09": dict(aspects={"heap", "fin", "bad", "alloc", "cap"}, lanes=["std", "nightly", "rel"], fams=[
        ("create", dict(hosts=[HEAP, BOX, ["own", "refheap"], ["own", "boxslice"], ["own", "fheap64"], ["own", "fheap8"], ["wide", "fheap8"], ZHEAP])),
        ("into", dict(hosts=[HEAP, BOX, ZHEAP], len=3)), ("two", dict(hosts=[HEAP])), ("off", dict(hosts=[HEAP, ZHEAP])),
        ("reserve", dict(hosts=[HEAP, ["own", "fheap64"], ZHEAP, ["own", "refheap"]])), "reserve2",
        ("faults", dict(hosts=[HEAP], len=3, masks=4, modes=[0])), ("vfaults", dict(hosts=[HEAP], len=2)), ("sfaults", dict(hosts=[HEAP], len=2, src=3)),
        random_for(ANYTHING + TURN, init=["init"] + MAKE, hosts=[HEAP, ["wide", "heap"], ["own", "fheap64"], ZHEAP, ["copy", "heap"]], faults=["p", "c", "d"], fmax=4)]),
    "C10": dict(models=["RawCursor", "CursorIndex"], aspects=STATE | OWNED | {"new", "mv"}, lanes=["std", "nightly", "rel"], fams=[
        "cursor", "rcursor", "cursor3", ("cursor3", dict(hosts=[["slim", "slice"], ["tri", "heap"], ["tiny", "slice"], ["zcp", "slice"], ["zal", "zs"]], depth=4)),
        random_for(["cursor", "rcursor"] + CURSOR * 3 + END * 4, hosts=OWN3 + [["copy", "heap"], ZS, ["own", "fheap64"]], weird=0, caps=[6, 8, 14], len=12, maxlen=20, depth=30, walks=60)]),
    "C11": dict(models=["RawCursor", "CursorIndex"], aspects={"vw", "st", "n", "ret"}, lanes=["std", "nightly", "rel"], fams=[
        "cursor", "rcursor", "cursor3",
        random_for(["cursor", "rcursor"] + CURSOR * 3 + END * 2, hosts=OWN3 + [["copy", "heap"], ZS], caps=[6, 8, 14], len=12, maxlen=20, depth=30, walks=60)]),
    "C12": dict(aspects=STATE | OWNED, lanes=["std", "nightly", "rel"], fams=[
        "drain", random_for(["drain"] + ITER * 2 + END, hosts=OWN3 + [ZS, ["own", "fslice8"]], weird=0, caps=[8, 20], len=16, maxlen=24, walks=80),
        random_for(["drain"] + ITER * 2 + END, hosts=[ARR, ["copy", "iarr"], ZARR], caps=[3, 4, 6, 12], len=12, maxlen=12, walks=40)]),
    "C13": dict(models=["Algorithms"], aspects=STATE | OWNED | {"call"}, lanes=["std", "nightly", "rel"], fams=[
        "dfilter", "dfilter2", "retain",
        random_for(["dfilter", "retain"] + ITER[:6] * 2 + ITER[6:] + END * 2, hosts=OWN3 + [["copy", "heap"], ZS], weird=0, caps=[8, 20], len=16, maxlen=24, masks=256, walks=80)]),
    "C14": dict(models=["Algorithms"], aspects=STATE | OWNED | {"call", "new"}, lanes=["std", "nightly", "rel", "nostd"], fams=[
        "splice", "splice2",
        ("splice2", dict(hosts=[ZS, ["copy", "heap"], USER], hints=[0, 2], len=3, src=3)),
        random_for(["splice"] * 2 + ITER[:6] + ITER[6:] + END * 3, hosts=OWN3 + [ZS, ["own", "fheap64"]], weird=0, caps=[8, 40, 60], len=24, maxlen=60, src=40, walks=80)]),
    "C15": dict(aspects=STATE | OWNED | {"fin", "heap"}, lanes=["std", "nightly", "rel"], fams=[
        "into", random_for(["into_iter"] + ITER * 2 + ["v_touch"] + END, hosts=OWN3 + [["own", "arr"], ["own", "boxslice"], BOX, ZS, ["own", "fheap64"], ["wide", "heap"]],
                           caps=[8, 20], len=16, maxlen=24, walks=60)]),
    "C16": dict(models=["Algorithms"], aspects=STATE | OWNED | {"call"}, lanes=["std", "nightly", "rel"], fams=[
        "dedup", "dedupz",
        random_for(["dedup", "dedup_by", "dedup_key", "efs"], hosts=OWN3 + [["copy", "heap"], ["wide", "heap"]], keys=2, caps=[8, 20], len=16, maxlen=24, masks=4096, depth=6, walks=80)]),
    "C17": dict(aspects=STATE | OWNED | {"cap", "new", "call"}, lanes=["std", "nightly", "rel"], fams=[
        "bulk", ("bulk", dict(hosts=ODD, huge=0, hints=[0, 1, 2])), ("create", dict(depth=2)), ("create", dict(hosts=[HEAP, ARR, ["copy", "heap"], ZS], ops=["init", "clone", "clone_swap", "clone_from_vec", "gvec", "gvec_rep", "collect"], depth=3)),
        random_for(BULK * 2 + ["clone_swap", "clone_from_vec", "push", "truncate"], init=["init", "collect", "gvec", "gvec_rep", "with_cap"],
                   hosts=OWN3 + [["copy", "heap"], ["copy", "slice"], ZS, ["own", "fheap64"], ARR], caps=[0, 4, 8, 20], len=10, maxlen=30, src=12, hints=[0, 1, 2, 3, 4, 5], walks=60)]),
    "C18": dict(aspects=STATE | OWNED | {"cap", "mv"}, lanes=["std", "nightly", "rel"], fams=[
        "two", "off", ("two", dict(hosts=ODD, depth=2)),
        random_for(TWO * 3 + ["split_off", "push", "convert"], hosts=OWN3 + [["copy", "heap"], ZS, ZHEAP, ["own", "fheap64"]], caps=[4, 8, 20], len=16, maxlen=24, bcaps=[0, 4, 20], walks=60)]),
    "C19": dict(aspects=STATE | OWNED | {"cap", "mv", "new"}, lanes=["nightly", "nrel"], fams=[
        "arrays", ("arrays", dict(hosts=[["tiny", "slice"], ["tiny", "heap"], ["zcp", "heap"], ["zal", "zs"]])), random_for(ARRAYS + ["push", "truncate"], hosts=OWN3 + [["copy", "heap"], ZS, ["own", "fheap64"], ARR], huge=1, caps=[4, 8, 20], len=12, maxlen=20, walks=60)]),
    "C20": dict(aspects=STATE | OWNED | {"cap", "mv", "alloc", "fin", "heap"}, lanes=["std", "nightly", "rel"], fams=[
        "create", ("create", dict(hosts=[ARR, ["copy", "iarr"], ZARR], caps=[0, 3, 4])),
        random_for(["vec_rt", "heap_rt", "raw_rt", "push", "pop", "reserve", "clone_swap", "to_vec", "into_arr", "into_iter", "v_next", "v_end"],
                   init=["init", "from_vec", "from_arr"], hosts=[HEAP, ARR, ["wide", "heap"], ["copy", "heap"], ZHEAP, ["own", "fheap64"]], walks=40)]),
    "C21": dict(caps=True, models=["CapacityModel"], aspects=STATE | OWNED | MEM | {"used", "fin", "heap"}, lanes=["std", "nightly", "rel"], fams=[
        ("reserve", dict(hosts=FOREIGN + WIDE + EMPTY + ZFOREIGN + [["zst", "slice"]], caps=SIZES)),
        ("create", dict(hosts=FOREIGN + WIDE + EMPTY + ZFOREIGN + [["wide", "fslice64"], ["wide", "fheap64"], ["own", "fslice1"]],
                        ops=["init", "with_cap", "default", "collect", "clone", "raw_rt", "convert", "into_iter", "drop"], caps=SIZES, depth=2)),
        ("single", dict(hosts=FOREIGN + EMPTY + ZFOREIGN + [["wide", "fheap8"]], caps=[0, 1, 2, 4])),
        ("reserve", dict(hosts=SMALLS, caps=SIZES, huge=0, depth=2)), ("single", dict(hosts=SMALLS, caps=[1, 4])), ("bulk", dict(hosts=SMALLS, caps=[2], huge=0, hints=[0, 1, 2])),
        ("create", dict(hosts=SMALLS, ops=["init", "with_cap", "default", "collect", "clone", "raw_rt", "convert", "into_iter", "drop"], caps=SIZES, huge=0, depth=2)),
        ("bulk", dict(hosts=FOREIGN + EMPTY[:2] + ZFOREIGN[:3], caps=[0, 2])), ("two", dict(hosts=[["own", "fheap64"], ["own", "fslice8"], ["own", "fheap0"]])),
        random_for(ANYTHING, hosts=FOREIGN + WIDE + ZFOREIGN, walks=20)]),
    "C22": dict(aspects=STATE | OWNED | MEM, lanes=["std", "nightly", "rel", "nrel"], fams=[
        ("single", dict(hosts=ZST + ZODD, caps=[0, 4])), ("bulk", dict(hosts=ZST + ZODD, caps=[0, 4], huge=0)), ("two", dict(hosts=ZST, caps=[0])), ("off", dict(hosts=ZST, caps=[0, 4])), ("arrays", dict(hosts=ZST + ZODD, caps=[0, 4])),
        ("create", dict(hosts=ZST, caps=[0, 4])), ("drain", dict(hosts=[ZS, ZHEAP], len=3)), ("into", dict(hosts=ZST, len=3)), ("dfilter2", dict(hosts=[ZS, ZSLICE], len=3)),
        ("splice2", dict(hosts=[ZS, ZSLICE], hints=[0, 2], len=3, src=3)), ("spare", dict(hosts=[ZS, ZARR], caps=[0, 4])), ("reserve", dict(hosts=ZST, caps=[0, 4], faults=[])),
        ("retain", dict(hosts=[ZS, ZARR], modes=[1])), ("dedupz", {}), ("cursor", dict(hosts=[ZS])), ("cursor3", dict(hosts=ZODD[:1] + ZODD[4:5], len=2, depth=5)), ("splice2", dict(hosts=ZODD[4:6], hints=[0, 2], len=3, src=3)), ("drain", dict(hosts=ZODD[4:6], len=2)), ("create", dict(hosts=ZODD, caps=[0, 4], depth=2)), ("vfaults", dict(hosts=[ZS], len=2)), ("forget", dict(hosts=[ZS], len=2)),
        random_for(ANYTHING, hosts=ZST + ZODD, walks=20)]),
    "C23": dict(aspects=STATE | OWNED | MEM, lanes=["std", "nightly", "rel"], fams=[
        "spare", ("spare", dict(hosts=[["own", "fheap64"], ["copy", "slice"], ARR, ZHEAP, ["own", "boxslice"]], caps=[0, 3, 4])),
        random_for(["spare"] + SPARE + END + ["push", "truncate"], hosts=OWN3 + [ZS, ["own", "fslice8"]], caps=[8, 20], len=8, maxlen=24, walks=60)]),
    "C24": dict(aspects=STATE, lanes=["std", "nightly", "rel"], fams=[
        "views", random_for(["views", "index", "set_at", "cmp", "cmpn", "cmpv", "cmpb", "initb", "push", "swap_remove", "efs"] * 2, hosts=OWN3 + [["copy", "heap"], ["copy", "iarr"], ZS, BOX, ["own", "refheap"], ["own", "fslice8"], ["wide", "heap"]],
                            keys=3, caps=[8, 20], len=8, maxlen=24, walks=40)]),
    "C25": dict(aspects=STATE | OWNED | {"cap", "used", "mv", "alloc"}, lanes=["std", "nightly", "rel"], fams=[
        "borrow", "used", ("reserve", dict(hosts=BORROWED + [["own", "refheap"]], faults=[])), ("single", dict(hosts=BORROWED + [["copy", "islice"], ["copy", "ibox"], ["copy", "iarr"]])),
        ("bulk", dict(hosts=BORROWED + [["copy", "islice"], ["copy", "iarr"]], caps=[0, 4])),
        random_for(["set_len", "set_len", "push", "pop", "insert", "remove", "truncate", "extend", "efs", "retain", "drain", "v_next", "v_end", "clear", "raw_rt", "swap_remove", "resize"],
                   init=["init", "init_full"], hosts=[["copy", "islice"], ["copy", "ibox"], ["copy", "iarr"]] + BORROWED, walks=40)]),
    "C26": dict(models=["RawCursor", "CursorIndex"], aspects=STATE | OWNED | MADE, lanes=["std", "nightly", "rel"], tail=TAIL, fams=[
        "forget", ("forget", dict(hosts=[["copy", "heap"], ["own", "arr"], ZS], len=2)),
        random_for(VIEWS + ["into_iter"] + CURSOR + ITER[:6] + SPARE + FORGET * 12, hosts=OWN3 + [ZS, ["own", "fheap64"], ["own", "boxslice"]], weird=0, caps=[8, 12], len=8, maxlen=16, walks=60)]),
    "C27": dict(aspects=STATE | OWNED | {"new", "call", "clone"}, lanes=["std", "nostd", "nightly", "rel"],
                also={"slice": ["heap", "arr", "user", "boxslice", "refheap", "fheap64", "fslice64"], "heap": ["slice"]}, fams=[
        ("single", dict(hosts=[SLICE, ["copy", "slice"], ZS], caps=[0, 4, 6])), ("bulk", dict(hosts=[SLICE, ["copy", "slice"], ZS], caps=[4, 6])), ("arrays", dict(hosts=[SLICE], caps=[6])),
        ("retain", dict(hosts=[SLICE])), ("dedup", dict(hosts=[SLICE], len=3)), ("two", dict(hosts=[SLICE])), ("splice2", dict(hosts=[SLICE], hints=[0, 1], src=3)), ("drain", dict(hosts=[SLICE], len=3, caps=[3])),
        ("into", dict(hosts=[SLICE], len=3)), ("cursor3", dict(hosts=[SLICE], len=2, depth=5)), ("spare", dict(hosts=[SLICE], caps=[4])),
        ("faults", dict(hosts=[SLICE], len=3, masks=4, fmax=3)), ("create", dict(hosts=[HEAP, ARR], depth=2)),
        random_for(ANYTHING, hosts=[SLICE, HEAP, ["copy", "slice"], ZS], walks=60)]),
    "C28": dict(aspects=MADE | {"st", "ret"}, lanes=["std", "nightly", "rel"], fams=[
        "bulk", "retain", "dedup", ("dfilter", dict(modes=[1])), ("splice2", dict(hosts=[SLICE, HEAP])), ("create", dict(depth=2)),
        ("faults", dict(hosts=OWN, len=3, masks=4, faults=["p", "c"], modes=[1])), ("dfilter2", {}), ("dedupz", {}),
        ("vfaults", dict(ops=["init", "dfilter", "v_next", "v_next_back", "v_nth", "v_nth_back", "v_end"], hosts=OWN, faults=["p"], depth=4, modes=[1], len=3, masks=8)),
        ("sfaults", dict(hosts=[SLICE, HEAP], faults=["p"])),
        random_for(BULK + PREDS + ["dfilter", "splice", "v_next", "v_next_back", "v_nth", "v_end", "clone", "clone_swap"],
                   init=["init", "collect", "gvec_rep"], hosts=OWN3 + [ZS], caps=[8, 20], len=10, maxlen=24, src=8, hints=[0, 1, 2, 3, 4, 5], walks=50),
        random_for(BULK + PREDS + ["dfilter", "splice", "v_next", "v_next_back", "v_nth", "v_end"],
                   init=["init", "collect"], hosts=OWN3, caps=[8, 20], len=10, maxlen=24, src=8, faults=["p", "c"], fmax=5, walks=40)]),
}


def big(c):
    """the same walks with vectors of up to 300 elements, where thresholds and growth policies show"""
    small = ("arr", "iarr", "zarr", "fslice0", "fheap0")
    return dict(c, big=1, caps=[20, 40, 70, 130], len=140, maxlen=300, src=140, bcaps=[50, 140], walks=max(6, c["walks"] // 6),
                depth=min(30, c["depth"]), weird=0, hosts=[h for h in c["hosts"] if h[1] not in small],
                faults=[f for f in c.get("faults", []) if f != "d"])


def small(c):
    """the same walks with other elements"""
    return dict(c, hosts=ODD, walks=max(6, c["walks"] // 4), huge=0, hints=[h for h in c["hints"] if h != 3])


for _n, _p in PROPS.items():
    _w = [f for f in _p["fams"] if isinstance(f, dict)]
    _p["fams"] = _p["fams"] + [big(f) for f in _w] + ([] if _n in ("C22", "C25") else [small(_w[0]), small(big(_w[0]))])
