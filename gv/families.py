"""What the specification is explored with: operations, argument ranges and storages.

A family is a configuration of spec/Gen.tla (see there), exhaustive (mode x) or random (mode r).  `quick` and `thorough`
override its bounds."""

SINGLE = """push push_u try_push insert insert_u try_insert pop pop_u try_pop remove remove_u try_remove
swap_remove swap_remove_u try_swap_remove truncate clear""".split()
TRY = "try_push try_insert try_pop try_remove try_swap_remove".split()
BULK = "grow resize grow_with resize_with extend extend_ref efs efs_u clone_from clone_from_vec".split()
CURSOR = """c_take_front c_take_back c_drop_front c_drop_back c_drop_n_front c_drop_n_back c_write_front c_write_back
c_try_write_front c_try_write_back c_wslice_front c_wslice_back c_skip_front c_skip_back c_skip_n_front c_skip_n_back
c_reserve c_finish c_set_front c_set_back""".split()
ITER = "v_next v_next_back v_nth v_nth_back v_rest v_rest_back v_count v_last v_fold v_each v_rfold v_try v_try_back v_into_vec".split()
SPARE = "s_push s_try_push s_insert s_pop s_remove s_save".split()
ARRAYS = """push_arr push_arr_u try_push_arr insert_arr insert_arr_u try_insert_arr pop_arr pop_arr_u try_pop_arr
remove_arr remove_arr_u try_remove_arr""".split()
TRYARR = "try_push_arr try_insert_arr try_pop_arr try_remove_arr".split()
TWO = "initb append append_rev split_into cmpb".split()
END = ["v_end"]
FORGET = ["v_forget"]
VIEWS = "cursor rcursor drain dfilter splice spare".split()
PREDS = "retain dedup dedup_by dedup_key".split()
MAKE = """with_cap default new collect gvec gvec_rep from_vec from_arr""".split()
TURN = "clone clone_swap clone_from_vec vec_rt to_vec heap_rt raw_rt into_arr convert into_iter forget drop".split()

SLICE, HEAP, USER, ARR, BOX = ["own", "slice"], ["own", "heap"], ["own", "user"], ["own", "arr"], ["own", "box"]
OWN = [SLICE, HEAP]
OWN3 = OWN + [USER]
COPY = [["copy", "slice"], ["copy", "heap"], ["copy", "iarr"]]
ZS, ZSLICE, ZHEAP, ZARR = ["zst", "zs"], ["zst", "slice"], ["zst", "heap"], ["zst", "arr"]
ZST = [ZS, ZSLICE, ZHEAP, ZARR]
FOREIGN = [["own", "fheap64"], ["own", "fslice64"], ["own", "fslice8"], ["own", "farr"], ["own", "fheap8"]]
WIDE = [["wide", "farr"], ["wide", "fslice8"], ["wide", "fheap8"], ["wide", "heap"], ["wide", "slice"]]
EMPTY = [["own", "fheap0"], ["own", "fslice0"], ["wide", "fheap0"], ["wide", "fslice0"]]
ZFOREIGN = [["zst", "fheap0"], ["zst", "fheap8"], ["zst", "fslice8"], ["zst", "fslice0"], ["zst", "farr"], ["zst", "box"], ["zst", "refheap"]]
# elements of 4 bytes with a destructor, of 3 and 1 byte without, of more than 1 kB; zero-sized ones without a destructor (zcp), and aligned to 32 (zal)
SMALL = [["slim", "slice"], ["slim", "heap"], ["slim", "fheap64"], ["tri", "slice"], ["tri", "heap"], ["tri", "fheap8"], ["tiny", "slice"], ["tiny", "heap"]]
ZODD = [["zal", "zs"], ["zal", "slice"], ["zal", "heap"], ["zal", "arr"], ["zcp", "zs"], ["zcp", "slice"], ["zcp", "heap"], ["zcp", "arr"]]
ODD = SMALL + [["fat", "slice"], ["fat", "heap"], ["zal", "slice"], ["zal", "heap"], ["zcp", "zs"], ["zcp", "heap"]]
SMALLS = SMALL + [["slim", "fheap8"], ["slim", "farr"], ["slim", "fslice8"], ["tri", "fslice1"], ["tri", "fslice64"], ["tri", "farr"], ["tri", "fheap64"]]
BORROWED = [["own", "refheap"], ["own", "boxslice"], BOX]
FIXED = [SLICE, ARR, BOX, ["own", "boxslice"], ["copy", "iarr"], ["copy", "islice"], ["own", "fslice64"]]
ALLHOSTS = OWN3 + [ARR] + COPY + [["copy", "islice"], ["copy", "ibox"]] + ZST + BORROWED + FOREIGN + WIDE

CAPS = [0, 1, 2, 3, 4, 6]
SIZES = [0, 1, 2, 3, 4, 5, 6]
TAIL = "v_end;try_push 6;try_insert 0 5;push 2;try_remove 0;try_pop;"

# name: (base, quick, thorough)
FAMILIES = {
    "single": (dict(hosts=OWN3 + COPY + ZST[:2], ops=["init"] + SINGLE, caps=CAPS, len=4, maxlen=5, depth=3, weird=1, huge=1),
               dict(depth=2), dict(len=6, maxlen=7, caps=CAPS + [8], depth=4)),
    "single2": (dict(hosts=OWN3, ops=["init"] + SINGLE, caps=[0, 2, 3], len=3, maxlen=4, depth=3), {}, dict(depth=5)),
    "cursor": (dict(hosts=[SLICE, HEAP], ops=["init", "cursor"] + CURSOR + END, caps=[3], len=3, maxlen=3, depth=9, src=2, weird=1),
               dict(len=2, caps=[2], maxlen=2), {}),
    "rcursor": (dict(hosts=[SLICE, HEAP], ops=["init", "rcursor"] + CURSOR + END, caps=[3], len=3, maxlen=3, depth=9, src=2, weird=1),
                dict(len=2, caps=[2], maxlen=2), {}),
    "cursor3": (dict(hosts=[SLICE, HEAP, ["copy", "slice"], ZS], ops=["init", "cursor"] + [o for o in CURSOR if "set" not in o] + END,
                     caps=[4], len=3, maxlen=3, depth=6, src=1),
                dict(hosts=[SLICE], depth=5), {}),
    "drain": (dict(hosts=OWN + ZST[:1], ops=["init", "drain"] + ITER + END, caps=[5], len=5, maxlen=5, depth=9, weird=1),
              dict(len=4, caps=[4]), dict(len=6, maxlen=6, caps=[6])),
    "into": (dict(hosts=OWN + [BOX] + ZST[:2], ops=["init", "into_iter", "v_touch"] + ITER + END, caps=[4], len=4, maxlen=5, depth=9, weird=1),
             {}, dict(len=6, maxlen=7, caps=[6])),
    "dfilter": (dict(hosts=OWN, ops=["init", "dfilter"] + ITER + END, caps=[4], len=4, maxlen=4, depth=9, modes=[0, 1, 2, 3], masks=16),
                dict(hosts=[SLICE], modes=[1, 2], len=3, masks=8), {}),
    "dfilter2": (dict(hosts=[HEAP, ZS, ["copy", "heap"]], ops=["init", "dfilter", "v_next", "v_next_back", "v_end"], caps=[4], len=3, maxlen=4, depth=9,
                      modes=[1], masks=8), {}, dict(len=4, masks=16)),
    "retain": (dict(hosts=OWN + ZST[:1] + COPY, ops=["init", "retain"], caps=[6], len=5, maxlen=6, depth=2, modes=[0, 1, 2, 3],
                    masks=32), {}, dict(caps=[8], len=7, maxlen=8, masks=128)),
    "dedup": (dict(hosts=OWN + COPY[:1], ops=["init", "dedup", "dedup_by", "dedup_key"], caps=[5], len=5, maxlen=6, depth=2, keys=3,
                   masks=16), dict(len=4), {}),
    "dedupz": (dict(hosts=ZST[:2], ops=["init", "dedup", "dedup_by", "dedup_key"], caps=[5], len=5, maxlen=6, depth=2, masks=16), {}, {}),
    "splice": (dict(hosts=OWN + ZST[:1], ops=["init", "splice", "v_next", "v_next_back", "v_nth", "v_rest"] + END, caps=[4, 6], len=4, maxlen=4,
                    depth=5, hints=[0, 1, 2, 4], src=4),
               dict(len=3, caps=[3, 6], hints=[0, 2], depth=4), {}),
    "splice2": (dict(hosts=[SLICE, HEAP], ops=["init", "splice"] + END, caps=[9], len=4, maxlen=6, depth=3, hints=[0, 1, 2, 3, 4, 5], src=5),
                {}, dict(caps=[12], len=6, src=6)),
    "bulk": (dict(hosts=OWN3 + COPY + ZST[:2], ops=["init"] + BULK, caps=CAPS, len=4, maxlen=6, depth=2, src=4, hints=[0, 1, 2, 3, 4, 5], huge=1),
             {}, dict(depth=3)),
    "two": (dict(hosts=OWN3 + COPY + ZST[:2], ops=["init"] + TWO, caps=[0, 2, 4], len=4, maxlen=6, depth=3, bcaps=[0, 1, 3, 4]),
            {}, dict(depth=4)),
    "off": (dict(hosts=OWN3 + COPY + ZST, ops=["init", "split_off", "convert"], caps=CAPS, len=6, maxlen=6, depth=2, weird=1, huge=1),
            {}, {}),
    "arrays": (dict(hosts=OWN3 + COPY + ZST, ops=["init"] + ARRAYS, caps=CAPS, len=6, maxlen=6, depth=2, weird=1, huge=1),
               dict(caps=[0, 3, 4, 6]), dict(len=8, caps=CAPS + [8, 10], maxlen=9)),
    "create": (dict(hosts=OWN3 + [ARR] + COPY + ZST + BORROWED + FOREIGN + WIDE[:4], ops=["init", "init_full"] + MAKE + TURN, caps=CAPS,
                    len=4, maxlen=6, depth=3, huge=1, weird=1),
               {}, dict(depth=4, len=4)),
    "spare": (dict(hosts=OWN3 + ZST[:1], ops=["init", "spare"] + SPARE + END + FORGET, caps=[0, 1, 3, 4, 6], len=4, maxlen=6, depth=9,
                   weird=1), {}, {}),
    "views": (dict(hosts=OWN3 + COPY + ZST + BORROWED, ops=["init", "views", "index", "set_at", "cmp", "cmpn", "cmpv", "initb", "cmpb"], caps=[0, 3, 4],
                   len=3, maxlen=6, depth=3, keys=2, weird=1, bcaps=[2]),
              dict(hosts=OWN + [["copy", "iarr"], ZS, BOX], caps=[3]), {}),
    "borrow": (dict(hosts=[["copy", "islice"], ["copy", "ibox"], ["copy", "iarr"]],
                    ops=["init", "init_full", "set_len", "push", "pop", "truncate", "insert", "remove", "raw_rt", "extend", "swap_remove"],
                    caps=[0, 1, 2, 3, 4], len=4, maxlen=6, depth=4, weird=1, huge=1), dict(depth=3), {}),
    "used": (dict(hosts=[SLICE, ["copy", "slice"], ["copy", "islice"], ["own", "fslice8"], ["own", "fslice64"]],
                  ops=["init", "drain", "cursor", "spare", "v_next", "c_take_front", "c_write_front", "c_skip_back", "s_push", "s_save"] + END
                  + SINGLE + BULK, caps=[6], len=3, maxlen=6, depth=3, src=2), {}, dict(depth=4)),
    "reserve": (dict(hosts=OWN3 + COPY + ZST + BORROWED + FOREIGN, ops=["init", "with_cap", "reserve", "try_reserve", "raw_reserve", "raw_try", "push"], caps=CAPS,
                     len=4, maxlen=6, depth=3, huge=1, faults=["a"], fmax=2), {}, dict(depth=4)),
    "reserve2": (dict(hosts=[HEAP, USER, ["own", "fheap64"]],
                      ops=["init", "reserve", "try_reserve", "push", "insert", "grow", "efs", "extend", "append", "initb", "resize", "clone_from",
                           "cursor", "c_reserve", "v_end", "c_take_front", "c_write_front"],
                      caps=[0, 2, 3], len=2, maxlen=5, depth=4, src=2, bcaps=[2]),
                 dict(depth=3), {}),
    "ranges": (dict(hosts=[SLICE], ops=["init", "cursor", "rcursor", "drain", "dfilter", "splice", "split_off", "initb", "split_into"] + SINGLE,
                    caps=[4], len=3, maxlen=6, depth=3, huge=1, weird=1, src=1, masks=2),
               dict(len=3, depth=2), {}),
    "rangesv": (dict(hosts=[HEAP, ["zst", "zs"]], ops=["init", "cursor", "rcursor", "drain", "dfilter", "splice", "split_off"] + SINGLE,
                     caps=[4], len=2, maxlen=6, depth=2, huge=1, weird=1, src=1, masks=2), {}, dict(len=3)),
    "forget": (dict(hosts=OWN, ops=["init"] + VIEWS + ["into_iter", "c_take_front", "c_write_front", "c_skip_front", "c_take_back",
                                                        "c_write_back", "c_skip_back", "v_next", "v_next_back", "s_push"] + FORGET,
                    caps=[4], len=3, maxlen=6, depth=6, masks=4, src=2), {}, dict(len=4, depth=8, caps=[5])),
    "faults": (dict(hosts=OWN + ZST[:1], ops=["init", "truncate", "clear", "drop", "clone", "clone_swap", "collect", "gvec_rep"] + PREDS + BULK,
                    caps=[0, 4, 6], len=4, maxlen=6, depth=2, faults=["p", "c", "d"], fmax=5, masks=16, modes=[0, 1], hints=[0, 1]),
               dict(len=3, masks=8, caps=[0, 6]), dict(len=5, masks=32)),
    "vfaults": (dict(hosts=OWN + ZST[:1], ops=["init", "cursor", "drain", "dfilter", "into_iter", "c_drop_front", "c_drop_back",
                                              "c_drop_n_front", "c_drop_n_back", "v_next", "v_next_back", "v_nth", "v_nth_back"] + END,
                     caps=[6], len=4, maxlen=6, depth=4, faults=["p", "c", "d"], fmax=5, masks=16, modes=[0, 1], hints=[0, 1]),
                dict(len=3, fmax=3, masks=8, modes=[1], hosts=OWN), {}),
    "sfaults": (dict(hosts=OWN + ZST[:1], ops=["init", "splice", "v_next", "v_nth"] + END, caps=[4, 7], len=3, maxlen=6, depth=4,
                     faults=["p", "d"], fmax=5, hints=[0, 1, 2], src=4),
                dict(src=4, len=3, hints=[0, 2], depth=3), {}),
}

# random walks
ANYTHING = (["init"] * 8 + ["collect", "with_cap"] + SINGLE + BULK + TWO + VIEWS + ["into_iter"] + CURSOR + ITER[:6] + ITER[:6] + ITER[8:] + SPARE
            + END + END + FORGET + ARRAYS + ["clone", "clone_swap", "raw_rt", "split_off", "set_at", "views", "cmp", "cmpn", "cmpv", "set_len",
                                             "reserve", "try_reserve", "raw_reserve", "raw_try", "vec_rt", "heap_rt"] + PREDS)
RANDOM = dict(mode="r", hosts=OWN, ops=ANYTHING, caps=[0, 1, 3, 4, 6, 6, 8, 12], len=6, maxlen=12, depth=20, walks=60, weird=1,
              modes=[0, 1, 2, 3], masks=128, src=5, hints=[0, 1, 2, 4, 5], bcaps=[0, 2, 4, 8])


def walk(ops, init=None, **kw):
    """a family of random walks over some operations; the first operation creates a vector"""
    d = dict(RANDOM)
    d["ops"] = (init or ["init"]) + ops
    d.update(kw)
    return d


# storages on which scripts for a storage are run, too
SAME = {"slice": ["arr"], "heap": ["heapa"]}
