"""C31, C32: what the compiler accepts of the programs of spec/Borrows.tla and spec/Permits.tla, against their verdicts."""
import json, os, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import core
from core import say, ToolError

REPO = os.path.join(os.path.dirname(core.VERIF), "repo")
CHUNK = 4000

# ---------------------------------------------------------------- programs of Borrows

MAKE = {
    "as_slice": "{p}.as_slice()", "index": "&{p}[0]", "range": "&{p}[..]", "iter": "{p}.iter()", "ref_into_iter": "(&{p}).into_iter()",
    "storage": "{p}.storage()", "as_ref": "AsRef::<[u8]>::as_ref(&{p})", "borrow": "Borrow::<[u8]>::borrow(&{p})", "deref": "Deref::deref(&{p})",
    "get": "{p}.get(0)",
    "as_mut_slice": "{p}.as_mut_slice()", "index_mut": "&mut {p}[0]", "range_mut": "&mut {p}[..]", "iter_mut": "{p}.iter_mut()",
    "mut_into_iter": "(&mut {p}).into_iter()", "as_mut": "AsMut::<[u8]>::as_mut(&mut {p})", "borrow_mut": "BorrowMut::<[u8]>::borrow_mut(&mut {p})",
    "deref_mut": "DerefMut::deref_mut(&mut {p})", "push": "{p}.push(0)", "insert": "{p}.insert(0, 0)", "try_push": "{p}.try_push(0).ok()",
    "try_insert": "{p}.try_insert(0, 0).ok()", "push_unchecked": "unsafe {{ {p}.push_unchecked(0) }}",
    "insert_unchecked": "unsafe {{ {p}.insert_unchecked(0, 0) }}", "storage_mut": "unsafe {{ {p}.storage_mut() }}",
    "push_array": "{p}.push_array([0, 0])", "insert_array": "{p}.insert_array(0, [0, 0])", "try_push_array": "{p}.try_push_array([0, 0]).ok()",
    "try_insert_array": "{p}.try_insert_array(0, [0, 0]).ok()", "push_array_unchecked": "unsafe {{ {p}.push_array_unchecked([0, 0]) }}",
    "insert_array_unchecked": "unsafe {{ {p}.insert_array_unchecked(0, [0, 0]) }}",
    "drain": "{p}.drain(..)", "drain_filter": "{p}.drain_filter(.., |_| true)", "splice": "{p}.splice(.., Some(0))",
    "spare": "{p}.spare_capacity_mut()", "cursor": "{p}.cursor(..)", "raw_cursor": "{p}.raw_cursor(..)",
    "into_iter": "{p}.into_iter()", "into_raw_parts": "{p}.into_raw_parts()",
    "with_storage_again": "unsafe {{ GenericVec::<u8, _>::from_raw_parts({p}.0, {p}.1) }}",
    "cur_front": "{p}.front()", "cur_back": "{p}.back()", "cur_front_mut": "{p}.front_mut()", "cur_back_mut": "{p}.back_mut()",
    "as_raw_cursor_mut": "{p}.as_raw_cursor_mut()", "rcur_front": "unsafe {{ {p}.front() }}", "rcur_back": "unsafe {{ {p}.back() }}",
    "rcur_front_mut": "unsafe {{ {p}.front_mut() }}", "rcur_back_mut": "unsafe {{ {p}.back_mut() }}",
    "into_as_slice": "{p}.as_slice()", "into_as_mut_slice": "{p}.as_mut_slice()",
    "slice_vec": "SliceVec::new(&mut {p})", "init_vec": "InitSliceVec::new(&mut {p})", "uninit_slice": "raw::UninitSlice::from_mut(&mut {p})",
    "storage_by_ref": "GenericVec::<u8, _>::with_storage(&mut {p})",
    "filter_reads": "{p}.drain_filter(.., |x| *x == {q}[0])", "filter_writes": "{p}.drain_filter(.., |_| {{ {q}[0] = 1; true }})",
    "splice_reads": "{p}.splice(.., {q}.iter().cloned())", "splice_drains": "{p}.splice(.., {q}.drain(..))",
}
DO = {
    "append": "{p}.append(&mut {q})", "split_off_into": "{p}.split_off_into(0, &mut {q})", "extend_from_slice": "{p}.extend_from_slice(&{q})",
    "clone_from": "{p}.clone_from(&{q})", "extend_iter": "{p}.extend({q}.iter().cloned())",
    "read": "see(&{p})", "write": "see_mut(&mut {p})", "move": "drop({p})",
}
ROOTS = ["HeapVec::<u8>::new()", "HeapVec::<u8>::new()", "[0u8; 4]", "[MaybeUninit::<u8>::uninit(); 4]", "raw::Heap::<u8>::new()"]
STARTS = ["cursor", "raw_cursor", "into_iter", "into_raw_parts", "spare", "drain", "splice", "as_mut_slice"]
HEAD_B = ("#![allow(warnings)] use generic_vec::*; use std::{mem::MaybeUninit, borrow::{Borrow, BorrowMut}, ops::{Deref, DerefMut}}; "
          "fn see<T: ?Sized>(_: &T) {} fn see_mut<T: ?Sized>(_: &mut T) {}")


SHORTER = {
    "heap": "HeapVec<T>", "array": "TypeVec<T, [T; 4]>", "into_iter": "iter::IntoIter<T, raw::Heap<T>>",
    "cursor": "iter::Cursor<'v, T, HS>", "raw_cursor": "iter::RawCursor<'v, T, HS>", "splice": "iter::Splice<'v, T, HS, std::iter::Empty<T>>",
    "mut_vec": "&'v mut HeapVec<T>", "as_raw_cursor_mut": "&'v mut iter::RawCursor<'v, T, HS>",
}


def borrow_fn(i, d):
    if not d["p"]:
        t = SHORTER[d["k"][0]].replace("HS", "raw::Heap<&'v u8>" if d["k"][0] in ("cursor", "raw_cursor") else "raw::Heap<T>")
        long, short = (t.replace("T>", x + ">").replace("T,", x + ",").replace("[T;", "[" + x + ";") for x in ("&'static u8", "&'v u8"))
        return "fn f%d<'v>(x: %s) -> %s { x }" % (i, long, short)
    body = "".join("let mut o%d = %s; " % (k + 1, r) for k, r in enumerate(ROOTS))
    m = len(ROOTS)
    for st in d["p"]:
        f = dict(p="o%d" % st["i"], q="o%d" % st["j"])
        if st["do"] in MAKE:
            m += 1
            body += "let mut o%d = %s; " % (m, MAKE[st["do"]].format(**f))
        else:
            body += DO[st["do"]].format(**f) + "; "
    return "fn f%d() { %s}" % (i, body)


# ---------------------------------------------------------------- programs of Permits

ELEMENTS = dict(Bare="", Cloned="Clone", Plain="Clone, Copy", Equal="PartialEq, Eq", Ordered="PartialEq, Eq, PartialOrd, Ord", Partly="PartialEq, PartialOrd",
                Hashed="Hash", Shown="Debug", Zeroed="Clone, Copy, Default")
STORAGES = dict(heap="HeapVec<E>", slice="SliceVec<'static, E>", array="TypeVec<E, [E; 4]>", islice="InitSliceVec<'static, E>",
                ibox="GenericVec<E, Box<[E]>>", iarray="GenericVec<E, [E; 4]>")
CALL = dict(
    push="v.push(x())", insert="v.insert(0, x())", pop="v.pop()", remove="v.remove(0)", swap_remove="v.swap_remove(0)", try_push="v.try_push(x())",
    try_insert="v.try_insert(0, x())", try_pop="v.try_pop()", try_remove="v.try_remove(0)", try_swap_remove="v.try_swap_remove(0)",
    truncate="v.truncate(0)", clear="v.clear()", retain="v.retain(|_| true)", drain="v.drain(..)", drain_filter="v.drain_filter(.., |_| true)",
    splice="v.splice(.., Some(x()))", cursor="v.cursor(..)", raw_cursor="v.raw_cursor(..)", grow_with="v.grow_with(1, || x())",
    resize_with="v.resize_with(1, || x())", extend="v.extend(Some(x()))", append="v.append(w)", split_off_into="v.split_off_into(0, w)",
    dedup_by="v.dedup_by(|_, _| true)", dedup_by_key="v.dedup_by_key(|_| 1)", spare="v.spare_capacity_mut()", reserve="v.reserve(1)",
    try_reserve="v.try_reserve(1)", as_slice="v.as_slice()", as_mut_slice="v.as_mut_slice()", index="&mut v[0]",
    split_off_heap="v.split_off::<raw::Heap<E>>(0)", capacity="v.capacity()", cursor_write="v.cursor(..).write_front(x())",
    cursor_take="v.cursor(..).take_front()", grow="v.grow(1, x())", resize="v.resize(1, x())", extend_from_slice="v.extend_from_slice(s)",
    clone_from="v.clone_from(s)", clone="<V as Clone>::clone(v)", with_capacity="V::with_capacity(1)", default="<V as Default>::default()",
    collect="Some(x()).into_iter().collect::<V>()", split_off_same="let _: V = v.split_off(0)",
    write_slice_front="v.cursor(..).write_slice_front(s)", write_slice_back="v.cursor(..).write_slice_back(s)", eq="*v == *w", eq_slice="*v == *s",
    dedup="v.dedup::<(), ()>()", lt="*v < *w", cmp="Ord::cmp(v, w)", hash="Hash::hash(v, any::<std::collections::hash_map::DefaultHasher>())",
    debug="std::fmt::Debug::fmt(v, any())", set_len="v.set_len(0)",
    push_unchecked="v.push_unchecked(x())", insert_unchecked="v.insert_unchecked(0, x())", pop_unchecked="v.pop_unchecked()",
    remove_unchecked="v.remove_unchecked(0)", swap_remove_unchecked="v.swap_remove_unchecked(0)", set_len_unchecked="v.set_len_unchecked(0)",
    storage_mut="v.storage_mut()", from_raw_parts="V::from_raw_parts(0, b())", extend_from_slice_unchecked="v.extend_from_slice_unchecked(s)",
    heap_from_raw_parts="raw::Heap::<E>::from_raw_parts(b(), 0)", slice_to_mut="any::<raw::UninitSlice<E>>().to_mut()",
    push_array="v.push_array([x(), x()])", insert_array="v.insert_array(0, [x(), x()])", pop_array="v.pop_array::<2>()",
    remove_array="v.remove_array::<2>(0)", try_push_array="v.try_push_array([x(), x()])", try_insert_array="v.try_insert_array(0, [x(), x()])",
    try_pop_array="v.try_pop_array::<2>()", try_remove_array="v.try_remove_array::<2>(0)", push_array_unchecked="v.push_array_unchecked([x(), x()])",
    insert_array_unchecked="v.insert_array_unchecked(0, [x(), x()])", pop_array_unchecked="v.pop_array_unchecked::<2>()",
    remove_array_unchecked="v.remove_array_unchecked::<2>(0)")
for _n, _a in dict(front="", back="", front_mut="", back_mut="", take_front="", take_back="", drop_front="", drop_back="", drop_n_front="1",
                   drop_n_back="1", write_front="x()", write_back="x()", write_slice_front="s", write_slice_back="s", skip_front="", skip_back="",
                   skip_n_front="1", skip_n_back="1").items():
    CALL["r_" + _n] = "r.%s(%s)" % (_n, _a)
HEAD_P = ("#![allow(warnings)] use generic_vec::*; use std::hash::*; fn any<T: ?Sized>() -> &'static mut T { loop {} } fn b<T>() -> T { loop {} } "
          + " ".join("%s pub struct %s(u8);" % ("#[derive(%s)]" % d if d else "", n) for n, d in ELEMENTS.items()))


def permit_fn(i, d):
    body = CALL[d["op"]]
    pre = "let mut r = v.raw_cursor(..); " if d["op"].startswith("r_") else ""
    if d["block"]:
        body = "unsafe { %s; }" % body
    return ("fn f%d() { type E = %s; type V = %s; let x = || -> E { b() }; let s: &[E] = any::<[E; 2]>(); let v: &mut V = any(); let w: &mut V = any(); %s%s; }"
            % (i, d["e"], STORAGES[d["s"]], pre, body))


# ---------------------------------------------------------------- the compiler

class Compiler:
    """the crate as it is in one lane, and what the compiler says about programs that use it"""

    def __init__(self, lane, work):
        rust, feats, _ = core.LANES[lane]
        self.dir = os.path.join(work, "probe-" + lane)
        os.makedirs(os.path.join(self.dir, "src"))
        with open(os.path.join(self.dir, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "probe"\nversion = "0.0.0"\nedition = "2018"\n[workspace]\n[dependencies]\n'
                    'generic-vec = { path = "%s", default-features = false, features = [%s] }\n'
                    % (REPO, ", ".join('"%s"' % x for x in feats.split(",") if x)))
        with open(os.path.join(self.dir, "src", "lib.rs"), "w") as f:
            f.write("pub use generic_vec::*;\n")
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=os.path.join(core.BUILD, "probe-" + lane))
        env.pop("RUSTFLAGS", None)
        tc = "+stable"
        if rust == "nightly":
            env["RUSTC"] = os.path.join(core.VERIF, "tools", "rustc152")
            tc = "+1.79.0"
        self.rustc = [env["RUSTC"]] if rust == "nightly" else ["rustc", "+stable"]
        r = subprocess.run(["cargo", tc, "check", "-q", "--message-format=json"], cwd=self.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        self.meta = None
        for line in r.stdout.decode().splitlines():
            d = json.loads(line) if line.startswith("{") else {}
            if d.get("reason") == "compiler-artifact" and d["target"]["name"].replace("-", "_") == "generic_vec":
                self.meta = [x for x in d["filenames"] if x.endswith(".rmeta")][0]
        if r.returncode != 0 or not self.meta:
            raise ToolError("the crate does not build (lane %s):\n%s" % (lane, r.stderr.decode(errors="replace")[-3000:]))

    def errors(self, name, head, fns):
        """{index of a program: codes of the errors in it}"""
        path = os.path.join(self.dir, name + ".rs")
        with open(path, "w") as f:
            f.write(head + "\n" + "\n".join(fns) + "\n")
        cmd = self.rustc + ["--edition", "2018", "--crate-type", "lib", "--emit=metadata", "--error-format=json", "-o", path + "meta",
                            "--extern", "generic_vec=" + self.meta, "-L", "dependency=" + os.path.dirname(self.meta), path]
        r = subprocess.run(cmd, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        bad, elsewhere = {}, []
        for line in r.stderr.decode(errors="replace").splitlines():
            d = json.loads(line) if line.startswith("{") else dict(level="error", message=line, spans=[], code=None)
            if not d["level"].startswith("error") or d["message"].startswith("aborting due to"):
                continue
            own = [s["line_start"] - 2 for s in d["spans"] if s["is_primary"] and s["file_name"] == path and s["line_start"] > 1]
            # some compilers point at the bound first
            own = own or [s["line_start"] - 2 for s in d["spans"] if s["file_name"] == path and s["line_start"] > 1]
            code = (d["code"] or {}).get("code", "?") + " " + d["message"][:120]
            for i in own:
                bad.setdefault(i, []).append(code)
            if not own:
                elsewhere.append(code + " " + d["rendered"][:1000])
        if elsewhere or (r.returncode != 0) != bool(bad):
            raise ToolError("the compiler failed on the programs: %s" % (elsewhere[:3] or r.stderr.decode(errors="replace")[-1000:]))
        os.remove(path)
        return bad


def programs(module, cfg, tag, work):
    path = os.path.join(work, tag + ".cfg")
    with open(path, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + cfg + "\n")
    out, states, trans = core.tlc(module + ".tla", path, {}, os.path.join(work, tag + ".meta"), heap="6g", workers=4)
    ps = [json.loads(json.loads(l).split(" ", 1)[1]) for l in out.splitlines() if l.startswith('"PROGRAM ') or l.startswith('"PERMIT ')]
    return sorted(ps, key=lambda d: json.dumps(d, sort_keys=True)), states, trans


def check(prop, tier, seed, evid):
    t0 = time.time()
    lanes = ["std", "nightly"] if tier == "quick" else ["std", "nightly", "alloc", "nalloc"]
    work = os.path.join(core.WORK, "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    states = trans = n = accepted = 0
    found, samples, errors = [], [], {}

    def lane_job(lane):
        arrays = "TRUE" if "nightly" in core.LANES[lane][1] else "FALSE"
        compiler = Compiler(lane, work)
        jobs = []
        if prop == "C31":
            ps, s, t = programs("Borrows", "INVARIANTS Emit Shorten Exclusive Moved\nCONSTANTS Steps = %d Arrays = %s Second = %s Starts = {%s}"
                                % (3, arrays, "FALSE" if tier == "quick" else "TRUE", ", ".join('"%s"' % x for x in STARTS)), lane, work)
            # what is not typed correctly hides what is not borrowed correctly
            for q in ([d for d in ps if d["p"]], [d for d in ps if not d["p"]]):
                jobs += [(HEAD_B, borrow_fn, q[i:i + CHUNK], "legal") for i in range(0, len(q), CHUNK)]
        else:
            ps, s, t = programs("Permits", "INVARIANTS Emit Sound\nCONSTANTS Arrays = " + arrays, lane, work)
            # what is not typed correctly hides what is not safe
            for q, verdict in (([d for d in ps if d["promised"]], "able"), ([d for d in ps if d["able"]], "promised")):
                jobs += [(HEAD_P, permit_fn, q[i:i + CHUNK], verdict) for i in range(0, len(q), CHUNK)]
        return lane, compiler, jobs, s, t

    with ThreadPoolExecutor(2) as ex:
        ready = list(ex.map(lane_job, lanes))

    def job(a):
        k, (lane, compiler, head, fn, ps, verdict) = a
        return lane, fn, ps, verdict, compiler.errors("p%d" % k, head, [fn(i, d) for i, d in enumerate(ps)])

    all_jobs = [(lane, c) + j for lane, c, jobs, _, _ in ready for j in jobs]
    with ThreadPoolExecutor(4) as ex:
        results = list(ex.map(job, enumerate(all_jobs)))
    for _, _, _, s, t in ready:
        states, trans = states + s, trans + t
    for lane, fn, ps, verdict, bad in results:
        n += len(ps)
        accepted += len(ps) - len(bad)
        for i in bad:
            for c in bad[i]:
                errors[c[:5]] = errors.get(c[:5], 0) + 1
        for i, d in enumerate(ps):
            if d[verdict] == (i in bad):
                found.append(dict(lane=lane, specification="legal" if d[verdict] else "not legal",
                                  compiler=bad.get(i, ["accepted"])[0], program=fn(i, d), record=d))
        samples += [fn(i, d) for i, d in enumerate(ps[:2])]
    shutil.rmtree(work, ignore_errors=True)
    if accepted == 0 or accepted == n:
        raise ToolError("the compiler does not distinguish the programs")
    # what the comparison is worth: of the programs with the opposite verdict it accepts none
    what = ("every program of up to 3 steps after the first objects, or after one view or iterator of the first vector: views, references, iterators and cursors of vectors, of each other and of buffers, "
            "then reads, writes, moves and the end of the scope" if prop == "C31" else
            "every operation for elements with every ability, on storages of every kind, inside and outside of an unsafe block")
    os.makedirs(evid, exist_ok=True)
    cover = dict(states=states, transitions=trans, traces_validated_against_impl=n, samples=samples[:6], exhaustive=True, explanation=what, lanes=lanes,
                 programs_accepted_by_compiler=accepted, programs_rejected_by_compiler=n - accepted, errors=errors)
    with open(os.path.join(evid, prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cover,
                       assumptions=["the compiler's borrow and type checkers are right"], wall_s=round(time.time() - t0, 1), violations=len(found)), f, indent=1)
    say("%s %s: %d programs in %s, %d states, %d accepted, %d disagreements, %.0f s"
        % (prop, tier, n, "/".join(lanes), states, accepted, len(found), time.time() - t0))
    if found:
        path = os.path.join(evid, "violation-%s.json" % prop)
        with open(path, "w") as f:
            json.dump(found[:200], f, indent=1)
        for d in found[:5]:
            say("  lane %s: specification: %s, compiler: %s: %s" % (d["lane"], d["specification"], d["compiler"], d["program"][-300:]))
        say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0
