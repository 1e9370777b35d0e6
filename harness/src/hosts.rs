//! The storages that scripts run on, and the operations on whole (owned) vectors.
use crate::{
    alloc,
    core::{convert_to, core, discard_vec, hash_of, ord, target, Ctl, Env, Peer, Source, GUARD},
    elem::{ids, log, Cp, Elem, Zs},
    prog::{clamp, run, Ev, Op, Prog},
    views,
};
#[cfg(feature = "alloc")]
use generic_vec::raw::Heap;
use generic_vec::{
    gvec,
    raw::{Storage, StorageWithCapacity, UninitBuffer, UninitSlice, ZeroSized},
    GenericVec, SliceVec,
};
use std::mem::{size_of, ManuallyDrop, MaybeUninit};

const PAD: usize = 96;

/// Memory for `cap` elements with guards before and after it, outside of the allocator's window
pub fn arena<T: 'static>(
    cap: usize,
    cleanup: &mut Vec<Box<dyn FnOnce()>>,
) -> (*mut [MaybeUninit<T>], Vec<(usize, usize)>) {
    let old = alloc::suspend();
    let bytes = cap * size_of::<T>();
    let layout = std::alloc::Layout::from_size_align(PAD + bytes + PAD, 32).unwrap();
    let base = unsafe { std::alloc::alloc(layout) };
    assert!(!base.is_null());
    unsafe { base.write_bytes(GUARD, layout.size()) };
    let at = unsafe { base.add(PAD) };
    cleanup.push(Box::new(move || unsafe { std::alloc::dealloc(base, layout) }));
    alloc::resume(old);
    let slice = std::ptr::slice_from_raw_parts_mut(at as *mut MaybeUninit<T>, cap);
    (slice, vec![(base as usize, PAD), (at as usize + bytes, PAD)])
}

#[repr(C)]
struct Slot<V> {
    lo: [u8; 64],
    v: MaybeUninit<V>,
    hi: [u8; 64],
}

type V<T, S> = GenericVec<T, S>;

/// What a host can do beyond the operations of a borrowed vector
pub struct Caps<T: Elem, S: Storage<T>> {
    pub clone: Option<fn(&V<T, S>) -> V<T, S>>,
    pub clone_from: Option<fn(&mut V<T, S>, &V<T, S>)>,
    pub collect: Option<fn(Source<'_, T>) -> V<T, S>>,
    pub with_cap: Option<fn(usize) -> V<T, S>>,
    pub default: Option<fn() -> V<T, S>>,
    pub new: Option<fn() -> V<T, S>>,
    /// vectors are full at first
    pub full: bool,
    pub set_len: Option<fn(&mut V<T, S>, usize)>,
    /// other ways to create a vector
    pub create: Option<fn(&Op, &mut Ev) -> Option<V<T, S>>>,
    /// other operations that consume the vector, and perhaps give it back
    pub consume: Option<fn(V<T, S>, &Op, &mut Ev) -> Option<V<T, S>>>,
}

impl<T: Elem, S: Storage<T>> Caps<T, S> {
    fn none() -> Self {
        Caps {
            clone: None,
            clone_from: None,
            collect: None,
            with_cap: None,
            default: None,
            new: None,
            full: false,
            set_len: None,
            create: None,
            consume: None,
        }
    }
}

impl<T: Elem, S: StorageWithCapacity<T> + 'static> Caps<T, S> {
    fn sized() -> Self {
        Caps {
            clone: Some(|v| v.clone()),
            clone_from: Some(|v, w| Clone::clone_from(v, w)),
            collect: Some(|i| i.collect()),
            with_cap: Some(GenericVec::with_capacity),
            default: Some(Default::default),
            create: Some(create_gvec),
            ..Caps::none()
        }
    }
}

/// The `gvec!` macro
fn create_gvec<T: Elem, S: StorageWithCapacity<T>>(op: &Op, ev: &mut Ev) -> Option<V<T, S>> {
    let a = &op.a;
    macro_rules! make {
        ($e:expr) => {
            match run(op, || $e) {
                Ok(v) => Some(v),
                Err(st) => {
                    ev.st = st;
                    None
                }
            }
        };
    }
    let n = |i: usize| T::new(a[i]);
    match op.name.as_str() {
        "gvec_rep" => {
            let x = T::new(a[1]);
            make!(gvec![x; op.us(0)])
        }
        "gvec" => match a.len() {
            0 => make!(gvec![]),
            1 => make!(gvec![n(0)]),
            2 => make!(gvec![n(0), n(1)]),
            3 => make!(gvec![n(0), n(1), n(2)]),
            4 => make!(gvec![n(0), n(1), n(2), n(3)]),
            5 => make!(gvec![n(0), n(1), n(2), n(3), n(4)]),
            6 => make!(gvec![n(0), n(1), n(2), n(3), n(4), n(5)]),
            7 => make!(gvec![n(0), n(1), n(2), n(3), n(4), n(5), n(6)]),
            _ => {
                ev.st = "skip";
                None
            }
        },
        _ => {
            ev.st = "skip";
            None
        }
    }
}

/// Runs a script on one kind of storage
fn drive<T: Elem, S: Storage<T>>(
    p: &mut Prog,
    env: &mut Env<T>,
    make: &mut dyn FnMut(&mut Env<T>, usize) -> V<T, S>,
    caps: Caps<T, S>,
) {
    let mut slot = Box::new(Slot::<V<T, S>> { lo: [GUARD; 64], v: MaybeUninit::uninit(), hi: [GUARD; 64] });
    let at = slot.v.as_mut_ptr();
    env.guards.push((slot.lo.as_ptr() as usize, 64));
    env.guards.push((slot.hi.as_ptr() as usize, 64));
    let mut live = false;

    loop {
        let op = match p.peek() {
            Some(op) => op,
            None if live => {
                p.ops.push(Op::parse("drop"));
                continue
            }
            None => {
                if let Peer::None = env.peer {
                } else {
                    // the second vector
                    let op = Op::parse("dropb");
                    let mut ev = Ev::new();
                    let b = std::mem::replace(&mut env.peer, Peer::None);
                    if let Err(st) = run(&op, || drop(b)) {
                        ev.st = st;
                    }
                    env.observe_env(&mut ev);
                    ev.it = Some(Vec::new());
                    p.emit(&op, ev);
                }
                break
            }
        };
        let op = &op;
        let mut ev = Ev::new();
        let mut made: Option<V<T, S>> = None;
        // the vector was consumed
        macro_rules! gone {
            () => {{
                live = false;
                env.observe_env(&mut ev);
                ev.it = Some(Vec::new());
            }};
        }
        macro_rules! make {
            ($e:expr) => {
                match run(op, || $e) {
                    Ok(v) => made = Some(v),
                    Err(st) => ev.st = st,
                }
            };
        }
        if !live {
            let cap = if op.a.is_empty() { 0 } else { op.a[0] as usize };
            match (op.name.as_str(), caps.with_cap, caps.collect, caps.default, caps.new) {
                ("init", ..) => {
                    make!(make(env, cap));
                    if let Some(v) = &mut made {
                        for &k in op.keys(1) {
                            let x = T::new(k);
                            if let Err(st) = run(op, || drop(v.push(x))) {
                                ev.st = st;
                                break
                            }
                        }
                    }
                }
                // a storage that is full from the start
                ("init_full", ..) if caps.full => make!(make(env, cap)),
                ("with_cap", Some(f), ..) => make!(f(op.us(0))),
                ("collect", _, Some(f), ..) => {
                    let source = Source::<T>::new(op.keys(1), op.a[0]);
                    make!(f(source))
                }
                ("default", _, _, Some(f), _) => make!(f()),
                ("new", _, _, _, Some(f)) => make!(f()),
                ("initb", ..) => ev.st = "skip",
                _ => match caps.create {
                    Some(f) => made = f(op, &mut ev),
                    None => ev.st = "skip",
                },
            }
            if let Some(v) = made {
                unsafe { at.write(v) };
                live = true;
                let v = unsafe { &mut *at };
                env.ptr = v.as_ptr() as usize;
                env.observe(v, &mut ev);
            } else {
                env.observe_env(&mut ev);
                ev.it = Some(Vec::new());
            }
            p.emit(op, ev);
            p.pc += 1;
            continue
        }

        let v = unsafe { &mut *at };
        env.ptr = v.as_ptr() as usize;
        match core(v, p, env) {
            Ctl::End => continue,
            Ctl::Outer => (),
        }
        let op = p.ops[p.pc].clone();
        let op = &op;
        match op.name.as_str() {
            "drop" => {
                if let Err(st) = run(op, || unsafe { at.drop_in_place() }) {
                    ev.st = st;
                }
                gone!()
            }
            "forget" => gone!(),
            "raw_rt" => {
                let v = unsafe { at.read() };
                match run(op, || {
                    let (len, storage) = v.into_raw_parts();
                    unsafe { GenericVec::from_raw_parts(len, storage) }
                }) {
                    Ok(v) => unsafe { at.write(v) },
                    Err(st) => {
                        ev.st = st;
                        live = false
                    }
                }
                if live {
                    env.observe(unsafe { &*at }, &mut ev)
                } else {
                    gone!()
                }
            }
            "clone" | "clone_swap" if caps.clone.is_some() => {
                let f = caps.clone.unwrap();
                match run(op, || f(&*v)) {
                    Ok(w) => {
                        ev.n = clamp(w.capacity());
                        ev.ret = ids(&w);
                        if op.name == "clone" {
                            discard_vec(w);
                        } else {
                            // the original is dropped
                            let w = ManuallyDrop::new(w);
                            let mut counts = alloc::counts();
                            if let Err(st) = run(op, || unsafe { at.drop_in_place() }) {
                                ev.st = st;
                            }
                            counts.bad += alloc::counts().bad;
                            ev.bad += counts.bad as i64;
                            unsafe { at.write(ManuallyDrop::into_inner(w)) }
                        }
                    }
                    Err(st) => ev.st = st,
                }
                env.ptr = v.as_ptr() as usize;
                env.observe(v, &mut ev);
            }
            // Clone::clone_from of another vector of the same type
            "clone_from_vec" if caps.clone_from.is_some() => {
                let f = caps.clone_from.unwrap();
                let cap = v.capacity();
                let mut scratch = Env::new();
                let keys = op.keys(0);
                match run(op, || make(&mut scratch, keys.len().max(cap.min(64)))) {
                    Ok(mut w) => {
                        for &k in keys {
                            let x = T::new(k);
                            let _ = run(op, || drop(w.try_push(x)));
                        }
                        if w.len() == keys.len() {
                            if let Err(st) = run(op, || f(v, &w)) {
                                ev.st = st;
                            }
                        } else {
                            ev.st = "skip"
                        }
                        discard_vec(w);
                    }
                    Err(_) => ev.st = "skip",
                }
                for f in scratch.cleanup {
                    f()
                }
                env.observe(v, &mut ev);
            }
            // comparison with another vector of the same type
            "cmpv" => {
                let mut scratch = Env::new();
                let old = std::mem::replace(&mut log().recording, false);
                let keys = op.keys(0);
                let cap = v.capacity();
                match run(op, || make(&mut scratch, keys.len().max(cap.min(64)))) {
                    Ok(mut w) => {
                        for &k in keys {
                            if w.is_full() {
                                break
                            }
                            let x = T::make(8_000_000 + k);
                            let _ = run(op, || drop(w.try_push(x)));
                        }
                        if w.len() == keys.len() {
                            ev.vw = vec![
                                ord(Some((*v).cmp(&w))),
                                ord(Some(w.cmp(v))),
                                ord((*v).partial_cmp(&w)),
                                (*v == w) as i64,
                                (hash_of(v) == hash_of(&w)) as i64,
                                (*v >= w) as i64,
                            ];
                        } else {
                            ev.st = "skip"
                        }
                        discard_vec(w);
                    }
                    Err(_) => ev.st = "skip",
                }
                log().calls.clear();
                log().recording = old;
                for f in scratch.cleanup {
                    f()
                }
                env.observe(v, &mut ev);
            }
            "set_len" if caps.set_len.is_some() => {
                let f = caps.set_len.unwrap();
                if let Err(st) = run(op, || f(v, op.us(0))) {
                    ev.st = st;
                }
                env.observe(v, &mut ev);
            }
            "convert" => {
                let v = unsafe { at.read() };
                macro_rules! with {
                    ($b:ty) => {
                        convert_to::<T, S, $b>(v, op, &mut ev)
                    };
                }
                let t = op.a[0];
                if target::<T>(t) {
                    crate::targets!(t, T, with, T::convert(v, op, &mut ev));
                    gone!()
                } else {
                    ev.st = "skip";
                    std::mem::forget(v);
                    env.observe(unsafe { &*at }, &mut ev);
                }
            }
            "into_iter" => {
                let v = unsafe { at.read() };
                match run(op, || v.into_iter()) {
                    Ok(it) => {
                        p.pc += 1;
                        live = false;
                        views::iter(it, op, &mut ev, p, env, |i, op| {
                            // set the key of an element
                            if op.name == "v_touch" {
                                if let Some(x) = i.as_mut_slice().get_mut(op.us(0)) {
                                    x.set_key(op.a[1])
                                }
                            }
                            let mut all = vec![views::exact(i)];
                            all.extend(ids(i.as_slice()));
                            all
                        });
                        let op = p.ops[p.pc - 1].clone();
                        env.observe_env(&mut ev);
                        ev.it = Some(Vec::new());
                        p.emit(&op, ev);
                        continue
                    }
                    Err(st) => {
                        ev.st = st;
                        gone!()
                    }
                }
            }
            _ => match caps.consume {
                Some(f) => {
                    let v = unsafe { at.read() };
                    match f(v, op, &mut ev) {
                        Some(v) => {
                            unsafe { at.write(v) };
                            env.observe(unsafe { &*at }, &mut ev);
                        }
                        None => gone!(),
                    }
                }
                None => {
                    ev.st = "skip";
                    env.observe(v, &mut ev);
                }
            },
        }
        p.emit(op, ev);
        p.pc += 1;
    }
    fin(p, env);
    drop(slot);
}

/// The end of a script: the guards, and what is left of the heap
fn fin<T: Elem>(p: &mut Prog, env: &mut Env<T>) {
    let op = Op::parse("fin");
    let mut ev = Ev::new();
    env.buffer = None;
    // storages that outlive the vector are released here, as the allocator observes
    let _ = run(&op, || {
        while let Some(f) = env.cleanup.pop() {
            f()
        }
    });
    env.guards.clear();
    ev.it = Some(Vec::new());
    ev.bi = Some(Vec::new());
    ev.bad += alloc::damaged() as i64;
    ev.n = alloc::reset() as i64;
    p.emit(&op, ev);
}

fn arena_vec<T: Elem>(env: &mut Env<T>, cap: usize) -> SliceVec<'static, T> {
    let (buf, guards) = arena::<T>(cap, &mut env.cleanup);
    let old = alloc::suspend();
    env.guards.extend(guards);
    env.buffer = Some((buf as *mut u8 as usize, cap * size_of::<T>()));
    alloc::resume(old);
    let (len, ptr) = (cap, buf as *mut u8);
    let buf = UninitSlice::from_mut(unsafe { &mut *buf });
    let back = unsafe { buf.to_mut() };
    assert!(back.len() == len && back.as_mut_ptr() as *mut u8 == ptr);
    SliceVec::new(back)
}

#[cfg(feature = "alloc")]
fn heap_create<T: Elem>(op: &Op, ev: &mut Ev) -> Option<V<T, Heap<T>>> {
    match op.name.as_str() {
        // From<Vec<T>>: capacity, keys
        "from_vec" => {
            let cap = op.us(0).max(op.a.len() - 1);
            let mut w: Vec<T> = run(op, || Vec::with_capacity(cap)).ok().unwrap();
            for &k in op.keys(1) {
                w.push(T::new(k));
            }
            let (ptr, cap) = (w.as_ptr() as usize, w.capacity());
            match run(op, || V::<T, Heap<T>>::from(w)) {
                Ok(v) => {
                    if v.as_ptr() as usize != ptr || (size_of::<T>() != 0 && v.capacity() != cap) {
                        ev.bad += 1;
                    }
                    Some(v)
                }
                Err(st) => {
                    ev.st = st;
                    None
                }
            }
        }
        _ => create_gvec(op, ev),
    }
}

#[cfg(feature = "alloc")]
fn heap_consume<T: Elem>(v: V<T, Heap<T>>, op: &Op, ev: &mut Ev) -> Option<V<T, Heap<T>>> {
    match op.name.as_str() {
        // to a Vec, which grows by some elements, and back
        "vec_rt" => {
            let (ptr, len, cap) = (v.as_ptr() as usize, v.len(), v.capacity());
            match run(op, || {
                let mut w: Vec<T> = v.into();
                if w.as_ptr() as usize != ptr || w.len() != len || (size_of::<T>() != 0 && w.capacity() != cap) {
                    ev.bad += 1;
                }
                for &k in op.keys(0) {
                    w.push(T::new(k));
                }
                V::<T, Heap<T>>::from(w)
            }) {
                Ok(v) => Some(v),
                Err(st) => {
                    ev.st = st;
                    None
                }
            }
        }
        // the Vec is dropped
        "to_vec" => {
            match run(op, || {
                let w: Vec<T> = v.into();
                w
            }) {
                Ok(w) => {
                    ev.ret = ids(&w);
                    if let Err(st) = run(op, || drop(w)) {
                        ev.st = st
                    }
                }
                Err(st) => ev.st = st,
            }
            None
        }
        // Heap::into_raw_parts and from_raw_parts
        "heap_rt" => match run(op, || {
            let (len, heap) = v.into_raw_parts();
            let (ptr, cap) = heap.into_raw_parts();
            unsafe { V::<T, Heap<T>>::from_raw_parts(len, Heap::from_raw_parts(ptr, cap)) }
        }) {
            Ok(v) => Some(v),
            Err(st) => {
                ev.st = st;
                None
            }
        },
        _ => {
            ev.st = "skip";
            Some(v)
        }
    }
}

#[cfg(feature = "alloc")]
fn heap_caps<T: Elem>() -> Caps<T, Heap<T>> {
    Caps {
        new: Some(generic_vec::HeapVec::<T>::new),
        create: Some(heap_create),
        consume: Some(heap_consume),
        ..Caps::sized()
    }
}

/// A heap vector with its own allocator
#[cfg(all(feature = "nightly", feature = "alloc"))]
mod heapa {
    use super::*;
    use crate::alloc::own::Own as A;

    type H<T> = Heap<T, A>;

    fn create<T: Elem>(op: &Op, ev: &mut Ev) -> Option<V<T, H<T>>> {
        if op.name != "from_vec" {
            return create_gvec(op, ev)
        }
        let cap = op.us(0).max(op.a.len() - 1);
        let mut w: Vec<T, A> = run(op, || Vec::with_capacity_in(cap, A::default())).ok().unwrap();
        for &k in op.keys(1) {
            w.push(T::new(k));
        }
        let (ptr, cap) = (w.as_ptr() as usize, w.capacity());
        match run(op, || V::<T, H<T>>::from(w)) {
            Ok(v) => {
                if v.as_ptr() as usize != ptr || (size_of::<T>() != 0 && v.capacity() != cap) {
                    ev.bad += 1;
                }
                Some(v)
            }
            Err(st) => {
                ev.st = st;
                None
            }
        }
    }

    fn consume<T: Elem>(v: V<T, H<T>>, op: &Op, ev: &mut Ev) -> Option<V<T, H<T>>> {
        let (ptr, len, cap) = (v.as_ptr() as usize, v.len(), v.capacity());
        let mut bad = 0;
        let r = match op.name.as_str() {
            "vec_rt" => run(op, || {
                let mut w: Vec<T, A> = v.into();
                if w.as_ptr() as usize != ptr || w.len() != len || (size_of::<T>() != 0 && w.capacity() != cap) {
                    bad += 1;
                }
                for &k in op.keys(0) {
                    w.push(T::new(k));
                }
                Some(V::<T, H<T>>::from(w))
            }),
            "to_vec" => run(op, || Vec::<T, A>::from(v)).and_then(|w| {
                ev.ret = ids(&w);
                run(op, || drop(w)).map(|_| None)
            }),
            "heap_rt" => run(op, || {
                let (len, heap) = v.into_raw_parts();
                let (ptr, cap, a) = heap.into_raw_parts_with_alloc();
                Some(unsafe { V::<T, H<T>>::from_raw_parts(len, Heap::from_raw_parts_in(ptr, cap, a)) })
            }),
            _ => {
                ev.st = "skip";
                return Some(v)
            }
        };
        ev.bad += bad;
        match r {
            Ok(v) => v,
            Err(st) => {
                ev.st = st;
                None
            }
        }
    }

    pub fn go<T: Elem>(p: &mut Prog, env: &mut Env<T>) {
        let caps = Caps {
            new: Some(|| generic_vec::HeapVec::with_alloc(A::default())),
            create: Some(create),
            consume: Some(consume),
            ..Caps::sized()
        };
        drive::<T, H<T>>(p, env, &mut |_, cap| GenericVec::with_capacity(cap), caps)
    }
}

#[cfg(feature = "nightly")]
mod arr {
    use super::*;
    pub fn create<T: Elem, const N: usize>(op: &Op, ev: &mut Ev) -> Option<V<T, UninitBuffer<[T; N], T>>>
    where
        UninitBuffer<[T; N], T>: StorageWithCapacity<T>,
    {
        match op.name.as_str() {
            "from_arr" if op.a.len() == N + 1 => {
                let x: [T; N] = unsafe {
                    let mut x = MaybeUninit::<[T; N]>::uninit();
                    let p = x.as_mut_ptr() as *mut T;
                    for i in 0..N {
                        p.add(i).write(T::new(op.a[i + 1]));
                    }
                    x.assume_init()
                };
                let into = op.a[0] == 1;
                match run(op, || generic_vec::ArrayVec::<T, N>::from(x)) {
                    Ok(v) => {
                        let _ = into;
                        Some(unsafe { retype(v) })
                    }
                    Err(st) => {
                        ev.st = st;
                        None
                    }
                }
            }
            _ => create_gvec(op, ev),
        }
    }
    pub fn create_init<const N: usize>(op: &Op, ev: &mut Ev) -> Option<V<Cp, [Cp; N]>>
    where
        [Cp; N]: StorageWithCapacity<Cp>,
    {
        if op.name == "init_full" && op.a.len() == N + 1 {
            let mut x = [Cp::default(); N];
            for i in 0..N {
                x[i] = Cp::new(op.a[i + 1]);
            }
            return run(op, || generic_vec::InitArrayVec::<Cp, N>::new(x)).ok()
        }
        create_gvec(op, ev)
    }
    pub fn consume<T: Elem, const N: usize>(
        v: V<T, UninitBuffer<[T; N], T>>,
        op: &Op,
        ev: &mut Ev,
    ) -> Option<V<T, UninitBuffer<[T; N], T>>> {
        match op.name.as_str() {
            "into_arr" => {
                let v: generic_vec::ArrayVec<T, N> = unsafe { retype(v) };
                match run(op, || v.into_array()) {
                    Ok(x) => {
                        ev.ret = ids(&x);
                        let old = std::mem::replace(&mut log().recording, false);
                        drop(x);
                        log().recording = old;
                    }
                    Err(st) => ev.st = st,
                }
                None
            }
            _ => {
                ev.st = "skip";
                Some(v)
            }
        }
    }
    // ArrayVec<T, N> = TypeVec<T, [T; N]> = GenericVec<T, UninitBuffer<[T; N], T>>
    unsafe fn retype<A, B>(a: A) -> B {
        assert!(size_of::<A>() == size_of::<B>());
        let a = ManuallyDrop::new(a);
        (&a as *const ManuallyDrop<A> as *const B).read()
    }
}

/// Vectors in buffers that were created from arrays
fn buffer_create<T: Elem, const N: usize>(op: &Op, ev: &mut Ev) -> Option<V<T, UninitBuffer<[T; N], T>>> {
    if op.a.len() != N + 1 {
        ev.st = "skip";
        return None
    }
    let x: [T; N] = unsafe {
        let mut x = MaybeUninit::<[T; N]>::uninit();
        let p = x.as_mut_ptr() as *mut T;
        for i in 0..N {
            p.add(i).write(T::new(op.a[i + 1]));
        }
        x.assume_init()
    };
    match run(op, || {
        let buf = UninitBuffer::<[T; N], T>::new(x);
        // clones are not initialized, and drop nothing
        drop(buf.clone());
        unsafe { V::<T, UninitBuffer<[T; N], T>>::from_raw_parts(N, buf) }
    }) {
        Ok(v) => {
            if UninitBuffer::<[T; N], T>::capacity::<T>() != <UninitBuffer<[T; N], T> as Storage<T>>::capacity(v.storage()) {
                ev.bad += 1;
            }
            Some(v)
        }
        Err(st) => {
            ev.st = st;
            None
        }
    }
}

macro_rules! array_caps {
    ($T:ty, $n:expr) => {
        #[allow(unused_mut)]
        {
            let mut caps = Caps::<$T, UninitBuffer<[$T; $n], $T>>::sized();
            caps.create = Some(|op, ev| match op.name.as_str() {
                "init_full" => buffer_create::<$T, $n>(op, ev),
                _ => create_gvec(op, ev),
            });
            caps.new = Some(generic_vec::TypeVec::<$T, [$T; $n], $T>::new);
            #[cfg(feature = "nightly")]
            {
                caps.create = Some(|op, ev| match op.name.as_str() {
                    "init_full" => buffer_create::<$T, $n>(op, ev),
                    _ => arr::create::<$T, $n>(op, ev),
                });
                caps.consume = Some(arr::consume::<$T, $n>);
            }
            caps
        }
    };
}

/// a user defined storage that grows by exactly what is needed, up to a limit
pub struct User<T> {
    buf: Vec<MaybeUninit<T>>,
}
const USER_LIMIT: usize = 9;

impl<T> User<T> {
    fn with(cap: usize) -> Self {
        let mut user = User { buf: Vec::new() };
        user.set(cap);
        user
    }
    fn set(&mut self, cap: usize) {
        assert!(cap <= USER_LIMIT, "too large");
        // always moves
        let mut buf: Vec<MaybeUninit<T>> = Vec::with_capacity(cap);
        unsafe {
            buf.set_len(cap);
            let n = self.buf.len().min(cap);
            std::ptr::copy_nonoverlapping(self.buf.as_ptr(), buf.as_mut_ptr(), n);
        }
        self.buf = buf;
    }
}
impl<T> Default for User<T> {
    fn default() -> Self { User::with(0) }
}
unsafe impl<T> Storage<T> for User<T> {
    const IS_ALIGNED: bool = true;
    fn capacity(&self) -> usize { self.buf.len() }
    fn as_ptr(&self) -> *const T { self.buf.as_ptr() as _ }
    fn as_mut_ptr(&mut self) -> *mut T { self.buf.as_mut_ptr() as _ }
    fn reserve(&mut self, cap: usize) {
        if cap > self.buf.len() {
            self.set(cap)
        }
    }
    fn try_reserve(&mut self, cap: usize) -> bool {
        if cap > USER_LIMIT {
            return false
        }
        self.reserve(cap);
        true
    }
}
unsafe impl<T> StorageWithCapacity<T> for User<T> {
    fn with_capacity(cap: usize) -> Self { User::with(cap) }
}

/// an item that is larger and at least as aligned as the elements
#[derive(Clone, Copy)]
#[repr(C, align(32))]
pub struct Chunk([u8; 64]);

fn foreign<T: Elem, S: StorageWithCapacity<T> + 'static>(p: &mut Prog, env: &mut Env<T>) {
    drive::<T, S>(p, env, &mut |_, cap| V::<T, S>::with_capacity(cap), Caps::sized())
}

fn foreign_slice<T: Elem, U: 'static>(p: &mut Prog, env: &mut Env<T>) {
    drive::<T, &'static mut UninitSlice<U>>(
        p,
        env,
        &mut |env, items| {
            let (buf, guards) = arena::<U>(items, &mut env.cleanup);
            let old = alloc::suspend();
            env.guards.extend(guards);
            env.buffer = Some((buf as *mut u8 as usize, items * size_of::<U>()));
            alloc::resume(old);
            GenericVec::with_storage(UninitSlice::from_mut(unsafe { &mut *buf }))
        },
        Caps::none(),
    )
}

/// the first argument of the first operation
fn first(p: &Prog) -> i64 { p.ops.iter().find(|o| o.name != "initb").and_then(|o| o.a.get(0)).copied().unwrap_or(0) }

fn array_size(p: &Prog) -> usize {
    let op = match p.ops.get(0) {
        Some(op) => op,
        None => return 4,
    };
    match op.name.as_str() {
        "from_arr" => op.a.len() - 1,
        "init" | "init_full" => op.a[0] as usize,
        _ => 4,
    }
}

pub fn any<T: Elem>(host: &str, p: &mut Prog) -> bool {
    let env = &mut Env::<T>::new();
    let _ = first(p);
    macro_rules! arrays {
        ($m:ident: $($n:tt)*) => {
            match array_size(p) {
                $($n => $m!($n),)*
                _ => return false,
            }
        };
    }
    match host {
        "slice" => drive(p, env, &mut |env, cap| arena_vec::<T>(env, cap), Caps::none()),
        #[cfg(feature = "alloc")]
        "heap" => drive(p, env, &mut |_, cap| V::<T, Heap<T>>::with_capacity(cap), heap_caps()),
        "arr" => {
            macro_rules! go {
                ($n:expr) => {
                    drive(
                        p,
                        env,
                        &mut |_, _| V::<T, UninitBuffer<[T; $n], T>>::with_capacity($n),
                        array_caps!(T, $n),
                    )
                };
            }
            #[cfg(not(feature = "nightly"))]
            arrays!(go: 0 1 2 3 4 6);
            #[cfg(feature = "nightly")]
            arrays!(go: 0 3 4)
        }
        _ => return false,
    }
    true
}

/// hosts that are only used with some kinds of elements
pub fn more<T: Elem>(host: &str, p: &mut Prog) -> bool {
    let env = &mut Env::<T>::new();
    match host {
        "user" => foreign::<T, User<T>>(p, env),
        #[cfg(feature = "alloc")]
        "fheap64" => foreign::<T, Heap<Chunk>>(p, env),
        #[cfg(all(feature = "nightly", feature = "alloc"))]
        "heapa" => heapa::go(p, env),
        _ => return rest::<T>(host, p, env),
    }
    true
}

fn rest<T: Elem>(host: &str, p: &mut Prog, env: &mut Env<T>) -> bool {
    match host {
        #[cfg(feature = "alloc")]
        "box" => match array_size(p) {
            3 => foreign::<T, Box<UninitBuffer<[T; 3], T>>>(p, env),
            4 => foreign::<T, Box<UninitBuffer<[T; 4], T>>>(p, env),
            _ => return false,
        },
        #[cfg(feature = "alloc")]
        "boxslice" => drive::<T, Box<UninitSlice<T>>>(
            p,
            env,
            &mut |_, cap| {
                let mut b: Vec<MaybeUninit<T>> = Vec::with_capacity(cap);
                unsafe {
                    b.set_len(cap);
                    let b = Box::into_raw(b.into_boxed_slice());
                    GenericVec::with_storage(Box::from_raw(b as *mut UninitSlice<T>))
                }
            },
            Caps::none(),
        ),
        #[cfg(feature = "alloc")]
        "refheap" => drive::<T, &'static mut Heap<T>>(
            p,
            env,
            &mut |env, cap| {
                let heap: Heap<T> = StorageWithCapacity::<T>::with_capacity(cap);
                let old = alloc::suspend();
                let heap = Box::into_raw(Box::new(heap));
                env.cleanup.push(Box::new(move || unsafe {
                    heap.drop_in_place();
                    std::alloc::dealloc(heap as *mut u8, std::alloc::Layout::new::<Heap<T>>());
                }));
                alloc::resume(old);
                GenericVec::with_storage(unsafe { &mut *heap })
            },
            Caps::none(),
        ),
        // storages of other items
        #[cfg(feature = "alloc")]
        "fheap8" => foreign::<T, Heap<u64>>(p, env),
        #[cfg(feature = "alloc")]
        "fheap0" => foreign::<T, Heap<[u64; 0]>>(p, env),
        "fslice0" => foreign_slice::<T, [u64; 0]>(p, env),
        "fslice8" => foreign_slice::<T, u64>(p, env),
        "fslice64" => foreign_slice::<T, Chunk>(p, env),
        "fslice1" => foreign_slice::<T, u8>(p, env),
        "farr" => match array_size(p) {
            0 => foreign::<T, UninitBuffer<[u8; 23], u64>>(p, env),
            1 => foreign::<T, UninitBuffer<[u64; 5], u64>>(p, env),
            2 => foreign::<T, UninitBuffer<[u8; 50], T>>(p, env),
            3 => foreign::<T, UninitBuffer<[u64; 13], T>>(p, env),
            4 => foreign::<T, UninitBuffer<[u8; 96], u8>>(p, env),
            5 => drive(p, env, &mut |_, _| V::<T, UninitBuffer<[u8; 49], u16>>::with_capacity(0), Caps::sized()),
            6 => drive(p, env, &mut |_, _| V::<T, UninitBuffer<[u64; 0], u64>>::with_capacity(0), Caps::sized()),
            _ => return false,
        },
        _ => return false,
    }
    true
}

/// hosts for initialized storages
pub fn copy(host: &str, p: &mut Prog) -> bool {
    let env = &mut Env::<Cp>::new();
    match host {
        "iarr" => {
            macro_rules! go {
                ($n:expr) => {{
                    #[allow(unused_mut)]
                    let mut caps = Caps { set_len: Some(|v, n| v.set_len(n)), ..Caps::<Cp, [Cp; $n]>::sized() };
                    #[cfg(feature = "nightly")]
                    {
                        caps.create = Some(arr::create_init::<$n>);
                    }
                    drive::<Cp, [Cp; $n]>(p, env, &mut |_, _| GenericVec::with_storage([Cp::default(); $n]), caps)
                }};
            }
            match init_size(p) {
                0 => go!(0),
                4 => go!(4),
                #[cfg(not(feature = "nightly"))]
                1 => go!(1),
                #[cfg(not(feature = "nightly"))]
                2 => go!(2),
                #[cfg(not(feature = "nightly"))]
                3 => go!(3),
                #[cfg(not(feature = "nightly"))]
                6 => go!(6),
                _ => return false,
            }
        }
        "islice" | "ibox" => {
            fn full(cap: usize, keys: &[i64]) -> Vec<Cp> {
                let mut w = vec![Cp::default(); cap];
                for (i, &k) in keys.iter().enumerate().take(cap) {
                    w[i] = Cp::new(k);
                }
                w
            }
            #[cfg(feature = "alloc")]
            {
                if host == "ibox" {
                    drive::<Cp, Box<[Cp]>>(
                        p,
                        env,
                        &mut |_, cap| GenericVec::with_storage(full(cap, &[]).into_boxed_slice()),
                        Caps { set_len: Some(|v, n| v.set_len(n)), ..Caps::none() },
                    );
                    return true
                }
            }
            if host == "islice" {
                let op = p.ops[0].clone();
                drive::<Cp, &'static mut [Cp]>(
                    p,
                    env,
                    &mut |env, cap| {
                        let (buf, guards) = arena::<Cp>(cap, &mut env.cleanup);
                        let old = alloc::suspend();
                        env.guards.extend(guards);
                        let keys = if op.name == "init_full" { op.keys(1) } else { &[] };
                        let w = full(cap, keys);
                        unsafe { std::ptr::copy_nonoverlapping(w.as_ptr(), buf as *mut Cp, cap) };
                        drop(w);
                        alloc::resume(old);
                        let mut v = GenericVec::<Cp, &'static mut [Cp]>::new(unsafe { &mut *(buf as *mut [Cp]) });
                        if op.name != "init_full" {
                            v.set_len(0);
                        }
                        v
                    },
                    Caps { full: true, set_len: Some(|v, n| v.set_len(n)), ..Caps::none() },
                )
            } else {
                return false
            }
        }
        _ => return false,
    }
    true
}

fn init_size(p: &Prog) -> usize {
    match p.ops.get(0) {
        Some(op) if op.name == "init" || op.name == "init_full" => op.a[0] as usize,
        _ => 4,
    }
}

pub fn zs<Z: Elem>(host: &str, p: &mut Prog) -> bool {
    let env = &mut Env::<Z>::new();
    match host {
        "zs" => drive::<Z, ZeroSized<Z>>(
            p,
            env,
            &mut |_, cap| GenericVec::with_capacity(cap),
            Caps { new: Some(generic_vec::ZSVec::<Z>::new), ..Caps::sized() },
        ),
        _ => return false,
    }
    true
}

pub fn zst<Z: Elem>(host: &str, p: &mut Prog) -> bool {
    match host {
        // its capacity is limited
        "user" => false,
        _ => zs::<Z>(host, p) || more::<Z>(host, p),
    }
}
