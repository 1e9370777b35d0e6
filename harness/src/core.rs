//! The interpreter of scripts, for every storage.
use crate::{
    alloc,
    elem::{callback_fault, discard, ids, key, log, Elem},
    prog::{clamp, run, Ev, Op, Prog},
    views,
};
#[cfg(feature = "alloc")]
use generic_vec::HeapVec;
use generic_vec::{
    raw::{Storage, StorageWithCapacity, UninitSlice},
    GenericVec, SliceVec,
};
use std::{
    borrow::{Borrow, BorrowMut},
    cmp::Ordering,
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
    mem::{size_of, ManuallyDrop},
    ops::Bound,
};

pub const GUARD: u8 = 0xA5;

/// A second vector, for operations on two of them
pub enum Peer<T: Elem> {
    None,
    Slice(SliceVec<'static, T>),
    #[cfg(feature = "alloc")]
    Heap(HeapVec<T>),
}

pub struct Env<T: Elem> {
    pub peer: Peer<T>,
    /// last seen position of the buffer
    pub ptr: usize,
    /// memory that must stay filled with GUARD
    pub guards: Vec<(usize, usize)>,
    /// the underlying buffer
    pub buffer: Option<(usize, usize)>,
    pub cleanup: Vec<Box<dyn FnOnce()>>,
}

/// a vector and its storage agree
fn raw<T: Elem, S: ?Sized + Storage<T>>(v: &mut GenericVec<T, S>, ev: &mut Ev) {
    let (p, q, cap) = (v.as_ptr() as usize, v.as_mut_ptr() as usize, v.capacity());
    let s = unsafe { v.storage_mut() };
    if p != q || s.as_ptr() as usize != p || s.as_mut_ptr() as usize != p || (size_of::<T>() != 0 && s.capacity() != cap) {
        ev.bad += 1
    }
}

impl<T: Elem> Env<T> {
    pub fn new() -> Self {
        Env { peer: Peer::None, ptr: 0, guards: Vec::new(), buffer: None, cleanup: Vec::new() }
    }

    pub fn observe_env(&self, ev: &mut Ev) {
        for &(p, n) in &self.guards {
            if (0..n).any(|i| unsafe { std::ptr::read_volatile((p + i) as *const u8) } != GUARD) {
                ev.bad += 1;
            }
        }
        if let Some((p, n)) = self.buffer {
            let last = (0..n).rev().find(|&i| unsafe { std::ptr::read_volatile((p + i) as *const u8) } != GUARD);
            if size_of::<T>() != 0 {
                ev.hw = last.map_or(0, |i| (i / size_of::<T>() + 1) as i64);
            }
        }
        match &self.peer {
            Peer::None => ev.bi = Some(Vec::new()),
            Peer::Slice(v) => {
                ev.bi = Some(ids(v));
                ev.bc = clamp(v.capacity());
            }
            #[cfg(feature = "alloc")]
            Peer::Heap(v) => {
                ev.bi = Some(ids(v));
                ev.bc = clamp(v.capacity());
            }
        }
    }

    pub fn observe<S: ?Sized + Storage<T>>(&mut self, v: &GenericVec<T, S>, ev: &mut Ev) {
        self.observe_env(ev);
        ev.it = Some(ids(v));
        ev.cap = clamp(v.capacity());
        if v.as_slice().len() != v.len()
            || v.is_empty() != (v.len() == 0)
            || v.is_full() != (v.len() == v.capacity())
            || v.remaining_capacity() != v.capacity() - v.len()
        {
            ev.bad += 1;
        }
        let ptr = v.as_ptr() as usize;
        if ptr % std::mem::align_of::<T>() != 0 {
            ev.bad += 1;
        }
        if ptr != self.ptr {
            ev.mv = 1;
        }
        self.ptr = ptr;
        if size_of::<T>() != 0 {
            ev.room = alloc::room(ptr).map_or(-1, |b| (b / size_of::<T>()) as i64);
        }
    }
}

pub fn bounds(a: &[i64]) -> (Bound<usize>, Bound<usize>) {
    let f = |k: i64, x: i64| match k {
        0 => Bound::Unbounded,
        1 => Bound::Included(crate::prog::big(x)),
        _ => Bound::Excluded(crate::prog::big(x)),
    };
    (f(a[0], a[1]), f(a[2], a[3]))
}

/// A predicate. mode bit 0: decide by the element's key (0) or by the number of the call (1) as bit in the mask;
/// mode bit 1: increment the element's key
pub struct Pred {
    pub mode: i64,
    pub mask: i64,
    pub n: i64,
}

impl Pred {
    pub fn new(mode: i64, mask: i64) -> Self { Pred { mode, mask, n: 0 } }
    pub fn test<T: Elem>(&mut self, x: &mut T) -> bool {
        let id = x.id();
        if id < 0 {
            log().garbage += 1;
        }
        log().call(id);
        callback_fault();
        let bit = if self.mode & 1 == 0 { key(id) } else { self.n % 30 };
        self.n += 1;
        if self.mode & 2 != 0 {
            x.set_key((key(id) + 1) % 8);
        }
        self.mask >> bit & 1 == 1
    }
    /// relation between two elements
    pub fn rel<T: Elem>(&mut self, a: &mut T, b: &mut T) -> bool {
        let (i, j) = (a.id(), b.id());
        if i < 0 || j < 0 {
            log().garbage += 1;
        }
        log().call(i);
        log().call(j);
        callback_fault();
        let (x, y) = (key(i), key(j));
        let n = self.n % 30;
        self.n += 1;
        match self.mode {
            0 => x == y,
            1 => self.mask >> n & 1 == 1,
            2 => x > y,
            3 => x == y + 1,
            _ => x / 2 == y / 2,
        }
    }
}

/// A source of new elements that logs how it is used. After its end it would yield further elements.
pub struct Source<'a, T> {
    pub keys: &'a [i64],
    pub pos: usize,
    /// how wrong the size hint is
    pub hint: i64,
    pub mark: std::marker::PhantomData<T>,
}

impl<'a, T> Source<'a, T> {
    pub fn new(keys: &'a [i64], hint: i64) -> Self { Source { keys, pos: 0, hint, mark: std::marker::PhantomData } }
}

pub fn hint(mode: i64, n: usize) -> (usize, Option<usize>) {
    match mode {
        0 => (n, Some(n)),
        1 => (0, None),
        2 => (n + 3, None),
        3 => (usize::MAX, None),
        5 => (n + 3, Some(n + 3)),
        _ => (n.saturating_sub(1), Some(n.saturating_sub(1))),
    }
}

impl<T: Elem> Iterator for Source<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let end = self.pos == self.keys.len();
        log().call(!end as i64);
        callback_fault();
        self.pos += 1;
        if end {
            None
        } else if self.pos > self.keys.len() {
            // polled again after the end
            Some(T::new(7))
        } else {
            Some(T::new(self.keys[self.pos - 1]))
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { hint(self.hint, self.keys.len().saturating_sub(self.pos)) }
}

struct RefSource<'a, T> {
    items: &'a [T],
    hint: i64,
}
impl<'a, T: Elem> Iterator for RefSource<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        log().call(!self.items.is_empty() as i64);
        callback_fault();
        let (x, rest) = self.items.split_first()?;
        self.items = rest;
        Some(x)
    }
    fn size_hint(&self) -> (usize, Option<usize>) { hint(self.hint, self.items.len()) }
}

/// Elements that the caller keeps
pub struct Kept<T: Elem>(pub Vec<T>);
impl<T: Elem> Kept<T> {
    pub fn new(keys: &[i64]) -> Self { Kept(keys.iter().map(|&k| T::new(k)).collect()) }
    /// not logged
    pub fn quiet(keys: &[i64]) -> Self { Kept(keys.iter().map(|&k| T::make(8_000_000 + k)).collect()) }
}
impl<T: Elem> Drop for Kept<T> {
    fn drop(&mut self) {
        let old = std::mem::replace(&mut log().recording, false);
        self.0.clear();
        log().recording = old;
    }
}

pub enum Ctl {
    /// the operation at the program counter is not for the interpreter of a borrowed vector
    Outer,
    End,
}

enum Done {
    Event,
    /// everything was already emitted
    Emitted,
    Outer,
}

fn take_back<T: Elem>(ev: &mut Ev, x: T) {
    ev.ret.push(x.id());
    discard(x);
}

fn reference<T: Elem, S: ?Sized + Storage<T>>(v: &GenericVec<T, S>, ev: &mut Ev, r: *mut T) {
    if size_of::<T>() != 0 {
        let d = (r as usize).wrapping_sub(v.as_ptr() as usize) / size_of::<T>();
        ev.rf = vec![clamp(d), if d < v.len() { v[d].id() } else { -1 }];
    }
}

pub fn hash_of<X: Hash + ?Sized>(x: &X) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn ord(o: Option<Ordering>) -> i64 {
    match o {
        Some(Ordering::Less) => -1,
        Some(Ordering::Equal) => 0,
        Some(Ordering::Greater) => 1,
        None => 2,
    }
}

pub fn core<T: Elem, S: ?Sized + Storage<T>>(v: &mut GenericVec<T, S>, p: &mut Prog, env: &mut Env<T>) -> Ctl {
    loop {
        let op = match p.peek() {
            None => return Ctl::End,
            Some(op) => op,
        };
        let mut ev = Ev::new();
        match step(v, &op, &mut ev, p, env) {
            Done::Event => {
                env.observe(v, &mut ev);
                p.emit(&op, ev);
                p.pc += 1;
            }
            Done::Emitted => (),
            Done::Outer => return Ctl::Outer,
        }
    }
}

fn step<T: Elem, S: ?Sized + Storage<T>>(
    v: &mut GenericVec<T, S>,
    op: &Op,
    ev: &mut Ev,
    p: &mut Prog,
    env: &mut Env<T>,
) -> Done {
    let a = &op.a;
    let len = v.len();
    let spare = v.remaining_capacity();

    macro_rules! unit {
        ($e:expr) => {
            if let Err(st) = run(op, || $e) {
                ev.st = st;
            }
        };
    }
    macro_rules! need {
        ($c:expr) => {
            if !$c {
                ev.st = "skip";
                return Done::Event
            }
        };
    }
    macro_rules! place {
        ($x:ident, $e:expr) => {{
            match run(op, move || $e as *mut T) {
                Ok(r) => reference(v, ev, r),
                Err(st) => ev.st = st,
            }
        }};
    }
    macro_rules! try_place {
        ($e:expr) => {
            match run(op, move || $e.map(|r| r as *mut T)) {
                Ok(Ok(r)) => reference(v, ev, r),
                Ok(Err(x)) => {
                    ev.st = "err";
                    take_back(ev, x)
                }
                Err(st) => ev.st = st,
            }
        };
    }
    macro_rules! take {
        ($e:expr) => {
            match run(op, || $e) {
                Ok(x) => take_back(ev, x),
                Err(st) => ev.st = st,
            }
        };
    }
    macro_rules! try_take {
        ($e:expr) => {
            match run(op, || $e) {
                Ok(Some(x)) => take_back(ev, x),
                Ok(None) => ev.st = "none",
                Err(st) => ev.st = st,
            }
        };
    }

    match op.name.as_str() {
        "state" => (),
        // single elements
        "push" => {
            let x = T::new(a[0]);
            let v = &mut *v;
            place!(x, v.push(x))
        }
        "push_u" => {
            need!(spare > 0);
            let x = T::new(a[0]);
            let v = &mut *v;
            place!(x, unsafe { v.push_unchecked(x) })
        }
        "try_push" => {
            let x = T::new(a[0]);
            let v = &mut *v;
            try_place!(v.try_push(x))
        }
        "insert" => {
            let x = T::new(a[1]);
            let v = &mut *v;
            place!(x, v.insert(op.us(0), x))
        }
        "insert_u" => {
            need!(spare > 0 && op.us(0) <= len);
            let x = T::new(a[1]);
            let v = &mut *v;
            place!(x, unsafe { v.insert_unchecked(op.us(0), x) })
        }
        "try_insert" => {
            let x = T::new(a[1]);
            let v = &mut *v;
            try_place!(v.try_insert(op.us(0), x))
        }
        "pop" => take!(v.pop()),
        "pop_u" => {
            need!(len > 0);
            take!(unsafe { v.pop_unchecked() })
        }
        "try_pop" => try_take!(v.try_pop()),
        "remove" => take!(v.remove(op.us(0))),
        "remove_u" => {
            need!(op.us(0) < len);
            take!(unsafe { v.remove_unchecked(op.us(0)) })
        }
        "try_remove" => try_take!(v.try_remove(op.us(0))),
        "swap_remove" => take!(v.swap_remove(op.us(0))),
        "swap_remove_u" => {
            need!(op.us(0) < len);
            take!(unsafe { v.swap_remove_unchecked(op.us(0)) })
        }
        "try_swap_remove" => try_take!(v.try_swap_remove(op.us(0))),
        "truncate" => unit!(v.truncate(op.us(0))),
        "clear" => unit!(v.clear()),

        // capacity
        "reserve" => unit!(v.reserve(op.us(0))),
        // of the storage itself
        "raw_reserve" => {
            unit!(unsafe { v.storage_mut() }.reserve(op.us(0)));
            raw(v, ev);
        }
        "raw_try" => {
            match run(op, || unsafe { v.storage_mut() }.try_reserve(op.us(0))) {
                Ok(b) => ev.n = b as i64,
                Err(st) => ev.st = st,
            }
            raw(v, ev);
        }
        "try_reserve" => match run(op, || v.try_reserve(op.us(0))) {
            Ok(b) => ev.n = b as i64,
            Err(st) => ev.st = st,
        },

        // bulk
        "grow" => {
            let x = T::new(a[1]);
            unit!(v.grow(op.us(0), x))
        }
        "resize" => {
            let x = T::new(a[1]);
            unit!(v.resize(op.us(0), x))
        }
        "grow_with" | "resize_with" => {
            let mut n = 0;
            let f = || {
                log().call(1);
                callback_fault();
                n += 1;
                T::new((a[1] + n - 1) % 8)
            };
            if op.name == "grow_with" {
                unit!(v.grow_with(op.us(0), f))
            } else {
                unit!(v.resize_with(op.us(0), f))
            }
        }
        "extend" => {
            let it = Source::<T>::new(op.keys(1), a[0]);
            unit!(v.extend(it))
        }
        "extend_ref" => {
            let items = Kept::<T>::new(op.keys(1));
            unit!(v.extend(RefSource { items: &items.0, hint: a[0] }))
        }
        "efs" => {
            let items = Kept::<T>::new(op.keys(0));
            unit!(v.extend_from_slice(&items.0))
        }
        "efs_u" => {
            need!(spare >= a.len());
            let items = Kept::<T>::new(op.keys(0));
            unit!(unsafe { v.extend_from_slice_unchecked(&items.0) });
            let mut items = ManuallyDrop::new(items);
            unsafe { items.0.set_len(0) };
            drop(ManuallyDrop::into_inner(items));
        }
        "clone_from" => {
            let items = Kept::<T>::new(op.keys(0));
            unit!(v.clone_from(&items.0))
        }
        "retain" => {
            let mut f = Pred::new(a[0], a[1]);
            unit!(v.retain(|x| f.test(x)))
        }
        "dedup" => unit!(v.dedup::<(), ()>()),
        "dedup_by" => {
            let mut f = Pred::new(a[0], a[1]);
            unit!(v.dedup_by(|x, y| f.rel(x, y)))
        }
        "dedup_key" => unit!(v.dedup_by_key(|x| {
            log().call(x.id());
            callback_fault();
            key(x.id()) / 2
        })),

        // two vectors
        "initb" => {
            let cap = a[1] as usize;
            drop(std::mem::replace(&mut env.peer, Peer::None));
            #[allow(unused_mut)]
            let mut made = false;
            #[cfg(feature = "alloc")]
            {
                if a[0] == 1 {
                    let mut b = run(op, || HeapVec::<T>::with_capacity(cap)).ok().unwrap();
                    for &k in op.keys(2) {
                        let _ = run(op, || drop(b.push(T::new(k))));
                    }
                    env.peer = Peer::Heap(b);
                    made = true;
                }
            }
            if !made {
                if a[0] == 1 {
                    ev.st = "skip";
                    return Done::Event
                }
                let (buf, guards) = crate::hosts::arena::<T>(cap, &mut env.cleanup);
                env.guards.extend(guards);
                let mut b = GenericVec::with_storage(unsafe { UninitSlice::from_mut(&mut *buf) });
                for &k in op.keys(2) {
                    let _ = run(op, || drop(b.push(T::new(k))));
                }
                env.peer = Peer::Slice(b);
            }
        }
        "append" | "append_rev" | "split_into" => {
            macro_rules! with {
                ($b:expr) => {{
                    let b = $b;
                    match op.name.as_str() {
                        "append" => unit!(v.append(b)),
                        "append_rev" => unit!(b.append(v)),
                        _ => unit!(v.split_off_into(op.us(0), b)),
                    }
                }};
            }
            match &mut env.peer {
                Peer::None => ev.st = "skip",
                Peer::Slice(b) => with!(b),
                #[cfg(feature = "alloc")]
                Peer::Heap(b) => with!(b),
            }
        }
        "cmpb" => {
            macro_rules! with {
                ($b:expr) => {{
                    let b = $b;
                    ev.vw = vec![
                        (*v == *b) as i64,
                        (*b == *v) as i64,
                        ord((*v).partial_cmp(&*b)),
                        ord((*b).partial_cmp(&*v)),
                        (hash_of(v) == hash_of(b)) as i64,
                        (format!("{:?}", v) == format!("{:?}", b)) as i64,
                    ];
                }};
            }
            match &env.peer {
                Peer::None => ev.st = "skip",
                Peer::Slice(b) => with!(b),
                #[cfg(feature = "alloc")]
                Peer::Heap(b) => with!(b),
            }
            log().calls.clear();
        }
        "split_off" => {
            // a[1]: the new storage
            macro_rules! with {
                ($b:ty) => {
                    split_to::<T, S, $b>(v, op, ev)
                };
            }
            crate::targets!(a[1], T, with, T::split(v, op, ev))
        }

        // views
        "cursor" => {
            let c = match run(op, || v.cursor(bounds(a))) {
                Ok(c) => c,
                Err(st) => {
                    ev.st = st;
                    return Done::Event
                }
            };
            p.pc += 1;
            views::cursor(c, op, ev, p, env);
            let op = p.ops[p.pc - 1].clone();
            env.observe(v, ev);
            p.emit(&op, std::mem::take(ev));
            return Done::Emitted
        }
        "rcursor" => {
            let c = match run(op, || v.raw_cursor(bounds(a))) {
                Ok(c) => c,
                Err(st) => {
                    ev.st = st;
                    return Done::Event
                }
            };
            p.pc += 1;
            views::raw_cursor(c, op, ev, p, env);
            let op = p.ops[p.pc - 1].clone();
            env.observe(v, ev);
            p.emit(&op, std::mem::take(ev));
            return Done::Emitted
        }
        "drain" => {
            let c = match run(op, || v.drain(bounds(a))) {
                Ok(c) => c,
                Err(st) => {
                    ev.st = st;
                    return Done::Event
                }
            };
            p.pc += 1;
            views::iter(c, op, ev, p, env, |i, _| vec![views::exact(i)]);
            let op = p.ops[p.pc - 1].clone();
            env.observe(v, ev);
            p.emit(&op, std::mem::take(ev));
            return Done::Emitted
        }
        "dfilter" => {
            let mut f = Pred::new(a[4], a[5]);
            let c = match run(op, || v.drain_filter(bounds(a), move |x| f.test(x))) {
                Ok(c) => c,
                Err(st) => {
                    ev.st = st;
                    return Done::Event
                }
            };
            p.pc += 1;
            views::iter(c, op, ev, p, env, |_, _| Vec::new());
            let op = p.ops[p.pc - 1].clone();
            env.observe(v, ev);
            p.emit(&op, std::mem::take(ev));
            return Done::Emitted
        }
        "splice" => {
            let source = Source::<T>::new(op.keys(5), a[4]);
            let c = match run(op, || v.splice(bounds(a), source)) {
                Ok(c) => c,
                Err(st) => {
                    ev.st = st;
                    return Done::Event
                }
            };
            p.pc += 1;
            views::iter(c, op, ev, p, env, |i, _| vec![views::exact(i)]);
            let op = p.ops[p.pc - 1].clone();
            env.observe(v, ev);
            p.emit(&op, std::mem::take(ev));
            return Done::Emitted
        }
        "spare" => {
            let c = match run(op, || v.spare_capacity_mut()) {
                Ok(c) => c,
                Err(st) => {
                    ev.st = st;
                    return Done::Event
                }
            };
            p.pc += 1;
            let save = views::spare(c, op, ev, p, env).map(|c| {
                let mut c = ManuallyDrop::new(c);
                (c.as_mut_ptr() as *mut std::mem::MaybeUninit<T>, c.len(), c.capacity())
            });
            let op = p.ops[p.pc - 1].clone();
            if let Some((ptr, n, cap)) = save {
                // `save_spare!` wants both at once
                if let Err(st) = run(&op, || unsafe {
                    let mut spare = SliceVec::new(std::slice::from_raw_parts_mut(ptr, cap));
                    spare.set_len_unchecked(n);
                    generic_vec::save_spare!(spare, &mut *v);
                }) {
                    ev.st = st
                }
            }
            env.observe(v, ev);
            p.emit(&op, std::mem::take(ev));
            return Done::Emitted
        }

        // views and comparisons
        "views" => {
            let mut all = Vec::new();
            all.extend(ids(v.as_slice()));
            all.extend(ids(&**v));
            all.extend(ids(AsRef::<[T]>::as_ref(v)));
            all.extend(ids(Borrow::<[T]>::borrow(v)));
            all.extend(v.iter().map(|x| x.id()));
            all.extend((&*v).into_iter().map(|x| x.id()));
            all.extend(ids(&v[..]));
            all.extend((0..len).map(|i| v[i].id()));
            all.extend((0..len).map(|i| unsafe { (*v.as_ptr().add(i)).id() }));
            all.extend(ids(v.as_mut_slice()));
            all.extend(ids(AsMut::<[T]>::as_mut(v)));
            all.extend(ids(BorrowMut::<[T]>::borrow_mut(v)));
            all.extend((&mut *v).into_iter().map(|x| x.id()));
            all.extend(ids(&mut v[..]));
            let ptr = v.as_mut_ptr();
            all.extend((0..len).map(|i| unsafe { (*ptr.add(i)).id() }));
            ev.vw = all;
        }
        "set_at" => {
            let (i, way, k) = (op.us(0), a[1], a[2]);
            unit!(match way {
                0 => v[i].set_key(k),
                1 => v.as_mut_slice()[i].set_key(k),
                2 => AsMut::<[T]>::as_mut(v)[i].set_key(k),
                3 => BorrowMut::<[T]>::borrow_mut(v)[i].set_key(k),
                4 => v.iter_mut().nth(i).unwrap().set_key(k),
                5 => (&mut *v).into_iter().nth(i).unwrap().set_key(k),
                6 => {
                    assert!(i < v.len());
                    unsafe { (*v.as_mut_ptr().add(i)).set_key(k) }
                }
                _ => v[..][i].set_key(k),
            })
        }
        "index" => match run(op, || v[op.us(0)].id()) {
            Ok(id) => ev.n = id,
            Err(st) => ev.st = st,
        },
        "cmp" => {
            let o = Kept::<T>::quiet(op.keys(0));
            let o = &o.0;
            ev.vw = vec![
                (*v == **o) as i64,
                (*v != **o) as i64,
                ord((*v).partial_cmp(&**o)),
                (*v < **o) as i64,
                (*v >= **o) as i64,
                (hash_of(v) == hash_of(&o[..])) as i64,
                (format!("{:?}", v) == format!("{:?}", o)) as i64,
                (format!("{:#?}", v) == format!("{:#?}", o)) as i64,
                (format!("{:4?}", v) == format!("{:4?}", o)) as i64,
                (format!("{:>#3.1?}", v) == format!("{:>#3.1?}", o)) as i64,
            ];
            log().calls.clear();
        }
        // a[0]: a key that equals nothing
        "cmpn" => {
            let o = Kept::<T>::quiet(op.keys(1));
            let o = &o.0;
            log().odd = a[0];
            ev.vw = vec![
                (*v == **o) as i64,
                (*v != **o) as i64,
                ord((*v).partial_cmp(&**o)),
                (*v < **o) as i64,
                (*v >= **o) as i64,
                (*v == *v.as_slice()) as i64,
                (*v != *v.as_slice()) as i64,
                ord((*v).partial_cmp(v.as_slice())),
                (*v <= *v.as_slice()) as i64,
                (&*v == &*v) as i64,
            ];
            log().odd = -1;
            log().calls.clear();
        }
        #[cfg(feature = "nightly")]
        _ => return arrays(v, op, ev),
        #[cfg(not(feature = "nightly"))]
        _ => return Done::Outer,
    }
    Done::Event
}

pub fn discard_vec<T: Elem, B: Storage<T>>(b: GenericVec<T, B>) {
    let old = std::mem::replace(&mut log().recording, false);
    drop(b);
    log().recording = old;
}

pub fn split_to<T: Elem, S: ?Sized + Storage<T>, B: StorageWithCapacity<T>>(v: &mut GenericVec<T, S>, op: &Op, ev: &mut Ev) {
    match run(op, || v.split_off::<B>(op.us(0))) {
        Ok(b) => {
            ev.ret = ids(&b);
            ev.n = clamp(b.capacity());
            discard_vec(b);
        }
        Err(st) => ev.st = st,
    }
}

pub fn convert_to<T: Elem, S: Storage<T>, B: StorageWithCapacity<T>>(v: GenericVec<T, S>, op: &Op, ev: &mut Ev) {
    match run(op, move || v.convert::<B>()) {
        Ok(b) => {
            ev.ret = ids(&b);
            ev.n = clamp(b.capacity());
            discard_vec(b);
        }
        Err(st) => ev.st = st,
    }
}

/// Is there a storage to convert to?
pub fn target<T: Elem>(t: i64) -> bool {
    match t {
        0 | 3 | 5 => cfg!(feature = "alloc"),
        1 | 2 | 4 => true,
        6 => T::KIND != "zst",
        _ => T::can_convert(t),
    }
}

/// The storages that `split_off` and `convert` create
#[macro_export]
macro_rules! targets {
    ($t:expr, $T:ty, $with:ident, $other:expr) => {
        match $t {
            #[cfg(feature = "alloc")]
            0 => $with!(generic_vec::raw::Heap<$T>),
            1 => $with!(generic_vec::raw::UninitBuffer<[$T; 4], $T>),
            2 => $with!(generic_vec::raw::UninitBuffer<[$T; 2], $T>),
            #[cfg(feature = "alloc")]
            3 => $with!(Box<generic_vec::raw::UninitBuffer<[$T; 20], $T>>),
            4 => $with!(generic_vec::raw::UninitBuffer<[$T; 0], $T>),
            #[cfg(feature = "alloc")]
            5 => $with!(generic_vec::raw::Heap<crate::hosts::Chunk>),
            6 if <$T>::KIND != "zst" => $with!(crate::hosts::User<$T>),
            _ => $other,
        }
    };
}

#[cfg(feature = "nightly")]
fn array<T: Elem, const N: usize>(keys: &[i64]) -> [T; N] {
    unsafe {
        let mut a = std::mem::MaybeUninit::<[T; N]>::uninit();
        let p = a.as_mut_ptr() as *mut T;
        for i in 0..N {
            p.add(i).write(T::new(keys[i]));
        }
        a.assume_init()
    }
}

#[cfg(feature = "nightly")]
fn arrays<T: Elem, S: ?Sized + Storage<T>>(v: &mut GenericVec<T, S>, op: &Op, ev: &mut Ev) -> Done {
    // the number of elements is given by the keys, or by the last argument
    fn go<T: Elem, S: ?Sized + Storage<T>, const N: usize>(
        v: &mut GenericVec<T, S>,
        op: &Op,
        ev: &mut Ev,
    ) -> Done {
        fn back<T: Elem, const N: usize>(ev: &mut Ev, x: [T; N]) {
            ev.ret = ids(&x);
            let old = std::mem::replace(&mut log().recording, false);
            drop(x);
            log().recording = old;
        }
        let len = v.len();
        let spare = v.remaining_capacity();
        macro_rules! put {
            ($e:expr) => {
                match run(op, || $e as *mut [T; N] as *mut T) {
                    Ok(r) => reference(v, ev, r),
                    Err(st) => ev.st = st,
                }
            };
        }
        macro_rules! try_put {
            ($e:expr) => {
                match run(op, || $e.map(|r| r as *mut [T; N] as *mut T)) {
                    Ok(Ok(r)) => reference(v, ev, r),
                    Ok(Err(x)) => {
                        ev.st = "err";
                        back(ev, x)
                    }
                    Err(st) => ev.st = st,
                }
            };
        }
        macro_rules! take {
            ($e:expr) => {
                match run(op, || $e) {
                    Ok(x) => back(ev, x),
                    Err(st) => ev.st = st,
                }
            };
        }
        macro_rules! try_take {
            ($e:expr) => {
                match run(op, || $e) {
                    Ok(Some(x)) => back(ev, x),
                    Ok(None) => ev.st = "none",
                    Err(st) => ev.st = st,
                }
            };
        }
        macro_rules! need {
            ($c:expr) => {
                if !$c {
                    ev.st = "skip";
                    return Done::Event
                }
            };
        }
        match op.name.as_str() {
            "push_arr" => {
                let x: [T; N] = array(op.keys(0));
                put!(v.push_array(x))
            }
            "push_arr_u" => {
                need!(spare >= N);
                let x: [T; N] = array(op.keys(0));
                put!(unsafe { v.push_array_unchecked(x) })
            }
            "try_push_arr" => {
                let x: [T; N] = array(op.keys(0));
                try_put!(v.try_push_array(x))
            }
            "insert_arr" => {
                let x: [T; N] = array(op.keys(1));
                put!(v.insert_array(op.us(0), x))
            }
            "insert_arr_u" => {
                need!(spare >= N && op.us(0) <= len);
                let x: [T; N] = array(op.keys(1));
                put!(unsafe { v.insert_array_unchecked(op.us(0), x) })
            }
            "try_insert_arr" => {
                let x: [T; N] = array(op.keys(1));
                try_put!(v.try_insert_array(op.us(0), x))
            }
            "pop_arr" => take!(v.pop_array::<N>()),
            "pop_arr_u" => {
                need!(len >= N);
                take!(unsafe { v.pop_array_unchecked::<N>() })
            }
            "try_pop_arr" => try_take!(v.try_pop_array::<N>()),
            "remove_arr" => take!(v.remove_array::<N>(op.us(1))),
            "remove_arr_u" => {
                need!(op.us(1) <= len && len - op.us(1) >= N);
                take!(unsafe { v.remove_array_unchecked::<N>(op.us(1)) })
            }
            "try_remove_arr" => try_take!(v.try_remove_array::<N>(op.us(1))),
            _ => return Done::Outer,
        }
        Done::Event
    }
    let n = match op.name.as_str() {
        "push_arr" | "push_arr_u" | "try_push_arr" => op.a.len(),
        "insert_arr" | "insert_arr_u" | "try_insert_arr" => op.a.len() - 1,
        "pop_arr" | "pop_arr_u" | "try_pop_arr" | "remove_arr" | "remove_arr_u" | "try_remove_arr" => op.us(0),
        _ => return Done::Outer,
    };
    match n {
        0 => go::<T, S, 0>(v, op, ev),
        1 => go::<T, S, 1>(v, op, ev),
        2 => go::<T, S, 2>(v, op, ev),
        3 => go::<T, S, 3>(v, op, ev),
        5 => go::<T, S, 5>(v, op, ev),
        _ => {
            ev.st = "skip";
            Done::Event
        }
    }
}
