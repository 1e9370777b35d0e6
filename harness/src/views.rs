//! Sub-interpreters for what borrows a vector: cursors, draining iterators and the spare capacity.
use crate::{
    core::{Env, Kept},
    elem::{discard, ids, inject, Elem},
    prog::{clamp, run, Ev, Op, Prog},
};
use generic_vec::{
    iter::{Cursor, RawCursor},
    raw::Storage,
    SliceVec,
};
use std::mem::ManuallyDrop;

/// The next operation. A view that is still open at the end of the script is dropped.
fn next_op(p: &mut Prog) -> Op {
    if p.pc == p.ops.len() {
        p.ops.push(Op::parse("v_end"));
    }
    p.ops[p.pc].clone()
}

fn emit<T: Elem>(op: &Op, mut ev: Ev, p: &mut Prog, env: &Env<T>) {
    env.observe_env(&mut ev);
    p.emit(op, ev);
}

macro_rules! counters {
    ($c:expr, $front:expr, $back:expr) => {{
        let c = &$c;
        vec![
            clamp(c.len()),
            c.is_empty() as i64,
            if c.is_empty() { clamp(c.write_len()) } else { -1 },
            clamp(c.write_front_len()),
            clamp(c.write_back_len()),
            c.is_write_empty() as i64,
            c.is_write_front_empty() as i64,
            c.is_write_back_empty() as i64,
            $front,
            $back,
        ]
    }};
}

macro_rules! unit {
    ($op:expr, $ev:expr, $e:expr) => {
        if let Err(st) = run($op, || $e) {
            $ev.st = st;
        }
    };
}

macro_rules! take {
    ($op:expr, $ev:expr, $e:expr) => {
        match run($op, || $e) {
            Ok(x) => {
                $ev.ret.push(x.id());
                discard(x)
            }
            Err(st) => $ev.st = st,
        }
    };
}

macro_rules! try_take {
    ($op:expr, $ev:expr, $e:expr) => {
        match run($op, || $e) {
            Ok(Some(x)) => {
                $ev.ret.push(x.id());
                discard(x)
            }
            Ok(None) => $ev.st = "none",
            Err(st) => $ev.st = st,
        }
    };
}

/// closes the view
macro_rules! close {
    ($c:expr, $op:expr, $ev:expr, $p:expr) => {{
        let c = $c;
        if $op.name == "v_forget" {
            std::mem::forget(c);
        } else {
            unit!(&$op, $ev, drop(c));
        }
        $p.pc += 1;
        return
    }};
}

pub fn cursor<T: Elem, S: ?Sized + Storage<T>>(
    c: Cursor<'_, T, S>,
    open: &Op,
    ev: &mut Ev,
    p: &mut Prog,
    env: &mut Env<T>,
) {
    let mut c = c;
    let mut ev = ev;
    macro_rules! counters_of {
        () => {
            counters!(c, c.front().map_or(-1, |x| x.id()), c.back().map_or(-1, |x| x.id()))
        };
    }
    ev.vw = counters_of!();
    emit(open, std::mem::replace(ev, Ev::new()), p, env);
    loop {
        let op = next_op(p);
        let op = &op;
        let ev2 = ev;
        *ev2 = Ev::new();
        match op.name.as_str() {
            "c_take_front" => take!(op, ev2, c.take_front()),
            "c_take_back" => take!(op, ev2, c.take_back()),
            "c_drop_front" => unit!(op, ev2, c.drop_front()),
            "c_drop_back" => unit!(op, ev2, c.drop_back()),
            "c_drop_n_front" => unit!(op, ev2, c.drop_n_front(op.us(0))),
            "c_drop_n_back" => unit!(op, ev2, c.drop_n_back(op.us(0))),
            "c_write_front" => {
                let x = T::new(op.a[0]);
                unit!(op, ev2, c.write_front(x))
            }
            "c_write_back" => {
                let x = T::new(op.a[0]);
                unit!(op, ev2, c.write_back(x))
            }
            "c_try_write_front" | "c_try_write_back" => {
                let x = T::new(op.a[0]);
                let front = op.name == "c_try_write_front";
                match run(op, || if front { c.try_write_front(x) } else { c.try_write_back(x) }) {
                    Ok(Ok(())) => (),
                    Ok(Err(x)) => {
                        ev2.st = "err";
                        ev2.ret.push(x.id());
                        discard(x)
                    }
                    Err(st) => ev2.st = st,
                }
            }
            "c_wslice_front" | "c_wslice_back" => {
                if T::COPY {
                    let items = Kept::<T>::new(op.keys(0));
                    unit!(op, ev2, {
                        T::write_slice(&mut c, op.name == "c_wslice_front", &items.0);
                    })
                } else {
                    ev2.st = "skip"
                }
            }
            "c_skip_front" => unit!(op, ev2, c.skip_front()),
            "c_skip_back" => unit!(op, ev2, c.skip_back()),
            "c_skip_n_front" => unit!(op, ev2, c.skip_n_front(op.us(0))),
            "c_skip_n_back" => unit!(op, ev2, c.skip_n_back(op.us(0))),
            "c_reserve" => unit!(op, ev2, c.reserve(op.us(0))),
            "c_finish" => unit!(op, ev2, c.as_raw_cursor_mut().finish()),
            "c_set_front" => match c.front_mut() {
                Some(x) => x.set_key(op.a[0]),
                None => ev2.st = "none",
            },
            "c_set_back" => match c.back_mut() {
                Some(x) => x.set_key(op.a[0]),
                None => ev2.st = "none",
            },
            "v_end" | "v_forget" => close!(c, op, ev2, p),
            _ => ev2.st = "skip",
        }
        ev2.vw = counters_of!();
        emit(op, std::mem::replace(ev2, Ev::new()), p, env);
        p.pc += 1;
        ev = ev2;
    }
}

pub fn raw_cursor<T: Elem, S: ?Sized + Storage<T>>(
    c: RawCursor<'_, T, S>,
    open: &Op,
    ev: &mut Ev,
    p: &mut Prog,
    env: &mut Env<T>,
) {
    let mut c = c;
    let mut ev = ev;
    macro_rules! counters_of {
        () => {{
            let (f, b) = if c.is_empty() { (-1, -1) } else { unsafe { (c.front().id(), c.back().id()) } };
            counters!(c, f, b)
        }};
    }
    ev.vw = counters_of!();
    emit(open, std::mem::replace(ev, Ev::new()), p, env);
    loop {
        let op = next_op(p);
        let op = &op;
        let ev2 = ev;
        *ev2 = Ev::new();
        let len = c.len();
        macro_rules! need {
            ($c:expr, $e:expr) => {
                if $c {
                    $e
                } else {
                    ev2.st = "skip"
                }
            };
        }
        match op.name.as_str() {
            "c_take_front" => need!(len > 0, take!(op, ev2, unsafe { c.take_front() })),
            "c_take_back" => need!(len > 0, take!(op, ev2, unsafe { c.take_back() })),
            "c_drop_front" => need!(len > 0, unit!(op, ev2, unsafe { c.drop_front() })),
            "c_drop_back" => need!(len > 0, unit!(op, ev2, unsafe { c.drop_back() })),
            "c_drop_n_front" => need!(len >= op.us(0), unit!(op, ev2, unsafe { c.drop_n_front(op.us(0)) })),
            "c_drop_n_back" => need!(len >= op.us(0), unit!(op, ev2, unsafe { c.drop_n_back(op.us(0)) })),
            "c_write_front" => need!(!c.is_write_front_empty(), {
                let x = T::new(op.a[0]);
                unit!(op, ev2, unsafe { c.write_front(x) })
            }),
            "c_write_back" => need!(!c.is_write_back_empty(), {
                let x = T::new(op.a[0]);
                unit!(op, ev2, unsafe { c.write_back(x) })
            }),
            "c_wslice_front" | "c_wslice_back" => {
                let front = op.name == "c_wslice_front";
                let room = if front { c.write_front_len() } else { c.write_back_len() };
                need!(room >= op.a.len(), {
                    let mut items = Kept::<T>::new(op.keys(0));
                    unit!(op, ev2, unsafe {
                        if front {
                            c.write_slice_front(&items.0)
                        } else {
                            c.write_slice_back(&items.0)
                        }
                    });
                    // they were moved
                    unsafe { items.0.set_len(0) }
                })
            }
            "c_skip_front" => need!(len > 0, unit!(op, ev2, unsafe { c.skip_front() })),
            "c_skip_back" => need!(len > 0, unit!(op, ev2, unsafe { c.skip_back() })),
            "c_skip_n_front" => need!(len >= op.us(0), unit!(op, ev2, unsafe { c.skip_n_front(op.us(0)) })),
            "c_skip_n_back" => need!(len >= op.us(0), unit!(op, ev2, unsafe { c.skip_n_back(op.us(0)) })),
            "c_reserve" => unit!(op, ev2, c.reserve(op.us(0))),
            "c_finish" => unit!(op, ev2, c.finish()),
            "c_set_front" => need!(len > 0, unsafe { c.front_mut() }.set_key(op.a[0])),
            "c_set_back" => need!(len > 0, unsafe { c.back_mut() }.set_key(op.a[0])),
            "v_end" | "v_forget" => close!(c, op, ev2, p),
            _ => ev2.st = "skip",
        }
        ev2.vw = counters_of!();
        emit(op, std::mem::replace(ev2, Ev::new()), p, env);
        p.pc += 1;
        ev = ev2;
    }
}

fn hints<I: Iterator>(it: &I) -> Vec<i64> {
    let (lo, hi) = it.size_hint();
    vec![clamp(lo), hi.map_or(-1, clamp)]
}

/// the length, if whether it is 0 is reported accordingly
pub fn exact<I: ExactSizeIterator>(it: &I) -> i64 {
    #[cfg(feature = "nightly")]
    if it.is_empty() != (it.len() == 0) {
        return -7
    }
    clamp(it.len())
}

pub fn iter<T: Elem, I: DoubleEndedIterator<Item = T>>(
    it: I,
    open: &Op,
    ev: &mut Ev,
    p: &mut Prog,
    env: &mut Env<T>,
    extra: impl Fn(&mut I, &Op) -> Vec<i64>,
) {
    let mut it = it;
    let mut ev = ev;
    ev.vw = hints(&it);
    ev.vw.extend(extra(&mut it, open));
    emit(open, std::mem::replace(ev, Ev::new()), p, env);
    loop {
        let op = next_op(p);
        let op = &op;
        let ev2 = ev;
        *ev2 = Ev::new();
        match op.name.as_str() {
            "v_next" => try_take!(op, ev2, it.next()),
            "v_next_back" => try_take!(op, ev2, it.next_back()),
            "v_nth" => try_take!(op, ev2, it.nth(op.us(0))),
            "v_nth_back" => try_take!(op, ev2, it.nth_back(op.us(0))),
            // everything that is left, from the front or from the back
            "v_rest" | "v_rest_back" => {
                let mut all = Vec::with_capacity(4096);
                let back = op.name == "v_rest_back";
                unit!(op, ev2, {
                    let all = &mut all;
                    let f = |x: T| {
                        if all.len() < 4096 {
                            all.push(x.id());
                        }
                        discard(x)
                    };
                    if back {
                        it.by_ref().rev().for_each(f)
                    } else {
                        it.by_ref().for_each(f)
                    }
                });
                ev2.ret = all;
            }
            // what is left, up to the k-th element
            "v_try" | "v_try_back" => {
                let mut all = Vec::with_capacity(4096);
                let k = op.us(0);
                let back = op.name == "v_try_back";
                unit!(op, ev2, {
                    let (all, mut n) = (&mut all, 0);
                    let f = |(), x: T| {
                        n += 1;
                        if all.len() < 4096 {
                            all.push(x.id());
                        }
                        discard(x);
                        if n == k {
                            Err(())
                        } else {
                            Ok(())
                        }
                    };
                    let _ = if back { it.try_rfold((), f) } else { it.try_fold((), f) };
                });
                ev2.ret = all;
            }
            "v_count" => {
                match run(op, || it.count()) {
                    Ok(n) => ev2.n = clamp(n),
                    Err(st) => ev2.st = st,
                }
                p.pc += 1;
                return
            }
            // consumed by a callback (that panics with the k-th element), or by a vector with enough room
            "v_fold" | "v_each" | "v_rfold" | "v_into_vec" => {
                let mut all = Vec::with_capacity(4096);
                let mut got = Vec::with_capacity(4096);
                unit!(op, ev2, {
                    let (all, k, mut n) = (&mut all, if op.a.is_empty() { 0 } else { op.us(0) }, 0);
                    let f = |(), x: T| {
                        n += 1;
                        if n == k {
                            inject()
                        }
                        if all.len() < 4096 {
                            all.push(x.id());
                        }
                        discard(x)
                    };
                    match op.name.as_str() {
                        "v_fold" => it.fold((), f),
                        "v_rfold" => it.rfold((), f),
                        "v_each" => {
                            let mut f = f;
                            it.for_each(|x| f((), x))
                        }
                        _ => got.extend(it),
                    }
                });
                for x in got {
                    all.push(x.id());
                    discard(x)
                }
                ev2.ret = all;
                p.pc += 1;
                return
            }
            "v_last" => {
                try_take!(op, ev2, it.last());
                p.pc += 1;
                return
            }
            "v_end" | "v_forget" => close!(it, op, ev2, p),
            "v_touch" => (),
            _ => ev2.st = "skip",
        }
        ev2.vw = hints(&it);
        ev2.vw.extend(extra(&mut it, op));
        emit(op, std::mem::replace(ev2, Ev::new()), p, env);
        p.pc += 1;
        ev = ev2;
    }
}

pub fn spare<'a, T: Elem>(
    c: SliceVec<'a, T>,
    open: &Op,
    ev: &mut Ev,
    p: &mut Prog,
    env: &mut Env<T>,
) -> Option<SliceVec<'a, T>> {
    let mut c = c;
    let mut ev = ev;
    macro_rules! state {
        () => {{
            let mut s = vec![clamp(c.capacity())];
            s.extend(ids(&c));
            s
        }};
    }
    ev.vw = state!();
    emit(open, std::mem::replace(ev, Ev::new()), p, env);
    loop {
        let op = next_op(p);
        let op = &op;
        let ev2 = ev;
        *ev2 = Ev::new();
        macro_rules! close_spare {
            ($c:expr) => {{
                unit!(op, ev2, drop($c));
                p.pc += 1;
                return None
            }};
        }
        match op.name.as_str() {
            "s_push" => {
                let x = T::new(op.a[0]);
                unit!(op, ev2, {
                    c.push(x);
                })
            }
            "s_try_push" => {
                let x = T::new(op.a[0]);
                match run(op, || c.try_push(x).map(drop)) {
                    Ok(Ok(())) => (),
                    Ok(Err(x)) => {
                        ev2.st = "err";
                        ev2.ret.push(x.id());
                        discard(x)
                    }
                    Err(st) => ev2.st = st,
                }
            }
            "s_pop" => try_take!(op, ev2, c.try_pop()),
            "s_insert" => {
                let x = T::new(op.a[1]);
                unit!(op, ev2, {
                    c.insert(op.us(0), x);
                })
            }
            "s_remove" => take!(op, ev2, c.remove(op.us(0))),
            "s_save" => {
                p.pc += 1;
                return Some(c)
            }
            "v_end" => close_spare!(c),
            "v_forget" => {
                let _ = ManuallyDrop::new(c);
                p.pc += 1;
                return None
            }
            _ => ev2.st = "skip",
        }
        ev2.vw = state!();
        emit(op, std::mem::replace(ev2, Ev::new()), p, env);
        p.pc += 1;
        ev = ev2;
    }
}
