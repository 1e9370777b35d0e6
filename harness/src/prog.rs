//! Scripts (sequences of operations) and events (what was observed of an operation).
use crate::{
    alloc,
    elem::{log, Injected},
};
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Default)]
pub struct Op {
    pub name: String,
    pub a: Vec<i64>,
    /// injected fault: p = callback, c = clone, d = drop, a = allocation
    pub fault: char,
    pub at: i64,
}

impl Op {
    pub fn parse(s: &str) -> Op {
        let mut op = Op { fault: '-', ..Op::default() };
        for (i, w) in s.split_ascii_whitespace().enumerate() {
            if i == 0 {
                op.name = w.to_string();
            } else if let Some(f) = w.strip_prefix('@') {
                op.fault = f.chars().next().unwrap();
                op.at = f[1..].parse().unwrap();
            } else {
                op.a.push(w.parse().unwrap());
            }
        }
        op
    }
    /// An argument that stands for a `usize`: negative numbers count down from `usize::MAX`
    pub fn us(&self, i: usize) -> usize { big(self.a[i]) }
    pub fn keys(&self, from: usize) -> &[i64] { &self.a[from..] }
}

/// -1 = usize::MAX, -2 = usize::MAX - 1, ..., -64 - k = 2^(63 - k) 
pub fn big(x: i64) -> usize {
    if x >= 0 {
        x as usize
    } else if x > -64 {
        usize::MAX - ((-1 - x) as usize)
    } else {
        1usize << (63 - (-64 - x))
    }
}

pub const UNLIMITED: i64 = 1_000_000_000;

pub fn clamp(x: usize) -> i64 {
    if x > UNLIMITED as usize {
        UNLIMITED
    } else {
        x as i64
    }
}

/// What was observed of one operation
#[derive(Default)]
pub struct Ev {
    /// ok, panic, inj (an injected panic came out), err, none, skip
    pub st: &'static str,
    pub ret: Vec<i64>,
    /// position and id of the element a returned reference designates
    pub rf: Vec<i64>,
    pub n: i64,
    /// contents, not known while they are borrowed
    pub it: Option<Vec<i64>>,
    pub cap: i64,
    /// contents and capacity of the peer
    pub bi: Option<Vec<i64>>,
    pub bc: i64,
    /// counters of the open view
    pub vw: Vec<i64>,
    /// 1 if the buffer moved
    pub mv: i64,
    /// elements that fit in the heap block, or -1
    pub room: i64,
    /// highest used position of the underlying buffer, or -1
    pub hw: i64,
    /// overwritten guard bytes, misaligned elements, reads of dead elements
    pub bad: i64,
}

pub const ANY: i64 = -99;

impl Ev {
    pub fn new() -> Ev { Ev { st: "ok", n: ANY, cap: -1, bc: -1, room: -1, hw: -1, ..Ev::default() } }
}

/// Runs an operation of the library: the window of the allocator is open, faults are armed and
/// everything the elements report is recorded
pub fn run<R>(op: &Op, f: impl FnOnce() -> R) -> Result<R, &'static str> {
    {
        let log = log();
        log.fault_cb = if op.fault == 'p' { op.at } else { 0 };
        log.fault_clone = if op.fault == 'c' { op.at } else { 0 };
        log.fault_drop = if op.fault == 'd' { op.at } else { 0 };
        log.recording = true;
    }
    alloc::window_open(if op.fault == 'a' { op.at as u32 } else { 0 });
    let r = catch_unwind(AssertUnwindSafe(f));
    alloc::window_close();
    let log = log();
    log.recording = false;
    log.fault_cb = 0;
    log.fault_clone = 0;
    log.fault_drop = 0;
    match r {
        Ok(x) => Ok(x),
        Err(p) => {
            if p.is::<Injected>() {
                Err("inj")
            } else {
                Err("panic")
            }
        }
    }
}

fn list(out: &mut String, name: &str, v: &[i64]) {
    let _ = write!(out, ",\"{}\":[", name);
    for (i, x) in v.iter().enumerate() {
        let _ = write!(out, "{}{}", if i == 0 { "" } else { "," }, x);
    }
    out.push(']');
}

pub struct Prog {
    pub ops: Vec<Op>,
    pub pc: usize,
    pub out: String,
    pub faults: u32,
}

impl Prog {
    pub fn peek(&self) -> Option<Op> { self.ops.get(self.pc).cloned() }

    /// Writes the event of operation `op` from `ev` and the logs, and clears the logs
    pub fn emit(&mut self, op: &Op, ev: Ev) {
        let c = alloc::counts();
        alloc::clear_counts();
        let log = log();
        let out = &mut self.out;
        if !out.is_empty() {
            out.push(',');
        }
        let _ = write!(out, "{{\"op\":\"{}\"", op.name);
        list(out, "a", &op.a);
        let _ = write!(out, ",\"f\":\"{}\",\"fk\":{},\"st\":\"{}\"", op.fault, op.at, ev.st);
        list(out, "ret", &ev.ret);
        list(out, "rf", &ev.rf);
        let _ = write!(out, ",\"n\":{},\"open\":{}", ev.n, ev.it.is_none() as i32);
        list(out, "it", ev.it.as_deref().unwrap_or(&[]));
        let _ = write!(out, ",\"cap\":{},\"bopen\":{}", ev.cap, ev.bi.is_none() as i32);
        list(out, "bi", ev.bi.as_deref().unwrap_or(&[]));
        let _ = write!(out, ",\"bc\":{}", ev.bc);
        list(out, "vw", &ev.vw);
        list(out, "dr", &log.drops);
        list(out, "bn", &log.born);
        list(out, "nw", &log.new);
        list(out, "cl", &log.calls);
        let _ = write!(
            out,
            ",\"mv\":{},\"room\":{},\"hw\":{},\"bad\":{},\"na\":{},\"nr\":{},\"nd\":{},\"nf\":{},\"ab\":{}}}",
            ev.mv,
            ev.room,
            ev.hw,
            ev.bad + log.garbage,
            c.allocs,
            c.reallocs,
            c.frees,
            c.failed,
            c.bad
        );
        log.clear();
    }
}
