//! Element types that report what happens to them, and the log they report to.
use generic_vec::{iter::Cursor, raw::Storage, GenericVec};
use crate::prog::{Ev, Op};
use std::cell::UnsafeCell;

/// The payload of injected panics
pub struct Injected;

pub struct Log {
    pub serial: i64,
    /// ids dropped during the current operation, -1 for something that is not a live element
    pub drops: Vec<i64>,
    /// ids of clones made during the current operation, and of what they were cloned from
    pub born: Vec<i64>,
    /// ids of the elements created by the operation's arguments and callbacks
    pub new: Vec<i64>,
    /// trace of the callbacks
    pub calls: Vec<i64>,
    /// elements that were read but were not live
    pub garbage: i64,
    pub recording: bool,
    /// a key that is not comparable, not even with itself
    pub odd: i64,
    pub fault_cb: i64,
    pub fault_clone: i64,
    pub fault_drop: i64,
}

struct Shared(UnsafeCell<Option<Log>>);
unsafe impl Sync for Shared {}
static LOG: Shared = Shared(UnsafeCell::new(None));

#[allow(clippy::mut_from_ref)]
pub fn log() -> &'static mut Log {
    unsafe {
        let slot = &mut *LOG.0.get();
        slot.get_or_insert_with(|| Log {
            serial: 0,
            drops: Vec::with_capacity(1 << 14),
            born: Vec::with_capacity(1 << 14),
            new: Vec::with_capacity(1 << 14),
            calls: Vec::with_capacity(1 << 14),
            garbage: 0,
            odd: -1,
            recording: false,
            fault_cb: 0,
            fault_clone: 0,
            fault_drop: 0,
        })
    }
}

impl Log {
    pub fn clear(&mut self) {
        self.drops.clear();
        self.born.clear();
        self.new.clear();
        self.calls.clear();
        self.garbage = 0;
    }
    fn put(v: &mut Vec<i64>, x: i64) {
        // never allocates: a runaway callback ends the program instead
        if v.len() == v.capacity() {
            std::process::abort()
        }
        v.push(x)
    }
    pub fn call(&mut self, x: i64) { Self::put(&mut self.calls, x) }
    pub fn dropped(&mut self, x: i64) { Self::put(&mut self.drops, x) }
    pub fn next_id(&mut self, key: i64) -> i64 {
        self.serial += 1;
        self.serial * 8 + key
    }
}

fn countdown(n: &mut i64) -> bool {
    if *n > 0 {
        *n -= 1;
        *n == 0
    } else {
        false
    }
}

/// called at the start of every callback other than clone and drop
pub fn callback_fault() {
    if log().recording && countdown(&mut log().fault_cb) {
        inject()
    }
}

pub fn inject() -> ! { std::panic::resume_unwind(Box::new(Injected)) }

pub fn key(id: i64) -> i64 { id & 7 }

pub trait Elem: Sized + Clone + Ord + std::hash::Hash + std::fmt::Debug + 'static {
    /// "own", "copy" or "zst"
    const KIND: &'static str;
    fn make(id: i64) -> Self;
    fn id(&self) -> i64;
    fn set_key(&mut self, key: i64);

    const COPY: bool = false;
    /// only for Copy types
    fn write_slice<S: ?Sized + Storage<Self>>(_: &mut Cursor<'_, Self, S>, _front: bool, _: &[Self]) -> bool { false }

    /// `split_off` to storages for some elements only
    fn split<S: ?Sized + Storage<Self>>(_: &mut GenericVec<Self, S>, _: &Op, ev: &mut Ev) { ev.st = "skip" }
    /// `convert` to storages for some elements only; `false` if there is none
    fn can_convert(_: i64) -> bool { false }
    fn convert<S: Storage<Self>>(_: GenericVec<Self, S>, _: &Op, _: &mut Ev) { unreachable!() }

    /// creates a new element, and logs it
    fn new(key: i64) -> Self {
        let x = Self::make(if Self::KIND == "zst" { 0 } else { log().next_id(key) });
        Log::put(&mut log().new, x.id());
        x
    }
}

fn log_clone(src: i64) -> i64 {
    let log = log();
    if log.recording && countdown(&mut log.fault_clone) {
        inject()
    }
    if src < 0 {
        log.garbage += 1;
    }
    let id = if src == 0 { 0 } else { log.next_id(key(src)) };
    if log.recording {
        Log::put(&mut log.born, id);
        Log::put(&mut log.born, src);
    }
    id
}

fn log_drop(id: i64) {
    let log = log();
    if log.recording {
        log.dropped(id);
        if countdown(&mut log.fault_drop) && !std::thread::panicking() {
            inject()
        }
    } else if id < 0 {
        log.garbage += 1;
    }
}

const LIVE: u64 = 0x600D_E1E3_600D_E1E3;
const GONE: u64 = 0xDEAD_DEAD_DEAD_DEAD;

macro_rules! owned {
    ($(#[$m:meta])* $name:ident, $pad:literal) => {
        /// An element with a destructor
        $(#[$m])*
        pub struct $name {
            magic: u64,
            id: i64,
            check: u64,
            pad: [u64; $pad],
        }

        impl Elem for $name {
            const KIND: &'static str = "own";
            fn make(id: i64) -> Self { Self { magic: LIVE, id, check: !(id as u64), pad: [id as u64; $pad] } }
            fn id(&self) -> i64 {
                unsafe {
                    let id = std::ptr::read_volatile(&self.id);
                    if nothing(self) == 0
                        && std::ptr::read_volatile(&self.magic) == LIVE
                        && std::ptr::read_volatile(&self.check) == !(id as u64)
                        && self.pad.iter().all(|x| std::ptr::read_volatile(x) as i64 / 8 == id / 8)
                    {
                        id
                    } else {
                        -1
                    }
                }
            }
            fn set_key(&mut self, key: i64) {
                if self.id() >= 0 {
                    self.id = self.id / 8 * 8 + key;
                    self.check = !(self.id as u64);
                }
            }
        }

        impl Clone for $name {
            fn clone(&self) -> Self { Self::make(log_clone(self.id())) }
        }

        impl Drop for $name {
            fn drop(&mut self) {
                let id = self.id();
                unsafe { std::ptr::write_volatile(&mut self.magic, GONE) }
                log_drop(id)
            }
        }
    };
}

owned!(Own, 0);
owned!(
    #[repr(align(32))]
    Wide,
    0
);
// larger than a page's quarter
owned!(Fat, 150);

fn eq(a: i64, b: i64) -> bool {
    if log().recording {
        log().call(a);
        log().call(b);
    }
    callback_fault();
    key(a) == key(b) && key(a) != log().odd
}

fn partial_cmp(a: i64, b: i64) -> Option<std::cmp::Ordering> {
    if key(a) == log().odd || key(b) == log().odd {
        return None
    }
    Some(key(a).cmp(&key(b)))
}

/// pads, to tell formatting parameters apart
fn debug(id: i64, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.pad(["e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7"][key(id) as usize])
}

macro_rules! written {
    () => {
        fn write_slice<S: ?Sized + Storage<Self>>(c: &mut Cursor<'_, Self, S>, front: bool, s: &[Self]) -> bool {
            if front {
                c.write_slice_front(s)
            } else {
                c.write_slice_back(s)
            }
            true
        }
    };
}

/// An element without a destructor
#[derive(Clone, Copy)]
pub struct Cp(i64);

impl Elem for Cp {
    const KIND: &'static str = "copy";
    fn make(id: i64) -> Self { Cp(id) }
    fn id(&self) -> i64 {
        if self.0 >= 0 && self.0 < 1 << 30 {
            self.0
        } else {
            -1
        }
    }
    fn set_key(&mut self, key: i64) { self.0 = self.0 / 8 * 8 + key }
    const COPY: bool = true;
    written!();
    fn split<S: ?Sized + Storage<Self>>(v: &mut GenericVec<Self, S>, op: &Op, ev: &mut Ev) {
        match op.a[1] {
            7 => crate::core::split_to::<_, _, [Cp; 4]>(v, op, ev),
            8 => crate::core::split_to::<_, _, [Cp; 2]>(v, op, ev),
            _ => ev.st = "skip",
        }
    }
    fn can_convert(t: i64) -> bool { t == 7 || t == 8 }
    fn convert<S: Storage<Self>>(v: GenericVec<Self, S>, op: &Op, ev: &mut Ev) {
        match op.a[0] {
            7 => crate::core::convert_to::<_, _, [Cp; 4]>(v, op, ev),
            _ => crate::core::convert_to::<_, _, [Cp; 2]>(v, op, ev),
        }
    }
}
impl Default for Cp {
    fn default() -> Self { Cp(8 * 900_000) }
}

/// A small element with a destructor
pub struct Slim(u32);

fn sum(id: u32) -> u32 { (id.wrapping_mul(0x9E37_79B1) >> 24) ^ 0x55 }

impl Elem for Slim {
    const KIND: &'static str = "own";
    fn make(id: i64) -> Self { Slim(if id < 0 { u32::MAX } else { (id as u32) << 8 | sum(id as u32) }) }
    fn id(&self) -> i64 {
        let x = unsafe { std::ptr::read_volatile(&self.0) };
        if x & 255 == sum(x >> 8) && x != u32::MAX {
            (x >> 8) as i64
        } else {
            -1
        }
    }
    fn set_key(&mut self, key: i64) {
        if self.id() >= 0 {
            let x = Self::make(self.id() / 8 * 8 + key);
            self.0 = x.0;
            std::mem::forget(x);
        }
    }
}
impl Clone for Slim {
    fn clone(&self) -> Self { Self::make(log_clone(self.id())) }
}
impl Drop for Slim {
    fn drop(&mut self) {
        let id = self.id();
        unsafe { std::ptr::write_volatile(&mut self.0, u32::MAX) }
        log_drop(id)
    }
}

/// Small elements without a destructor
macro_rules! copied {
    ($name:ident, $n:literal, $wrap:expr) => {
        #[derive(Clone, Copy)]
        pub struct $name([u8; $n]);

        impl Elem for $name {
            const KIND: &'static str = "copy";
            fn make(id: i64) -> Self {
                // the identity is not unique if there is not enough room for it
                let id = if $wrap { (id / 8 % 31 + 1) * 8 + id % 8 } else { id };
                let mut b = [0; $n];
                b.copy_from_slice(&id.to_le_bytes()[..$n]);
                $name(b)
            }
            fn id(&self) -> i64 {
                let mut b = [0; 8];
                b[..$n].copy_from_slice(&self.0);
                i64::from_le_bytes(b)
            }
            fn set_key(&mut self, key: i64) { self.0[0] = self.0[0] / 8 * 8 + key as u8 }
            const COPY: bool = true;
            written!();
        }
    };
}

copied!(Tiny, 1, true);
copied!(Tri, 3, false);

macro_rules! compared {
    ($($name:ident)*) => {$(
        impl PartialEq for $name {
            fn eq(&self, other: &Self) -> bool { eq(self.id(), other.id()) }
        }
        impl Eq for $name {}
        impl PartialOrd for $name {
            fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> { partial_cmp(self.id(), other.id()) }
        }
        impl Ord for $name {
            fn cmp(&self, other: &Self) -> std::cmp::Ordering { key(self.id()).cmp(&key(other.id())) }
        }
        impl std::hash::Hash for $name {
            fn hash<H: std::hash::Hasher>(&self, state: &mut H) { key(self.id()).hash(state) }
        }
        impl std::fmt::Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { debug(self.id(), f) }
        }
    )*};
}

compared!(Own Wide Fat Cp Slim Tiny Tri);

/// what a zero-sized element has for an id: 0 at an address that it may have
fn nothing<T>(x: &T) -> i64 {
    // not what the compiler knows about references
    let at = unsafe { std::ptr::read_volatile(&(x as *const T as usize)) };
    if at == 0 || at % std::mem::align_of::<T>() != 0 {
        -1
    } else {
        0
    }
}

macro_rules! zero_sized {
    ($name:ident: $($more:tt)*) => {
        impl Elem for $name {
            const KIND: &'static str = "zst";
            $($more)*
            fn make(_: i64) -> Self { $name }
            fn id(&self) -> i64 { nothing(self) }
            fn set_key(&mut self, _: i64) {}
            fn split<S: ?Sized + Storage<Self>>(v: &mut GenericVec<Self, S>, op: &Op, ev: &mut Ev) {
                match op.a[1] {
                    9 => crate::core::split_to::<_, _, generic_vec::raw::ZeroSized<Self>>(v, op, ev),
                    _ => ev.st = "skip",
                }
            }
            fn can_convert(t: i64) -> bool { t == 9 }
            fn convert<S: Storage<Self>>(v: GenericVec<Self, S>, op: &Op, ev: &mut Ev) {
                crate::core::convert_to::<_, _, generic_vec::raw::ZeroSized<Self>>(v, op, ev)
            }
        }
        impl PartialOrd for $name {
            fn partial_cmp(&self, _: &Self) -> Option<std::cmp::Ordering> { partial_cmp(0, 0) }
        }
        impl PartialEq for $name {
            fn eq(&self, _: &Self) -> bool { eq(0, 0) }
        }
        impl std::fmt::Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { debug(0, f) }
        }
    };
    ($name:ident) => {
        zero_sized!($name:);

        impl Clone for $name {
            fn clone(&self) -> Self {
                log_clone(self.id());
                $name
            }
        }
        impl Drop for $name {
            fn drop(&mut self) { log_drop(self.id()) }
        }
    };
}

/// A zero-sized element with a destructor
#[derive(Eq, Ord, Hash)]
pub struct Zs;
zero_sized!(Zs);

/// A zero-sized element with a destructor that is to be aligned
#[derive(Eq, Ord, Hash)]
#[repr(align(32))]
pub struct Zal;
zero_sized!(Zal);

/// A zero-sized element without a destructor
#[derive(Eq, Ord, Hash, Clone, Copy)]
#[repr(align(4))]
pub struct Zcp;
zero_sized!(Zcp: const COPY: bool = true; written!(););

/// the ids of the elements of a slice
pub fn ids<T: Elem>(s: &[T]) -> Vec<i64> {
    if s.len() > 4096 {
        // nothing in a script gets this long
        return vec![-9]
    }
    s.iter().map(|x| x.id()).collect()
}

/// drops without logging, but notices what is not live
pub fn discard<T: Elem>(x: T) {
    let old = std::mem::replace(&mut log().recording, false);
    drop(x);
    log().recording = old;
}
