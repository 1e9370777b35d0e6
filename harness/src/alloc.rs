//! A global allocator that checks everything the library does with the heap.
//!
//! Blocks obtained while a "window" is open (i.e. while a library operation runs) get red zones, are
//! registered in a fixed table, always move when resized, are filled with a poison pattern when they
//! are released and stay quarantined until the end of the script.
use std::alloc::{GlobalAlloc, Layout, System};
use std::ptr::{addr_of, addr_of_mut};

const RZ: usize = 64;
const FRESH: u8 = 0xC7;
const ZONE: u8 = 0xB5;
const DEAD: u8 = 0xDD;
const MAX: usize = 1 << 14;
const TOO_BIG: usize = 1 << 28;

#[derive(Clone, Copy)]
struct Block {
    ptr: usize,
    size: usize,
    align: usize,
    live: bool,
}

#[derive(Clone, Copy, Default)]
pub struct Counts {
    pub allocs: u32,
    pub reallocs: u32,
    pub frees: u32,
    pub failed: u32,
    /// Violations of the allocator's contract
    pub bad: u32,
}

struct State {
    window: bool,
    /// fail the n-th allocation of this window (1 based, 0 = none)
    fail_at: u32,
    seen: u32,
    /// size of the last request of this window
    last: usize,
    counts: Counts,
    len: usize,
    blocks: [Block; MAX],
}

static mut STATE: State = State {
    window: false,
    fail_at: 0,
    seen: 0,
    last: 0,
    counts: Counts { allocs: 0, reallocs: 0, frees: 0, failed: 0, bad: 0 },
    len: 0,
    blocks: [Block { ptr: 0, size: 0, align: 0, live: false }; MAX],
};

fn state() -> &'static mut State {
    unsafe { &mut *addr_of_mut!(STATE) }
}

pub struct Track;

fn front(align: usize) -> usize {
    if align > RZ {
        align
    } else {
        RZ
    }
}

unsafe fn raw_layout(size: usize, align: usize) -> Layout {
    Layout::from_size_align_unchecked(front(align) + size + RZ, front(align))
}

unsafe fn tracked_alloc(st: &mut State, size: usize, align: usize) -> *mut u8 {
    let base = System.alloc(raw_layout(size, align));
    if base.is_null() || st.len == MAX {
        return std::ptr::null_mut();
    }
    let f = front(align);
    base.write_bytes(ZONE, f);
    base.add(f).write_bytes(FRESH, size);
    base.add(f + size).write_bytes(ZONE, RZ);
    let ptr = base.add(f);
    st.blocks[st.len] = Block { ptr: ptr as usize, size, align, live: true };
    st.len += 1;
    ptr
}

fn zones_ok(b: &Block) -> bool {
    unsafe {
        let f = front(b.align);
        let p = b.ptr as *const u8;
        (1..=f).all(|i| *p.sub(i) == ZONE) && (0..RZ).all(|i| *p.add(b.size + i) == ZONE)
    }
}

fn find(st: &State, ptr: *mut u8) -> Option<usize> {
    let p = ptr as usize;
    let live = (0..st.len).rev().find(|&i| st.blocks[i].ptr == p && st.blocks[i].live);
    live.or_else(|| (0..st.len).rev().find(|&i| st.blocks[i].ptr == p))
}

unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let st = state();
        if !st.window {
            return System.alloc(layout);
        }
        st.seen += 1;
        st.last = layout.size();
        if layout.size() == 0 {
            st.counts.bad += 1;
        }
        if st.seen == st.fail_at || layout.size() >= TOO_BIG {
            st.counts.failed += 1;
            return std::ptr::null_mut();
        }
        st.counts.allocs += 1;
        tracked_alloc(st, layout.size(), layout.align())
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let st = state();
        match find(st, ptr) {
            Some(i) => {
                let b = st.blocks[i];
                if st.window {
                    st.counts.frees += 1;
                }
                if !b.live || b.size != layout.size() || b.align != layout.align() || !zones_ok(&b) {
                    st.counts.bad += 1;
                }
                st.blocks[i].live = false;
                ptr.write_bytes(DEAD, b.size);
            }
            None if layout.size() == 0 => st.counts.bad += 1,
            // something that was never allocated while a window was open: is it plausible at all?
            None if st.window && (ptr as usize) < 4096 => st.counts.bad += 1,
            None => System.dealloc(ptr, layout),
        }
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let st = state();
        let i = match find(st, ptr) {
            Some(i) => i,
            None if !st.window => return System.realloc(ptr, layout, new_size),
            None => {
                // obtained outside of a window
                let new = self.alloc(Layout::from_size_align_unchecked(new_size, layout.align()));
                if !new.is_null() {
                    let n = if layout.size() < new_size { layout.size() } else { new_size };
                    std::ptr::copy_nonoverlapping(ptr, new, n);
                    self.dealloc(ptr, layout);
                }
                return new;
            }
        };
        let b = st.blocks[i];
        if st.window {
            st.seen += 1;
            st.last = new_size;
        }
        if !b.live || b.size != layout.size() || b.align != layout.align() || new_size == 0 || !zones_ok(&b) {
            st.counts.bad += 1;
        }
        if st.window && (st.seen == st.fail_at || new_size >= TOO_BIG) {
            st.counts.failed += 1;
            return std::ptr::null_mut();
        }
        if st.window {
            st.counts.reallocs += 1;
        }
        let new = tracked_alloc(st, new_size, layout.align());
        if !new.is_null() {
            let n = if b.size < new_size { b.size } else { new_size };
            std::ptr::copy_nonoverlapping(ptr, new, n);
            st.blocks[i].live = false;
            ptr.write_bytes(DEAD, b.size);
        }
        new
    }
}

/// Runs `f` with the window open, and reports what it did with the heap
pub fn window_open(fail_at: u32) {
    let st = state();
    st.fail_at = fail_at;
    st.seen = 0;
    st.last = 0;
    st.counts = Counts::default();
    st.window = true;
}

/// The size of the last request of the last window, 0 if there was none
pub fn last() -> usize {
    state().last
}

pub fn window_close() {
    state().window = false;
}

/// The counters of the last window, including contract violations found since
pub fn counts() -> Counts {
    let st = unsafe { &*addr_of!(STATE) };
    st.counts
}
pub fn clear_counts() {
    state().counts = Counts::default();
}

/// temporarily leave the window, for the bookkeeping of callbacks
pub fn suspend() -> bool {
    std::mem::replace(&mut state().window, false)
}
pub fn resume(old: bool) {
    state().window = old;
}

/// The number of bytes from `ptr` to the end of the live block it belongs to, if any
pub fn room(ptr: usize) -> Option<usize> {
    let st = state();
    (0..st.len)
        .map(|i| st.blocks[i])
        .find(|b| b.live && b.ptr == ptr)
        .map(|b| b.size)
}

/// Number of live blocks whose red zones were overwritten, and released blocks that were written to
pub fn damaged() -> u32 {
    let st = state();
    let mut n = 0;
    for i in 0..st.len {
        let b = st.blocks[i];
        let zones = zones_ok(&b);
        let dead = b.live || (0..b.size).all(|i| unsafe { *((b.ptr + i) as *const u8) } == DEAD);
        if !zones || !dead {
            n += 1;
        }
    }
    n
}

/// Releases the quarantine, and returns the number of blocks that are still live
pub fn reset() -> u32 {
    let st = state();
    let mut live = 0;
    for i in 0..st.len {
        let b = st.blocks[i];
        if b.live {
            live += 1;
        }
        unsafe {
            let f = front(b.align);
            System.dealloc((b.ptr as *mut u8).sub(f), raw_layout(b.size, b.align));
        }
    }
    st.len = 0;
    #[cfg(feature = "nightly")]
    {
        live += own::reset();
    }
    live
}

/// An allocator for one vector: every instance releases only what it allocated, and is dropped once
#[cfg(feature = "nightly")]
pub mod own {
    use super::*;
    use std::alloc::{AllocError, Allocator, Global};
    use std::ptr::NonNull;

    const INSTANCES: usize = 1 << 12;

    struct Table {
        /// 0: not used, 1: live, 2: dropped
        live: [u8; INSTANCES],
        next: usize,
        owners: [(usize, usize); MAX],
        len: usize,
    }
    static mut TABLE: Table = Table { live: [0; INSTANCES], next: 0, owners: [(0, 0); MAX], len: 0 };
    fn table() -> &'static mut Table {
        unsafe { &mut *addr_of_mut!(TABLE) }
    }

    pub struct Own(usize);

    impl Default for Own {
        fn default() -> Self {
            let t = table();
            t.next += 1;
            t.live[t.next] = 1;
            Own(t.next)
        }
    }

    impl Own {
        fn check(&self) {
            if self.0 >= INSTANCES || table().live[self.0] != 1 {
                state().counts.bad += 1
            }
        }
        fn mine(&self, ptr: NonNull<u8>) {
            self.check();
            let t = table();
            let owner = (0..t.len).rev().find(|&i| t.owners[i].0 == ptr.as_ptr() as usize).map(|i| t.owners[i].1);
            if owner != Some(self.0) {
                state().counts.bad += 1
            }
        }
        fn got(&self, r: Result<NonNull<[u8]>, AllocError>) -> Result<NonNull<[u8]>, AllocError> {
            if let Ok(p) = r {
                let t = table();
                if t.len < MAX {
                    t.owners[t.len] = (p.as_ptr() as *mut u8 as usize, self.0);
                    t.len += 1;
                }
            }
            r
        }
    }

    impl Drop for Own {
        fn drop(&mut self) {
            self.check();
            if self.0 < INSTANCES {
                table().live[self.0] = 2
            }
        }
    }

    unsafe impl Allocator for Own {
        fn allocate(&self, layout: Layout) -> Result<NonNull<[u8]>, AllocError> {
            self.check();
            self.got(Global.allocate(layout))
        }
        unsafe fn deallocate(&self, ptr: NonNull<u8>, layout: Layout) {
            // nothing is allocated for empty layouts
            if layout.size() == 0 {
                return
            }
            self.mine(ptr);
            unsafe { Global.deallocate(ptr, layout) }
        }
        unsafe fn grow(&self, ptr: NonNull<u8>, old: Layout, new: Layout) -> Result<NonNull<[u8]>, AllocError> {
            self.mine(ptr);
            self.got(unsafe { Global.grow(ptr, old, new) })
        }
        unsafe fn shrink(&self, ptr: NonNull<u8>, old: Layout, new: Layout) -> Result<NonNull<[u8]>, AllocError> {
            self.mine(ptr);
            self.got(unsafe { Global.shrink(ptr, old, new) })
        }
    }

    /// the number of instances that were not dropped
    pub fn reset() -> u32 {
        let t = table();
        let n = t.live.iter().filter(|&&x| x == 1).count() as u32;
        for x in t.live.iter_mut() {
            *x = 0;
        }
        t.next = 0;
        t.len = 0;
        n
    }
}
