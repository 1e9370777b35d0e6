//! What storages say about their capacity, and do about reservations, for numbers of every size.
use generic_vec::raw::{Storage, UninitBuffer, UninitSlice};
use std::io::Write;
use std::mem::MaybeUninit;

#[cfg(feature = "alloc")]
mod heap {
    use crate::alloc;
    use generic_vec::raw::{Heap, Storage, StorageWithCapacity};
    use std::io::Write;
    use std::mem::ManuallyDrop;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::ptr::NonNull;

    /// the number of items that a storage has room for
    fn parts<T>(heap: &mut Heap<T>) -> usize {
        let (ptr, n) = unsafe { std::ptr::read(heap) }.into_raw_parts();
        unsafe { std::ptr::write(heap, Heap::from_raw_parts(ptr, n)) };
        n
    }

    fn sizes<T, U>() -> (usize, usize) {
        (std::mem::size_of::<T>(), std::mem::size_of::<U>())
    }

    pub fn pair<T, U>(out: &mut dyn Write) {
        let (a, b) = sizes::<T, U>();
        let room = isize::MAX as usize;
        // a storage is never larger than that
        let most = if a == 0 { usize::MAX } else { room / a };
        for &n in &[0, 1, 2, 3, 5, 7, 8, 9, 63, 64, 65, 1000, 0xFFFF_FFFF, 1 << 32, (1 << 32) + 1, 1 << 52, room / 9, room / 8, room / 7 + 1,
            most / 2, most / 2 + 1, most.wrapping_sub(1), most]
        {
            if n <= most {
                let heap = ManuallyDrop::new(unsafe { Heap::<T>::from_raw_parts(NonNull::dangling(), n) });
                writeln!(out, "view {} {} {} {}", a, b, n, Storage::<U>::capacity(&*heap)).unwrap();
            }
        }
        for &n in &[0, 1, 4, 5, 33] {
            for &req in &[0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 31, 33, 34, 64, 65, 100, 1000, 1 << 31, 0xFFFF_FFFF, 1 << 32, (1 << 32) + 1, 1 << 60,
                room / 8, room / 8 + 1, room / 3, room - 1, room, room + 1, usize::MAX / 8, usize::MAX / 8 + 1, usize::MAX / 3, usize::MAX / 3 + 1,
                usize::MAX - 8, usize::MAX - 1, usize::MAX]
            {
                let mut heap = <Heap<T> as StorageWithCapacity<T>>::with_capacity(n);
                let before = parts(&mut heap);
                alloc::window_open(0);
                let r = catch_unwind(AssertUnwindSafe(|| Storage::<U>::try_reserve(&mut heap, req)));
                alloc::window_close();
                let asked = alloc::last();
                let after = parts(&mut heap);
                let r = match r {
                    Ok(true) => "ok",
                    Ok(false) => "no",
                    Err(_) => "panic",
                };
                let held = Storage::<U>::capacity(&heap);
                writeln!(out, "try {} {} {} {} {} {} {} {}", a, b, before, req, r, after, asked, held).unwrap();
                drop(heap);
                alloc::reset();
                // what the allocator refuses would abort
                if n == 0 && (req <= 1000 || a == 0 || ((a > 1 || !cfg!(feature = "nightly")) && (req as u128) * (b as u128) > usize::MAX as u128)) {
                    alloc::window_open(0);
                    let r = catch_unwind(|| <Heap<T> as StorageWithCapacity<U>>::with_capacity(req));
                    alloc::window_close();
                    let asked = alloc::last();
                    match r.ok() {
                        Some(mut heap) => {
                            let held = Storage::<U>::capacity(&heap);
                            writeln!(out, "make {} {} {} ok {} {} {}", a, b, req, parts(&mut heap), asked, held).unwrap()
                        }
                        None => writeln!(out, "make {} {} {} panic 0 {} 0", a, b, req, asked).unwrap(),
                    }
                    alloc::reset();
                }
            }
        }
    }
}

fn slices<T, U>(out: &mut dyn Write) {
    let (a, b) = (std::mem::size_of::<T>(), std::mem::size_of::<U>());
    for &n in &[0, 1, 2, 3, 5, 8, 33] {
        let mut buffer: Vec<MaybeUninit<T>> = (0..n).map(|_| MaybeUninit::uninit()).collect();
        let slice = UninitSlice::from_mut(&mut buffer);
        let held = Storage::<U>::capacity(slice);
        writeln!(out, "view {} {} {} {}", a, b, n, held).unwrap();
        for &req in &[0, 1, 2, held.wrapping_sub(1), held, held.wrapping_add(1), usize::MAX / 2, usize::MAX] {
            let ok = Storage::<U>::try_reserve(slice, req);
            writeln!(out, "fixed {} {} {} {} {}", a, b, n, req, ok as u8).unwrap();
        }
    }
}

fn buffers<T, U>(out: &mut dyn Write) {
    let (a, b) = (std::mem::size_of::<T>(), std::mem::size_of::<U>());
    let mut buffer = UninitBuffer::<T>::uninit();
    let held = Storage::<U>::capacity(&buffer);
    writeln!(out, "view {} {} 1 {}", a, b, held).unwrap();
    writeln!(out, "view {} {} 1 {}", a, b, UninitBuffer::<T>::capacity::<U>()).unwrap();
    for &req in &[0, 1, 2, held.wrapping_sub(1), held, held.wrapping_add(1), usize::MAX / 2, usize::MAX] {
        let ok = Storage::<U>::try_reserve(&mut buffer, req);
        writeln!(out, "fixed {} {} 1 {} {}", a, b, req, ok as u8).unwrap();
    }
}

macro_rules! all {
    ($out:ident; $($t:literal)*; $us:tt) => { $( all!(@ $out $t $us); )* };
    (@ $out:ident $t:literal [$($u:literal)*]) => { $(
        #[cfg(feature = "alloc")]
        heap::pair::<[u8; $t], [u8; $u]>($out);
        slices::<[u8; $t], [u8; $u]>($out);
        buffers::<[u8; $t], [u8; $u]>($out);
    )* };
}

pub fn run() {
    std::panic::set_hook(Box::new(|_| ()));
    // everything that panicking allocates once
    for _ in 0..2 {
        let _ = std::panic::catch_unwind(|| panic!("{}", 1));
    }
    let stdout = std::io::stdout();
    let out = &mut std::io::BufWriter::new(stdout.lock());
    all!(out; 0 1 3 7 8 24 64 4096; [0 1 3 7 8 24 64 4096]);
}
