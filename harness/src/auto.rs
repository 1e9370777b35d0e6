//! Which combinations of types are Send and Sync, as the compiler sees it.
use generic_vec::{
    iter::{Cursor, Drain, DrainFilter, IntoIter, RawCursor, Splice},
    raw::{Storage, UninitBuffer, UninitSlice, ZeroSized},
    GenericVec,
};
use std::marker::PhantomData;

struct Probe<X: ?Sized>(PhantomData<X>);
#[allow(dead_code)]
trait NotSend {
    const SEND: bool = false;
}
#[allow(dead_code)]
trait NotSync {
    const SYNC: bool = false;
}
impl<X: ?Sized> NotSend for Probe<X> {}
impl<X: ?Sized> NotSync for Probe<X> {}
#[allow(dead_code)]
impl<X: ?Sized + Send> Probe<X> {
    const SEND: bool = true;
}
#[allow(dead_code)]
impl<X: ?Sized + Sync> Probe<X> {
    const SYNC: bool = true;
}

pub struct B;
pub struct S(PhantomData<*const u8>);
pub struct Y(PhantomData<*const u8>);
// B: both, No: neither, S: only Send, Y: only Sync
unsafe impl Send for S {}
unsafe impl Sync for Y {}
pub struct No(PhantomData<*const u8>);

/// a user defined storage that is marked like M
pub struct St<M>(PhantomData<M>);
unsafe impl<T, M> Storage<T> for St<M> {
    const IS_ALIGNED: bool = true;
    fn capacity(&self) -> usize { 0 }
    fn as_ptr(&self) -> *const T { std::mem::align_of::<T>() as _ }
    fn as_mut_ptr(&mut self) -> *mut T { std::mem::align_of::<T>() as _ }
    fn reserve(&mut self, _: usize) { panic!() }
    fn try_reserve(&mut self, _: usize) -> bool { false }
}

pub struct It<T, M>(PhantomData<(M, fn() -> T)>);
impl<T, M> Iterator for It<T, M> {
    type Item = T;
    fn next(&mut self) -> Option<T> { None }
}

fn bits(p: (bool, bool)) -> String { format!("[{},{}]", p.0 as u8, p.1 as u8) }

macro_rules! both {
    ($x:ty) => {
        (<Probe<$x>>::SEND, <Probe<$x>>::SYNC)
    };
}

/// One line of JSON with everything
pub fn run() {
    let mut out: Vec<String> = Vec::new();
    macro_rules! emit {
        // name, what is measured, element, storage, further part
        ($name:expr, $t:ty, $e:ty, $s:ty, $x:ty) => {
            out.push(format!(
                "{{\"op\":\"{}\",\"e\":{},\"s\":{},\"x\":{},\"r\":{}}}",
                $name,
                bits(both!($e)),
                bits(both!($s)),
                bits(both!($x)),
                bits(both!($t))
            ))
        };
    }
    macro_rules! functions {
        ($e:ty, $s:ty, $($f:ty)*) => { $(
            emit!("dfilter", DrainFilter<'static, $e, $s, Box<$f>>, $e, $s, Box<$f>);
        )* }
    }
    macro_rules! sources {
        ($e:ty, $s:ty, $($m:ty)*) => { $(
            emit!("splice", Splice<'static, $e, $s, It<$e, $m>>, $e, $s, It<$e, $m>);
        )* }
    }
    macro_rules! with {
        ($e:ty, $s:ty) => {
            emit!("vec", GenericVec<$e, $s>, $e, $s, ());
            emit!("into", IntoIter<$e, $s>, $e, $s, ());
            emit!("cursor", Cursor<'static, $e, $s>, $e, $s, ());
            emit!("rcursor", RawCursor<'static, $e, $s>, $e, $s, ());
            emit!("drain", Drain<'static, $e, $s>, $e, $s, ());
            functions!($e, $s, dyn FnMut(&mut $e) -> bool  dyn FnMut(&mut $e) -> bool + Send
                dyn FnMut(&mut $e) -> bool + Sync  dyn FnMut(&mut $e) -> bool + Send + Sync);
            sources!($e, $s, B No S Y);
        };
    }
    macro_rules! elements {
        ($($e:ty)*) => { $(
            with!($e, St<B>);
            with!($e, St<No>);
            with!($e, St<S>);
            with!($e, St<Y>);
            with!($e, &'static mut UninitSlice<$e>);
            with!($e, UninitBuffer<[$e; 4], $e>);
            with!($e, ZeroSized<$e>);
            #[cfg(feature = "alloc")]
            with!($e, generic_vec::raw::Heap<$e>);
            #[cfg(feature = "alloc")]
            with!($e, Box<UninitBuffer<[$e; 4], $e>>);
        )* }
    }
    elements!(B No S Y);
    println!("{}", out.join("\n"));
}
