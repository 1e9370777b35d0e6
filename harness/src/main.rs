//! Runs scripts of operations against generic-vec, and reports what they do.
//!
//! One script per line: `id|kind|host|op;op;...`, one line of JSON per script.
#![cfg_attr(
    feature = "nightly",
    feature(min_const_generics, allocator_api, exact_size_is_empty, unsafe_block_in_unsafe_fn)
)]
#![allow(incomplete_features, stable_features, clippy::all)]

mod alloc;
mod auto;
mod caps;
mod core;
mod elem;
mod hosts;
mod prog;
mod views;

use elem::{Cp, Elem, Fat, Own, Slim, Tiny, Tri, Wide, Zal, Zcp, Zs};
use prog::{Op, Prog};
use std::io::{BufRead, Write};

#[global_allocator]
static ALLOC: alloc::Track = alloc::Track;

extern "C" {
    fn alarm(seconds: u32) -> u32;
}

fn dispatch(kind: &str, host: &str, p: &mut Prog) -> bool {
    match kind {
        "own" => hosts::any::<Own>(host, p) || hosts::more::<Own>(host, p),
        #[cfg(not(feature = "nightly"))]
        "wide" => hosts::any::<Wide>(host, p) || hosts::more::<Wide>(host, p),
        #[cfg(not(feature = "nightly"))]
        "slim" => hosts::any::<Slim>(host, p) || hosts::more::<Slim>(host, p),
        #[cfg(not(feature = "nightly"))]
        "fat" => hosts::any::<Fat>(host, p),
        "tiny" => hosts::any::<Tiny>(host, p),
        #[cfg(not(feature = "nightly"))]
        "tri" => hosts::any::<Tri>(host, p) || hosts::more::<Tri>(host, p),
        "copy" => hosts::any::<Cp>(host, p) || hosts::copy(host, p),
        "zst" => hosts::any::<Zs>(host, p) || hosts::zst::<Zs>(host, p),
        "zal" => hosts::any::<Zal>(host, p) || hosts::zs::<Zal>(host, p),
        "zcp" => hosts::any::<Zcp>(host, p) || hosts::zs::<Zcp>(host, p),
        _ => false,
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("auto") {
        return auto::run()
    }
    if std::env::args().nth(1).as_deref() == Some("caps") {
        return caps::run()
    }
    std::panic::set_hook(Box::new(|_| ()));
    // everything that panicking allocates once
    for _ in 0..2 {
        let _ = std::panic::catch_unwind(|| panic!("{}", 1));
        let _ = std::panic::catch_unwind(|| std::panic::resume_unwind(Box::new(elem::Injected)));
    }
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = stdout.lock();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut f = line.splitn(4, '|');
        let (id, kind, host, ops) = match (f.next(), f.next(), f.next(), f.next()) {
            (Some(a), Some(b), Some(c), Some(d)) => (a, b, c, d),
            _ => continue,
        };
        let ops: Vec<Op> = ops.split(';').filter(|s| !s.trim().is_empty()).map(Op::parse).collect();
        let mut p = Prog { ops, pc: 0, out: String::new(), faults: 0 };
        elem::log().clear();
        elem::log().serial = 0;
        unsafe { alarm(5) };
        let known = dispatch(kind, host, &mut p);
        unsafe { alarm(0) };
        if known {
            writeln!(out, "{{\"id\":{},\"k\":\"{}\",\"h\":\"{}\",\"ev\":[{}]}}", id, kind, host, p.out).unwrap();
        } else {
            writeln!(out, "{{\"id\":{},\"k\":\"{}\",\"h\":\"{}\",\"ev\":[]}}", id, kind, host).unwrap();
        }
        out.flush().unwrap();
    }
}

#[allow(dead_code)]
fn kinds() -> [&'static str; 10] {
    [Own::KIND, Wide::KIND, Fat::KIND, Cp::KIND, Zs::KIND, Zal::KIND, Zcp::KIND, Slim::KIND, Tiny::KIND, Tri::KIND]
}
