//! Primitives the harnesses are written against.
//!
//! In the symbolic build they are external functions interpreted by the executor; in the replay
//! build they read concrete values from a replay file and check assertions natively.

#[cfg(not(feature = "replay"))]
mod imp {
    extern "C" {
        fn sym_u64(id: u64) -> u64;
        fn sym_size(id: u64) -> u64;
        fn sym_param(id: u64) -> u64;
        fn sym_choose(id: u64, lo: u64, hi: u64) -> u64;
        fn sym_assume(c: bool);
        fn sym_assert(c: bool, id: u64);
        fn sym_reach(id: u64);
        fn sym_merge(level: u64);
        fn sym_pin(v: u64) -> u64;
        fn sym_fill(p: *mut u64, words: u64, id: u64);
        fn sym_try(f: extern "C" fn(*mut u8), d: *mut u8) -> bool;
    }
    #[inline(always)]
    pub fn any(id: u64) -> usize {
        unsafe { sym_u64(id) as usize }
    }
    #[inline(always)]
    pub fn any_size(id: u64) -> usize {
        unsafe { sym_size(id) as usize }
    }
    #[inline(always)]
    pub fn param(id: u64) -> usize {
        unsafe { sym_param(id) as usize }
    }
    #[inline(always)]
    pub fn choose(id: u64, lo: usize, hi: usize) -> usize {
        unsafe { sym_choose(id, lo as u64, hi as u64) as usize }
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { sym_assume(c) }
    }
    #[inline(always)]
    pub fn check(c: bool, id: u64) {
        unsafe { sym_assert(c, id) }
    }
    #[inline(always)]
    pub fn reach(id: u64) {
        unsafe { sym_reach(id) }
    }
    #[inline(always)]
    pub fn merge(level: u64) {
        unsafe { sym_merge(level) }
    }
    /// `v`, known to be one particular value on each path
    #[inline(always)]
    pub fn pin(v: usize) -> usize {
        unsafe { sym_pin(v as u64) as usize }
    }
    #[inline(always)]
    pub fn fill(p: *mut usize, words: usize, id: u64) {
        unsafe { sym_fill(p as *mut u64, words as u64, id) }
    }
    struct D<F, R> {
        f: Option<F>,
        r: Option<R>,
    }
    extern "C" fn tramp<F: FnOnce() -> R, R>(d: *mut u8) {
        let d = unsafe { &mut *(d as *mut D<F, R>) };
        let f = d.f.take();
        if let Some(f) = f {
            d.r = Some(f());
        }
    }
    /// Runs `f`; `None` if it panicked.
    #[inline(always)]
    pub fn attempt<F: FnOnce() -> R, R>(f: F) -> Option<R> {
        let mut d = D { f: Some(f), r: None };
        let ok = unsafe { sym_try(tramp::<F, R>, &mut d as *mut D<F, R> as *mut u8) };
        if ok {
            d.r
        } else {
            None
        }
    }
}

#[cfg(feature = "replay")]
mod imp {
    use std::collections::HashMap;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::sync::Mutex;

    #[derive(Default)]
    pub struct Env {
        pub v: HashMap<String, u64>,
        pub arr: HashMap<String, (u64, HashMap<u64, u64>)>,
    }
    pub static ENV: Mutex<Option<Env>> = Mutex::new(None);

    fn get(k: String) -> Option<u64> {
        ENV.lock().unwrap().as_ref().unwrap().v.get(&k).copied()
    }
    pub fn any(id: u64) -> usize {
        get(format!("s!{id}")).unwrap_or(0) as usize
    }
    pub fn any_size(id: u64) -> usize {
        get(format!("n!{id}")).unwrap_or(0) as usize
    }
    pub fn param(id: u64) -> usize {
        get(format!("p!{id}")).expect("parameter") as usize
    }
    pub fn choose(id: u64, lo: usize, hi: usize) -> usize {
        let v = get(format!("c!{id}")).unwrap_or(lo as u64) as usize;
        if v < lo || v > hi {
            println!("REPLAY-INFEASIBLE choose {id}");
            std::process::exit(12);
        }
        v
    }
    pub fn assume(c: bool) {
        if !c {
            println!("REPLAY-INFEASIBLE assumption");
            std::process::exit(12);
        }
    }
    pub fn check(c: bool, id: u64) {
        if !c {
            println!("REPLAY-FAIL assert {id}");
            std::process::exit(11);
        }
    }
    pub fn reach(_id: u64) {}
    pub fn merge(_level: u64) {}
    pub fn pin(v: usize) -> usize {
        v
    }
    pub fn fill(p: *mut usize, words: usize, id: u64) {
        let g = ENV.lock().unwrap();
        let e = g.as_ref().unwrap();
        let a = e.arr.get(&format!("a!{id}"));
        for k in 0..words {
            let v = match a {
                Some((d, t)) => *t.get(&(k as u64)).unwrap_or(d),
                None => *e.v.get(&format!("w!{id}!{k}")).unwrap_or(&0),
            };
            unsafe { p.add(k).write_volatile(v as usize) };
        }
    }
    pub fn attempt<F: FnOnce() -> R, R>(f: F) -> Option<R> {
        catch_unwind(AssertUnwindSafe(f)).ok()
    }
}

pub use imp::*;
