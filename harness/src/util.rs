use crate::prim::*;
use succinct_neo::bit_vec::BitVec;

/// Largest symbolic vector length (bits) used by the unbounded-length harnesses.
pub const MAXN: usize = 1 << 46;

/// Number of words a vector of `n` bits needs.
#[inline(always)]
pub fn words(n: usize) -> usize {
    n / 64 + (n % 64 != 0) as usize
}

/// A bit vector of length `n` with arbitrary contents (bits past the end are zero, as C02 requires).
#[inline(always)]
pub fn mk_bv(n: usize, id: u64) -> BitVec {
    let bv = BitVec::new(n);
    let w = words(n);
    // a vector whose storage is too small violates every claim about its bits
    check(bv.raw().len() >= w, 900);
    let p = bv.raw().as_ptr() as *mut usize;
    fill(p, w, id);
    if n % 64 != 0 {
        unsafe { *p.add(w - 1) &= (1usize << (n % 64)) - 1 };
    }
    bv
}

/// An arbitrary length up to `max`; zero is kept apart because it has no storage.
#[inline(always)]
pub fn size(id: u64, max: usize) -> usize {
    let n = any_size(id);
    assume(n <= max);
    merge(0);
    let z = choose(900 + id, 0, 1) == 0;
    assume(z == (n == 0));
    merge(2);
    if z { 0 } else { n }
}

/// An arbitrary vector of arbitrary length (0..=MAXN).
#[inline(always)]
pub fn any_bv(id: u64) -> (BitVec, usize) {
    let n = size(id, MAXN);
    (mk_bv(n, id), n)
}

/// Bit `i` of the stored words, read independently of the library.
#[inline(always)]
pub fn bit(w: &[usize], i: usize) -> bool {
    unsafe { w.as_ptr().add(i / 64).read() >> (i % 64) & 1 == 1 }
}

/// Number of ones before position `p` in the words `w`.
#[inline(always)]
pub fn ones_before(w: &[usize], p: usize) -> usize {
    let mut s = 0;
    let mut k = 0;
    while k < p / 64 {
        s += unsafe { w.as_ptr().add(k).read() }.count_ones() as usize;
        k += 1;
    }
    if p % 64 != 0 {
        s += (unsafe { w.as_ptr().add(k).read() } & ((1usize << (p % 64)) - 1)).count_ones() as usize;
    }
    s
}

/// An arbitrary position below `n`.
#[inline(always)]
pub fn below(id: u64, n: usize) -> usize {
    let i = any(id);
    assume(i < n);
    i
}

#[inline(always)]
pub fn flag(id: u64) -> bool {
    any(id) & 1 == 1
}

/// Panics count as "refused".
#[inline(always)]
pub fn refused<R>(f: impl FnOnce() -> R) -> bool {
    attempt(f).is_none()
}
