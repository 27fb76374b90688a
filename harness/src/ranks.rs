//! C15 to C22
use crate::prim::*;
use crate::util::*;
use succinct_neo::bit_vec::BitVec;
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch, SelectStrategy};
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

/// Index construction, joining the two outcomes of every branch on a symbolic bit.
#[inline(always)]
fn build<S>(bv: &BitVec) -> FlatPopcount<'_, S> {
    merge(3);
    let r = FlatPopcount::<S>::new(bv);
    merge(0);
    r
}

/// Select, joining the outcomes of branches on symbolic bits within loops; results stay apart.
#[inline(always)]
fn select<S: SelectStrategy>(r: &FlatPopcount<'_, S>, k: usize) -> Option<usize> {
    merge(4);
    let p = r.select(k);
    merge(0);
    p
}

/// A vector of `n` bits with arbitrary contents whose first one is at position `f` (none if `f >= n`).
#[inline(always)]
fn with_first(n: usize, f: usize) -> BitVec {
    let bv = mk_bv(n, 0);
    let p = bv.raw().as_ptr() as *mut usize;
    let mut k = 0;
    while k < words(n) {
        unsafe {
            if f >= n || k < f / 64 {
                *p.add(k) = 0;
            } else if k == f / 64 {
                *p.add(k) = *p.add(k) & !0 << (f % 64) | 1 << (f % 64);
            }
        }
        k += 1;
    }
    bv
}

/// A vector of `n` bits: a fixed pattern except for `len` arbitrary words from word `at` on.
/// Patterns from 10 on: every other arbitrary word is the complement of the one before.
#[inline(always)]
fn window(n: usize, pat: usize, at: usize, len: usize) -> BitVec {
    let bv = BitVec::new(n);
    check(bv.raw().len() >= words(n), 900);
    let p = bv.raw().as_ptr() as *mut usize;
    let mut k = 0;
    while k < words(n) {
        unsafe {
            *p.add(k) = if k >= at && k < at + len {
                if pat >= 10 && (k - at) % 2 == 1 { !*p.add(k - 1) } else { any((1000 + k) as u64) }
            } else {
                match pat % 10 {
                    0 => 0,
                    1 => !0,
                    2 => 0x5555_5555_5555_5555,
                    // sparse: one bit in every fourth word
                    3 => if k % 4 == 1 { 1 << (k % 64) } else { 0 },
                    // full L1 blocks alternate with empty ones
                    4 => if k / 64 % 2 == 0 { !0 } else { 0 },
                    // empty first, then full
                    5 => if k < words(n) / 2 { 0 } else { !0 },
                    // almost 8192 ones, a long gap, ones
                    7 => if k < 126 || k >= words(n) * 3 / 4 { !0 } else { 0 },
                    // a single one in the very last position
                    _ => if k == words(n) - 1 { 1 << ((n - 1) % 64) } else { 0 },
                }
            };
        }
        k += 1;
    }
    if n % 64 != 0 {
        unsafe { *p.add(words(n) - 1) &= (1usize << (n % 64)) - 1 };
    }
    bv
}

#[inline(always)]
fn rank_at<S>(r: &FlatPopcount<'_, S>, w: &[usize], n: usize, p: usize) {
    let e = ones_before(w, p);
    check(r.rank::<true>(p) == e, 1);
    check(r.len() == n, 2);
}

#[inline(always)]
fn both_at<S>(r: &FlatPopcount<'_, S>, w: &[usize], n: usize, p: usize) {
    let one = r.rank::<true>(p);
    let zero = r.rank::<false>(p);
    check(one + zero == p, 1);
    check(r.rank_dyn(p, true) == one, 2);
    check(r.rank_dyn(p, false) == zero, 3);
    if p == 0 {
        check(one == 0 && zero == 0, 4);
    }
    if p < n {
        check(r.rank::<true>(p + 1) == one + bit(w, p) as usize, 5);
    }
}

/// every position of every short vector
pub fn c15_small() {
    let n = choose(0, 0, param(0));
    let bv = mk_bv(n, 0);
    let r = build::<LinearSearch>(&bv);
    rank_at(&r, bv.raw(), n, choose(1, 0, n));
    reach(1);
}

pub fn c16_small() {
    let n = choose(0, 0, param(0));
    let bv = mk_bv(n, 0);
    let r = build::<LinearSearch>(&bv);
    both_at(&r, bv.raw(), n, choose(1, 0, n));
    reach(1);
}

#[inline(always)]
fn spot(n: usize, step: usize) -> usize {
    let q = choose(1, 0, n / step);
    let d = [0, 1, step / 2 + 1, step - 1][choose(2, 0, 3)];
    let p = q * step + d;
    assume(p <= n);
    p
}

/// p0: length, p1: first one, p2: step between positions looked at
pub fn c15_big() {
    let n = param(0);
    let bv = with_first(n, param(1));
    let r = build::<()>(&bv);
    rank_at(&r, bv.raw(), n, spot(n, param(2)));
    reach(1);
}

pub fn c16_big() {
    let n = param(0);
    let bv = with_first(n, param(1));
    let r = build::<()>(&bv);
    both_at(&r, bv.raw(), n, spot(n, param(2)));
    reach(1);
}

/// p0: length, p1: pattern, p2/p3: arbitrary words, p4: step
pub fn c15_window() {
    let n = param(0);
    let bv = window(n, param(1), param(2), param(3));
    let r = build::<BinarySearch>(&bv);
    rank_at(&r, bv.raw(), n, spot(n, param(4)));
    reach(1);
}

pub fn c16_window() {
    let n = param(0);
    let bv = window(n, param(1), param(2), param(3));
    let r = build::<BinarySearch>(&bv);
    both_at(&r, bv.raw(), n, spot(n, param(4)));
    reach(1);
}

/// positions past the end
pub fn c17_rank() {
    let n = [0, 1, 63, 64, 65, 448, 511, 512, 513, 1024, 3584, 4095, 4096, 4097][choose(0, 0, 13)];
    let bv = with_first(n, 0);
    let r = build::<LinearSearch>(&bv);
    let p = any(1);
    assume(p > n);
    let ok = match choose(1, 0, 3) {
        0 => refused(|| r.rank::<true>(p)),
        1 => refused(|| r.rank::<false>(p)),
        2 => refused(|| r.rank_dyn(p, true)),
        _ => refused(|| r.rank_dyn(p, false)),
    };
    check(ok, 1);
    check(r.len() == n && bv.len() == n, 2);
    reach(1);
}

/// positions up to the end: no memory errors
pub fn c17_in() {
    let n = [0, 1, 63, 64, 65, 448, 511, 512, 513, 1024, 3584, 4095, 4096, 4097][choose(0, 0, 13)];
    let bv = with_first(n, 0);
    let r = build::<LinearSearch>(&bv);
    let p = match choose(1, 0, 4) {
        0 => 0,
        1 => n,
        2 => n.saturating_sub(1),
        3 => n / 2,
        _ => n / 64 * 64,
    };
    check(r.rank::<true>(p) <= p, 1);
    check(r.rank_dyn(p, false) <= p, 2);
    reach(1);
}

#[inline(always)]
fn ends<S: SelectStrategy>(bv: &BitVec, arg: impl Fn() -> usize) {
    let r = build::<S>(bv);
    let k = arg();
    let _ = select(&r, k);
    reach(1);
}

/// select with any argument on small vectors: terminates inside its memory
pub fn c17_select() {
    let n = [0, 1, 2, 7, 63, 64, 65][choose(0, 0, 6)];
    let bv = mk_bv(n, 0);
    match choose(9, 0, 1) {
        0 => ends::<LinearSearch>(&bv, || any(1)),
        _ => ends::<BinarySearch>(&bv, || any(1)),
    }
}

/// p0: length, p1: first one, p2/p3: words the answer lies in (if there is one); all words arbitrary
pub fn c17_big() {
    let n = param(0);
    let bv = with_first(n, param(1));
    let (a, b) = (param(2), param(3));
    match choose(9, 0, 1) {
        0 => ends::<LinearSearch>(&bv, || within(&bv, a, b)),
        _ => ends::<BinarySearch>(&bv, || within(&bv, a, b)),
    }
}

/// p0: length, p1: pattern, p2/p3: arbitrary words, p4/p5: words the answer lies in (if there is one)
pub fn c17_window() {
    let n = param(0);
    let bv = window(n, param(1), param(2), param(3));
    let (a, b) = (param(4), param(5));
    match choose(9, 0, 1) {
        0 => ends::<LinearSearch>(&bv, || within(&bv, a, b)),
        _ => ends::<BinarySearch>(&bv, || within(&bv, a, b)),
    }
}

#[inline(always)]
fn sel<S: SelectStrategy>(bv: &BitVec, n: usize, arg: impl Fn() -> usize) {
    let r = build::<S>(bv);
    let w = bv.raw();
    let k = arg();
    match select(&r, k) {
        Some(p) => {
            check(p < n, 1);
            let p = pin(p);
            check(bit(w, p), 2);
            check(ones_before(w, p) == k, 3);
            reach(1);
        }
        None => {
            check(k >= ones_before(w, n), 4);
            reach(2);
        }
    }
}

#[inline(always)]
fn sel_any(bv: &BitVec, n: usize, arg: impl Fn() -> usize) {
    match choose(9, 0, 1) {
        0 => sel::<LinearSearch>(bv, n, arg),
        _ => sel::<BinarySearch>(bv, n, arg),
    }
}

/// every short vector, every k
pub fn c18_small() {
    let n = choose(0, 0, param(0));
    let bv = mk_bv(n, 0);
    sel_any(&bv, n, || any(1));
}

/// lengths around word ends
pub fn c18_edge() {
    let n = [33, 63, 64, 65, 66][choose(0, 0, 4)];
    let bv = mk_bv(n, 0);
    sel_any(&bv, n, || any(1));
}

/// an arbitrary number that is the rank of a one in words `a..b`, or too large
#[inline(always)]
fn within(bv: &BitVec, a: usize, b: usize) -> usize {
    match choose(6, 0, 1) {
        0 => {
            let k = choose(5, 0, bv.len() >> 13) << 13 | any(1) & 8191;
            assume(ones_before(bv.raw(), a * 64) <= k);
            assume(k < ones_before(bv.raw(), b * 64));
            k
        }
        _ => {
            let k = any(1);
            assume(k >= ones_before(bv.raw(), bv.len()));
            k
        }
    }
}

/// p0: length, p1: pattern, p2/p3: arbitrary words, p4/p5: words the answer lies in
pub fn c18_window() {
    let n = param(0);
    let bv = window(n, param(1), param(2), param(3));
    let (a, b) = (param(4), param(5));
    sel_any(&bv, n, || within(&bv, a, b));
}

/// p0: length, p1: first one, p2/p3: words the answer lies in; ones from the first one on, except
/// for an arbitrary word and its complement soon after
pub fn c18_run() {
    let n = param(0);
    let f = param(1);
    let bv = window(n, 11, f / 64 + 1, 2);
    let p = bv.raw().as_ptr() as *mut usize;
    let mut k = 0;
    while k <= f / 64 {
        unsafe { *p.add(k) = if k < f / 64 { 0 } else { !0 << (f % 64) } };
        k += 1;
    }
    let (a, b) = (param(2), param(3));
    sel_any(&bv, n, || within(&bv, a, b));
}

/// p0: length, p1: first one, p2/p3: words the answer lies in; all words arbitrary
pub fn c18_big() {
    let n = param(0);
    let bv = with_first(n, param(1));
    let (a, b) = (param(2), param(3));
    sel_any(&bv, n, || within(&bv, a, b));
}

#[inline(always)]
fn entry() -> (u128, [usize; 7]) {
    let e = any(0) as u128 | (any(1) as u128) << 64;
    let mut c = [0; 7];
    let mut i = 0;
    while i < 7 {
        c[i] = (e >> (72 - 12 * i)) as usize & 4095;
        if i > 0 {
            assume(c[i - 1] <= c[i]);
        }
        i += 1;
    }
    (e, c)
}

#[inline(always)]
fn spec_l2(c: &[usize; 7], k: usize) -> (usize, usize) {
    let mut n = 0;
    let mut last = 0;
    let mut i = 0;
    while i < 7 {
        if c[i] <= k {
            n += 1;
            last = c[i];
        }
        i += 1;
    }
    (n, last)
}

pub fn c19_strats() {
    let (e, c) = entry();
    let k = any(2);
    let s = spec_l2(&c, k);
    let l = LinearSearch::find_l2(e, k);
    let b = BinarySearch::find_l2(e, k);
    check(l.0 == s.0, 1);
    check(l.1 == s.1, 2);
    check(b.0 == s.0, 3);
    check(b.1 == s.1, 4);
    reach(1);
}

/// changing the upper 44 bits changes nothing
pub fn c19_upper() {
    let (e, _) = entry();
    let k = any(2);
    let f = (e & ((1 << 84) - 1)) | (any(3) as u128) << 84;
    check(LinearSearch::find_l2(e, k) == LinearSearch::find_l2(f, k), 1);
    check(BinarySearch::find_l2(e, k) == BinarySearch::find_l2(f, k), 2);
    reach(1);
}

#[cfg(target_feature = "sse4.1")]
mod simd {
    use super::*;
    use succinct_neo::rank_select::flat_popcount::SimdSearch;

    pub fn strats() {
        let (e, c) = entry();
        let k = any(2);
        assume(k < 4096);
        let s = SimdSearch::find_l2(e, k);
        let l = LinearSearch::find_l2(e, k);
        let b = BinarySearch::find_l2(e, k);
        check(s == l, 1);
        check(s == b, 2);
        check(s == spec_l2(&c, k), 3);
        reach(1);
    }

    /// the answer is determined, so strategies that all give it agree
    #[inline(always)]
    fn same(bv: &BitVec, arg: impl Fn() -> usize) {
        let n = bv.len();
        match choose(9, 0, 2) {
            0 => sel::<SimdSearch>(bv, n, arg),
            1 => sel::<LinearSearch>(bv, n, arg),
            _ => sel::<BinarySearch>(bv, n, arg),
        }
    }

    pub fn small() {
        let n = [0, 1, 2, 17, 64, 65][choose(0, 0, 5)];
        let bv = mk_bv(n, 0);
        same(&bv, || any(1));
    }

    pub fn big() {
        let n = param(0);
        let bv = with_first(n, param(1));
        let (a, b) = (param(2), param(3));
        same(&bv, || within(&bv, a, b));
    }

    pub fn wide() {
        let n = param(0);
        let bv = window(n, param(1), param(2), param(3));
        let (a, b) = (param(4), param(5));
        same(&bv, || within(&bv, a, b));
    }
}

#[cfg(target_feature = "sse4.1")]
pub use simd::{big as c20_big, small as c20_small, strats as c20_strats, wide as c20_window};
#[cfg(not(target_feature = "sse4.1"))]
pub fn c20_strats() {}
#[cfg(not(target_feature = "sse4.1"))]
pub fn c20_small() {}
#[cfg(not(target_feature = "sse4.1"))]
pub fn c20_window() {}
#[cfg(not(target_feature = "sse4.1"))]
pub fn c20_big() {}

/// `at`: where the one asked for lies, in words; None: anywhere, or nowhere
#[inline(always)]
fn inverse<S: SelectStrategy>(bv: &BitVec, at: Option<(usize, usize)>) {
    let n = bv.len();
    let r = build::<S>(bv);
    match choose(8, 0, 1) {
        0 => {
            let k = match at {
                Some((a, b)) => within(bv, a, b),
                None => any(1),
            };
            match select(&r, k) {
                Some(p) => {
                    check(p < n, 8);
                    let p = pin(p);
                    check(bv.get(p), 1);
                    check(r.rank::<true>(p) == k, 2);
                    check(k < r.rank::<true>(n), 3);
                    reach(1);
                }
                None => {
                    check(k >= r.rank::<true>(n), 4);
                    reach(2);
                }
            }
        }
        _ => {
            if n > 0 {
                let p = match at {
                    Some((a, b)) => choose(6, a, b - 1) * 64 + [0, 1, 7, 32, 62, 63][choose(7, 0, 5)],
                    None if n > 9 => [0, 1, 17, 31, 32, n - 2, n - 1][choose(7, 0, 6)],
                    None => choose(7, 0, n - 1),
                };
                assume(p < n);
                assume(bv.get(p));
                check(select(&r, r.rank::<true>(p)) == Some(p), 5);
                reach(3);
            }
        }
    }
}

/// consecutive arguments
#[inline(always)]
fn next<S: SelectStrategy>(bv: &BitVec) {
    let n = bv.len();
    let r = build::<S>(bv);
    let k = any(1);
    assume(k > 0);
    if let Some(q) = select(&r, k) {
        check(q < n, 9);
        let q = pin(q);
        let p = select(&r, k - 1);
        check(p.is_some(), 7);
        if let Some(p) = p {
            check(p < q, 6);
        }
        reach(4);
    }
}

pub fn c21_next() {
    let n = [2, 3, 9, 33][choose(0, 0, 3)];
    let bv = mk_bv(n, 0);
    match choose(9, 0, 1) {
        0 => next::<LinearSearch>(&bv),
        _ => next::<BinarySearch>(&bv),
    }
}

pub fn c21_small() {
    let n = [0, 1, 2, 3, 9, 33, 64, 65][choose(0, 0, 7)];
    let bv = mk_bv(n, 0);
    match choose(9, 0, 1) {
        0 => inverse::<LinearSearch>(&bv, None),
        _ => inverse::<BinarySearch>(&bv, None),
    }
}

/// p0: length, p1: first one, p2/p3: words the answer lies in; all words arbitrary
pub fn c21_big() {
    let n = param(0);
    let bv = with_first(n, param(1));
    inverse::<LinearSearch>(&bv, Some((param(2), param(3))));
}

/// p0: length, p1: pattern, p2/p3: arbitrary words, p4/p5: words the answer lies in
pub fn c21_window() {
    let n = param(0);
    let bv = window(n, param(1), param(2), param(3));
    inverse::<BinarySearch>(&bv, Some((param(4), param(5))));
}

/// lengths, emptiness, preservation and repeatability
pub fn c22_keep() {
    let n = [0, 1, 5, 33, 64, 65, 130][choose(0, 0, 6)];
    let bv = mk_bv(n, 0);
    let copy = bv.clone();
    let r = build::<LinearSearch>(&bv);
    check(r.len() == n && bv.len() == n, 1);
    check(r.is_empty() == (n == 0), 2);
    let p = choose(1, 0, n);
    match choose(2, 0, 2) {
        0 => {
            let a = r.rank::<true>(p);
            let b = r.rank_dyn(p, false);
            check(r.rank::<true>(p) == a, 3);
            check(r.rank_dyn(p, false) == b, 4);
        }
        1 => {
            if p == n && n <= 33 {
                let k = any(1);
                let a = select(&r, k);
                check(select(&r, k) == a, 5);
                let _ = r.rank::<false>(n / 2);
                check(select(&r, k) == a, 6);
            }
        }
        _ => {
            // two structures over the same vector agree
            let s = build::<BinarySearch>(&bv);
            check(r.rank::<true>(p) == s.rank::<true>(p), 7);
            check(s.len() == n && s.is_empty() == (n == 0), 8);
        }
    }
    check(bv.raw().len() == words(n) && bv.len() == n, 9);
    let mut q = 0;
    while q < words(n) {
        check(bv.raw()[q] == copy.raw()[q], 10);
        q += 1;
    }
    check(r.len() == n && r.is_empty() == (n == 0), 11);
    reach(1);
}

#[inline(always)]
fn keep(bv: &BitVec) {
    let n = bv.len();
    let copy = bv.clone();
    let r = build::<BinarySearch>(bv);
    check(r.len() == n, 1);
    check(r.is_empty() == (n == 0), 2);
    let p = [0, n / 3, n][choose(1, 0, 2)];
    let a = r.rank::<true>(p);
    check(r.rank::<true>(p) == a, 3);
    check(r.rank::<false>(p) == r.rank_dyn(p, false), 4);
    let k = any(1);
    assume(k > n);
    check(select(&r, k) == select(&r, k), 5);
    let mut q = 0;
    while q < words(n) {
        check(bv.raw()[q] == copy.raw()[q], 6);
        q += 1;
    }
    check(bv.len() == n && bv.raw().len() == words(n), 7);
    reach(1);
}

/// p0: length; all words arbitrary
pub fn c22_big() {
    keep(&with_first(param(0), param(1)));
}

/// p0: length, p1: pattern, p2/p3: arbitrary words
pub fn c22_window() {
    keep(&window(param(0), param(1), param(2), param(3)));
}
