//! C10 to C14 and the packed integer part of C26
use crate::prim::*;
use crate::util::*;
use succinct_neo::int_vec::{IntAccess, IntVec};

const CAPS: [usize; 8] = [0, 1, 2, 8, 9, 63, 64, 100];

#[inline(always)]
fn mask(w: usize) -> usize {
    !0usize >> (64 - w)
}

#[inline(always)]
fn val(id: usize, w: usize) -> usize {
    any(id as u64) & mask(w)
}

/// width, capacity choice (the last choice is the default capacity)
#[inline(always)]
fn fresh() -> (IntVec, usize) {
    let w = choose(100, 1, 64);
    let c = choose(101, 0, 8);
    let v = if c == 8 { IntVec::new(w) } else { IntVec::with_capacity(w, CAPS[c]) };
    (v, w)
}

/// specified words of the packed representation, maintained independently
struct Spec {
    w: usize,
    n: usize,
    d: [usize; 144],
}

impl Spec {
    #[inline(always)]
    fn put(&mut self, i: usize, v: usize) {
        let (b, o) = (i * self.w / 64, i * self.w % 64);
        let m = mask(self.w);
        self.d[b] = self.d[b] & !(m << o) | v << o;
        if o + self.w > 64 {
            self.d[b + 1] = self.d[b + 1] & !(m >> (64 - o)) | v >> (64 - o);
        }
    }
    #[inline(always)]
    fn get(&self, i: usize) -> usize {
        let (b, o) = (i * self.w / 64, i * self.w % 64);
        let mut v = self.d[b] >> o;
        if o + self.w > 64 {
            v |= self.d[b + 1] << (64 - o);
        }
        v & mask(self.w)
    }
}

/// pushes of arbitrary values, all read back
pub fn c10_push() {
    let (mut v, w) = fresh();
    let n = param(0);
    check(v.is_empty(), 1);
    check(v.iter().len() == 0, 2);
    let mut k = 0;
    while k < n {
        let x = val(k, w);
        v.push(x);
        check(!v.is_empty(), 3);
        check(v.get(k) == x, 4);
        if k > 0 {
            check(v.get(k - 1) == val(k - 1, w), 5);
        }
        if k % 9 == 8 {
            let mut i = 0;
            while i <= k {
                check(v.get(i) == val(i, w), 6);
                i += 1;
            }
        }
        k += 1;
    }
    let mut i = 0;
    while i < n {
        check(v.get(i) == val(i, w), 7);
        i += 1;
    }
    check(v.iter().len() == n, 8);
    reach(1);
}

/// any initial capacity
pub fn c10_capacity() {
    let w = choose(100, 1, 64);
    let c = any_size(0);
    assume(c <= 1 << 36);
    let mut v = IntVec::with_capacity(w, c);
    check(v.is_empty(), 1);
    let (x, y) = (val(1, w), val(2, w));
    // enough room for two elements without growing: growth is covered by c10_push
    assume(c >= 192);
    v.push(x);
    check(v.get(0) == x, 2);
    v.push(y);
    check(v.get(1) == y, 3);
    check(v.get(0) == x, 4);
    check(!v.is_empty(), 5);
    reach(1);
}

/// sets at every position in a scattered order, then pushes and sets again
pub fn c11_set() {
    let (mut v, w) = fresh();
    let n = param(0);
    let stride = param(1);
    let mut s = Spec { w, n, d: [0; 144] };
    let mut k = 0;
    while k < n {
        let x = val(k, w);
        v.push(x);
        s.put(k, x);
        k += 1;
    }
    k = 0;
    while k < n {
        let i = (k * stride + 5) % n;
        let x = val(1000 + k, w);
        v.set(i, x);
        s.put(i, x);
        check(v.get(i) == x, 1);
        let mut j = 0;
        while j < n {
            check(v.get(j) == s.get(j), 2);
            j += 1;
        }
        k += 1;
    }
    // later pushes and sets
    k = 0;
    while k < 4 {
        let x = val(2000 + k, w);
        v.push(x);
        s.put(n + k, x);
        let y = val(3000 + k, w);
        let i = (n + k) - k * 2 / 3;
        v.set(i, y);
        s.put(i, y);
        k += 1;
    }
    let mut j = 0;
    while j < n + 4 {
        check(v.get(j) == s.get(j), 3);
        j += 1;
    }
    check(v.iter().len() == n + 4, 4);
    reach(1);
}

/// one set at an arbitrary index, observed at an arbitrary index
pub fn c11_any() {
    let w = choose(100, 1, 64);
    let n = param(0);
    let mut v = IntVec::new(w);
    let mut k = 0;
    while k < n {
        v.push(val(k, w));
        k += 1;
    }
    let i = below(500, n);
    let j = below(501, n);
    let x = val(502, w);
    let old = v.get(j);
    v.set(i, x);
    check(v.get(j) == if i == j { x } else { old }, 1);
    reach(1);
}

/// rejected pushes, sets and reads
pub fn c12_reject() {
    let w = choose(100, 1, 64);
    let n = [0, 1, 2, 5, 21, 64][choose(101, 0, 5)];
    let mut v = IntVec::with_capacity(w, CAPS[choose(102, 0, 2)]);
    let mut k = 0;
    while k < n {
        v.push(val(k, w));
        k += 1;
    }
    let i = any(500);
    let x = any(501);
    match choose(103, 0, 4) {
        0 => {
            assume(x > mask(w));
            check(refused(|| v.push(x)), 1);
        }
        1 => {
            assume(x > mask(w));
            check(refused(|| v.set(i, x)), 2);
        }
        2 => {
            assume(i >= n);
            check(refused(|| v.set(i, x)), 3);
        }
        3 => {
            assume(i >= n);
            check(refused(|| v.get(i)), 4);
        }
        _ => {
            // boundary values are accepted
            let m = mask(w);
            check(!refused(|| v.push(m)), 5);
            check(v.get(n) == m, 6);
            check(!refused(|| v.set(n, 0)), 7);
            check(v.get(n) == 0, 8);
            reach(1);
            return;
        }
    }
    let mut j = 0;
    while j < n {
        check(v.get(j) == val(j, w), 9);
        j += 1;
    }
    check(v.iter().len() == n, 10);
    check(v.is_empty() == (n == 0), 11);
    // still usable
    let y = val(502, w);
    v.push(y);
    check(v.get(n) == y, 12);
    check(v.iter().len() == n + 1, 13);
    if n > 0 {
        check(v.get(n - 1) == val(n - 1, w), 14);
    }
    reach(2);
}

/// invalid widths, chosen values
pub fn c12_width() {
    let w = [0, 65, 66, 127, 128, 129, 192, 1 << 20, 1 << 63, usize::MAX][choose(0, 0, 9)];
    let c = [0, 1, 8, 100][choose(1, 0, 3)];
    check(refused(|| IntVec::with_capacity(w, c)), 1);
    check(refused(|| IntVec::new(w)), 2);
    reach(1);
}

/// every invalid width
pub fn c12_width_any() {
    let w = any(0);
    assume(w == 0 || w > 64);
    if choose(0, 0, 1) == 0 {
        check(refused(|| IntVec::new(w)), 1);
    } else {
        let c = any(1);
        check(refused(|| IntVec::with_capacity(w, c)), 2);
    }
    reach(1);
}

fn drive<I: ExactSizeIterator<Item = usize>>(mut it: I, n: usize, w: usize) {
    let mut k = 0;
    while k < n {
        check(it.len() == n - k, 1);
        check(it.size_hint() == (n - k, Some(n - k)), 2);
        check(it.next() == Some(val(k, w)), 3);
        k += 1;
    }
    k = 0;
    while k < 3 {
        check(it.len() == 0, 4);
        check(it.size_hint() == (0, Some(0)), 5);
        check(it.next().is_none(), 6);
        k += 1;
    }
    check(it.len() == 0, 7);
}

pub fn c13_iter() {
    let w = choose(100, 1, 64);
    let n = [0, 1, 2, 3, 33, 66][choose(101, 0, 5)];
    let mut v = IntVec::with_capacity(w, CAPS[choose(102, 0, 1) * 5]);
    let mut k = 0;
    while k < n {
        v.push(val(k, w));
        k += 1;
    }
    match choose(103, 0, 2) {
        0 => drive(v.iter(), n, w),
        1 => drive((&v).into_iter(), n, w),
        _ => drive(v.into_iter(), n, w),
    }
    reach(1);
}

pub fn c13_adapters() {
    let w = [1, 7, 31, 32, 33, 63, 64][choose(100, 0, 6)];
    let n = [1, 4, 11][choose(101, 0, 2)];
    let mut v = IntVec::new(w);
    let mut k = 0;
    while k < n {
        v.push(val(k, w));
        k += 1;
    }
    let q = choose(102, 0, 12);
    let exp = |i: usize| if i < n { Some(val(i, w)) } else { None };
    match choose(103, 0, 5) {
        0 => {
            let mut it = v.iter();
            check(it.nth(q) == exp(q), 1);
            check(it.len() == n.saturating_sub(q + 1), 2);
            check(it.next() == exp(q + 1), 3);
        }
        1 => {
            let mut it = v.into_iter();
            check(it.nth(q) == exp(q), 4);
            check(it.size_hint().0 == n.saturating_sub(q + 1), 5);
            check(it.next() == exp(q + 1), 6);
        }
        2 => check(v.iter().count() == n, 7),
        3 => check(v.into_iter().last() == exp(n - 1), 8),
        4 => {
            let mut it = v.iter().skip(q);
            check(it.len() == n.saturating_sub(q), 9);
            check(it.next() == exp(q), 10);
        }
        _ => {
            let mut c = 0;
            v.iter().for_each(|x| {
                check(Some(x) == exp(c), 11);
                c += 1;
            });
            check(c == n, 12);
        }
    }
    reach(1);
}

/// skipping any number of elements after some steps
fn skip<I: ExactSizeIterator<Item = usize>>(mut it: I, n: usize, w: usize, s: usize) {
    let mut k = 0;
    while k < s {
        it.next();
        k += 1;
    }
    let left = n.saturating_sub(s);
    let q = any(0);
    match it.nth(q) {
        Some(x) => {
            check(q < left, 1);
            let q = pin(q);
            check(x == val(s + q, w), 2);
            check(it.len() == left - q - 1, 3);
            check(it.next() == if q + 1 < left { Some(val(s + q + 1, w)) } else { None }, 4);
            reach(1);
        }
        None => {
            check(q >= left, 5);
            check(it.len() == 0 && it.size_hint() == (0, Some(0)), 6);
            check(it.next().is_none(), 7);
            reach(2);
        }
    }
}

pub fn c13_skip() {
    let w = [1, 7, 33, 64][choose(100, 0, 3)];
    let n = [1, 4, 11][choose(101, 0, 2)];
    let mut v = IntVec::new(w);
    let mut k = 0;
    while k < n {
        v.push(val(k, w));
        k += 1;
    }
    let s = choose(102, 0, 2);
    match choose(103, 0, 1) {
        0 => skip(v.iter(), n, w, s),
        _ => skip(v.into_iter(), n, w, s),
    }
}

/// the exposed words
pub fn c14_layout() {
    let (mut v, w) = fresh();
    let n = param(0);
    let mut s = Spec { w, n: 0, d: [0; 144] };
    layout(&v, &s);
    let mut k = 0;
    while k < n {
        let x = val(k, w);
        v.push(x);
        s.put(k, x);
        s.n = k + 1;
        layout(&v, &s);
        if k % 5 == 4 {
            let i = k * 7 % (k + 1);
            let y = val(1000 + k, w);
            v.set(i, y);
            s.put(i, y);
            layout(&v, &s);
        }
        k += 1;
    }
    reach(1);
}

#[inline(always)]
fn layout(v: &IntVec, s: &Spec) {
    let r = v.raw_data();
    check(r.len() <= s.n * s.w / 64 + 1, 1);
    check(r.len() >= words(s.n * s.w), 2);
    let mut k = 0;
    while k < r.len() {
        check(r[k] == s.d[k], 3);
        k += 1;
    }
}

/// p0: length; p1: position of three arbitrary elements among fixed ones of many bits
#[inline(always)]
fn far(k: usize, w: usize) -> usize {
    if k >= param(1) && k < param(1) + 3 {
        val(k, w)
    } else {
        k.wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23) & mask(w)
    }
}

#[inline(always)]
fn long() -> (IntVec, usize) {
    let w = [1, 3, 7, 13, 32, 33, 63, 64][choose(100, 0, 7)];
    (IntVec::with_capacity(w, CAPS[choose(101, 0, 1) * 7]), w)
}

pub fn c10_long() {
    let (mut v, w) = long();
    let n = param(0);
    let mut k = 0;
    while k < n {
        v.push(far(k, w));
        check(v.get(k) == far(k, w), 1);
        k += 1;
    }
    k = 0;
    while k < n {
        check(v.get(k) == far(k, w), 2);
        k += 1;
    }
    check(!v.is_empty() && v.iter().len() == n, 3);
    reach(1);
}

/// every third element is set to another one's value
pub fn c11_long() {
    let (mut v, w) = long();
    let n = param(0);
    let mut k = 0;
    while k < n {
        v.push(far(k, w));
        k += 1;
    }
    k = param(1) % 3;
    while k < n {
        v.set(k, far(n - k, w));
        k += 3;
    }
    v.push(val(n, w));
    k = 0;
    while k < n {
        check(v.get(k) == if k % 3 == param(1) % 3 { far(n - k, w) } else { far(k, w) }, 1);
        k += 1;
    }
    check(v.get(n) == val(n, w), 2);
    reach(1);
}

pub fn c13_long() {
    let (mut v, w) = long();
    let n = param(0);
    let mut k = 0;
    while k < n {
        v.push(far(k, w));
        k += 1;
    }
    if choose(103, 0, 1) == 0 {
        drive_far(v.iter(), n, w)
    } else {
        drive_far(v.into_iter(), n, w)
    }
    reach(1);
}

fn drive_far<I: ExactSizeIterator<Item = usize>>(mut it: I, n: usize, w: usize) {
    let mut k = 0;
    while k < n {
        check(it.len() == n - k && it.size_hint() == (n - k, Some(n - k)), 1);
        check(it.next() == Some(far(k, w)), 2);
        k += 1;
    }
    check(it.len() == 0 && it.size_hint() == (0, Some(0)), 3);
    check(it.next().is_none() && it.next().is_none(), 4);
}

pub fn c14_long() {
    let (mut v, w) = long();
    let n = param(0);
    let mut d = [0usize; 1200];
    let mut k = 0;
    while k < n {
        let x = far(k, w);
        v.push(x);
        let (b, o) = (k * w / 64, k * w % 64);
        d[b] |= x << o;
        if o + w > 64 {
            d[b + 1] |= x >> (64 - o);
        }
        check(v.raw_data().len() <= (k + 1) * w / 64 + 1, 1);
        k += 1;
    }
    let r = v.raw_data();
    check(r.len() >= words(n * w), 2);
    k = 0;
    while k < r.len() {
        check(r[k] == d[k], 3);
        k += 1;
    }
    reach(1);
}

/// unchecked packed integer accessors
pub fn c26_packed() {
    let w = choose(100, 1, 64);
    let n = [1, 2, 21, 66][choose(101, 0, 3)];
    let mut v = IntVec::new(w);
    let mut u = IntVec::with_capacity(w, n);
    let mut k = 0;
    while k < n {
        v.push(val(k, w));
        u.push(val(k, w));
        k += 1;
    }
    k = 0;
    while k < n {
        check(unsafe { v.get_unchecked(k) } == val(k, w), 1);
        check(v.get(k) == val(k, w), 2);
        k += 1;
    }
    k = 0;
    while k < n {
        check(unsafe { v.get_unchecked(k) } == v.get(k), 6);
        let i = k * 7 % n;
        let x = val(1000 + k, w);
        v.set(i, x);
        unsafe { u.set_unchecked(i, x) };
        let mut j = 0;
        while j < v.raw_data().len() {
            check(u.raw_data()[j] == v.raw_data()[j], 3);
            j += 1;
        }
        check(unsafe { u.get_unchecked(i) } == x, 4);
        k += 1;
    }
    check(u.raw_data().len() == v.raw_data().len(), 5);
    reach(1);
}
