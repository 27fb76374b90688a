//! C05 to C09 and C27
use crate::prim::*;
use crate::util::*;
use std::ops::Bound;
use succinct_neo::bit_vec::slice::Iter;
use succinct_neo::bit_vec::{BitGet, BitModify, BitSlice, BitVec};

/// A lower bound of the given kind and the first position it admits, if there is one.
fn lower(kind: usize, s: usize) -> (Bound<usize>, Option<usize>) {
    match kind {
        0 => (Bound::Included(s), Some(s)),
        1 => (Bound::Excluded(s), if s < usize::MAX { Some(s + 1) } else { None }),
        _ => (Bound::Unbounded, Some(0)),
    }
}

/// An upper bound of the given kind and the first position past it, if there is one.
fn upper(kind: usize, e: usize, n: usize) -> (Bound<usize>, Option<usize>) {
    match kind {
        0 => (Bound::Excluded(e), Some(e)),
        1 => (Bound::Included(e), if e < usize::MAX { Some(e + 1) } else { None }),
        _ => (Bound::Unbounded, Some(n)),
    }
}

/// Start and length of a range that lies within `n`, or `None`.
fn within(lo: Option<usize>, hi: Option<usize>, n: usize) -> Option<(usize, usize)> {
    match (lo, hi) {
        (Some(s), Some(e)) if s <= e && e <= n => Some((s, e - s)),
        _ => None,
    }
}

/// any pair of bounds on any vector
pub fn c05_bounds() {
    let (mut bv, n) = any_bv(0);
    let (s, e, i) = (any(1), any(2), any(3));
    merge(0);
    let (lo, ls) = lower(choose(0, 0, 2), s);
    let (hi, he) = upper(choose(1, 0, 2), e, n);
    let spec = within(ls, he, n);
    let m = choose(2, 0, 1) == 1;
    let r = if m {
        attempt(|| {
            let t = bv.slice_mut((lo, hi));
            (t.len(), t.is_empty(), i < t.len() && t.get(i))
        })
    } else {
        attempt(|| {
            let t = bv.slice((lo, hi));
            (t.len(), t.is_empty(), i < t.len() && t.get(i))
        })
    };
    match (r, spec) {
        (None, v) => {
            check(v.is_none(), 1);
            reach(1);
        }
        (Some((len, empty, b)), v) => {
            check(v.is_some(), 2);
            let (s, l) = v.unwrap_or((0, 0));
            check(len == l, 3);
            check(empty == (l == 0), 4);
            if i < l {
                check(b == bit(bv.raw(), s + i), 5);
                reach(2);
            }
            reach(3);
        }
    }
    check(bv.len() == n, 6);
}

/// the usual range types
pub fn c05_ranges() {
    let (bv, n) = any_bv(0);
    let (s, e, i) = (any(1), any(2), any(3));
    merge(0);
    let f = |t: BitSlice<&Box<[usize]>>| (t.len(), i < t.len() && t.get(i));
    let (r, lo, hi) = match choose(0, 0, 6) {
        0 => (attempt(|| f(bv.slice(s..e))), 0, 0),
        1 => (attempt(|| f(bv.slice(s..=e))), 0, 1),
        2 => (attempt(|| f(bv.slice(s..))), 0, 2),
        3 => (attempt(|| f(bv.slice(..e))), 2, 0),
        4 => (attempt(|| f(bv.slice(..=e))), 2, 1),
        5 => (attempt(|| f(bv.slice((Bound::Included(s), Bound::Excluded(e))))), 0, 0),
        _ => (attempt(|| f(bv.slice(..))), 2, 2),
    };
    let spec = within(lower(lo, s).1, upper(hi, e, n).1, n);
    match (r, spec) {
        (None, v) => {
            check(v.is_none(), 1);
            reach(1);
        }
        (Some((len, b)), v) => {
            check(v.is_some(), 2);
            let (s, l) = v.unwrap_or((0, 0));
            check(len == l, 3);
            if i < l {
                check(b == bit(bv.raw(), s + i), 4);
                reach(2);
            }
        }
    }
}

/// slicing a slice (of a slice)
pub fn c05_nested() {
    let (mut bv, n) = any_bv(0);
    let (p, m) = (any(4), any(5));
    assume(p <= n && m <= n - p);
    let q = p + m;
    let (s, e, i) = (any(1), any(2), any(3));
    merge(0);
    let (lo, ls) = lower(choose(0, 0, 2), s);
    let (hi, he) = upper(choose(1, 0, 2), e, m);
    let spec = within(ls, he, m);
    let mut deep = 0;
    let r = match choose(2, 0, 2) {
        0 => attempt(|| {
            let t = bv.slice(p..q);
            let t = t.slice((lo, hi));
            (t.len(), i < t.len() && t.get(i))
        }),
        1 => attempt(|| {
            let mut t = bv.slice_mut(p..q);
            let t = t.slice_mut((lo, hi));
            (t.len(), i < t.len() && t.get(i))
        }),
        _ => {
            deep = any(6);
            if let Some((_, l)) = spec {
                assume(deep <= l);
            }
            attempt(|| {
                let t = bv.slice(p..q);
                let t = t.slice((lo, hi));
                let t = t.slice(deep..);
                (t.len(), i < t.len() && t.get(i))
            })
        }
    };
    match (r, spec) {
        (None, v) => {
            check(v.is_none(), 1);
            reach(1);
        }
        (Some((len, b)), v) => {
            check(v.is_some(), 2);
            let (s, l) = v.unwrap_or((0, 0));
            check(len == l - deep, 3);
            if i < l - deep {
                check(b == bit(bv.raw(), p + s + deep + i), 4);
                reach(2);
            }
        }
    }
}

/// slices over other storage
pub fn c05_storage() {
    let (s, e, i) = (any(1), any(2), any(3));
    let x = any(0) as u64;
    let w = [any(4), any(5), any(6)];
    merge(0);
    let c = choose(0, 0, 3);
    let r = match c {
        0 => attempt(|| {
            let t = BitSlice::new(x, 0, 64);
            let t = t.slice(s..e);
            (t.len(), i < t.len() && t.get(i))
        }),
        1 => attempt(|| {
            let t = BitSlice::new(x as u8, 1, 8);
            let t = t.slice(s..e);
            (t.len(), i < t.len() && t.get(i))
        }),
        2 => attempt(|| {
            let t = BitSlice::new(&w[..], 0, 192);
            let t = t.slice(s..e);
            (t.len(), i < t.len() && t.get(i))
        }),
        _ => attempt(|| {
            let t = BitSlice::new(&w[..], 70, 180);
            let t = t.slice(s..=e);
            (t.len(), i < t.len() && t.get(i))
        }),
    };
    let n = [64, 7, 192, 110][c];
    let spec = within(Some(s), upper((c == 3) as usize, e, n).1, n);
    match (r, spec) {
        (None, v) => {
            check(v.is_none(), 1);
            reach(1);
        }
        (Some((len, b)), v) => {
            check(v.is_some(), 2);
            let (s, l) = v.unwrap_or((0, 0));
            check(len == l, 3);
            if i < l {
                let p = s + i;
                let x = match c {
                    0 => x >> p & 1 == 1,
                    1 => x as u8 >> (p + 1) & 1 == 1,
                    2 => bit(&w, p),
                    _ => bit(&w, p + 70),
                };
                check(b == x, 4);
                reach(2);
            }
        }
    }
}

/// one write through a mutable slice of an arbitrary vector
pub fn c06_write() {
    let (mut bv, n) = any_bv(0);
    let (s, e) = (any(1), any(2));
    assume(s < e && e <= n);
    let i = below(3, e - s);
    let j = below(4, n);
    let v = flag(5);
    let old = bit(bv.raw(), j);
    let op = choose(1, 0, 7);
    fn go<M: BitModify>(t: &mut BitSlice<M>, op: usize, i: usize, v: bool) {
        match op {
            0 => t.set(i, v),
            1 => t.flip(i),
            2 => t.set_bit(i, v),
            3 => t.flip_bit(i),
            4 => unsafe { t.set_unchecked(i, v) },
            5 => unsafe { t.flip_unchecked(i) },
            6 => unsafe { t.set_bit_unchecked(i, v) },
            _ => unsafe { t.flip_bit_unchecked(i) },
        }
    }
    match choose(0, 0, 4) {
        0 => go(&mut bv.slice_mut(s..e), op, i, v),
        1 => go(&mut unsafe { bv.slice_unchecked_mut(s..e) }, op, i, v),
        2 => {
            // nested: [s, e) inside [p, q)
            let (p, q) = (any(6), any(7));
            assume(p <= s && e <= q && q <= n);
            let mut t = bv.slice_mut(p..q);
            go(&mut t.slice_mut(s - p..e - p), op, i, v);
            // visible through the outer slice as well
            check(t.get(s - p + i) == bit(t_words(&t), s + i), 1);
        }
        3 => {
            let p = any(6);
            assume(p <= s);
            let mut t = bv.slice_mut(p..);
            let mut t = t.slice_mut(..e - p);
            go(&mut t.slice_mut(s - p..), op, i, v);
        }
        _ => {
            let mut t = bv.slice_mut(s..=e - 1);
            let before = t.get(i);
            go(&mut t, op, i, v);
            check(t.get(i) == if op & 1 == 0 { v } else { !before }, 2);
            check(t.len() == e - s, 3);
        }
    }
    let exp = if j != s + i {
        old
    } else if op & 1 == 0 {
        v
    } else {
        !old
    };
    check(bit(bv.raw(), j) == exp, 4);
    check(bv.get(j) == exp, 5);
    check(bv.len() == n, 6);
    check(bv.raw().len() == words(n), 7);
    reach(1);
}

fn t_words<'a>(t: &'a BitSlice<&mut Box<[usize]>>) -> &'a [usize] {
    t.backing()
}

/// several writes through a slice
pub fn c06_seq() {
    let n = [70, 130, 192][choose(9, 0, 2)];
    let mut bv = mk_bv(n, 0);
    let (s, e) = (any(1), any(2));
    assume(s < e && e <= n);
    let j = below(3, n);
    let mut exp = bit(bv.raw(), j);
    {
        let mut t = bv.slice_mut(s..e);
        let mut k = 0;
        while k < 3 {
            let i = below(10 + 2 * k, e - s);
            if choose(k, 0, 1) == 0 {
                let v = flag(11 + 2 * k);
                t.set(i, v);
                if s + i == j {
                    exp = v;
                }
            } else {
                t.flip(i);
                if s + i == j {
                    exp = !exp;
                }
            }
            k += 1;
        }
    }
    check(bit(bv.raw(), j) == exp, 1);
    check(bv.get(j) == exp, 2);
    reach(1);
}

/// read-only halves of any slice of any vector
pub fn c07_split() {
    let (bv, n) = any_bv(0);
    let (a, b) = (any(1), any(2));
    assume(a <= b && b <= n);
    let p = any(3);
    let (i, j) = (any(4), any(5));
    let whole = choose(0, 0, 1) == 0;
    let (a, b) = if whole { (0, n) } else { (a, b) };
    let r = attempt(|| {
        if whole {
            let (l, r) = bv.split_at(p);
            (l.len(), r.len(), i < l.len() && l.get(i), j < r.len() && r.get(j))
        } else {
            let t = bv.slice(a..b);
            let (l, r) = t.split_at(p);
            (l.len(), r.len(), i < l.len() && l.get(i), j < r.len() && r.get(j))
        }
    });
    match r {
        None => {
            check(p >= b - a, 1);
            reach(1);
        }
        Some((ll, rl, x, y)) => {
            check(p < b - a, 2);
            check(ll == p, 3);
            check(rl == b - a - p, 4);
            if i < ll {
                check(x == bit(bv.raw(), a + i), 5);
                reach(2);
            }
            if j < rl {
                check(y == bit(bv.raw(), a + p + j), 6);
                reach(3);
            }
        }
    }
}

/// refused splits, accesses past the halves
pub fn c07_refuse() {
    let (mut bv, n) = any_bv(0);
    let (a, b) = (any(1), any(2));
    assume(a <= b && b <= n);
    let p = any(3);
    let k = any(4);
    let old = if k < words(n) { bv.raw()[k] } else { 0 };
    match choose(0, 0, 2) {
        0 => {
            assume(p >= b - a);
            check(refused(|| bv.slice_mut(a..b).split_at_mut(p).0.len()), 1);
        }
        1 => {
            assume(p >= n);
            check(refused(|| bv.split_at_mut(p).0.len()), 2);
        }
        _ => {
            assume(p < b - a);
            let i = any(5);
            let mut t = bv.slice_mut(a..b);
            let (mut l, mut r) = t.split_at_mut(p);
            check(l.len() == p && r.len() == b - a - p, 3);
            if flag(6) {
                assume(i >= p);
                check(refused(|| l.flip(i)), 4);
                check(refused(|| l.get(i)), 5);
            } else {
                assume(i >= b - a - p);
                check(refused(|| r.set(i, true)), 6);
                check(refused(|| r.get(i)), 7);
            }
        }
    }
    if k < words(n) {
        check(bv.raw()[k] == old, 8);
    }
    reach(1);
}

/// writes through both mutable halves
pub fn c07_mut() {
    let (mut bv, n) = any_bv(0);
    let (a, b) = (any(1), any(2));
    let whole = choose(2, 0, 1) == 0;
    let (a, b) = if whole { (0, n) } else { (a, b) };
    assume(a < b && b <= n);
    let p = below(3, b - a);
    let x = below(4, n);
    let old = bit(bv.raw(), x);
    let mut exp = old;
    let i = any(5);
    let j = any(6);
    let u = any(7);
    let v = flag(8);
    macro_rules! go {
        ($l:ident, $r:ident) => {{
            assume(j < b - a - p);
            check($l.len() == p && $r.len() == b - a - p, 1);
            // right, left, right: the left write must not show in the right half and vice versa
            if choose(0, 0, 1) == 0 {
                $r.set(j, v);
                if x == a + p + j {
                    exp = v;
                }
            } else {
                $r.flip(j);
                if x == a + p + j {
                    exp = !exp;
                }
            }
            let rj = $r.get(j);
            if p > 0 {
                assume(i < p);
                if choose(1, 0, 1) == 0 {
                    $l.set(i, !v);
                    if x == a + i {
                        exp = !v;
                    }
                } else {
                    $l.flip(i);
                    if x == a + i {
                        exp = !exp;
                    }
                }
            }
            check($r.get(j) == rj, 2);
            assume(u < b - a - p);
            $r.flip(u);
            if x == a + p + u {
                exp = !exp;
            }
            if p > 0 && x == a + i {
                check($l.get(i) == exp, 3);
            }
            if x == a + p + u {
                check($r.get(u) == exp, 4);
            }
        }};
    }
    if whole {
        let (mut l, mut r) = bv.split_at_mut(p);
        go!(l, r);
    } else {
        let mut t = bv.slice_mut(a..b);
        let (mut l, mut r) = t.split_at_mut(p);
        go!(l, r);
    }
    check(bit(bv.raw(), x) == exp, 5);
    check(bv.get(x) == exp, 6);
    check(bv.len() == n, 7);
    reach(1);
}

// ---------------------------------------------------------------- C08

fn hints<I: ExactSizeIterator<Item = bool>>(it: &I, left: usize, id: u64) {
    check(it.len() == left, id);
    check(it.size_hint() == (left, Some(left)), id + 1);
}

/// drives an iterator to its end, comparing with the bits [a, a+m) of the words
fn drive<I: ExactSizeIterator<Item = bool>>(mut it: I, w: &[usize], a: usize, m: usize) {
    let mut k = 0;
    while k < m {
        hints(&it, m - k, 10);
        check(it.next() == Some(bit(w, a + k)), 12);
        k += 1;
    }
    hints(&it, 0, 13);
    check(it.next().is_none(), 15);
    check(it.next().is_none(), 16);
    check(it.next().is_none(), 17);
    hints(&it, 0, 18);
}

/// one step from an arbitrary iterator state over an arbitrary vector
pub fn c08_step() {
    let (bv, n) = any_bv(0);
    let (a, b) = (any(1), any(2));
    assume(a <= b && b <= n);
    let w: &[usize] = bv.raw();
    let mut it = Iter::new(w, a, b);
    hints(&it, b - a, 1);
    let x = it.next();
    if a == b {
        check(x.is_none(), 3);
        check(it.next().is_none(), 4);
        hints(&it, 0, 5);
        reach(1);
    } else {
        check(x == Some(bit(w, a)), 7);
        hints(&it, b - a - 1, 8);
        reach(2);
    }
}

/// the iterators of vectors and slices of any length, first steps and short slices at any offset
pub fn c08_short() {
    let (bv, n) = any_bv(0);
    let a = any(1);
    let m = choose(1, 0, 3);
    assume(a <= n && m <= n - a);
    let w: &[usize] = bv.raw();
    match choose(0, 0, 6) {
        0 => drive(bv.slice(a..a + m).iter(), w, a, m),
        1 => drive(bv.slice(a..a + m).into_iter(), w, a, m),
        2 => drive((&bv.slice(a..a + m)).into_iter(), w, a, m),
        3 => drive(bv.slice(a..).slice(..m).into_iter(), w, a, m),
        c => {
            // beginning of a long iteration
            assume(n > 3);
            let mut it = match c {
                4 => bv.iter(),
                5 => (&bv).into_iter(),
                _ => (&*bv).into_iter(),
            };
            hints(&it, n, 20);
            check(it.next() == Some(bit(w, 0)), 22);
            hints(&it, n - 1, 23);
            check(it.next() == Some(bit(w, 1)), 25);
            hints(&it, n - 2, 26);
        }
    }
    reach(1);
}

/// complete iterations
pub fn c08_full() {
    let n = [0, 1, 2, 63, 64, 65, 127, 128, 130, 200][choose(9, 0, 9)];
    let bv = mk_bv(n, 0);
    let w: &[usize] = bv.raw();
    let a = if n > 70 { 5 } else { 0 };
    match choose(0, 0, 8) {
        0 => drive(bv.iter(), w, 0, n),
        1 => drive((&bv).into_iter(), w, 0, n),
        2 => drive((&*bv).into_iter(), w, 0, n),
        3 => drive(bv.slice(..).into_iter(), w, 0, n),
        4 => drive(bv.slice(a..).iter(), w, a, n - a),
        5 => drive(bv.slice(a..n).into_iter(), w, a, n - a),
        6 => {
            let mut c = bv.clone();
            drive(c.slice_mut(a..).into_iter(), w, a, n - a)
        }
        7 => {
            let c: BitSlice<Vec<usize>> = BitSlice::new(w.to_vec(), 0, n);
            check(c.len() == n, 1);
            drive(BitSlice::new(&c.backing()[..], a, n).into_iter(), w, a, n - a)
        }
        _ => {
            let x = any(1) as u64;
            drive(BitSlice::new(x, 3, 61).into_iter(), &[x as usize], 3, 58)
        }
    }
    reach(1);
}

/// methods an iterator may override
pub fn c08_adapters() {
    let n = [1, 5, 64, 70, 130][choose(9, 0, 4)];
    let bv = mk_bv(n, 0);
    let w: &[usize] = bv.raw();
    let k = choose(1, 0, 5) * n / 4;
    match choose(0, 0, 6) {
        0 => {
            let mut it = bv.iter();
            check(it.nth(k) == if k < n { Some(bit(w, k)) } else { None }, 1);
            let left = n.saturating_sub(k + 1);
            hints(&it, left, 2);
            check(it.next() == if left > 0 { Some(bit(w, k + 1)) } else { None }, 4);
        }
        1 => check(bv.iter().count() == n, 5),
        2 => check(bv.slice(..).into_iter().last() == Some(bit(w, n - 1)), 6),
        3 => {
            let mut it = bv.iter().skip(k);
            let left = n.saturating_sub(k);
            check(it.len() == left, 7);
            check(it.next() == if left > 0 { Some(bit(w, k)) } else { None }, 8);
        }
        4 => {
            // by-reference use leaves the rest in place
            let mut it = (&bv).into_iter();
            let c = it.by_ref().take(k).count();
            check(c == if k < n { k } else { n }, 9);
            hints(&it, n - c, 10);
            check(it.next() == if c < n { Some(bit(w, c)) } else { None }, 12);
        }
        5 => {
            let mut s = 0usize;
            let mut c = 0;
            bv.iter().for_each(|b| {
                s += b as usize * if c == k { 1 } else { 2 };
                c += 1;
            });
            check(c == n, 13);
            let t = 2 * ones_before(w, n) - (k < n && bit(w, k)) as usize;
            check(s == t, 14);
        }
        _ => {
            let mut it = bv.iter().step_by(3);
            check(it.len() == (n + 2) / 3, 15);
            check(it.next() == Some(bit(w, 0)), 16);
            check(it.next() == if n > 3 { Some(bit(w, 3)) } else { None }, 17);
        }
    }
    reach(1);
}

/// skipping any number of bits after some steps
pub fn c08_skip() {
    let n = [1, 5, 33, 66][choose(9, 0, 3)];
    let bv = mk_bv(n, 0);
    let w: &[usize] = bv.raw();
    let a = choose(1, 0, 1) * n / 2;
    let s = choose(2, 0, 2);
    let mut it = bv.slice(a..).into_iter();
    let mut k = 0;
    while k < s {
        it.next();
        k += 1;
    }
    let left = (n - a).saturating_sub(s);
    let q = any(1);
    match it.nth(q) {
        Some(x) => {
            check(q < left, 1);
            let q = pin(q);
            check(x == bit(w, a + s + q), 2);
            hints(&it, left - q - 1, 3);
            check(it.next() == if q + 1 < left { Some(bit(w, a + s + q + 1)) } else { None }, 5);
            reach(1);
        }
        None => {
            check(q >= left, 6);
            hints(&it, 0, 7);
            check(it.next().is_none(), 9);
            reach(2);
        }
    }
}

// ---------------------------------------------------------------- C09

/// short slices at any offset of two vectors
pub fn c09_short() {
    let (x, n) = any_bv(0);
    let (y, m) = any_bv(1);
    let (a, b) = (any(2), any(3));
    let (l, r) = (choose(0, 0, 3), choose(1, 0, 3));
    assume(a <= n && l <= n - a && b <= m && r <= m - b);
    let mut exp = l == r;
    let mut k = 0;
    while k < l && k < r {
        exp &= bit(x.raw(), a + k) == bit(y.raw(), b + k);
        k += 1;
    }
    let s = x.slice(a..a + l);
    let t = y.slice(b..b + r);
    check((s == t) == exp, 1);
    check((t == s) == exp, 2);
    check((s != t) == !exp, 3);
    check(s == s, 4);
    reach(1);
}

/// different storage kinds
pub fn c09_storage() {
    let x = any(0) as u64;
    let w = [any(1), any(2), any(3)];
    let l = choose(0, 0, 4);
    let (a, b) = (any(4), any(5));
    assume(a <= 64 - l && b <= 192 - l);
    let t = BitSlice::new(&w[..], b, b + l);
    let mut exp = true;
    let mut exp8 = true;
    let mut k = 0;
    while k < l {
        exp &= (x >> (a + k) & 1 == 1) == bit(&w, b + k);
        exp8 &= (x >> (k + 2) & 1 == 1) == bit(&w, b + k);
        k += 1;
    }
    check((BitSlice::new(x, a, a + l) == t) == exp, 1);
    check((t == BitSlice::new(Box::new(x as usize), a, a + l)) == exp, 2);
    check((BitSlice::new(x as u8, 2, 2 + l) == t) == exp8, 3);
    check((t == BitSlice::new(x as u16, 2, 2 + l)) == exp8, 4);
    check((BitSlice::new(&(x as u32), 2, 2 + l) == t) == exp8, 5);
    reach(1);
}

/// the same container on both sides, overlapping and empty windows
pub fn c09_same() {
    let (x, n) = any_bv(0);
    let (a, b) = (any(1), any(2));
    let l = choose(0, 0, 4);
    assume(a <= n && l <= n - a && b <= n && l <= n - b);
    let mut exp = true;
    let mut k = 0;
    while k < l {
        exp &= bit(x.raw(), a + k) == bit(x.raw(), b + k);
        k += 1;
    }
    let s = x.slice(a..a + l);
    let t = x.slice(b..b + l);
    check((s == t) == exp, 1);
    check((t == s) == exp, 2);
    // lengths differ
    let (c, d) = (any(3), any(4));
    assume(c <= d && d <= n && d - c != l);
    check(s != x.slice(c..d), 3);
    check(!(x.slice(c..d) == s), 4);
    reach(1);
}

/// longer slices
pub fn c09_long() {
    let l = [63, 64, 65, 100, 128, 130][choose(0, 0, 5)];
    let (a, b) = [(0, 0), (0, 1), (3, 64), (63, 1), (60, 60)][choose(1, 0, 4)];
    let x = mk_bv(200, 0);
    let y = mk_bv(195, 1);
    let s = x.slice(a..a + l);
    let t = y.slice(b..b + l);
    // one place differs at most
    let p = any(2);
    let mut k = 0;
    while k < l {
        assume(k == p || bit(x.raw(), a + k) == bit(y.raw(), b + k));
        k += 1;
    }
    let exp = p >= l || s.get(p) == t.get(p);
    check((s == t) == exp, 1);
    check((t == s) == exp, 2);
    if exp {
        reach(1);
    } else {
        reach(2);
    }
}

/// p0: length; long slices that differ in four bits at most
pub fn c09_far() {
    let l = param(0);
    let (a, b) = [(0, 0), (0, 1), (3, 64), (63, 1)][choose(1, 0, 3)];
    let at = [0, l / 3, l / 2, l - 64, l - 4][choose(2, 0, 4)];
    let x = BitVec::new(l + 70);
    let y = BitVec::new(l + 65);
    let (v, w) = (any(0), any(1));
    let mut k = 0;
    while k < l {
        let mut p = 0x5bd1_e995_0f33_aa55usize >> (k % 61) & 1;
        let mut q = p;
        if k >= at && k < at + 4 {
            p = v >> (k - at) & 1;
            q = w >> (k - at) & 1;
        }
        unsafe {
            *(x.raw().as_ptr() as *mut usize).add((a + k) / 64) |= p << ((a + k) % 64);
            *(y.raw().as_ptr() as *mut usize).add((b + k) / 64) |= q << ((b + k) % 64);
        }
        k += 1;
    }
    let s = x.slice(a..a + l);
    let t = y.slice(b..b + l);
    let exp = (v ^ w) & 15 == 0;
    check((s == t) == exp, 1);
    check((t == s) == exp, 2);
    if exp {
        reach(1);
    } else {
        reach(2);
    }
}

/// whole vectors
pub fn c09_vec() {
    let n = [0, 1, 64, 65, 130][choose(0, 0, 4)];
    let m = [0, 1, 64, 65, 130][choose(1, 0, 4)];
    let x = mk_bv(n, 0);
    let y = mk_bv(m, 1);
    let r = *x == *y;
    check(r == (*y == *x), 1);
    check(!r || n == m, 2);
    if n == m {
        let mut same = true;
        let mut k = 0;
        while k < words(n) {
            same &= x.raw()[k] == y.raw()[k];
            k += 1;
        }
        check(r == same, 3);
    }
    reach(1);
}

// ---------------------------------------------------------------- C27

/// one access through a view over `a..b` of a container
#[inline(always)]
fn through(c: impl BitGet + BitModify, a: usize, b: usize, op: usize, i: usize, v: bool) -> bool {
    let mut s = BitSlice::new(c, a, b);
    check(a <= b, 1);
    match op {
        0 => s.get(i),
        1 => {
            s.set(i, v);
            v
        }
        2 => {
            s.flip(i);
            s.get(i)
        }
        _ => s.slice(i..).get(0),
    }
}

/// slices constructed over arbitrary ranges
pub fn c27_slice() {
    let (bv, n) = any_bv(0);
    let (a, b, i) = (any(1), any(2), any(3));
    let v = flag(4);
    let mut w = bv;
    let cap = words(n) * 64;
    let kind = choose(1, 0, 2);
    // bits the container has: its words, or its length when the container is the vector itself
    let lim = if kind == 1 { n } else { cap };
    let k = any(5);
    let oldk = if k < words(n) { w.raw()[k] } else { 0 };
    let op = choose(0, 0, 3);
    let old = if a.checked_add(i).is_some_and(|p| p < lim) { Some(bit(w.raw(), a + i)) } else { None };
    let r = match kind {
        0 => attempt(|| {
            let p = w.raw().as_ptr() as *mut usize;
            let ws = unsafe { std::slice::from_raw_parts_mut(p, words(n)) };
            through(ws, a, b, op, i, v)
        }),
        1 => attempt(|| through(&mut *w, a, b, op, i, v)),
        _ => attempt(|| {
            let p = w.raw().as_ptr() as *mut usize;
            let mut bx = std::mem::ManuallyDrop::new(unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, words(n))) });
            through(&mut *bx, a, b, op, i, v)
        }),
    };
    match r {
        Some(x) => {
            check(a <= b && i < b - a, 3);
            check(old.is_some(), 5);
            if let Some(o) = old {
                check(x == match op {
                    1 => v,
                    2 => !o,
                    _ => o,
                }, 4);
            }
            reach(1);
        }
        None => {
            // refused: only if something about the request was wrong, and nothing changed
            check(a > b || i >= b - a || b > lim, 6);
            if k < words(n) {
                check(w.raw()[k] == oldk, 7);
            }
            reach(2);
        }
    }
}

/// iterators constructed over arbitrary ranges
pub fn c27_iter() {
    let (bv, n) = any_bv(0);
    let (a, b) = (any(1), any(2));
    let w: &[usize] = bv.raw();
    let cap = words(n) * 64;
    match choose(0, 0, 3) {
        0 => {
            let r = attempt(|| Iter::new(w, a, b).next());
            match r {
                Some(Some(x)) => {
                    check(a < b && a < cap, 1);
                    check(x == bit(w, a), 2);
                    reach(1);
                }
                Some(None) => {
                    check(a >= b, 3);
                    reach(2);
                }
                None => {
                    check(a > b || b > cap, 4);
                    reach(3);
                }
            }
        }
        1 => {
            let r = attempt(|| Iter::new(&*bv, a, b).next());
            match r {
                Some(Some(x)) => {
                    check(a < b && a < n, 5);
                    check(x == bit(w, a), 6);
                    reach(4);
                }
                Some(None) => check(a >= b, 7),
                None => check(a > b || b > n, 8),
            }
        }
        2 => {
            let r = attempt(|| {
                let s = BitSlice::new(w, a, b);
                check(a <= b, 9);
                let mut it = s.into_iter();
                it.next();
                it.next()
            });
            match r {
                Some(Some(x)) => {
                    check(b - a > 1 && a + 1 < cap, 10);
                    check(x == bit(w, a + 1), 11);
                    reach(5);
                }
                Some(None) => check(b - a <= 1, 12),
                None => check(a > b || b > cap, 13),
            }
        }
        _ => {
            let r = attempt(|| {
                let s = BitSlice::new(w, a, b);
                let (l, r) = s.split_at(1);
                (l.get(0), r.iter().next())
            });
            match r {
                Some((x, y)) => {
                    check(b - a > 1 && a < cap, 14);
                    check(x == bit(w, a), 15);
                    check(y.is_some(), 17);
                    if let Some(y) = y {
                        check(a + 1 < cap && y == bit(w, a + 1), 16);
                    }
                    reach(6);
                }
                None => check(a > b || b - a <= 1 || b > cap, 18),
            }
        }
    }
}

/// small integers as storage, comparison of views that reach past the end
pub fn c27_ints() {
    let x = any(0);
    let (a, b, i) = (any(1), any(2), any(3));
    macro_rules! one {
        ($t:ty, $n:expr) => {{
            let v = x as $t;
            let r = attempt(|| {
                let s = BitSlice::new(v, a, b);
                check(a <= b, 1);
                s.get(i)
            });
            match r {
                Some(y) => {
                    check(i < b - a && a + i < $n, 2);
                    check(y == (v >> (a + i) & 1 == 1), 3);
                    reach(1);
                }
                None => check(a > b || i >= b - a || b > $n, 4),
            }
        }};
    }
    match choose(0, 0, 4) {
        0 => one!(u8, 8),
        1 => one!(u16, 16),
        2 => one!(u32, 32),
        3 => one!(u64, 64),
        _ => {
            // comparing views
            assume(a <= b && b - a <= 3);
            let w = [x, any(4)];
            let s = BitSlice::new(&w[..], a, b);
            let r = attempt(|| s == s);
            match r {
                Some(e) => {
                    check(e, 5);
                    reach(2);
                }
                None => check(b > 128, 6),
            }
        }
    }
}
