//! C01 to C04, C23, C24 and the bit part of C26
use crate::prim::*;
use crate::util::*;
use std::rc::Rc;
use succinct_neo::bit_vec::{BitGet, BitModify, BitSlice, BitVec};

/// one arbitrary write on an arbitrary vector, every position observed
pub fn c01_step() {
    let (mut bv, n) = any_bv(0);
    let i = below(1, n);
    let j = below(2, n);
    let v = flag(3);
    let old = bit(bv.raw(), j);
    let c = choose(0, 0, 5);
    match c {
        0 => bv.set(i, v),
        1 => bv.set_bit(i, v),
        2 => (*bv).set_bit(i, v),
        3 => bv.flip(i),
        4 => bv.flip_bit(i),
        _ => (*bv).flip_bit(i),
    }
    let exp = if i != j {
        old
    } else if c < 3 {
        v
    } else {
        !old
    };
    check(bv.get(j) == exp, 1);
    check(bv.get_bit(j) == exp, 2);
    check(bit(bv.raw(), j) == exp, 3);
    check(bv.len() == n, 4);
    check(bv.raw().len() == words(n), 5);
    reach(1);
}

/// sequences of writes on new vectors of fixed lengths
pub fn c01_seq() {
    let n = [1, 2, 63, 64, 65, 128, 130, 200][choose(9, 0, 7)];
    let steps = param(0) as u64;
    let mut bv = BitVec::new(n);
    let j = below(0, n);
    let mut exp = false;
    let mut k = 0;
    while k < steps {
        let i = below(1 + 2 * k, n);
        match choose(k, 0, 1) {
            0 => {
                let v = flag(2 + 2 * k);
                bv.set(i, v);
                if i == j {
                    exp = v
                }
            }
            _ => {
                bv.flip(i);
                if i == j {
                    exp = !exp
                }
            }
        }
        k += 1;
    }
    check(bv.get(j) == exp, 1);
    check(bv.len() == n, 2);
    reach(1);
}

pub fn c02_new() {
    let n = size(0, MAXN);
    let bv = BitVec::new(n);
    check(bv.len() == n, 1);
    check(bv.is_empty() == (n == 0), 2);
    check(bv.raw().len() == words(n), 3);
    let r: &[usize] = bv.as_ref();
    check(r.len() == words(n), 4);
    if n > 0 {
        let j = below(1, n);
        check(!bv.get(j), 5);
        check(!bv.get_bit(j), 6);
        let k = below(2, words(n));
        check(bv.raw()[k] == 0, 7);
        check(r[k] == 0, 8);
        reach(2);
    } else {
        reach(3);
    }
    reach(1);
}

/// no write through any route sets a bit behind the end
pub fn c02_tail() {
    let (mut bv, n) = any_bv(0);
    assume(n > 0);
    let i = below(1, n);
    let v = flag(2);
    let a = any(3);
    let b = any(4);
    assume(a <= i && i < b && b <= n);
    match choose(0, 0, 11) {
        0 => bv.set(i, v),
        1 => bv.set_bit(i, v),
        2 => bv.flip(i),
        3 => bv.flip_bit(i),
        4 => unsafe { bv.set_unchecked(i, v) },
        5 => unsafe { bv.set_bit_unchecked(i, v) },
        6 => unsafe { bv.flip_unchecked(i) },
        7 => unsafe { bv.flip_bit_unchecked(i) },
        8 => bv.slice_mut(a..b).set(i - a, v),
        9 => bv.slice_mut(a..b).flip(i - a),
        10 => {
            let p = below(5, n);
            let (mut l, mut r) = bv.split_at_mut(p);
            if i < p {
                l.set(i, v);
                l.flip(i);
            } else {
                r.flip(i - p);
                r.set(i - p, v);
            }
        }
        _ => {
            let s: &mut BitSlice<Box<[usize]>> = bv.as_mut();
            s.flip(i);
            s.set(i, v);
        }
    }
    check(bv.raw().len() == words(n), 1);
    check(n % 64 == 0 || bv.raw()[words(n) - 1] >> (n % 64) == 0, 2);
    check(bv.len() == n, 3);
    reach(1);
}

/// positions at or past the end of a vector
pub fn c03_vec() {
    let (mut bv, n) = any_bv(0);
    let i = any(1);
    assume(i >= n);
    let v = flag(2);
    let k = any(3);
    let old = if k < words(n) { bv.raw()[k] } else { 0 };
    let ok = match choose(0, 0, 8) {
        0 => refused(|| bv.get(i)),
        1 => refused(|| bv.get_bit(i)),
        2 => refused(|| bv.set(i, v)),
        3 => refused(|| bv.set_bit(i, v)),
        4 => refused(|| (*bv).set_bit(i, v)),
        5 => refused(|| bv.flip(i)),
        6 => refused(|| bv.flip_bit(i)),
        7 => refused(|| (*bv).flip_bit(i)),
        _ => {
            let s: &mut BitSlice<Box<[usize]>> = bv.as_mut();
            refused(|| s.set(i, v))
        }
    };
    check(ok, 1);
    check(bv.len() == n, 2);
    check(bv.raw().len() == words(n), 3);
    if k < words(n) {
        check(bv.raw()[k] == old, 4);
    }
    reach(1);
}

/// positions at or past the end of a slice of a vector (also nested)
pub fn c03_slice() {
    let (mut bv, n) = any_bv(0);
    let a = any(1);
    let b = any(2);
    assume(a <= b && b <= n);
    let i = any(3);
    assume(i >= b - a);
    let v = flag(4);
    let k = any(5);
    let old = if k < words(n) { bv.raw()[k] } else { 0 };
    let ok = match choose(0, 0, 9) {
        0 => refused(|| bv.slice(a..b).get(i)),
        1 => refused(|| bv.slice(a..b).get_bit(i)),
        2 => refused(|| bv.slice_mut(a..b).get(i)),
        3 => refused(|| bv.slice_mut(a..b).set(i, v)),
        4 => refused(|| bv.slice_mut(a..b).set_bit(i, v)),
        5 => refused(|| bv.slice_mut(a..b).flip(i)),
        6 => refused(|| bv.slice_mut(a..b).flip_bit(i)),
        c => {
            // [p, q) contains [a, b)
            let p = any(6);
            let q = any(7);
            assume(p <= a && b <= q && q <= n);
            match c {
                7 => refused(|| bv.slice(p..q).slice(a - p..b - p).get(i)),
                8 => refused(|| bv.slice_mut(p..q).slice_mut(a - p..b - p).set(i, v)),
                _ => refused(|| bv.slice_mut(p..q).slice_mut(a - p..b - p).flip(i)),
            }
        }
    };
    check(ok, 1);
    check(bv.len() == n, 2);
    if k < words(n) {
        check(bv.raw()[k] == old, 3);
    }
    reach(1);
}

macro_rules! prim {
    ($t:ty) => {{
        const B: usize = std::mem::size_of::<$t>() * 8;
        let x = any(0) as $t;
        let i = any(1);
        let b = flag(2);
        let mut y = x;
        if i < B {
            match choose(1, 0, 5) {
                0 => check(x.get_bit(i) == ((x >> i) & 1 == 1), 10),
                1 => check(unsafe { x.get_bit_unchecked(i) } == ((x >> i) & 1 == 1), 11),
                2 => {
                    y.set_bit(i, b);
                    check(y == (x & !((1 as $t) << i)) | ((b as $t) << i), 12);
                }
                3 => {
                    unsafe { y.set_bit_unchecked(i, b) };
                    check(y == (x & !((1 as $t) << i)) | ((b as $t) << i), 13);
                }
                4 => {
                    y.flip_bit(i);
                    check(y == x ^ ((1 as $t) << i), 14);
                }
                _ => {
                    unsafe { y.flip_bit_unchecked(i) };
                    check(y == x ^ ((1 as $t) << i), 15);
                }
            }
            reach(1);
        } else {
            let ok = match choose(2, 0, 2) {
                0 => refused(|| x.get_bit(i)),
                1 => refused(|| y.set_bit(i, b)),
                _ => refused(|| y.flip_bit(i)),
            };
            check(ok, 16);
            check(x == y, 17);
            reach(2);
        }
    }};
}

pub fn c04_u8() {
    prim!(u8)
}
pub fn c04_u16() {
    prim!(u16)
}
pub fn c04_u32() {
    prim!(u32)
}
pub fn c04_u64() {
    prim!(u64)
}
pub fn c04_usize() {
    prim!(usize)
}

/// word slices of any length
pub fn c04_words() {
    let l = size(0, 1 << 40);
    let mut v = vec![0usize; l];
    fill(v.as_mut_ptr(), l, 0);
    let i = any(1);
    let b = flag(2);
    let w: &mut [usize] = &mut v;
    let k = any(3);
    let old = if k < l { w[k] } else { 0 };
    if i / 64 < l {
        let o = w[i / 64];
        let m = 1usize << (i % 64);
        let mut exp = old;
        match choose(0, 0, 3) {
            0 => {
                check(w.get_bit(i) == (o & m != 0), 1);
                check(unsafe { w.get_bit_unchecked(i) } == (o & m != 0), 2);
            }
            1 => {
                w.set_bit(i, b);
                if k == i / 64 {
                    exp = if b { old | m } else { old & !m };
                }
            }
            2 => {
                w.flip_bit(i);
                if k == i / 64 {
                    exp = old ^ m;
                }
            }
            _ => {
                if b {
                    unsafe { w.set_bit_unchecked(i, false) };
                    if k == i / 64 {
                        exp = old & !m;
                    }
                } else {
                    unsafe { w.flip_bit_unchecked(i) };
                    if k == i / 64 {
                        exp = old ^ m;
                    }
                }
            }
        }
        if k < l {
            check(w[k] == exp, 3);
        }
        reach(1);
    } else {
        let ok = match choose(1, 0, 2) {
            0 => refused(|| w.get_bit(i)),
            1 => refused(|| w.set_bit(i, b)),
            _ => refused(|| w.flip_bit(i)),
        };
        check(ok, 4);
        if k < l {
            check(w[k] == old, 5);
        }
        reach(2);
    }
}

// ---------------------------------------------------------------- C23

fn get_through<G: BitGet>(g: G, i: usize, mode: usize) -> Option<bool> {
    attempt(|| if mode == 0 { g.get_bit(i) } else { unsafe { g.get_bit_unchecked(i) } })
}

fn write_through<M: BitModify>(mut m: M, i: usize, v: bool, mode: usize) -> bool {
    attempt(|| match mode {
        0 => m.set_bit(i, v),
        1 => m.flip_bit(i),
        2 => unsafe { m.set_bit_unchecked(i, v) },
        _ => unsafe { m.flip_bit_unchecked(i) },
    })
    .is_some()
}

/// reads through wrappers of a vector; any index, also out of range
pub fn c23_get() {
    let (mut bv, n) = any_bv(0);
    let i = any(1);
    let mode = choose(1, 0, 1);
    if mode == 1 {
        assume(i < n);
    }
    let exp = if i < n { Some(bit(bv.raw(), i)) } else { None };
    let got = match choose(0, 0, 14) {
        0 => get_through::<&BitSlice<Box<[usize]>>>(&*bv, i, mode),
        1 => get_through::<&mut BitSlice<Box<[usize]>>>(&mut *bv, i, mode),
        2 => {
            let r: &BitSlice<Box<[usize]>> = bv.as_ref();
            get_through(r, i, mode)
        }
        3 => {
            let r: &mut BitSlice<Box<[usize]>> = bv.as_mut();
            get_through(r, i, mode)
        }
        4 => get_through(&&*bv, i, mode),
        5 => get_through(&mut &mut *bv, i, mode),
        6 => get_through(Box::new(&*bv), i, mode),
        7 => get_through(Rc::new(&*bv), i, mode),
        8 => get_through(&Rc::new(Box::new(&mut *bv)), i, mode),
        9 => get_through(Rc::new(&mut Box::new(&*bv)), i, mode),
        10 => get_through(bv.slice(..), i, mode),
        11 => get_through(Box::new(bv.slice_mut(..)), i, mode),
        12 => get_through(Rc::new(bv.slice(0..n).slice(..)), i, mode),
        13 => {
            // the word view: indices between n and the end of the last word read 0
            assume(i < n || i >= words(n) * 64);
            let r: &[usize] = bv.as_ref();
            get_through(r, i, mode)
        }
        _ => get_through(Rc::new(Rc::new(Box::new(Box::new(&&mut *bv)))), i, mode),
    };
    check(got == exp, 1);
    reach(1);
}

/// writes through wrappers of a vector; any index, also out of range
pub fn c23_modify() {
    let (mut bv, n) = any_bv(0);
    assume(n > 0);
    let i = any(1);
    let j = below(2, n);
    let v = flag(3);
    let mode = choose(1, 0, 3);
    if mode >= 2 {
        assume(i < n);
    }
    let old = bit(bv.raw(), j);
    let ok = match choose(0, 0, 11) {
        0 => write_through::<&mut BitVec>(&mut bv, i, v, mode),
        1 => write_through::<&mut BitSlice<Box<[usize]>>>(&mut *bv, i, v, mode),
        2 => {
            let r: &mut BitSlice<Box<[usize]>> = bv.as_mut();
            write_through(r, i, v, mode)
        }
        3 => write_through(&mut &mut bv, i, v, mode),
        4 => write_through(Box::new(&mut bv), i, v, mode),
        5 => write_through(&mut Box::new(&mut bv), i, v, mode),
        6 => write_through(Box::new(Box::new(&mut *bv)), i, v, mode),
        7 => write_through(bv.slice_mut(..), i, v, mode),
        8 => write_through(Box::new(&mut bv.slice_mut(0..n)), i, v, mode),
        9 => {
            let mut b = Box::new(bv);
            let ok = write_through(&mut b, i, v, mode);
            bv = *b;
            ok
        }
        10 => write_through(&mut bv.slice_mut(..).slice_mut(0..n), i, v, mode),
        _ => {
            let d: &mut dyn BitModify = &mut bv;
            write_through(d, i, v, mode)
        }
    };
    check(ok == (i < n), 1);
    let exp = if i != j {
        old
    } else if mode & 1 == 0 {
        v
    } else {
        !old
    };
    check(bv.get(j) == exp, 2);
    check(bit(bv.raw(), j) == exp, 3);
    check(bv.len() == n, 4);
    reach(1);
}

macro_rules! wrapped_int {
    ($t:ty) => {{
        let x = any(0) as $t;
        const B: usize = std::mem::size_of::<$t>() * 8;
        let i = any(1);
        let v = flag(2);
        let mode = choose(1, 0, 3);
        if mode >= 1 {
            assume(i < B);
        }
        let exp = if i < B { Some(x >> i & 1 == 1) } else { None };
        check(get_through(Rc::new(Box::new(&x)), i, mode & 1) == exp, 1);
        let mut y = Box::new(x);
        let ok = write_through(&mut y, i, v, mode);
        check(ok == (i < B), 2);
        let e = if i >= B {
            x
        } else if mode & 1 == 1 {
            x ^ (1 as $t) << i
        } else if v {
            x | (1 as $t) << i
        } else {
            x & !((1 as $t) << i)
        };
        check(*y == e, 3);
        reach(1);
    }};
}

pub fn c23_ints() {
    match choose(0, 0, 4) {
        0 => wrapped_int!(u8),
        1 => wrapped_int!(u16),
        2 => wrapped_int!(u32),
        3 => wrapped_int!(u64),
        _ => wrapped_int!(usize),
    }
}

// ---------------------------------------------------------------- C24

/// clone of a vector of any length; one write to either; one dropped
pub fn c24_vec() {
    let (a, n) = any_bv(0);
    cloned(a, n);
}

/// the same for given lengths, whatever loops the copy is made with
pub fn c24_some() {
    let n = [0, 1, 2, 63, 64, 65, 66, 128, 129, 130, 200][choose(9, 0, 10)];
    cloned(mk_bv(n, 0), n);
}

#[inline(always)]
fn cloned(mut a: BitVec, n: usize) {
    let j = any(1);
    let k = any(2);
    assume(n == 0 || (j < n && k < words(n)));
    let mut b = a.clone();
    check(b.len() == n && a.len() == n, 1);
    check(b.raw().len() == a.raw().len(), 2);
    if n > 0 {
        check(a.raw()[k] == b.raw()[k], 3);
        let old = bit(a.raw(), j);
        check(b.get(j) == old && a.get(j) == old, 4);
        let i = below(3, n);
        let v = flag(4);
        let w = choose(0, 0, 3);
        match w {
            0 => a.set(i, v),
            1 => a.flip_bit(i),
            2 => b.set_bit(i, v),
            _ => b.flip(i),
        }
        let new = if i != j {
            old
        } else if w & 1 == 0 {
            v
        } else {
            !old
        };
        check(a.get(j) == if w < 2 { new } else { old }, 5);
        check(b.get(j) == if w < 2 { old } else { new }, 6);
        if flag(5) {
            drop(a);
            check(b.get(j) == if w < 2 { old } else { new }, 7);
            check(b.len() == n, 8);
        } else {
            drop(b);
            check(a.get(j) == if w < 2 { new } else { old }, 9);
            check(a.len() == n, 10);
        }
        reach(1);
    } else {
        check(b.is_empty(), 11);
        drop(a);
        check(b.is_empty(), 12);
        reach(2);
    }
}

/// clone of slice views
pub fn c24_slice() {
    let (bv, n) = any_bv(0);
    let a = any(1);
    let b = any(2);
    assume(a < b && b <= n);
    let i = below(3, b - a);
    let s = bv.slice(a..b);
    let t = s.clone();
    check(t.len() == b - a && s.len() == b - a, 1);
    check(t.get(i) == bit(bv.raw(), a + i), 2);
    drop(s);
    check(t.get(i) == bit(bv.raw(), a + i), 3);
    // a slice that owns its storage
    let x = any(4) as u64;
    let mut o = BitSlice::new(x, 3, 60);
    let mut c = o.clone();
    let p = below(5, 57);
    let q = below(6, 57);
    check(c.len() == 57 && c.get(p) == (x >> (p + 3) & 1 == 1), 4);
    o.flip(q);
    check(c.get(p) == (x >> (p + 3) & 1 == 1), 5);
    check(o.get(p) == ((x >> (p + 3) & 1 == 1) ^ (p == q)), 6);
    c.flip(q);
    c.flip(p);
    check(o.get(p) == ((x >> (p + 3) & 1 == 1) ^ (p == q)), 7);
    reach(1);
}

// ---------------------------------------------------------------- C26

/// unchecked operations of vectors and slices against the checked ones
pub fn c26_bits() {
    let (mut bv, n) = any_bv(0);
    assume(n > 0);
    let a = any(1);
    let b = any(2);
    assume(a < b && b <= n);
    let i = below(3, b - a);
    let j = below(4, n);
    let v = flag(5);
    let old = bit(bv.raw(), j);
    let here = j == a + i;
    let exp = match choose(0, 0, 12) {
        0 => {
            check(unsafe { bv.get_unchecked(j) } == bv.get(j), 1);
            check(unsafe { bv.get_bit_unchecked(j) } == old, 2);
            old
        }
        1 => {
            unsafe { bv.set_unchecked(a + i, v) };
            if here { v } else { old }
        }
        2 => {
            unsafe { bv.set_bit_unchecked(a + i, v) };
            if here { v } else { old }
        }
        3 => {
            unsafe { bv.flip_unchecked(a + i) };
            old ^ here
        }
        4 => {
            unsafe { bv.flip_bit_unchecked(a + i) };
            old ^ here
        }
        5 => {
            let s = unsafe { bv.slice_unchecked(a..b) };
            check(s.len() == b - a, 3);
            check(s.get(i) == bit(bv.raw(), a + i), 4);
            check(unsafe { s.get_unchecked(i) } == s.get(i), 5);
            old
        }
        6 => {
            let mut s = unsafe { bv.slice_unchecked_mut(a..b) };
            check(s.len() == b - a, 6);
            unsafe { s.set_unchecked(i, v) };
            check(unsafe { s.get_bit_unchecked(i) } == v, 7);
            if here { v } else { old }
        }
        7 => {
            let mut s = bv.slice_mut(a..b);
            unsafe { s.flip_unchecked(i) };
            old ^ here
        }
        8 => {
            let mut s = bv.slice_mut(a..b);
            unsafe { s.set_bit_unchecked(i, v) };
            if here { v } else { old }
        }
        9 => {
            let mut s = unsafe { bv.slice_unchecked_mut(a..=b - 1) };
            unsafe { s.flip_bit_unchecked(i) };
            old ^ here
        }
        10 => {
            // inclusive, open and exclusive-start ranges
            use std::ops::Bound::*;
            let s = unsafe { bv.slice_unchecked(a..) };
            check(s.len() == n - a && s.get(i) == bit(bv.raw(), a + i), 8);
            let s = unsafe { bv.slice_unchecked(..=b - 1) };
            check(s.len() == b && s.get(i) == bit(bv.raw(), i), 9);
            let s = unsafe { bv.slice_unchecked((Excluded(a), Unbounded)) };
            check(s.len() == n - a - 1, 10);
            let s = unsafe { bv.slice_unchecked(..) };
            check(s.len() == n && s.get(j) == old, 11);
            old
        }
        11 => {
            use std::ops::Bound::*;
            let mut s = unsafe { bv.slice_unchecked_mut((Excluded(a), Included(b - 1))) };
            check(s.len() == b - a - 1, 12);
            if i + 1 < b - a {
                s.flip(i);
                old ^ (j == a + i + 1)
            } else {
                old
            }
        }
        _ => {
            // nested
            let mut s = bv.slice_mut(a..);
            let mut t = unsafe { s.slice_unchecked_mut(..b - a) };
            check(t.len() == b - a, 13);
            unsafe { t.set_unchecked(i, v) };
            if here { v } else { old }
        }
    };
    check(bv.get(j) == exp, 14);
    check(bit(bv.raw(), j) == exp, 15);
    check(bv.len() == n, 16);
    reach(1);
}

/// unchecked slicing of a slice, every kind of bound
pub fn c26_ranges() {
    use std::ops::Bound::*;
    let (mut bv, n) = any_bv(0);
    let a = any(1);
    let b = any(2);
    assume(a <= b && b <= n);
    let len = b - a;
    let x = any(3);
    let y = any(4);
    let lo = match choose(0, 0, 2) {
        0 => Included(x),
        1 => Excluded(x),
        _ => Unbounded,
    };
    let hi = match choose(1, 0, 2) {
        0 => Included(y),
        1 => Excluded(y),
        _ => Unbounded,
    };
    let from = match lo {
        Included(x) => x,
        Excluded(x) => {
            assume(x < usize::MAX);
            x + 1
        }
        Unbounded => 0,
    };
    let to = match hi {
        Included(y) => {
            assume(y < usize::MAX);
            y + 1
        }
        Excluded(y) => y,
        Unbounded => len,
    };
    assume(from <= to && to <= len);
    let i = any(5);
    let j = any(6);
    assume(j < n);
    let old = bit(bv.raw(), j);
    let v = flag(7);
    match choose(2, 0, 1) {
        0 => {
            let s = bv.slice(a..b);
            let t = unsafe { s.slice_unchecked((lo, hi)) };
            let u = s.slice((lo, hi));
            check(t.len() == to - from && u.len() == t.len(), 1);
            if i < t.len() {
                check(t.get(i) == bit(bv.raw(), a + from + i), 2);
                check(unsafe { t.get_unchecked(i) } == u.get(i), 3);
                reach(1);
            }
        }
        _ => {
            let mut s = bv.slice_mut(a..b);
            let mut t = unsafe { s.slice_unchecked_mut((lo, hi)) };
            check(t.len() == to - from, 4);
            if i < to - from {
                t.set(i, v);
                check(bv.get(j) == if j == a + from + i { v } else { old }, 5);
                reach(2);
            }
        }
    }
}

/// unchecked word-slice operations at valid positions
pub fn c26_words() {
    let l = any_size(0);
    assume(l >= 1 && l <= 1 << 40);
    let mut v = vec![0usize; l];
    fill(v.as_mut_ptr(), l, 0);
    let i = any(1);
    assume(i / 64 < l);
    let k = below(2, l);
    let b = flag(3);
    let w: &mut [usize] = &mut v;
    let old = w[k];
    let m = if k == i / 64 { 1usize << (i % 64) } else { 0 };
    let exp = match choose(0, 0, 2) {
        0 => {
            check(unsafe { w.get_bit_unchecked(i) } == w.get_bit(i), 1);
            old
        }
        1 => {
            unsafe { w.set_bit_unchecked(i, b) };
            if b { old | m } else { old & !m }
        }
        _ => {
            unsafe { w.flip_bit_unchecked(i) };
            old ^ m
        }
    };
    check(w[k] == exp, 2);
    reach(1);
}

macro_rules! unchecked_int {
    ($t:ty) => {{
        let x = any(0) as $t;
        let i = below(1, std::mem::size_of::<$t>() * 8);
        let v = flag(2);
        check(unsafe { x.get_bit_unchecked(i) } == x.get_bit(i), 1);
        let (mut p, mut q) = (x, x);
        p.set_bit(i, v);
        unsafe { q.set_bit_unchecked(i, v) };
        check(p == q, 2);
        p.flip_bit(i);
        unsafe { q.flip_bit_unchecked(i) };
        check(p == q, 3);
        reach(1);
    }};
}

pub fn c26_ints() {
    match choose(0, 0, 4) {
        0 => unchecked_int!(u8),
        1 => unchecked_int!(u16),
        2 => unchecked_int!(u32),
        3 => unchecked_int!(u64),
        _ => unchecked_int!(usize),
    }
}
