//! C25
use crate::prim::*;
use crate::util::*;
use std::fmt::Write;
use succinct_neo::bit_vec::BitVec;

/// Fixed-size text sink, so that no allocation hides between the formatter and the check.
struct Sink {
    buf: [u8; 4096],
    len: usize,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.buf[self.len] = b;
            self.len += 1;
        }
        Ok(())
    }
}

#[inline(always)]
fn printed(bv: &BitVec, n: usize) {
    let mut s = Sink { buf: [0; 4096], len: 0 };
    let ok = write!(s, "{:?}", bv).is_ok();
    check(ok, 1);
    check(s.len == if n == 0 { 2 } else { 3 * n }, 2);
    check(s.buf[0] == b'{' && s.buf[s.len - 1] == b'}', 3);
    let mut i = 0;
    while i < n {
        check(s.buf[1 + 3 * i] == b'0' + bit(bv.raw(), i) as u8, 4);
        if i + 1 < n {
            check(s.buf[2 + 3 * i] == b',' && s.buf[3 + 3 * i] == b' ', 5);
        }
        i += 1;
    }
    reach(1);
}

/// all contents of short vectors
pub fn c25_fmt() {
    let n = choose(0, 0, param(0));
    let bv = mk_bv(n, 0);
    printed(&bv, n);
}

/// p0: length; four arbitrary bits somewhere in a fixed pattern
pub fn c25_long() {
    let n = param(0);
    let bv = BitVec::new(n);
    check(bv.raw().len() >= words(n), 900);
    let p = bv.raw().as_ptr() as *mut usize;
    let at = (choose(0, 0, 15) * n / 15).min(n - 4);
    let pat = [0, !0, 0x5bd1_e995_0f33_aa55][choose(1, 0, 2)];
    let w = any(1);
    let mut i = 0;
    while i < n {
        let b = if i >= at && i < at + 4 { w >> (i - at) & 1 } else { pat >> (i % 64) & 1 };
        unsafe { *p.add(i / 64) |= b << (i % 64) };
        i += 1;
    }
    printed(&bv, n);
}
