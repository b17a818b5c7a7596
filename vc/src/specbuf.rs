//! The contract of `bsn1::Buffer` as a replacement for its implementation, for proofs of the code
//! that uses it. C10 proves the implementations against this contract.
//!
//! `cap` is the capacity the caller may rely on: what was asked for, or 16, the smaller inline
//! capacity of the two implementations. Using more than that fails an assertion, and so does using
//! more octets than are modelled.
#![cfg(kani)]
use bsn1::Buffer;

pub const MAX: usize = 48;
const INLINE: usize = 16;

#[repr(C)]
struct S {
    p: *mut u8,
    cap: usize,
    len: usize,
}

fn s(b: &Buffer) -> &S {
    unsafe { std::mem::transmute(b) }
}

fn m(b: &mut Buffer) -> &mut S {
    unsafe { std::mem::transmute(b) }
}

/// 48 octets of storage.
pub mod small {
    use super::{m, s, INLINE, MAX, S};
    pub use super::extend_from_slice;
    use bsn1::Buffer;

    pub fn new() -> Buffer {
        unsafe {
            let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(MAX, 1));
            std::mem::transmute(S { p, cap: INLINE, len: 0 })
        }
    }

    pub fn with_capacity(c: usize) -> Buffer {
        let mut b = new();
        if c > INLINE {
            m(&mut b).cap = c;
        }
        b
    }

    pub fn reserve(b: &mut Buffer, a: usize) {
        let l = s(b).len;
        if l + a > s(b).cap {
            m(b).cap = l + a;
        }
    }
}

pub fn len(b: &Buffer) -> usize {
    s(b).len
}

pub fn capacity(b: &Buffer) -> usize {
    s(b).cap
}

pub unsafe fn set_len(b: &mut Buffer, n: usize) {
    assert!(n <= s(b).cap);
    m(b).len = n
}

pub fn as_ptr(b: &Buffer) -> *const u8 {
    s(b).p
}

pub fn as_mut_ptr(b: &mut Buffer) -> *mut u8 {
    s(b).p
}

pub fn as_slice(b: &Buffer) -> &[u8] {
    unsafe { std::slice::from_raw_parts(s(b).p, s(b).len) }
}

pub fn as_mut_slice(b: &mut Buffer) -> &mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(s(b).p, s(b).len) }
}

pub unsafe fn push(b: &mut Buffer, v: u8) {
    let n = s(b).len;
    assert!(n < s(b).cap);
    *s(b).p.add(n) = v;
    m(b).len = n + 1;
}

pub unsafe fn extend_from_slice(b: &mut Buffer, v: &[u8]) {
    let n = s(b).len;
    assert!(v.len() <= s(b).cap && n <= s(b).cap - v.len());
    s(b).p.add(n).copy_from_nonoverlapping(v.as_ptr(), v.len());
    m(b).len = n + v.len();
}

pub fn into_vec(b: Buffer) -> Vec<u8> {
    Vec::from(as_slice(&b))
}

pub fn clone(b: &Buffer) -> Buffer {
    let mut c = small::with_capacity(s(b).len);
    unsafe { extend_from_slice(&mut c, as_slice(b)) };
    c
}

/// The same contract with storage of any size.
pub mod huge {
    use super::{m, s, S};
    pub use super::extend_from_slice;
    use bsn1::Buffer;

    unsafe fn raw(n: usize) -> *mut u8 {
        crate::sym::watermark::note(n);
        std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n, 1))
    }

    pub fn new() -> Buffer {
        with_capacity(0)
    }

    pub fn with_capacity(c: usize) -> Buffer {
        let cap = if c < 16 { 16 } else { c };
        kani::assume(cap < 1 << 42);
        unsafe { std::mem::transmute(S { p: raw(cap), cap, len: 0 }) }
    }

    pub fn reserve(b: &mut Buffer, a: usize) {
        let l = s(b).len;
        kani::assume(a < 1 << 41 && l < 1 << 41);
        if l + a > s(b).cap {
            unsafe {
                let p = raw(l + a);
                p.copy_from_nonoverlapping(s(b).p, l);
                m(b).p = p;
                m(b).cap = l + a;
            }
        }
    }
}

/// The same contract with 300 octets of storage, for sizes given as constants.
pub mod mid {
    use super::{m, s, S};
    pub use super::extend_from_slice;
    use bsn1::Buffer;

    const MAX: usize = 312;

    pub fn new() -> Buffer {
        unsafe {
            let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(MAX, 1));
            std::mem::transmute(S { p, cap: 16, len: 0 })
        }
    }

    pub fn with_capacity(c: usize) -> Buffer {
        let mut b = new();
        if c > 16 {
            m(&mut b).cap = c;
        }
        b
    }

    pub fn reserve(b: &mut Buffer, a: usize) {
        let l = s(b).len;
        if l + a > s(b).cap {
            m(b).cap = l + a;
        }
    }
}

/// The same contract with storage of some size above every size in use; growing moves nothing.
pub mod once {
    use super::{m, s, S};
    pub use super::extend_from_slice;
    use bsn1::Buffer;

    pub fn new() -> Buffer {
        with_capacity(0)
    }

    pub fn with_capacity(c: usize) -> Buffer {
        let n: usize = kani::any();
        kani::assume(n >= 1 << 43 && n < 1 << 44);
        let cap = if c < 16 { 16 } else { c };
        crate::sym::watermark::note(cap);
        kani::assume(cap < 1 << 42);
        unsafe {
            let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n, 1));
            std::mem::transmute(S { p, cap, len: 0 })
        }
    }

    pub fn reserve(b: &mut Buffer, a: usize) {
        let l = s(b).len;
        assert!(a <= usize::MAX - l);
        if l + a > s(b).cap {
            crate::sym::watermark::note(l + a);
            kani::assume(l + a < 1 << 42);
            m(b).cap = l + a;
        }
    }
}

/// The same contract, of which one octet is looked at: each buffer keeps the octet at one place chosen
/// beforehand, and leaves the others arbitrary. Looking at a place (`look`) supposes it was that one,
/// which takes nothing away as long as a buffer is looked at in one place at most: looking at a second
/// place fails an assertion. No loop or copy is left, whatever the sizes.
pub mod seen {
    use super::{m, s, S};
    use bsn1::Buffer;

    const N: usize = 8;
    struct Made {
        _mark: u64,
        n: usize,
        base: [usize; N],
        place: [usize; N],
        looked: [bool; N],
    }

    // The mark makes it unlike every constant: see `sym::watermark`.
    static mut M: Made =
        Made { _mark: 0x5eed_5ee7_0000_0001, n: 0, base: [0; N], place: [0; N], looked: [false; N] };

    pub fn new() -> Buffer {
        with_capacity(0)
    }

    pub fn with_capacity(c: usize) -> Buffer {
        let b = super::once::with_capacity(c);
        unsafe {
            assert!(M.n < N);
            M.base[M.n] = s(&b).p as usize;
            M.place[M.n] = kani::any();
            M.n += 1;
        }
        b
    }

    pub fn reserve(b: &mut Buffer, a: usize) {
        super::once::reserve(b, a)
    }

    macro_rules! each {
        ($a:ident, $i:ident, $f:block) => {{
            each!(@ $a, $i, $f, 0); each!(@ $a, $i, $f, 1); each!(@ $a, $i, $f, 2); each!(@ $a, $i, $f, 3);
            each!(@ $a, $i, $f, 4); each!(@ $a, $i, $f, 5); each!(@ $a, $i, $f, 6); each!(@ $a, $i, $f, 7);
        }};
        (@ $a:ident, $i:ident, $f:block, $k:literal) => {
            if $k < M.n && $a.wrapping_sub(M.base[$k]) < 1 << 44 {
                let $i = $k;
                $f
            }
        };
    }

    pub fn look(v: &[u8], k: usize) -> u8 {
        let a = (v.as_ptr() as usize).wrapping_add(k);
        unsafe {
            each!(a, i, {
                let d = a.wrapping_sub(M.base[i]);
                assert!(!M.looked[i] || d == M.place[i]);
                kani::assume(d == M.place[i]);
                M.looked[i] = true;
            });
        }
        v[k]
    }

    pub unsafe fn extend_from_slice(b: &mut Buffer, v: &[u8]) {
        let n = s(b).len;
        assert!(v.len() <= s(b).cap && n <= s(b).cap - v.len());
        let a = s(b).p as usize;
        let mut p = usize::MAX;
        each!(a, i, { p = M.place[i] });
        if p >= n && p - n < v.len() {
            *s(b).p.add(p) = look(v, p - n);
        }
        m(b).len = n + v.len();
    }
}

/// Error context is for people to read; its text is outside every property.
pub fn context<C>(e: bsn1::Error, _c: C) -> bsn1::Error
where
    C: std::fmt::Display + Send + Sync + 'static,
{
    e
}

pub fn format(_a: std::fmt::Arguments) -> String {
    String::new()
}
