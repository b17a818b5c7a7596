//! C09: growing and truncating in place. One operation from an arbitrary well-formed value; since
//! every result is again such a value, this covers every sequence of operations.
use crate::c08::id_ref;
use crate::spec;
use crate::sym::*;
use bsn1::{Ber, Der};

const CAP: usize = 20;

/// The octets of `id`, the length of `c` and `c`, from scratch.
fn compose(id: u8, indefinite: bool, c: &[u8]) -> bsn1::Buffer {
    let (e, l) = spec::len_encode(if indefinite { None } else { Some(c.len()) });
    let mut b = bsn1::Buffer::with_capacity(1 + l + c.len());
    unsafe {
        b.push(id);
        b.extend_from_slice(&e[..l]);
        b.extend_from_slice(c);
    }
    b
}

fn short_id() -> u8 {
    let i: u8 = any();
    assume(i & 0x1f != 0x1f);
    i
}

/// `o` is a one-octet identifier, one length octet and `a` followed by `b`.
fn holds(o: &[u8], id: u8, indefinite: bool, a: &[u8], b: &[u8]) {
    let n = a.len() + b.len();
    assert!(o.len() == 2 + n);
    assert!(o[0] == id && o[1] == if indefinite { 0x80 } else { n as u8 });
    let k = any_upto(CAP - 1);
    if k < a.len() {
        assert!(o[2 + k] == a[k]);
    }
    if k < b.len() {
        assert!(o[2 + a.len() + k] == b[k]);
    }
}

contracts_over_buffer! { ALL:
    #[kani::unwind(10)]
    fn der_extend() {
        let (id, a, n) = (short_id(), any::<[u8; CAP]>(), any_upto(CAP));
        let (x, c) = (any::<[u8; CAP]>(), any_upto(CAP));
        let mut d = Der::from(compose(id, false, &a[..n]));
        d.extend_from_slice(&x[..c]);
        holds(d.as_ref(), id, false, &a[..n], &x[..c]);
        cover!(n == CAP && c == CAP);
        cover!(n == 0 && c == 0);
        std::mem::forget(d);
    }

    #[kani::unwind(10)]
    fn der_push() {
        let (id, a, n) = (short_id(), any::<[u8; CAP]>(), any_upto(CAP));
        let v: u8 = any();
        let mut d = Der::from(compose(id, false, &a[..n]));
        d.push(v);
        holds(d.as_ref(), id, false, &a[..n], &[v]);
        std::mem::forget(d);
    }

    #[kani::unwind(10)]
    fn ber_push() {
        let (id, a, n) = (short_id(), any::<[u8; CAP]>(), any_upto(CAP));
        let (v, f) = (any::<u8>(), any::<bool>());
        let mut d = Ber::from(compose(id, f, &a[..n]));
        d.push(v);
        holds(d.as_ref(), id, f, &a[..n], &[v]);
        std::mem::forget(d);
    }

    #[kani::unwind(10)]
    fn ber_extend() {
        let (id, a, n) = (short_id(), any::<[u8; CAP]>(), any_upto(CAP));
        let (x, c) = (any::<[u8; CAP]>(), any_upto(CAP));
        let mut d = Ber::from(compose(id, false, &a[..n]));
        d.extend_from_slice(&x[..c]);
        holds(d.as_ref(), id, false, &a[..n], &x[..c]);
        std::mem::forget(d);
    }

    #[kani::unwind(10)]
    fn ber_extend_indefinite() {
        let (id, a, n) = (short_id(), any::<[u8; CAP]>(), any_upto(CAP));
        let (x, c) = (any::<[u8; CAP]>(), any_upto(CAP));
        let mut d = Ber::from(compose(id, true, &a[..n]));
        d.extend_from_slice(&x[..c]);
        holds(d.as_ref(), id, true, &a[..n], &x[..c]);
        cover!(n == CAP && c == CAP);
        std::mem::forget(d);
    }

    #[kani::unwind(10)]
    fn der_truncate() {
        let (id, a, n) = (short_id(), any::<[u8; CAP]>(), any_upto(CAP));
        let t: usize = any();
        let mut d = Der::from(compose(id, false, &a[..n]));
        d.truncate(t);
        holds(d.as_ref(), id, false, &a[..n.min(t)], &[]);
        cover!(t < n && t > 0);
        cover!(t > 1 << 40);
        std::mem::forget(d);
    }

    #[kani::unwind(10)]
    fn ber_truncate() {
        let (id, a, n) = (short_id(), any::<[u8; CAP]>(), any_upto(CAP));
        let t: usize = any();
        let f: bool = any();
        let mut d = Ber::from(compose(id, f, &a[..n]));
        d.truncate(t);
        holds(d.as_ref(), id, f, &a[..n.min(t)], &[]);
        cover!(t < n && t > 0 && f);
        cover!(t > 1 << 40);
        std::mem::forget(d);
    }
}

/// Two values with identifiers of three octets.
mod long_id {
    use super::*;
    contracts_over_buffer! { ALL:
        #[kani::unwind(10)]
        fn der_extend_long_id() {
            let (i, n) = crate::c08::any_id();
            let (a, x) = (any::<[u8; 4]>(), any::<[u8; 4]>());
            let mut d = Der::new(id_ref(&i[..n]), (&a).into());
            d.extend_from_slice(&x);
            let o: &[u8] = d.as_ref();
            let k = any_upto(3);
            assert!(o.len() == n + 9 && o[n] == 8);
            assert!(k >= n || o[k] == i[k]);
            assert!(o[n + 1 + k] == a[k] && o[n + 5 + k] == x[k]);
            d.truncate(3);
            let o: &[u8] = d.as_ref();
            assert!(o.len() == n + 4 && o[n] == 3);
            assert!(k >= n || o[k] == i[k]);
            assert!(k == 3 || o[n + 1 + k] == a[k]);
            cover!(n == 3);
            std::mem::forget(d);
        }
    }
}
pub use long_id::ALL as LONG_ID;

/// Sizes at which the length octets grow or shrink: sizes concrete, octets arbitrary.
mod steps {
    use super::*;

    fn one<const N: usize, const C: usize>() {
        let id = short_id();
        let (a, x): ([u8; N], [u8; C]) = (any(), any());
        let mut d = Der::from(compose(id, false, &a));
        #[cfg(kani)]
        unsafe {
            crate::stubs::GHOST_LENGTH = N;
        }
        d.extend_from_slice(&x);
        step(d.as_ref(), id, &a, &x);
        #[cfg(kani)]
        unsafe {
            crate::stubs::GHOST_LENGTH = N + C;
        }
        d.truncate(N);
        step(d.as_ref(), id, &a, &[]);
        std::mem::forget(d);
    }

    fn step(o: &[u8], id: u8, a: &[u8], x: &[u8]) {
        let (e, l) = spec::len_encode(Some(a.len() + x.len()));
        assert!(o.len() == 1 + l + a.len() + x.len() && o[0] == id);
        let k = any_upto(8);
        assert!(k >= l || o[1 + k] == e[k]);
        if !a.is_empty() {
            let k = any_upto(a.len() - 1);
            assert!(o[1 + l + k] == a[k]);
        }
        if !x.is_empty() {
            let k = any_upto(x.len() - 1);
            assert!(o[1 + l + a.len() + k] == x[k]);
        }
    }

    contracts_over_buffer! { mid ALL:
        #[kani::unwind(10)] #[kani::stub(bsn1::DerRef::id, crate::stubs::der_id)] #[kani::stub(bsn1::DerRef::length, crate::stubs::der_length)]
        fn step_127_1() { one::<127, 1>() }
        #[kani::unwind(10)] #[kani::stub(bsn1::DerRef::id, crate::stubs::der_id)] #[kani::stub(bsn1::DerRef::length, crate::stubs::der_length)]
        fn step_126_1() { one::<126, 1>() }
        #[kani::unwind(10)] #[kani::stub(bsn1::DerRef::id, crate::stubs::der_id)] #[kani::stub(bsn1::DerRef::length, crate::stubs::der_length)]
        fn step_0_128() { one::<0, 128>() }
        #[kani::unwind(10)] #[kani::stub(bsn1::DerRef::id, crate::stubs::der_id)] #[kani::stub(bsn1::DerRef::length, crate::stubs::der_length)]
        fn step_1_128() { one::<1, 128>() }
        #[kani::unwind(10)] #[kani::stub(bsn1::DerRef::id, crate::stubs::der_id)] #[kani::stub(bsn1::DerRef::length, crate::stubs::der_length)]
        fn step_128_127() { one::<128, 127>() }
        #[kani::unwind(10)] #[kani::stub(bsn1::DerRef::id, crate::stubs::der_id)] #[kani::stub(bsn1::DerRef::length, crate::stubs::der_length)]
        fn step_255_1() { one::<255, 1>() }
        #[kani::unwind(10)] #[kani::stub(bsn1::DerRef::id, crate::stubs::der_id)] #[kani::stub(bsn1::DerRef::length, crate::stubs::der_length)]
        fn step_200_60() { one::<200, 60>() }
        #[kani::unwind(10)] #[kani::stub(bsn1::DerRef::id, crate::stubs::der_id)] #[kani::stub(bsn1::DerRef::length, crate::stubs::der_length)]
        fn step_100_200() { one::<100, 200>() }
    }
}
pub use steps::ALL as STEPS;

sweeps! {
    /// Every pair of sizes around the steps of the length octets, with identifiers of 1 to 3
    /// octets, definite and indefinite.
    fn sizes() {
        let base: Vec<u8> = (0..(1usize << 24) + 300).map(|k| (k * 7 + (k >> 8)) as u8).collect();
        let ids: [&[u8]; 3] = [&[0x30], &[0x7f, 0x55], &[0xdf, 0x81, 0x00]];
        let small: Vec<usize> = vec![0, 1, 20, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300];
        let mut pairs: Vec<(usize, usize)> = Vec::new();
        for &a in &small {
            for &b in &small {
                pairs.push((a, b));
            }
        }
        for a in [0, 1, 127, 128, 255, 256, 5000, 65534, 65535, 65536, 65537] {
            for b in [65534, 65535, 65536, 65537, 66000] {
                pairs.push((a, b));
            }
        }
        for a in [0, 1, 127, 128, 255, 256, 65535, 65536, (1 << 24) - 1] {
            for b in [(1 << 24) - 1, 1 << 24] {
                pairs.push((a, b));
            }
        }
        for (a, b) in pairs {
            let (lo, hi) = (a.min(b), a.max(b));
            for id in ids {
                let make = |n: usize| {
                    let (e, l) = spec::len_encode(Some(n));
                    [id, &e[..l], &base[..n]].concat()
                };
                let (want_lo, want_hi) = (make(lo), make(hi));
                let mut d = Der::new(id_ref(id), base[..lo].into());
                d.extend_from_slice(&base[lo..hi]);
                assert!(d.as_ref() as &[u8] == &want_hi[..]);
                d.truncate(hi);
                d.truncate(hi + 1);
                assert!(d.as_ref() as &[u8] == &want_hi[..]);
                d.truncate(lo);
                assert!(d.as_ref() as &[u8] == &want_lo[..]);
                d.extend_from_slice(&base[lo..hi]);
                assert!(d.into_vec() == want_hi);
                let mut d = Ber::new(id_ref(id), base[..hi].into());
                d.truncate(lo);
                assert!(d.as_ref() as &[u8] == &want_lo[..]);
                d.extend_from_slice(&base[lo..hi]);
                assert!(d.into_vec() == want_hi);
                let mut d = unsafe { Ber::new_indefinite(id_ref(id), base[..hi].into()) };
                d.truncate(lo);
                assert!(d.as_ref() as &[u8] == &[id, &[0x80], &base[..lo]].concat()[..]);
                d.extend_from_slice(&base[lo..hi]);
                assert!(d.into_vec() == [id, &[0x80], &base[..hi]].concat());
                covered(true);
            }
        }
    }
}
