//! C10: octet storage. One operation from an arbitrary state of each representation; since every
//! result is again such a state, this covers every sequence of operations.
//!
//! Inline states: every length and every octet. Heap states: every capacity and length below 2^40
//! with arbitrary octets, from `with_capacity` and from a vector. `k` stands for an arbitrary index.

/// The crate's own storage, as built for this machine.
pub mod native {
    use bsn1::Buffer;
    buffer_contracts!();

    fn from_vec(v: Vec<u8>) -> Buffer {
        Buffer::from(v)
    }

    sweeps! {
        fn sequences() { super::steps::steps!(Buffer, from_vec) }
    }
}

/// The portable storage, compiled from its source file.
#[cfg(vc_universal)]
pub mod portable {
    #[allow(dead_code)]
    #[path = "/repo/bsn1/src/buffer/universal_endian/mod.rs"]
    mod universal_endian;
    use universal_endian::Buffer;
    buffer_contracts!();

    fn from_vec(v: Vec<u8>) -> Buffer {
        Buffer::from_vec(v)
    }

    sweeps! {
        fn sequences() { super::steps::steps!(Buffer, from_vec) }
    }
}

/// What `bsn1::Buffer` adds to its storage.
pub mod outer {
    use crate::sym::*;
    use bsn1::Buffer;
    use std::io::Write;

    contracts! {
        #[kani::unwind(3)]
        fn from_slice() {
            let v = any_huge(1);
            let b = Buffer::from(v);
            assert!(b.len() == v.len() && b.capacity() >= v.len());
            let k = any_upto(v.len() - 1);
            assert!(b[k] == v[k]);
            cover!(v.len() == 23);
            cover!(v.len() == 24);
        }

        #[kani::unwind(3)]
        fn write() {
            let (v, w) = (any_huge(1), any_huge(1));
            let mut b = Buffer::from(v);
            assert!(b.write(w).unwrap() == w.len() && b.flush().is_ok());
            assert!(b.len() == v.len() + w.len());
            let (k, j) = (any_upto(v.len() - 1), any_upto(w.len() - 1));
            assert!(b[k] == v[k] && b[v.len() + j] == w[j]);
            cover!(v.len() < 24 && w.len() > 24);
        }

        /// Views of the octets are views of the same octets.
        #[kani::unwind(3)]
        fn views() {
            let v = any_huge(1);
            let x: u8 = any();
            let mut b = Buffer::from(v);
            let k = any_upto(v.len() - 1);
            let p = b.as_ptr();
            {
                let d: &[u8] = &b;
                let e: &[u8] = std::borrow::Borrow::borrow(&b);
                assert!(d.as_ptr() == p && d.len() == v.len());
                assert!(e.as_ptr() == p && e.len() == v.len());
            }
            b[k] = x;
            assert!(b[k] == x);
            let j = any_upto(v.len() - 1);
            assert!(b[j] == if j == k { x } else { v[j] });
            let d: &mut [u8] = &mut b;
            assert!(d.as_ptr() == p && d.len() == v.len());
        }

        #[kani::unwind(6)]
        fn compare() {
            let (v, w): ([u8; 4], [u8; 4]) = (any(), any());
            let (v, w) = (&v[..any_upto(4)], &w[..any_upto(4)]);
            let (a, b) = (Buffer::from(v), Buffer::from(w));
            assert!((a == b) == (v == w));
            assert!(a.cmp(&b) == v.cmp(w));
            assert!(a.partial_cmp(&b) == Some(v.cmp(w)));
        }
    }
}

#[cfg(not(kani))]
mod steps {
    /// Every sequence of `DEPTH` operations over a small set of sizes, against a vector.
    macro_rules! steps {
        ($B:ty, $from:expr) => {{
            const SIZES: [usize; 8] = [0, 1, 15, 16, 17, 23, 24, 40];
            fn check(b: &$B, m: &[u8]) {
                assert!(b.as_slice() == m && b.len() == m.len() && b.capacity() >= m.len());
                crate::sym::covered(true);
            }
            fn go(b: $B, m: Vec<u8>, depth: usize) {
                check(&b, &m);
                if depth == 0 {
                    assert!(b.into_vec() == m);
                    return;
                }
                let mut n = m.len() as u8;
                for &s in &SIZES {
                    let piece: Vec<u8> = (0..s).map(|_| { n = n.wrapping_mul(29).wrapping_add(17); n }).collect();
                    // append
                    let (mut c, mut w) = (b.clone(), m.clone());
                    c.reserve(s);
                    assert!(c.capacity() >= m.len() + s);
                    unsafe { c.extend_from_slice(&piece) };
                    w.extend_from_slice(&piece);
                    go(c, w, depth - 1);
                    // resize
                    let (mut c, mut w) = (b.clone(), m.clone());
                    if s <= w.len() {
                        unsafe { c.set_len(s) };
                        w.truncate(s);
                        go(c, w, depth - 1);
                    }
                }
                // one octet
                let (mut c, mut w) = (b.clone(), m.clone());
                c.reserve(1);
                unsafe { c.push(0xee) };
                w.push(0xee);
                go(c, w, depth - 1);
                // through a vector
                let mut v = b.clone().into_vec();
                assert!(v == m);
                v.reserve(3);
                v.push(9);
                let mut w = m.clone();
                w.push(9);
                go($from(v), w, depth - 1);
            }
            go(<$B>::new(), Vec::new(), 4);
            go($from(Vec::with_capacity(30)), Vec::new(), 3);
            go(<$B>::with_capacity(16), Vec::new(), 3);
            go(<$B>::with_capacity(23), Vec::new(), 3);
            go(<$B>::with_capacity(24), Vec::new(), 3);
        }};
    }
    pub(super) use steps;
}
