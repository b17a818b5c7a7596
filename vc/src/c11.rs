//! C11: equality, order, hash and conversion by octets.
use crate::sym::*;
use bsn1::{Ber, BerRef, Contents, ContentsRef, Der, DerRef, Id, IdRef, Length};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// Records what is fed to it.
#[derive(Clone)]
struct Record {
    fed: [u8; 32],
    n: usize,
}

impl Hasher for Record {
    fn write(&mut self, b: &[u8]) {
        for &v in b {
            self.fed[self.n % 32] = v;
            self.n += 1;
        }
    }

    fn finish(&self) -> u64 {
        0
    }
}

fn fed<T: ?Sized + Hash>(v: &T) -> Record {
    let mut r = Record { fed: [0; 32], n: 0 };
    v.hash(&mut r);
    r
}

/// The same was fed: one arbitrary position.
fn same_hash<T: ?Sized + Hash, U: ?Sized + Hash>(a: &T, b: &U) {
    let (x, y, k) = (fed(a), fed(b), any_upto(31));
    assert!(x.n == y.n && x.fed[k] == y.fed[k]);
}

macro_rules! pair {
    ($Ref:ident, $Own:ident, $a:expr, $b:expr, $x:expr, $y:expr) => {{
        let (a, b, x, y): (&$Ref, &$Ref, &[u8], &[u8]) = ($a, $b, $x, $y);
        let (p, q) = (a.to_owned(), b.to_owned());
        let e = crate::spec::same(x, y);
        assert!((a == b) == e && (a != b) == !e);
        assert!((p == q) == e && (p != q) == !e);
        assert!((*a == q) == e && (*b == p) == e);
        if e {
            same_hash(a, b);
            same_hash(&p, &q);
            // as a key of a map: the owned form hashes as the borrowed one
            same_hash(&p, b);
        }
        cover!(e && x.len() > 1);
        cover!(!e && x.len() == y.len());
        cover!(x.len() != y.len());
        std::mem::forget((p, q));
    }};
}

macro_rules! order {
    ($Ref:ident, $a:expr, $b:expr, $x:expr, $y:expr) => {{
        let (a, b, x, y): (&$Ref, &$Ref, &[u8], &[u8]) = ($a, $b, $x, $y);
        let (p, q) = (a.to_owned(), b.to_owned());
        let o = compare(x, y);
        assert!(a.cmp(b) == o && a.partial_cmp(b) == Some(o));
        assert!(p.cmp(&q) == o && p.partial_cmp(&q) == Some(o));
        assert!(PartialOrd::partial_cmp(a, &q) == Some(o));
        cover!(o == Ordering::Greater && x.len() < y.len());
        std::mem::forget((p, q));
    }};
}

/// Octets compare from the first on; a prefix comes first.
fn compare(x: &[u8], y: &[u8]) -> Ordering {
    let mut i = 0;
    loop {
        if i >= x.len() {
            return if i >= y.len() { Ordering::Equal } else { Ordering::Less };
        }
        if i >= y.len() || x[i] > y[i] {
            return Ordering::Greater;
        }
        if x[i] < y[i] {
            return Ordering::Less;
        }
        i += 1;
    }
}

/// A definite-length value up to 6 octets.
fn any_der() -> ([u8; 6], usize) {
    let a: [u8; 6] = any();
    let c = any_upto(3);
    if any() {
        assume(a[0] & 0x1f != 0x1f && a[1] as usize == c);
        (a, 2 + c)
    } else {
        assume(a[0] & 0x1f == 0x1f && a[1] >= 31 && a[1] < 0x80 && a[2] as usize == c);
        (a, 3 + c)
    }
}

/// A value up to 6 octets, of indefinite length or not.
fn any_ber() -> ([u8; 6], usize) {
    if any() {
        return any_der();
    }
    let a: [u8; 6] = any();
    let n = if any() { 4 } else { 6 };
    assume(a[0] & 0x1f != 0x1f && a[1] == 0x80 && a[n - 1] == 0 && a[n - 2] == 0);
    assume(n == 4 || a[2] & 0x1f != 0x1f && a[2] != 0 && a[3] == 0);
    (a, n)
}

contracts! {
    #[kani::unwind(16)]
    fn identifiers() {
        let ((x, n), (y, m)) = (crate::c08::any_id(), crate::c08::any_id());
        let (x, y) = (&x[..n], &y[..m]);
        let (a, b) = unsafe { (IdRef::from_bytes_unchecked(x), IdRef::from_bytes_unchecked(y)) };
        pair!(IdRef, Id, a, b, x, y);
        order!(IdRef, a, b, x, y);
    }

    #[kani::unwind(16)]
    fn contents() {
        let (x, y): ([u8; 4], [u8; 4]) = (any(), any());
        let (x, y) = (&x[..any_upto(4)], &y[..any_upto(4)]);
        let (a, b) = (<&ContentsRef>::from(x), <&ContentsRef>::from(y));
        pair!(ContentsRef, Contents, a, b, x, y);
    }

    #[kani::unwind(16)]
    fn der() {
        let ((x, n), (y, m)) = (any_der(), any_der());
        let (x, y) = (&x[..n], &y[..m]);
        let (a, b) = unsafe { (DerRef::from_bytes_unchecked(x), DerRef::from_bytes_unchecked(y)) };
        pair!(DerRef, Der, a, b, x, y);
    }

    #[kani::unwind(16)]
    fn ber() {
        let ((x, n), (y, m)) = (any_ber(), any_ber());
        let (x, y) = (&x[..n], &y[..m]);
        let (a, b) = unsafe { (BerRef::from_bytes_unchecked(x), BerRef::from_bytes_unchecked(y)) };
        pair!(BerRef, Ber, a, b, x, y);
    }

    fn lengths() {
        let (a, b): (Option<usize>, Option<usize>) =
            (if any() { Some(any()) } else { None }, if any() { Some(any()) } else { None });
        let l = |v| match v {
            Some(n) => Length::Definite(n),
            None => Length::Indefinite,
        };
        let (x, y) = (l(a), l(b));
        let both = a.is_some() && b.is_some();
        assert!((x == y) == (both && a == b) && (x != y) == !(both && a == b));
        assert!(x.partial_cmp(&y) == if both { Some(a.unwrap().cmp(&b.unwrap())) } else { None });
        assert!((x < y) == (both && a < b) && (x > y) == (both && a > b));
        assert!((x <= y) == (both && a <= b) && (x >= y) == (both && a >= b));
        cover!(both && a < b);
        cover!(a.is_none() && b.is_none());
    }
}

/// `o` holds the octets `v`: the size and one arbitrary octet.
fn holds(o: &[u8], v: &[u8]) {
    let k = any_upto(v.len() - 1);
    assert!(o.len() == v.len() && o[k] == v[k]);
}

fn is(o: &[u8], v: &[u8]) {
    assert!(o.as_ptr() == v.as_ptr() && o.len() == v.len());
}

/// A value of any size with a one-octet identifier.
fn any_huge_der() -> &'static [u8] {
    let b = any_huge(2);
    assume(b[0] & 0x1f != 0x1f);
    assume(matches!(crate::spec::len_octets(&b[1..]), Some((Some(c), l)) if b.len() - 1 - l == c));
    b
}

/// Conversions, for values of any size.
mod convert {
    use super::*;
    contracts_over_buffer! { huge ALL:
        #[kani::unwind(10)]
        fn convert_der() {
            let v = any_huge_der();
            let r = unsafe { DerRef::from_bytes_unchecked(v) };
            is(r.as_ref(), v);
            is(<&BerRef>::from(r).as_ref(), v);
            let d = r.to_owned();
            holds(d.as_ref(), v);
            holds(AsRef::<DerRef>::as_ref(&d).as_ref(), v);
            holds(Borrow::<DerRef>::borrow(&d).as_ref(), v);
            let b = Ber::from(d);
            holds(b.as_ref(), v);
            cover!(v.len() > 1000);
            std::mem::forget(b);
        }

        #[kani::unwind(10)]
        fn convert_der_ref() {
            let v = any_huge_der();
            let r = unsafe { DerRef::from_bytes_unchecked(v) };
            let (d, b) = (Der::from(r), Ber::from(r));
            holds(d.as_ref(), v);
            holds(b.as_ref(), v);
            std::mem::forget((d, b));
        }

        #[kani::unwind(10)]
        fn convert_ber() {
            let v = any_huge_der();
            let r = unsafe { BerRef::from_bytes_unchecked(v) };
            is(r.as_ref(), v);
            let (d, mut b) = (r.to_owned(), Ber::from(r));
            holds(d.as_ref(), v);
            holds(b.as_ref(), v);
            holds(AsRef::<BerRef>::as_ref(&b).as_ref(), v);
            holds(Borrow::<BerRef>::borrow(&b).as_ref(), v);
            let m: &mut BerRef = b.as_mut();
            holds((*m).as_ref(), v);
            std::mem::forget((d, b));
        }

        #[kani::unwind(10)]
        fn convert_contents() {
            let v = any_huge(1);
            let r = <&ContentsRef>::from(v);
            is(r.as_ref(), v);
            let (a, b, c) = (r.to_owned(), Contents::from(r), Contents::from(v));
            holds(a.as_ref(), v);
            holds(b.as_ref(), v);
            holds(c.as_ref(), v);
            holds(AsRef::<ContentsRef>::as_ref(&a).as_ref(), v);
            holds(Borrow::<ContentsRef>::borrow(&a).as_ref(), v);
            std::mem::forget((a, b, c));
        }

        #[kani::unwind(10)]
        fn convert_str() {
            let v = any_huge(1);
            let s = unsafe { std::str::from_utf8_unchecked(v) };
            is(<&ContentsRef>::from(s).as_ref(), v);
            let c = Contents::from(s);
            holds(c.as_ref(), v);
            std::mem::forget(c);
        }

        #[kani::unwind(10)]
        fn convert_id() {
            let (a, n) = crate::c08::any_id();
            let v = &a[..n];
            let r = unsafe { IdRef::from_bytes_unchecked(v) };
            is(r.as_ref(), v);
            let (p, mut q) = (r.to_owned(), Id::from(r));
            holds(p.as_ref(), v);
            holds(q.as_ref(), v);
            holds(AsRef::<IdRef>::as_ref(&q).as_ref(), v);
            holds(Borrow::<IdRef>::borrow(&q).as_ref(), v);
            let m: &mut IdRef = q.as_mut();
            holds((*m).as_ref(), v);
            std::mem::forget((p, q));
        }
    }
}
pub use convert::ALL as CONVERT;

/// To a vector and back, and cloning, over the real storage.
mod vectors {
    use super::*;
    contracts! {
        #[kani::unwind(10)]
        fn der_vector() {
            let v = any_huge_der();
            let d = unsafe { Der::from_bytes_unchecked(v) };
            let c = d.clone();
            holds(c.as_ref(), v);
            let w = d.into_vec();
            holds(&w, v);
            let d = unsafe { Der::from_vec_unchecked(w) };
            holds(d.as_ref(), v);
            holds(c.as_ref(), v);
            cover!(v.len() == 23);
            cover!(v.len() == 40);
        }

        #[kani::unwind(10)]
        fn ber_vector() {
            let v = any_huge_der();
            let d = unsafe { Ber::from_bytes_unchecked(v) };
            let c = d.clone();
            holds(c.as_ref(), v);
            let w = d.into_vec();
            holds(&w, v);
            let d = unsafe { Ber::from_vec_unchecked(w) };
            holds(d.as_ref(), v);
            holds(c.as_ref(), v);
            cover!(v.len() == 23);
            cover!(v.len() == 40);
        }

        #[kani::unwind(10)]
        fn contents_vector() {
            let v = any_huge(1);
            let c = Contents::from(v.to_vec());
            holds(c.as_ref(), v);
            let d = c.clone();
            drop(c);
            holds(d.as_ref(), v);
            cover!(v.len() == 40);
        }

        #[kani::unwind(10)]
        fn id_clone() {
            let (a, n) = crate::c08::any_id();
            let p = unsafe { Id::from_bytes_unchecked(&a[..n]) };
            let q = p.clone();
            drop(p);
            holds(q.as_ref(), &a[..n]);
        }
    }
}
pub use vectors::ALL as VECTORS;

sweeps! {
    /// Values of many sizes that differ in one octet at every position, or in size.
    fn pairs() {
        use std::collections::hash_map::DefaultHasher;
        fn h<T: ?Sized + Hash>(v: &T) -> u64 {
            let mut s = DefaultHasher::new();
            v.hash(&mut s);
            s.finish()
        }
        fn both(x: &[u8], y: &[u8]) {
            let e = x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a == b);
            let (c, d) = (<&ContentsRef>::from(x), <&ContentsRef>::from(y));
            assert!((c == d) == e && (c.to_owned() == d.to_owned()) == e && (*c == d.to_owned()) == e);
            assert!(!e || h(c) == h(&d.to_owned()));
            let (c, d) = (Der::from(x), Der::from(y));
            assert!((c == d) == e && (*c == d) == e && (*d == c) == e);
            assert!(!e || h(&c) == h(Borrow::<DerRef>::borrow(&d)));
            let (c, d) = (Ber::from(c), Ber::from(d));
            assert!((c == d) == e && (*c == d) == e && (*d == c) == e);
            assert!(!e || h(&c) == h(Borrow::<BerRef>::borrow(&d)));
            covered(true);
        }
        for n in (0..70).chain([126, 127, 128, 255, 256, 300]) {
            let x: Vec<u8> = (0..n).map(|k| (k * 37) as u8).collect();
            both(&x, &x.clone());
            for k in 0..n {
                for v in [1u8, 0x80, 0xff] {
                    let mut y = x.clone();
                    y[k] ^= v;
                    both(&x, &y);
                }
            }
            for m in [n.saturating_sub(1), n / 2] {
                both(&x, &x[..m]);
                both(&x[..m], &x);
            }
        }
        // identifiers of every size a 128-bit number takes
        let ids: Vec<Id> = (0..128u32)
            .flat_map(|s| [1u128 << s, (1u128 << s) - 1, (1u128 << s) + 5])
            .flat_map(|n| [Id::new(bsn1::ClassTag::Private, bsn1::PCTag::Primitive, n.into()),
                           Id::new(bsn1::ClassTag::Universal, bsn1::PCTag::Constructed, n.into())])
            .collect();
        for a in &ids {
            for b in &ids {
                let (x, y): (&[u8], &[u8]) = (a.as_ref(), b.as_ref());
                let o = x.iter().cmp(y.iter());
                assert!(a.cmp(b) == o && a.partial_cmp(b) == Some(o) && (**a).cmp(&**b) == o);
                assert!((a == b) == (o == Ordering::Equal) && (**a == *b) == (o == Ordering::Equal));
                assert!(o != Ordering::Equal || h(a) == h(&**b));
                covered(true);
            }
        }
    }
}
