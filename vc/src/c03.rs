//! C03: length octets.
use crate::spec;
use crate::sym::*;
use bsn1::Length;

pub fn any_length() -> Length {
    if any() {
        Length::Indefinite
    } else {
        Length::Definite(any())
    }
}

contracts! {
    /// Writer, size and reader agree with the unique shortest form, for every length.
    #[kani::unwind(10)]
    fn roundtrip() {
        let len = any_length();
        let bytes = len.to_bytes();
        let b: &[u8] = &bytes;
        let (e, n) = spec::len_encode(len.definite());
        assert!(b.len() == n);
        assert!(len.len() == n);
        assert!(spec::same(b, &e[..n]));
        let mut r = b;
        let p = Length::parse(&mut r);
        match &p {
            Ok(q) => {
                assert!(q.definite() == len.definite());
                assert!(q.is_definite() == len.is_definite());
                assert!(q.is_indefinite() == len.is_indefinite());
            }
            Err(_) => assert!(false),
        }
        assert!(r.is_empty());
        cover!(n == 9);
        cover!(n == 1);
        std::mem::forget(p);
    }

    /// The reader accepts exactly the shortest forms and reads nothing beyond them.
    #[kani::unwind(11)]
    fn parse_any() {
        let a: [u8; 11] = any();
        let n = any_upto(11);
        let b = &a[..n];
        let mut r = b;
        let p = Length::parse(&mut r);
        match (&p, spec::len_octets(b)) {
            (Ok(l), Some((v, k))) => {
                assert!(l.definite() == v);
                assert!(l.is_indefinite() == v.is_none());
                assert!(r.len() == n - k);
                cover!(k == 9);
            }
            (Err(_), None) => { cover!(true); }
            _ => assert!(false),
        }
        std::mem::forget(p);
    }
}
