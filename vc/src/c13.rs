//! C13: serializing and then deserializing.
use crate::model::{Obs, Tlv};
#[cfg(not(kani))]
use crate::refs::Dec;
use crate::sym::*;
use bsn1::{BerRef, ContentsRef, DerRef, Error, IdRef, Length};
use bsn1_serde::de::Deserialize;
use bsn1_serde::ser::Serialize;
use bsn1_serde::OctetString;
use std::io::Write;

/// Octets written.
pub struct Arr {
    pub b: [u8; 24],
    pub n: usize,
}

impl Arr {
    pub fn new() -> Self {
        Self { b: [0; 24], n: 0 }
    }

    pub fn get(&self) -> &[u8] {
        &self.b[..self.n]
    }
}

impl Write for Arr {
    fn write(&mut self, v: &[u8]) -> std::io::Result<usize> {
        self.b[self.n..self.n + v.len()].copy_from_slice(v);
        self.n += v.len();
        Ok(v.len())
    }

    /// What the standard library promises.
    #[cfg(kani)]
    fn write_all(&mut self, v: &[u8]) -> std::io::Result<()> {
        self.b[self.n..self.n + v.len()].copy_from_slice(v);
        self.n += v.len();
        Ok(())
    }

    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn ok<T>(r: Result<T, Error>) -> T {
    match r {
        Ok(v) => v,
        Err(e) => {
            std::mem::forget(e);
            panic!("is an error")
        }
    }
}

/// Identifier and contents written, and read again.
fn again<T: Serialize + Deserialize>(v: &T) -> (T, T) {
    let (mut i, mut c) = (Arr::new(), Arr::new());
    ok(v.write_id(&mut i));
    ok(v.write_der_contents(&mut c));
    let id = unsafe { IdRef::from_bytes_unchecked(i.get()) };
    let contents: &ContentsRef = c.get().into();
    let d = ok(T::from_der(id, contents));
    let b = ok(unsafe { T::from_ber(id, Length::Definite(c.n), contents) });
    (d, b)
}

macro_rules! leaves {
    ($( $name:ident $t:ty; )*) => {
        contracts! {
            $(
                #[kani::unwind(19)]
                fn $name() {
                    let v: $t = any();
                    let (d, b) = again(&v);
                    assert!(d == v && b == v);
                    cover!(true);
                }
            )*
        }
    };
}

pub mod leaf {
    use super::*;
    leaves! {
        bool_ bool; i8_ i8; u8_ u8; i16_ i16; u16_ u16; i32_ i32; u32_ u32; i64_ i64; u64_ u64;
        i128_ i128; u128_ u128; isize_ isize; usize_ usize;
    }
}

pub mod text {
    use super::*;
    contracts! {
        /// One character.
        #[kani::unwind(10)]
        fn string() {
            let n: u32 = any();
            assume(n < 0xd800 || (n >= 0xe000 && n <= 0x10ffff));
            let c = match char::from_u32(n) {
                Some(c) => c,
                None => unreachable!(),
            };
            let mut a = [0; 4];
            let s = String::from(&*c.encode_utf8(&mut a));
            let (d, b) = again(&s);
            assert!(crate::spec::same(d.as_bytes(), s.as_bytes()) && crate::spec::same(b.as_bytes(), s.as_bytes()));
            cover!(s.len() == 4);
            cover!(s.len() == 3);
        }

        /// Any size.
        #[kani::unwind(3)]
        fn octets() {
            let b = any_bulk();
            assume(b.len() > 0);
            let id = unsafe { IdRef::from_bytes_unchecked(&[4]) };
            let w = any_upto(b.len() - 1);
            let d = ok(OctetString::from_der(id, b.into()));
            assert!(d.as_ref().len() == b.len() && d.as_ref()[w] == b[w]);
            std::mem::forget(d);
            let d = ok(unsafe { OctetString::from_ber(id, Length::Definite(b.len()), b.into()) });
            assert!(d.as_ref().len() == b.len() && d.as_ref()[w] == b[w]);
            std::mem::forget(d);
            cover!(true);
        }
    }
}

/// The entry points that take octets, on the element `b` begins with.
pub mod entry {
    use super::*;

    /// A value was got exactly from an element that is not refused, which `r` follows.
    fn agrees(got: Result<Obs, Error>, b: &[u8], rest: Option<&[u8]>, ber: bool, at: bool) {
        match (got, Tlv::of(ber, b)) {
            (Ok(o), Some(e)) => {
                assert!(!Obs::refuses(b[0]));
                assert!(if at { o.at(b, &e) } else { o.is(b, &e) });
                if let Some(r) = rest {
                    assert!(r.as_ptr() == unsafe { b.as_ptr().add(e.total()) } && r.len() == b.len() - e.total());
                    cover!(r.len() == 1);
                }
                cover!(e.cn == 3);
            }
            (Err(x), e) => {
                std::mem::forget(x);
                assert!(e.is_none() || Obs::refuses(b[0]));
                cover!(e.is_none());
            }
            _ => panic!("a value from nothing"),
        }
    }

    #[cfg(kani)]
    fn octets() -> [u8; 8] {
        any()
    }

    #[cfg(not(kani))]
    fn octets() -> [u8; 8] {
        let mut a: [u8; 8] = any();
        if !replaying() {
            for x in &mut a {
                *x = [0, 0x80, 0, 0x30, 1, 4, 2, *x][(*x % 8) as usize];
            }
        }
        a
    }

    contracts_over_buffer! { ALL:
        #[kani::unwind(10)]
        #[kani::stub(bsn1::DerRef::parse, crate::model::der_parse)]
        fn der() {
            let a = octets();
            let b = &a[..any_upto(8)];
            let mut r = b;
            let got = bsn1_serde::parse_der::<Obs>(&mut r);
            let rest = if got.is_ok() { Some(r) } else { None };
            agrees(got, b, rest, false, true);
            let mut s = b;
            let d = DerRef::parse(&mut s);
            if let Ok(d) = &d {
                agrees(bsn1_serde::from_der::<Obs>(d), b, None, false, true);
            }
            std::mem::forget(d);
        }

        #[kani::unwind(10)]
        #[kani::stub(bsn1::BerRef::parse, crate::model::ber_parse)]
        fn ber() {
            let a = octets();
            let b = &a[..any_upto(8)];
            let mut r = b;
            let got = bsn1_serde::parse_ber::<Obs>(&mut r);
            let rest = if got.is_ok() { Some(r) } else { None };
            agrees(got, b, rest, true, true);
            let mut s = b;
            let d = BerRef::parse(&mut s);
            if let Ok(d) = &d {
                agrees(bsn1_serde::from_ber::<Obs>(d), b, None, true, true);
            }
            std::mem::forget(d);
        }

        #[kani::unwind(10)]
        #[kani::stub(bsn1::Der::parse, crate::model::der_read)]
        fn read_der() {
            let a = octets();
            let b = &a[..any_upto(8)];
            let mut r = b;
            let got = bsn1_serde::read_der::<&[u8], Obs>(&mut r);
            let rest = if got.is_ok() { Some(r) } else { None };
            agrees(got, b, rest, false, false);
        }

        #[kani::unwind(10)]
        #[kani::stub(bsn1::Ber::parse, crate::model::ber_read)]
        fn read_ber() {
            let a = octets();
            let b = &a[..any_upto(8)];
            let mut r = b;
            let got = bsn1_serde::read_ber::<&[u8], Obs>(&mut r);
            let rest = if got.is_ok() { Some(r) } else { None };
            agrees(got, b, rest, true, false);
        }
    }
}

#[cfg(not(kani))]
struct Pieces<'a>(&'a [u8]);

#[cfg(not(kani))]
impl std::io::Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.0.len()).min(1 + pick(64));
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

#[cfg(not(kani))]
pub fn value<T: Dec + Serialize + Deserialize>(x: &T) {
    use bsn1_serde::*;
    crate::c12::value(x);
    let e = x.enc();
    let d = to_der(x).unwrap();
    let b = to_ber(x).unwrap();
    assert!(from_der::<T>(&d).unwrap() == *x);
    assert!(from_ber::<T>(&b).unwrap() == *x);
    assert!(from_ber::<T>((&*d).into()).unwrap() == *x);
    let rest = [0u8, 0, 0x30, 0x80, 2];
    let more = [&e[..], &rest].concat();
    for s in [&e, &more] {
        let after = &s[e.len()..];
        let mut r: &[u8] = s;
        assert!(parse_der::<T>(&mut r).unwrap() == *x && r == after);
        let mut r: &[u8] = s;
        assert!(parse_ber::<T>(&mut r).unwrap() == *x && r == after);
        let mut r = Pieces(s);
        assert!(read_der::<_, T>(&mut r).unwrap() == *x && r.0 == after);
        let mut r = Pieces(s);
        assert!(read_ber::<_, T>(&mut r).unwrap() == *x && r.0 == after);
    }
    covered(true);
}

#[cfg(not(kani))]
fn values<T: Dec + Serialize + Deserialize>(runs: usize) {
    for _ in 0..runs {
        value(&T::gen(2 + pick(12)));
    }
}

sweeps! {
    /// Built-in types and nestings of them.
    fn nestings() {
        for_types!(values 200);
    }
}
