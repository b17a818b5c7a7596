//! C08: TLV values are composed of, and come apart into, the given parts.
use crate::spec;
use crate::sym::*;
#[cfg(kani)]
use bsn1::ContentsRef;
use bsn1::{Ber, BerRef, Der, DerRef, IdRef, Length};

/// The contract of `Der::new` in place of its body; `der_new` proves the body against it.
#[cfg(kani)]
pub fn der_new_contract(id: &IdRef, contents: &ContentsRef) -> Der {
    let (i, c): (&[u8], &[u8]) = (id.as_ref(), contents.as_ref());
    let (e, l) = spec::len_encode(Some(c.len()));
    let mut b = bsn1::Buffer::with_capacity(i.len() + l + c.len());
    unsafe {
        b.extend_from_slice(i);
        b.extend_from_slice(&e[..l]);
        b.extend_from_slice(c);
    }
    Der::from(b)
}

/// Arbitrary shortest-form identifier octets up to three octets.
pub fn any_id() -> ([u8; 3], usize) {
    let a: [u8; 3] = any();
    let n = 1 + any_upto(2);
    assume(n == 1 && a[0] & 0x1f != 0x1f || n > 1 && a[0] & 0x1f == 0x1f);
    assume(n < 2 || n == 2 && a[1] >= 31 && a[1] < 0x80 || n == 3 && a[1] > 0x80 && a[2] < 0x80);
    (a, n)
}

pub fn id_ref(b: &[u8]) -> &IdRef {
    unsafe { IdRef::from_bytes_unchecked(b) }
}

/// `o` is `id`, then `len`, then `c`, for contents of any size: an arbitrary octet of each.
pub fn is_tlv(o: &[u8], id: &[u8], len: Option<usize>, c: &[u8]) {
    let (e, l) = spec::len_encode(len);
    assert!(o.len() == id.len() + l + c.len());
    let k = any_upto(8);
    if k < id.len() {
        assert!(o[k] == id[k]);
    }
    if k < l {
        assert!(o[id.len() + k] == e[k]);
    }
    if !c.is_empty() {
        let k = any_upto(c.len() - 1);
        assert!(o[id.len() + l + k] == c[k]);
    }
}

/// `o` is `id`, `len`, and the pieces one after the other.
fn is_tlv_of(o: &[u8], id: &[u8], indefinite: bool, p: &[&[u8]; 3]) {
    let n = p[0].len() + p[1].len() + p[2].len();
    let (e, l) = spec::len_encode(if indefinite { None } else { Some(n) });
    assert!(o.len() == id.len() + l + n);
    let k = any_upto(8);
    if k < id.len() {
        assert!(o[k] == id[k]);
    }
    if k < l {
        assert!(o[id.len() + k] == e[k]);
    }
    let mut at = id.len() + l;
    let k = any_upto(7);
    if k < p[0].len() {
        assert!(o[at + k] == p[0][k]);
    }
    at += p[0].len();
    if k < p[1].len() {
        assert!(o[at + k] == p[1][k]);
    }
    at += p[1].len();
    if k < p[2].len() {
        assert!(o[at + k] == p[2][k]);
    }
}

/// A well-formed definite-length value of any size: its octets, and the sizes of its parts.
fn any_der() -> (&'static [u8], usize, usize) {
    let b = any_huge(2);
    let (i, l, c) = match parts(b) {
        (i, Some((Some(c), l))) => (i, l, c),
        _ => return reject(),
    };
    assume(b.len() - i - l == c);
    (b, i, l)
}

fn reject<T>() -> T {
    assume(false);
    unreachable!()
}

fn parts(b: &[u8]) -> (usize, Option<(Option<usize>, usize)>) {
    // identifiers up to three octets, written out so that no loop is needed
    let i = if b[0] & 0x1f != 0x1f {
        1
    } else if b[1] & 0x80 == 0 {
        assume(b[1] >= 31);
        2
    } else {
        assume(b.len() > 2 && b[1] != 0x80 && b[2] & 0x80 == 0);
        3
    };
    (i, spec::len_octets(&b[i..]))
}

contracts_over_buffer! { huge ALL:
    #[kani::unwind(10)]
    fn der_new() {
        let (i, n) = any_id();
        let c = any_huge(1);
        let d = Der::new(id_ref(&i[..n]), c.into());
        is_tlv(d.as_ref(), &i[..n], Some(c.len()), c);
        cover!(c.len() > 0x1_0000_0000);
        cover!(c.len() == 127);
        std::mem::forget(d);
    }

    #[kani::unwind(10)]
    fn der_new_empty() {
        let (i, n) = any_id();
        let d = Der::new(id_ref(&i[..n]), (&[0u8; 0]).into());
        is_tlv(d.as_ref(), &i[..n], Some(0), &[]);
        let b = Ber::new(id_ref(&i[..n]), (&[0u8; 0]).into());
        is_tlv(b.as_ref(), &i[..n], Some(0), &[]);
        let c = unsafe { Ber::new_indefinite(id_ref(&i[..n]), (&[0u8; 0]).into()) };
        is_tlv(c.as_ref(), &i[..n], None, &[]);
        cover!(n == 3);
        std::mem::forget((d, b, c));
    }

    /// The header, and room for the contents.
    #[kani::unwind(10)]
    fn with_id_length() {
        let (i, n) = any_id();
        let c: usize = any();
        assume(c < 1 << 32);
        assume(!cfg!(not(kani)) || c < 1 << 20);
        let (e, l) = spec::len_encode(Some(c));
        let k = any_upto(8);
        let d = Der::with_id_length(id_ref(&i[..n]), c);
        let b = Ber::with_id_length(id_ref(&i[..n]), c);
        let x = unsafe { Ber::with_id_length_indefinite(id_ref(&i[..n]), c) };
        let (d_, b_, x_): (&[u8], &[u8], &[u8]) = (d.as_ref(), b.as_ref(), x.as_ref());
        assert!(d_.len() == n + l + c && b_.len() == n + l + c && x_.len() == n + 1 + c);
        if k < n {
            assert!(d_[k] == i[k] && b_[k] == i[k] && x_[k] == i[k]);
        }
        if k < l {
            assert!(d_[n + k] == e[k] && b_[n + k] == e[k]);
        }
        assert!(x_[n] == 0x80);
        cover!(c > 1 << 30 || cfg!(not(kani)));
        cover!(c == 0);
        std::mem::forget((d, b, x));
    }

    #[kani::unwind(10)]
    fn ber_new() {
        let (i, n) = any_id();
        let c = any_huge(1);
        let b = Ber::new(id_ref(&i[..n]), c.into());
        is_tlv(b.as_ref(), &i[..n], Some(c.len()), c);
        cover!(c.len() > 0x1_0000);
        std::mem::forget(b);
    }

    #[kani::unwind(10)]
    fn ber_new_indefinite() {
        let (i, n) = any_id();
        let c = any_huge(1);
        let b = unsafe { Ber::new_indefinite(id_ref(&i[..n]), c.into()) };
        is_tlv(b.as_ref(), &i[..n], None, c);
        cover!(c.len() > 0x1_0000);
        std::mem::forget(b);
    }

    #[kani::unwind(10)]
    fn der_from_octets() {
        let c = any_huge(1);
        let d = Der::from(c);
        is_tlv(d.as_ref(), &[0x04], Some(c.len()), c);
        cover!(c.len() > 0x1_0000);
        std::mem::forget(d);
    }

    #[kani::unwind(10)]
    fn der_from_str() {
        let c = any_huge(1);
        assume(c.len() < 1 << 33);
        let d = Der::from(unsafe { std::str::from_utf8_unchecked(c) });
        is_tlv(d.as_ref(), &[0x0c], Some(c.len()), c);
        cover!(c.len() > 0x1_0000);
        std::mem::forget(d);
    }

    #[kani::unwind(10)]
    fn ber_from_octets() {
        let c = any_huge(1);
        let d = Ber::from(c);
        is_tlv(d.as_ref(), &[0x04], Some(c.len()), c);
        cover!(c.len() > 0x1_0000);
        std::mem::forget(d);
    }

    #[kani::unwind(10)]
    fn ber_from_str() {
        let c = any_huge(1);
        let d = Ber::from(unsafe { std::str::from_utf8_unchecked(c) });
        is_tlv(d.as_ref(), &[0x0c], Some(c.len()), c);
        cover!(c.len() > 0x1_0000);
        std::mem::forget(d);
    }
}

contracts_over_buffer! { PIECES:
    #[kani::unwind(10)]
    fn der_from_pieces() {
        let (i, n) = any_id();
        let (a, b, c) = (any::<[u8; 8]>(), any::<[u8; 8]>(), any::<[u8; 8]>());
        let p: [&[u8]; 3] = [&a[..any_upto(8)], &b[..any_upto(8)], &c[..any_upto(8)]];
        let d = Der::from_id_iterator(id_ref(&i[..n]), p.iter());
        is_tlv_of(d.as_ref(), &i[..n], false, &p);
        cover!(p[0].is_empty() && p[1].len() == 8 && p[2].len() == 1);
        std::mem::forget(d);
    }

    #[kani::unwind(10)]
    fn ber_from_pieces() {
        let (i, n) = any_id();
        let (a, b, c) = (any::<[u8; 8]>(), any::<[u8; 8]>(), any::<[u8; 8]>());
        let p: [&[u8]; 3] = [&a[..any_upto(8)], &b[..any_upto(8)], &c[..any_upto(8)]];
        let d = Ber::from_id_iterator(id_ref(&i[..n]), p.iter());
        is_tlv_of(d.as_ref(), &i[..n], false, &p);
        std::mem::forget(d);
    }

    #[kani::unwind(10)]
    fn ber_from_pieces_indefinite() {
        let (i, n) = any_id();
        let (a, b, c) = (any::<[u8; 8]>(), any::<[u8; 8]>(), any::<[u8; 8]>());
        let p: [&[u8]; 3] = [&a[..any_upto(8)], &b[..any_upto(8)], &c[..any_upto(8)]];
        let d = unsafe { Ber::from_id_iterator_indefinite(id_ref(&i[..n]), p.iter()) };
        is_tlv_of(d.as_ref(), &i[..n], true, &p);
        std::mem::forget(d);
    }
}

/// The views of the parts are exactly the octets of the parts.
macro_rules! views {
    ($t:ident, $b:ident, $i:expr, $l:expr, $len:expr) => {{
        let (base, n) = ($b.as_ptr(), $b.len());
        let at = |k: usize| unsafe { base.add(k) };
        let same = |l: Length| match ($len, l) {
            (None, Length::Indefinite) => true,
            (Some(a), Length::Definite(b)) => a == b,
            _ => false,
        };
        let r = unsafe { $t::from_bytes_unchecked($b) };
        let whole: &[u8] = r.as_ref();
        assert!(whole.as_ptr() == base && whole.len() == n);
        let id: &[u8] = r.id().as_ref();
        assert!(id.as_ptr() == base && id.len() == $i);
        assert!(same(r.length()));
        let c: &[u8] = r.contents().as_ref();
        assert!(c.as_ptr() == at($i + $l) && c.len() == n - $i - $l);
        let (id, l, c) = r.disassemble();
        let (id, c): (&[u8], &[u8]) = (id.as_ref(), c.as_ref());
        assert!(id.as_ptr() == base && id.len() == $i && same(l));
        assert!(c.as_ptr() == at($i + $l) && c.len() == n - $i - $l);
    }};
}

macro_rules! mut_views {
    ($t:ident, $b:ident, $i:expr, $l:expr, $len:expr) => {{
        let (base, n) = ($b.as_ptr(), $b.len());
        let at = |k: usize| unsafe { base.add(k) };
        let same = |l: Length| match ($len, l) {
            (None, Length::Indefinite) => true,
            (Some(a), Length::Definite(b)) => a == b,
            _ => false,
        };
        let m = unsafe { &mut *($b as *const [u8] as *mut [u8]) };
        let r = unsafe { $t::from_mut_bytes_unchecked(m) };
        {
            let id: &[u8] = (*r.mut_id()).as_ref();
            assert!(id.as_ptr() == base && id.len() == $i);
        }
        {
            let c: &mut [u8] = r.mut_contents().as_mut();
            assert!(c.as_ptr() == at($i + $l) && c.len() == n - $i - $l);
        }
        let (id, l, c) = r.disassemble_mut();
        let (id, c): (&[u8], &[u8]) = ((*id).as_ref(), (*c).as_ref());
        assert!(id.as_ptr() == base && id.len() == $i && same(l));
        assert!(c.as_ptr() == at($i + $l) && c.len() == n - $i - $l);
    }};
}

mod apart {
    use super::*;
    contracts! {
        #[kani::unwind(10)]
        fn der_apart() {
            let (b, i, l) = any_der();
            let c = b.len() - i - l;
            views!(DerRef, b, i, l, Some(c));
            cover!(i == 3 && l == 5);
            cover!(i == 1 && c == 0);
            cover!(c == 255);
        }

        #[kani::unwind(10)]
        fn ber_apart() {
            let (b, i, l) = any_der();
            let c = b.len() - i - l;
            views!(BerRef, b, i, l, Some(c));
            cover!(l == 6);
        }

        #[kani::unwind(10)]
        fn ber_apart_indefinite() {
            let b = any_huge(2);
            let (i, l) = parts(b);
            assume(matches!(l, Some((None, 1))));
            views!(BerRef, b, i, 1, None::<usize>);
            mut_views!(BerRef, b, i, 1, None::<usize>);
            cover!(i == 2);
        }

        #[kani::unwind(10)]
        fn der_apart_mut() {
            let (b, i, l) = any_der();
            let c = b.len() - i - l;
            mut_views!(DerRef, b, i, l, Some(c));
            cover!(l == 4);
        }

        #[kani::unwind(10)]
        fn ber_apart_mut() {
            let (b, i, l) = any_der();
            let c = b.len() - i - l;
            mut_views!(BerRef, b, i, l, Some(c));
            cover!(l == 4);
        }

        /// Writing through the views changes the octets meant and no others.
        #[kani::unwind(10)]
        fn write_views() {
            let a: [u8; 8] = any();
            assume(a[0] & 0x1f != 0x1f && a[1] == 6);
            let mut m = a;
            let k = any_upto(5);
            let v: u8 = any();
            unsafe { DerRef::from_mut_bytes_unchecked(&mut m) }.mut_contents()[k] = v;
            let j = any_upto(7);
            assert!(m[j] == if j == k + 2 { v } else { a[j] });
            let mut m = a;
            unsafe { BerRef::from_mut_bytes_unchecked(&mut m) }
                .mut_id()
                .set_class(bsn1::ClassTag::Private);
            assert!(m[j] == if j == 0 { a[0] | 0xc0 } else { a[j] });
        }

        #[kani::unwind(4)]
        fn constants() {
            let v: bool = any();
            let o: &[u8] = DerRef::boolean(v).as_ref();
            assert!(o.len() == 3 && o[0] == 1 && o[1] == 1 && o[2] == if v { 0xff } else { 0 });
            let o: &[u8] = BerRef::eoc().as_ref();
            assert!(o.len() == 2 && o[0] == 0 && o[1] == 0);
        }
    }
}
pub use apart::ALL as APART;

sweeps! {
    /// Pieces and contents of every size around the steps of the length octets.
    fn sizes() {
        let mut seed = 1u64;
        for n in (0..400).chain([65534, 65535, 65536, 65537, 70000, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]) {
            let c: Vec<u8> = (0..n).map(|k| { seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (seed >> 33) as u8 ^ k as u8 }).collect();
            let ids: [&[u8]; 3] = [&[0x30], &[0x7f, 0x55], &[0xdf, 0x81, 0x00]];
            for id in ids {
                let (e, l) = spec::len_encode(Some(n));
                let want: Vec<u8> = [id, &e[..l], &c].concat();
                let want_x: Vec<u8> = [id, &[0x80], &c].concat();
                let i = id_ref(id);
                let cuts = [0, n / 3, n / 2, n];
                let p: Vec<&[u8]> = cuts.windows(2).map(|w| &c[w[0]..w[1]]).collect();
                assert!(Der::new(i, (&c[..]).into()).as_ref() as &[u8] == &want[..]);
                assert!(Ber::new(i, (&c[..]).into()).as_ref() as &[u8] == &want[..]);
                assert!(Der::from_id_iterator(i, p.iter()).as_ref() as &[u8] == &want[..]);
                assert!(Ber::from_id_iterator(i, p.iter()).as_ref() as &[u8] == &want[..]);
                unsafe {
                    assert!(Ber::new_indefinite(i, (&c[..]).into()).as_ref() as &[u8] == &want_x[..]);
                    assert!(Ber::from_id_iterator_indefinite(i, p.iter()).as_ref() as &[u8] == &want_x[..]);
                }
                let mut d = Der::new(i, (&c[..]).into());
                assert!(d.id().as_ref() as &[u8] == id && d.length().definite() == Some(n));
                assert!(d.contents().as_ref() as &[u8] == &c[..]);
                let mut x = c.clone();
                if n > 0 {
                    d.mut_contents()[n - 1] ^= 0x55;
                    x[n - 1] ^= 0x55;
                }
                assert!(d.into_vec() == [id, &e[..l], &x].concat());
                covered(true);
            }
        }
    }
}
