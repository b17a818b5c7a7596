//! C06: BER parsing of a byte slice.
use crate::spec;
use crate::sym::*;
use bsn1::BerRef;

pub fn parse(b: &[u8]) {
    let mut r = b;
    let p = BerRef::parse(&mut r);
    match (&p, spec::ber_total(b)) {
        (Ok(d), Some(t)) => {
            let o: &[u8] = d.as_ref();
            assert!(o.as_ptr() == b.as_ptr() && o.len() == t);
            assert!(r.len() == b.len() - t && r.as_ptr() == b[t..].as_ptr());
            cover!(b[1] == 0x80 && t == 4);
            cover!(!r.is_empty());
        }
        (Err(_), None) => {
            assert!(r.as_ptr() == b.as_ptr() && r.len() == b.len());
            cover!(b.len() == 4 && b[1] == 0x80);
        }
        _ => assert!(false),
    }
    std::mem::forget(p);
}

pub fn parse_mut(b: &mut [u8]) {
    let (base, n) = (b.as_ptr(), b.len());
    let want = spec::ber_total(b);
    let mut r = b;
    let p = BerRef::parse_mut(&mut r);
    match (&p, want) {
        (Ok(d), Some(t)) => {
            let o: &[u8] = (**d).as_ref();
            assert!(o.as_ptr() == base && o.len() == t);
            assert!(r.len() == n - t && r.as_ptr() == unsafe { base.add(t) });
            cover!(t == n);
        }
        (Err(_), None) => {
            assert!(r.as_ptr() == base && r.len() == n);
            cover!(n > 3);
        }
        _ => assert!(false),
    }
    std::mem::forget(p);
}

/// The spec for inputs whose identifiers and lengths are one octet each; others are out of scope.
pub fn total_short(b: &[u8]) -> Option<usize> {
    let (mut pos, mut open) = (0, 0usize);
    while b.len() - pos >= 2 {
        let (t, l) = (b[pos], b[pos + 1]);
        assume(t & 0x1f != 0x1f && l <= 0x80);
        pos += 2;
        if l == 0x80 {
            open += 1;
        } else if (l as usize) > b.len() - pos {
            return None;
        } else {
            pos += l as usize;
            if t == 0 && l == 0 && open > 0 {
                open -= 1;
            }
            if open == 0 {
                return Some(pos);
            }
        }
    }
    assume(pos == b.len() || b[pos] & 0x1f != 0x1f);
    None
}

contracts! {
    #[kani::unwind(5)]
    fn parse_any() {
        let a: [u8; 4] = any();
        let n = any_upto(4);
        parse(&a[..n]);
    }

    #[kani::unwind(5)]
    fn parse_mut_any() {
        let mut a: [u8; 4] = any();
        let copy = a;
        let n = any_upto(4);
        parse_mut(&mut a[..n]);
        assert!(spec::same(&a, &copy));
    }

    /// Every form of identifier and length octets.
    #[kani::unwind(9)]
    #[cfg_attr(vc_pil, kani::stub(bsn1::misc::parse_id_length, crate::stubs::parse_id_length))]
    fn nested() {
        let a: [u8; 8] = any();
        let n = any_upto(8);
        parse(&a[..n]);
    }

    /// Deeper nesting, identifiers and lengths of one octet each.
    #[kani::unwind(11)]
    #[cfg_attr(vc_pil, kani::stub(bsn1::misc::parse_id_length, crate::stubs::parse_id_length_short))]
    fn nested_short() {
        let a: [u8; 20] = any();
        let n = any_upto(20);
        let b = &a[..n];
        let want = total_short(b);
        let mut r = b;
        let p = BerRef::parse(&mut r);
        match (&p, want) {
            (Ok(d), Some(t)) => {
                let o: &[u8] = d.as_ref();
                assert!(o.as_ptr() == b.as_ptr() && o.len() == t);
                assert!(r.len() == b.len() - t && r.as_ptr() == b[t..].as_ptr());
                cover!(t == 20 && a[1] == 0x80 && a[3] == 0x80 && a[5] == 0x80 && a[7] == 0x80);
            }
            (Err(_), None) => {
                assert!(r.as_ptr() == b.as_ptr() && r.len() == b.len());
                cover!(n == 20);
            }
            _ => assert!(false),
        }
        std::mem::forget(p);
    }

    #[kani::unwind(9)]
    #[cfg_attr(vc_pil, kani::stub(bsn1::misc::parse_id_length, crate::stubs::parse_id_length_short))]
    fn nested_short_mut() {
        let mut a: [u8; 16] = any();
        let copy = a;
        let n = any_upto(16);
        let want = total_short(&a[..n]);
        let base = a.as_ptr();
        let mut r = &mut a[..n];
        let p = BerRef::parse_mut(&mut r);
        match (&p, want) {
            (Ok(d), Some(t)) => {
                let o: &[u8] = (**d).as_ref();
                assert!(o.as_ptr() == base && o.len() == t);
                assert!(r.len() == n - t && r.as_ptr() == unsafe { base.add(t) });
                cover!(t == 16 && copy[1] == 0x80 && copy[3] == 0x80);
            }
            (Err(_), None) => assert!(r.as_ptr() == base && r.len() == n),
            _ => assert!(false),
        }
        std::mem::forget(p);
        let k = any_upto(15);
        assert!(a[k] == copy[k]);
    }

    /// Definite lengths and slices of any size.
    #[kani::unwind(5)]
    #[cfg_attr(vc_pil, kani::stub(bsn1::misc::parse_id_length, crate::stubs::parse_id_length))]
    fn definite_huge() {
        let b = any_huge(14);
        assume(b[0] & 0x1f != 0x1f && b[1] != 0x80);
        let mut r = b;
        let p = BerRef::parse(&mut r);
        match (&p, spec::der_tlv(b)) {
            (Ok(d), Some((i, l, c))) => {
                let o: &[u8] = d.as_ref();
                let t = i + l + c;
                assert!(o.as_ptr() == b.as_ptr() && o.len() == t);
                assert!(r.len() == b.len() - t && r.as_ptr() == b[t..].as_ptr());
                cover!(t > 1 << 33);
            }
            (Err(_), None) => {
                assert!(r.as_ptr() == b.as_ptr() && r.len() == b.len());
                cover!(true);
            }
            _ => assert!(false),
        }
        std::mem::forget(p);
    }
}

sweeps! {
    /// Indefinite lengths nested deeply, whole and cut short.
    fn deep() {
        for depth in [1usize, 2, 10, 126, 127, 128, 254, 255, 256, 257, 1000, 32766, 32767, 32768, 32769, 65535, 65536, 70000, 300000] {
            for inner in [&[][..], &[4, 2, 0, 0], &[0x30, 0x80, 0, 0]] {
                let v = [&[0x30u8, 0x80].repeat(depth), inner, &[0u8, 0].repeat(depth)].concat();
                let n = v.len();
                let mut b = [&v[..], &[0, 0, 5]].concat();
                let mut r = &b[..];
                let x = BerRef::parse(&mut r).unwrap();
                assert!(x.as_ref() as &[u8] == v && r.len() == 3);
                let r = &mut &mut b[..];
                assert!(BerRef::parse_mut(r).unwrap().as_ref() as &[u8] == v && r.len() == 3);
                for cut in [n - 1, n - 2, n / 2, 2 * depth, depth] {
                    assert!(BerRef::parse(&mut &b[..cut]).is_err());
                    assert!(BerRef::parse_mut(&mut &mut b[..cut]).is_err());
                }
                covered(true);
            }
        }
    }
}
