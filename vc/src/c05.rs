//! C05: DER parsing of a byte slice.
use crate::spec;
use crate::sym::*;
use bsn1::DerRef;

pub fn parse(b: &[u8]) -> bool {
    let mut r = b;
    let p = DerRef::parse(&mut r);
    match (&p, spec::der_tlv(b)) {
        (Ok(d), Some((i, l, c))) => {
            let o: &[u8] = d.as_ref();
            assert!(o.as_ptr() == b.as_ptr() && o.len() == i + l + c);
            assert!(r.len() == b.len() - o.len() && r.as_ptr() == b[o.len()..].as_ptr());
            cover!(c > 0 && !r.is_empty());
            cover!(i > 1);
        }
        (Err(_), None) => {
            assert!(r.as_ptr() == b.as_ptr() && r.len() == b.len());
            cover!(b.len() > 4);
        }
        _ => assert!(false),
    }
    let ok = p.is_ok();
    std::mem::forget(p);
    ok
}

pub fn parse_mut(b: &mut [u8]) {
    let (base, n) = (b.as_ptr(), b.len());
    let want = spec::der_tlv(b);
    let mut r = b;
    let p = DerRef::parse_mut(&mut r);
    match (&p, want) {
        (Ok(d), Some((i, l, c))) => {
            let o: &[u8] = (**d).as_ref();
            assert!(o.as_ptr() == base && o.len() == i + l + c);
            assert!(r.len() == n - o.len() && r.as_ptr() == unsafe { base.add(o.len()) });
            cover!(c > 0 && !r.is_empty());
        }
        (Err(_), None) => {
            assert!(r.as_ptr() == base && r.len() == n);
            cover!(n > 4);
        }
        _ => assert!(false),
    }
    std::mem::forget(p);
}

contracts! {
    #[kani::unwind(14)]
    fn parse_any() {
        let a: [u8; 13] = any();
        let n = any_upto(13);
        parse(&a[..n]);
    }

    #[kani::unwind(14)]
    fn parse_mut_any() {
        let mut a: [u8; 13] = any();
        let copy = a;
        let n = any_upto(13);
        parse_mut(&mut a[..n]);
        assert!(spec::same(&a, &copy));
    }

    /// Slices of any size, identifiers up to three octets.
    #[kani::unwind(5)]
    #[cfg_attr(vc_pil, kani::stub(bsn1::misc::parse_id_length, crate::stubs::parse_id_length))]
    fn parse_huge() {
        let b = any_huge(14);
        assume(b[0] & 0x1f != 0x1f || b[1] & 0x80 == 0 || b[2] & 0x80 == 0);
        let ok = parse(b);
        cover!(ok && b.len() > 1 << 33 && b[1] == 0x84);
        cover!(!ok);
    }

    #[kani::unwind(5)]
    #[cfg_attr(vc_pil, kani::stub(bsn1::misc::parse_id_length, crate::stubs::parse_id_length))]
    fn parse_mut_huge() {
        let b = any_huge(14);
        assume(b[0] & 0x1f != 0x1f || b[1] & 0x80 == 0 || b[2] & 0x80 == 0);
        parse_mut(unsafe { &mut *(b as *const [u8] as *mut [u8]) });
    }
}
