//! C04: identifier octets.
use crate::spec;
use crate::spec::same;
use crate::sym::*;
use bsn1::{ClassTag, Id, IdRef, PCTag, TagNumber};

pub fn any_class() -> (u8, ClassTag) {
    let c = any::<u8>() & 3;
    (c, class(c))
}

pub fn class(c: u8) -> ClassTag {
    match c {
        0 => ClassTag::Universal,
        1 => ClassTag::Application,
        2 => ClassTag::ContextSpecific,
        _ => ClassTag::Private,
    }
}

pub fn pc(constructed: bool) -> PCTag {
    if constructed {
        PCTag::Constructed
    } else {
        PCTag::Primitive
    }
}

fn is_class(t: ClassTag, c: u8) -> bool {
    t as u8 == class(c) as u8
}

/// All accessors agree with the octets.
fn accessors(id: &IdRef, c: u8, constructed: bool) {
    assert!(is_class(id.class(), c));
    assert!(id.is_universal() == (c == 0));
    assert!(id.is_application() == (c == 1));
    assert!(id.is_context_specific() == (c == 2));
    assert!(id.is_private() == (c == 3));
    assert!((id.pc() as u8 == PCTag::Constructed as u8) == constructed);
    assert!(id.is_constructed() == constructed);
    assert!(id.is_primitive() == !constructed);
}

fn number_of(id: &IdRef) -> Option<u128> {
    let r = id.number();
    let n = match &r {
        Ok(n) => Some(n.get()),
        Err(_) => None,
    };
    std::mem::forget(r);
    n
}

fn parse(b: &[u8]) {
    let n = b.len();
    let mut r = b;
    let p = IdRef::parse(&mut r);
    match (&p, spec::id_len(b)) {
        (Ok(id), Some(k)) => {
            let o: &[u8] = id.as_ref();
            assert!(o.as_ptr() == b.as_ptr() && o.len() == k);
            assert!(id.len() == k);
            assert!(r.len() == n - k && r.as_ptr() == b[k..].as_ptr());
            accessors(id, b[0] >> 6, b[0] & 0x20 != 0);
            cover!(k == n);
        }
        (Err(_), None) => {
            assert!(r.as_ptr() == b.as_ptr() && r.len() == n);
            cover!(n == 3);
        }
        _ => assert!(false),
    }
    std::mem::forget(p);
}

contracts! {    #[kani::unwind(22)]
    fn number_back() {
        let n: u128 = any();
        let (c, f) = (any::<u8>() & 3, any());
        let (o, k) = spec::id_encode(c, f, n);
        let id = unsafe { IdRef::from_bytes_unchecked(&o[..k]) };
        assert!(number_of(id) == Some(n));
        cover!(k == 20);
    }

    /// Changing any one part of any identifier.
    #[kani::unwind(22)]
    fn change_class_form() {
        let (c, f, n) = (any::<u8>() & 3, any(), any::<u128>());
        let (mut o, k) = spec::id_encode(c, f, n);
        let id = unsafe { IdRef::from_mut_bytes_unchecked(&mut o[..k]) };
        let (c2, cls) = any_class();
        let f2: bool = any();
        let first: bool = any();
        let (c3, f3) = if first {
            id.set_class(cls);
            (c2, f)
        } else {
            id.set_pc(pc(f2));
            (c, f2)
        };
        accessors(id, c3, f3);
        let (w, _) = spec::id_encode(c3, f3, n);
        assert!(same(&o, &w));
        cover!(k == 20);
    }

    #[kani::unwind(24)]
    fn parse_any() {
        let a: [u8; 23] = any();
        let n = any_upto(23);
        parse(&a[..n]);
    }

    /// Long tag numbers: right, or an error.
    #[kani::unwind(24)]
    fn number_any() {
        let a: [u8; 22] = any();
        let n = any_upto(22);
        assume(spec::id_len(&a[..n]) == Some(n));
        let id = unsafe { IdRef::from_bytes_unchecked(&a[..n]) };
        assert!(number_of(id) == spec::id_number(&a[..n]));
        cover!(n == 22);
        cover!(n == 20);
    }

    #[kani::unwind(12)]
    fn parse_mut() {
        let mut a: [u8; 10] = any();
        let n = any_upto(10);
        let copy = a;
        let want = spec::id_len(&copy[..n]);
        let base = a.as_ptr();
        let mut r = &mut a[..n];
        let p = IdRef::parse_mut(&mut r);
        match (&p, want) {
            (Ok(id), Some(k)) => {
                let o: &[u8] = (**id).as_ref();
                assert!(o.as_ptr() == base && o.len() == k);
                assert!(r.len() == n - k);
                assert!(r.is_empty() || r.as_ptr() == unsafe { base.add(k) });
                cover!(k == 3);
            }
            (Err(_), None) => assert!(r.len() == n && r.as_ptr() == base),
            _ => assert!(false),
        }
        std::mem::forget(p);
        assert!(same(&a, &copy));
    }

    fn constants() {
        let t: [(&IdRef, u8); 11] = [
            (IdRef::eoc(), 0x00),
            (IdRef::boolean(), 0x01),
            (IdRef::integer(), 0x02),
            (IdRef::octet_string(), 0x04),
            (IdRef::octet_string_constructed(), 0x24),
            (IdRef::null(), 0x05),
            (IdRef::real(), 0x09),
            (IdRef::utf8_string(), 0x0c),
            (IdRef::utf8_string_constructed(), 0x2c),
            (IdRef::sequence(), 0x30),
            (IdRef::set(), 0x31),
        ];
        let i = any_upto(10);
        assert!(same(t[i].0.as_ref(), &[t[i].1]));
        let (a, b, c, d, e): (u8, u16, u32, u64, usize) = (any(), any(), any(), any(), any());
        assert!(TagNumber::from(a).get() == a as u128);
        assert!(TagNumber::from(b).get() == b as u128);
        assert!(TagNumber::from(c).get() == c as u128);
        assert!(TagNumber::from(d).get() == d as u128);
        assert!(TagNumber::from(e).get() == e as u128);
        cover!(i == 10);
    }
}

contracts_over_buffer! { OWNED:
    #[kani::unwind(22)]
    fn build() {
        let (c, cls) = any_class();
        let f: bool = any();
        let n: u128 = any();
        let id = Id::new(cls, pc(f), TagNumber::from(n));
        let (want, k) = spec::id_encode(c, f, n);
        {
            let o: &[u8] = (*id).as_ref();
            assert!(same(o, &want[..k]));
            assert!(id.len() == k);
            accessors(&id, c, f);
        }
        cover!(k == 20);
        cover!(k == 1);
        std::mem::forget(id);
    }
    #[kani::unwind(22)]
    fn change_number() {
        let (c, f, n, m) = (any::<u8>() & 3, any(), any::<u128>(), any::<u128>());
        let (o, k) = spec::id_encode(c, f, n);
        let mut id = unsafe { Id::from_bytes_unchecked(&o[..k]) };
        id.set_number(TagNumber::from(m));
        let (w, j) = spec::id_encode(c, f, m);
        assert!(same((*id).as_ref(), &w[..j]));
        cover!(k == 20 && j == 1);
        cover!(k == 1 && j == 20);
        std::mem::forget(id);
    }
    #[kani::unwind(24)]
    fn parse_owned() {
        let a: [u8; 22] = any();
        let n = any_upto(22);
        let b = &a[..n];
        let mut r = b;
        let p = Id::parse(&mut r);
        match (&p, spec::id_len(b)) {
            (Ok(id), Some(k)) => {
                assert!(same((**id).as_ref(), &b[..k]));
                assert!(r.len() == n - k);
                cover!(k == 20);
            }
            (Err(_), None) => { cover!(n == 3); }
            _ => assert!(false),
        }
        std::mem::forget(p);
    }
}
