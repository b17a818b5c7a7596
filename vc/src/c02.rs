//! C02: BOOLEAN.
use crate::spec::same;
use crate::sym::*;
use bsn1::{Ber, Contents, ContentsRef, Der, DerRef};

fn read(b: &[u8]) {
    let c: &ContentsRef = b.into();
    let r = c.to_bool_ber();
    match &r {
        Ok(v) => assert!(b.len() == 1 && *v == (b[0] != 0)),
        Err(_) => assert!(b.len() != 1),
    }
    let s = c.to_bool_der();
    match &s {
        Ok(v) => assert!(b.len() == 1 && b[0] == if *v { 0xff } else { 0x00 }),
        Err(_) => assert!(b.len() != 1 || (b[0] != 0 && b[0] != 0xff)),
    }
    std::mem::forget((r, s));
}

contracts! {
    fn write() {
        let v: bool = any();
        let want = if v { 0xff } else { 0x00 };
        let c = Contents::from(v);
        assert!(same(c.as_ref(), &[want]));
        let r: &ContentsRef = v.into();
        assert!(same(r.as_ref(), &[want]));
        std::mem::forget(c);
        cover!(v);
        cover!(!v);
    }

    #[kani::unwind(5)]
    fn values() {
        let v: bool = any();
        let want = [1, 1, if v { 0xff } else { 0x00 }];
        let d = Der::from(v);
        assert!(same(d.as_ref(), &want));
        let b = Ber::from(v);
        assert!(same(b.as_ref(), &want));
        assert!(same(DerRef::boolean(v).as_ref(), &want));
        std::mem::forget((d, b));
        cover!(v);
    }

    fn read_short() {
        let a: [u8; 3] = any();
        let n = any_upto(3);
        read(&a[..n]);
        cover!(n == 1 && a[0] == 7);
        cover!(n == 0);
    }

    fn read_any_size() {
        let b = any_huge(2);
        read(b);
        cover!(b.len() > 1000);
    }
}
