//! C12: announced sizes are what is written.
use crate::model::{announced, look, Abs, Ix, Tape};
#[cfg(not(kani))]
use crate::refs::Enc;
use crate::spec;
use crate::sym::*;
use bsn1_serde::ser::Serialize;
use bsn1_serde::OctetString;
#[allow(unused_imports)]
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};

/// The whole of a value through every entry point: `total` octets, the one at `w` being `v`.
fn whole<T: Serialize>(value: &T, total: usize, w: usize, v: u8) {
    let mut t = Tape::at(w);
    let r = bsn1_serde::write_der(value, &mut t);
    assert!(r.is_ok() && t.n == total);
    assert!(w >= total || t.v == v);
    std::mem::forget(r);
}

fn whole_memory<T: Serialize>(value: &T, total: usize, w: usize, v: u8) {
    let r = bsn1_serde::to_der(value);
    match &r {
        Ok(d) => {
            let o: &[u8] = d.as_ref();
            assert!(o.len() == total);
            assert!(w >= total || look(o, w) == v);
        }
        Err(_) => panic!("to_der fails"),
    }
    std::mem::forget(r);
}

macro_rules! leaves {
    ($( $name:ident $t:ty; )*) => {
        contracts! {
            $(
                #[kani::unwind(19)]
                fn $name() {
                    let v: $t = any();
                    let (i, c, said) = announced(&v, 0);
                    assert!(i.n == 1 && c.n >= 1);
                    cover!(said == Some(c.n) && c.n == 1);
                }
            )*
        }
    };
}

pub mod leaf {
    use super::*;
    leaves! {
        bool_ bool; i8_ i8; u8_ u8; i16_ i16; u16_ u16; i32_ i32; u32_ u32; i64_ i64; u64_ u64;
        i128_ i128; u128_ u128; isize_ isize; usize_ usize;
    }
}

pub mod text {
    use super::*;
    contracts! {
        fn string() {
            let b = any_huge(1);
            let n = any_upto(b.len());
            let s = std::mem::ManuallyDrop::new(unsafe { String::from_raw_parts(b.as_ptr() as *mut u8, n, n) });
            let w = any_upto(b.len() - 1);
            let (i, c, said) = announced(&*s, w);
            assert!(i.n == 1 && c.n == n && (w >= n || c.v == b[w]));
            cover!(said == Some(0));
            cover!(n > 1 << 30 || cfg!(not(kani)));
        }

        fn octets() {
            let b = any_huge(1);
            let n = any_upto(b.len());
            let s = std::mem::ManuallyDrop::new(OctetString::new(&b[..n]));
            let w = any_upto(b.len() - 1);
            let (i, c, said) = announced(&*s, w);
            assert!(i.n == 1 && c.n == n && (w >= n || c.v == b[w]));
            cover!(said == Some(0));
            cover!(n > 1 << 30 || cfg!(not(kani)));
        }
    }
}

contracts_over_buffer! { seen ALL:
    /// A value that announces or withholds anything, to a writer.
    #[kani::unwind(3)]
    fn to_writer() {
        let a = Abs::any(0);
        let w = any_upto(a.total() - 1);
        whole(&a, a.total(), w, a.octet(w));
        cover!(!a.says_c && a.says_id);
        cover!(a.says_c && !a.says_id);
    }

    /// The same, in memory.
    #[kani::unwind(3)]
    fn to_memory() {
        let a = Abs::any(0);
        let w = any_upto(a.total() - 1);
        whole_memory(&a, a.total(), w, a.octet(w));
        cover!(!a.says_c && a.says_id);
        cover!(a.says_c && !a.says_id);
    }
}

/// Contents of a list of values: size, and octet at `w`.
fn list_octet(vs: &[Ix], w: usize) -> (usize, u8) {
    let (mut n, mut v) = (0, 0);
    for a in vs {
        if n <= w && w - n < a.get().total() {
            v = a.get().octet(w - n);
        }
        n += a.get().total();
    }
    (n, v)
}

fn list<T: Serialize>(value: &T, vs: &[Ix], tag: u8) {
    let w: usize = any();
    let (n, v) = list_octet(vs, w);
    let (i, c, said) = announced(value, w);
    assert!(i.n == 1 && (w > 0 || i.v == tag));
    assert!(c.n == n && (w >= n || c.v == v));
    cover!(vs.len() == 2 && said.is_some());
    cover!(vs.len() == 2 && said.is_none());
}

pub mod lists {
    use super::*;
    contracts_over_buffer! { seen ALL:
        #[kani::unwind(3)]
        #[kani::stub(bsn1_serde::write_der, crate::model::write_der)]
        #[kani::stub(bsn1_serde::to_der, crate::model::to_der)]
        fn vec() {
            let vs = [Ix::any(0), Ix::any(1)];
            let n = any_upto(2);
            let mut x = Vec::with_capacity(2);
            if n > 0 { x.push(vs[0].clone()); }
            if n > 1 { x.push(vs[1].clone()); }
            list(&x, &vs[..n], 0x30);
            std::mem::forget(x);
        }

        #[kani::unwind(3)]
        #[kani::stub(bsn1_serde::write_der, crate::model::write_der)]
        #[kani::stub(bsn1_serde::to_der, crate::model::to_der)]
        fn linked_list() {
            let vs = [Ix::any(0), Ix::any(1)];
            let n = any_upto(2);
            let mut x = LinkedList::new();
            if n > 0 { x.push_back(vs[0].clone()); }
            if n > 1 { x.push_back(vs[1].clone()); }
            list(&x, &vs[..n], 0x30);
            std::mem::forget(x);
        }

        #[kani::unwind(3)]
        #[kani::stub(bsn1_serde::write_der, crate::model::write_der)]
        #[kani::stub(bsn1_serde::to_der, crate::model::to_der)]
        fn deque() {
            let vs = [Ix::any(0), Ix::any(1)];
            let n = any_upto(2);
            let mut x = VecDeque::with_capacity(2);
            if n > 0 { x.push_back(vs[0].clone()); }
            if n > 1 { x.push_back(vs[1].clone()); }
            list(&x, &vs[..n], 0x30);
            std::mem::forget(x);
        }

        #[kani::unwind(3)]
        #[kani::stub(bsn1_serde::write_der, crate::model::write_der)]
        #[kani::stub(bsn1_serde::to_der, crate::model::to_der)]
        fn tree_set() {
            let vs = [Ix::any(0), Ix::any(1)];
            let mut x = BTreeSet::new();
            x.insert(vs[0].clone());
            x.insert(vs[1].clone());
            list(&x, &vs, 0x30);
            std::mem::forget(x);
        }

        // One pair: a key and a value. The sizes.
        #[kani::unwind(3)]
        #[kani::stub(bsn1_serde::write_der, crate::model::write_der)]
        #[kani::stub(bsn1_serde::to_der, crate::model::to_der)]
        fn tree_map() { tree_map_of(true, true, false) }

        #[kani::unwind(3)]
        #[kani::stub(bsn1_serde::write_der, crate::model::write_der)]
        #[kani::stub(bsn1_serde::to_der, crate::model::to_der)]
        fn tree_map_key() { tree_map_of(false, true, false) }

        #[kani::unwind(3)]
        #[kani::stub(bsn1_serde::write_der, crate::model::write_der)]
        #[kani::stub(bsn1_serde::to_der, crate::model::to_der)]
        fn tree_map_value() { tree_map_of(true, false, false) }

        #[kani::unwind(3)]
        #[kani::stub(bsn1_serde::write_der, crate::model::write_der)]
        #[kani::stub(bsn1_serde::to_der, crate::model::to_der)]
        fn tree_map_neither() { tree_map_of(false, false, false) }

        // The octets.
        #[kani::unwind(3)]
        #[kani::stub(bsn1_serde::write_der, crate::model::write_der)]
        #[kani::stub(bsn1_serde::to_der, crate::model::to_der)]
        fn tree_map_octets() { tree_map_of(true, true, true) }

        #[kani::unwind(3)]
        #[kani::stub(bsn1_serde::write_der, crate::model::write_der)]
        #[kani::stub(bsn1_serde::to_der, crate::model::to_der)]
        fn tree_map_octets_key() { tree_map_of(false, true, true) }

        #[kani::unwind(3)]
        #[kani::stub(bsn1_serde::write_der, crate::model::write_der)]
        #[kani::stub(bsn1_serde::to_der, crate::model::to_der)]
        fn tree_map_octets_value() { tree_map_of(true, false, true) }

        #[kani::unwind(3)]
        #[kani::stub(bsn1_serde::write_der, crate::model::write_der)]
        #[kani::stub(bsn1_serde::to_der, crate::model::to_der)]
        fn tree_map_octets_neither() { tree_map_of(false, false, true) }
    }

    fn tree_map_of(key: bool, value: bool, octets: bool) {
        let (k, v) = (Ix::known(0, key), Ix::known(1, value));
        let mut x = BTreeMap::new();
        x.insert(k.clone(), v.clone());
        pairs(&x, k.get(), v.get(), 0x30, octets);
        std::mem::forget(x);
    }

    fn pairs<T: Serialize>(x: &T, k: &Abs, v: &Abs, tag: u8, octets: bool) {
        let inner = k.total() + v.total();
        let l = spec::len_size(inner);
        let n = 1 + l + inner;
        let w = if octets { any_upto(n - 1) } else { usize::MAX };
        let (i, c, said) = announced(x, w);
        assert!(i.n == 1 && (w > 0 || i.v == tag));
        assert!(c.n == n);
        if octets {
            let want = if w == 0 {
                0x30
            } else if w < 1 + l {
                spec::len_octet(inner, w - 1)
            } else if w - 1 - l < k.total() {
                k.octet(w - 1 - l)
            } else {
                v.octet(w - 1 - l - k.total())
            };
            assert!(c.v == want);
        }
        cover!(said.is_some() || said.is_none());
    }
}

#[cfg(not(kani))]
fn values<T: Enc + Serialize>(runs: usize) {
    for _ in 0..runs {
        value(&T::gen(2 + pick(12)));
    }
}

/// The octets and the announced sizes are those of the second implementation.
#[cfg(not(kani))]
pub fn value<T: Enc + Serialize>(x: &T) {
    let e = x.enc();
    let (mut i, mut c) = (Vec::new(), Vec::new());
    x.write_id(&mut i).unwrap();
    x.write_der_contents(&mut c).unwrap();
    assert!(i == x.id() && c == x.contents());
    assert!(x.id_len().unwrap().map_or(true, |n| n == i.len()));
    assert!(x.der_contents_len().unwrap().map_or(true, |n| n == c.len()));
    let b: &[u8] = &e;
    assert!(bsn1_serde::to_der(x).unwrap().as_ref() as &[u8] == b);
    assert!(bsn1_serde::to_ber(x).unwrap().as_ref() as &[u8] == b);
    let (mut s, mut t) = (Vec::new(), Vec::new());
    bsn1_serde::write_der(x, &mut s).unwrap();
    bsn1_serde::write_ber(x, &mut t).unwrap();
    assert!(s == b && t == b);
    covered(true);
}

sweeps! {
    /// Built-in types and nestings of them.
    fn nestings() {
        for_types!(values 200);
    }

    /// Containers of values that announce and withhold sizes in any mix.
    fn mixed() {
        values::<Abs>(1500);
        values::<Vec<Abs>>(500);
        values::<LinkedList<Abs>>(500);
        values::<VecDeque<Vec<Abs>>>(50);
        values::<BTreeSet<Abs>>(500);
        values::<HashSet<Abs>>(500);
        values::<BTreeMap<Abs, Abs>>(1000);
        values::<BTreeMap<u8, Abs>>(500);
        values::<HashMap<Abs, Abs>>(1000);
        values::<HashMap<Abs, u8>>(500);
        values::<HashMap<String, Vec<Abs>>>(50);
        values::<BTreeMap<Abs, HashMap<Abs, Abs>>>(50);
    }
}
