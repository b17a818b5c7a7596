//! C15: what derived serialization writes.
#[cfg(vc_attr)]
#[path = "ident.rs"]
pub mod ident;

use crate::model::{announced, Abs};
#[cfg(not(kani))]
use crate::refs::Dec;
use crate::sym::*;
#[cfg(not(kani))]
use bsn1_serde::de::Deserialize;
use bsn1_serde::ser::Serialize;

/// Parties for the verifier: the fields are values of any size that announce or withhold anything.
pub mod forms {
    use super::*;

    #[derive(bsn1_serde::Serialize)]
    pub struct Named<A: Serialize, B: Serialize> {
        pub a: A,
        #[bsn1_serde(skip)]
        pub x: u8,
        pub b: B,
        #[bsn1_serde(skip_serializing)]
        pub y: u16,
        #[bsn1_serde(skip_deserializing)]
        pub z: bool,
    }

    #[derive(bsn1_serde::Serialize)]
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 300)]
    pub struct Tuple<A, B>(#[bsn1_serde(skip)] pub u8, pub A, pub B)
    where
        A: Serialize,
        B: Serialize;

    #[derive(bsn1_serde::Serialize)]
    #[bsn1_serde(id = Set)]
    pub struct Unit;

    #[derive(bsn1_serde::Serialize)]
    pub enum Enum<A: Serialize, B: Serialize> {
        Default(B, A),
        #[bsn1_serde(id = Null)]
        Nothing,
        #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_num = 30)]
        Named { b: A, a: B },
        #[bsn1_serde(tag_class = APPLICATION, tag_pc = PRIMITIVE, tag_num = 31)]
        Skip(#[bsn1_serde(skip)] u8, A),
        #[bsn1_serde(tag_num = 0xffff)]
        Other(),
    }

    #[derive(bsn1_serde::Serialize)]
    #[bsn1_serde(transparent)]
    pub struct Through<A: Serialize> {
        #[bsn1_serde(skip)]
        pub x: u32,
        pub a: A,
    }

    /// As its number is even or odd, it stands for one value or another.
    #[derive(Clone)]
    pub struct Sign(pub Abs);

    impl From<Sign> for Abs {
        fn from(s: Sign) -> Abs {
            s.0
        }
    }

    pub fn plain(s: &Sign) -> Abs {
        s.0.clone()
    }

    #[derive(bsn1_serde::Serialize)]
    #[bsn1_serde(transparent)]
    pub struct ThroughInto(#[bsn1_serde(into = "Abs")] pub Sign, #[bsn1_serde(skip)] pub u8);

    #[derive(bsn1_serde::Serialize)]
    #[bsn1_serde(transparent)]
    pub struct ThroughTo(#[bsn1_serde(skip_serializing)] pub u8, #[bsn1_serde(to = "plain")] pub Sign);

    #[derive(bsn1_serde::Serialize)]
    pub struct FieldInto {
        #[bsn1_serde(into = "Abs")]
        pub a: Sign,
        pub b: Abs,
    }

    #[derive(bsn1_serde::Serialize)]
    pub struct FieldTo(pub Abs, #[bsn1_serde(to = "plain")] pub Sign);

    #[derive(Clone, bsn1_serde::Serialize)]
    #[bsn1_serde(into = "Abs")]
    pub struct WholeInto(pub Abs, pub u8);

    impl From<WholeInto> for Abs {
        fn from(s: WholeInto) -> Abs {
            s.0
        }
    }

    #[derive(bsn1_serde::Serialize)]
    #[bsn1_serde(to = "whole")]
    pub enum WholeTo {
        This(Abs),
    }

    pub fn whole(s: &WholeTo) -> Abs {
        match s {
            WholeTo::This(a) => a.clone(),
        }
    }
}
use forms::*;

/// `x` is written with identifier `id` and the elements `fs` as contents, of which place `w` is seen.
fn written<T: Serialize>(x: T, id: &[u8], fs: &[&Abs]) {
    let w: usize = any();
    let (i, c, said) = announced(&x, w);
    assert!(i.n == id.len() && (w >= id.len() || i.v == id[w]));
    let (mut n, mut v) = (0, 0);
    if fs.len() > 0 {
        (n, v) = after(n, v, fs[0], w);
    }
    if fs.len() > 1 {
        (n, v) = after(n, v, fs[1], w);
    }
    assert!(c.n == n && (w >= n || c.v == v));
    cover!(w < n || fs.is_empty());
    cover!(said.is_some() || said.is_none());
    std::mem::forget(x);
}

fn after(n: usize, v: u8, a: &Abs, w: usize) -> (usize, u8) {
    let t = a.total();
    (n + t, if n <= w && w - n < t { a.octet(w - n) } else { v })
}

/// `x` is written exactly as `a` is.
fn same_as<T: Serialize>(x: T, a: &Abs) {
    let w: usize = any();
    let (i, c, _) = announced(&x, w);
    assert!(i.n == a.il && (w >= a.il || i.v == a.id[w]));
    assert!(c.n == a.c.len() && (w >= c.n || c.v == a.c[w]));
    cover!(w < c.n);
    std::mem::forget(x);
}

macro_rules! derived {
    ($( $(#[$doc:meta])* fn $name:ident() $body:block )*) => {
        contracts_over_buffer! { seen ALL:
            $(
                $(#[$doc])*
                #[kani::unwind(4)]
                #[kani::stub(bsn1_serde::write_der, crate::model::write_der)]
                #[kani::stub(bsn1_serde::to_der, crate::model::to_der)]
                fn $name() $body
            )*
        }
    };
}

pub mod proofs {
    use super::*;

    derived! {
        fn named() {
            let (a, b) = (Abs::any(0), Abs::any(1));
            let z: bool = any();
            let x = Named { a: a.clone(), x: any(), b: b.clone(), y: any(), z };
            let w: usize = any();
            let (i, c, _) = announced(&x, w);
            assert!(i.n == 1 && (w > 0 || i.v == 0x30));
            let (n, v) = after(0, 0, &a, w);
            let (n, v) = after(n, v, &b, w);
            // the last field is a boolean
            assert!(c.n == n + 3);
            let last = [1, 1, if z { 0xff } else { 0 }];
            assert!(w >= n + 3 || c.v == if w < n { v } else { last[w - n] });
            cover!(w < n);
            cover!(w == n + 2);
            std::mem::forget(x);
        }

        fn tuple() {
            let (a, b) = (Abs::any(0), Abs::any(1));
            written(Tuple(any(), a.clone(), b.clone()), &[0xff, 0x82, 0x2c], &[&a, &b]);
        }

        fn unit() {
            written(Unit, &[0x31], &[]);
        }

        fn variant() {
            let (a, b) = (Abs::any(0), Abs::any(1));
            match any_upto(4) {
                0 => written(Enum::Default(b.clone(), a.clone()), &[0x30], &[&b, &a]),
                1 => written(Enum::<Abs, Abs>::Nothing, &[5], &[]),
                2 => written(Enum::Named { b: b.clone(), a: a.clone() }, &[0xbe], &[&b, &a]),
                3 => written(Enum::<Abs, Abs>::Skip(any(), a.clone()), &[0x5f, 0x1f], &[&a]),
                _ => written(Enum::<Abs, Abs>::Other(), &[0x3f, 0x83, 0xff, 0x7f], &[]),
            }
        }

        fn through() {
            let a = Abs::any(0);
            same_as(Through { x: any(), a: a.clone() }, &a);
        }

        fn through_into() {
            let a = Abs::any(0);
            same_as(ThroughInto(Sign(a.clone()), any()), &a);
        }

        fn through_to() {
            let a = Abs::any(0);
            same_as(ThroughTo(any(), Sign(a.clone())), &a);
        }

        fn field_into() {
            let (a, b) = (Abs::any(0), Abs::any(1));
            written(FieldInto { a: Sign(a.clone()), b: b.clone() }, &[0x30], &[&a, &b]);
        }

        fn field_to() {
            let (a, b) = (Abs::any(0), Abs::any(1));
            written(FieldTo(a.clone(), Sign(b.clone())), &[0x30], &[&a, &b]);
        }

        fn whole_into() {
            let a = Abs::any(0);
            same_as(WholeInto(a.clone(), any()), &a);
        }

        fn whole_to() {
            let a = Abs::any(0);
            same_as(WholeTo::This(a.clone()), &a);
        }
    }
}

#[cfg(not(kani))]
fn values<T: Dec + Serialize + Deserialize>(runs: usize) {
    for _ in 0..runs {
        crate::c12::value(&T::gen(2 + pick(8)));
    }
}

sweeps! {
    /// Derived types of many shapes against the meaning of their annotations.
    fn shapes() {
        for_shapes!(values 600);
    }
}
