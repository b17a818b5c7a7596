//! C16: what derived deserialization reads.
use crate::model::Obs;
use crate::parts::{Octets, Part};
#[cfg(not(kani))]
use crate::refs::Dec;
use crate::sym::*;
use bsn1::{Error, IdRef, Length};
use bsn1_serde::de::Deserialize;
#[cfg(not(kani))]
use bsn1_serde::ser::Serialize;

/// Parties for the verifier: the fields note what they are given.
pub mod forms {
    use super::*;

    #[derive(bsn1_serde::Deserialize)]
    pub struct Named<A: Deserialize, B: Deserialize> {
        pub a: A,
        #[bsn1_serde(skip)]
        pub x: u8,
        pub b: B,
        #[bsn1_serde(skip_deserializing, default = "five")]
        pub y: u16,
    }

    pub fn five() -> u16 {
        5
    }

    #[derive(bsn1_serde::Deserialize)]
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 300)]
    pub struct Tuple<A, B>(#[bsn1_serde(skip_serializing)] pub A, pub B, #[bsn1_serde(skip)] pub u8)
    where
        A: Deserialize,
        B: Deserialize;

    #[derive(bsn1_serde::Deserialize)]
    #[bsn1_serde(id = Set)]
    pub struct Unit;

    #[derive(bsn1_serde::Deserialize)]
    pub enum Enum<A: Deserialize> {
        One(A),
        #[bsn1_serde(id = Null)]
        Nothing,
        #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_num = 31)]
        Two { b: A, a: A },
        #[bsn1_serde(tag_class = PRIVATE)]
        Skip(#[bsn1_serde(skip)] u8, A),
    }

    #[derive(bsn1_serde::Deserialize)]
    #[bsn1_serde(transparent)]
    pub struct Through<A: Deserialize> {
        #[bsn1_serde(skip, default = "five")]
        pub x: u16,
        pub a: A,
    }

    /// Refuses a primitive value.
    #[derive(Clone, Copy)]
    pub struct Picky(pub Obs);

    #[derive(Debug)]
    pub struct Refused;

    impl std::fmt::Display for Refused {
        fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
            Ok(())
        }
    }

    impl std::error::Error for Refused {}

    impl TryFrom<Obs> for Picky {
        type Error = Refused;
        fn try_from(o: Obs) -> Result<Self, Refused> {
            if o.id & 0x20 == 0 { Err(Refused) } else { Ok(Picky(o)) }
        }
    }

    pub struct Easy(pub Obs);

    impl From<Obs> for Easy {
        fn from(o: Obs) -> Self {
            Easy(o)
        }
    }

    #[derive(bsn1_serde::Deserialize)]
    pub struct Converted {
        #[bsn1_serde(from = "Obs")]
        pub a: Easy,
        #[bsn1_serde(try_from = "Obs")]
        pub b: Picky,
    }

    #[derive(bsn1_serde::Deserialize)]
    #[bsn1_serde(transparent)]
    pub struct ThroughFrom(#[bsn1_serde(skip)] pub u8, #[bsn1_serde(from = "Obs")] pub Easy);

    #[derive(bsn1_serde::Deserialize)]
    #[bsn1_serde(transparent)]
    pub struct ThroughTry(#[bsn1_serde(try_from = "Obs")] pub Picky);

    #[derive(bsn1_serde::Deserialize)]
    #[bsn1_serde(from = "Obs")]
    pub struct WholeFrom(pub Obs, pub u8);

    impl From<Obs> for WholeFrom {
        fn from(o: Obs) -> Self {
            WholeFrom(o, 4)
        }
    }

    #[derive(bsn1_serde::Deserialize)]
    #[bsn1_serde(try_from = "Obs")]
    pub struct WholeTry(pub Obs);

    impl TryFrom<Obs> for WholeTry {
        type Error = Refused;
        fn try_from(o: Obs) -> Result<Self, Refused> {
            if o.id & 0x20 == 0 { Err(Refused) } else { Ok(WholeTry(o)) }
        }
    }
}
use forms::*;

fn opt<T>(r: Result<T, Error>) -> Option<T> {
    match r {
        Ok(v) => Some(v),
        Err(e) => {
            std::mem::forget(e);
            None
        }
    }
}

fn given(o: &Obs, b: &[u8], p: &Part) -> bool {
    o.id == b[p.at] && o.il == p.il && o.indefinite == p.indefinite && o.n == p.cn && o.p == b.as_ptr() as usize + p.contents()
}

/// Contents of up to three elements, and octets that are none.
struct Given {
    s: Octets,
    k: usize,
    bad: bool,
    ber: bool,
    indefinite: bool,
}

impl Given {
    fn any(ber: bool, most: usize) -> Self {
        let mut s = Octets::new();
        let k = any_upto(most);
        if k > 0 { s.put(ber); }
        if k > 1 { s.put(ber); }
        if k > 2 { s.put(ber); }
        let bad = any();
        if bad {
            s.put_bad();
        }
        let indefinite = ber && any();
        if indefinite {
            s.put_end();
        }
        Self { s, k, bad, ber, indefinite }
    }

    fn read<T: Deserialize>(&self, id: &[u8]) -> Option<T> {
        let b = self.s.get();
        let l = if self.indefinite { Length::Indefinite } else { Length::Definite(b.len()) };
        let id = unsafe { IdRef::from_bytes_unchecked(id) };
        opt(if self.ber { unsafe { T::from_ber(id, l, b.into()) } } else { T::from_der(id, b.into()) })
    }

    /// There are `n` elements, none refused, and no more.
    fn exactly(&self, n: usize) -> bool {
        let b = self.s.get();
        self.k == n && !self.bad && (n == 0 || !Obs::refuses(b[self.s.part(0).at])) && (n < 2 || !Obs::refuses(b[self.s.part(1).at]))
    }

    fn is(&self, o: &Obs, k: usize) -> bool {
        given(o, self.s.get(), &self.s.part(k))
    }
}

/// `right`, or another identifier of the same size.
fn tag<const N: usize>(right: [u8; N]) -> ([u8; N], bool) {
    let mut t = right;
    if any() {
        let i = any_upto(N - 1);
        let v: u8 = any();
        // with the same end
        assume(if i == 0 { (v & 0x1f == 0x1f) == (N > 1) } else { (v & 0x80 != 0) == (i + 1 < N) });
        t[i] = v;
        (t, v == right[i])
    } else {
        (t, true)
    }
}

fn named(ber: bool) {
    let g = Given::any(ber, 3);
    let (t, tagged) = tag([0x30]);
    let r = g.read::<Named<Obs, Obs>>(&t);
    assert!(r.is_some() == (tagged && g.exactly(2)));
    if let Some(v) = &r {
        assert!(g.is(&v.a, 0) && g.is(&v.b, 1) && v.x == 0 && v.y == 5);
        cover!(g.indefinite == ber);
    }
    cover!(tagged && g.k == 3);
    cover!(tagged && g.k == 2 && g.bad);
    cover!(tagged && g.k == 1);
}

fn tuple(ber: bool) {
    let g = Given::any(ber, 3);
    let (t, tagged) = tag([0xff, 0x82, 0x2c]);
    let r = g.read::<Tuple<Obs, Obs>>(&t);
    assert!(r.is_some() == (tagged && g.exactly(2)));
    if let Some(v) = &r {
        assert!(g.is(&v.0, 0) && g.is(&v.1, 1) && v.2 == 0);
        cover!(g.indefinite == ber);
    }
    cover!(!tagged && g.exactly(2));
}

fn unit(ber: bool) {
    let g = Given::any(ber, 1);
    let (t, tagged) = tag([0x31]);
    let r = g.read::<Unit>(&t);
    assert!(r.is_some() == (tagged && g.exactly(0)));
    cover!(r.is_some() && g.indefinite == ber);
}

fn variant(ber: bool) {
    let g = Given::any(ber, 3);
    let which = any_upto(3);
    let r = match which {
        0 => g.read::<Enum<Obs>>(&[0x30]),
        1 => g.read(&[5]),
        2 => g.read(&[0xbf, 0x1f]),
        _ => g.read(&[0xf0]),
    };
    let n = [1, 0, 2, 1][which];
    assert!(r.is_some() == g.exactly(n));
    match &r {
        Some(Enum::One(a)) => assert!(which == 0 && g.is(a, 0)),
        Some(Enum::Nothing) => assert!(which == 1),
        Some(Enum::Two { b, a }) => assert!(which == 2 && g.is(b, 0) && g.is(a, 1)),
        Some(Enum::Skip(x, a)) => assert!(which == 3 && *x == 0 && g.is(a, 0)),
        None => {}
    }
    cover!(r.is_some() && which == 2);
    cover!(r.is_some() && which == 3);
}

/// Identifiers of no variant.
fn no_variant(ber: bool) {
    let g = Given::any(ber, 2);
    let t: [u8; 2] = any();
    let n = if t[0] & 0x1f == 0x1f { 2 } else { 1 };
    assume(n == 1 || t[1] < 0x80);
    let is = |x: &[u8]| crate::spec::same(&t[..n], x);
    assume(!is(&[0x30]) && !is(&[5]) && !is(&[0xbf, 0x1f]) && !is(&[0xf0]));
    assert!(g.read::<Enum<Obs>>(&t[..n]).is_none());
    cover!(n == 2 && g.exactly(2));
    cover!(n == 1 && g.exactly(0));
}

fn converted(ber: bool) {
    let g = Given::any(ber, 3);
    let (t, tagged) = tag([0x30]);
    let r = g.read::<Converted>(&t);
    let accepted = g.k < 2 || g.s.get()[g.s.part(1).at] & 0x20 != 0;
    assert!(r.is_some() == (tagged && g.exactly(2) && accepted));
    if let Some(v) = &r {
        assert!(g.is(&v.a.0, 0) && g.is(&v.b.0, 1));
        cover!(true);
    }
    cover!(tagged && g.exactly(2) && !accepted);
}

/// Those that hand on the element as it is.
fn through(ber: bool) {
    let mut s = Octets::new();
    let e = s.put(ber);
    let b = s.get();
    let (id, c) = (unsafe { IdRef::from_bytes_unchecked(&b[..e.il]) }, &b[e.contents()..e.end()]);
    let l = if e.indefinite { Length::Indefinite } else { Length::Definite(c.len()) };
    macro_rules! read {
        ($t:ty) => {
            opt(if ber { unsafe { <$t>::from_ber(id, l, c.into()) } } else { <$t>::from_der(id, c.into()) })
        };
    }
    let refused = Obs::refuses(b[0]);
    let picky = refused || b[0] & 0x20 == 0;
    match any_upto(4) {
        0 => {
            let r = read!(Through<Obs>);
            assert!(r.is_some() == !refused);
            if let Some(v) = r {
                assert!(given(&v.a, b, &e) && v.x == 5);
            }
        }
        1 => {
            let r = read!(ThroughFrom);
            assert!(r.is_some() == !refused);
            if let Some(v) = r {
                assert!(given(&v.1 .0, b, &e) && v.0 == 0);
            }
        }
        2 => {
            let r = read!(ThroughTry);
            assert!(r.is_some() == !picky);
            if let Some(v) = r {
                assert!(given(&v.0 .0, b, &e));
                cover!(true);
            }
        }
        3 => {
            let r = read!(WholeFrom);
            assert!(r.is_some() == !refused);
            if let Some(v) = r {
                assert!(given(&v.0, b, &e) && v.1 == 4);
            }
        }
        _ => {
            let r = read!(WholeTry);
            assert!(r.is_some() == !picky);
            if let Some(v) = r {
                assert!(given(&v.0, b, &e));
                cover!(e.indefinite == ber);
            }
        }
    }
}

macro_rules! both {
    ($( $f:ident $der:ident $ber:ident; )*) => {
        contracts_over_parts! { ALL:
            $(
                #[kani::unwind(5)]
                #[kani::stub(anyhow::Error::new, crate::stubs::anyhow_new)]
                fn $der() { super::$f(false) }

                #[kani::unwind(5)]
                #[kani::stub(anyhow::Error::new, crate::stubs::anyhow_new)]
                fn $ber() { super::$f(true) }
            )*
        }
    };
}

pub mod proofs {
    both! {
        named named_der named_ber;
        tuple tuple_der tuple_ber;
        unit unit_der unit_ber;
        variant variant_der variant_ber;
        no_variant no_variant_der no_variant_ber;
        converted converted_der converted_ber;
        through through_der through_ber;
    }
}

/// What is written is read again, as the annotations say; and what has been changed, too.
#[cfg(not(kani))]
fn values<T: Dec + Serialize + Deserialize>(runs: usize) {
    for _ in 0..runs {
        let x = T::gen(2 + pick(8));
        let e = bsn1_serde::to_der(&x).unwrap();
        crate::c14::octets::<T>(e.as_ref());
    }
    crate::c14::hostile::<T>(runs);
    for id in [&[0x30][..], &[0x31], &[2], &[5], &[0x1f, 0x1f], &[0xff, 0x82, 0x2c]] {
        for c in [&[][..], &[0], &[0, 0], &[2, 1, 0], &[2, 0], &[0x30, 0x80, 0, 0]] {
            crate::c14::octets::<T>(&crate::refs::tlv(id, c));
        }
    }
}

sweeps! {
    /// Derived types of many shapes against the meaning of their annotations.
    fn shapes() {
        for_shapes!(values 800);
    }
}
