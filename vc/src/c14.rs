//! C14: deserializing octets that may be anything.
use crate::c01::{denotes, shortest, Int};
use crate::model::{Obs, Rec};
#[cfg(not(kani))]
use crate::refs::{meaning, Dec, Excluded, Nothing, Value};
use crate::sym::*;
use bsn1::{ContentsRef, Error, IdRef, Length};
use bsn1_serde::de::Deserialize;
#[cfg(not(kani))]
use bsn1_serde::ser::Serialize;
use bsn1_serde::OctetString;
use std::collections::{BTreeMap, BTreeSet, LinkedList, VecDeque};

/// Any identifier of up to 3 octets.
fn any_id(a: &[u8; 3]) -> &IdRef {
    let n = crate::spec::id_len(a);
    assume(n.is_some());
    unsafe { IdRef::from_bytes_unchecked(&a[..n.unwrap_or(1)]) }
}

fn length(n: usize) -> (Length, bool) {
    if any() {
        (Length::Indefinite, true)
    } else {
        (Length::Definite(n), false)
    }
}

fn opt<T>(r: Result<T, Error>) -> Option<T> {
    match r {
        Ok(v) => Some(v),
        Err(e) => {
            std::mem::forget(e);
            None
        }
    }
}

fn integer<T: Int + Deserialize>() {
    let a: [u8; 3] = any();
    let id = any_id(&a);
    let c = any_huge(1);
    let c = &c[..any_upto(c.len())];
    let (l, indefinite) = length(c.len());
    let tagged = crate::spec::same(id.as_ref(), &[2]);
    let k: &ContentsRef = c.into();
    // C01 says which contents denote a number of this type, and which
    let want = if tagged { T::decode(k) } else { None };
    let d = opt(T::from_der(id, k));
    assert!(d == want);
    if let Some(v) = d {
        assert!(shortest(c) && denotes(c, v));
        cover!(c.len() == T::SIZE);
    }
    let b = opt(unsafe { T::from_ber(id, l, k) });
    assert!(b == if indefinite { None } else { want });
    cover!(tagged && d.is_none());
    cover!(want.is_some() && indefinite);
}

macro_rules! integers {
    ($( $name:ident $t:ty; )*) => {
        contracts! {
            $( #[kani::unwind(19)] fn $name() { integer::<$t>() } )*
        }
    };
}

pub mod leaf {
    use super::*;
    integers! {
        i8_ i8; u8_ u8; i16_ i16; u16_ u16; i32_ i32; u32_ u32; i64_ i64; u64_ u64;
        i128_ i128; u128_ u128; isize_ isize; usize_ usize;
    }
}

pub mod other {
    use super::*;
    contracts! {
        #[kani::unwind(6)]
        fn boolean() {
            let a: [u8; 3] = any();
            let id = any_id(&a);
            let c = any_huge(1);
            let c = &c[..any_upto(c.len())];
            let (l, indefinite) = length(c.len());
            let one = crate::spec::same(id.as_ref(), &[1]) && c.len() == 1;
            let d = opt(bool::from_der(id, c.into()));
            assert!(d == if one && c[0] == 0 { Some(false) } else if one && c[0] == 0xff { Some(true) } else { None });
            let b = opt(unsafe { bool::from_ber(id, l, c.into()) });
            assert!(b == if one && !indefinite { Some(c[0] != 0) } else { None });
            cover!(b == Some(true) && d.is_none());
        }

        /// Constructed strings are a known finding, and left out.
        #[kani::unwind(6)]
        fn octets() {
            let a: [u8; 3] = any();
            let id = any_id(&a);
            let c = any_bulk();
            let (l, indefinite) = length(c.len());
            let tagged = crate::spec::same(id.as_ref(), &[4]);
            let w: usize = any();
            let d = OctetString::from_der(id, c.into());
            assert!(d.is_ok() == tagged);
            if let Ok(d) = &d {
                assert!(d.as_ref().len() == c.len() && (w >= c.len() || d.as_ref()[w] == c[w]));
            }
            std::mem::forget(d);
            if !crate::spec::same(id.as_ref(), &[0x24]) {
                let b = unsafe { OctetString::from_ber(id, l, c.into()) };
                assert!(b.is_ok() == (tagged && !indefinite));
                if let Ok(b) = &b {
                    assert!(b.as_ref().len() == c.len() && (w >= c.len() || b.as_ref()[w] == c[w]));
                }
                std::mem::forget(b);
            }
            cover!(tagged && indefinite);
        }

        #[kani::unwind(6)]
        fn string() {
            let a: [u8; 3] = any();
            let id = any_id(&a);
            let c: [u8; 4] = any();
            let c = &c[..any_upto(4)];
            let (l, indefinite) = length(c.len());
            let good = crate::spec::same(id.as_ref(), &[0x0c]) && utf8(c);
            let d = opt(String::from_der(id, c.into()));
            assert!(d.is_some() == good);
            if let Some(d) = d {
                assert!(crate::spec::same(d.as_bytes(), c));
            }
            if !crate::spec::same(id.as_ref(), &[0x2c]) {
                let b = opt(unsafe { String::from_ber(id, l, c.into()) });
                assert!(b.is_some() == (good && !indefinite));
                if let Some(b) = b {
                    assert!(crate::spec::same(b.as_bytes(), c));
                    cover!(c.len() == 4 && c[0] > 0xf0);
                }
            }
            cover!(good && indefinite);
        }
    }
}

/// Up to 4 octets are UTF-8 (RFC 3629, 4).
fn utf8(b: &[u8]) -> bool {
    let tail = |k: usize| k < b.len() && b[k] & 0xc0 == 0x80;
    let mut i = 0;
    while i < b.len() {
        let two = i + 1 < b.len();
        i += match b[i] {
            0..=0x7f => 1,
            0xc2..=0xdf if tail(i + 1) => 2,
            0xe0..=0xef if tail(i + 1) && tail(i + 2) => {
                if (b[i] == 0xe0 && two && b[i + 1] < 0xa0) || (b[i] == 0xed && two && b[i + 1] > 0x9f) {
                    return false;
                }
                3
            }
            0xf0..=0xf4 if tail(i + 1) && tail(i + 2) && tail(i + 3) => {
                if (b[i] == 0xf0 && two && b[i + 1] < 0x90) || (b[i] == 0xf4 && two && b[i + 1] > 0x8f) {
                    return false;
                }
                4
            }
            _ => return false,
        };
    }
    true
}

/// Containers of up to two elements, of any size, which `Obs` reads.
pub mod lists {
    use super::*;
    use crate::parts::{Octets, Part};

    /// `o` was given the element `p` of `b`.
    fn given(o: &Obs, b: &[u8], p: &Part) -> bool {
        o.id == b[p.at] && o.il == p.il && o.indefinite == p.indefinite && o.n == p.cn && o.p == b.as_ptr() as usize + p.contents()
    }

    fn read<T: Deserialize>(ber: bool, indefinite: bool, i: &[u8; 1], c: &[u8]) -> Option<T> {
        let id = unsafe { IdRef::from_bytes_unchecked(i) };
        let l = if indefinite { Length::Indefinite } else { Length::Definite(c.len()) };
        opt(if ber { unsafe { T::from_ber(id, l, c.into()) } } else { T::from_der(id, c.into()) })
    }

    /// The identifier of the container, or any other.
    fn any_tag() -> [u8; 1] {
        let i: u8 = if any() { 0x30 } else { any() };
        assume(i & 0x1f != 0x1f);
        [i]
    }

    /// `at` gives an element of the list by its place.
    fn list<T: Deserialize>(ber: bool, at: impl Fn(&T, usize) -> Option<Obs>, count: impl Fn(&T) -> usize) {
        let mut s = Octets::new();
        let k = any_upto(2);
        let first = if k > 0 { s.put(ber) } else { crate::parts::NONE };
        let second = if k > 1 { s.put(ber) } else { crate::parts::NONE };
        let bad = any();
        if bad {
            s.put_bad();
        }
        let indefinite = ber && any();
        if indefinite {
            s.put_end();
        }
        let tag = any_tag();
        let b = s.get();
        let got = read::<T>(ber, indefinite, &tag, b);
        let refused = (k > 0 && Obs::refuses(b[first.at])) || (k > 1 && Obs::refuses(b[second.at]));
        assert!(got.is_some() == (tag[0] == 0x30 && !bad && !refused));
        if let Some(t) = &got {
            assert!(count(t) == k);
            if k > 0 {
                assert!(at(t, 0).map_or(false, |o| given(&o, b, &first)));
            }
            if k > 1 {
                assert!(at(t, 1).map_or(false, |o| given(&o, b, &second)));
            }
            cover!(k == 2);
            cover!(k == 0 && ber == indefinite);
        }
        cover!(bad && k == 2);
        std::mem::forget(got);
    }

    /// One pair, which may lack its value, or have a third element or other octets in it.
    fn pair<T: Deserialize>(ber: bool, get: impl Fn(&T) -> Option<(Obs, Obs)>) {
        let mut s = Octets::new();
        let ptag = any_tag();
        let pair = s.open(ptag[0], ber && any());
        let k = any_upto(3);
        if k > 0 { s.put(ber); }
        if k > 1 { s.put(ber); }
        if k > 2 {
            if any() { s.put(ber); } else { s.put_bad(); }
        }
        s.close(pair);
        let indefinite = ber && any();
        if indefinite {
            s.put_end();
        }
        let tag = any_tag();
        let b = s.get();
        let (key, value) = (s.part(1), s.part(2));
        Rec::clear();
        let got = read::<T>(ber, indefinite, &tag, b);
        let good = tag[0] == 0x30 && ptag[0] == 0x30 && k == 2 && !Obs::refuses(b[key.at]) && !Obs::refuses(b[value.at]);
        assert!(got.is_some() == good);
        if let Some(t) = &got {
            assert!(get(t).map_or(false, |(x, y)| given(&x, b, &key) && given(&y, b, &value)));
            cover!(indefinite == ber);
        }
        cover!(k == 3 && tag[0] == 0x30);
        cover!(k < 2 && tag[0] == 0x30);
        std::mem::forget(got);
    }

    /// One element.
    fn single<T: Deserialize>(ber: bool, get: impl Fn(&T) -> Option<Obs>) {
        let mut s = Octets::new();
        let e = s.put(ber);
        let bad = any();
        if bad {
            s.put_bad();
        }
        let indefinite = ber && any();
        if indefinite {
            s.put_end();
        }
        let tag = any_tag();
        let b = s.get();
        Rec::clear();
        let got = read::<T>(ber, indefinite, &tag, b);
        assert!(got.is_some() == (tag[0] == 0x30 && !bad && !Obs::refuses(b[e.at])));
        if let Some(t) = &got {
            assert!(get(t).map_or(false, |x| given(&x, b, &e)));
            cover!(indefinite == ber);
        }
        cover!(bad && tag[0] == 0x30);
        std::mem::forget(got);
    }

    contracts_over_parts! { TREES:
        #[kani::unwind(3)]
        fn tree_map_der() {
            pair::<BTreeMap<Rec, Rec>>(false, |t| if t.len() == 1 { t.iter().next().map(|(k, v)| (k.get(), v.get())) } else { None })
        }

        #[kani::unwind(3)]
        fn tree_map_ber() {
            pair::<BTreeMap<Rec, Rec>>(true, |t| if t.len() == 1 { t.iter().next().map(|(k, v)| (k.get(), v.get())) } else { None })
        }

        #[kani::unwind(3)]
        fn tree_set_der() {
            single::<BTreeSet<Rec>>(false, |t| if t.len() == 1 { t.iter().next().map(Rec::get) } else { None })
        }

        #[kani::unwind(3)]
        fn tree_set_ber() {
            single::<BTreeSet<Rec>>(true, |t| if t.len() == 1 { t.iter().next().map(Rec::get) } else { None })
        }
    }

    macro_rules! lists {
        ($( $der:ident $ber:ident $t:ty, $get:expr, $count:expr; )*) => {
            contracts_over_parts! { ALL:
                $(
                    #[kani::unwind(4)]
                    fn $der() { list::<$t>(false, $get, $count) }

                    #[kani::unwind(4)]
                    fn $ber() { list::<$t>(true, $get, $count) }
                )*
            }
        };
    }
    lists! {
        vec_der vec_ber Vec<Obs>, |t, k| t.get(k).copied(), |t| t.len();
        linked_der linked_ber LinkedList<Obs>, |t, k| if k == 0 { t.front().copied() } else { t.back().copied() }, |t| t.len();
        deque_der deque_ber VecDeque<Obs>, |t, k| t.get(k).copied(), |t| t.len();
    }
}

#[cfg(not(kani))]
const BAD: &[&[u8]] = &[&[], &[0], &[0, 0], &[0x80], &[0x30, 0x80, 0, 0], &[2, 1, 0], &[0x81, 0x80], &[0xff]];

/// Something done to an encoding.
#[cfg(not(kani))]
fn mutate(b: &mut Vec<u8>) {
    let n = b.len();
    let at = if pick(2) == 0 { pick(n.min(12) + 1).min(n) } else { pick(n + 1) };
    match pick(8) {
        0 if at < n => b[at] = any(),
        1 if at < n => b[at] = b[at].wrapping_add(1),
        2 if at < n => b[at] = b[at].wrapping_sub(1),
        3 if at < n => {
            b.remove(at);
        }
        4 => b.truncate(at),
        5 => b.insert(at, any()),
        6 => {
            b.splice(at..at, BAD[pick(BAD.len())].iter().copied());
        }
        _ => {
            let to = at + pick(n - at + 1);
            let x = b[at..to].to_vec();
            b.splice(at..at, x);
        }
    }
}

/// Some definite lengths become indefinite.
#[cfg(not(kani))]
fn loosen(b: &[u8], out: &mut Vec<u8>) {
    let mut b = b;
    while let Some((i, l, c)) = crate::spec::der_tlv(b) {
        let inner = &b[i + l..i + l + c];
        if b[0] & 0x20 != 0 && pick(3) > 0 {
            let mut x = Vec::new();
            loosen(inner, &mut x);
            out.extend_from_slice(&b[..i]);
            if pick(3) > 0 {
                out.push(0x80);
                out.extend_from_slice(&x);
                out.extend_from_slice(&[0, 0]);
            } else {
                let (e, l) = crate::spec::len_encode(Some(x.len()));
                out.extend_from_slice(&e[..l]);
                out.extend_from_slice(&x);
            }
        } else {
            out.extend_from_slice(&b[..i + l + c]);
        }
        b = &b[i + l + c..];
    }
    out.extend_from_slice(b);
}

/// Deserializing `b` gives what the second implementation says.
#[cfg(not(kani))]
pub fn octets<T: Dec + Deserialize>(b: &[u8]) {
    use bsn1_serde::*;
    for ber in [false, true] {
        let (want, n) = meaning::<T>(ber, b);
        let mut r = b;
        let got = if ber { parse_ber::<T>(&mut r) } else { parse_der::<T>(&mut r) };
        let mut s = b;
        let read = if ber { read_ber::<_, T>(&mut s) } else { read_der::<_, T>(&mut s) };
        match (&want, got, read) {
            (Value(v), Ok(x), Ok(y)) => {
                assert!(*v == x && *v == y);
                assert!(r == &b[n..] && s == &b[n..]);
                covered(true);
            }
            (Nothing, Err(_), Err(_)) | (Excluded, _, _) => {}
            _ => panic!("ber {} octets {:02x?} mean {:?}", ber, b, want),
        }
    }
}

#[cfg(not(kani))]
pub fn hostile<T: Dec + Serialize + Deserialize>(runs: usize) {
    for _ in 0..runs {
        let mut b = T::gen(2 + pick(8)).enc();
        if b.len() > 3000 {
            continue;
        }
        if pick(2) == 0 {
            let mut x = Vec::new();
            loosen(&b, &mut x);
            b = x;
        }
        octets::<T>(&b);
        for _ in 0..1 + pick(3) {
            mutate(&mut b);
            octets::<T>(&b);
        }
    }
}

/// Every string of up to 3 octets from those that matter, and one more.
#[cfg(not(kani))]
fn short<T: Dec + Serialize + Deserialize>(_: usize) {
    const O: [u8; 16] = [0, 1, 2, 3, 4, 0x0c, 0x24, 0x2c, 0x30, 0x31, 0x7f, 0x80, 0x81, 0xbf, 0xe0, 0xff];
    for n in 0..=4u32 {
        for k in 0..16usize.pow(n) {
            let b: Vec<u8> = (0..n).map(|i| O[(k >> (4 * i)) & 15]).collect();
            octets::<T>(&b);
        }
    }
}

sweeps! {
    /// Encodings with one to three changes, in definite and indefinite form.
    fn changed() {
        for_types!(hostile 1500);
    }

    /// All short strings of sixteen octets.
    fn all_short() {
        for_types!(short 0);
    }

    /// The known finding: holds as long as constructed strings are read raw.
    fn constructed_string() {
        let mut b: &[u8] = &[0x2c, 5, 0x0c, 3, b'a', b'b', b'c'];
        let s = bsn1_serde::parse_ber::<String>(&mut b);
        assert!(s.map_or(false, |s| s == "\x0c\x03abc"));
        let mut b: &[u8] = &[0x24, 5, 4, 3, b'a', b'b', b'c'];
        let s = bsn1_serde::parse_ber::<OctetString>(&mut b);
        assert!(s.map_or(false, |s| s.as_ref() == b"\x04\x03abc"));
        covered(true);
    }
}
