//! A second implementation of serialization, by the rules alone, to compare with natively.
#![cfg(not(kani))]
use crate::c01::{denotes, shortest, Int};
use crate::model::Abs;
use crate::spec;
use crate::sym::*;
use bsn1_serde::OctetString;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
use std::fmt::Debug;
use std::hash::Hash;

pub fn tlv(id: &[u8], c: &[u8]) -> Vec<u8> {
    let (e, l) = spec::len_encode(Some(c.len()));
    [id, &e[..l], c].concat()
}

/// Values and their encodings.
pub trait Enc: Sized {
    fn gen(size: usize) -> Self;
    fn id(&self) -> Vec<u8>;
    fn contents(&self) -> Vec<u8>;
    /// How many of them to put into a container.
    fn many(size: usize) -> usize {
        if size > 4 { some_size(size) } else { pick(4) }
    }
    fn enc(&self) -> Vec<u8> {
        tlv(&self.id(), &self.contents())
    }
}

/// What octets mean.
#[derive(Debug, PartialEq)]
pub enum Meaning<T> {
    Value(T),
    Nothing,
    /// A known finding: constructed strings.
    Excluded,
}
pub use Meaning::*;

pub trait Dec: Enc + PartialEq + Debug {
    /// `c` without the end marker when the length is indefinite.
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self>;
}

/// The element `b` begins with: identifier, whether indefinite, contents, and how many octets in all.
pub fn element(ber: bool, b: &[u8]) -> Option<(&[u8], bool, &[u8], usize)> {
    if !ber {
        let (i, l, c) = spec::der_tlv(b)?;
        return Some((&b[..i], false, &b[i + l..i + l + c], i + l + c));
    }
    let n = spec::ber_total(b)?;
    let i = spec::id_len(b)?;
    let (v, l) = spec::len_octets(&b[i..])?;
    match v {
        Some(_) => Some((&b[..i], false, &b[i + l..n], n)),
        None => Some((&b[..i], true, &b[i + l..n - 2], n)),
    }
}

/// The value `b` begins with, and how many octets it takes.
pub fn meaning<T: Dec>(ber: bool, b: &[u8]) -> (Meaning<T>, usize) {
    match element(ber, b) {
        None => (Nothing, 0),
        Some((id, indefinite, c, n)) => (T::dec(ber, id, indefinite, c), n),
    }
}

fn all<T: Dec>(ber: bool, mut c: &[u8]) -> Meaning<Vec<T>> {
    let mut v = Vec::new();
    let mut excluded = false;
    while !c.is_empty() {
        match meaning(ber, c) {
            (Nothing, _) => return Nothing,
            (Excluded, n) => {
                excluded = true;
                c = &c[n..];
            }
            (Value(t), n) => {
                v.push(t);
                c = &c[n..];
            }
        }
    }
    if excluded { Excluded } else { Value(v) }
}

/// A key and a value.
struct Pair<K, V>(K, V);

impl<K: Dec, V: Dec> Pair<K, V> {
    fn all(ber: bool, mut c: &[u8]) -> Meaning<Vec<(K, V)>> {
        let mut v = Vec::new();
        let mut excluded = false;
        while !c.is_empty() {
            let (id, _, p, n) = match element(ber, c) {
                None => return Nothing,
                Some(x) => x,
            };
            c = &c[n..];
            if id != [0x30] {
                return Nothing;
            }
            let (k, kn) = meaning(ber, p);
            if let Nothing = k {
                return Nothing;
            }
            let (w, wn) = meaning(ber, &p[kn..]);
            if kn + wn != p.len() {
                return Nothing;
            }
            match (k, w) {
                (_, Nothing) => return Nothing,
                (Value(k), Value(w)) => v.push((k, w)),
                _ => excluded = true,
            }
        }
        if excluded { Excluded } else { Value(v) }
    }
}

macro_rules! ints {
    ($($t:ty)*) => {$(
        impl Enc for $t {
            fn gen(_: usize) -> Self {
                any()
            }
            fn id(&self) -> Vec<u8> {
                vec![2]
            }
            fn contents(&self) -> Vec<u8> {
                let mut n = 1;
                let b = |n: usize| (0..n).rev().map(|i| self.octet(i)).collect::<Vec<u8>>();
                while !denotes(&b(n), *self) {
                    n += 1;
                }
                b(n)
            }
        }
        impl Dec for $t {
            fn dec(_: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> {
                if id != [2] || indefinite || !shortest(c) || c.len() > Self::SIZE + 1 {
                    return Nothing;
                }
                let mut v: i128 = if c[0] & 0x80 != 0 { -1 } else { 0 };
                for o in c {
                    v = (v << 8) | *o as i128;
                }
                let v = v as $t;
                if denotes(c, v) { Value(v) } else { Nothing }
            }
        }
    )*};
}
ints!(i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 isize usize);

impl Enc for bool {
    fn gen(_: usize) -> Self {
        any()
    }
    fn id(&self) -> Vec<u8> {
        vec![1]
    }
    fn contents(&self) -> Vec<u8> {
        vec![if *self { 0xff } else { 0 }]
    }
}

impl Dec for bool {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> {
        if id != [1] || indefinite || c.len() != 1 {
            return Nothing;
        }
        match c[0] {
            0 => Value(false),
            0xff => Value(true),
            _ if ber => Value(true),
            _ => Nothing,
        }
    }
}

/// Sizes on both sides of the forms of length octets.
fn some_size(size: usize) -> usize {
    match pick(12) {
        0 if size > 4 => 120 + pick(20),
        1 if size > 4 => 250 + pick(12),
        2 if size > 4 && pick(40) == 0 => 65530 + pick(12),
        3..=5 => 0,
        _ => pick(size.max(1) * 2),
    }
}

impl Enc for String {
    fn gen(size: usize) -> Self {
        const C: [char; 10] = ['a', '\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', 'z'];
        (0..some_size(size)).map(|_| C[pick(C.len())]).collect()
    }
    fn id(&self) -> Vec<u8> {
        vec![0x0c]
    }
    fn contents(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
}

impl Dec for String {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> {
        if ber && id == [0x2c] {
            return Excluded;
        }
        if id != [0x0c] || indefinite {
            return Nothing;
        }
        String::from_utf8(c.to_vec()).map_or(Nothing, Value)
    }
}

impl Enc for OctetString<'static> {
    fn gen(size: usize) -> Self {
        OctetString::from((0..some_size(size)).map(|_| any::<u8>()).collect::<Vec<u8>>())
    }
    fn id(&self) -> Vec<u8> {
        vec![4]
    }
    fn contents(&self) -> Vec<u8> {
        self.as_ref().to_vec()
    }
}

impl Dec for OctetString<'static> {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> {
        if ber && id == [0x24] {
            return Excluded;
        }
        if id != [4] || indefinite {
            return Nothing;
        }
        Value(OctetString::from(c.to_vec()))
    }
}

macro_rules! lists {
    ($($t:ident $id:literal [$($bound:tt)*];)*) => {$(
        impl<T: Enc + $($bound)*> Enc for $t<T> {
            fn gen(size: usize) -> Self {
                let n = T::many(size);
                (0..n).map(|_| T::gen(size / 3)).collect()
            }
            fn id(&self) -> Vec<u8> {
                vec![$id]
            }
            fn contents(&self) -> Vec<u8> {
                self.iter().map(|t| t.enc()).collect::<Vec<_>>().concat()
            }
        }
        impl<T: Dec + $($bound)*> Dec for $t<T> {
            fn dec(ber: bool, id: &[u8], _: bool, c: &[u8]) -> Meaning<Self> {
                if id != [$id] {
                    return Nothing;
                }
                match all(ber, c) {
                    Value(v) => Value(v.into_iter().collect()),
                    Nothing => Nothing,
                    Excluded => Excluded,
                }
            }
        }
    )*};
}
lists! {
    Vec 0x30 [Debug]; LinkedList 0x30 [Debug]; VecDeque 0x30 [Debug]; BTreeSet 0x30 [Ord]; HashSet 0x31 [Hash + Eq];
}

macro_rules! maps {
    ($($t:ident $id:literal [$($bound:tt)*];)*) => {$(
        impl<K: Enc + $($bound)*, V: Enc> Enc for $t<K, V> {
            fn gen(size: usize) -> Self {
                let n = K::many(size).min(V::many(size)).min(300);
                (0..n).map(|_| (K::gen(size / 3), V::gen(size / 3))).collect()
            }
            fn id(&self) -> Vec<u8> {
                vec![$id]
            }
            fn contents(&self) -> Vec<u8> {
                self.iter().map(|(k, v)| tlv(&[0x30], &[k.enc(), v.enc()].concat())).collect::<Vec<_>>().concat()
            }
        }
        impl<K: Dec + $($bound)*, V: Dec> Dec for $t<K, V> {
            fn dec(ber: bool, id: &[u8], _: bool, c: &[u8]) -> Meaning<Self> {
                if id != [$id] {
                    return Nothing;
                }
                match Pair::all(ber, c) {
                    Value(v) => Value(v.into_iter().collect()),
                    Nothing => Nothing,
                    Excluded => Excluded,
                }
            }
        }
    )*};
}
maps! { BTreeMap 0x30 [Ord]; HashMap 0x31 [Hash + Eq]; }

impl Enc for Abs {
    fn gen(_: usize) -> Self {
        Abs::any(any())
    }
    fn many(_: usize) -> usize {
        pick(6)
    }
    fn id(&self) -> Vec<u8> {
        self.id[..self.il].to_vec()
    }
    fn contents(&self) -> Vec<u8> {
        self.c.to_vec()
    }
}

/// Calls `$f::<T>($n)` for built-in types and nestings of them.
macro_rules! for_types {
    ($f:ident $n:expr) => {
        for_types!(@ $f $n;
            bool; i8; u8; i16; u16; i32; u32; i64; u64; i128; u128; isize; usize; String; OctetString<'static>;
            Vec<bool>; Vec<u8>; Vec<i128>; Vec<String>; Vec<OctetString<'static>>; Vec<Vec<Vec<i16>>>;
            LinkedList<i64>; LinkedList<Vec<u128>>; VecDeque<String>; VecDeque<LinkedList<OctetString<'static>>>;
            BTreeSet<i32>; BTreeSet<String>; BTreeSet<BTreeSet<u8>>; HashSet<u64>; HashSet<Vec<i8>>; Vec<HashSet<OctetString<'static>>>;
            BTreeMap<i32, String>; BTreeMap<String, Vec<u8>>; BTreeMap<Vec<u16>, BTreeMap<bool, isize>>;
            HashMap<u8, bool>; HashMap<String, OctetString<'static>>; HashMap<BTreeSet<i8>, HashMap<i16, Vec<usize>>>;
            Vec<BTreeMap<OctetString<'static>, HashSet<u32>>>; Vec<HashMap<u8, BTreeMap<u8, u8>>>;
        );
    };
    (@ $f:ident $n:expr; $($t:ty;)*) => {{
        use std::collections::*;
        use bsn1_serde::OctetString;
        $( $f::<$t>($n); )*
    }};
}
