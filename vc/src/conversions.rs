//! Conversions the types of `shapes` declare, and what they mean.
#![cfg(not(kani))]
use crate::refs::*;
use bsn1_serde::OctetString;

#[derive(Debug)]
pub struct Refused;

impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("refused")
    }
}

impl std::error::Error for Refused {}

pub fn seven() -> u8 {
    7
}

macro_rules! drawn {
    ($($t:ident $w:ty;)*) => {$(
        #[derive(Clone, Debug, PartialEq, Default)]
        pub struct $t(pub $w);
        impl Enc for $t {
            fn gen(size: usize) -> Self {
                $t(Enc::gen(size))
            }
            fn id(&self) -> Vec<u8> {
                unreachable!()
            }
            fn contents(&self) -> Vec<u8> {
                unreachable!()
            }
        }
    )*};
}
drawn! { Metres u32; Name String; Wrapped Vec<u8>; Even i16; Text String; }

impl From<Metres> for u32 {
    fn from(x: Metres) -> u32 {
        x.0 ^ 0x8000_0001
    }
}

impl From<u32> for Metres {
    fn from(x: u32) -> Metres {
        Metres(x ^ 0x8000_0001)
    }
}

pub fn out_metres(x: &Metres) -> u32 {
    x.0 ^ 0x8000_0001
}

pub fn in_metres(x: u32) -> Option<Metres> {
    Some(Metres(x ^ 0x8000_0001))
}

impl From<Name> for String {
    fn from(x: Name) -> String {
        x.0 + "!"
    }
}

impl From<String> for Name {
    fn from(x: String) -> Name {
        Name(x)
    }
}

pub fn out_name(x: &Name) -> String {
    format!("{}!", x.0)
}

pub fn in_name(x: String) -> Option<Name> {
    Some(Name(x))
}

impl From<Wrapped> for Vec<u8> {
    fn from(x: Wrapped) -> Vec<u8> {
        x.0
    }
}

impl From<Vec<u8>> for Wrapped {
    fn from(x: Vec<u8>) -> Wrapped {
        Wrapped(x)
    }
}

pub fn out_wrapped(x: &Wrapped) -> Vec<u8> {
    x.0.clone()
}

pub fn in_wrapped(x: Vec<u8>) -> Option<Wrapped> {
    Some(Wrapped(x))
}

// Half of the numbers are refused.
impl From<Even> for i16 {
    fn from(x: Even) -> i16 {
        x.0 & !1
    }
}

pub fn to_even(x: &Even) -> i16 {
    x.0 & !1
}

impl TryFrom<i16> for Even {
    type Error = Refused;
    fn try_from(x: i16) -> Result<Even, Refused> {
        if x & 1 == 0 { Ok(Even(x)) } else { Err(Refused) }
    }
}

pub fn out_even(x: &Even) -> i16 {
    x.0 & !1
}

pub fn in_even(x: i16) -> Option<Even> {
    if x & 1 == 0 { Some(Even(x)) } else { None }
}

pub fn to_text(x: &Text) -> OctetString<'static> {
    OctetString::from(x.0.clone().into_bytes())
}

impl TryFrom<OctetString<'static>> for Text {
    type Error = std::string::FromUtf8Error;
    fn try_from(x: OctetString) -> Result<Text, Self::Error> {
        String::from_utf8(x.as_ref().to_vec()).map(Text)
    }
}

pub fn out_text(x: &Text) -> OctetString<'static> {
    to_text(x)
}

pub fn in_text(x: OctetString) -> Option<Text> {
    String::from_utf8(x.as_ref().to_vec()).ok().map(Text)
}

/// Fields read one after another.
pub struct Reading<'a> {
    ber: bool,
    rest: &'a [u8],
    excluded: bool,
    nothing: bool,
}

impl<'a> Reading<'a> {
    pub fn new(ber: bool, rest: &'a [u8]) -> Self {
        Self { ber, rest, excluded: false, nothing: false }
    }

    pub fn take<T: Dec>(&mut self) -> Option<T> {
        if self.nothing {
            return None;
        }
        let (m, n) = meaning::<T>(self.ber, self.rest);
        match m {
            Value(t) => {
                self.rest = &self.rest[n..];
                Some(t)
            }
            Excluded => {
                self.rest = &self.rest[n..];
                self.excluded = true;
                None
            }
            Nothing => {
                self.nothing = true;
                None
            }
        }
    }

    /// The field is not there after all (it could not be converted).
    pub fn need(&mut self, there: bool) {
        if !there && !self.excluded {
            self.nothing = true;
        }
    }

    pub fn end<T>(self, f: impl FnOnce() -> T) -> Meaning<T> {
        if self.nothing || (!self.rest.is_empty() && !self.excluded) {
            Nothing
        } else if self.excluded {
            Excluded
        } else {
            Value(f())
        }
    }
}

/// The meaning of a converted value.
pub fn through<W, F, T>(m: Meaning<W>, back: impl FnOnce(W) -> Option<F>, make: impl FnOnce(F) -> T) -> Meaning<T> {
    match m {
        Value(w) => back(w).map_or(Nothing, |f| Value(make(f))),
        Nothing => Nothing,
        Excluded => Excluded,
    }
}
