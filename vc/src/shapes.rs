//! Types with derived serialization and what their annotations mean. Written by tools/shapes.py.
#![cfg(not(kani))]
#![allow(unused, non_camel_case_types)]
use crate::refs::*;
use crate::sym::*;
use bsn1_serde::de::Deserialize;
use bsn1_serde::ser::Serialize;
use bsn1_serde::OctetString;
use std::collections::{BTreeMap, BTreeSet, LinkedList};

pub use crate::conversions::*;

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_pc = PRIMITIVE, tag_num = 0, tag_class = APPLICATION)] 
pub struct N0;
impl Enc for N0 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![64] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N0 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [64] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_pc = PRIMITIVE, tag_class = UNIVERSAL, tag_num = 0b1)] 
pub struct N1 {  }
impl Enc for N1 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![1] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for N1 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [1] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_pc = PRIMITIVE, tag_num = 0x2)] 
pub struct N2;
impl Enc for N2 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![2] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N2 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [2] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(id = Null, tag_num = 15, tag_pc = PRIMITIVE)] 
pub struct N3;
impl Enc for N3 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![15] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N3 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [15] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 0x10, tag_pc = PRIMITIVE)] 
pub struct N4();
impl Enc for N4 {
    fn gen(size: usize) -> Self { let _ = size; Self() }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![16] }
    fn contents(&self) -> Vec<u8> { let Self() = self; Vec::<u8>::new() }
}
impl Dec for N4 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [16] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self()) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 0x1d, tag_pc = PRIMITIVE)] 
pub struct N5 {  }
impl Enc for N5 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![29] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for N5 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [29] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 0o36, tag_pc = CONSTRUCTED, tag_class = PRIVATE)] 
pub struct N6;
impl Enc for N6 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![254] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N6 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [254] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 31, tag_pc = CONSTRUCTED)] 
pub struct N7 {  }
impl Enc for N7 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 31] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for N7 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 31] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 0o40, tag_class = CONTEXT_SPECIFIC)] 
pub struct N8 {  }
impl Enc for N8 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![191, 32] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for N8 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [191, 32] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_pc = CONSTRUCTED, tag_num = 0x3f)] 
pub struct N9;
impl Enc for N9 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 63] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N9 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 63] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = UNIVERSAL, tag_num = 64)] 
pub struct N10;
impl Enc for N10 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 64] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N10 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 64] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(id = BitString, tag_class = PRIVATE, tag_num = 127)] 
pub struct N11 {  }
impl Enc for N11 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![223, 127] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for N11 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [223, 127] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 0x80, tag_pc = CONSTRUCTED)] 
pub struct N12;
impl Enc for N12 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 129, 0] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N12 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 129, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 129, tag_class = UNIVERSAL)] 
pub struct N13 {  }
impl Enc for N13 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 129, 1] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for N13 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 129, 1] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 255, tag_class = CONTEXT_SPECIFIC, tag_pc = CONSTRUCTED)] 
pub struct N14();
impl Enc for N14 {
    fn gen(size: usize) -> Self { let _ = size; Self() }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![191, 129, 127] }
    fn contents(&self) -> Vec<u8> { let Self() = self; Vec::<u8>::new() }
}
impl Dec for N14 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [191, 129, 127] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self()) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_pc = PRIMITIVE, tag_num = 256, tag_class = APPLICATION)] 
pub struct N15;
impl Enc for N15 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![95, 130, 0] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N15 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [95, 130, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 0x12c, id = UTF8String)] 
pub struct N16 {  }
impl Enc for N16 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![31, 130, 44] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for N16 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [31, 130, 44] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 8191, tag_class = UNIVERSAL, id = UTF8String)] 
pub struct N17 {  }
impl Enc for N17 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![31, 191, 127] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for N17 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [31, 191, 127] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 8192, tag_pc = CONSTRUCTED, tag_class = APPLICATION)] 
pub struct N18;
impl Enc for N18 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![127, 192, 0] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N18 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [127, 192, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 0b11111111111111)] 
pub struct N19;
impl Enc for N19 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 255, 127] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N19 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 255, 127] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = UNIVERSAL, tag_num = 16384)] 
pub struct N20();
impl Enc for N20 {
    fn gen(size: usize) -> Self { let _ = size; Self() }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 129, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self() = self; Vec::<u8>::new() }
}
impl Dec for N20 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 129, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self()) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_pc = PRIMITIVE, tag_num = 16385)] 
pub struct N21;
impl Enc for N21 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![159, 129, 128, 1] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N21 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [159, 129, 128, 1] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 0b1111111111111111, tag_pc = CONSTRUCTED, id = BitString)] 
pub struct N22 {  }
impl Enc for N22 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 131, 255, 127] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for N22 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 131, 255, 127] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = APPLICATION, tag_num = 0b10000000000000000)] 
pub struct N23 {  }
impl Enc for N23 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![127, 132, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for N23 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [127, 132, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_pc = PRIMITIVE, tag_num = 0o7777777)] 
pub struct N24;
impl Enc for N24 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![159, 255, 255, 127] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N24 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [159, 255, 255, 127] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(id = Real, tag_num = 2097152)] 
pub struct N25;
impl Enc for N25 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![31, 129, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N25 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [31, 129, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = PRIVATE, tag_pc = PRIMITIVE, tag_num = 268435455, id = Null)] 
pub struct N26 {  }
impl Enc for N26 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![223, 255, 255, 255, 127] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for N26 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [223, 255, 255, 255, 127] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 0x10000000, id = Real)] 
pub struct N27;
impl Enc for N27 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![31, 129, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N27 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [31, 129, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 2147483648)] 
pub struct N28 {  }
impl Enc for N28 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 136, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for N28 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 136, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 4294967295, tag_class = APPLICATION)] 
pub struct N29 {  }
impl Enc for N29 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![127, 143, 255, 255, 255, 127] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for N29 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [127, 143, 255, 255, 255, 127] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_num = 0b100000000000000000000000000000000)] 
pub struct N30;
impl Enc for N30 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![191, 144, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N30 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [191, 144, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_num = 34359738367, tag_pc = CONSTRUCTED)] 
pub struct N31();
impl Enc for N31 {
    fn gen(size: usize) -> Self { let _ = size; Self() }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![191, 255, 255, 255, 255, 127] }
    fn contents(&self) -> Vec<u8> { let Self() = self; Vec::<u8>::new() }
}
impl Dec for N31 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [191, 255, 255, 255, 255, 127] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self()) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 34359738368, tag_class = APPLICATION)] 
pub struct N32();
impl Enc for N32 {
    fn gen(size: usize) -> Self { let _ = size; Self() }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![127, 129, 128, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self() = self; Vec::<u8>::new() }
}
impl Dec for N32 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [127, 129, 128, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self()) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 4398046511104, tag_class = UNIVERSAL)] 
pub struct N33;
impl Enc for N33 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 129, 128, 128, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N33 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 129, 128, 128, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 0x1ffffffffffff, id = Null)] 
pub struct N34();
impl Enc for N34 {
    fn gen(size: usize) -> Self { let _ = size; Self() }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![31, 255, 255, 255, 255, 255, 255, 127] }
    fn contents(&self) -> Vec<u8> { let Self() = self; Vec::<u8>::new() }
}
impl Dec for N34 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [31, 255, 255, 255, 255, 255, 255, 127] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self()) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 72057594037927936, tag_class = PRIVATE, tag_pc = CONSTRUCTED)] 
pub struct N35();
impl Enc for N35 {
    fn gen(size: usize) -> Self { let _ = size; Self() }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![255, 129, 128, 128, 128, 128, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self() = self; Vec::<u8>::new() }
}
impl Dec for N35 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [255, 129, 128, 128, 128, 128, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self()) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = PRIVATE, tag_num = 0b111111111111111111111111111111111111111111111111111111111111111)] 
pub struct N36;
impl Enc for N36 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![255, 255, 255, 255, 255, 255, 255, 255, 255, 127] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N36 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [255, 255, 255, 255, 255, 255, 255, 255, 255, 127] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = PRIVATE, tag_num = 0x8000000000000000, id = Real)] 
pub struct N37();
impl Enc for N37 {
    fn gen(size: usize) -> Self { let _ = size; Self() }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![223, 129, 128, 128, 128, 128, 128, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self() = self; Vec::<u8>::new() }
}
impl Dec for N37 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [223, 129, 128, 128, 128, 128, 128, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self()) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 0o1777777777777777777777, tag_pc = PRIMITIVE)] 
pub struct N38;
impl Enc for N38 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![31, 129, 255, 255, 255, 255, 255, 255, 255, 255, 127] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N38 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [31, 129, 255, 255, 255, 255, 255, 255, 255, 255, 127] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(id = Set, tag_num = 0x10000000000000000)] 
pub struct N39;
impl Enc for N39 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 130, 128, 128, 128, 128, 128, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N39 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 130, 128, 128, 128, 128, 128, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 0b1111111111111111111111111111111111111111111111111111111111111111111111)] 
pub struct N40();
impl Enc for N40 {
    fn gen(size: usize) -> Self { let _ = size; Self() }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] }
    fn contents(&self) -> Vec<u8> { let Self() = self; Vec::<u8>::new() }
}
impl Dec for N40 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self()) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_pc = CONSTRUCTED, tag_num = 1180591620717411303424, tag_class = UNIVERSAL)] 
pub struct N41 {  }
impl Enc for N41 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for N41 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = APPLICATION, tag_pc = PRIMITIVE, tag_num = 151115727451828646838272)] 
pub struct N42;
impl Enc for N42 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![95, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N42 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [95, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 0o10000000000000000000000000000, id = Boolean)] 
pub struct N43();
impl Enc for N43 {
    fn gen(size: usize) -> Self { let _ = size; Self() }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![31, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self() = self; Vec::<u8>::new() }
}
impl Dec for N43 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [31, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self()) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_pc = CONSTRUCTED, tag_num = 2475880078570760549798248447, id = Set)] 
pub struct N44 {  }
impl Enc for N44 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for N44 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 316912650057057350374175801344)] 
pub struct N45;
impl Enc for N45 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N45 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(id = Null, tag_num = 40564819207303340847894502572032, tag_pc = CONSTRUCTED, tag_class = APPLICATION)] 
pub struct N46 {  }
impl Enc for N46 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![127, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for N46 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [127, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 5192296858534827628530496329220095, tag_class = APPLICATION)] 
pub struct N47();
impl Enc for N47 {
    fn gen(size: usize) -> Self { let _ = size; Self() }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![127, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] }
    fn contents(&self) -> Vec<u8> { let Self() = self; Vec::<u8>::new() }
}
impl Dec for N47 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [127, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self()) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 664613997892457936451903530140172288, tag_pc = PRIMITIVE, tag_class = PRIVATE)] 
pub struct N48;
impl Enc for N48 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![223, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N48 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [223, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_pc = PRIMITIVE, tag_num = 85070591730234615865843651857942052863, id = Sequence)] 
pub struct N49 {  }
impl Enc for N49 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![31, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for N49 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [31, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 0o1000000000000000000000000000000000000000000, tag_class = CONTEXT_SPECIFIC, tag_pc = CONSTRUCTED)] 
pub struct N50();
impl Enc for N50 {
    fn gen(size: usize) -> Self { let _ = size; Self() }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![191, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self() = self; Vec::<u8>::new() }
}
impl Dec for N50 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [191, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self()) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(id = BitString, tag_num = 170141183460469231731687303715884105728, tag_pc = PRIMITIVE)] 
pub struct N51;
impl Enc for N51 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![31, 130, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N51 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [31, 130, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111110, tag_pc = PRIMITIVE)] 
pub struct N52();
impl Enc for N52 {
    fn gen(size: usize) -> Self { let _ = size; Self() }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![31, 131, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 126] }
    fn contents(&self) -> Vec<u8> { let Self() = self; Vec::<u8>::new() }
}
impl Dec for N52 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [31, 131, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 126] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self()) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_num = 0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111, tag_pc = PRIMITIVE)] 
pub struct N53 {  }
impl Enc for N53 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![159, 131, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for N53 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [159, 131, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = PRIVATE, tag_num = 0o10000200)] 
pub struct N54;
impl Enc for N54 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![255, 129, 128, 129, 0] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N54 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [255, 129, 128, 129, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_pc = CONSTRUCTED, tag_class = APPLICATION, tag_num = 10485767)] 
pub struct N55();
impl Enc for N55 {
    fn gen(size: usize) -> Self { let _ = size; Self() }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![127, 133, 128, 128, 7] }
    fn contents(&self) -> Vec<u8> { let Self() = self; Vec::<u8>::new() }
}
impl Dec for N55 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [127, 133, 128, 128, 7] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self()) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = PRIVATE, tag_num = 31)] 
pub struct N56();
impl Enc for N56 {
    fn gen(size: usize) -> Self { let _ = size; Self() }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![255, 31] }
    fn contents(&self) -> Vec<u8> { let Self() = self; Vec::<u8>::new() }
}
impl Dec for N56 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [255, 31] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self()) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(id = Real, tag_pc = PRIMITIVE, tag_num = 0x1ff)] 
pub struct N57;
impl Enc for N57 {
    fn gen(size: usize) -> Self { let _ = size; Self }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![31, 131, 127] }
    fn contents(&self) -> Vec<u8> { let Self = self; Vec::<u8>::new() }
}
impl Dec for N57 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [31, 131, 127] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 4194176)] 
pub struct N58 {  }
impl Enc for N58 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 129, 255, 255, 0] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for N58 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 129, 255, 255, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_pc = PRIMITIVE, tag_class = CONTEXT_SPECIFIC, id = Sequence)] 
pub struct A0();
impl Enc for A0 {
    fn gen(size: usize) -> Self { let _ = size; Self() }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![144] }
    fn contents(&self) -> Vec<u8> { let Self() = self; Vec::<u8>::new() }
}
impl Dec for A0 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [144] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self()) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_pc = CONSTRUCTED, tag_num = 64)] 
pub struct A1(pub i8);
impl Enc for A1 {
    fn gen(size: usize) -> Self { let _ = size; Self(Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 64] }
    fn contents(&self) -> Vec<u8> { let Self(f0) = self; [f0.enc()].concat() }
}
impl Dec for A1 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 64] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<i8>().and_then(Some); r.need(f0.is_some()); r.end(move || Self(f0.unwrap())) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(id = OctetString, tag_class = PRIVATE, tag_pc = PRIMITIVE)] 
pub struct A2 { pub f0: i32, pub f1: Vec<String>, pub f2: A1, pub f3: Vec<String> }
impl Enc for A2 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2), f3: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![196] }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1, f2, f3 } = self; [f0.enc(), f1.enc(), f2.enc(), f3.enc()].concat() }
}
impl Dec for A2 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [196] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<i32>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<Vec<String>>().and_then(Some); r.need(f1.is_some()); let f2 = r.take::<A1>().and_then(Some); r.need(f2.is_some()); let f3 = r.take::<Vec<String>>().and_then(Some); r.need(f3.is_some()); r.end(move || Self { f0: f0.unwrap(), f1: f1.unwrap(), f2: f2.unwrap(), f3: f3.unwrap() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_pc = PRIMITIVE, tag_class = CONTEXT_SPECIFIC)] 
pub struct A3(pub String);
impl Enc for A3 {
    fn gen(size: usize) -> Self { let _ = size; Self(Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![144] }
    fn contents(&self) -> Vec<u8> { let Self(f0) = self; [f0.enc()].concat() }
}
impl Dec for A3 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [144] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<String>().and_then(Some); r.need(f0.is_some()); r.end(move || Self(f0.unwrap())) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = PRIVATE)] 
pub struct A4 { pub f0: A3, pub f1: usize, #[bsn1_serde(into = "String", from = "String")] pub f2: Name, pub f3: A2, #[bsn1_serde(skip)] pub f4: i8 }
impl Enc for A4 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2), f3: Enc::gen(size / 2), f4: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![240] }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1, f2, f3, f4 } = self; [f0.enc(), f1.enc(), out_name(f2).enc(), f3.enc()].concat() }
}
impl Dec for A4 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [240] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<A3>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<usize>().and_then(Some); r.need(f1.is_some()); let f2 = r.take::<String>().and_then(in_name); r.need(f2.is_some()); let f3 = r.take::<A2>().and_then(Some); r.need(f3.is_some()); r.end(move || Self { f0: f0.unwrap(), f1: f1.unwrap(), f2: f2.unwrap(), f3: f3.unwrap(), f4: Default::default() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(id = OctetString, tag_num = 0b1000000000000000000000000000000000000000000000000000000000000000)] 
pub struct A5 { pub f0: BTreeSet<i32>, #[bsn1_serde(into = "i16", try_from = "i16")] pub f1: Even, pub f2: usize, pub f3: OctetString<'static> }
impl Enc for A5 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2), f3: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![31, 129, 128, 128, 128, 128, 128, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1, f2, f3 } = self; [f0.enc(), out_even(f1).enc(), f2.enc(), f3.enc()].concat() }
}
impl Dec for A5 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [31, 129, 128, 128, 128, 128, 128, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<BTreeSet<i32>>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<i16>().and_then(in_even); r.need(f1.is_some()); let f2 = r.take::<usize>().and_then(Some); r.need(f2.is_some()); let f3 = r.take::<OctetString<'static>>().and_then(Some); r.need(f3.is_some()); r.end(move || Self { f0: f0.unwrap(), f1: f1.unwrap(), f2: f2.unwrap(), f3: f3.unwrap() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_pc = PRIMITIVE, tag_class = APPLICATION)] 
pub struct A6 { #[bsn1_serde(into = "Vec<u8>", from = "Vec<u8>")] pub f0: Wrapped, pub f1: BTreeMap<u8, String>, #[bsn1_serde(into = "i16", try_from = "i16")] pub f2: Even, pub f3: A0 }
impl Enc for A6 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2), f3: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![80] }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1, f2, f3 } = self; [out_wrapped(f0).enc(), f1.enc(), out_even(f2).enc(), f3.enc()].concat() }
}
impl Dec for A6 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [80] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<Vec<u8>>().and_then(in_wrapped); r.need(f0.is_some()); let f1 = r.take::<BTreeMap<u8, String>>().and_then(Some); r.need(f1.is_some()); let f2 = r.take::<i16>().and_then(in_even); r.need(f2.is_some()); let f3 = r.take::<A0>().and_then(Some); r.need(f3.is_some()); r.end(move || Self { f0: f0.unwrap(), f1: f1.unwrap(), f2: f2.unwrap(), f3: f3.unwrap() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = PRIVATE, tag_num = 72057594037927936)] 
pub struct A7(pub String, #[bsn1_serde(into = "u32", from = "u32")] pub Metres);
impl Enc for A7 {
    fn gen(size: usize) -> Self { let _ = size; Self(Enc::gen(size / 2), Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![255, 129, 128, 128, 128, 128, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self(f0, f1) = self; [f0.enc(), out_metres(f1).enc()].concat() }
}
impl Dec for A7 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [255, 129, 128, 128, 128, 128, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<String>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<u32>().and_then(in_metres); r.need(f1.is_some()); r.end(move || Self(f0.unwrap(), f1.unwrap())) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = PRIVATE, tag_pc = PRIMITIVE, tag_num = 0x10000)] 
pub struct A8(pub i8, #[bsn1_serde(skip)] pub bool, pub i64, pub bool, #[bsn1_serde(skip)] pub i64);
impl Enc for A8 {
    fn gen(size: usize) -> Self { let _ = size; Self(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![223, 132, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self(f0, f1, f2, f3, f4) = self; [f0.enc(), f2.enc(), f3.enc()].concat() }
}
impl Dec for A8 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [223, 132, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<i8>().and_then(Some); r.need(f0.is_some()); let f2 = r.take::<i64>().and_then(Some); r.need(f2.is_some()); let f3 = r.take::<bool>().and_then(Some); r.need(f3.is_some()); r.end(move || Self(f0.unwrap(), Default::default(), f2.unwrap(), f3.unwrap(), Default::default())) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111110)] 
pub struct A9 { #[bsn1_serde(to = "to_text", try_from = "OctetString<'static>")] pub f0: Text, #[bsn1_serde(to = "to_even", try_from = "i16")] pub f1: Even, #[bsn1_serde(skip)] pub f2: i8, pub f3: BTreeMap<u8, String> }
impl Enc for A9 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2), f3: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 131, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 126] }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1, f2, f3 } = self; [out_text(f0).enc(), out_even(f1).enc(), f3.enc()].concat() }
}
impl Dec for A9 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 131, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 126] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<OctetString<'static>>().and_then(in_text); r.need(f0.is_some()); let f1 = r.take::<i16>().and_then(in_even); r.need(f1.is_some()); let f3 = r.take::<BTreeMap<u8, String>>().and_then(Some); r.need(f3.is_some()); r.end(move || Self { f0: f0.unwrap(), f1: f1.unwrap(), f2: Default::default(), f3: f3.unwrap() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = PRIVATE, tag_pc = CONSTRUCTED)] 
pub struct A10 { pub f0: i8, #[bsn1_serde(into = "String", from = "String")] pub f1: Name, pub f2: Vec<String> }
impl Enc for A10 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![240] }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1, f2 } = self; [f0.enc(), out_name(f1).enc(), f2.enc()].concat() }
}
impl Dec for A10 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [240] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<i8>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<String>().and_then(in_name); r.need(f1.is_some()); let f2 = r.take::<Vec<String>>().and_then(Some); r.need(f2.is_some()); r.end(move || Self { f0: f0.unwrap(), f1: f1.unwrap(), f2: f2.unwrap() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 34359738368, tag_class = APPLICATION)] 
pub struct A11();
impl Enc for A11 {
    fn gen(size: usize) -> Self { let _ = size; Self() }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![127, 129, 128, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self() = self; Vec::<u8>::new() }
}
impl Dec for A11 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [127, 129, 128, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self()) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 0b11111111111111, tag_pc = CONSTRUCTED, id = Sequence)] 
pub struct A12 { pub f0: String, #[bsn1_serde(skip)] pub f1: u64 }
impl Enc for A12 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 255, 127] }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1 } = self; [f0.enc()].concat() }
}
impl Dec for A12 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 255, 127] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<String>().and_then(Some); r.need(f0.is_some()); r.end(move || Self { f0: f0.unwrap(), f1: Default::default() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]

pub struct A13(#[bsn1_serde(skip)] pub i32, pub i8, #[bsn1_serde(into = "i16", try_from = "i16")] pub Even, #[bsn1_serde(to = "to_text", try_from = "OctetString<'static>")] pub Text);
impl Enc for A13 {
    fn gen(size: usize) -> Self { let _ = size; Self(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![48] }
    fn contents(&self) -> Vec<u8> { let Self(f0, f1, f2, f3) = self; [f1.enc(), out_even(f2).enc(), out_text(f3).enc()].concat() }
}
impl Dec for A13 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [48] { return Nothing; } let mut r = Reading::new(ber, c); let f1 = r.take::<i8>().and_then(Some); r.need(f1.is_some()); let f2 = r.take::<i16>().and_then(in_even); r.need(f2.is_some()); let f3 = r.take::<OctetString<'static>>().and_then(in_text); r.need(f3.is_some()); r.end(move || Self(Default::default(), f1.unwrap(), f2.unwrap(), f3.unwrap())) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 340282366920938463463374607431768211455, tag_class = CONTEXT_SPECIFIC)] 
pub struct A14 {  }
impl Enc for A14 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![191, 131, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for A14 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [191, 131, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 0o7777777, id = Real, tag_class = APPLICATION)] 
pub struct A15 {  }
impl Enc for A15 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![95, 255, 255, 127] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for A15 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [95, 255, 255, 127] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 19342813113834066795298816)] 
pub struct A16 { #[bsn1_serde(skip)] pub f0: String }
impl Enc for A16 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self { f0 } = self; Vec::<u8>::new() }
}
impl Dec for A16 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self { f0: Default::default() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_pc = PRIMITIVE)] 
pub struct A17(pub bool, #[bsn1_serde(to = "to_even", try_from = "i16")] pub Even, pub A11);
impl Enc for A17 {
    fn gen(size: usize) -> Self { let _ = size; Self(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![16] }
    fn contents(&self) -> Vec<u8> { let Self(f0, f1, f2) = self; [f0.enc(), out_even(f1).enc(), f2.enc()].concat() }
}
impl Dec for A17 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [16] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<bool>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<i16>().and_then(in_even); r.need(f1.is_some()); let f2 = r.take::<A11>().and_then(Some); r.need(f2.is_some()); r.end(move || Self(f0.unwrap(), f1.unwrap(), f2.unwrap())) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = APPLICATION)] 
pub struct A18 { pub f0: Vec<Vec<u8>>, pub f1: i64, pub f2: u8 }
impl Enc for A18 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![112] }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1, f2 } = self; [f0.enc(), f1.enc(), f2.enc()].concat() }
}
impl Dec for A18 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [112] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<Vec<Vec<u8>>>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<i64>().and_then(Some); r.need(f1.is_some()); let f2 = r.take::<u8>().and_then(Some); r.need(f2.is_some()); r.end(move || Self { f0: f0.unwrap(), f1: f1.unwrap(), f2: f2.unwrap() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_pc = CONSTRUCTED)] 
pub struct A19 {  }
impl Enc for A19 {
    fn gen(size: usize) -> Self { let _ = size; Self {  } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![48] }
    fn contents(&self) -> Vec<u8> { let Self {  } = self; Vec::<u8>::new() }
}
impl Dec for A19 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [48] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self {  }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum E0 { V0 { #[bsn1_serde(skip)] f0: Vec<i16>, #[bsn1_serde(into = "u32", from = "u32")] f1: Metres }, #[bsn1_serde(tag_num = 9223372036854775808, tag_class = UNIVERSAL, tag_pc = CONSTRUCTED)] V1(OctetString<'static>, #[bsn1_serde(skip)] Vec<i16>, u8), #[bsn1_serde(tag_num = 0x1f, id = OctetString, tag_class = UNIVERSAL)] V2(u64, #[bsn1_serde(into = "Vec<u8>", from = "Vec<u8>")] Wrapped), #[bsn1_serde(tag_class = PRIVATE, tag_num = 0o35)] V3, #[bsn1_serde(tag_class = APPLICATION, id = UTF8String, tag_num = 30)] V4 }
impl Enc for E0 {
    fn gen(size: usize) -> Self { let _ = size; match pick(5) { 0 => Self::V0 { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2) }, 1 => Self::V1(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)), 2 => Self::V2(Enc::gen(size / 2), Enc::gen(size / 2)), 3 => Self::V3, _ => Self::V4, } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![63, 129, 128, 128, 128, 128, 128, 128, 128, 128, 0], Self::V2 { .. } => vec![31, 31], Self::V3 { .. } => vec![253], Self::V4 { .. } => vec![94], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0 { f0, f1 } => [out_metres(f1).enc()].concat(), Self::V1(f0, f1, f2) => [f0.enc(), f2.enc()].concat(), Self::V2(f0, f1) => [f0.enc(), out_wrapped(f1).enc()].concat(), Self::V3 => Vec::<u8>::new(), Self::V4 => Vec::<u8>::new(), } }
}
impl Dec for E0 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); let f1 = r.take::<u32>().and_then(in_metres); r.need(f1.is_some()); r.end(move || Self::V0 { f0: Default::default(), f1: f1.unwrap() }) } else if id == [63, 129, 128, 128, 128, 128, 128, 128, 128, 128, 0] { let mut r = Reading::new(ber, c); let f0 = r.take::<OctetString<'static>>().and_then(Some); r.need(f0.is_some()); let f2 = r.take::<u8>().and_then(Some); r.need(f2.is_some()); r.end(move || Self::V1(f0.unwrap(), Default::default(), f2.unwrap())) } else if id == [31, 31] { let mut r = Reading::new(ber, c); let f0 = r.take::<u64>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<Vec<u8>>().and_then(in_wrapped); r.need(f1.is_some()); r.end(move || Self::V2(f0.unwrap(), f1.unwrap())) } else if id == [253] { let mut r = Reading::new(ber, c); r.end(move || Self::V3) } else if id == [94] { let mut r = Reading::new(ber, c); r.end(move || Self::V4) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum E1 { V0, #[bsn1_serde(tag_num = 34359738367, tag_class = PRIVATE, id = BitString)] V1 { f0: u128, f1: A7, f2: LinkedList<OctetString<'static>> }, #[bsn1_serde(id = BitString)] V2, #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_pc = CONSTRUCTED, tag_num = 2475880078570760549798248447)] V3(BTreeMap<u8, String>) }
impl Enc for E1 {
    fn gen(size: usize) -> Self { let _ = size; match pick(4) { 0 => Self::V0, 1 => Self::V1 { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2) }, 2 => Self::V2, _ => Self::V3(Enc::gen(size / 2)), } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![223, 255, 255, 255, 255, 127], Self::V2 { .. } => vec![3], Self::V3 { .. } => vec![191, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0 => Vec::<u8>::new(), Self::V1 { f0, f1, f2 } => [f0.enc(), f1.enc(), f2.enc()].concat(), Self::V2 => Vec::<u8>::new(), Self::V3(f0) => [f0.enc()].concat(), } }
}
impl Dec for E1 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); r.end(move || Self::V0) } else if id == [223, 255, 255, 255, 255, 127] { let mut r = Reading::new(ber, c); let f0 = r.take::<u128>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<A7>().and_then(Some); r.need(f1.is_some()); let f2 = r.take::<LinkedList<OctetString<'static>>>().and_then(Some); r.need(f2.is_some()); r.end(move || Self::V1 { f0: f0.unwrap(), f1: f1.unwrap(), f2: f2.unwrap() }) } else if id == [3] { let mut r = Reading::new(ber, c); r.end(move || Self::V2) } else if id == [191, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] { let mut r = Reading::new(ber, c); let f0 = r.take::<BTreeMap<u8, String>>().and_then(Some); r.need(f0.is_some()); r.end(move || Self::V3(f0.unwrap())) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum E2 { V0(#[bsn1_serde(into = "u32", from = "u32")] Metres), #[bsn1_serde(tag_pc = PRIMITIVE, tag_num = 63, tag_class = UNIVERSAL)] V1 {  }, #[bsn1_serde(tag_num = 0b11110)] V2 }
impl Enc for E2 {
    fn gen(size: usize) -> Self { let _ = size; match pick(3) { 0 => Self::V0(Enc::gen(size / 2)), 1 => Self::V1 {  }, _ => Self::V2, } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![31, 63], Self::V2 { .. } => vec![62], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0(f0) => [out_metres(f0).enc()].concat(), Self::V1 {  } => Vec::<u8>::new(), Self::V2 => Vec::<u8>::new(), } }
}
impl Dec for E2 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); let f0 = r.take::<u32>().and_then(in_metres); r.need(f0.is_some()); r.end(move || Self::V0(f0.unwrap())) } else if id == [31, 63] { let mut r = Reading::new(ber, c); r.end(move || Self::V1 {  }) } else if id == [62] { let mut r = Reading::new(ber, c); r.end(move || Self::V2) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum E3 { V0(Vec<Vec<u8>>), #[bsn1_serde(tag_class = APPLICATION, tag_pc = CONSTRUCTED, id = Set)] V1, #[bsn1_serde(id = Real)] V2(#[bsn1_serde(into = "String", from = "String")] Name, #[bsn1_serde(skip)] i8), #[bsn1_serde(tag_num = 65535, tag_class = CONTEXT_SPECIFIC)] V3(A5, #[bsn1_serde(into = "u32", from = "u32")] Metres) }
impl Enc for E3 {
    fn gen(size: usize) -> Self { let _ = size; match pick(4) { 0 => Self::V0(Enc::gen(size / 2)), 1 => Self::V1, 2 => Self::V2(Enc::gen(size / 2), Enc::gen(size / 2)), _ => Self::V3(Enc::gen(size / 2), Enc::gen(size / 2)), } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![113], Self::V2 { .. } => vec![9], Self::V3 { .. } => vec![191, 131, 255, 127], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0(f0) => [f0.enc()].concat(), Self::V1 => Vec::<u8>::new(), Self::V2(f0, f1) => [out_name(f0).enc()].concat(), Self::V3(f0, f1) => [f0.enc(), out_metres(f1).enc()].concat(), } }
}
impl Dec for E3 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); let f0 = r.take::<Vec<Vec<u8>>>().and_then(Some); r.need(f0.is_some()); r.end(move || Self::V0(f0.unwrap())) } else if id == [113] { let mut r = Reading::new(ber, c); r.end(move || Self::V1) } else if id == [9] { let mut r = Reading::new(ber, c); let f0 = r.take::<String>().and_then(in_name); r.need(f0.is_some()); r.end(move || Self::V2(f0.unwrap(), Default::default())) } else if id == [191, 131, 255, 127] { let mut r = Reading::new(ber, c); let f0 = r.take::<A5>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<u32>().and_then(in_metres); r.need(f1.is_some()); r.end(move || Self::V3(f0.unwrap(), f1.unwrap())) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum E4 { V0(#[bsn1_serde(to = "to_text", try_from = "OctetString<'static>")] Text, OctetString<'static>, E1), #[bsn1_serde(tag_class = PRIVATE, tag_num = 4294967295, id = Integer)] V1, #[bsn1_serde(tag_class = APPLICATION)] V2(#[bsn1_serde(to = "to_text", try_from = "OctetString<'static>")] Text), #[bsn1_serde(tag_num = 0o3777777777777777777777777777777777777777777, tag_pc = CONSTRUCTED)] V3 { f0: E3, f1: u8, f2: Vec<String> } }
impl Enc for E4 {
    fn gen(size: usize) -> Self { let _ = size; match pick(4) { 0 => Self::V0(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)), 1 => Self::V1, 2 => Self::V2(Enc::gen(size / 2)), _ => Self::V3 { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2) }, } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![223, 143, 255, 255, 255, 127], Self::V2 { .. } => vec![112], Self::V3 { .. } => vec![63, 131, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0(f0, f1, f2) => [out_text(f0).enc(), f1.enc(), f2.enc()].concat(), Self::V1 => Vec::<u8>::new(), Self::V2(f0) => [out_text(f0).enc()].concat(), Self::V3 { f0, f1, f2 } => [f0.enc(), f1.enc(), f2.enc()].concat(), } }
}
impl Dec for E4 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); let f0 = r.take::<OctetString<'static>>().and_then(in_text); r.need(f0.is_some()); let f1 = r.take::<OctetString<'static>>().and_then(Some); r.need(f1.is_some()); let f2 = r.take::<E1>().and_then(Some); r.need(f2.is_some()); r.end(move || Self::V0(f0.unwrap(), f1.unwrap(), f2.unwrap())) } else if id == [223, 143, 255, 255, 255, 127] { let mut r = Reading::new(ber, c); r.end(move || Self::V1) } else if id == [112] { let mut r = Reading::new(ber, c); let f0 = r.take::<OctetString<'static>>().and_then(in_text); r.need(f0.is_some()); r.end(move || Self::V2(f0.unwrap())) } else if id == [63, 131, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] { let mut r = Reading::new(ber, c); let f0 = r.take::<E3>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<u8>().and_then(Some); r.need(f1.is_some()); let f2 = r.take::<Vec<String>>().and_then(Some); r.need(f2.is_some()); r.end(move || Self::V3 { f0: f0.unwrap(), f1: f1.unwrap(), f2: f2.unwrap() }) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum E5 { V0(#[bsn1_serde(to = "to_even", try_from = "i16")] Even), #[bsn1_serde(id = UTF8String, tag_class = PRIVATE, tag_num = 0x800000000000000000000000000000, tag_pc = CONSTRUCTED)] V1(OctetString<'static>, #[bsn1_serde(into = "i16", try_from = "i16")] Even, #[bsn1_serde(to = "to_even", try_from = "i16")] Even), #[bsn1_serde(tag_class = PRIVATE, id = Set, tag_num = 64)] V2(E0), #[bsn1_serde(tag_class = APPLICATION, tag_pc = CONSTRUCTED)] V3(Vec<String>, Vec<i16>), #[bsn1_serde(tag_class = PRIVATE, tag_pc = CONSTRUCTED)] V4 { f0: A15 } }
impl Enc for E5 {
    fn gen(size: usize) -> Self { let _ = size; match pick(5) { 0 => Self::V0(Enc::gen(size / 2)), 1 => Self::V1(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)), 2 => Self::V2(Enc::gen(size / 2)), 3 => Self::V3(Enc::gen(size / 2), Enc::gen(size / 2)), _ => Self::V4 { f0: Enc::gen(size / 2) }, } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![255, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0], Self::V2 { .. } => vec![255, 64], Self::V3 { .. } => vec![112], Self::V4 { .. } => vec![240], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0(f0) => [out_even(f0).enc()].concat(), Self::V1(f0, f1, f2) => [f0.enc(), out_even(f1).enc(), out_even(f2).enc()].concat(), Self::V2(f0) => [f0.enc()].concat(), Self::V3(f0, f1) => [f0.enc(), f1.enc()].concat(), Self::V4 { f0 } => [f0.enc()].concat(), } }
}
impl Dec for E5 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); let f0 = r.take::<i16>().and_then(in_even); r.need(f0.is_some()); r.end(move || Self::V0(f0.unwrap())) } else if id == [255, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] { let mut r = Reading::new(ber, c); let f0 = r.take::<OctetString<'static>>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<i16>().and_then(in_even); r.need(f1.is_some()); let f2 = r.take::<i16>().and_then(in_even); r.need(f2.is_some()); r.end(move || Self::V1(f0.unwrap(), f1.unwrap(), f2.unwrap())) } else if id == [255, 64] { let mut r = Reading::new(ber, c); let f0 = r.take::<E0>().and_then(Some); r.need(f0.is_some()); r.end(move || Self::V2(f0.unwrap())) } else if id == [112] { let mut r = Reading::new(ber, c); let f0 = r.take::<Vec<String>>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<Vec<i16>>().and_then(Some); r.need(f1.is_some()); r.end(move || Self::V3(f0.unwrap(), f1.unwrap())) } else if id == [240] { let mut r = Reading::new(ber, c); let f0 = r.take::<A15>().and_then(Some); r.need(f0.is_some()); r.end(move || Self::V4 { f0: f0.unwrap() }) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum E6 { V0() }
impl Enc for E6 {
    fn gen(size: usize) -> Self { let _ = size; match pick(1) { _ => Self::V0(), } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0() => Vec::<u8>::new(), } }
}
impl Dec for E6 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); r.end(move || Self::V0()) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum E7 { V0 { #[bsn1_serde(to = "to_text", try_from = "OctetString<'static>")] f0: Text, f1: A16, #[bsn1_serde(skip)] f2: Vec<i16> }, #[bsn1_serde(tag_num = 0o10000000, tag_class = CONTEXT_SPECIFIC, tag_pc = PRIMITIVE)] V1 { f0: i128, #[bsn1_serde(skip)] f1: u64, #[bsn1_serde(into = "i16", try_from = "i16")] f2: Even }, #[bsn1_serde(id = OctetString, tag_pc = PRIMITIVE)] V2, #[bsn1_serde(tag_class = UNIVERSAL, tag_num = 0b10000000, tag_pc = CONSTRUCTED)] V3 }
impl Enc for E7 {
    fn gen(size: usize) -> Self { let _ = size; match pick(4) { 0 => Self::V0 { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2) }, 1 => Self::V1 { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2) }, 2 => Self::V2, _ => Self::V3, } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![159, 129, 128, 128, 0], Self::V2 { .. } => vec![4], Self::V3 { .. } => vec![63, 129, 0], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0 { f0, f1, f2 } => [out_text(f0).enc(), f1.enc()].concat(), Self::V1 { f0, f1, f2 } => [f0.enc(), out_even(f2).enc()].concat(), Self::V2 => Vec::<u8>::new(), Self::V3 => Vec::<u8>::new(), } }
}
impl Dec for E7 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); let f0 = r.take::<OctetString<'static>>().and_then(in_text); r.need(f0.is_some()); let f1 = r.take::<A16>().and_then(Some); r.need(f1.is_some()); r.end(move || Self::V0 { f0: f0.unwrap(), f1: f1.unwrap(), f2: Default::default() }) } else if id == [159, 129, 128, 128, 0] { let mut r = Reading::new(ber, c); let f0 = r.take::<i128>().and_then(Some); r.need(f0.is_some()); let f2 = r.take::<i16>().and_then(in_even); r.need(f2.is_some()); r.end(move || Self::V1 { f0: f0.unwrap(), f1: Default::default(), f2: f2.unwrap() }) } else if id == [4] { let mut r = Reading::new(ber, c); r.end(move || Self::V2) } else if id == [63, 129, 0] { let mut r = Reading::new(ber, c); r.end(move || Self::V3) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum E8 { V0 { f0: A11, f1: Vec<i16> }, #[bsn1_serde(id = OctetString)] V1(A8, #[bsn1_serde(to = "to_text", try_from = "OctetString<'static>")] Text), #[bsn1_serde(id = Integer, tag_class = CONTEXT_SPECIFIC)] V2 { #[bsn1_serde(to = "to_even", try_from = "i16")] f0: Even, #[bsn1_serde(into = "i16", try_from = "i16")] f1: Even, f2: u16 }, #[bsn1_serde(tag_pc = PRIMITIVE, id = Sequence)] V3, #[bsn1_serde(tag_num = 2475880078570760549798248447, tag_class = PRIVATE)] V4(#[bsn1_serde(into = "i16", try_from = "i16")] Even) }
impl Enc for E8 {
    fn gen(size: usize) -> Self { let _ = size; match pick(5) { 0 => Self::V0 { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2) }, 1 => Self::V1(Enc::gen(size / 2), Enc::gen(size / 2)), 2 => Self::V2 { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2) }, 3 => Self::V3, _ => Self::V4(Enc::gen(size / 2)), } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![4], Self::V2 { .. } => vec![130], Self::V3 { .. } => vec![16], Self::V4 { .. } => vec![255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0 { f0, f1 } => [f0.enc(), f1.enc()].concat(), Self::V1(f0, f1) => [f0.enc(), out_text(f1).enc()].concat(), Self::V2 { f0, f1, f2 } => [out_even(f0).enc(), out_even(f1).enc(), f2.enc()].concat(), Self::V3 => Vec::<u8>::new(), Self::V4(f0) => [out_even(f0).enc()].concat(), } }
}
impl Dec for E8 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); let f0 = r.take::<A11>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<Vec<i16>>().and_then(Some); r.need(f1.is_some()); r.end(move || Self::V0 { f0: f0.unwrap(), f1: f1.unwrap() }) } else if id == [4] { let mut r = Reading::new(ber, c); let f0 = r.take::<A8>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<OctetString<'static>>().and_then(in_text); r.need(f1.is_some()); r.end(move || Self::V1(f0.unwrap(), f1.unwrap())) } else if id == [130] { let mut r = Reading::new(ber, c); let f0 = r.take::<i16>().and_then(in_even); r.need(f0.is_some()); let f1 = r.take::<i16>().and_then(in_even); r.need(f1.is_some()); let f2 = r.take::<u16>().and_then(Some); r.need(f2.is_some()); r.end(move || Self::V2 { f0: f0.unwrap(), f1: f1.unwrap(), f2: f2.unwrap() }) } else if id == [16] { let mut r = Reading::new(ber, c); r.end(move || Self::V3) } else if id == [255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] { let mut r = Reading::new(ber, c); let f0 = r.take::<i16>().and_then(in_even); r.need(f0.is_some()); r.end(move || Self::V4(f0.unwrap())) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum E9 { V0(#[bsn1_serde(into = "i16", try_from = "i16")] Even), #[bsn1_serde(tag_class = UNIVERSAL, tag_pc = PRIMITIVE)] V1 {  } }
impl Enc for E9 {
    fn gen(size: usize) -> Self { let _ = size; match pick(2) { 0 => Self::V0(Enc::gen(size / 2)), _ => Self::V1 {  }, } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![16], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0(f0) => [out_even(f0).enc()].concat(), Self::V1 {  } => Vec::<u8>::new(), } }
}
impl Dec for E9 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); let f0 = r.take::<i16>().and_then(in_even); r.need(f0.is_some()); r.end(move || Self::V0(f0.unwrap())) } else if id == [16] { let mut r = Reading::new(ber, c); r.end(move || Self::V1 {  }) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum E10 { V0(), #[bsn1_serde(tag_class = PRIVATE, tag_pc = PRIMITIVE, id = BitString)] V1(), #[bsn1_serde(tag_class = APPLICATION, id = Set, tag_pc = PRIMITIVE)] V2(#[bsn1_serde(to = "to_even", try_from = "i16")] Even, u8, u128), #[bsn1_serde(tag_class = CONTEXT_SPECIFIC)] V3 {  }, #[bsn1_serde(id = UTF8String, tag_num = 0b111111, tag_pc = CONSTRUCTED, tag_class = APPLICATION)] V4(Vec<i16>, #[bsn1_serde(to = "to_even", try_from = "i16")] Even) }
impl Enc for E10 {
    fn gen(size: usize) -> Self { let _ = size; match pick(5) { 0 => Self::V0(), 1 => Self::V1(), 2 => Self::V2(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)), 3 => Self::V3 {  }, _ => Self::V4(Enc::gen(size / 2), Enc::gen(size / 2)), } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![195], Self::V2 { .. } => vec![81], Self::V3 { .. } => vec![176], Self::V4 { .. } => vec![127, 63], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0() => Vec::<u8>::new(), Self::V1() => Vec::<u8>::new(), Self::V2(f0, f1, f2) => [out_even(f0).enc(), f1.enc(), f2.enc()].concat(), Self::V3 {  } => Vec::<u8>::new(), Self::V4(f0, f1) => [f0.enc(), out_even(f1).enc()].concat(), } }
}
impl Dec for E10 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); r.end(move || Self::V0()) } else if id == [195] { let mut r = Reading::new(ber, c); r.end(move || Self::V1()) } else if id == [81] { let mut r = Reading::new(ber, c); let f0 = r.take::<i16>().and_then(in_even); r.need(f0.is_some()); let f1 = r.take::<u8>().and_then(Some); r.need(f1.is_some()); let f2 = r.take::<u128>().and_then(Some); r.need(f2.is_some()); r.end(move || Self::V2(f0.unwrap(), f1.unwrap(), f2.unwrap())) } else if id == [176] { let mut r = Reading::new(ber, c); r.end(move || Self::V3 {  }) } else if id == [127, 63] { let mut r = Reading::new(ber, c); let f0 = r.take::<Vec<i16>>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<i16>().and_then(in_even); r.need(f1.is_some()); r.end(move || Self::V4(f0.unwrap(), f1.unwrap())) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum E11 { V0(u128, i128), #[bsn1_serde(tag_class = PRIVATE)] V1, #[bsn1_serde(tag_num = 0o2, tag_class = APPLICATION)] V2 { #[bsn1_serde(into = "Vec<u8>", from = "Vec<u8>")] f0: Wrapped, #[bsn1_serde(default = "seven", skip)] f1: u8, #[bsn1_serde(to = "to_text", try_from = "OctetString<'static>")] f2: Text }, #[bsn1_serde(tag_class = CONTEXT_SPECIFIC)] V3, #[bsn1_serde(tag_pc = PRIMITIVE, tag_num = 19342813113834066795298816)] V4 { f0: bool, f1: usize, #[bsn1_serde(into = "i16", try_from = "i16")] f2: Even } }
impl Enc for E11 {
    fn gen(size: usize) -> Self { let _ = size; match pick(5) { 0 => Self::V0(Enc::gen(size / 2), Enc::gen(size / 2)), 1 => Self::V1, 2 => Self::V2 { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2) }, 3 => Self::V3, _ => Self::V4 { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2) }, } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![240], Self::V2 { .. } => vec![98], Self::V3 { .. } => vec![176], Self::V4 { .. } => vec![31, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0(f0, f1) => [f0.enc(), f1.enc()].concat(), Self::V1 => Vec::<u8>::new(), Self::V2 { f0, f1, f2 } => [out_wrapped(f0).enc(), out_text(f2).enc()].concat(), Self::V3 => Vec::<u8>::new(), Self::V4 { f0, f1, f2 } => [f0.enc(), f1.enc(), out_even(f2).enc()].concat(), } }
}
impl Dec for E11 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); let f0 = r.take::<u128>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<i128>().and_then(Some); r.need(f1.is_some()); r.end(move || Self::V0(f0.unwrap(), f1.unwrap())) } else if id == [240] { let mut r = Reading::new(ber, c); r.end(move || Self::V1) } else if id == [98] { let mut r = Reading::new(ber, c); let f0 = r.take::<Vec<u8>>().and_then(in_wrapped); r.need(f0.is_some()); let f2 = r.take::<OctetString<'static>>().and_then(in_text); r.need(f2.is_some()); r.end(move || Self::V2 { f0: f0.unwrap(), f1: 7u8, f2: f2.unwrap() }) } else if id == [176] { let mut r = Reading::new(ber, c); r.end(move || Self::V3) } else if id == [31, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] { let mut r = Reading::new(ber, c); let f0 = r.take::<bool>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<usize>().and_then(Some); r.need(f1.is_some()); let f2 = r.take::<i16>().and_then(in_even); r.need(f2.is_some()); r.end(move || Self::V4 { f0: f0.unwrap(), f1: f1.unwrap(), f2: f2.unwrap() }) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum E12 { V0 { f0: u8, #[bsn1_serde(skip)] f1: u64 }, #[bsn1_serde(tag_num = 0, tag_class = UNIVERSAL)] V1(#[bsn1_serde(to = "to_even", try_from = "i16")] Even), #[bsn1_serde(tag_num = 0b10000000000000000000000000000000000000000000000000000000000000000, tag_class = APPLICATION)] V2 {  } }
impl Enc for E12 {
    fn gen(size: usize) -> Self { let _ = size; match pick(3) { 0 => Self::V0 { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2) }, 1 => Self::V1(Enc::gen(size / 2)), _ => Self::V2 {  }, } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![32], Self::V2 { .. } => vec![127, 130, 128, 128, 128, 128, 128, 128, 128, 128, 0], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0 { f0, f1 } => [f0.enc()].concat(), Self::V1(f0) => [out_even(f0).enc()].concat(), Self::V2 {  } => Vec::<u8>::new(), } }
}
impl Dec for E12 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); let f0 = r.take::<u8>().and_then(Some); r.need(f0.is_some()); r.end(move || Self::V0 { f0: f0.unwrap(), f1: Default::default() }) } else if id == [32] { let mut r = Reading::new(ber, c); let f0 = r.take::<i16>().and_then(in_even); r.need(f0.is_some()); r.end(move || Self::V1(f0.unwrap())) } else if id == [127, 130, 128, 128, 128, 128, 128, 128, 128, 128, 0] { let mut r = Reading::new(ber, c); r.end(move || Self::V2 {  }) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum E13 { V0, #[bsn1_serde(tag_class = UNIVERSAL, tag_num = 0x1d, id = Set)] V1, #[bsn1_serde(tag_class = APPLICATION, tag_num = 2, tag_pc = PRIMITIVE)] V2 { f0: u16, f1: i64, f2: OctetString<'static> } }
impl Enc for E13 {
    fn gen(size: usize) -> Self { let _ = size; match pick(3) { 0 => Self::V0, 1 => Self::V1, _ => Self::V2 { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2) }, } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![61], Self::V2 { .. } => vec![66], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0 => Vec::<u8>::new(), Self::V1 => Vec::<u8>::new(), Self::V2 { f0, f1, f2 } => [f0.enc(), f1.enc(), f2.enc()].concat(), } }
}
impl Dec for E13 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); r.end(move || Self::V0) } else if id == [61] { let mut r = Reading::new(ber, c); r.end(move || Self::V1) } else if id == [66] { let mut r = Reading::new(ber, c); let f0 = r.take::<u16>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<i64>().and_then(Some); r.need(f1.is_some()); let f2 = r.take::<OctetString<'static>>().and_then(Some); r.need(f2.is_some()); r.end(move || Self::V2 { f0: f0.unwrap(), f1: f1.unwrap(), f2: f2.unwrap() }) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct T0(#[bsn1_serde(into = "i16", try_from = "i16")] pub Even);
impl Enc for T0 {
    fn gen(size: usize) -> Self { Self(Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { let Self(f0) = self; out_even(f0).id() }
    fn contents(&self) -> Vec<u8> { let Self(f0) = self; out_even(f0).contents() }
}
impl Dec for T0 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<i16 as Dec>::dec(ber, id, indefinite, c), in_even, |x| Self(x)) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct T1 { pub f0: i32, #[bsn1_serde(skip)] pub f1: u64 }
impl Enc for T1 {
    fn gen(size: usize) -> Self { Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { let Self { f0, f1 } = self; f0.id() }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1 } = self; f0.contents() }
}
impl Dec for T1 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<i32 as Dec>::dec(ber, id, indefinite, c), Some, |x| Self { f0: x, f1: Default::default() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct T2 { #[bsn1_serde(skip)] pub f0: u16, #[bsn1_serde(into = "String", from = "String")] pub f1: Name }
impl Enc for T2 {
    fn gen(size: usize) -> Self { Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { let Self { f0, f1 } = self; out_name(f1).id() }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1 } = self; out_name(f1).contents() }
}
impl Dec for T2 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<String as Dec>::dec(ber, id, indefinite, c), in_name, |x| Self { f0: Default::default(), f1: x }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct T3(#[bsn1_serde(into = "String", from = "String")] pub Name);
impl Enc for T3 {
    fn gen(size: usize) -> Self { Self(Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { let Self(f0) = self; out_name(f0).id() }
    fn contents(&self) -> Vec<u8> { let Self(f0) = self; out_name(f0).contents() }
}
impl Dec for T3 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<String as Dec>::dec(ber, id, indefinite, c), in_name, |x| Self(x)) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct T4(#[bsn1_serde(skip)] pub i64, #[bsn1_serde(skip)] pub i128, #[bsn1_serde(to = "to_even", try_from = "i16")] pub Even);
impl Enc for T4 {
    fn gen(size: usize) -> Self { Self(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { let Self(f0, f1, f2) = self; out_even(f2).id() }
    fn contents(&self) -> Vec<u8> { let Self(f0, f1, f2) = self; out_even(f2).contents() }
}
impl Dec for T4 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<i16 as Dec>::dec(ber, id, indefinite, c), in_even, |x| Self(Default::default(), Default::default(), x)) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct T5 { pub f0: E6, #[bsn1_serde(skip)] pub f1: Metres }
impl Enc for T5 {
    fn gen(size: usize) -> Self { Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { let Self { f0, f1 } = self; f0.id() }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1 } = self; f0.contents() }
}
impl Dec for T5 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<E6 as Dec>::dec(ber, id, indefinite, c), Some, |x| Self { f0: x, f1: Default::default() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct T6(#[bsn1_serde(skip)] pub String, #[bsn1_serde(skip)] pub i8, #[bsn1_serde(into = "u32", from = "u32")] pub Metres);
impl Enc for T6 {
    fn gen(size: usize) -> Self { Self(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { let Self(f0, f1, f2) = self; out_metres(f2).id() }
    fn contents(&self) -> Vec<u8> { let Self(f0, f1, f2) = self; out_metres(f2).contents() }
}
impl Dec for T6 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<u32 as Dec>::dec(ber, id, indefinite, c), in_metres, |x| Self(Default::default(), Default::default(), x)) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct T7(pub T6);
impl Enc for T7 {
    fn gen(size: usize) -> Self { Self(Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { let Self(f0) = self; f0.id() }
    fn contents(&self) -> Vec<u8> { let Self(f0) = self; f0.contents() }
}
impl Dec for T7 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<T6 as Dec>::dec(ber, id, indefinite, c), Some, |x| Self(x)) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct T8(#[bsn1_serde(default = "seven", skip)] pub u8, #[bsn1_serde(skip)] pub bool, pub E0);
impl Enc for T8 {
    fn gen(size: usize) -> Self { Self(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { let Self(f0, f1, f2) = self; f2.id() }
    fn contents(&self) -> Vec<u8> { let Self(f0, f1, f2) = self; f2.contents() }
}
impl Dec for T8 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<E0 as Dec>::dec(ber, id, indefinite, c), Some, |x| Self(7u8, Default::default(), x)) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct T9(#[bsn1_serde(skip)] pub i128, #[bsn1_serde(into = "Vec<u8>", from = "Vec<u8>")] pub Wrapped, #[bsn1_serde(skip)] pub u64);
impl Enc for T9 {
    fn gen(size: usize) -> Self { Self(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { let Self(f0, f1, f2) = self; out_wrapped(f1).id() }
    fn contents(&self) -> Vec<u8> { let Self(f0, f1, f2) = self; out_wrapped(f1).contents() }
}
impl Dec for T9 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<Vec<u8> as Dec>::dec(ber, id, indefinite, c), in_wrapped, |x| Self(Default::default(), x, Default::default())) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct T10(#[bsn1_serde(skip)] pub String, #[bsn1_serde(to = "to_text", try_from = "OctetString<'static>")] pub Text);
impl Enc for T10 {
    fn gen(size: usize) -> Self { Self(Enc::gen(size / 2), Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { let Self(f0, f1) = self; out_text(f1).id() }
    fn contents(&self) -> Vec<u8> { let Self(f0, f1) = self; out_text(f1).contents() }
}
impl Dec for T10 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<OctetString<'static> as Dec>::dec(ber, id, indefinite, c), in_text, |x| Self(Default::default(), x)) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct T11(#[bsn1_serde(into = "Vec<u8>", from = "Vec<u8>")] pub Wrapped, #[bsn1_serde(skip)] pub i8);
impl Enc for T11 {
    fn gen(size: usize) -> Self { Self(Enc::gen(size / 2), Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { let Self(f0, f1) = self; out_wrapped(f0).id() }
    fn contents(&self) -> Vec<u8> { let Self(f0, f1) = self; out_wrapped(f0).contents() }
}
impl Dec for T11 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<Vec<u8> as Dec>::dec(ber, id, indefinite, c), in_wrapped, |x| Self(x, Default::default())) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct T12 { #[bsn1_serde(skip)] pub f0: Vec<i16>, pub f1: BTreeMap<u8, String>, #[bsn1_serde(skip)] pub f2: u64 }
impl Enc for T12 {
    fn gen(size: usize) -> Self { Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { let Self { f0, f1, f2 } = self; f1.id() }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1, f2 } = self; f1.contents() }
}
impl Dec for T12 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<BTreeMap<u8, String> as Dec>::dec(ber, id, indefinite, c), Some, |x| Self { f0: Default::default(), f1: x, f2: Default::default() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct T13 { #[bsn1_serde(skip)] pub f0: String, #[bsn1_serde(into = "i16", try_from = "i16")] pub f1: Even }
impl Enc for T13 {
    fn gen(size: usize) -> Self { Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { let Self { f0, f1 } = self; out_even(f1).id() }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1 } = self; out_even(f1).contents() }
}
impl Dec for T13 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<i16 as Dec>::dec(ber, id, indefinite, c), in_even, |x| Self { f0: Default::default(), f1: x }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct T14 { pub f0: i32 }
impl Enc for T14 {
    fn gen(size: usize) -> Self { Self { f0: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { let Self { f0 } = self; f0.id() }
    fn contents(&self) -> Vec<u8> { let Self { f0 } = self; f0.contents() }
}
impl Dec for T14 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<i32 as Dec>::dec(ber, id, indefinite, c), Some, |x| Self { f0: x }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct T15 { pub f0: Vec<String>, #[bsn1_serde(skip)] pub f1: Metres, #[bsn1_serde(skip)] pub f2: u128 }
impl Enc for T15 {
    fn gen(size: usize) -> Self { Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { let Self { f0, f1, f2 } = self; f0.id() }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1, f2 } = self; f0.contents() }
}
impl Dec for T15 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<Vec<String> as Dec>::dec(ber, id, indefinite, c), Some, |x| Self { f0: x, f1: Default::default(), f2: Default::default() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct T16(pub i32, #[bsn1_serde(default = "seven", skip)] pub u8, #[bsn1_serde(skip)] pub u16);
impl Enc for T16 {
    fn gen(size: usize) -> Self { Self(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { let Self(f0, f1, f2) = self; f0.id() }
    fn contents(&self) -> Vec<u8> { let Self(f0, f1, f2) = self; f0.contents() }
}
impl Dec for T16 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<i32 as Dec>::dec(ber, id, indefinite, c), Some, |x| Self(x, 7u8, Default::default())) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct T17 { #[bsn1_serde(skip)] pub f0: usize, pub f1: BTreeSet<i32> }
impl Enc for T17 {
    fn gen(size: usize) -> Self { Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { let Self { f0, f1 } = self; f1.id() }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1 } = self; f1.contents() }
}
impl Dec for T17 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<BTreeSet<i32> as Dec>::dec(ber, id, indefinite, c), Some, |x| Self { f0: Default::default(), f1: x }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct T18 { pub f0: LinkedList<OctetString<'static>> }
impl Enc for T18 {
    fn gen(size: usize) -> Self { Self { f0: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { let Self { f0 } = self; f0.id() }
    fn contents(&self) -> Vec<u8> { let Self { f0 } = self; f0.contents() }
}
impl Dec for T18 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<LinkedList<OctetString<'static>> as Dec>::dec(ber, id, indefinite, c), Some, |x| Self { f0: x }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct T19(pub i8);
impl Enc for T19 {
    fn gen(size: usize) -> Self { Self(Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { let Self(f0) = self; f0.id() }
    fn contents(&self) -> Vec<u8> { let Self(f0) = self; f0.contents() }
}
impl Dec for T19 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<i8 as Dec>::dec(ber, id, indefinite, c), Some, |x| Self(x)) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(into = "u32", from = "u32")] 
pub struct W0(pub u32, pub u8);
impl Enc for W0 {
    fn gen(size: usize) -> Self { Self(Enc::gen(size), any()) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { self.0.id() }
    fn contents(&self) -> Vec<u8> { self.0.contents() }
}
impl Dec for W0 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<u32 as Dec>::dec(ber, id, indefinite, c), |x| Some(W0(x, 9)), |x| x) }
}
impl From<W0> for u32 { fn from(x: W0) -> Self { x.0 } }
impl From<u32> for W0 { fn from(x: u32) -> Self { W0(x, 9) } }
#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(to = "to_w1", try_from = "i16")] 
pub struct W1(pub i16, pub u8);
impl Enc for W1 {
    fn gen(size: usize) -> Self { Self(Enc::gen(size), any()) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { self.0.id() }
    fn contents(&self) -> Vec<u8> { self.0.contents() }
}
impl Dec for W1 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<i16 as Dec>::dec(ber, id, indefinite, c), |x: i16| if x % 3 == 0 { None } else { Some(W1(x, 9)) }, |x| x) }
}
fn to_w1(x: &W1) -> i16 { x.0 }
impl TryFrom<i16> for W1 { type Error = Refused; fn try_from(x: i16) -> Result<Self, Refused> { if x % 3 == 0 { Err(Refused) } else { Ok(W1(x, 9)) } } }
#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(into = "A0", from = "A0")] 
pub struct W2(pub A0, pub u8);
impl Enc for W2 {
    fn gen(size: usize) -> Self { Self(Enc::gen(size), any()) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { self.0.id() }
    fn contents(&self) -> Vec<u8> { self.0.contents() }
}
impl Dec for W2 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<A0 as Dec>::dec(ber, id, indefinite, c), |x| Some(W2(x, 9)), |x| x) }
}
impl From<W2> for A0 { fn from(x: W2) -> Self { x.0 } }
impl From<A0> for W2 { fn from(x: A0) -> Self { W2(x, 9) } }
#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(to = "to_w3", try_from = "i16")] 
pub struct W3(pub i16, pub u8);
impl Enc for W3 {
    fn gen(size: usize) -> Self { Self(Enc::gen(size), any()) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { self.0.id() }
    fn contents(&self) -> Vec<u8> { self.0.contents() }
}
impl Dec for W3 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<i16 as Dec>::dec(ber, id, indefinite, c), |x: i16| if x % 3 == 0 { None } else { Some(W3(x, 9)) }, |x| x) }
}
fn to_w3(x: &W3) -> i16 { x.0 }
impl TryFrom<i16> for W3 { type Error = Refused; fn try_from(x: i16) -> Result<Self, Refused> { if x % 3 == 0 { Err(Refused) } else { Ok(W3(x, 9)) } } }
#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(into = "u32", from = "u32")] 
pub struct W4(pub u32, pub u8);
impl Enc for W4 {
    fn gen(size: usize) -> Self { Self(Enc::gen(size), any()) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { self.0.id() }
    fn contents(&self) -> Vec<u8> { self.0.contents() }
}
impl Dec for W4 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<u32 as Dec>::dec(ber, id, indefinite, c), |x| Some(W4(x, 9)), |x| x) }
}
impl From<W4> for u32 { fn from(x: W4) -> Self { x.0 } }
impl From<u32> for W4 { fn from(x: u32) -> Self { W4(x, 9) } }
#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(to = "to_w5", try_from = "i16")] 
pub struct W5(pub i16, pub u8);
impl Enc for W5 {
    fn gen(size: usize) -> Self { Self(Enc::gen(size), any()) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { self.0.id() }
    fn contents(&self) -> Vec<u8> { self.0.contents() }
}
impl Dec for W5 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<i16 as Dec>::dec(ber, id, indefinite, c), |x: i16| if x % 3 == 0 { None } else { Some(W5(x, 9)) }, |x| x) }
}
fn to_w5(x: &W5) -> i16 { x.0 }
impl TryFrom<i16> for W5 { type Error = Refused; fn try_from(x: i16) -> Result<Self, Refused> { if x % 3 == 0 { Err(Refused) } else { Ok(W5(x, 9)) } } }
#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(into = "u32", from = "u32")] 
pub struct W6(pub u32, pub u8);
impl Enc for W6 {
    fn gen(size: usize) -> Self { Self(Enc::gen(size), any()) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { self.0.id() }
    fn contents(&self) -> Vec<u8> { self.0.contents() }
}
impl Dec for W6 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<u32 as Dec>::dec(ber, id, indefinite, c), |x| Some(W6(x, 9)), |x| x) }
}
impl From<W6> for u32 { fn from(x: W6) -> Self { x.0 } }
impl From<u32> for W6 { fn from(x: u32) -> Self { W6(x, 9) } }
#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(to = "to_w7", try_from = "i16")] 
pub struct W7(pub i16, pub u8);
impl Enc for W7 {
    fn gen(size: usize) -> Self { Self(Enc::gen(size), any()) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { self.0.id() }
    fn contents(&self) -> Vec<u8> { self.0.contents() }
}
impl Dec for W7 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); through(<i16 as Dec>::dec(ber, id, indefinite, c), |x: i16| if x % 3 == 0 { None } else { Some(W7(x, 9)) }, |x| x) }
}
fn to_w7(x: &W7) -> i16 { x.0 }
impl TryFrom<i16> for W7 { type Error = Refused; fn try_from(x: i16) -> Result<Self, Refused> { if x % 3 == 0 { Err(Refused) } else { Ok(W7(x, 9)) } } }
#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]

pub struct B0 { #[bsn1_serde(skip_deserializing)] pub f0: i32, pub f1: bool, #[bsn1_serde(skip)] pub f2: i128, pub f3: A8, pub f4: String }
impl Enc for B0 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2), f3: Enc::gen(size / 2), f4: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![48] }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1, f2, f3, f4 } = self; [f0.enc(), f1.enc(), f3.enc(), f4.enc()].concat() }
}
impl Dec for B0 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [48] { return Nothing; } let mut r = Reading::new(ber, c); let f1 = r.take::<bool>().and_then(Some); r.need(f1.is_some()); let f3 = r.take::<A8>().and_then(Some); r.need(f3.is_some()); let f4 = r.take::<String>().and_then(Some); r.need(f4.is_some()); r.end(move || Self { f0: Default::default(), f1: f1.unwrap(), f2: Default::default(), f3: f3.unwrap(), f4: f4.unwrap() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 0b11111, tag_class = PRIVATE, tag_pc = CONSTRUCTED)] 
pub struct B1 { #[bsn1_serde(skip_serializing)] pub f0: i32, #[bsn1_serde(into = "u32", from = "u32")] pub f1: Metres, pub f2: OctetString<'static>, pub f3: A0, pub f4: A6 }
impl Enc for B1 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2), f3: Enc::gen(size / 2), f4: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![255, 31] }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1, f2, f3, f4 } = self; [out_metres(f1).enc(), f2.enc(), f3.enc(), f4.enc()].concat() }
}
impl Dec for B1 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [255, 31] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<i32>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<u32>().and_then(in_metres); r.need(f1.is_some()); let f2 = r.take::<OctetString<'static>>().and_then(Some); r.need(f2.is_some()); let f3 = r.take::<A0>().and_then(Some); r.need(f3.is_some()); let f4 = r.take::<A6>().and_then(Some); r.need(f4.is_some()); r.end(move || Self { f0: f0.unwrap(), f1: f1.unwrap(), f2: f2.unwrap(), f3: f3.unwrap(), f4: f4.unwrap() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(id = UTF8String, tag_pc = PRIMITIVE)] 
pub struct B2 { pub f0: i32 }
impl Enc for B2 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![12] }
    fn contents(&self) -> Vec<u8> { let Self { f0 } = self; [f0.enc()].concat() }
}
impl Dec for B2 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [12] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<i32>().and_then(Some); r.need(f0.is_some()); r.end(move || Self { f0: f0.unwrap() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(id = Integer)] 
pub struct B3(pub u8, pub A1);
impl Enc for B3 {
    fn gen(size: usize) -> Self { let _ = size; Self(Enc::gen(size / 2), Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![2] }
    fn contents(&self) -> Vec<u8> { let Self(f0, f1) = self; [f0.enc(), f1.enc()].concat() }
}
impl Dec for B3 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [2] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<u8>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<A1>().and_then(Some); r.need(f1.is_some()); r.end(move || Self(f0.unwrap(), f1.unwrap())) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]

pub struct B4 { #[bsn1_serde(skip)] pub f0: Metres }
impl Enc for B4 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![48] }
    fn contents(&self) -> Vec<u8> { let Self { f0 } = self; Vec::<u8>::new() }
}
impl Dec for B4 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [48] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self { f0: Default::default() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(id = BitString)] 
pub struct B5 { #[bsn1_serde(skip)] pub f0: String }
impl Enc for B5 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![3] }
    fn contents(&self) -> Vec<u8> { let Self { f0 } = self; Vec::<u8>::new() }
}
impl Dec for B5 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [3] { return Nothing; } let mut r = Reading::new(ber, c); r.end(move || Self { f0: Default::default() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 18446744073709551616)] 
pub struct B6 { pub f0: String, pub f1: BTreeMap<u8, String>, #[bsn1_serde(into = "String", from = "String")] pub f2: Name }
impl Enc for B6 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 130, 128, 128, 128, 128, 128, 128, 128, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1, f2 } = self; [f0.enc(), f1.enc(), out_name(f2).enc()].concat() }
}
impl Dec for B6 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 130, 128, 128, 128, 128, 128, 128, 128, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<String>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<BTreeMap<u8, String>>().and_then(Some); r.need(f1.is_some()); let f2 = r.take::<String>().and_then(in_name); r.need(f2.is_some()); r.end(move || Self { f0: f0.unwrap(), f1: f1.unwrap(), f2: f2.unwrap() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_pc = PRIMITIVE, tag_class = APPLICATION, tag_num = 0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111)] 
pub struct B7 { pub f0: BTreeMap<u8, String>, #[bsn1_serde(skip)] pub f1: Vec<i16> }
impl Enc for B7 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![95, 131, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1 } = self; [f0.enc()].concat() }
}
impl Dec for B7 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [95, 131, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<BTreeMap<u8, String>>().and_then(Some); r.need(f0.is_some()); r.end(move || Self { f0: f0.unwrap(), f1: Default::default() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]

pub struct B8 { #[bsn1_serde(into = "String", from = "String")] pub f0: Name, #[bsn1_serde(skip)] pub f1: u64, pub f2: bool, pub f3: BTreeMap<u8, String> }
impl Enc for B8 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2), f3: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![48] }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1, f2, f3 } = self; [out_name(f0).enc(), f2.enc(), f3.enc()].concat() }
}
impl Dec for B8 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [48] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<String>().and_then(in_name); r.need(f0.is_some()); let f2 = r.take::<bool>().and_then(Some); r.need(f2.is_some()); let f3 = r.take::<BTreeMap<u8, String>>().and_then(Some); r.need(f3.is_some()); r.end(move || Self { f0: f0.unwrap(), f1: Default::default(), f2: f2.unwrap(), f3: f3.unwrap() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = PRIVATE)] 
pub struct B9 { pub f0: bool, pub f1: usize, pub f2: String }
impl Enc for B9 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![240] }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1, f2 } = self; [f0.enc(), f1.enc(), f2.enc()].concat() }
}
impl Dec for B9 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [240] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<bool>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<usize>().and_then(Some); r.need(f1.is_some()); let f2 = r.take::<String>().and_then(Some); r.need(f2.is_some()); r.end(move || Self { f0: f0.unwrap(), f1: f1.unwrap(), f2: f2.unwrap() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_pc = CONSTRUCTED, tag_class = CONTEXT_SPECIFIC, tag_num = 0xffffffffffffffffffffffffffffffff)] 
pub struct B10(pub W3, #[bsn1_serde(into = "i16", try_from = "i16")] pub Even, pub String, #[bsn1_serde(skip_deserializing, default = "seven")] pub u8);
impl Enc for B10 {
    fn gen(size: usize) -> Self { let _ = size; Self(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![191, 131, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] }
    fn contents(&self) -> Vec<u8> { let Self(f0, f1, f2, f3) = self; [f0.enc(), out_even(f1).enc(), f2.enc(), f3.enc()].concat() }
}
impl Dec for B10 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [191, 131, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<W3>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<i16>().and_then(in_even); r.need(f1.is_some()); let f2 = r.take::<String>().and_then(Some); r.need(f2.is_some()); r.end(move || Self(f0.unwrap(), f1.unwrap(), f2.unwrap(), 7u8)) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_pc = PRIMITIVE)] 
pub struct B11(#[bsn1_serde(skip_serializing)] pub Vec<i16>, pub bool, #[bsn1_serde(skip_deserializing)] pub u128, #[bsn1_serde(skip_deserializing)] pub u128, #[bsn1_serde(skip)] pub i64);
impl Enc for B11 {
    fn gen(size: usize) -> Self { let _ = size; Self(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![16] }
    fn contents(&self) -> Vec<u8> { let Self(f0, f1, f2, f3, f4) = self; [f1.enc(), f2.enc(), f3.enc()].concat() }
}
impl Dec for B11 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [16] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<Vec<i16>>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<bool>().and_then(Some); r.need(f1.is_some()); r.end(move || Self(f0.unwrap(), f1.unwrap(), Default::default(), Default::default(), Default::default())) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]

pub struct B12 { #[bsn1_serde(skip_deserializing)] pub f0: String, #[bsn1_serde(skip_deserializing)] pub f1: u64, pub f2: Vec<i16>, #[bsn1_serde(into = "i16", try_from = "i16")] pub f3: Even, pub f4: usize, #[bsn1_serde(skip)] pub f5: u16 }
impl Enc for B12 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2), f3: Enc::gen(size / 2), f4: Enc::gen(size / 2), f5: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![48] }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1, f2, f3, f4, f5 } = self; [f0.enc(), f1.enc(), f2.enc(), out_even(f3).enc(), f4.enc()].concat() }
}
impl Dec for B12 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [48] { return Nothing; } let mut r = Reading::new(ber, c); let f2 = r.take::<Vec<i16>>().and_then(Some); r.need(f2.is_some()); let f3 = r.take::<i16>().and_then(in_even); r.need(f3.is_some()); let f4 = r.take::<usize>().and_then(Some); r.need(f4.is_some()); r.end(move || Self { f0: Default::default(), f1: Default::default(), f2: f2.unwrap(), f3: f3.unwrap(), f4: f4.unwrap(), f5: Default::default() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_pc = PRIMITIVE, id = OctetString)] 
pub struct B13 { #[bsn1_serde(skip)] pub f0: String, pub f1: Vec<String>, #[bsn1_serde(to = "to_even", try_from = "i16")] pub f2: Even }
impl Enc for B13 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![4] }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1, f2 } = self; [f1.enc(), out_even(f2).enc()].concat() }
}
impl Dec for B13 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [4] { return Nothing; } let mut r = Reading::new(ber, c); let f1 = r.take::<Vec<String>>().and_then(Some); r.need(f1.is_some()); let f2 = r.take::<i16>().and_then(in_even); r.need(f2.is_some()); r.end(move || Self { f0: Default::default(), f1: f1.unwrap(), f2: f2.unwrap() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(id = OctetString, tag_class = APPLICATION)] 
pub struct B14(pub u128, pub u16, pub u8, #[bsn1_serde(skip_serializing)] pub bool, pub String);
impl Enc for B14 {
    fn gen(size: usize) -> Self { let _ = size; Self(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![68] }
    fn contents(&self) -> Vec<u8> { let Self(f0, f1, f2, f3, f4) = self; [f0.enc(), f1.enc(), f2.enc(), f4.enc()].concat() }
}
impl Dec for B14 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [68] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<u128>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<u16>().and_then(Some); r.need(f1.is_some()); let f2 = r.take::<u8>().and_then(Some); r.need(f2.is_some()); let f3 = r.take::<bool>().and_then(Some); r.need(f3.is_some()); let f4 = r.take::<String>().and_then(Some); r.need(f4.is_some()); r.end(move || Self(f0.unwrap(), f1.unwrap(), f2.unwrap(), f3.unwrap(), f4.unwrap())) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = APPLICATION, tag_num = 16384)] 
pub struct B15 { #[bsn1_serde(skip_deserializing)] pub f0: i32, #[bsn1_serde(skip_serializing)] pub f1: u16, pub f2: u64, pub f3: BTreeSet<i32>, #[bsn1_serde(into = "i16", try_from = "i16")] pub f4: Even, #[bsn1_serde(into = "i16", try_from = "i16")] pub f5: Even, pub f6: i32 }
impl Enc for B15 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2), f3: Enc::gen(size / 2), f4: Enc::gen(size / 2), f5: Enc::gen(size / 2), f6: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![127, 129, 128, 0] }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1, f2, f3, f4, f5, f6 } = self; [f0.enc(), f2.enc(), f3.enc(), out_even(f4).enc(), out_even(f5).enc(), f6.enc()].concat() }
}
impl Dec for B15 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [127, 129, 128, 0] { return Nothing; } let mut r = Reading::new(ber, c); let f1 = r.take::<u16>().and_then(Some); r.need(f1.is_some()); let f2 = r.take::<u64>().and_then(Some); r.need(f2.is_some()); let f3 = r.take::<BTreeSet<i32>>().and_then(Some); r.need(f3.is_some()); let f4 = r.take::<i16>().and_then(in_even); r.need(f4.is_some()); let f5 = r.take::<i16>().and_then(in_even); r.need(f5.is_some()); let f6 = r.take::<i32>().and_then(Some); r.need(f6.is_some()); r.end(move || Self { f0: Default::default(), f1: f1.unwrap(), f2: f2.unwrap(), f3: f3.unwrap(), f4: f4.unwrap(), f5: f5.unwrap(), f6: f6.unwrap() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]

pub struct B16 { pub f0: Vec<Vec<u8>>, #[bsn1_serde(into = "u32", from = "u32")] pub f1: Metres, #[bsn1_serde(skip_serializing)] pub f2: i128 }
impl Enc for B16 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![48] }
    fn contents(&self) -> Vec<u8> { let Self { f0, f1, f2 } = self; [f0.enc(), out_metres(f1).enc()].concat() }
}
impl Dec for B16 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [48] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<Vec<Vec<u8>>>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<u32>().and_then(in_metres); r.need(f1.is_some()); let f2 = r.take::<i128>().and_then(Some); r.need(f2.is_some()); r.end(move || Self { f0: f0.unwrap(), f1: f1.unwrap(), f2: f2.unwrap() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = PRIVATE, tag_num = 511)] 
pub struct B17 { pub f0: String }
impl Enc for B17 {
    fn gen(size: usize) -> Self { let _ = size; Self { f0: Enc::gen(size / 2) } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![255, 131, 127] }
    fn contents(&self) -> Vec<u8> { let Self { f0 } = self; [f0.enc()].concat() }
}
impl Dec for B17 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [255, 131, 127] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<String>().and_then(Some); r.need(f0.is_some()); r.end(move || Self { f0: f0.unwrap() }) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_num = 18446744073709551615, tag_class = UNIVERSAL)] 
pub struct B18(#[bsn1_serde(to = "to_even", try_from = "i16")] pub Even, #[bsn1_serde(skip_deserializing)] pub i8, #[bsn1_serde(skip)] pub bool, pub bool, #[bsn1_serde(skip)] pub usize);
impl Enc for B18 {
    fn gen(size: usize) -> Self { let _ = size; Self(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![63, 129, 255, 255, 255, 255, 255, 255, 255, 255, 127] }
    fn contents(&self) -> Vec<u8> { let Self(f0, f1, f2, f3, f4) = self; [out_even(f0).enc(), f1.enc(), f3.enc()].concat() }
}
impl Dec for B18 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [63, 129, 255, 255, 255, 255, 255, 255, 255, 255, 127] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<i16>().and_then(in_even); r.need(f0.is_some()); let f3 = r.take::<bool>().and_then(Some); r.need(f3.is_some()); r.end(move || Self(f0.unwrap(), Default::default(), Default::default(), f3.unwrap(), Default::default())) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = UNIVERSAL)] 
pub struct B19(pub LinkedList<OctetString<'static>>, #[bsn1_serde(skip_deserializing)] pub Vec<i16>, #[bsn1_serde(skip_serializing)] pub u16, pub i32, pub T18, pub i8);
impl Enc for B19 {
    fn gen(size: usize) -> Self { let _ = size; Self(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)) }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { vec![48] }
    fn contents(&self) -> Vec<u8> { let Self(f0, f1, f2, f3, f4, f5) = self; [f0.enc(), f1.enc(), f3.enc(), f4.enc(), f5.enc()].concat() }
}
impl Dec for B19 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id != [48] { return Nothing; } let mut r = Reading::new(ber, c); let f0 = r.take::<LinkedList<OctetString<'static>>>().and_then(Some); r.need(f0.is_some()); let f2 = r.take::<u16>().and_then(Some); r.need(f2.is_some()); let f3 = r.take::<i32>().and_then(Some); r.need(f3.is_some()); let f4 = r.take::<T18>().and_then(Some); r.need(f4.is_some()); let f5 = r.take::<i8>().and_then(Some); r.need(f5.is_some()); r.end(move || Self(f0.unwrap(), Default::default(), f2.unwrap(), f3.unwrap(), f4.unwrap(), f5.unwrap())) }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum F0 { V0(), #[bsn1_serde(tag_class = CONTEXT_SPECIFIC)] V1(), #[bsn1_serde(tag_num = 0o20000000000, tag_pc = CONSTRUCTED)] V2, #[bsn1_serde(tag_num = 16, tag_pc = PRIMITIVE)] V3(#[bsn1_serde(default = "seven", skip)] u8, Vec<i16>, #[bsn1_serde(skip)] String), #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_pc = PRIMITIVE)] V4 { #[bsn1_serde(into = "i16", try_from = "i16")] f0: Even }, #[bsn1_serde(tag_num = 0b1111111111111111111111111111111111111111111111111111111111111111)] V5(#[bsn1_serde(skip)] Vec<i16>) }
impl Enc for F0 {
    fn gen(size: usize) -> Self { let _ = size; match pick(6) { 0 => Self::V0(), 1 => Self::V1(), 2 => Self::V2, 3 => Self::V3(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)), 4 => Self::V4 { f0: Enc::gen(size / 2) }, _ => Self::V5(Enc::gen(size / 2)), } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![176], Self::V2 { .. } => vec![63, 136, 128, 128, 128, 0], Self::V3 { .. } => vec![16], Self::V4 { .. } => vec![144], Self::V5 { .. } => vec![63, 129, 255, 255, 255, 255, 255, 255, 255, 255, 127], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0() => Vec::<u8>::new(), Self::V1() => Vec::<u8>::new(), Self::V2 => Vec::<u8>::new(), Self::V3(f0, f1, f2) => [f1.enc()].concat(), Self::V4 { f0 } => [out_even(f0).enc()].concat(), Self::V5(f0) => Vec::<u8>::new(), } }
}
impl Dec for F0 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); r.end(move || Self::V0()) } else if id == [176] { let mut r = Reading::new(ber, c); r.end(move || Self::V1()) } else if id == [63, 136, 128, 128, 128, 0] { let mut r = Reading::new(ber, c); r.end(move || Self::V2) } else if id == [16] { let mut r = Reading::new(ber, c); let f1 = r.take::<Vec<i16>>().and_then(Some); r.need(f1.is_some()); r.end(move || Self::V3(7u8, f1.unwrap(), Default::default())) } else if id == [144] { let mut r = Reading::new(ber, c); let f0 = r.take::<i16>().and_then(in_even); r.need(f0.is_some()); r.end(move || Self::V4 { f0: f0.unwrap() }) } else if id == [63, 129, 255, 255, 255, 255, 255, 255, 255, 255, 127] { let mut r = Reading::new(ber, c); r.end(move || Self::V5(Default::default())) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum F1 { V0(#[bsn1_serde(into = "i16", try_from = "i16")] Even, Vec<String>, #[bsn1_serde(into = "i16", try_from = "i16")] Even), #[bsn1_serde(tag_num = 0b1111111111111110000000, tag_class = PRIVATE)] V1 }
impl Enc for F1 {
    fn gen(size: usize) -> Self { let _ = size; match pick(2) { 0 => Self::V0(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)), _ => Self::V1, } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![255, 129, 255, 255, 0], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0(f0, f1, f2) => [out_even(f0).enc(), f1.enc(), out_even(f2).enc()].concat(), Self::V1 => Vec::<u8>::new(), } }
}
impl Dec for F1 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); let f0 = r.take::<i16>().and_then(in_even); r.need(f0.is_some()); let f1 = r.take::<Vec<String>>().and_then(Some); r.need(f1.is_some()); let f2 = r.take::<i16>().and_then(in_even); r.need(f2.is_some()); r.end(move || Self::V0(f0.unwrap(), f1.unwrap(), f2.unwrap())) } else if id == [255, 129, 255, 255, 0] { let mut r = Reading::new(ber, c); r.end(move || Self::V1) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum F2 { V0, #[bsn1_serde(tag_num = 65535)] V1 { #[bsn1_serde(skip_deserializing)] f0: u64 }, #[bsn1_serde(tag_num = 0b11101)] V2(u8, u128), #[bsn1_serde(tag_class = PRIVATE, tag_pc = CONSTRUCTED)] V3(OctetString<'static>, A16) }
impl Enc for F2 {
    fn gen(size: usize) -> Self { let _ = size; match pick(4) { 0 => Self::V0, 1 => Self::V1 { f0: Enc::gen(size / 2) }, 2 => Self::V2(Enc::gen(size / 2), Enc::gen(size / 2)), _ => Self::V3(Enc::gen(size / 2), Enc::gen(size / 2)), } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![63, 131, 255, 127], Self::V2 { .. } => vec![61], Self::V3 { .. } => vec![240], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0 => Vec::<u8>::new(), Self::V1 { f0 } => [f0.enc()].concat(), Self::V2(f0, f1) => [f0.enc(), f1.enc()].concat(), Self::V3(f0, f1) => [f0.enc(), f1.enc()].concat(), } }
}
impl Dec for F2 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); r.end(move || Self::V0) } else if id == [63, 131, 255, 127] { let mut r = Reading::new(ber, c); r.end(move || Self::V1 { f0: Default::default() }) } else if id == [61] { let mut r = Reading::new(ber, c); let f0 = r.take::<u8>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<u128>().and_then(Some); r.need(f1.is_some()); r.end(move || Self::V2(f0.unwrap(), f1.unwrap())) } else if id == [240] { let mut r = Reading::new(ber, c); let f0 = r.take::<OctetString<'static>>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<A16>().and_then(Some); r.need(f1.is_some()); r.end(move || Self::V3(f0.unwrap(), f1.unwrap())) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum F3 { V0 { #[bsn1_serde(into = "Vec<u8>", from = "Vec<u8>")] f0: Wrapped }, #[bsn1_serde(tag_class = APPLICATION)] V1(Vec<Vec<u8>>, #[bsn1_serde(into = "i16", try_from = "i16")] Even, A4), #[bsn1_serde(tag_class = CONTEXT_SPECIFIC)] V2 { #[bsn1_serde(to = "to_even", try_from = "i16")] f0: Even, f1: bool }, #[bsn1_serde(tag_num = 8192)] V3(LinkedList<OctetString<'static>>), #[bsn1_serde(id = Set, tag_num = 0b111111111, tag_class = UNIVERSAL)] V4(i8, T9), #[bsn1_serde(tag_pc = PRIMITIVE)] V5 }
impl Enc for F3 {
    fn gen(size: usize) -> Self { let _ = size; match pick(6) { 0 => Self::V0 { f0: Enc::gen(size / 2) }, 1 => Self::V1(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)), 2 => Self::V2 { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2) }, 3 => Self::V3(Enc::gen(size / 2)), 4 => Self::V4(Enc::gen(size / 2), Enc::gen(size / 2)), _ => Self::V5, } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![112], Self::V2 { .. } => vec![176], Self::V3 { .. } => vec![63, 192, 0], Self::V4 { .. } => vec![63, 131, 127], Self::V5 { .. } => vec![16], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0 { f0 } => [out_wrapped(f0).enc()].concat(), Self::V1(f0, f1, f2) => [f0.enc(), out_even(f1).enc(), f2.enc()].concat(), Self::V2 { f0, f1 } => [out_even(f0).enc(), f1.enc()].concat(), Self::V3(f0) => [f0.enc()].concat(), Self::V4(f0, f1) => [f0.enc(), f1.enc()].concat(), Self::V5 => Vec::<u8>::new(), } }
}
impl Dec for F3 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); let f0 = r.take::<Vec<u8>>().and_then(in_wrapped); r.need(f0.is_some()); r.end(move || Self::V0 { f0: f0.unwrap() }) } else if id == [112] { let mut r = Reading::new(ber, c); let f0 = r.take::<Vec<Vec<u8>>>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<i16>().and_then(in_even); r.need(f1.is_some()); let f2 = r.take::<A4>().and_then(Some); r.need(f2.is_some()); r.end(move || Self::V1(f0.unwrap(), f1.unwrap(), f2.unwrap())) } else if id == [176] { let mut r = Reading::new(ber, c); let f0 = r.take::<i16>().and_then(in_even); r.need(f0.is_some()); let f1 = r.take::<bool>().and_then(Some); r.need(f1.is_some()); r.end(move || Self::V2 { f0: f0.unwrap(), f1: f1.unwrap() }) } else if id == [63, 192, 0] { let mut r = Reading::new(ber, c); let f0 = r.take::<LinkedList<OctetString<'static>>>().and_then(Some); r.need(f0.is_some()); r.end(move || Self::V3(f0.unwrap())) } else if id == [63, 131, 127] { let mut r = Reading::new(ber, c); let f0 = r.take::<i8>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<T9>().and_then(Some); r.need(f1.is_some()); r.end(move || Self::V4(f0.unwrap(), f1.unwrap())) } else if id == [16] { let mut r = Reading::new(ber, c); r.end(move || Self::V5) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum F4 { V0, #[bsn1_serde(tag_pc = PRIMITIVE, tag_num = 256)] V1() }
impl Enc for F4 {
    fn gen(size: usize) -> Self { let _ = size; match pick(2) { 0 => Self::V0, _ => Self::V1(), } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![31, 130, 0], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0 => Vec::<u8>::new(), Self::V1() => Vec::<u8>::new(), } }
}
impl Dec for F4 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); r.end(move || Self::V0) } else if id == [31, 130, 0] { let mut r = Reading::new(ber, c); r.end(move || Self::V1()) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum F5 { V0(#[bsn1_serde(into = "u32", from = "u32")] Metres, #[bsn1_serde(into = "i16", try_from = "i16")] Even, BTreeMap<u8, String>), #[bsn1_serde(tag_num = 0x100, tag_pc = PRIMITIVE, tag_class = CONTEXT_SPECIFIC)] V1(), #[bsn1_serde(tag_class = PRIVATE, id = Integer)] V2(#[bsn1_serde(skip_deserializing)] i32), #[bsn1_serde(tag_pc = CONSTRUCTED, id = UTF8String, tag_num = 562949953421311)] V3 {  }, #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_pc = CONSTRUCTED)] V4(#[bsn1_serde(into = "i16", try_from = "i16")] Even, LinkedList<OctetString<'static>>) }
impl Enc for F5 {
    fn gen(size: usize) -> Self { let _ = size; match pick(5) { 0 => Self::V0(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)), 1 => Self::V1(), 2 => Self::V2(Enc::gen(size / 2)), 3 => Self::V3 {  }, _ => Self::V4(Enc::gen(size / 2), Enc::gen(size / 2)), } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![159, 130, 0], Self::V2 { .. } => vec![194], Self::V3 { .. } => vec![63, 255, 255, 255, 255, 255, 255, 127], Self::V4 { .. } => vec![176], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0(f0, f1, f2) => [out_metres(f0).enc(), out_even(f1).enc(), f2.enc()].concat(), Self::V1() => Vec::<u8>::new(), Self::V2(f0) => [f0.enc()].concat(), Self::V3 {  } => Vec::<u8>::new(), Self::V4(f0, f1) => [out_even(f0).enc(), f1.enc()].concat(), } }
}
impl Dec for F5 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); let f0 = r.take::<u32>().and_then(in_metres); r.need(f0.is_some()); let f1 = r.take::<i16>().and_then(in_even); r.need(f1.is_some()); let f2 = r.take::<BTreeMap<u8, String>>().and_then(Some); r.need(f2.is_some()); r.end(move || Self::V0(f0.unwrap(), f1.unwrap(), f2.unwrap())) } else if id == [159, 130, 0] { let mut r = Reading::new(ber, c); r.end(move || Self::V1()) } else if id == [194] { let mut r = Reading::new(ber, c); r.end(move || Self::V2(Default::default())) } else if id == [63, 255, 255, 255, 255, 255, 255, 127] { let mut r = Reading::new(ber, c); r.end(move || Self::V3 {  }) } else if id == [176] { let mut r = Reading::new(ber, c); let f0 = r.take::<i16>().and_then(in_even); r.need(f0.is_some()); let f1 = r.take::<LinkedList<OctetString<'static>>>().and_then(Some); r.need(f1.is_some()); r.end(move || Self::V4(f0.unwrap(), f1.unwrap())) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum F6 { V0(), #[bsn1_serde(tag_class = PRIVATE)] V1(BTreeSet<i32>, #[bsn1_serde(skip_deserializing)] u128), #[bsn1_serde(tag_pc = PRIMITIVE, tag_class = PRIVATE)] V2 { #[bsn1_serde(into = "Vec<u8>", from = "Vec<u8>")] f0: Wrapped }, #[bsn1_serde(id = Set, tag_class = UNIVERSAL, tag_pc = PRIMITIVE)] V3, #[bsn1_serde(tag_num = 0o40000000000, tag_class = PRIVATE)] V4 }
impl Enc for F6 {
    fn gen(size: usize) -> Self { let _ = size; match pick(5) { 0 => Self::V0(), 1 => Self::V1(Enc::gen(size / 2), Enc::gen(size / 2)), 2 => Self::V2 { f0: Enc::gen(size / 2) }, 3 => Self::V3, _ => Self::V4, } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![240], Self::V2 { .. } => vec![208], Self::V3 { .. } => vec![17], Self::V4 { .. } => vec![255, 144, 128, 128, 128, 0], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0() => Vec::<u8>::new(), Self::V1(f0, f1) => [f0.enc(), f1.enc()].concat(), Self::V2 { f0 } => [out_wrapped(f0).enc()].concat(), Self::V3 => Vec::<u8>::new(), Self::V4 => Vec::<u8>::new(), } }
}
impl Dec for F6 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); r.end(move || Self::V0()) } else if id == [240] { let mut r = Reading::new(ber, c); let f0 = r.take::<BTreeSet<i32>>().and_then(Some); r.need(f0.is_some()); r.end(move || Self::V1(f0.unwrap(), Default::default())) } else if id == [208] { let mut r = Reading::new(ber, c); let f0 = r.take::<Vec<u8>>().and_then(in_wrapped); r.need(f0.is_some()); r.end(move || Self::V2 { f0: f0.unwrap() }) } else if id == [17] { let mut r = Reading::new(ber, c); r.end(move || Self::V3) } else if id == [255, 144, 128, 128, 128, 0] { let mut r = Reading::new(ber, c); r.end(move || Self::V4) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum F7 { V0 {  }, #[bsn1_serde(tag_class = PRIVATE, tag_num = 128)] V1, #[bsn1_serde(tag_class = APPLICATION)] V2(#[bsn1_serde(skip_serializing)] i8), #[bsn1_serde(id = UTF8String, tag_class = UNIVERSAL, tag_pc = CONSTRUCTED)] V3(), #[bsn1_serde(tag_num = 16, tag_class = PRIVATE, id = Sequence)] V4, #[bsn1_serde(id = Set, tag_pc = CONSTRUCTED)] V5 }
impl Enc for F7 {
    fn gen(size: usize) -> Self { let _ = size; match pick(6) { 0 => Self::V0 {  }, 1 => Self::V1, 2 => Self::V2(Enc::gen(size / 2)), 3 => Self::V3(), 4 => Self::V4, _ => Self::V5, } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![255, 129, 0], Self::V2 { .. } => vec![112], Self::V3 { .. } => vec![44], Self::V4 { .. } => vec![240], Self::V5 { .. } => vec![49], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0 {  } => Vec::<u8>::new(), Self::V1 => Vec::<u8>::new(), Self::V2(f0) => Vec::<u8>::new(), Self::V3() => Vec::<u8>::new(), Self::V4 => Vec::<u8>::new(), Self::V5 => Vec::<u8>::new(), } }
}
impl Dec for F7 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); r.end(move || Self::V0 {  }) } else if id == [255, 129, 0] { let mut r = Reading::new(ber, c); r.end(move || Self::V1) } else if id == [112] { let mut r = Reading::new(ber, c); let f0 = r.take::<i8>().and_then(Some); r.need(f0.is_some()); r.end(move || Self::V2(f0.unwrap())) } else if id == [44] { let mut r = Reading::new(ber, c); r.end(move || Self::V3()) } else if id == [240] { let mut r = Reading::new(ber, c); r.end(move || Self::V4) } else if id == [49] { let mut r = Reading::new(ber, c); r.end(move || Self::V5) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum F8 { V0(), #[bsn1_serde(tag_pc = CONSTRUCTED, tag_num = 0o40001)] V1(bool) }
impl Enc for F8 {
    fn gen(size: usize) -> Self { let _ = size; match pick(2) { 0 => Self::V0(), _ => Self::V1(Enc::gen(size / 2)), } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![63, 129, 128, 1], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0() => Vec::<u8>::new(), Self::V1(f0) => [f0.enc()].concat(), } }
}
impl Dec for F8 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); r.end(move || Self::V0()) } else if id == [63, 129, 128, 1] { let mut r = Reading::new(ber, c); let f0 = r.take::<bool>().and_then(Some); r.need(f0.is_some()); r.end(move || Self::V1(f0.unwrap())) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum F9 { V0, #[bsn1_serde(tag_num = 4294967296, tag_class = PRIVATE)] V1(), #[bsn1_serde(tag_class = CONTEXT_SPECIFIC)] V2(#[bsn1_serde(skip)] Metres, #[bsn1_serde(default = "seven", skip)] u8, #[bsn1_serde(skip)] bool) }
impl Enc for F9 {
    fn gen(size: usize) -> Self { let _ = size; match pick(3) { 0 => Self::V0, 1 => Self::V1(), _ => Self::V2(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)), } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![255, 144, 128, 128, 128, 0], Self::V2 { .. } => vec![176], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0 => Vec::<u8>::new(), Self::V1() => Vec::<u8>::new(), Self::V2(f0, f1, f2) => Vec::<u8>::new(), } }
}
impl Dec for F9 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); r.end(move || Self::V0) } else if id == [255, 144, 128, 128, 128, 0] { let mut r = Reading::new(ber, c); r.end(move || Self::V1()) } else if id == [176] { let mut r = Reading::new(ber, c); r.end(move || Self::V2(Default::default(), 7u8, Default::default())) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum F10 { V0 { f0: u64, f1: u16 }, #[bsn1_serde(tag_class = CONTEXT_SPECIFIC)] V1 {  }, #[bsn1_serde(tag_class = PRIVATE, tag_pc = CONSTRUCTED)] V2(#[bsn1_serde(into = "String", from = "String")] Name) }
impl Enc for F10 {
    fn gen(size: usize) -> Self { let _ = size; match pick(3) { 0 => Self::V0 { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2) }, 1 => Self::V1 {  }, _ => Self::V2(Enc::gen(size / 2)), } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![176], Self::V2 { .. } => vec![240], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0 { f0, f1 } => [f0.enc(), f1.enc()].concat(), Self::V1 {  } => Vec::<u8>::new(), Self::V2(f0) => [out_name(f0).enc()].concat(), } }
}
impl Dec for F10 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); let f0 = r.take::<u64>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<u16>().and_then(Some); r.need(f1.is_some()); r.end(move || Self::V0 { f0: f0.unwrap(), f1: f1.unwrap() }) } else if id == [176] { let mut r = Reading::new(ber, c); r.end(move || Self::V1 {  }) } else if id == [240] { let mut r = Reading::new(ber, c); let f0 = r.take::<String>().and_then(in_name); r.need(f0.is_some()); r.end(move || Self::V2(f0.unwrap())) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum F11 { V0(), #[bsn1_serde(tag_num = 268435455, tag_class = UNIVERSAL)] V1, #[bsn1_serde(id = UTF8String, tag_pc = CONSTRUCTED)] V2, #[bsn1_serde(tag_class = UNIVERSAL, tag_num = 316912650057057350374175801344)] V3, #[bsn1_serde(tag_pc = PRIMITIVE)] V4(u128, i32) }
impl Enc for F11 {
    fn gen(size: usize) -> Self { let _ = size; match pick(5) { 0 => Self::V0(), 1 => Self::V1, 2 => Self::V2, 3 => Self::V3, _ => Self::V4(Enc::gen(size / 2), Enc::gen(size / 2)), } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![63, 255, 255, 255, 127], Self::V2 { .. } => vec![44], Self::V3 { .. } => vec![63, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0], Self::V4 { .. } => vec![16], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0() => Vec::<u8>::new(), Self::V1 => Vec::<u8>::new(), Self::V2 => Vec::<u8>::new(), Self::V3 => Vec::<u8>::new(), Self::V4(f0, f1) => [f0.enc(), f1.enc()].concat(), } }
}
impl Dec for F11 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); r.end(move || Self::V0()) } else if id == [63, 255, 255, 255, 127] { let mut r = Reading::new(ber, c); r.end(move || Self::V1) } else if id == [44] { let mut r = Reading::new(ber, c); r.end(move || Self::V2) } else if id == [63, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] { let mut r = Reading::new(ber, c); r.end(move || Self::V3) } else if id == [16] { let mut r = Reading::new(ber, c); let f0 = r.take::<u128>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<i32>().and_then(Some); r.need(f1.is_some()); r.end(move || Self::V4(f0.unwrap(), f1.unwrap())) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum F12 { V0, #[bsn1_serde(tag_class = APPLICATION, tag_pc = PRIMITIVE, id = Set)] V1(BTreeMap<u8, String>), #[bsn1_serde(tag_num = 0b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111, tag_pc = PRIMITIVE, tag_class = CONTEXT_SPECIFIC)] V2, #[bsn1_serde(id = Boolean, tag_num = 0o377777777777)] V3 { f0: A16 } }
impl Enc for F12 {
    fn gen(size: usize) -> Self { let _ = size; match pick(4) { 0 => Self::V0, 1 => Self::V1(Enc::gen(size / 2)), 2 => Self::V2, _ => Self::V3 { f0: Enc::gen(size / 2) }, } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![81], Self::V2 { .. } => vec![159, 131, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127], Self::V3 { .. } => vec![31, 255, 255, 255, 255, 127], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0 => Vec::<u8>::new(), Self::V1(f0) => [f0.enc()].concat(), Self::V2 => Vec::<u8>::new(), Self::V3 { f0 } => [f0.enc()].concat(), } }
}
impl Dec for F12 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); r.end(move || Self::V0) } else if id == [81] { let mut r = Reading::new(ber, c); let f0 = r.take::<BTreeMap<u8, String>>().and_then(Some); r.need(f0.is_some()); r.end(move || Self::V1(f0.unwrap())) } else if id == [159, 131, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] { let mut r = Reading::new(ber, c); r.end(move || Self::V2) } else if id == [31, 255, 255, 255, 255, 127] { let mut r = Reading::new(ber, c); let f0 = r.take::<A16>().and_then(Some); r.need(f0.is_some()); r.end(move || Self::V3 { f0: f0.unwrap() }) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum F13 { V0(#[bsn1_serde(skip_deserializing)] u16, u64, bool), #[bsn1_serde(tag_num = 0b1111111, tag_class = CONTEXT_SPECIFIC)] V1(#[bsn1_serde(skip_deserializing)] bool), #[bsn1_serde(tag_pc = PRIMITIVE)] V2 {  }, #[bsn1_serde(tag_num = 0b100000000000000000000000000000000000000000000000000000000, tag_pc = CONSTRUCTED)] V3, #[bsn1_serde(tag_class = UNIVERSAL, tag_num = 664613997892457936451903530140172288)] V4(#[bsn1_serde(skip)] usize, #[bsn1_serde(skip)] String, #[bsn1_serde(skip_serializing)] u16), #[bsn1_serde(id = OctetString, tag_num = 2, tag_class = UNIVERSAL)] V5 { #[bsn1_serde(to = "to_text", try_from = "OctetString<'static>")] f0: Text } }
impl Enc for F13 {
    fn gen(size: usize) -> Self { let _ = size; match pick(6) { 0 => Self::V0(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)), 1 => Self::V1(Enc::gen(size / 2)), 2 => Self::V2 {  }, 3 => Self::V3, 4 => Self::V4(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)), _ => Self::V5 { f0: Enc::gen(size / 2) }, } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![191, 127], Self::V2 { .. } => vec![16], Self::V3 { .. } => vec![63, 129, 128, 128, 128, 128, 128, 128, 128, 0], Self::V4 { .. } => vec![63, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0], Self::V5 { .. } => vec![2], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0(f0, f1, f2) => [f0.enc(), f1.enc(), f2.enc()].concat(), Self::V1(f0) => [f0.enc()].concat(), Self::V2 {  } => Vec::<u8>::new(), Self::V3 => Vec::<u8>::new(), Self::V4(f0, f1, f2) => Vec::<u8>::new(), Self::V5 { f0 } => [out_text(f0).enc()].concat(), } }
}
impl Dec for F13 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); let f1 = r.take::<u64>().and_then(Some); r.need(f1.is_some()); let f2 = r.take::<bool>().and_then(Some); r.need(f2.is_some()); r.end(move || Self::V0(Default::default(), f1.unwrap(), f2.unwrap())) } else if id == [191, 127] { let mut r = Reading::new(ber, c); r.end(move || Self::V1(Default::default())) } else if id == [16] { let mut r = Reading::new(ber, c); r.end(move || Self::V2 {  }) } else if id == [63, 129, 128, 128, 128, 128, 128, 128, 128, 0] { let mut r = Reading::new(ber, c); r.end(move || Self::V3) } else if id == [63, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] { let mut r = Reading::new(ber, c); let f2 = r.take::<u16>().and_then(Some); r.need(f2.is_some()); r.end(move || Self::V4(Default::default(), Default::default(), f2.unwrap())) } else if id == [2] { let mut r = Reading::new(ber, c); let f0 = r.take::<OctetString<'static>>().and_then(in_text); r.need(f0.is_some()); r.end(move || Self::V5 { f0: f0.unwrap() }) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum F14 { V0, #[bsn1_serde(id = OctetString, tag_num = 0o4000000000000000000, tag_pc = PRIMITIVE)] V1(), #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_pc = PRIMITIVE, tag_num = 0o40000000000)] V2, #[bsn1_serde(tag_num = 0b1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000)] V3(u64), #[bsn1_serde(tag_class = APPLICATION, tag_pc = CONSTRUCTED)] V4 { f0: W4, #[bsn1_serde(skip_deserializing)] f1: i128 }, #[bsn1_serde(tag_pc = CONSTRUCTED, tag_num = 63, id = BitString)] V5 }
impl Enc for F14 {
    fn gen(size: usize) -> Self { let _ = size; match pick(6) { 0 => Self::V0, 1 => Self::V1(), 2 => Self::V2, 3 => Self::V3(Enc::gen(size / 2)), 4 => Self::V4 { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2) }, _ => Self::V5, } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![31, 129, 128, 128, 128, 128, 128, 128, 128, 0], Self::V2 { .. } => vec![159, 144, 128, 128, 128, 0], Self::V3 { .. } => vec![63, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0], Self::V4 { .. } => vec![112], Self::V5 { .. } => vec![63, 63], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0 => Vec::<u8>::new(), Self::V1() => Vec::<u8>::new(), Self::V2 => Vec::<u8>::new(), Self::V3(f0) => [f0.enc()].concat(), Self::V4 { f0, f1 } => [f0.enc(), f1.enc()].concat(), Self::V5 => Vec::<u8>::new(), } }
}
impl Dec for F14 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); r.end(move || Self::V0) } else if id == [31, 129, 128, 128, 128, 128, 128, 128, 128, 0] { let mut r = Reading::new(ber, c); r.end(move || Self::V1()) } else if id == [159, 144, 128, 128, 128, 0] { let mut r = Reading::new(ber, c); r.end(move || Self::V2) } else if id == [63, 129, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0] { let mut r = Reading::new(ber, c); let f0 = r.take::<u64>().and_then(Some); r.need(f0.is_some()); r.end(move || Self::V3(f0.unwrap())) } else if id == [112] { let mut r = Reading::new(ber, c); let f0 = r.take::<W4>().and_then(Some); r.need(f0.is_some()); r.end(move || Self::V4 { f0: f0.unwrap(), f1: Default::default() }) } else if id == [63, 63] { let mut r = Reading::new(ber, c); r.end(move || Self::V5) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum F15 { V0(), #[bsn1_serde(tag_num = 0x3fffffffffffffffffffffffffffffff)] V1(i32, #[bsn1_serde(skip_deserializing)] u16), #[bsn1_serde(tag_num = 65536, tag_class = APPLICATION)] V2, #[bsn1_serde(tag_num = 0xffffffffffffffff, tag_class = UNIVERSAL)] V3 { f0: i32 } }
impl Enc for F15 {
    fn gen(size: usize) -> Self { let _ = size; match pick(4) { 0 => Self::V0(), 1 => Self::V1(Enc::gen(size / 2), Enc::gen(size / 2)), 2 => Self::V2, _ => Self::V3 { f0: Enc::gen(size / 2) }, } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![63, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127], Self::V2 { .. } => vec![127, 132, 128, 0], Self::V3 { .. } => vec![63, 129, 255, 255, 255, 255, 255, 255, 255, 255, 127], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0() => Vec::<u8>::new(), Self::V1(f0, f1) => [f0.enc(), f1.enc()].concat(), Self::V2 => Vec::<u8>::new(), Self::V3 { f0 } => [f0.enc()].concat(), } }
}
impl Dec for F15 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); r.end(move || Self::V0()) } else if id == [63, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127] { let mut r = Reading::new(ber, c); let f0 = r.take::<i32>().and_then(Some); r.need(f0.is_some()); r.end(move || Self::V1(f0.unwrap(), Default::default())) } else if id == [127, 132, 128, 0] { let mut r = Reading::new(ber, c); r.end(move || Self::V2) } else if id == [63, 129, 255, 255, 255, 255, 255, 255, 255, 255, 127] { let mut r = Reading::new(ber, c); let f0 = r.take::<i32>().and_then(Some); r.need(f0.is_some()); r.end(move || Self::V3 { f0: f0.unwrap() }) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum F16 { V0 { #[bsn1_serde(into = "i16", try_from = "i16")] f0: Even, #[bsn1_serde(skip, default = "seven")] f1: u8, #[bsn1_serde(skip_serializing)] f2: usize }, #[bsn1_serde(tag_num = 127, tag_class = CONTEXT_SPECIFIC)] V1 { f0: E2 } }
impl Enc for F16 {
    fn gen(size: usize) -> Self { let _ = size; match pick(2) { 0 => Self::V0 { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2) }, _ => Self::V1 { f0: Enc::gen(size / 2) }, } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![191, 127], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0 { f0, f1, f2 } => [out_even(f0).enc()].concat(), Self::V1 { f0 } => [f0.enc()].concat(), } }
}
impl Dec for F16 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); let f0 = r.take::<i16>().and_then(in_even); r.need(f0.is_some()); let f2 = r.take::<usize>().and_then(Some); r.need(f2.is_some()); r.end(move || Self::V0 { f0: f0.unwrap(), f1: 7u8, f2: f2.unwrap() }) } else if id == [191, 127] { let mut r = Reading::new(ber, c); let f0 = r.take::<E2>().and_then(Some); r.need(f0.is_some()); r.end(move || Self::V1 { f0: f0.unwrap() }) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum F17 { V0(u8), #[bsn1_serde(tag_pc = PRIMITIVE, tag_num = 16383)] V1(T12, #[bsn1_serde(skip_deserializing)] i128, Vec<String>), #[bsn1_serde(tag_class = APPLICATION, tag_num = 0x1d)] V2 { f0: i32, #[bsn1_serde(skip_deserializing)] f1: i128, f2: u16 }, #[bsn1_serde(tag_num = 0xc802e, id = Null)] V3(#[bsn1_serde(skip_serializing)] bool, #[bsn1_serde(to = "to_text", try_from = "OctetString<'static>")] Text), #[bsn1_serde(tag_num = 562949953421311, tag_pc = CONSTRUCTED)] V4 }
impl Enc for F17 {
    fn gen(size: usize) -> Self { let _ = size; match pick(5) { 0 => Self::V0(Enc::gen(size / 2)), 1 => Self::V1(Enc::gen(size / 2), Enc::gen(size / 2), Enc::gen(size / 2)), 2 => Self::V2 { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2), f2: Enc::gen(size / 2) }, 3 => Self::V3(Enc::gen(size / 2), Enc::gen(size / 2)), _ => Self::V4, } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![31, 255, 127], Self::V2 { .. } => vec![125], Self::V3 { .. } => vec![31, 178, 128, 46], Self::V4 { .. } => vec![63, 255, 255, 255, 255, 255, 255, 127], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0(f0) => [f0.enc()].concat(), Self::V1(f0, f1, f2) => [f0.enc(), f1.enc(), f2.enc()].concat(), Self::V2 { f0, f1, f2 } => [f0.enc(), f1.enc(), f2.enc()].concat(), Self::V3(f0, f1) => [out_text(f1).enc()].concat(), Self::V4 => Vec::<u8>::new(), } }
}
impl Dec for F17 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); let f0 = r.take::<u8>().and_then(Some); r.need(f0.is_some()); r.end(move || Self::V0(f0.unwrap())) } else if id == [31, 255, 127] { let mut r = Reading::new(ber, c); let f0 = r.take::<T12>().and_then(Some); r.need(f0.is_some()); let f2 = r.take::<Vec<String>>().and_then(Some); r.need(f2.is_some()); r.end(move || Self::V1(f0.unwrap(), Default::default(), f2.unwrap())) } else if id == [125] { let mut r = Reading::new(ber, c); let f0 = r.take::<i32>().and_then(Some); r.need(f0.is_some()); let f2 = r.take::<u16>().and_then(Some); r.need(f2.is_some()); r.end(move || Self::V2 { f0: f0.unwrap(), f1: Default::default(), f2: f2.unwrap() }) } else if id == [31, 178, 128, 46] { let mut r = Reading::new(ber, c); let f0 = r.take::<bool>().and_then(Some); r.need(f0.is_some()); let f1 = r.take::<OctetString<'static>>().and_then(in_text); r.need(f1.is_some()); r.end(move || Self::V3(f0.unwrap(), f1.unwrap())) } else if id == [63, 255, 255, 255, 255, 255, 255, 127] { let mut r = Reading::new(ber, c); r.end(move || Self::V4) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum F18 { V0 { f0: u8, #[bsn1_serde(skip_deserializing)] f1: i128 }, #[bsn1_serde(id = Boolean, tag_pc = PRIMITIVE, tag_num = 0o1000000000000000000000)] V1(), #[bsn1_serde(tag_pc = PRIMITIVE, tag_num = 0o377)] V2(#[bsn1_serde(into = "u32", from = "u32")] Metres), #[bsn1_serde(tag_pc = PRIMITIVE)] V3() }
impl Enc for F18 {
    fn gen(size: usize) -> Self { let _ = size; match pick(4) { 0 => Self::V0 { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2) }, 1 => Self::V1(), 2 => Self::V2(Enc::gen(size / 2)), _ => Self::V3(), } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![31, 129, 128, 128, 128, 128, 128, 128, 128, 128, 0], Self::V2 { .. } => vec![31, 129, 127], Self::V3 { .. } => vec![16], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0 { f0, f1 } => [f0.enc(), f1.enc()].concat(), Self::V1() => Vec::<u8>::new(), Self::V2(f0) => [out_metres(f0).enc()].concat(), Self::V3() => Vec::<u8>::new(), } }
}
impl Dec for F18 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); let f0 = r.take::<u8>().and_then(Some); r.need(f0.is_some()); r.end(move || Self::V0 { f0: f0.unwrap(), f1: Default::default() }) } else if id == [31, 129, 128, 128, 128, 128, 128, 128, 128, 128, 0] { let mut r = Reading::new(ber, c); r.end(move || Self::V1()) } else if id == [31, 129, 127] { let mut r = Reading::new(ber, c); let f0 = r.take::<u32>().and_then(in_metres); r.need(f0.is_some()); r.end(move || Self::V2(f0.unwrap())) } else if id == [16] { let mut r = Reading::new(ber, c); r.end(move || Self::V3()) } else { Nothing } }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum F19 { V0 { #[bsn1_serde(skip_deserializing)] f0: u128, f1: u64 }, #[bsn1_serde(tag_pc = PRIMITIVE)] V1 {  } }
impl Enc for F19 {
    fn gen(size: usize) -> Self { let _ = size; match pick(2) { 0 => Self::V0 { f0: Enc::gen(size / 2), f1: Enc::gen(size / 2) }, _ => Self::V1 {  }, } }
    fn many(_: usize) -> usize { pick(4) }
    fn id(&self) -> Vec<u8> { match self { Self::V0 { .. } => vec![48], Self::V1 { .. } => vec![16], } }
    fn contents(&self) -> Vec<u8> { match self { Self::V0 { f0, f1 } => [f0.enc(), f1.enc()].concat(), Self::V1 {  } => Vec::<u8>::new(), } }
}
impl Dec for F19 {
    fn dec(ber: bool, id: &[u8], indefinite: bool, c: &[u8]) -> Meaning<Self> { let _ = (ber, indefinite, c); if id == [48] { let mut r = Reading::new(ber, c); let f1 = r.take::<u64>().and_then(Some); r.need(f1.is_some()); r.end(move || Self::V0 { f0: Default::default(), f1: f1.unwrap() }) } else if id == [16] { let mut r = Reading::new(ber, c); r.end(move || Self::V1 {  }) } else { Nothing } }
}

/// Calls `$f::<T>($n)` for each of them.
#[macro_export]
macro_rules! for_shapes {
    ($f:ident $n:expr) => {{
        use $crate::shapes::*;
        $f::<N0>($n);
        $f::<N1>($n);
        $f::<N2>($n);
        $f::<N3>($n);
        $f::<N4>($n);
        $f::<N5>($n);
        $f::<N6>($n);
        $f::<N7>($n);
        $f::<N8>($n);
        $f::<N9>($n);
        $f::<N10>($n);
        $f::<N11>($n);
        $f::<N12>($n);
        $f::<N13>($n);
        $f::<N14>($n);
        $f::<N15>($n);
        $f::<N16>($n);
        $f::<N17>($n);
        $f::<N18>($n);
        $f::<N19>($n);
        $f::<N20>($n);
        $f::<N21>($n);
        $f::<N22>($n);
        $f::<N23>($n);
        $f::<N24>($n);
        $f::<N25>($n);
        $f::<N26>($n);
        $f::<N27>($n);
        $f::<N28>($n);
        $f::<N29>($n);
        $f::<N30>($n);
        $f::<N31>($n);
        $f::<N32>($n);
        $f::<N33>($n);
        $f::<N34>($n);
        $f::<N35>($n);
        $f::<N36>($n);
        $f::<N37>($n);
        $f::<N38>($n);
        $f::<N39>($n);
        $f::<N40>($n);
        $f::<N41>($n);
        $f::<N42>($n);
        $f::<N43>($n);
        $f::<N44>($n);
        $f::<N45>($n);
        $f::<N46>($n);
        $f::<N47>($n);
        $f::<N48>($n);
        $f::<N49>($n);
        $f::<N50>($n);
        $f::<N51>($n);
        $f::<N52>($n);
        $f::<N53>($n);
        $f::<N54>($n);
        $f::<N55>($n);
        $f::<N56>($n);
        $f::<N57>($n);
        $f::<N58>($n);
        $f::<A0>($n);
        $f::<A1>($n);
        $f::<A2>($n);
        $f::<A3>($n);
        $f::<A4>($n);
        $f::<A5>($n);
        $f::<A6>($n);
        $f::<A7>($n);
        $f::<A8>($n);
        $f::<A9>($n);
        $f::<A10>($n);
        $f::<A11>($n);
        $f::<A12>($n);
        $f::<A13>($n);
        $f::<A14>($n);
        $f::<A15>($n);
        $f::<A16>($n);
        $f::<A17>($n);
        $f::<A18>($n);
        $f::<A19>($n);
        $f::<E0>($n);
        $f::<E1>($n);
        $f::<E2>($n);
        $f::<E3>($n);
        $f::<E4>($n);
        $f::<E5>($n);
        $f::<E6>($n);
        $f::<E7>($n);
        $f::<E8>($n);
        $f::<E9>($n);
        $f::<E10>($n);
        $f::<E11>($n);
        $f::<E12>($n);
        $f::<E13>($n);
        $f::<T0>($n);
        $f::<T1>($n);
        $f::<T2>($n);
        $f::<T3>($n);
        $f::<T4>($n);
        $f::<T5>($n);
        $f::<T6>($n);
        $f::<T7>($n);
        $f::<T8>($n);
        $f::<T9>($n);
        $f::<T10>($n);
        $f::<T11>($n);
        $f::<T12>($n);
        $f::<T13>($n);
        $f::<T14>($n);
        $f::<T15>($n);
        $f::<T16>($n);
        $f::<T17>($n);
        $f::<T18>($n);
        $f::<T19>($n);
        $f::<W0>($n);
        $f::<W1>($n);
        $f::<W2>($n);
        $f::<W3>($n);
        $f::<W4>($n);
        $f::<W5>($n);
        $f::<W6>($n);
        $f::<W7>($n);
        $f::<B0>($n);
        $f::<B1>($n);
        $f::<B2>($n);
        $f::<B3>($n);
        $f::<B4>($n);
        $f::<B5>($n);
        $f::<B6>($n);
        $f::<B7>($n);
        $f::<B8>($n);
        $f::<B9>($n);
        $f::<B10>($n);
        $f::<B11>($n);
        $f::<B12>($n);
        $f::<B13>($n);
        $f::<B14>($n);
        $f::<B15>($n);
        $f::<B16>($n);
        $f::<B17>($n);
        $f::<B18>($n);
        $f::<B19>($n);
        $f::<F0>($n);
        $f::<F1>($n);
        $f::<F2>($n);
        $f::<F3>($n);
        $f::<F4>($n);
        $f::<F5>($n);
        $f::<F6>($n);
        $f::<F7>($n);
        $f::<F8>($n);
        $f::<F9>($n);
        $f::<F10>($n);
        $f::<F11>($n);
        $f::<F12>($n);
        $f::<F13>($n);
        $f::<F14>($n);
        $f::<F15>($n);
        $f::<F16>($n);
        $f::<F17>($n);
        $f::<F18>($n);
        $f::<F19>($n);
    }};
}
