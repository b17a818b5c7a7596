//! C01: INTEGER.
use crate::sym::*;
use bsn1::{Ber, Contents, ContentsRef, Der};

/// A primitive integer: its sign and its two's complement octets, most significant first.
pub trait Int: Copy + PartialEq + Sym {
    const SIZE: usize;
    const SIGNED: bool;
    fn encode(self) -> Contents;
    fn decode(c: &ContentsRef) -> Option<Self>;
    fn decode_unchecked(c: &ContentsRef) -> Self;
    fn values(self) -> (Der, Ber);
    fn negative(self) -> bool;
    /// Octet `i` of the infinite two's complement form, counted from the least significant.
    fn octet(self, i: usize) -> u8;
}

macro_rules! ints {
    ($($t:ident $signed:expr;)*) => {$(
        impl Int for $t {
            const SIZE: usize = std::mem::size_of::<$t>();
            const SIGNED: bool = $signed;
            fn encode(self) -> Contents {
                Contents::from(self)
            }
            fn decode(c: &ContentsRef) -> Option<Self> {
                let r = c.to_integer::<$t>();
                let v = match &r {
                    Ok(v) => Some(*v),
                    Err(_) => None,
                };
                std::mem::forget(r);
                v
            }
            fn decode_unchecked(c: &ContentsRef) -> Self {
                unsafe { c.to_integer_unchecked::<$t>() }
            }
            fn values(self) -> (Der, Ber) {
                (Der::from(self), Ber::from(self))
            }
            #[allow(unused_comparisons)]
            fn negative(self) -> bool {
                self < 0
            }
            fn octet(self, i: usize) -> u8 {
                if i < Self::SIZE {
                    self.to_le_bytes()[i]
                } else if self.negative() {
                    0xff
                } else {
                    0x00
                }
            }
        }
    )*};
}
ints! {
    i8 true; u8 false; i16 true; u16 false; i32 true; u32 false; i64 true; u64 false;
    i128 true; u128 false; isize true; usize false;
}

/// `b` denotes `v`: every octet of the sign-extended form agrees.
pub fn denotes<T: Int>(b: &[u8], v: T) -> bool {
    let n = b.len();
    if n == 0 || n > T::SIZE + 1 {
        return false;
    }
    let fill = if b[0] & 0x80 != 0 { 0xff } else { 0x00 };
    let mut i = 0;
    while i <= T::SIZE {
        let o = if i < n { b[n - 1 - i] } else { fill };
        if o != v.octet(i) {
            return false;
        }
        i += 1;
    }
    true
}

/// Shortest form (8.3.2): the first nine bits are neither all ones nor all zero.
pub fn shortest(b: &[u8]) -> bool {
    b.len() == 1
        || (b.len() > 1 && !(b[0] == 0 && b[1] & 0x80 == 0) && !(b[0] == 0xff && b[1] & 0x80 != 0))
}

fn encode<T: Int>() {
    let v: T = any();
    let c = v.encode();
    let b: &[u8] = c.as_ref();
    assert!(b.len() >= 1 && b.len() <= T::SIZE + 1);
    assert!(shortest(b));
    assert!(denotes(b, v));
    cover!(b.len() == T::SIZE);
    // decoding inverts it
    match T::decode(&c) {
        Some(w) => assert!(w == v),
        None => assert!(false),
    }
    std::mem::forget(c);
}

/// Octets of any size up to two more than the widest valid one.
fn decode<T: Int, const N: usize>() {
    let a: [u8; N] = any();
    let n = any_upto(N);
    decode_one::<T>(&a[..n]);
}

fn decode_one<T: Int>(b: &[u8]) {
    let c: &ContentsRef = b.into();
    match T::decode(c) {
        Some(v) => {
            assert!(shortest(b));
            assert!(denotes(b, v));
            assert!(T::decode_unchecked(c) == v);
            cover!(b.len() == T::SIZE);
        }
        None => {
            // no number of this type has these octets as its shortest form
            if shortest(b) && b.len() <= T::SIZE {
                assert!(!T::SIGNED && b[0] & 0x80 != 0);
            }
            if shortest(b) && b.len() == T::SIZE + 1 {
                assert!(T::SIGNED || b[0] != 0);
            }
            cover!(b.len() == T::SIZE + 1);
        }
    }
}

/// Octet strings of any size whatever: nothing but the size and the first octets can matter.
fn decode_long<T: Int>() {
    let b = any_huge(T::SIZE + 2);
    let c: &ContentsRef = b.into();
    assert!(T::decode(c).is_none());
    cover!(true);
}

/// DER and BER values made from a number.
pub fn value<T: Int>() {
    let v: T = any();
    let (d, b) = v.values();
    {
        let o: &[u8] = d.as_ref();
        let n = o.len();
        assert!(n >= 3 && n <= T::SIZE + 3);
        assert!(o[0] == 0x02 && o[1] as usize == n - 2);
        assert!(shortest(&o[2..]) && denotes(&o[2..], v));
        let p: &[u8] = b.as_ref();
        assert!(crate::spec::same(o, p));
        cover!(n == T::SIZE + 2);
    }
    std::mem::forget((d, b));
}

contracts! {
    #[kani::unwind(6)] fn enc_i8() { encode::<i8>() }
    #[kani::unwind(6)] fn dec_i8() { decode::<i8, 4>() }
    #[kani::unwind(18)] fn long_i8() { decode_long::<i8>() }
    #[kani::unwind(6)] fn enc_u8() { encode::<u8>() }
    #[kani::unwind(6)] fn dec_u8() { decode::<u8, 4>() }
    #[kani::unwind(18)] fn long_u8() { decode_long::<u8>() }
    #[kani::unwind(7)] fn enc_i16() { encode::<i16>() }
    #[kani::unwind(7)] fn dec_i16() { decode::<i16, 5>() }
    #[kani::unwind(18)] fn long_i16() { decode_long::<i16>() }
    #[kani::unwind(7)] fn enc_u16() { encode::<u16>() }
    #[kani::unwind(7)] fn dec_u16() { decode::<u16, 5>() }
    #[kani::unwind(18)] fn long_u16() { decode_long::<u16>() }
    #[kani::unwind(9)] fn enc_i32() { encode::<i32>() }
    #[kani::unwind(9)] fn dec_i32() { decode::<i32, 7>() }
    #[kani::unwind(18)] fn long_i32() { decode_long::<i32>() }
    #[kani::unwind(9)] fn enc_u32() { encode::<u32>() }
    #[kani::unwind(9)] fn dec_u32() { decode::<u32, 7>() }
    #[kani::unwind(18)] fn long_u32() { decode_long::<u32>() }
    #[kani::unwind(13)] fn enc_i64() { encode::<i64>() }
    #[kani::unwind(13)] fn dec_i64() { decode::<i64, 11>() }
    #[kani::unwind(18)] fn long_i64() { decode_long::<i64>() }
    #[kani::unwind(13)] fn enc_u64() { encode::<u64>() }
    #[kani::unwind(13)] fn dec_u64() { decode::<u64, 11>() }
    #[kani::unwind(18)] fn long_u64() { decode_long::<u64>() }
    #[kani::unwind(21)] fn enc_i128() { encode::<i128>() }
    #[kani::unwind(21)] fn dec_i128() { decode::<i128, 19>() }
    #[kani::unwind(21)] fn long_i128() { decode_long::<i128>() }
    #[kani::unwind(21)] fn enc_u128() { encode::<u128>() }
    #[kani::unwind(21)] fn dec_u128() { decode::<u128, 19>() }
    #[kani::unwind(21)] fn long_u128() { decode_long::<u128>() }
    #[kani::unwind(13)] fn enc_isize() { encode::<isize>() }
    #[kani::unwind(13)] fn dec_isize() { decode::<isize, 11>() }
    #[kani::unwind(18)] fn long_isize() { decode_long::<isize>() }
    #[kani::unwind(13)] fn enc_usize() { encode::<usize>() }
    #[kani::unwind(13)] fn dec_usize() { decode::<usize, 11>() }
    #[kani::unwind(18)] fn long_usize() { decode_long::<usize>() }
}

contracts_over_buffer! { VALUES:
    #[kani::unwind(6)]
    #[kani::stub(bsn1::Der::new, crate::c08::der_new_contract)]
    fn val_i8() { value::<i8>() }
    #[kani::unwind(6)]
    #[kani::stub(bsn1::Der::new, crate::c08::der_new_contract)]
    fn val_u8() { value::<u8>() }
    #[kani::unwind(7)]
    #[kani::stub(bsn1::Der::new, crate::c08::der_new_contract)]
    fn val_i16() { value::<i16>() }
    #[kani::unwind(7)]
    #[kani::stub(bsn1::Der::new, crate::c08::der_new_contract)]
    fn val_u16() { value::<u16>() }
    #[kani::unwind(9)]
    #[kani::stub(bsn1::Der::new, crate::c08::der_new_contract)]
    fn val_i32() { value::<i32>() }
    #[kani::unwind(9)]
    #[kani::stub(bsn1::Der::new, crate::c08::der_new_contract)]
    fn val_u32() { value::<u32>() }
    #[kani::unwind(13)]
    #[kani::stub(bsn1::Der::new, crate::c08::der_new_contract)]
    fn val_i64() { value::<i64>() }
    #[kani::unwind(13)]
    #[kani::stub(bsn1::Der::new, crate::c08::der_new_contract)]
    fn val_u64() { value::<u64>() }
    #[kani::unwind(21)]
    #[kani::stub(bsn1::Der::new, crate::c08::der_new_contract)]
    fn val_i128() { value::<i128>() }
    #[kani::unwind(21)]
    #[kani::stub(bsn1::Der::new, crate::c08::der_new_contract)]
    fn val_u128() { value::<u128>() }
    #[kani::unwind(13)]
    #[kani::stub(bsn1::Der::new, crate::c08::der_new_contract)]
    fn val_isize() { value::<isize>() }
    #[kani::unwind(13)]
    #[kani::stub(bsn1::Der::new, crate::c08::der_new_contract)]
    fn val_usize() { value::<usize>() }
}
