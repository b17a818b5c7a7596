//! C15: the identifier octets an annotation declares.
//!
//! `Attribute::id` is part of the compiler plug-in and cannot be linked against. Its text is taken
//! from the source on every run; the types below have the fields it reads.
use crate::spec;
use crate::spec::same;
use crate::sym::*;

struct AttrArgument<T> {
    val: T,
}

struct Attribute {
    id_: Option<AttrArgument<u8>>,
    tag_class: Option<AttrArgument<u8>>,
    tag_pc: Option<AttrArgument<u8>>,
    tag_num: Option<AttrArgument<u128>>,
}

/// The tokens of an array of octets.
struct TokenStream(Vec<u8>);

macro_rules! quote {
    ([ # ( # $octets:ident ) , * ]) => {
        TokenStream($octets)
    };
}

include!(concat!(env!("VC_EXTRACT"), "/attribute_id.rs"));

fn maybe<T>(v: T) -> Option<AttrArgument<T>> {
    if any() {
        Some(AttrArgument { val: v })
    } else {
        None
    }
}

contracts! {
    #[kani::unwind(22)]
    fn declared() {
        let default_id: u8 = any();
        let (id, class, form, number): (u8, u8, bool, u128) = (any(), any::<u8>() & 3, any(), any());
        let a = Attribute {
            id_: maybe(id),
            tag_class: maybe(class << 6),
            tag_pc: maybe((form as u8) << 5),
            tag_num: maybe(number),
        };
        let base = if a.id_.is_some() { id } else { default_id };
        // the leading octet of a longer identifier does not stand alone
        assume(base & 0x1f != 0x1f);
        let got = a.id(default_id);

        let c = if a.tag_class.is_some() { class } else { base >> 6 };
        let f = if a.tag_pc.is_some() { form } else { base & 0x20 != 0 };
        let n = if a.tag_num.is_some() { number } else { (base & 0x1f) as u128 };
        let declared = a.id_.is_some() || a.tag_class.is_some() || a.tag_pc.is_some() || a.tag_num.is_some();
        match got {
            None => assert!(!declared),
            Some(TokenStream(octets)) => {
                assert!(declared);
                let (want, k) = spec::id_encode(c, f, n);
                assert!(octets.len() == k);
                assert!(same(&octets, &want[..k]));
                cover!(k == 1);
                cover!(k == 2);
                cover!(k == 20);
                std::mem::forget(octets);
            }
        }
    }
}
