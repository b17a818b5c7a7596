//! Contracts for bsn1 and bsn1_serde.
//!
//! Every item declared with `contracts!` is one obligation: it draws arbitrary arguments (`any`),
//! assumes the precondition (`assume`), calls the real code, and asserts the postcondition against
//! the specification functions in `spec`. Under Kani the obligation is decided for all values.
//! Natively the same text runs on concrete values (counterexample replay, bounded sweeps).
#![recursion_limit = "1024"]
#![allow(clippy::all)]

#[macro_use]
pub mod sym;
pub mod spec;
pub mod specbuf;
pub mod stubs;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
#[cfg(feature = "serde")]
#[macro_use]
pub mod refs;
#[cfg(feature = "serde")]
pub mod c12;
#[cfg(feature = "serde")]
pub mod parts;
#[cfg(feature = "serde")]
pub mod c13;
#[cfg(feature = "serde")]
pub mod c14;
#[cfg(feature = "serde")]
pub mod conversions;
#[cfg(feature = "serde")]
#[macro_use]
pub mod shapes;
#[cfg(feature = "serde")]
pub mod c15;
#[cfg(feature = "serde")]
pub mod c16;
#[cfg(feature = "serde")]
pub mod model;

/// Name, body, and the cfg without which it has no meaning to the verifier.
pub type Entry = (&'static str, fn(), &'static str);

pub fn registry() -> Vec<Entry> {
    let mut v = Vec::new();
    v.extend_from_slice(c01::ALL);
    v.extend_from_slice(c01::VALUES);
    v.extend_from_slice(c02::ALL);
    v.extend_from_slice(c03::ALL);
    v.extend_from_slice(c04::ALL);
    v.extend_from_slice(c04::OWNED);
    v.extend_from_slice(c05::ALL);
    v.extend_from_slice(c06::ALL);
    v.extend_from_slice(c07::ALL);
    v.extend_from_slice(c07::NESTED);
    v.extend_from_slice(c07::LENGTH);
    v.extend_from_slice(c08::ALL);
    v.extend_from_slice(c08::PIECES);
    v.extend_from_slice(c08::APART);
    v.extend_from_slice(c09::ALL);
    v.extend_from_slice(c09::LONG_ID);
    v.extend_from_slice(c09::STEPS);
    v.extend_from_slice(c10::native::ALL);
    #[cfg(vc_universal)]
    v.extend_from_slice(c10::portable::ALL);
    v.extend_from_slice(c10::outer::ALL);
    v.extend_from_slice(c11::ALL);
    v.extend_from_slice(c11::CONVERT);
    v.extend_from_slice(c11::VECTORS);
    #[cfg(feature = "serde")]
    serde_registry(&mut v);
    v
}

#[cfg(feature = "serde")]
fn serde_registry(v: &mut Vec<Entry>) {
    v.extend_from_slice(c12::leaf::ALL);
    v.extend_from_slice(c12::text::ALL);
    v.extend_from_slice(c12::ALL);
    v.extend_from_slice(c12::lists::ALL);
    v.extend_from_slice(c13::leaf::ALL);
    v.extend_from_slice(c13::text::ALL);
    v.extend_from_slice(c13::entry::ALL);
    v.extend_from_slice(c14::leaf::ALL);
    v.extend_from_slice(c14::other::ALL);
    v.extend_from_slice(c14::lists::ALL);
    v.extend_from_slice(c14::lists::TREES);
    #[cfg(vc_attr)]
    v.extend_from_slice(c15::ident::ALL);
    v.extend_from_slice(c15::proofs::ALL);
    v.extend_from_slice(c16::proofs::ALL);
}

#[cfg(not(kani))]
pub fn sweeps() -> Vec<Entry> {
    let mut v = Vec::new();
    v.extend_from_slice(c06::SWEEPS);
    v.extend_from_slice(c07::SWEEPS);
    v.extend_from_slice(c08::SWEEPS);
    v.extend_from_slice(c09::SWEEPS);
    v.extend_from_slice(c10::native::SWEEPS);
    #[cfg(vc_universal)]
    v.extend_from_slice(c10::portable::SWEEPS);
    v.extend_from_slice(c11::SWEEPS);
    #[cfg(feature = "serde")]
    {
        v.extend_from_slice(c12::SWEEPS);
        v.extend_from_slice(c13::SWEEPS);
        v.extend_from_slice(c14::SWEEPS);
        v.extend_from_slice(c15::SWEEPS);
        v.extend_from_slice(c16::SWEEPS);
    }
    v
}
