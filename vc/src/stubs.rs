//! Contracts in place of bodies, for proofs of their callers. Each names the obligations that prove
//! the body against it.
#![cfg(kani)]
use crate::c07::Stream;
use crate::spec;
use bsn1::{Buffer, DerRef, Error, IdRef, Length};
use std::io::{Read, Write};

/// `bsn1::misc::parse_id_length` on a byte slice and a sink; proved by `c05::parse_any` (through
/// `DerRef::parse`, its other caller with these types) and `c03`, `c04`.
///
/// # Safety
///
/// `R` is `&[u8]`.
pub unsafe fn parse_id_length<R, W>(readable: &mut R, _writeable: &mut W) -> Result<Length, Error>
where
    R: ?Sized + Read,
    W: ?Sized + Write,
{
    let r: &mut &[u8] = &mut *(readable as *mut R as *mut &[u8]);
    if let Some(i) = spec::id_len(r) {
        if let Some((v, l)) = spec::len_octets(&r[i..]) {
            *r = &r[i + l..];
            return Ok(match v {
                None => Length::Indefinite,
                Some(n) => Length::Definite(n),
            });
        }
    }
    *r = &r[r.len()..];
    Err(Error::UnterminatedBytes)
}

/// The same for inputs whose identifiers and lengths are one octet each, as the harness ensures.
///
/// # Safety
///
/// `R` is `&[u8]`.
pub unsafe fn parse_id_length_short<R, W>(readable: &mut R, _writeable: &mut W) -> Result<Length, Error>
where
    R: ?Sized + Read,
    W: ?Sized + Write,
{
    let r: &mut &[u8] = &mut *(readable as *mut R as *mut &[u8]);
    let b = *r;
    if b.len() >= 2 {
        *r = &b[2..];
        return Ok(if b[1] == 0x80 { Length::Indefinite } else { Length::Definite(b[1] as usize) });
    }
    *r = &b[b.len()..];
    Err(Error::UnterminatedBytes)
}

/// Contents size of the value at hand, set by the obligation.
// Unlike every constant: see `sym::watermark`.
pub static mut GHOST_LENGTH: usize = 0x5eed_9057_0000_0001;

/// `DerRef::id` for a one-octet identifier; proved by `c08::apart::der_apart`.
pub fn der_id(d: &DerRef) -> &IdRef {
    let o: &[u8] = d.as_ref();
    unsafe { IdRef::from_bytes_unchecked(&o[..1]) }
}

/// `DerRef::length` of a value with the given size; proved by `c08::apart::der_apart`.
pub fn der_length(_d: &DerRef) -> Length {
    Length::Definite(unsafe { GHOST_LENGTH })
}

/// `bsn1::misc::parse_id_length` on a stream and a buffer, reading a header of two octets that
/// announces `GHOST_LENGTH` octets; proved by `c07::der_header`.
///
/// # Safety
///
/// `R` is `c07::Stream`, and `W` is `bsn1::Buffer`.
pub unsafe fn parse_id_length_announced<R, W>(readable: &mut R, writeable: &mut W) -> Result<Length, Error>
where
    R: ?Sized + Read,
    W: ?Sized + Write,
{
    let s: &mut Stream = &mut *(readable as *mut R as *mut Stream);
    let w: &mut Buffer = &mut *(writeable as *mut W as *mut Buffer);
    if s.good() < 2 {
        s.at = s.good();
        return Err(Error::UnterminatedBytes);
    }
    w.reserve(2);
    w.push(s.head[0]);
    w.push(s.head[1]);
    s.at = 2;
    Ok(Length::Definite(GHOST_LENGTH))
}

/// The same for identifiers and lengths of one octet each within the head, as the harness ensures.
///
/// # Safety
///
/// `R` is `c07::Stream`, and `W` is `bsn1::Buffer`.
pub unsafe fn parse_id_length_stream_short<R, W>(readable: &mut R, writeable: &mut W) -> Result<Length, Error>
where
    R: ?Sized + Read,
    W: ?Sized + Write,
{
    let s: &mut Stream = &mut *(readable as *mut R as *mut Stream);
    let w: &mut Buffer = &mut *(writeable as *mut W as *mut Buffer);
    if s.good() - s.at < 2 {
        s.at = s.good();
        return Err(Error::UnterminatedBytes);
    }
    let (i, l) = (s.head[s.at], s.head[s.at + 1]);
    w.reserve(2);
    w.push(i);
    w.push(l);
    s.at += 2;
    Ok(if l == 0x80 { Length::Indefinite } else { Length::Definite(l as usize) })
}

/// Notes the size asked for, and reads nothing.
pub fn read_no_contents<R>(_readable: &mut R, _writeable: &mut Buffer, length: usize) -> std::io::Result<()>
where
    R: ?Sized + Read,
{
    unsafe { GHOST_LENGTH = length };
    Ok(())
}

/// `bsn1::misc::read_contents` on a stream; proved by `c07::der_contents`. `R` is `c07::Stream`.
pub fn read_contents<R>(readable: &mut R, writeable: &mut Buffer, length: usize) -> std::io::Result<()>
where
    R: ?Sized + Read,
{
    let s: &mut Stream = unsafe { &mut *(readable as *mut R as *mut Stream) };
    if length > s.good() - s.at {
        s.at = s.good();
        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof));
    }
    if length > 0 {
        let n = writeable.len();
        writeable.reserve(length);
        unsafe { writeable.set_len(n + length) };
        s.read_exact(&mut writeable.as_mut_slice()[n..])?;
    }
    Ok(())
}

/// An error from another library: what is in it is outside every property. It is never looked into
/// and never dropped.
#[cfg(all(kani, feature = "serde"))]
pub fn anyhow_new<E>(_e: E) -> anyhow::Error
where
    E: std::error::Error + Send + Sync + 'static,
{
    unsafe { std::mem::transmute(std::ptr::NonNull::<usize>::dangling()) }
}
