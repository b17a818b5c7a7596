//! C07: parsing from a stream. The reader delivers the octets in pieces of arbitrary sizes and may
//! fail at an arbitrary point.
use crate::spec;
use crate::sym::*;
use bsn1::{Ber, Der, Id, Length};
use std::io::{Error, ErrorKind, Read};

/// A reader of `n` octets: the first are `head`; further ones are arbitrary but for the one at `w`,
/// which is `v`. `w` stands for every place.
pub struct Stream {
    pub head: [u8; HEAD],
    pub n: usize,
    pub at: usize,
    /// Where reading fails, if before the end.
    pub fail: usize,
    w: usize,
    v: u8,
}

pub const HEAD: usize = 12;

impl Stream {
    fn any(n: usize) -> Self {
        let head: [u8; HEAD] = any();
        let fail = if any() { n + 1 } else { any_upto(n) };
        let w = any_upto(if n > 0 { n - 1 } else { 0 });
        let v = if w < HEAD { head[w] } else { any() };
        Self { head, n, at: 0, fail, w, v }
    }

    /// How many octets can be had.
    pub fn good(&self) -> usize {
        self.fail.min(self.n)
    }

    /// Those of the head that can be had.
    pub fn good_head(&self) -> &[u8] {
        &self.head[..self.good().min(HEAD)]
    }
}

impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.at == self.fail {
            return Err(Error::from(ErrorKind::PermissionDenied));
        }
        let most = buf.len().min(self.good() - self.at);
        if most == 0 {
            return Ok(0);
        }
        let n = 1 + any_upto(most - 1);
        if buf.len() == 1 {
            buf[0] = if self.at < HEAD { self.head[self.at] } else { any() };
        }
        #[cfg(not(kani))]
        for i in 0..n {
            buf[i] = if self.at + i < HEAD { self.head[self.at + i] } else { 0x5a };
        }
        if self.at <= self.w && self.w < self.at + n {
            buf[self.w - self.at] = self.v;
        }
        self.at += n;
        Ok(n)
    }

    /// What the standard library promises, for a reader that is no slice: everything asked for, or
    /// an error. (`streams` runs the provided method.)
    #[cfg(kani)]
    fn read_exact(&mut self, buf: &mut [u8]) -> std::io::Result<()> {
        let n = buf.len();
        if n > self.good() - self.at {
            self.at = self.good();
            return Err(Error::from(ErrorKind::UnexpectedEof));
        }
        if self.at <= self.w && self.w < self.at + n {
            buf[self.w - self.at] = self.v;
        }
        self.at += n;
        Ok(())
    }
}

/// What parsing gave against what it should give.
fn agrees<T: AsRef<[u8]>>(got: &Result<T, bsn1::Error>, want: Option<usize>, s: &Stream) {
    match (got, want) {
        (Ok(v), Some(n)) => {
            let o = v.as_ref();
            assert!(o.len() == n && s.at == n);
            assert!(s.w >= n || o[s.w] == s.v);
        }
        (Err(_), None) => {}
        (Ok(_), None) => panic!("accepted"),
        (Err(_), Some(_)) => panic!("rejected"),
    }
}

/// Size of the value with a definite length the stream begins with; its header is in the head.
fn der_total(s: &Stream) -> Option<usize> {
    let b = s.good_head();
    let i = spec::id_len(b)?;
    let (v, l) = spec::len_octets(&b[i..])?;
    let c = v?;
    if c > s.good() - i - l {
        return None;
    }
    Some(i + l + c)
}

/// Everything in front of the contents.
fn header() {
    let mut s = Stream::any(any_upto(HEAD));
    assume(id_upto_3(&s));
    let b = s.good_head();
    let want = match spec::id_len(b) {
        None => None,
        Some(i) => match spec::len_octets(&b[i..]) {
            Some((Some(c), l)) => Some((i + l, c)),
            _ => None,
        },
    };
    #[cfg(not(kani))]
    assume(matches!(want, Some((_, 0)) | None));
    let r = Der::parse(&mut s);
    match (&r, want) {
        (Ok(d), Some((h, _c))) => {
            let o: &[u8] = d.as_ref();
            assert!(o.len() == h && s.at == h);
            assert!(s.w >= h || o[s.w] == s.v);
            #[cfg(kani)]
            assert!(unsafe { crate::stubs::GHOST_LENGTH } == _c);
        }
        (Err(_), None) => {}
        _ => panic!("differs"),
    }
    cover!(r.is_ok() && s.at > 1 && s.at < s.n);
    std::mem::forget(r);
}

/// The contents, of any announced size.
macro_rules! contents {
    ($T:ident) => {{
        let mut s = Stream::any(any_upto(SIZE));
        let c = announced(&s);
        largest_clear();
        let r = $T::parse(&mut s);
        agrees(&r, if s.good() >= 2 && c <= s.good() - 2 { Some(2 + c) } else { None }, &s);
        assert!(largest() <= 1 << 26);
        cover!(r.is_ok() && s.at < s.n);
        cover!(r.is_ok() && s.at + 10 > SIZE);
        std::mem::forget(r);
    }};
}

contracts_over_buffer! { once ALL:
    #[kani::unwind(10)]
    fn id() {
        let mut s = Stream::any(any_upto(8));
        let r = Id::parse(&mut s);
        agrees(&r, spec::id_len(s.good_head()), &s);
        cover!(r.is_ok() && s.at < s.n);
        cover!(r.is_err() && spec::id_len(&s.head[..s.n]).is_some());
        std::mem::forget(r);
    }

    #[kani::unwind(11)]
    #[cfg_attr(vc_rc, kani::stub(bsn1::misc::read_contents, crate::stubs::read_no_contents))]
    fn der_header() { header() }

    #[kani::unwind(8)]
    #[cfg_attr(vc_pil, kani::stub(bsn1::misc::parse_id_length, crate::stubs::parse_id_length_announced))]
    fn der_contents() { contents!(Der) }

    #[kani::unwind(3)]
    #[cfg_attr(vc_pil, kani::stub(bsn1::misc::parse_id_length, crate::stubs::parse_id_length_announced))]
    #[cfg_attr(vc_rc, kani::stub(bsn1::misc::read_contents, crate::stubs::read_contents))]
    fn ber_contents() { contents!(Ber) }
}

/// Natively: mostly headers, one octet each.
#[cfg(not(kani))]
fn make_short(s: &mut Stream) {
    const COMMON: [u8; 8] = [0, 0x80, 0, 0x30, 1, 4, 2, 0x24];
    for k in 0..HEAD {
        s.head[k] = COMMON[s.head[k] as usize % 8];
    }
    if s.w < HEAD {
        s.v = s.head[s.w];
    }
}

/// Every identifier and length is one octet.
fn short(b: &[u8; HEAD]) -> bool {
    let mut ok = true;
    macro_rules! octets {
        ($($k:literal)*) => { $( ok &= b[$k] <= 0x80 && b[$k] & 0x1f != 0x1f; )* };
    }
    octets!(0 1 2 3 4 5 6 7 8 9 10 11);
    ok
}

mod nested {
    use super::*;

    /// `spec::ber_total` for one-octet identifiers and lengths.
    fn total_short(s: &Stream) -> Option<usize> {
        let (mut at, mut open) = (0, 0);
        while at + 2 <= s.good() {
            let (i, l) = (s.head[at], s.head[at + 1]);
            at += 2;
            if l == 0x80 {
                open += 1;
                continue;
            }
            at += l as usize;
            if at > s.good() {
                return None;
            }
            if i == 0 && l == 0 && open > 0 {
                open -= 1;
            }
            if open == 0 {
                return Some(at);
            }
        }
        None
    }

    contracts_over_buffer! { ALL:
        /// Nested indefinite lengths.
        #[kani::unwind(7)]
        #[cfg_attr(vc_pil, kani::stub(bsn1::misc::parse_id_length, crate::stubs::parse_id_length_stream_short))]
        #[cfg_attr(vc_rc, kani::stub(bsn1::misc::read_contents, crate::stubs::read_contents))]
        fn ber_nested() {
            let mut s = Stream::any(any_upto(10));
            #[cfg(not(kani))]
            make_short(&mut s);
            assume(short(&s.head));
            let r = Ber::parse(&mut s);
            agrees(&r, total_short(&s), &s);
            cover!(r.is_ok() && s.at == 10);
            cover!(r.is_ok() && s.at == 8 && s.n == 10 && s.head[3] == 0x80);
            std::mem::forget(r);
        }    }
}
pub use nested::ALL as NESTED;

/// Announces contents of any size.
#[cfg(kani)]
fn announced(_s: &Stream) -> usize {
    let c = any_upto(1 << 41);
    unsafe { crate::stubs::GHOST_LENGTH = c };
    c
}

#[cfg(not(kani))]
fn announced(s: &Stream) -> usize {
    assume(s.head[0] & 0x1f != 0x1f && s.head[1] < 0x80);
    s.head[1] as usize
}

fn id_upto_3(s: &Stream) -> bool {
    s.head[0] & 0x1f != 0x1f || s.head[1] & 0x80 == 0 || s.head[2] & 0x80 == 0
}

#[cfg(kani)]
const SIZE: usize = 200000;
#[cfg(not(kani))]
const SIZE: usize = 40;

mod length {
    use super::*;
    contracts! {
        #[kani::unwind(12)]
        fn length_stream() {
            let mut s = Stream::any(any_upto(10));
            let r = Length::parse(&mut s);
            match (spec::len_octets(s.good_head()), &r) {
                (None, Err(_)) => {}
                (Some((None, n)), Ok(Length::Indefinite)) => assert!(s.at == n),
                (Some((Some(v), n)), Ok(Length::Definite(w))) => assert!(s.at == n && v == *w),
                _ => panic!("differs"),
            }
            cover!(r.is_ok() && s.at == 9);
            std::mem::forget(r);
        }
    }
}
pub use length::ALL as LENGTH;

sweeps! {
    /// Values of many sizes, read in pieces of many sizes, cut off and failing at many points,
    /// followed by other octets; nested indefinite lengths.
    fn streams() {
        struct Pieces<'a> { b: &'a [u8], at: usize, piece: usize, fail: usize }
        impl Read for Pieces<'_> {
            fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
                if buf.is_empty() {
                    return Ok(0);
                }
                if self.at >= self.fail {
                    return Err(Error::from(ErrorKind::PermissionDenied));
                }
                let n = buf.len().min(self.b.len().min(self.fail) - self.at).min(self.piece);
                buf[..n].copy_from_slice(&self.b[self.at..self.at + n]);
                self.at += n;
                Ok(n)
            }
        }
        fn one(v: &[u8], der: bool) {
            let n = v.len();
            let mut b = v.to_vec();
            b.extend_from_slice(&[0, 0, 0x30, 0x80, 5]);
            let near = |k: usize| k < 70 || k + 6 > n || k % 997 == 0 || (k + 8) & 0xfff < 16;
            for piece in [1, 2, 7, 100, 4095, 4096, 4097, usize::MAX] {
                let mut cuts: Vec<usize> = (0..n).filter(|&k| near(k)).collect();
                if piece == 1 && n > 5000 {
                    cuts.truncate(3);
                }
                for &cut in &cuts {
                    for (len, fail) in [(cut, usize::MAX), (b.len(), cut)] {
                        let mut s = Pieces { b: &b[..len], at: 0, piece, fail };
                        assert!(Ber::parse(&mut s).is_err());
                        if der {
                            let mut s = Pieces { b: &b[..len], at: 0, piece, fail };
                            assert!(Der::parse(&mut s).is_err());
                        }
                        covered(true);
                    }
                }
                let mut s = Pieces { b: &b, at: 0, piece, fail: n };
                assert!(Ber::parse(&mut s).unwrap().as_ref() as &[u8] == v && s.at == n);
                let mut s = Pieces { b: &b, at: 0, piece, fail: n };
                assert!(Der::parse(&mut s).map_or(!der, |d| d.as_ref() as &[u8] == v && s.at == n));
                covered(true);
            }
        }
        for c in [0, 1, 2, 20, 127, 128, 255, 256, 4000, 4090, 4096, 4097, 8192, 12300, 20000, 70000] {
            let c: Vec<u8> = (0..c).map(|k: usize| if k % 5 == 0 { 0 } else { k as u8 }).collect();
            let (e, l) = spec::len_encode(Some(c.len()));
            for id in [&[0x04][..], &[0x00], &[0xdf, 0x82, 0x03]] {
                let v = [id, &e[..l], &c].concat();
                one(&v, true);
                // contents that end like an end marker, inside an indefinite length
                let inner = [id, &e[..l], &c[..c.len().saturating_sub(2)], &[0, 0][..c.len().min(2)]].concat();
                if inner != [0, 0] {
                    one(&[&[0x30, 0x80][..], &inner, &[0, 0]].concat(), false);
                    one(&[&[0x30, 0x80, 0x31, 0x80][..], &inner, &[0, 0], &inner, &[0x30, 0x80, 0, 0, 0, 0]].concat(), false);
                }
            }
        }
        for depth in [1usize, 2, 100, 127, 128, 129, 255, 256, 300] {
            let v = [[0x30u8, 0x80].repeat(depth), vec![4, 2, 0, 0], [0u8, 0].repeat(depth)].concat();
            one(&v, false);
        }
        for depth in [32767usize, 32768, 65535, 65536, 70000] {
            let v = [[0x30u8, 0x80].repeat(depth), vec![4, 2, 0, 0], [0u8, 0].repeat(depth), vec![9]].concat();
            let n = v.len() - 1;
            let mut s = Pieces { b: &v, at: 0, piece: usize::MAX, fail: usize::MAX };
            assert!(Ber::parse(&mut s).unwrap().as_ref() as &[u8] == &v[..n] && s.at == n);
            assert!(Ber::parse(&mut &v[..n - 1]).is_err());
            covered(true);
        }
        // far more announced than there is
        for n in 28..=63 {
            for id in [0x04u8, 0x30] {
                let (e, l) = spec::len_encode(Some(1 << n));
                let v = [&[id], &e[..l], &[0u8; 9000]].concat();
                for head in [v.clone(), [&[0x30, 0x80][..], &v].concat()] {
                    largest_clear();
                    assert!(Der::parse(&mut &head[..]).is_err());
                    assert!(Ber::parse(&mut &head[..]).is_err());
                    assert!(largest() <= 1 << 26);
                    covered(true);
                }
            }
        }
    }
}
