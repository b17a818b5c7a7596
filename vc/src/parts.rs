//! Octets known by their division into elements.
//!
//! Under Kani the octets are arbitrary, and `DerRef` and `BerRef` are replaced by their contracts over
//! the division: parsing (C05, C06) at the beginning of an element gives that element, or an error if
//! there is none; taking an element apart (C08) gives its pieces. So elements have any size, and no
//! loop is left. Natively, octets with that division are made.
use crate::spec;
use crate::sym::*;
#[cfg(kani)]
use bsn1::{BerRef, ContentsRef, DerRef, Error, IdRef, Length};

/// An element: where it is, and the sizes of its pieces. `cn` counts the end marker.
#[derive(Clone, Copy, Debug)]
pub struct Part {
    pub at: usize,
    pub il: usize,
    pub ll: usize,
    pub cn: usize,
    pub indefinite: bool,
    /// There is no element after all.
    pub bad: bool,
}

pub const NONE: Part = Part { at: usize::MAX, il: 0, ll: 0, cn: 0, indefinite: false, bad: false };

impl Part {
    pub fn contents(&self) -> usize {
        self.at + self.il + self.ll
    }

    pub fn end(&self) -> usize {
        self.contents() + self.cn
    }
}

#[cfg(kani)]
pub mod stub {
    use super::*;

    struct Division {
        _mark: u64,
        base: usize,
        p0: Part,
        p1: Part,
        p2: Part,
        p3: Part,
    }

    // The mark makes it unlike every constant: see `sym::watermark`.
    static mut D: Division = Division { _mark: 0x5eed_9a27_5000_0001, base: 0, p0: NONE, p1: NONE, p2: NONE, p3: NONE };

    pub fn set(base: *const u8, p: [Part; 4]) {
        unsafe {
            D.base = base as usize;
            D.p0 = p[0];
            D.p1 = p[1];
            D.p2 = p[2];
            D.p3 = p[3];
        }
    }

    fn find(b: &[u8]) -> Part {
        unsafe {
            let at = (b.as_ptr() as usize).wrapping_sub(D.base);
            if at == D.p0.at {
                D.p0
            } else if at == D.p1.at {
                D.p1
            } else if at == D.p2.at {
                D.p2
            } else if at == D.p3.at {
                D.p3
            } else {
                panic!("no element begins here")
            }
        }
    }

    /// The element `bytes` begins with.
    fn take<'a>(bytes: &mut &'a [u8]) -> Option<&'a [u8]> {
        let b = *bytes;
        if b.is_empty() {
            return None;
        }
        let p = find(b);
        let n = p.il + p.ll + p.cn;
        if p.bad || b.len() < n {
            return None;
        }
        *bytes = &b[n..];
        Some(&b[..n])
    }

    pub fn der_parse<'a>(bytes: &mut &'a [u8]) -> Result<&'a DerRef, Error> {
        match take(bytes) {
            None => Err(Error::UnterminatedBytes),
            Some(b) => Ok(unsafe { DerRef::from_bytes_unchecked(b) }),
        }
    }

    pub fn ber_parse<'a>(bytes: &mut &'a [u8]) -> Result<&'a BerRef, Error> {
        match take(bytes) {
            None => Err(Error::UnterminatedBytes),
            Some(b) => Ok(unsafe { BerRef::from_bytes_unchecked(b) }),
        }
    }

    fn apart(b: &[u8]) -> (&IdRef, Length, &ContentsRef) {
        let p = find(b);
        assert!(b.len() == p.il + p.ll + p.cn);
        let l = if p.indefinite { Length::Indefinite } else { Length::Definite(p.cn) };
        (unsafe { IdRef::from_bytes_unchecked(&b[..p.il]) }, l, (&b[p.il + p.ll..]).into())
    }

    macro_rules! pieces {
        ($($name:ident $id:ident $length:ident $contents:ident $t:ty;)*) => {$(
            pub fn $name(v: &$t) -> (&IdRef, Length, &ContentsRef) {
                apart(v.as_ref())
            }
            pub fn $id(v: &$t) -> &IdRef {
                apart(v.as_ref()).0
            }
            pub fn $length(v: &$t) -> Length {
                apart(v.as_ref()).1
            }
            pub fn $contents(v: &$t) -> &ContentsRef {
                apart(v.as_ref()).2
            }
        )*};
    }
    pieces! {
        der_apart der_id der_length der_contents DerRef;
        ber_apart ber_id ber_length ber_contents BerRef;
    }
}

/// Octets under construction.
pub struct Octets {
    #[cfg(kani)]
    b: *mut u8,
    #[cfg(not(kani))]
    b: Vec<u8>,
    n: usize,
    parts: [Part; 4],
    k: usize,
}

impl Octets {
    #[cfg(kani)]
    pub fn new() -> Self {
        let n: usize = any();
        assume(n >= 1 << 43 && n < 1 << 44);
        let b = unsafe { std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n, 1)) };
        Self { b, n: 0, parts: [NONE; 4], k: 0 }
    }

    #[cfg(not(kani))]
    pub fn new() -> Self {
        Self { b: Vec::new(), n: 0, parts: [NONE; 4], k: 0 }
    }

    pub fn len(&self) -> usize {
        self.n
    }

    fn note(&mut self, p: Part) {
        self.parts[self.k] = p;
        self.k += 1;
    }

    /// First octet of an identifier of any size up to 3.
    fn any_id() -> (u8, usize) {
        let i: u8 = any();
        let il = 1 + any_upto(2);
        // not the end marker
        assume(i != 0 && (i & 0x1f == 0x1f) == (il > 1));
        (i, il)
    }

    fn put_id(&mut self, i: u8, il: usize) {
        #[cfg(kani)]
        unsafe {
            *self.b.add(self.n) = i;
        }
        #[cfg(not(kani))]
        self.b.extend_from_slice(&[&[][..], &[i], &[i, 0x7f], &[i, 0x81, 3]][il]);
        self.n += il;
    }

    fn put_length(&mut self, n: usize, indefinite: bool) -> usize {
        let ll = if indefinite { 1 } else { spec::len_size(n) };
        #[cfg(not(kani))]
        if indefinite {
            self.b.push(0x80);
        } else {
            (0..ll).for_each(|k| self.b.push(spec::len_octet(n, k)));
        }
        self.n += ll;
        ll
    }

    /// The end marker.
    pub fn put_end(&mut self) {
        #[cfg(kani)]
        unsafe {
            *self.b.add(self.n) = 0;
            *self.b.add(self.n + 1) = 0;
        }
        #[cfg(not(kani))]
        self.b.extend_from_slice(&[0, 0]);
        self.n += 2;
    }

    /// Any octets.
    pub fn put_any(&mut self, n: usize) {
        #[cfg(not(kani))]
        self.b.extend((0..n).map(|i| (i as u8).wrapping_mul(29) | 1));
        self.n += n;
    }

    fn size() -> usize {
        #[cfg(kani)]
        let n = any_upto(1 << 40);
        #[cfg(not(kani))]
        let n = [any_upto(4), 120 + any_upto(12), any_upto(300)][any_upto(2)];
        n
    }

    /// Any element; `indefinite` ones have any elements in them.
    pub fn put(&mut self, ber: bool) -> Part {
        let (i, il) = Self::any_id();
        self.put_element(i, il, ber && any())
    }

    fn put_element(&mut self, i: u8, il: usize, indefinite: bool) -> Part {
        let at = self.n;
        #[allow(unused_mut)]
        let mut n = Self::size();
        #[cfg(not(kani))]
        if indefinite {
            n = [0, 2, 3, 100][n & 3];
        }
        self.put_id(i, il);
        let ll = self.put_length(n, indefinite);
        #[cfg(not(kani))]
        if indefinite && n > 0 {
            self.b.extend_from_slice(&[4, n as u8 - 2]);
            self.b.extend((2..n).map(|_| 0));
            self.n += n;
        }
        let mut cn = n;
        if indefinite {
            #[cfg(kani)]
            {
                self.n += n;
            }
            self.put_end();
            cn += 2;
        } else {
            self.put_any(n);
        }
        let p = Part { at, il, ll, cn, indefinite, bad: false };
        self.note(p);
        p
    }

    /// The rest, at least one octet, is no element.
    pub fn put_bad(&mut self) {
        let at = self.n;
        let n = 1 + any_upto(5);
        #[cfg(not(kani))]
        self.b.extend((0..n).map(|_| 0x1f));
        self.n += n;
        self.note(Part { at, bad: true, ..NONE });
    }

    /// Begins an element with identifier `i`, whose contents are put next; returns its number.
    pub fn open(&mut self, i: u8, indefinite: bool) -> usize {
        let at = self.n;
        #[cfg(kani)]
        let n = any_upto(1 << 42);
        #[cfg(not(kani))]
        let n = 0;
        self.put_id(i, 1);
        let ll = self.put_length(n, indefinite);
        self.note(Part { at, il: 1, ll, cn: n, indefinite, bad: false });
        self.k - 1
    }

    /// Ends the element.
    pub fn close(&mut self, k: usize) {
        let p = self.parts[k];
        let n = self.n - p.contents();
        if p.indefinite {
            self.put_end();
            self.parts[k].cn = n + 2;
        } else {
            #[cfg(kani)]
            assume(n == p.cn);
            #[cfg(not(kani))]
            {
                let ll = spec::len_size(n);
                let at = p.at + 1;
                self.b.splice(at..at + 1, (0..ll).map(|k| spec::len_octet(n, k)));
                self.n += ll - 1;
                self.parts[k].ll = ll;
                self.parts[k].cn = n;
                for q in &mut self.parts[k + 1..] {
                    if q.at != NONE.at {
                        q.at += ll - 1;
                    }
                }
            }
        }
    }

    /// The element put with this number.
    pub fn part(&self, k: usize) -> Part {
        self.parts[k]
    }

    /// The octets; their division is what parsing finds from now on.
    pub fn get(&self) -> &[u8] {
        #[cfg(kani)]
        {
            stub::set(self.b, self.parts);
            unsafe { std::slice::from_raw_parts(self.b, self.n) }
        }
        #[cfg(not(kani))]
        {
            assert!(self.b.len() == self.n);
            &self.b
        }
    }
}
