//! Abstract parties to serialization: a writer, and a serializable value.
use crate::spec;
use crate::sym::*;
use bsn1::{Ber, BerRef, Buffer, ContentsRef, Der, DerRef, Error, IdRef, Length};
use bsn1_serde::de::Deserialize;
use bsn1_serde::ser::Serialize;
use std::io::{Read, Write};

#[cfg(kani)]
pub use crate::specbuf::seen::look;

#[cfg(not(kani))]
pub fn look(b: &[u8], k: usize) -> u8 {
    b[k]
}

/// A writer that remembers how much was written, and the octet at place `w`, which stands for every
/// place. `write` takes any part of what it is offered.
pub struct Tape {
    pub n: usize,
    pub w: usize,
    pub v: u8,
}

impl Tape {
    pub fn at(w: usize) -> Self {
        Self { n: 0, w, v: 0 }
    }

    fn take(&mut self, b: &[u8]) {
        if self.n <= self.w && self.w - self.n < b.len() {
            self.v = look(b, self.w - self.n);
        }
        self.n += b.len();
    }
}

impl Write for Tape {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        #[cfg(kani)]
        let n: usize = kani::any();
        #[cfg(kani)]
        kani::assume(n <= b.len() && (n > 0 || b.is_empty()));
        #[cfg(not(kani))]
        let n = if b.len() > 1 { 1 + pick(b.len()) } else { b.len() };
        self.take(&b[..n]);
        Ok(n)
    }

    /// What the standard library promises.
    #[cfg(kani)]
    fn write_all(&mut self, b: &[u8]) -> std::io::Result<()> {
        self.take(b);
        Ok(())
    }

    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A value with any identifier and any contents, which announces or withholds either size. `key`
/// orders values in sets.
#[derive(Clone, Debug)]
pub struct Abs {
    pub id: [u8; 3],
    pub il: usize,
    pub c: &'static [u8],
    pub says_id: bool,
    pub says_c: bool,
    pub key: u8,
}

impl Abs {
    pub fn any(key: u8) -> Self {
        Self::with(key, any_bulk())
    }

    pub fn with(key: u8, c: &'static [u8]) -> Self {
        let id: [u8; 3] = any();
        let il = 1 + any_upto(2);
        Self { id, il, c, says_id: any(), says_c: any(), key }
    }

    /// Size of the encoding.
    pub fn total(&self) -> usize {
        self.il + spec::len_size(self.c.len()) + self.c.len()
    }

    /// Octet `k` of the encoding.
    pub fn octet(&self, k: usize) -> u8 {
        let l = spec::len_size(self.c.len());
        if k < self.il {
            self.id[k]
        } else if k < self.il + l {
            spec::len_octet(self.c.len(), k - self.il)
        } else {
            self.c[k - self.il - l]
        }
    }
}

impl Serialize for Abs {
    fn write_id<W: ?Sized + Write>(&self, buffer: &mut W) -> Result<(), Error> {
        buffer.write_all(&self.id[..self.il]).map_err(Error::from)
    }

    fn write_der_contents<W: ?Sized + Write>(&self, buffer: &mut W) -> Result<(), Error> {
        buffer.write_all(self.c).map_err(Error::from)
    }

    fn id_len(&self) -> Result<Option<usize>, Error> {
        Ok(if self.says_id { Some(self.il) } else { None })
    }

    fn der_contents_len(&self) -> Result<Option<usize>, Error> {
        Ok(if self.says_c { Some(self.c.len()) } else { None })
    }
}

struct Table {
    _mark: u64,
    // Not one array: the verifier mistakes octets of arrays within arrays.
    first: Option<Abs>,
    second: Option<Abs>,
}

// The mark makes it unlike every constant: see `sym::watermark`.
static mut TABLE: Table = Table { _mark: 0x5eed_7ab1_e000_0001, first: None, second: None };

/// A value kept elsewhere, as a small element of containers.
#[derive(Clone, Debug)]
pub struct Ix {
    pub key: u8,
}

impl Ix {
    pub fn any(key: u8) -> Self {
        Self::put(Abs::any(key))
    }

    fn put(a: Abs) -> Self {
        let key = a.key;
        unsafe {
            if key == 0 {
                TABLE.first = Some(a);
            } else {
                TABLE.second = Some(a);
            }
        }
        Self { key }
    }

    /// Announces both sizes, or withholds one.
    pub fn known(key: u8, says: bool) -> Self {
        let mut a = Abs::any(key);
        if says {
            a.says_id = true;
            a.says_c = true;
        } else {
            assume(!a.says_id || !a.says_c);
        }
        Self::put(a)
    }

    pub fn get(&self) -> &'static Abs {
        unsafe {
            let t = if self.key == 0 { &*std::ptr::addr_of!(TABLE.first) } else { &*std::ptr::addr_of!(TABLE.second) };
            match t {
                Some(a) => a,
                None => unreachable!(),
            }
        }
    }
}

impl Serialize for Ix {
    fn write_id<W: ?Sized + Write>(&self, buffer: &mut W) -> Result<(), Error> {
        self.get().write_id(buffer)
    }

    fn write_der_contents<W: ?Sized + Write>(&self, buffer: &mut W) -> Result<(), Error> {
        self.get().write_der_contents(buffer)
    }

    fn id_len(&self) -> Result<Option<usize>, Error> {
        self.get().id_len()
    }

    fn der_contents_len(&self) -> Result<Option<usize>, Error> {
        self.get().der_contents_len()
    }
}

macro_rules! by_key {
    ($T:ty) => {
        impl PartialEq for $T {
            fn eq(&self, o: &Self) -> bool {
                self.key == o.key
            }
        }
        impl Eq for $T {}
        impl PartialOrd for $T {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $T {
            fn cmp(&self, o: &Self) -> std::cmp::Ordering {
                self.key.cmp(&o.key)
            }
        }
        impl std::hash::Hash for $T {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
                self.key.hash(h)
            }
        }
    };
}
by_key!(Abs);
by_key!(Ix);

/// Announced sizes are what is written. Returns what was announced of the contents.
pub fn announced<T: Serialize>(v: &T, w: usize) -> (Tape, Tape, Option<usize>) {
    let mut i = Tape::at(w);
    let mut c = Tape::at(w);
    let r = v.id_len();
    let il = match &r {
        Ok(n) => *n,
        Err(_) => panic!("id_len fails"),
    };
    std::mem::forget(r);
    let r = v.der_contents_len();
    let cl = match &r {
        Ok(n) => *n,
        Err(_) => panic!("der_contents_len fails"),
    };
    std::mem::forget(r);
    let r = v.write_id(&mut i);
    assert!(r.is_ok());
    std::mem::forget(r);
    let r = v.write_der_contents(&mut c);
    assert!(r.is_ok());
    std::mem::forget(r);
    assert!(il.is_none() || il == Some(i.n));
    assert!(cl.is_none() || cl == Some(c.n));
    (i, c, cl)
}

/// `bsn1_serde::write_der`, proved by `c12::to_writer`.
pub fn write_der<T, W>(value: &T, write: &mut W) -> Result<(), Error>
where
    T: ?Sized + Serialize,
    W: ?Sized + Write,
{
    let n = size(value);
    value.write_id(write)?;
    length(n, write)?;
    value.write_der_contents(write)
}

/// `bsn1_serde::to_der`, proved by `c12::to_memory`.
pub fn to_der<T>(value: &T) -> Result<Der, Error>
where
    T: ?Sized + Serialize,
{
    let mut b = Buffer::new();
    write_der(value, &mut b)?;
    Ok(Der::from(b))
}

fn size<T: ?Sized + Serialize>(value: &T) -> usize {
    let mut t = Tape::at(usize::MAX);
    let r = value.write_der_contents(&mut t);
    assert!(r.is_ok());
    std::mem::forget(r);
    t.n
}

fn length<W: ?Sized + Write>(n: usize, write: &mut W) -> Result<(), Error> {
    let mut e = [0u8; 9];
    let l = spec::len_size(n);
    macro_rules! set {
        ($($i:literal)*) => { $( if $i < l { e[$i] = spec::len_octet(n, $i); } )* };
    }
    set!(0 1 2 3 4 5 6 7 8);
    write.write_all(&e[..l]).map_err(Error::from)
}

/// What a deserializer was given: the identifier, whether the length was indefinite, and where the
/// contents are. It refuses identifiers of class application.
#[derive(Clone, Copy, Debug)]
pub struct Obs {
    pub id: u8,
    pub il: usize,
    pub indefinite: bool,
    pub p: usize,
    pub n: usize,
    /// The first octet of the contents.
    pub v: u8,
    pub key: u8,
}
by_key!(Obs);

impl Obs {
    fn note(id: &IdRef, indefinite: bool, c: &ContentsRef) -> Result<Self, Error> {
        let i: &[u8] = id.as_ref();
        let c: &[u8] = c.as_ref();
        if Self::refuses(i[0]) {
            return Err(Error::UnmatchedId);
        }
        let v = if c.is_empty() { 0 } else { c[0] };
        Ok(Self { id: i[0], il: i.len(), indefinite, p: c.as_ptr() as usize, n: c.len(), v, key: i[0] })
    }

    pub fn refuses(i: u8) -> bool {
        i & 0xc0 == 0x40
    }

    /// It was given the element `b` begins with.
    pub fn is(&self, b: &[u8], e: &Tlv) -> bool {
        self.id == b[0]
            && self.il == e.il
            && self.indefinite == e.indefinite
            && self.n == e.cn
            && self.v == if e.cn == 0 { 0 } else { b[e.il + e.ll] }
    }

    /// And where it was.
    pub fn at(&self, b: &[u8], e: &Tlv) -> bool {
        self.is(b, e) && self.p == b.as_ptr() as usize + e.il + e.ll
    }
}

impl Deserialize for Obs {
    unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
        if let Length::Definite(n) = length {
            assert!(contents.len() == n);
        }
        Self::note(id, length.is_indefinite(), contents)
    }

    fn from_der(id: &IdRef, contents: &ContentsRef) -> Result<Self, Error> {
        Self::note(id, false, contents)
    }
}

/// As `Obs`, but kept aside: for containers whose memory the verifier finds hard.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Rec(pub u8);

const NO: Obs = Obs { id: 0, il: 0, indefinite: false, p: 0, n: 0, v: 0, key: 0 };

struct Kept {
    _mark: u64,
    n: u8,
    a: Obs,
    b: Obs,
    c: Obs,
}

impl Rec {
    pub fn get(&self) -> Obs {
        kept(|k| match self.0 {
            0 => k.a,
            1 => k.b,
            _ => k.c,
        })
    }

    /// Forgets what was read before.
    pub fn clear() {
        kept(|k| k.n = 0)
    }

    fn keep(r: Result<Obs, Error>) -> Result<Self, Error> {
        let o = r?;
        Ok(kept(|k| {
            match k.n {
                0 => k.a = o,
                1 => k.b = o,
                _ => k.c = o,
            }
            k.n += 1;
            Rec(k.n - 1)
        }))
    }
}

// The mark makes it unlike every constant: see `sym::watermark`.
#[cfg(kani)]
fn kept<T>(f: impl FnOnce(&mut Kept) -> T) -> T {
    static mut KEPT: Kept = Kept { _mark: 0x5eed_4e97_0000_0001, n: 0, a: NO, b: NO, c: NO };
    f(unsafe { &mut *std::ptr::addr_of_mut!(KEPT) })
}

#[cfg(not(kani))]
fn kept<T>(f: impl FnOnce(&mut Kept) -> T) -> T {
    use std::cell::RefCell;
    thread_local!(static KEPT: RefCell<Kept> = RefCell::new(Kept { _mark: 0, n: 0, a: NO, b: NO, c: NO }));
    KEPT.with(|k| f(&mut k.borrow_mut()))
}

impl Deserialize for Rec {
    unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
        Self::keep(Obs::from_ber(id, length, contents))
    }

    fn from_der(id: &IdRef, contents: &ContentsRef) -> Result<Self, Error> {
        Self::keep(Obs::from_der(id, contents))
    }
}

/// Sizes of an element: identifier, length octets, contents (with the end marker).
#[derive(Clone, Copy, Debug)]
pub struct Tlv {
    pub il: usize,
    pub ll: usize,
    pub cn: usize,
    pub indefinite: bool,
}

impl Tlv {
    pub fn total(&self) -> usize {
        self.il + self.ll + self.cn
    }

    pub fn der(b: &[u8]) -> Option<Self> {
        let (il, ll, cn) = spec::der_tlv(b)?;
        Some(Self { il, ll, cn, indefinite: false })
    }

    /// The scan of `spec::ber_total`, for one-octet identifiers and lengths; others are left out.
    pub fn ber(b: &[u8]) -> Option<Self> {
        let t = crate::c06::total_short(b)?;
        Some(Self { il: 1, ll: 1, cn: t - 2, indefinite: b[1] == 0x80 })
    }

    pub fn of(ber: bool, b: &[u8]) -> Option<Self> {
        if ber { Self::ber(b) } else { Self::der(b) }
    }
}

/// `DerRef::parse`, proved by C05.
pub fn der_parse<'a>(bytes: &mut &'a [u8]) -> Result<&'a DerRef, Error> {
    match Tlv::der(bytes) {
        None => Err(Error::UnterminatedBytes),
        Some(e) => unsafe {
            let b = *bytes;
            *bytes = &b[e.total()..];
            Ok(DerRef::from_bytes_unchecked(&b[..e.total()]))
        },
    }
}

/// `BerRef::parse`, proved by C06.
pub fn ber_parse<'a>(bytes: &mut &'a [u8]) -> Result<&'a BerRef, Error> {
    match Tlv::ber(bytes) {
        None => Err(Error::UnterminatedBytes),
        Some(e) => unsafe {
            let b = *bytes;
            *bytes = &b[e.total()..];
            Ok(BerRef::from_bytes_unchecked(&b[..e.total()]))
        },
    }
}

/// `Der::parse`, proved by C07.
///
/// # Safety
///
/// `R` is `&[u8]`.
pub fn der_read<R: ?Sized + Read>(readable: &mut R) -> Result<Der, Error> {
    let r: &mut &[u8] = unsafe { &mut *(readable as *mut R as *mut &[u8]) };
    der_parse(r).map(|d| d.to_owned())
}

/// `Ber::parse`, proved by C07.
///
/// # Safety
///
/// `R` is `&[u8]`.
pub fn ber_read<R: ?Sized + Read>(readable: &mut R) -> Result<Ber, Error> {
    let r: &mut &[u8] = unsafe { &mut *(readable as *mut R as *mut &[u8]) };
    ber_parse(r).map(|d| d.to_owned())
}
