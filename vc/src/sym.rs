//! Arbitrary values: symbolic under Kani; drawn from a replay record or a generator natively.

#[cfg(kani)]
mod imp {
    pub use kani::Arbitrary as Sym;

    #[inline(always)]
    pub fn any<T: Sym>() -> T {
        kani::any()
    }

    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::{Cell, RefCell};
    use std::collections::VecDeque;

    /// Payload of the panic raised when a precondition is not met by the concrete values.
    pub struct Rejected;

    pub enum Source {
        /// Octets of the values in the order they are drawn, little endian.
        Replay(VecDeque<u8>),
        /// xorshift state
        Random(u64),
    }

    thread_local! {
        pub static SOURCE: RefCell<Source> = RefCell::new(Source::Random(1));
        pub static TAKEN: RefCell<Vec<u8>> = RefCell::new(Vec::new());
        pub static COVERED: Cell<usize> = Cell::new(0);
    }

    fn next(s: &mut u64) -> u64 {
        *s ^= *s << 13;
        *s ^= *s >> 7;
        *s ^= *s << 17;
        s.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }

    const OCTETS: [u8; 28] = [
        0, 0, 0, 1, 2, 3, 4, 5, 0x0c, 0x1e, 0x1f, 0x20, 0x24, 0x2c, 0x30, 0x30, 0x31, 0x3f, 0x7f,
        0x80, 0x80, 0x81, 0x82, 0x88, 0x9f, 0xc0, 0xfe, 0xff,
    ];

    fn random_octet(s: &mut u64) -> u8 {
        let r = next(s);
        match (r >> 8) % 8 {
            0..=2 => OCTETS[(r >> 16) as usize % OCTETS.len()],
            3 | 4 => ((r >> 16) % 6) as u8,
            _ => (r >> 16) as u8,
        }
    }

    /// Integers are drawn by size first, so that every size is equally likely; values next to the
    /// powers of two are preferred.
    fn random_int(s: &mut u64, n: usize) -> Vec<u8> {
        if n == 1 {
            return vec![random_octet(s)];
        }
        let bits = (next(s) >> 16) as u32 % (8 * n as u32 + 1);
        let full = ((next(s) as u128) << 64) | next(s) as u128;
        let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        let v: u128 = match (next(s) >> 8) % 4 {
            0 => mask,
            1 => mask.wrapping_add(1),
            2 => mask.wrapping_add(full % 5).wrapping_sub(2),
            _ => full & mask,
        };
        let v = if next(s) & 0x30000 == 0 { !v } else { v };
        v.to_le_bytes()[..n].to_vec()
    }

    fn draw(n: usize, array: bool) -> Vec<u8> {
        let v = SOURCE.with(|src| match &mut *src.borrow_mut() {
            Source::Replay(q) => (0..n).map(|_| q.pop_front().unwrap_or(0)).collect(),
            Source::Random(s) if array => (0..n).map(|_| random_octet(s)).collect(),
            Source::Random(s) => random_int(s, n),
        });
        TAKEN.with(|t| t.borrow_mut().extend_from_slice(&v));
        v
    }

    pub trait Sym: Sized {
        fn sym() -> Self;
    }

    macro_rules! ints {
        ($($t:ty)*) => {$(
            impl Sym for $t {
                fn sym() -> Self {
                    let v = draw(std::mem::size_of::<$t>(), false);
                    let mut a = [0; std::mem::size_of::<$t>()];
                    a.copy_from_slice(&v);
                    <$t>::from_le_bytes(a)
                }
            }
        )*};
    }
    ints!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

    impl Sym for bool {
        fn sym() -> Self {
            draw(1, true)[0] & 1 != 0
        }
    }

    impl<const N: usize> Sym for [u8; N] {
        fn sym() -> Self {
            let mut a = [0; N];
            a.copy_from_slice(&draw(N, true));
            a
        }
    }

    pub fn any<T: Sym>() -> T {
        T::sym()
    }

    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Rejected);
        }
    }

    pub fn covered(c: bool) {
        if c {
            COVERED.with(|n| n.set(n.get() + 1));
        }
    }

    /// Uniform, from the generator only.
    pub fn pick(n: usize) -> usize {
        SOURCE.with(|src| match &mut *src.borrow_mut() {
            Source::Random(s) => (next(s) >> 20) as usize % n,
            _ => 0,
        })
    }

    pub fn replaying() -> bool {
        SOURCE.with(|s| matches!(&*s.borrow(), Source::Replay(_)))
    }
}

pub use imp::*;

/// An arbitrary size not above `max`.
#[cfg(kani)]
pub fn any_upto(max: usize) -> usize {
    let n: usize = any();
    assume(n <= max);
    n
}

/// Natively: uniform in the range, recorded as the drawn value.
#[cfg(not(kani))]
pub fn any_upto(max: usize) -> usize {
    if replaying() {
        let n: usize = any();
        assume(n <= max);
        n
    } else {
        let n = pick(max + 1);
        TAKEN.with(|t| t.borrow_mut().extend_from_slice(&n.to_le_bytes()));
        n
    }
}

/// A slice of any size from `min` (at least 1) up to 2^40 with arbitrary octets; the first 16 are
/// drawn, so that they can be replayed.
#[cfg(kani)]
pub fn any_huge(min: usize) -> &'static [u8] {
    let n: usize = any();
    assume(n >= min && n < 1 << 40);
    let head: [u8; 16] = any();
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n, 1));
        let s = std::slice::from_raw_parts(p, n);
        macro_rules! fix {
            ($($i:literal)*) => { $( assume($i >= n || s[$i] == head[$i]); )* };
        }
        fix!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
        s
    }
}

#[cfg(not(kani))]
pub fn any_huge(min: usize) -> &'static [u8] {
    let n = if replaying() {
        let n: usize = any();
        assume(n >= min && n <= 1 << 32);
        n
    } else {
        let n = min + pick(300);
        TAKEN.with(|t| t.borrow_mut().extend_from_slice(&n.to_le_bytes()));
        n
    };
    let head: [u8; 16] = any();
    let mut v = vec![0u8; n];
    for i in 0..n.min(16) {
        v[i] = head[i];
    }
    v.leak()
}

/// The same, with no octet drawn.
#[cfg(kani)]
pub fn any_bulk() -> &'static [u8] {
    let n: usize = any();
    assume(n < 1 << 40);
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n + 1, 1));
        std::slice::from_raw_parts(p, n)
    }
}

#[cfg(not(kani))]
pub fn any_bulk() -> &'static [u8] {
    let n = if replaying() {
        let n: usize = any();
        assume(n <= 1 << 32);
        n
    } else {
        let n = [0, pick(4), 120 + pick(16), pick(600)][pick(4)];
        TAKEN.with(|t| t.borrow_mut().extend_from_slice(&n.to_le_bytes()));
        n
    };
    (0..n).map(|i| (i as u8).wrapping_mul(31) ^ (i >> 8) as u8).collect::<Vec<u8>>().leak()
}

/// The largest allocation asked for: noted by the allocator natively, and by the contract of the
/// storage under Kani.
pub mod watermark {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

    /// Nothing is noted before it is cleared. The verifier (Kani 0.68) gives a mutable static and a
    /// constant of the same octets the same memory; so every static here begins with a value that is
    /// no constant of the program.
    pub static LARGEST: AtomicUsize = AtomicUsize::new(0x5eed_1a26_e57a_0001);

    pub fn note(n: usize) {
        if n > LARGEST.load(SeqCst) {
            LARGEST.store(n, SeqCst);
        }
    }

    pub fn largest() -> usize {
        LARGEST.load(SeqCst)
    }

    pub fn largest_clear() {
        LARGEST.store(0, SeqCst)
    }
}
pub use watermark::{largest, largest_clear};

/// Vacuity guard: the given situation must be reachable.
macro_rules! cover {
    ($c:expr) => {{
        #[cfg(kani)]
        kani::cover!($c);
        #[cfg(not(kani))]
        $crate::sym::covered($c);
    }};
}

/// Declares obligations. `#[...]` attributes in front of each are Kani attributes.
macro_rules! contracts {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $(
            $(#[cfg_attr(kani, $m)])*
            #[cfg_attr(kani, kani::proof)]
            pub fn $name() $body
        )*
        pub const ALL: &[$crate::Entry] = &[
            $( (concat!(module_path!(), "::", stringify!($name)), $name as fn(), "") ),*
        ];
    };
}

/// The same, with `bsn1::Buffer` replaced by its contract over the given storage.
macro_rules! contracts_over_buffer {
    ($list:ident: $($rest:tt)*) => { contracts_over_buffer! { small $list: $($rest)* } };
    ($storage:ident $list:ident: $( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $(
            $(#[cfg_attr(kani, $m)])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(all(kani, vc_buf), kani::stub(bsn1::Buffer::new, crate::specbuf::$storage::new))]
            #[cfg_attr(all(kani, vc_buf), kani::stub(bsn1::Buffer::with_capacity, crate::specbuf::$storage::with_capacity))]
            #[cfg_attr(all(kani, vc_buf), kani::stub(bsn1::Buffer::reserve, crate::specbuf::$storage::reserve))]
            #[cfg_attr(all(kani, vc_buf), kani::stub(bsn1::Buffer::len, crate::specbuf::len))]
            #[cfg_attr(all(kani, vc_buf), kani::stub(bsn1::Buffer::capacity, crate::specbuf::capacity))]
            #[cfg_attr(all(kani, vc_buf), kani::stub(bsn1::Buffer::set_len, crate::specbuf::set_len))]
            #[cfg_attr(all(kani, vc_buf), kani::stub(bsn1::Buffer::as_ptr, crate::specbuf::as_ptr))]
            #[cfg_attr(all(kani, vc_buf), kani::stub(bsn1::Buffer::as_mut_ptr, crate::specbuf::as_mut_ptr))]
            #[cfg_attr(all(kani, vc_buf), kani::stub(bsn1::Buffer::as_slice, crate::specbuf::as_slice))]
            #[cfg_attr(all(kani, vc_buf), kani::stub(bsn1::Buffer::as_mut_slice, crate::specbuf::as_mut_slice))]
            #[cfg_attr(all(kani, vc_buf), kani::stub(bsn1::Buffer::push, crate::specbuf::push))]
            #[cfg_attr(all(kani, vc_buf), kani::stub(bsn1::Buffer::extend_from_slice, crate::specbuf::$storage::extend_from_slice))]
            #[cfg_attr(all(kani, vc_buf), kani::stub(bsn1::Buffer::into_vec, crate::specbuf::into_vec))]
            #[cfg_attr(all(kani, vc_buf), kani::stub(<bsn1::Buffer as core::clone::Clone>::clone, crate::specbuf::clone))]
            #[cfg_attr(all(kani, vc_buf), kani::stub(bsn1::Error::context, crate::specbuf::context))]
            #[cfg_attr(all(kani, vc_buf), kani::stub(std::fmt::format, crate::specbuf::format))]
            pub fn $name() $body
        )*
        pub const $list: &[$crate::Entry] = &[
            $( (concat!(module_path!(), "::", stringify!($name)), $name as fn(), "vc_buf") ),*
        ];
    };
}

/// The same, with the contracts of `DerRef` and `BerRef` over octets known by their elements.
macro_rules! contracts_over_parts {
    ($list:ident: $( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        contracts_over_buffer! { $list:
            $(
                $(#[$m])*
                #[kani::stub(bsn1::DerRef::parse, crate::parts::stub::der_parse)]
                #[kani::stub(bsn1::DerRef::disassemble, crate::parts::stub::der_apart)]
                #[kani::stub(bsn1::DerRef::id, crate::parts::stub::der_id)]
                #[kani::stub(bsn1::DerRef::length, crate::parts::stub::der_length)]
                #[kani::stub(bsn1::DerRef::contents, crate::parts::stub::der_contents)]
                #[kani::stub(bsn1::BerRef::parse, crate::parts::stub::ber_parse)]
                #[kani::stub(bsn1::BerRef::disassemble, crate::parts::stub::ber_apart)]
                #[kani::stub(bsn1::BerRef::id, crate::parts::stub::ber_id)]
                #[kani::stub(bsn1::BerRef::length, crate::parts::stub::ber_length)]
                #[kani::stub(bsn1::BerRef::contents, crate::parts::stub::ber_contents)]
                fn $name() $body
            )*
        }
    };
}

/// Bounded stand-ins: run natively only.
macro_rules! sweeps {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $(
            $(#[$m])*
            #[cfg(not(kani))]
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const SWEEPS: &[$crate::Entry] = &[
            $( (concat!(module_path!(), "::", stringify!($name)), $name as fn(), "") ),*
        ];
    };
}

/// The contracts of octet storage for the type `Buffer` in scope.
macro_rules! buffer_contracts {
    () => {
        use crate::sym::*;

        const INLINE: usize = 24;

        /// Arbitrary inline state.
        fn any_inline() -> Buffer {
            let mut b = Buffer::new();
            let a: [u8; INLINE] = any();
            let n = any_upto(INLINE);
            assume(n <= b.capacity());
            unsafe {
                b.as_mut_ptr().copy_from_nonoverlapping(a.as_ptr(), b.capacity().min(INLINE));
                b.set_len(n);
            }
            b
        }

        fn size(max: usize) -> usize {
            #[cfg(kani)]
            let n = any_upto(max);
            #[cfg(not(kani))]
            let n = any_upto(max.min(300));
            n
        }

        /// Arbitrary heap state.
        fn any_heap() -> Buffer {
            let c = 25 + size((1 << 40) - 25);
            let n = any_upto(c);
            if any() {
                let mut b = Buffer::with_capacity(c);
                #[cfg(not(kani))]
                fill(b.as_mut_ptr(), c);
                unsafe { b.set_len(n) };
                b
            } else {
                let mut v: Vec<u8> = Vec::with_capacity(c - 24);
                #[cfg(not(kani))]
                fill(v.as_mut_ptr(), c - 24);
                unsafe { v.set_len(n.min(c - 24)) };
                from_vec(v)
            }
        }

        #[cfg(not(kani))]
        fn fill(p: *mut u8, n: usize) {
            for i in 0..n {
                unsafe { *p.add(i) = (i as u8).wrapping_mul(31) ^ (i >> 8) as u8 };
            }
        }

        /// An arbitrary octet of the state: its index and value.
        fn ghost(b: &Buffer) -> Option<(usize, u8)> {
            if b.len() == 0 {
                return None;
            }
            let k = any_upto(b.len() - 1);
            Some((k, b.as_slice()[k]))
        }

        fn kept(b: &Buffer, g: Option<(usize, u8)>) {
            if let Some((k, v)) = g {
                assert!(k >= b.len() || b.as_slice()[k] == v);
            }
        }

        fn consistent(b: &mut Buffer) {
            let (n, p) = (b.len(), b.as_ptr());
            assert!(n <= b.capacity());
            assert!(b.as_slice().as_ptr() == p && b.as_slice().len() == n);
            assert!(b.as_mut_ptr() as *const u8 == p);
            assert!(b.as_mut_slice().as_ptr() == p && b.as_mut_slice().len() == n);
        }

        fn push(mut b: Buffer) {
            let (n, c, g, v) = (b.len(), b.capacity(), ghost(&b), any::<u8>());
            assume(n < c);
            unsafe { b.push(v) };
            assert!(b.len() == n + 1 && b.capacity() == c && b.as_slice()[n] == v);
            kept(&b, g);
            consistent(&mut b);
            cover!(n + 1 == c);
        }

        fn extend(mut b: Buffer) {
            let (n, c, g, v) = (b.len(), b.capacity(), ghost(&b), any_huge(1));
            assume(v.len() <= c - n);
            unsafe { b.extend_from_slice(v) };
            assert!(b.len() == n + v.len() && b.capacity() == c);
            let k = any_upto(v.len() - 1);
            assert!(b.as_slice()[n + k] == v[k]);
            kept(&b, g);
            consistent(&mut b);
            cover!(b.len() == c && n > 1);
        }

        fn extend_nothing(mut b: Buffer) {
            let (n, c, g) = (b.len(), b.capacity(), ghost(&b));
            unsafe { b.extend_from_slice(&[]) };
            assert!(b.len() == n && b.capacity() == c);
            kept(&b, g);
        }

        fn reserve(mut b: Buffer) {
            let (n, g) = (b.len(), ghost(&b));
            let a = size(1 << 40);
            let old = b.capacity();
            b.reserve(a);
            assert!(b.len() == n && b.capacity() >= n + a && b.capacity() >= old);
            kept(&b, g);
            consistent(&mut b);
            cover!(b.capacity() > old);
            cover!(b.capacity() == old && a > 0);
        }

        fn resize(mut b: Buffer) {
            let (c, g, n) = (b.capacity(), ghost(&b), any::<usize>());
            assume(n <= c);
            unsafe { b.set_len(n) };
            assert!(b.len() == n && b.capacity() == c);
            kept(&b, g);
            consistent(&mut b);
            cover!(n == c);
            cover!(n == 0);
        }

        fn write_one(mut b: Buffer) {
            assume(b.len() > 0);
            let (g, k, v) = (ghost(&b), any_upto(b.len() - 1), any::<u8>());
            b.as_mut_slice()[k] = v;
            assert!(b.as_slice()[k] == v);
            assert!(g.map_or(true, |(j, o)| b.as_slice()[j] == if j == k { v } else { o }));
            consistent(&mut b);
        }

        fn clone(b: Buffer) {
            let (n, g) = (b.len(), ghost(&b));
            let mut c = b.clone();
            assert!(c.len() == n && c.as_ptr() != b.as_ptr());
            kept(&c, g);
            consistent(&mut c);
            if n > 0 {
                let k = any_upto(n - 1);
                c.as_mut_slice()[k] ^= 0xff;
            }
            kept(&b, g);
            drop(b);
            assert!(c.len() == n);
            cover!(n > 0);
        }

        fn into_vec(b: Buffer) {
            let (n, g) = (b.len(), ghost(&b));
            let v = b.into_vec();
            assert!(v.len() == n && v.capacity() >= n);
            assert!(g.map_or(true, |(k, o)| v[k] == o));
            cover!(n > 0);
        }

        contracts! {
            #[kani::unwind(3)]
            fn empty() {
                let mut b = Buffer::new();
                assert!(b.len() == 0 && b.as_slice().is_empty());
                consistent(&mut b);
                let b = from_vec(Vec::new());
                assert!(b.len() == 0);
                assert!(b.into_vec().is_empty());
            }

            #[kani::unwind(3)]
            fn with_capacity() {
                let c = size(1 << 40);
                let mut b = Buffer::with_capacity(c);
                assert!(b.len() == 0 && b.capacity() >= c);
                consistent(&mut b);
                cover!(c == 0);
                cover!(c == 24);
            }

            #[kani::unwind(3)]
            fn from_vector() {
                let (c, v) = (1 + size(1 << 40), any::<u8>());
                let n = any_upto(c);
                let k = any_upto(c - 1);
                let mut a: Vec<u8> = Vec::with_capacity(c);
                #[cfg(not(kani))]
                fill(a.as_mut_ptr(), c);
                unsafe { a.set_len(n) };
                assume(k < n);
                a[k] = v;
                let mut b = from_vec(a);
                assert!(b.len() == n && b.capacity() >= n && b.as_slice()[k] == v);
                consistent(&mut b);
                cover!(n == 10 && c == 10);
            }

            #[kani::unwind(3)] fn push_inline() { push(any_inline()) }
            #[kani::unwind(3)] fn push_heap() { push(any_heap()) }
            #[kani::unwind(3)] fn extend_inline() { extend(any_inline()) }
            #[kani::unwind(3)] fn extend_heap() { extend(any_heap()) }
            #[kani::unwind(3)] fn extend_nothing_inline() { extend_nothing(any_inline()) }
            #[kani::unwind(3)] fn extend_nothing_heap() { extend_nothing(any_heap()) }
            #[kani::unwind(3)] fn reserve_inline() { reserve(any_inline()) }
            #[kani::unwind(3)] fn reserve_heap() { reserve(any_heap()) }
            #[kani::unwind(3)] fn resize_inline() { resize(any_inline()) }
            #[kani::unwind(3)] fn resize_heap() { resize(any_heap()) }
            #[kani::unwind(3)] fn write_inline() { write_one(any_inline()) }
            #[kani::unwind(3)] fn write_heap() { write_one(any_heap()) }
            #[kani::unwind(3)] fn clone_inline() { clone(any_inline()) }
            #[kani::unwind(3)] fn clone_heap() { clone(any_heap()) }
            #[kani::unwind(3)] fn into_vec_inline() { into_vec(any_inline()) }
            #[kani::unwind(3)] fn into_vec_heap() { into_vec(any_heap()) }
        }
    };
}
