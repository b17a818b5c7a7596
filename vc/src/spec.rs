//! X.690 as executable specification. Shares no code with the implementation.

/// Number of leading octets of `b` that form shortest-form identifier octets (8.1.2).
pub fn id_len(b: &[u8]) -> Option<usize> {
    if b.is_empty() {
        return None;
    }
    if b[0] & 0x1f != 0x1f {
        return Some(1);
    }
    // long form: base 128, first group not zero, number above 30
    if b.len() < 2 || b[1] == 0x80 || b[1] < 0x1f {
        return None;
    }
    let mut i = 1;
    while i < b.len() {
        if b[i] & 0x80 == 0 {
            return Some(i + 1);
        }
        i += 1;
    }
    None
}

/// `Some((value, n))`: the first `n` octets are length octets (8.1.3), shortest form, and fit usize.
/// `value` is `None` for the indefinite form.
pub fn len_octets(b: &[u8]) -> Option<(Option<usize>, usize)> {
    if b.is_empty() {
        return None;
    }
    let first = b[0];
    if first == 0x80 {
        return Some((None, 1));
    }
    if first < 0x80 {
        return Some((Some(first as usize), 1));
    }
    let k = (first & 0x7f) as usize;
    if k > 8 || b.len() < 1 + k {
        return None;
    }
    let mut v: u64 = 0;
    macro_rules! octets {
        ($($i:literal)*) => { $( if $i <= k { v = (v << 8) | b[$i] as u64; } )* };
    }
    octets!(1 2 3 4 5 6 7 8);
    // shortest: not representable in the short form, no leading zero octet
    if v < 0x80 || b[1] == 0 {
        return None;
    }
    Some((Some(v as usize), 1 + k))
}

/// How many octets the shortest form of length `n` takes.
pub fn len_size(n: usize) -> usize {
    let n = n as u64;
    if n < 0x80 {
        1
    } else if n < 1 << 8 {
        2
    } else if n < 1 << 16 {
        3
    } else if n < 1 << 24 {
        4
    } else if n < 1 << 32 {
        5
    } else if n < 1 << 40 {
        6
    } else if n < 1 << 48 {
        7
    } else if n < 1 << 56 {
        8
    } else {
        9
    }
}

/// Octet `k` of them.
pub fn len_octet(n: usize, k: usize) -> u8 {
    let s = len_size(n);
    if k > 0 {
        ((n as u64) >> (8 * (s - 1 - k))) as u8
    } else if s == 1 {
        n as u8
    } else {
        0x80 | (s - 1) as u8
    }
}

/// Shortest-form length octets.
pub fn len_encode(v: Option<usize>) -> ([u8; 9], usize) {
    let mut out = [0u8; 9];
    match v {
        None => {
            out[0] = 0x80;
            (out, 1)
        }
        Some(n) if n < 0x80 => {
            out[0] = n as u8;
            (out, 1)
        }
        Some(n) => {
            let n = n as u64;
            let mut k = 1;
            while k < 8 && (n >> (8 * k)) != 0 {
                k += 1;
            }
            out[0] = 0x80 | k as u8;
            let mut i = 0;
            while i < 8 {
                if i < k {
                    out[1 + i] = (n >> (8 * (k - 1 - i))) as u8;
                }
                i += 1;
            }
            (out, 1 + k)
        }
    }
}

/// Sizes of identifier, length octets and contents of the definite-length TLV `b` begins with.
pub fn der_tlv(b: &[u8]) -> Option<(usize, usize, usize)> {
    let i = id_len(b)?;
    let (v, l) = len_octets(&b[i..])?;
    let c = v?;
    if b.len() - i - l < c {
        return None;
    }
    Some((i, l, c))
}

/// Total size of the BER element `b` begins with.
///
/// An indefinite-length element is followed by elements up to its own end-of-contents `00 00`;
/// written as a scan with a counter of open elements.
pub fn ber_total(b: &[u8]) -> Option<usize> {
    let mut pos = 0;
    let mut open = 0usize;
    loop {
        let rest = &b[pos..];
        let i = id_len(rest)?;
        let (v, l) = len_octets(&rest[i..])?;
        match v {
            None => {
                open += 1;
                pos += i + l;
            }
            Some(c) => {
                if rest.len() - i - l < c {
                    return None;
                }
                pos += i + l + c;
                if i == 1 && rest[0] == 0 && c == 0 && open > 0 {
                    open -= 1;
                }
                if open == 0 {
                    return Some(pos);
                }
            }
        }
    }
}

/// Identifier octets for class (0..4), constructed flag and tag number, shortest form.
pub fn id_encode(class: u8, constructed: bool, number: u128) -> ([u8; 20], usize) {
    let mut out = [0u8; 20];
    let lead = (class << 6) | if constructed { 0x20 } else { 0 };
    if number < 31 {
        out[0] = lead | number as u8;
        return (out, 1);
    }
    out[0] = lead | 0x1f;
    let mut k = 1;
    while k < 19 && (number >> (7 * k)) != 0 {
        k += 1;
    }
    let mut i = 0;
    while i < 19 {
        if i < k {
            let group = (number >> (7 * (k - 1 - i))) as u8 & 0x7f;
            out[1 + i] = if i + 1 < k { group | 0x80 } else { group };
        }
        i += 1;
    }
    (out, 1 + k)
}

/// Tag number of shortest-form identifier octets; `None` when above 128 bits.
pub fn id_number(b: &[u8]) -> Option<u128> {
    if b.len() == 1 {
        return Some((b[0] & 0x1f) as u128);
    }
    let mut v: u128 = 0;
    let mut i = 1;
    while i < b.len() {
        if v >> 121 != 0 {
            return None;
        }
        v = (v << 7) | (b[i] & 0x7f) as u128;
        i += 1;
    }
    Some(v)
}

pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
