//! Oracle shared by the checks of the base32, base64 and URL-safe base64 validators.

#[derive(Clone, Copy, PartialEq)]
pub enum Pad {
    Must,
    Allow,
    Disallow,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Base {
    B32,
    B64,
    Url,
}

pub const fn letter(base: Base, b: u8) -> Option<u8> {
    match base {
        Base::B32 => match b {
            b'A'..=b'Z' => Some(b - b'A'),
            b'2'..=b'7' => Some(b - b'2' + 26),
            _ => None,
        },
        Base::B64 | Base::Url => match b {
            b'A'..=b'Z' => Some(b - b'A'),
            b'a'..=b'z' => Some(b - b'a' + 26),
            b'0'..=b'9' => Some(b - b'0' + 52),
            b'+' if matches!(base, Base::B64) => Some(62),
            b'/' if matches!(base, Base::B64) => Some(63),
            b'-' if matches!(base, Base::Url) => Some(62),
            b'_' if matches!(base, Base::Url) => Some(63),
            _ => None,
        },
    }
}

/// number of leading letters when the text is well-formed
pub fn want(base: Base, pad: Pad, v: &[u8]) -> Option<usize> {
    if v.is_empty() {
        return None;
    }
    let mut n = 0;
    let mut ended = false;
    let mut i = 0;
    while i < v.len() {
        if v[i] == b'=' {
            ended = true;
        } else {
            if ended || letter(base, v[i]).is_none() {
                return None;
            }
            n += 1;
        }
        i += 1;
    }
    let block = if base == Base::B32 { 8 } else { 4 };
    let possible = match base {
        Base::B32 => !matches!(n % 8, 1 | 3 | 6),
        _ => n % 4 != 1,
    };
    // the padding which completes the last block, or none
    let full = v.len() % block == 0 && v.len() - n < block;
    let bare = v.len() == n;
    let shape = match pad {
        Pad::Must => full,
        Pad::Disallow => bare,
        Pad::Allow => full || bare,
    };
    if n > 0 && possible && shape { Some(n) } else { None }
}

pub trait BaseN: Sized {
    const BASE: Base;
    const PAD: Pad;
    fn str_(s: &str) -> Option<Vec<u8>>;
    fn string_(s: &str) -> Option<Vec<u8>>;
    fn slice_(s: &[u8]) -> Option<Vec<u8>>;
    fn vec_(s: &[u8]) -> Option<Vec<u8>>;
    fn validate_str_(s: &str) -> bool;
    fn validate_slice_(s: &[u8]) -> bool;
}

pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

macro_rules! basen_type {
    ($kind:ident, $name:ident, $base:ident, $pad:ident, $inner:ty) => {
        #[derive(Validator)]
        #[validator($kind(padding($pad)))]
        pub struct $name(pub $inner);
        impl BaseN for $name {
            const BASE: Base = Base::$base;
            const PAD: Pad = Pad::$pad;
            fn str_(s: &str) -> Option<Vec<u8>> {
                $name::parse_str(s).ok().map(|v| v.0.into())
            }
            fn string_(s: &str) -> Option<Vec<u8>> {
                $name::parse_string(s).ok().map(|v| v.0.into())
            }
            fn slice_(s: &[u8]) -> Option<Vec<u8>> {
                $name::parse_u8_slice(s).ok().map(|v| v.0.into())
            }
            fn vec_(s: &[u8]) -> Option<Vec<u8>> {
                $name::parse_vec_u8(s).ok().map(|v| v.0.into())
            }
            fn validate_str_(s: &str) -> bool {
                $name::validate_str(s).is_ok()
            }
            fn validate_slice_(s: &[u8]) -> bool {
                $name::validate_u8_slice(s).is_ok()
            }
        }
    };
}
