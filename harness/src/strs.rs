//! Oracle and configurations shared by the checks of the text and line validators.
use crate::util::{st, Src};
#[cfg(not(kani))]
use crate::kani;
use std::ops::Range;

pub trait Text: Sized {
    const BYTES: bool;
    const MIN: usize;
    const TRIMMED_MIN: usize;
    const MAX: usize;
    fn parse_str_(s: &str) -> Option<String>;
    fn parse_string_(s: String) -> Option<String>;
    fn validate_str_(s: &str) -> bool;
}

/// tab is allowed everywhere
pub const fn is_forbidden(c: char, line: bool) -> bool {
    let n = c as u32;
    n == 0x7F || (n < 0x20 && n != 9 && (line || !(n == 10 || n == 11 || n == 13)))
}

/// White_Space of Unicode, written down independently of std.
pub const fn is_white(c: char) -> bool {
    matches!(c as u32, 9..=13 | 0x20 | 0x85 | 0xA0 | 0x1680 | 0x2000..=0x200A | 0x2028 | 0x2029 | 0x202F | 0x205F | 0x3000)
}

/// The verdict for the given characters.
pub fn want<T: Text>(chars: &[char], line: bool) -> bool {
    let mut ok = true;
    let mut all = 0;
    let mut seen = false;
    let mut inner = 0;
    let mut pending = 0;
    let mut i = 0;
    while i < chars.len() {
        let c = chars[i];
        if is_forbidden(c, line) {
            ok = false;
        }
        let n = c as u32;
        let w = if !T::BYTES || n < 0x80 {
            1
        } else if n < 0x800 {
            2
        } else if n < 0x10000 {
            3
        } else {
            4
        };
        all += w;
        if is_white(c) {
            if seen {
                pending += w;
            }
        } else {
            seen = true;
            inner += pending + w;
            pending = 0;
        }
        i += 1;
    }
    ok && all >= T::MIN && all <= T::MAX && inner >= T::TRIMMED_MIN
}

pub fn same(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

/// up to C arbitrary characters, in a buffer of B = 4 C bytes; C + 1 groups of four bytes are consumed
pub fn unicode<T: Text, const C: usize, const B: usize>(s: &mut Src, line: bool) -> bool {
    let n = s.within(0, C as u8) as usize;
    let mut chars = ['\0'; C];
    let mut buf = [0u8; B];
    let mut p = 0;
    let mut i = 0;
    while i < C {
        let c = s.char();
        if i < n {
            chars[i] = c;
            p += c.encode_utf8(&mut buf[p..]).len();
        }
        i += 1;
    }
    let w = want::<T>(&chars[..n], line);
    assert!(T::validate_str_(st(&buf[..p])) == w, "accepted exactly when the characters and all the lengths are allowed");
    w
}

/// up to N arbitrary ASCII characters, through every entry point
pub fn ascii<T: Text, const N: usize>(s: &mut Src, line: bool) -> bool {
    let n = s.within(0, N as u8) as usize;
    let b = s.ascii::<N>();
    let mut chars = ['\0'; N];
    let mut i = 0;
    while i < N {
        chars[i] = b[i] as char;
        i += 1;
    }
    let w = want::<T>(&chars[..n], line);
    assert!(T::validate_str_(st(&b[..n])) == w, "accepted exactly when the characters and all the lengths are allowed");
    w
}

/// up to N ASCII characters, through every entry point, and the text is kept
pub fn kept<T: Text, const N: usize>(s: &mut Src, line: bool) -> bool {
    let n = s.within(0, N as u8) as usize;
    let b = s.ascii::<N>();
    let mut chars = ['\0'; N];
    let mut i = 0;
    while i < N {
        chars[i] = b[i] as char;
        i += 1;
    }
    let w = want::<T>(&chars[..n], line);
    let t = st(&b[..n]);
    match T::parse_str_(t) {
        Some(r) => assert!(w && same(&r, t), "the text is kept"),
        None => assert!(!w, "accepted exactly when the characters and all the lengths are allowed"),
    }
    match T::parse_string_(String::from(t)) {
        Some(r) => assert!(w && same(&r, t), "the text is kept"),
        None => assert!(!w, "accepted exactly when the characters and all the lengths are allowed"),
    }
    w
}

macro_rules! text_type {
    ($kind:ident, $name:ident, ($($attr:tt)*), $bytes:literal, $min:expr, $tmin:expr, $max:expr) => {
        #[derive(Validator)]
        #[validator($kind($($attr)*))]
        pub struct $name(pub String);
        impl Text for $name {
            const BYTES: bool = $bytes;
            const MIN: usize = $min;
            const TRIMMED_MIN: usize = $tmin;
            const MAX: usize = $max;
            fn parse_str_(s: &str) -> Option<String> {
                $name::parse_str(s).ok().map(|v| v.0)
            }
            fn parse_string_(s: String) -> Option<String> {
                $name::parse_string(s).ok().map(|v| v.0)
            }
            fn validate_str_(s: &str) -> bool {
                $name::validate_str(s).is_ok()
            }
        }
    };
}

/// All combinations of length attributes.
macro_rules! text_types {
    ($kind:ident) => {
        text_type!($kind, Free, (), false, 0, 0, usize::MAX);
        text_type!($kind, CMin, (char_length(min = 2)), false, 2, 0, usize::MAX);
        text_type!($kind, CMax, (char_length(max = 2)), false, 0, 0, 2);
        text_type!($kind, CTMin, (char_length(trimmed_min = 2)), false, 0, 2, usize::MAX);
        text_type!($kind, CMinMax, (char_length(min = 2, max = 3)), false, 2, 0, 3);
        text_type!($kind, CTMinMin, (char_length(trimmed_min = 2, min = 3)), false, 3, 2, usize::MAX);
        text_type!($kind, CTMinMax, (char_length(trimmed_min = 2, max = 3)), false, 0, 2, 3);
        text_type!($kind, CTMinMinMax, (char_length(trimmed_min = 1, min = 2, max = 3)), false, 2, 1, 3);
        text_type!($kind, CTMinMin0, (char_length(trimmed_min = 0, min = 2)), false, 2, 0, usize::MAX);
        text_type!($kind, CTMinMax0, (char_length(trimmed_min = 0, max = 2)), false, 0, 0, 2);
        text_type!($kind, CTMinMinMax0, (char_length(trimmed_min = 0, min = 2, max = 3)), false, 2, 0, 3);
        text_type!($kind, CExact, (char_length(min = 2, max = 2)), false, 2, 0, 2);
        text_type!($kind, CTMin0, (char_length(trimmed_min = 0)), false, 0, 0, usize::MAX);
        text_type!($kind, CZero, (char_length(max = 0)), false, 0, 0, 0);
        text_type!($kind, BMin, (byte_length(min = 3)), true, 3, 0, usize::MAX);
        text_type!($kind, BMax, (byte_length(max = 5)), true, 0, 0, 5);
        text_type!($kind, BTMin, (byte_length(trimmed_min = 5)), true, 0, 5, usize::MAX);
        text_type!($kind, BMinMax, (byte_length(min = 3, max = 6)), true, 3, 0, 6);
        text_type!($kind, BTMinMin, (byte_length(trimmed_min = 5, min = 6)), true, 6, 5, usize::MAX);
        text_type!($kind, BTMinMax, (byte_length(trimmed_min = 5, max = 7)), true, 0, 5, 7);
        text_type!($kind, BTMinMinMax, (byte_length(trimmed_min = 5, min = 6, max = 7)), true, 6, 5, 7);
        text_type!($kind, BTMinMin0, (byte_length(trimmed_min = 0, min = 3)), true, 3, 0, usize::MAX);
        text_type!($kind, BTMinMax0, (byte_length(trimmed_min = 0, max = 4)), true, 0, 0, 4);
        text_type!($kind, BTMinMinMax0, (byte_length(trimmed_min = 0, min = 3, max = 5)), true, 3, 0, 5);
        text_type!($kind, BTMin0, (byte_length(trimmed_min = 0)), true, 0, 0, usize::MAX);
        // far trimmed minimum: inner white space in the middle of a trimmed text which is too short
        text_type!($kind, CLong, (char_length(trimmed_min = 5, min = 6, max = 7)), false, 6, 5, 7);
        text_type!($kind, BLong, (byte_length(trimmed_min = 5, min = 6, max = 7)), true, 6, 5, 7);
        text_type!($kind, CLongMin, (char_length(trimmed_min = 5, min = 6)), false, 6, 5, usize::MAX);
        text_type!($kind, BLongMin, (byte_length(trimmed_min = 5, min = 6)), true, 6, 5, usize::MAX);
        text_type!($kind, CLongMax, (char_length(trimmed_min = 5, max = 7)), false, 0, 5, 7);
        text_type!($kind, BLongMax, (byte_length(trimmed_min = 5, max = 7)), true, 0, 5, 7);
        text_type!($kind, CLongT, (char_length(trimmed_min = 5)), false, 0, 5, usize::MAX);
        text_type!($kind, BLongT, (byte_length(trimmed_min = 5)), true, 0, 5, usize::MAX);
    };
}
