//! Oracle shared by the checks of the MAC address and UUID validators.
use crate::util::{st, Src};
#[cfg(not(kani))]
use crate::kani;

#[derive(Clone, Copy, PartialEq)]
pub enum Sep {
    Must(u8),
    Allow(u8),
    Disallow,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Case {
    Any,
    Upper,
    Lower,
}

pub trait HexId: Sized {
    const SEP: Sep;
    const CASE: Case;
    /// 12 or 32
    const DIGITS: usize;
    fn str_(s: &str) -> Option<u128>;
    fn string_(s: &str) -> Option<u128>;
    fn validate_(s: &str) -> bool;
    fn text_(v: u128) -> String;
}

/// a separator may stand after this number of digits
pub const fn boundary(digits: usize, n: usize) -> bool {
    if digits == 12 { n > 0 && n < 12 && n % 2 == 0 } else { matches!(n, 8 | 12 | 16 | 20) }
}

pub struct Scan {
    digits: usize,
    seps: usize,
    value: u128,
    after_sep: bool,
    ok: bool,
}

/// one more byte
fn step<T: HexId>(c: &mut Scan, b: u8) {
    let sep = match T::SEP {
        Sep::Must(x) | Sep::Allow(x) => b == x,
        Sep::Disallow => false,
    };
    if sep {
        if c.after_sep || !boundary(T::DIGITS, c.digits) {
            c.ok = false;
        }
        c.seps += 1;
        c.after_sep = true;
    } else {
        let d = match b {
            b'0'..=b'9' => b - b'0',
            b'a'..=b'f' if T::CASE != Case::Upper => b - b'a' + 10,
            b'A'..=b'F' if T::CASE != Case::Lower => b - b'A' + 10,
            _ => {
                c.ok = false;
                0
            }
        };
        if c.digits == T::DIGITS {
            c.ok = false;
        }
        c.value = (c.value << 4) | d as u128;
        c.digits += 1;
        c.after_sep = false;
    }
}

/// (two nested loops: no loop of the harness turns more often than the ones of the code)
pub fn want<T: HexId>(v: &[u8]) -> Option<u128> {
    let mut c = Scan { digits: 0, seps: 0, value: 0, after_sep: false, ok: true };
    let mut i = 0;
    while i < v.len() {
        let mut k = 0;
        while k < 6 && i < v.len() {
            step::<T>(&mut c, v[i]);
            i += 1;
            k += 1;
        }
    }
    let all = if T::DIGITS == 12 { 5 } else { 4 };
    if !c.ok || c.digits != T::DIGITS || matches!(T::SEP, Sep::Must(_)) && c.seps != all {
        return None;
    }
    Some(c.value)
}

/// every ASCII string of N bytes
pub fn parse<T: HexId, const N: usize>(s: &mut Src) -> bool {
    let b: [u8; N] = raw(s);
    parsed::<T>(&b)
}

/// every ASCII string of N bytes
pub fn validate<T: HexId, const N: usize>(s: &mut Src) -> bool {
    let b: [u8; N] = raw(s);
    let w = want::<T>(&b).is_some();
    assert!(T::validate_(st(&b)) == w, "validating accepts exactly the well-formed text");
    w
}

fn raw<const N: usize>(s: &mut Src) -> [u8; N] {
    let mut b = [0u8; N];
    let mut i = 0;
    while i < N {
        let mut k = 0;
        while k < 8 && i < N {
            b[i] = s.within(0, 127);
            i += 1;
            k += 1;
        }
    }
    b
}

/// every ASCII string of LO to HI bytes: refused
pub fn refuses<T: HexId, const LO: usize, const HI: usize>(s: &mut Src) -> bool {
    let b: [u8; HI] = raw(s);
    let mut n = LO;
    while n <= HI {
        assert!(T::str_(st(&b[..n])).is_none() && !T::validate_(st(&b[..n])), "too short or too long text is refused");
        n += 1;
    }
    false
}

fn parsed<T: HexId>(b: &[u8]) -> bool {
    let w = want::<T>(b);
    match T::str_(st(b)) {
        Some(r) => {
            assert!(w.is_some(), "only well-formed text is accepted");
            assert!(r == w.unwrap(), "the number is the one written");
        }
        None => assert!(w.is_none(), "well-formed text is accepted"),
    }
    w.is_some()
}

/// every ASCII string of N bytes with a two-byte character at any place: refused
pub fn multi<T: HexId, const N: usize>(s: &mut Src) -> bool {
    let mut b: [u8; N] = raw(s);
    let p = s.within(0, N as u8 - 2) as usize;
    b[p] = 0xC2;
    b[p + 1] = 0x80 | (s.u8() & 0x3F);
    assert!(T::str_(st(&b)).is_none() && !T::validate_(st(&b)), "other characters are refused");
    false
}

/// owned strings
pub fn owned<T: HexId, const N: usize>(s: &mut Src) -> bool {
    let b: [u8; N] = raw(s);
    let w = want::<T>(&b);
    match T::string_(st(&b)) {
        Some(r) => assert!(w.is_some() && r == w.unwrap(), "an owned string gives the same number"),
        None => assert!(w.is_none(), "an owned string gives the same verdict"),
    }
    w.is_some()
}

pub fn printed<T: HexId>(v: u128) {
    let t = T::text_(v);
    let t = t.as_bytes();
    let mut i = 0;
    let mut digits = 0;
    let mut pos = 0;
    let hex: &[u8; 16] = if T::CASE != Case::Lower { b"0123456789ABCDEF" } else { b"0123456789abcdef" };
    while i < T::DIGITS {
        match T::SEP {
            Sep::Must(c) | Sep::Allow(c) => {
                if boundary(T::DIGITS, i) {
                    assert!(pos < t.len() && t[pos] == c, "the separator stands between the groups");
                    pos += 1;
                }
            }
            Sep::Disallow => (),
        }
        let d = (v >> (4 * (T::DIGITS - 1 - i))) as usize & 15;
        assert!(pos < t.len() && t[pos] == hex[d], "the digits spell the value");
        pos += 1;
        digits += 1;
        i += 1;
    }
    assert!(pos == t.len() && digits == T::DIGITS, "nothing else is written");
}

/// every value: the text is exactly the one expected
pub fn prints<T: HexId>(s: &mut Src) -> bool {
    let v = if T::DIGITS == 12 { s.u64() as u128 } else { s.u128() };
    kani::assume(T::DIGITS != 12 || v < 1 << 48);
    printed::<T>(v);
    true
}

/// every value: the text parses back
pub fn back<T: HexId>(s: &mut Src) -> bool {
    let v = if T::DIGITS == 12 { s.u64() as u128 } else { s.u128() };
    kani::assume(T::DIGITS != 12 || v < 1 << 48);
    let t = T::text_(v);
    assert!(T::str_(&t) == Some(v), "the text parses back to the value");
    true
}

macro_rules! hexid_type {
    ($kind:ident, $name:ident, $inner:ty, $digits:literal, $trait:ident, $to:ident, ($($attr:tt)*), $sep:expr, $case:ident) => {
        #[derive(Validator)]
        #[validator($kind($($attr)*))]
        pub struct $name(pub $inner);
        impl HexId for $name {
            const SEP: Sep = $sep;
            const CASE: Case = Case::$case;
            const DIGITS: usize = $digits;
            fn str_(s: &str) -> Option<u128> {
                $name::parse_str(s).ok().map(|v| v.0 as u128)
            }
            fn string_(s: &str) -> Option<u128> {
                $name::parse_string(s).ok().map(|v| v.0 as u128)
            }
            fn validate_(s: &str) -> bool {
                $name::validate_str(s).is_ok()
            }
            fn text_(v: u128) -> String {
                $trait::$to(&$name(v as $inner))
            }
        }
    };
}

macro_rules! mac_types {
    () => {
        hexid_type!(mac_address, MacMustAny, u64, 12, ToMacAddressString, to_mac_address_string, (case(Any), separator(Must(b':'))), Sep::Must(b':'), Any);
        hexid_type!(mac_address, MacMustUpper, u64, 12, ToMacAddressString, to_mac_address_string, (case(Upper), separator(Must(b'-'))), Sep::Must(b'-'), Upper);
        hexid_type!(mac_address, MacMustLower, u64, 12, ToMacAddressString, to_mac_address_string, (case(Lower), separator(Must(b':'))), Sep::Must(b':'), Lower);
        hexid_type!(mac_address, MacAllowAny, u64, 12, ToMacAddressString, to_mac_address_string, (case(Any), separator(Allow(b':'))), Sep::Allow(b':'), Any);
        hexid_type!(mac_address, MacAllowUpper, u64, 12, ToMacAddressString, to_mac_address_string, (case(Upper), separator(Allow(b'.'))), Sep::Allow(b'.'), Upper);
        hexid_type!(mac_address, MacAllowLower, u64, 12, ToMacAddressString, to_mac_address_string, (case(Lower), separator(Allow(b':'))), Sep::Allow(b':'), Lower);
        hexid_type!(mac_address, MacNoneAny, u64, 12, ToMacAddressString, to_mac_address_string, (case(Any), separator(Disallow)), Sep::Disallow, Any);
        hexid_type!(mac_address, MacNoneUpper, u64, 12, ToMacAddressString, to_mac_address_string, (case(Upper), separator(Disallow)), Sep::Disallow, Upper);
        hexid_type!(mac_address, MacNoneLower, u64, 12, ToMacAddressString, to_mac_address_string, (case(Lower), separator(Disallow)), Sep::Disallow, Lower);
    };
}

macro_rules! uuid_types {
    () => {
        hexid_type!(uuid, UuidMustAny, u128, 32, ToUuidString, to_uuid_string, (case(Any), separator(Must(b'-'))), Sep::Must(b'-'), Any);
        hexid_type!(uuid, UuidMustUpper, u128, 32, ToUuidString, to_uuid_string, (case(Upper), separator(Must(b'_'))), Sep::Must(b'_'), Upper);
        hexid_type!(uuid, UuidMustLower, u128, 32, ToUuidString, to_uuid_string, (case(Lower), separator(Must(b'-'))), Sep::Must(b'-'), Lower);
        hexid_type!(uuid, UuidAllowAny, u128, 32, ToUuidString, to_uuid_string, (case(Any), separator(Allow(b'-'))), Sep::Allow(b'-'), Any);
        hexid_type!(uuid, UuidAllowUpper, u128, 32, ToUuidString, to_uuid_string, (case(Upper), separator(Allow(b'.'))), Sep::Allow(b'.'), Upper);
        hexid_type!(uuid, UuidAllowLower, u128, 32, ToUuidString, to_uuid_string, (case(Lower), separator(Allow(b'-'))), Sep::Allow(b'-'), Lower);
        hexid_type!(uuid, UuidNoneAny, u128, 32, ToUuidString, to_uuid_string, (case(Any), separator(Disallow)), Sep::Disallow, Any);
        hexid_type!(uuid, UuidNoneUpper, u128, 32, ToUuidString, to_uuid_string, (case(Upper), separator(Disallow)), Sep::Disallow, Upper);
        hexid_type!(uuid, UuidNoneLower, u128, 32, ToUuidString, to_uuid_string, (case(Lower), separator(Disallow)), Sep::Disallow, Lower);
    };
}
