use validators::errors::UnsignedIntegerError;
use validators::prelude::*;

use crate::ints::{Form, Get, Want};
use crate::util::st;

fn kind<T>(r: Result<T, UnsignedIntegerError>) -> (Option<Want>, Option<T>) {
    match r {
        Ok(v) => (Some(Want::Ok), Some(v)),
        Err(UnsignedIntegerError::TooSmall) => (Some(Want::TooSmall), None),
        Err(UnsignedIntegerError::TooLarge) => (Some(Want::TooLarge), None),
        Err(UnsignedIntegerError::Forbidden) => (Some(Want::Forbidden), None),
        Err(_) => (None, None),
    }
}

pub trait Int: Copy + PartialOrd {
    const LO: u128;
    const HI: u128;
    fn narrow(v: u128) -> Self;
    fn widen(self) -> u128;
}

macro_rules! int {
    ($($t:ident)*) => {
        $(impl Int for $t {
            const LO: u128 = $t::MIN as u128;
            const HI: u128 = $t::MAX as u128;
            fn narrow(v: u128) -> Self { v as $t }
            fn widen(self) -> u128 { self as u128 }
        })*
    };
}
int!(u128 usize u64 u32 u16 u8);

/// The result of a pair of entry points for the number x, against the reference.
fn agree<V: Get<T>, T: Int>(form: &Form<T>, x: u128, r: Result<V, UnsignedIntegerError>, v: Result<(), UnsignedIntegerError>) {
    let want = if x > T::HI {
        Want::TooLarge
    } else if x < T::LO {
        Want::TooSmall
    } else {
        form.want(T::narrow(x))
    };
    let (k, value) = kind(r);
    assert!(k == Some(want), "parsing accepts a number iff it is in the range, and names the bound it breaks");
    if let Some(value) = value {
        assert!(value.get().widen() == x, "the value is kept");
    }
    assert!(kind(v).0 == Some(want), "validating agrees with parsing");
}

fn check_wide<V: ValidateUnsignedInteger<Error = UnsignedIntegerError> + Get<T>, T: Int>(form: Form<T>, a: &All) {
    agree(&form, a.u128, V::parse_u128(a.u128), V::validate_u128(a.u128));
}

struct All {
    u128: u128,
    usize: usize,
    u64: u64,
    u32: u32,
    u16: u16,
    u8: u8,
}

fn all(s: &mut crate::util::Src) -> All {
    All {
        u128: s.u128() as u128,
        usize: s.u64() as usize,
        u64: s.u64() as u64,
        u32: s.u32() as u32,
        u16: s.u16() as u16,
        u8: s.u8() as u8,
    }
}

fn check<V: ValidateUnsignedInteger<Error = UnsignedIntegerError> + Get<T>, T: Int>(form: Form<T>, a: &All) {
    agree(&form, a.u128.widen(), V::parse_u128(a.u128), V::validate_u128(a.u128));
    agree(&form, a.usize.widen(), V::parse_usize(a.usize), V::validate_usize(a.usize));
    agree(&form, a.u64.widen(), V::parse_u64(a.u64), V::validate_u64(a.u64));
    agree(&form, a.u32.widen(), V::parse_u32(a.u32), V::validate_u32(a.u32));
    agree(&form, a.u16.widen(), V::parse_u16(a.u16), V::validate_u16(a.u16));
    agree(&form, a.u8.widen(), V::parse_u8(a.u8), V::validate_u8(a.u8));
}

int_forms!(u8_0, unsigned_integer, u8, 5, 9);
harness!(#[kani::unwind(20)] q_u8_0, bytes = 39, bound = "u8, every range form over 5 and 9; every value of every integer width", |s| {
    let a = all(s);
    int_all_forms!(u8_0, u8, 5, 9, check, &a);
    cover!(u8_0::In::parse_u128(a.u128).is_ok(), "accepts");
    cover!(u8_0::In::parse_u128(a.u128).is_err(), "rejects");
});

int_forms!(u8_1, unsigned_integer, u8, 0, 254);
harness!(#[kani::unwind(20)] q_u8_1, bytes = 39, bound = "u8, every range form over 0 and 254; every u128 value", |s| {
    let a = all(s);
    int_all_forms!(u8_1, u8, 0, 254, check_wide, &a);
    cover!(u8_1::In::parse_u128(a.u128).is_ok(), "accepts");
    cover!(u8_1::In::parse_u128(a.u128).is_err(), "rejects");
});

int_forms!(u8_2, unsigned_integer, u8, 128, 255);
harness!(#[kani::unwind(20)] q_u8_2, bytes = 39, bound = "u8, every range form over 128 and 255; every u128 value", |s| {
    let a = all(s);
    int_all_forms!(u8_2, u8, 128, 255, check_wide, &a);
    cover!(u8_2::In::parse_u128(a.u128).is_ok(), "accepts");
    cover!(u8_2::In::parse_u128(a.u128).is_err(), "rejects");
});

int_forms!(u16_0, unsigned_integer, u16, 300, 40000);
harness!(#[kani::unwind(20)] q_u16_0, bytes = 39, bound = "u16, every range form over 300 and 40000; every value of every integer width", |s| {
    let a = all(s);
    int_all_forms!(u16_0, u16, 300, 40000, check, &a);
    cover!(u16_0::In::parse_u128(a.u128).is_ok(), "accepts");
    cover!(u16_0::In::parse_u128(a.u128).is_err(), "rejects");
});

int_forms!(u16_1, unsigned_integer, u16, 0, 65534);
harness!(#[kani::unwind(20)] q_u16_1, bytes = 39, bound = "u16, every range form over 0 and 65534; every u128 value", |s| {
    let a = all(s);
    int_all_forms!(u16_1, u16, 0, 65534, check_wide, &a);
    cover!(u16_1::In::parse_u128(a.u128).is_ok(), "accepts");
    cover!(u16_1::In::parse_u128(a.u128).is_err(), "rejects");
});

int_forms!(u32_0, unsigned_integer, u32, 70000, 3000000000);
harness!(#[kani::unwind(20)] q_u32_0, bytes = 39, bound = "u32, every range form over 70000 and 3000000000; every value of every integer width", |s| {
    let a = all(s);
    int_all_forms!(u32_0, u32, 70000, 3000000000, check, &a);
    cover!(u32_0::In::parse_u128(a.u128).is_ok(), "accepts");
    cover!(u32_0::In::parse_u128(a.u128).is_err(), "rejects");
});

int_forms!(u32_1, unsigned_integer, u32, 0, 4294967294);
harness!(#[kani::unwind(20)] q_u32_1, bytes = 39, bound = "u32, every range form over 0 and 4294967294; every u128 value", |s| {
    let a = all(s);
    int_all_forms!(u32_1, u32, 0, 4294967294, check_wide, &a);
    cover!(u32_1::In::parse_u128(a.u128).is_ok(), "accepts");
    cover!(u32_1::In::parse_u128(a.u128).is_err(), "rejects");
});

int_forms!(u64_0, unsigned_integer, u64, 7, 5000000000);
harness!(#[kani::unwind(20)] q_u64_0, bytes = 39, bound = "u64, every range form over 7 and 5000000000; every value of every integer width", |s| {
    let a = all(s);
    int_all_forms!(u64_0, u64, 7, 5000000000, check, &a);
    cover!(u64_0::In::parse_u128(a.u128).is_ok(), "accepts");
    cover!(u64_0::In::parse_u128(a.u128).is_err(), "rejects");
});

int_forms!(u64_1, unsigned_integer, u64, 1, 18446744073709551614);
harness!(#[kani::unwind(20)] q_u64_1, bytes = 39, bound = "u64, every range form over 1 and 18446744073709551614; every u128 value", |s| {
    let a = all(s);
    int_all_forms!(u64_1, u64, 1, 18446744073709551614, check_wide, &a);
    cover!(u64_1::In::parse_u128(a.u128).is_ok(), "accepts");
    cover!(u64_1::In::parse_u128(a.u128).is_err(), "rejects");
});

int_forms!(usize_0, unsigned_integer, usize, 1, 5000000000);
harness!(#[kani::unwind(20)] q_usize_0, bytes = 39, bound = "usize, every range form over 1 and 5000000000; every value of every integer width", |s| {
    let a = all(s);
    int_all_forms!(usize_0, usize, 1, 5000000000, check, &a);
    cover!(usize_0::In::parse_u128(a.u128).is_ok(), "accepts");
    cover!(usize_0::In::parse_u128(a.u128).is_err(), "rejects");
});

int_forms!(usize_1, unsigned_integer, usize, 0, 18446744073709551614);
harness!(#[kani::unwind(20)] q_usize_1, bytes = 39, bound = "usize, every range form over 0 and 18446744073709551614; every u128 value", |s| {
    let a = all(s);
    int_all_forms!(usize_1, usize, 0, 18446744073709551614, check_wide, &a);
    cover!(usize_1::In::parse_u128(a.u128).is_ok(), "accepts");
    cover!(usize_1::In::parse_u128(a.u128).is_err(), "rejects");
});

int_forms!(u128_0, unsigned_integer, u128, 5, 9);
harness!(#[kani::unwind(20)] q_u128_0, bytes = 39, bound = "u128, every range form over 5 and 9; every value of every integer width", |s| {
    let a = all(s);
    int_all_forms!(u128_0, u128, 5, 9, check, &a);
    cover!(u128_0::In::parse_u128(a.u128).is_ok(), "accepts");
    cover!(u128_0::In::parse_u128(a.u128).is_err(), "rejects");
});

int_forms!(u128_1, unsigned_integer, u128, 1, 340282366920938463463374607431768211454);
harness!(#[kani::unwind(20)] q_u128_1, bytes = 39, bound = "u128, every range form over 1 and 340282366920938463463374607431768211454; every u128 value", |s| {
    let a = all(s);
    int_all_forms!(u128_1, u128, 1, 340282366920938463463374607431768211454, check_wide, &a);
    cover!(u128_1::In::parse_u128(a.u128).is_ok(), "accepts");
    cover!(u128_1::In::parse_u128(a.u128).is_err(), "rejects");
});

/// The number a decimal string stands for: an optional sign, then digits only.
fn decimal(b: &[u8]) -> Option<i64> {
    let mut i = 0;
    let mut negative = false;
    if b.len() > 0 && (b[0] == b'+' || (false && b[0] == b'-')) {
        negative = b[0] == b'-';
        i = 1;
    }
    if i == b.len() {
        return None;
    }
    let mut v: i64 = 0;
    while i < b.len() {
        if b[i] < b'0' || b[i] > b'9' {
            return None;
        }
        v = v * 10 + (b[i] - b'0') as i64;
        i += 1;
    }
    Some(if negative { -v } else { v })
}

fn check_str<V: ValidateString<Error = UnsignedIntegerError> + Get<T>, T: Int>(form: Form<T>, b: &[u8]) {
    let want = match decimal(b) {
        Some(v) => v as u128 <= T::HI && v as u128 >= T::LO && form.want(T::narrow(v as u128)) == Want::Ok,
        None => false,
    };
    match V::parse_str(st(b)) {
        Ok(v) => {
            assert!(want, "only decimal numbers in the range are accepted");
            assert!(v.get().widen() == decimal(b).unwrap() as u128, "the value is the number written");
        },
        Err(_) => assert!(!want, "every decimal number in the range is accepted"),
    }
    assert!(V::validate_str(st(b)).is_ok() == want, "validating agrees with parsing");
}

harness!(#[kani::unwind(10)] q_str_0, bytes = 7, bound = "all ASCII strings of up to 6 bytes; u8 inside 5..=9", |s| {
    let buf = s.ascii::<6>();
    let b = &buf[..s.within(0, 6) as usize];
    check_str::<u8_0::In, u8>(Form::Inside(Some(5), Some(9), true), b);
    cover!(u8_0::In::parse_str(st(b)).is_ok(), "accepts");
});
harness!(#[kani::unwind(10)] q_str_1, bytes = 7, bound = "all ASCII strings of up to 6 bytes; u16 outside 300..40000", |s| {
    let buf = s.ascii::<6>();
    let b = &buf[..s.within(0, 6) as usize];
    check_str::<u16_0::OutX, u16>(Form::Outside(Some(300), Some(40000), false), b);
    cover!(u16_0::OutX::parse_str(st(b)).is_ok(), "accepts");
});
harness!(#[kani::unwind(10)] q_str_2, bytes = 7, bound = "all ASCII strings of up to 6 bytes; u8 unlimited", |s| {
    let buf = s.ascii::<6>();
    let b = &buf[..s.within(0, 6) as usize];
    check_str::<u8_0::Un, u8>(Form::Unlimited, b);
    cover!(u8_0::Un::parse_str(st(b)).is_ok(), "accepts");
});
harness!(#[kani::unwind(12)] t_str_0, bytes = 9, bound = "all ASCII strings of up to 8 bytes; u8 inside 5..=9", |s| {
    let buf = s.ascii::<8>();
    let b = &buf[..s.within(0, 8) as usize];
    check_str::<u8_0::In, u8>(Form::Inside(Some(5), Some(9), true), b);
    cover!(u8_0::In::parse_str(st(b)).is_ok(), "accepts");
});
harness!(#[kani::unwind(12)] t_str_1, bytes = 9, bound = "all ASCII strings of up to 8 bytes; u16 outside 300..40000", |s| {
    let buf = s.ascii::<8>();
    let b = &buf[..s.within(0, 8) as usize];
    check_str::<u16_0::OutX, u16>(Form::Outside(Some(300), Some(40000), false), b);
    cover!(u16_0::OutX::parse_str(st(b)).is_ok(), "accepts");
});
harness!(#[kani::unwind(12)] t_str_2, bytes = 9, bound = "all ASCII strings of up to 8 bytes; u8 unlimited", |s| {
    let buf = s.ascii::<8>();
    let b = &buf[..s.within(0, 8) as usize];
    check_str::<u8_0::Un, u8>(Form::Unlimited, b);
    cover!(u8_0::Un::parse_str(st(b)).is_ok(), "accepts");
});
