use validators::errors::SignedIntegerError;
use validators::prelude::*;

use crate::ints::{Form, Get, Want};
use crate::util::st;

fn kind<T>(r: Result<T, SignedIntegerError>) -> (Option<Want>, Option<T>) {
    match r {
        Ok(v) => (Some(Want::Ok), Some(v)),
        Err(SignedIntegerError::TooSmall) => (Some(Want::TooSmall), None),
        Err(SignedIntegerError::TooLarge) => (Some(Want::TooLarge), None),
        Err(SignedIntegerError::Forbidden) => (Some(Want::Forbidden), None),
        Err(_) => (None, None),
    }
}

pub trait Int: Copy + PartialOrd {
    const LO: i128;
    const HI: i128;
    fn narrow(v: i128) -> Self;
    fn widen(self) -> i128;
}

macro_rules! int {
    ($($t:ident)*) => {
        $(impl Int for $t {
            const LO: i128 = $t::MIN as i128;
            const HI: i128 = $t::MAX as i128;
            fn narrow(v: i128) -> Self { v as $t }
            fn widen(self) -> i128 { self as i128 }
        })*
    };
}
int!(i128 isize i64 i32 i16 i8);

/// The result of a pair of entry points for the number x, against the reference.
fn agree<V: Get<T>, T: Int>(form: &Form<T>, x: i128, r: Result<V, SignedIntegerError>, v: Result<(), SignedIntegerError>) {
    let want = if x > T::HI {
        Want::TooLarge
    } else if x < T::LO {
        Want::TooSmall
    } else {
        form.want(T::narrow(x))
    };
    let (k, value) = kind(r);
    assert!(k == Some(want), "parsing accepts a number iff it is in the range, and names the bound it breaks");
    if let Some(value) = value {
        assert!(value.get().widen() == x, "the value is kept");
    }
    assert!(kind(v).0 == Some(want), "validating agrees with parsing");
}

fn check_wide<V: ValidateSignedInteger<Error = SignedIntegerError> + Get<T>, T: Int>(form: Form<T>, a: &All) {
    agree(&form, a.i128, V::parse_i128(a.i128), V::validate_i128(a.i128));
}

struct All {
    i128: i128,
    isize: isize,
    i64: i64,
    i32: i32,
    i16: i16,
    i8: i8,
}

fn all(s: &mut crate::util::Src) -> All {
    All {
        i128: s.u128() as i128,
        isize: s.u64() as isize,
        i64: s.u64() as i64,
        i32: s.u32() as i32,
        i16: s.u16() as i16,
        i8: s.u8() as i8,
    }
}

fn check<V: ValidateSignedInteger<Error = SignedIntegerError> + Get<T>, T: Int>(form: Form<T>, a: &All) {
    agree(&form, a.i128.widen(), V::parse_i128(a.i128), V::validate_i128(a.i128));
    agree(&form, a.isize.widen(), V::parse_isize(a.isize), V::validate_isize(a.isize));
    agree(&form, a.i64.widen(), V::parse_i64(a.i64), V::validate_i64(a.i64));
    agree(&form, a.i32.widen(), V::parse_i32(a.i32), V::validate_i32(a.i32));
    agree(&form, a.i16.widen(), V::parse_i16(a.i16), V::validate_i16(a.i16));
    agree(&form, a.i8.widen(), V::parse_i8(a.i8), V::validate_i8(a.i8));
}

int_forms!(i8_0, signed_integer, i8, -5, 9);
harness!(#[kani::unwind(20)] q_i8_0, bytes = 39, bound = "i8, every range form over -5 and 9; every value of every integer width", |s| {
    let a = all(s);
    int_all_forms!(i8_0, i8, -5, 9, check, &a);
    cover!(i8_0::In::parse_i128(a.i128).is_ok(), "accepts");
    cover!(i8_0::In::parse_i128(a.i128).is_err(), "rejects");
});

int_forms!(i8_1, signed_integer, i8, -128, 126);
harness!(#[kani::unwind(20)] q_i8_1, bytes = 39, bound = "i8, every range form over -128 and 126; every i128 value", |s| {
    let a = all(s);
    int_all_forms!(i8_1, i8, -128, 126, check_wide, &a);
    cover!(i8_1::In::parse_i128(a.i128).is_ok(), "accepts");
    cover!(i8_1::In::parse_i128(a.i128).is_err(), "rejects");
});

int_forms!(i8_2, signed_integer, i8, 3, 127);
harness!(#[kani::unwind(20)] q_i8_2, bytes = 39, bound = "i8, every range form over 3 and 127; every i128 value", |s| {
    let a = all(s);
    int_all_forms!(i8_2, i8, 3, 127, check_wide, &a);
    cover!(i8_2::In::parse_i128(a.i128).is_ok(), "accepts");
    cover!(i8_2::In::parse_i128(a.i128).is_err(), "rejects");
});

int_forms!(i16_0, signed_integer, i16, -300, 0);
harness!(#[kani::unwind(20)] q_i16_0, bytes = 39, bound = "i16, every range form over -300 and 0; every value of every integer width", |s| {
    let a = all(s);
    int_all_forms!(i16_0, i16, -300, 0, check, &a);
    cover!(i16_0::In::parse_i128(a.i128).is_ok(), "accepts");
    cover!(i16_0::In::parse_i128(a.i128).is_err(), "rejects");
});

int_forms!(i16_1, signed_integer, i16, -32768, 32766);
harness!(#[kani::unwind(20)] q_i16_1, bytes = 39, bound = "i16, every range form over -32768 and 32766; every i128 value", |s| {
    let a = all(s);
    int_all_forms!(i16_1, i16, -32768, 32766, check_wide, &a);
    cover!(i16_1::In::parse_i128(a.i128).is_ok(), "accepts");
    cover!(i16_1::In::parse_i128(a.i128).is_err(), "rejects");
});

int_forms!(i32_0, signed_integer, i32, -70000, 70000);
harness!(#[kani::unwind(20)] q_i32_0, bytes = 39, bound = "i32, every range form over -70000 and 70000; every value of every integer width", |s| {
    let a = all(s);
    int_all_forms!(i32_0, i32, -70000, 70000, check, &a);
    cover!(i32_0::In::parse_i128(a.i128).is_ok(), "accepts");
    cover!(i32_0::In::parse_i128(a.i128).is_err(), "rejects");
});

int_forms!(i32_1, signed_integer, i32, -2147483648, 2147483646);
harness!(#[kani::unwind(20)] q_i32_1, bytes = 39, bound = "i32, every range form over -2147483648 and 2147483646; every i128 value", |s| {
    let a = all(s);
    int_all_forms!(i32_1, i32, -2147483648, 2147483646, check_wide, &a);
    cover!(i32_1::In::parse_i128(a.i128).is_ok(), "accepts");
    cover!(i32_1::In::parse_i128(a.i128).is_err(), "rejects");
});

int_forms!(i64_0, signed_integer, i64, -5000000000, 7);
harness!(#[kani::unwind(20)] q_i64_0, bytes = 39, bound = "i64, every range form over -5000000000 and 7; every value of every integer width", |s| {
    let a = all(s);
    int_all_forms!(i64_0, i64, -5000000000, 7, check, &a);
    cover!(i64_0::In::parse_i128(a.i128).is_ok(), "accepts");
    cover!(i64_0::In::parse_i128(a.i128).is_err(), "rejects");
});

int_forms!(i64_1, signed_integer, i64, -9223372036854775808, 9223372036854775806);
harness!(#[kani::unwind(20)] q_i64_1, bytes = 39, bound = "i64, every range form over -9223372036854775808 and 9223372036854775806; every i128 value", |s| {
    let a = all(s);
    int_all_forms!(i64_1, i64, -9223372036854775808, 9223372036854775806, check_wide, &a);
    cover!(i64_1::In::parse_i128(a.i128).is_ok(), "accepts");
    cover!(i64_1::In::parse_i128(a.i128).is_err(), "rejects");
});

int_forms!(isize_0, signed_integer, isize, -1, 5000000000);
harness!(#[kani::unwind(20)] q_isize_0, bytes = 39, bound = "isize, every range form over -1 and 5000000000; every value of every integer width", |s| {
    let a = all(s);
    int_all_forms!(isize_0, isize, -1, 5000000000, check, &a);
    cover!(isize_0::In::parse_i128(a.i128).is_ok(), "accepts");
    cover!(isize_0::In::parse_i128(a.i128).is_err(), "rejects");
});

int_forms!(isize_1, signed_integer, isize, -9223372036854775808, 9223372036854775806);
harness!(#[kani::unwind(20)] q_isize_1, bytes = 39, bound = "isize, every range form over -9223372036854775808 and 9223372036854775806; every i128 value", |s| {
    let a = all(s);
    int_all_forms!(isize_1, isize, -9223372036854775808, 9223372036854775806, check_wide, &a);
    cover!(isize_1::In::parse_i128(a.i128).is_ok(), "accepts");
    cover!(isize_1::In::parse_i128(a.i128).is_err(), "rejects");
});

int_forms!(i128_0, signed_integer, i128, -5, 9);
harness!(#[kani::unwind(20)] q_i128_0, bytes = 39, bound = "i128, every range form over -5 and 9; every value of every integer width", |s| {
    let a = all(s);
    int_all_forms!(i128_0, i128, -5, 9, check, &a);
    cover!(i128_0::In::parse_i128(a.i128).is_ok(), "accepts");
    cover!(i128_0::In::parse_i128(a.i128).is_err(), "rejects");
});

int_forms!(i128_1, signed_integer, i128, -170141183460469231731687303715884105728, 170141183460469231731687303715884105726);
harness!(#[kani::unwind(20)] q_i128_1, bytes = 39, bound = "i128, every range form over -170141183460469231731687303715884105728 and 170141183460469231731687303715884105726; every i128 value", |s| {
    let a = all(s);
    int_all_forms!(i128_1, i128, -170141183460469231731687303715884105728, 170141183460469231731687303715884105726, check_wide, &a);
    cover!(i128_1::In::parse_i128(a.i128).is_ok(), "accepts");
    cover!(i128_1::In::parse_i128(a.i128).is_err(), "rejects");
});

/// The number a decimal string stands for: an optional sign, then digits only.
fn decimal(b: &[u8]) -> Option<i64> {
    let mut i = 0;
    let mut negative = false;
    if b.len() > 0 && (b[0] == b'+' || (true && b[0] == b'-')) {
        negative = b[0] == b'-';
        i = 1;
    }
    if i == b.len() {
        return None;
    }
    let mut v: i64 = 0;
    while i < b.len() {
        if b[i] < b'0' || b[i] > b'9' {
            return None;
        }
        v = v * 10 + (b[i] - b'0') as i64;
        i += 1;
    }
    Some(if negative { -v } else { v })
}

fn check_str<V: ValidateString<Error = SignedIntegerError> + Get<T>, T: Int>(form: Form<T>, b: &[u8]) {
    let want = match decimal(b) {
        Some(v) => v as i128 <= T::HI && v as i128 >= T::LO && form.want(T::narrow(v as i128)) == Want::Ok,
        None => false,
    };
    match V::parse_str(st(b)) {
        Ok(v) => {
            assert!(want, "only decimal numbers in the range are accepted");
            assert!(v.get().widen() == decimal(b).unwrap() as i128, "the value is the number written");
        },
        Err(_) => assert!(!want, "every decimal number in the range is accepted"),
    }
    assert!(V::validate_str(st(b)).is_ok() == want, "validating agrees with parsing");
}

harness!(#[kani::unwind(10)] q_str_0, bytes = 7, bound = "all ASCII strings of up to 6 bytes; i8 inside -5..=9", |s| {
    let buf = s.ascii::<6>();
    let b = &buf[..s.within(0, 6) as usize];
    check_str::<i8_0::In, i8>(Form::Inside(Some(-5), Some(9), true), b);
    cover!(i8_0::In::parse_str(st(b)).is_ok(), "accepts");
});
harness!(#[kani::unwind(10)] q_str_1, bytes = 7, bound = "all ASCII strings of up to 6 bytes; i16 outside -300..0", |s| {
    let buf = s.ascii::<6>();
    let b = &buf[..s.within(0, 6) as usize];
    check_str::<i16_0::OutX, i16>(Form::Outside(Some(-300), Some(0), false), b);
    cover!(i16_0::OutX::parse_str(st(b)).is_ok(), "accepts");
});
harness!(#[kani::unwind(10)] q_str_2, bytes = 7, bound = "all ASCII strings of up to 6 bytes; i8 unlimited", |s| {
    let buf = s.ascii::<6>();
    let b = &buf[..s.within(0, 6) as usize];
    check_str::<i8_0::Un, i8>(Form::Unlimited, b);
    cover!(i8_0::Un::parse_str(st(b)).is_ok(), "accepts");
});
harness!(#[kani::unwind(12)] t_str_0, bytes = 9, bound = "all ASCII strings of up to 8 bytes; i8 inside -5..=9", |s| {
    let buf = s.ascii::<8>();
    let b = &buf[..s.within(0, 8) as usize];
    check_str::<i8_0::In, i8>(Form::Inside(Some(-5), Some(9), true), b);
    cover!(i8_0::In::parse_str(st(b)).is_ok(), "accepts");
});
harness!(#[kani::unwind(12)] t_str_1, bytes = 9, bound = "all ASCII strings of up to 8 bytes; i16 outside -300..0", |s| {
    let buf = s.ascii::<8>();
    let b = &buf[..s.within(0, 8) as usize];
    check_str::<i16_0::OutX, i16>(Form::Outside(Some(-300), Some(0), false), b);
    cover!(i16_0::OutX::parse_str(st(b)).is_ok(), "accepts");
});
harness!(#[kani::unwind(12)] t_str_2, bytes = 9, bound = "all ASCII strings of up to 8 bytes; i8 unlimited", |s| {
    let buf = s.ascii::<8>();
    let b = &buf[..s.within(0, 8) as usize];
    check_str::<i8_0::Un, i8>(Form::Unlimited, b);
    cover!(i8_0::Un::parse_str(st(b)).is_ok(), "accepts");
});
