// Written by tools/gen_c26.py
use validators::byte_unit::{Bit, Byte};
use validators::prelude::*;

use crate::util::Src;

/// the verdict on `n` for a size which exists
fn inside(n: u128, min: Option<u128>, max: Option<u128>, inclusive: bool) -> bool {
    let mut ok = true;
    if let Some(min) = min {
        ok &= n >= min;
    }
    if let Some(max) = max {
        ok &= if inclusive || min == Some(max) { n <= max } else { n < max };
    }
    ok
}
#[derive(Validator)]
#[validator(bit)]
pub struct BitUn(pub Bit);
harness!(#[kani::unwind(4)] q_bit_wide_un, bytes = 16, bound = "every u128", |s| {
    let x = s.u128();
    let want = inside(x, None, None, true) && matches!(Bit::from_u128(x), Some(_));
    match BitUn::parse_u128(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitUn::validate_u128(x).is_ok() == want, "a size is validated as it is parsed");
});
harness!(#[kani::unwind(4)] q_bit_narrow_un, bytes = 8, bound = "every number of up to 64 bits", |s| {
    let x = s.u64();
    let want = inside(x as u128, None, None, true);
    match BitUn::parse_u64(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitUn::validate_u64(x).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u8;
    let want = inside(y as u128, None, None, true);
    match BitUn::parse_u8(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitUn::validate_u8(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u16;
    let want = inside(y as u128, None, None, true);
    match BitUn::parse_u16(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitUn::validate_u16(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u32;
    let want = inside(y as u128, None, None, true);
    match BitUn::parse_u32(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitUn::validate_u32(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as usize;
    let want = inside(y as u128, None, None, true);
    match BitUn::parse_usize(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitUn::validate_usize(y).is_ok() == want, "a size is validated as it is parsed");
});
#[derive(Validator)]
#[validator(bit(range(min = 5)))]
pub struct BitMi(pub Bit);
harness!(#[kani::unwind(4)] q_bit_wide_mi, bytes = 16, bound = "every u128", |s| {
    let x = s.u128();
    let want = inside(x, Some(5), None, true) && matches!(Bit::from_u128(x), Some(_));
    match BitMi::parse_u128(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitMi::validate_u128(x).is_ok() == want, "a size is validated as it is parsed");
});
harness!(#[kani::unwind(4)] q_bit_narrow_mi, bytes = 8, bound = "every number of up to 64 bits", |s| {
    let x = s.u64();
    let want = inside(x as u128, Some(5), None, true);
    match BitMi::parse_u64(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitMi::validate_u64(x).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u8;
    let want = inside(y as u128, Some(5), None, true);
    match BitMi::parse_u8(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitMi::validate_u8(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u16;
    let want = inside(y as u128, Some(5), None, true);
    match BitMi::parse_u16(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitMi::validate_u16(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u32;
    let want = inside(y as u128, Some(5), None, true);
    match BitMi::parse_u32(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitMi::validate_u32(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as usize;
    let want = inside(y as u128, Some(5), None, true);
    match BitMi::parse_usize(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitMi::validate_usize(y).is_ok() == want, "a size is validated as it is parsed");
});
#[derive(Validator)]
#[validator(bit(range(max = 100)))]
pub struct BitMa(pub Bit);
harness!(#[kani::unwind(4)] q_bit_wide_ma, bytes = 16, bound = "every u128", |s| {
    let x = s.u128();
    let want = inside(x, None, Some(100), true) && matches!(Bit::from_u128(x), Some(_));
    match BitMa::parse_u128(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitMa::validate_u128(x).is_ok() == want, "a size is validated as it is parsed");
});
harness!(#[kani::unwind(4)] q_bit_narrow_ma, bytes = 8, bound = "every number of up to 64 bits", |s| {
    let x = s.u64();
    let want = inside(x as u128, None, Some(100), true);
    match BitMa::parse_u64(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitMa::validate_u64(x).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u8;
    let want = inside(y as u128, None, Some(100), true);
    match BitMa::parse_u8(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitMa::validate_u8(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u16;
    let want = inside(y as u128, None, Some(100), true);
    match BitMa::parse_u16(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitMa::validate_u16(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u32;
    let want = inside(y as u128, None, Some(100), true);
    match BitMa::parse_u32(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitMa::validate_u32(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as usize;
    let want = inside(y as u128, None, Some(100), true);
    match BitMa::parse_usize(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitMa::validate_usize(y).is_ok() == want, "a size is validated as it is parsed");
});
#[derive(Validator)]
#[validator(bit(range(min = 5, max = 100)))]
pub struct BitIn(pub Bit);
harness!(#[kani::unwind(4)] q_bit_wide_in, bytes = 16, bound = "every u128", |s| {
    let x = s.u128();
    let want = inside(x, Some(5), Some(100), true) && matches!(Bit::from_u128(x), Some(_));
    match BitIn::parse_u128(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitIn::validate_u128(x).is_ok() == want, "a size is validated as it is parsed");
});
harness!(#[kani::unwind(4)] q_bit_narrow_in, bytes = 8, bound = "every number of up to 64 bits", |s| {
    let x = s.u64();
    let want = inside(x as u128, Some(5), Some(100), true);
    match BitIn::parse_u64(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitIn::validate_u64(x).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u8;
    let want = inside(y as u128, Some(5), Some(100), true);
    match BitIn::parse_u8(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitIn::validate_u8(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u16;
    let want = inside(y as u128, Some(5), Some(100), true);
    match BitIn::parse_u16(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitIn::validate_u16(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u32;
    let want = inside(y as u128, Some(5), Some(100), true);
    match BitIn::parse_u32(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitIn::validate_u32(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as usize;
    let want = inside(y as u128, Some(5), Some(100), true);
    match BitIn::parse_usize(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitIn::validate_usize(y).is_ok() == want, "a size is validated as it is parsed");
});
#[derive(Validator)]
#[validator(bit(range(min = 5, max = 100, inclusive = false)))]
pub struct BitEx(pub Bit);
harness!(#[kani::unwind(4)] q_bit_wide_ex, bytes = 16, bound = "every u128", |s| {
    let x = s.u128();
    let want = inside(x, Some(5), Some(100), false) && matches!(Bit::from_u128(x), Some(_));
    match BitEx::parse_u128(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitEx::validate_u128(x).is_ok() == want, "a size is validated as it is parsed");
});
harness!(#[kani::unwind(4)] q_bit_narrow_ex, bytes = 8, bound = "every number of up to 64 bits", |s| {
    let x = s.u64();
    let want = inside(x as u128, Some(5), Some(100), false);
    match BitEx::parse_u64(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitEx::validate_u64(x).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u8;
    let want = inside(y as u128, Some(5), Some(100), false);
    match BitEx::parse_u8(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitEx::validate_u8(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u16;
    let want = inside(y as u128, Some(5), Some(100), false);
    match BitEx::parse_u16(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitEx::validate_u16(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u32;
    let want = inside(y as u128, Some(5), Some(100), false);
    match BitEx::parse_u32(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitEx::validate_u32(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as usize;
    let want = inside(y as u128, Some(5), Some(100), false);
    match BitEx::parse_usize(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitEx::validate_usize(y).is_ok() == want, "a size is validated as it is parsed");
});
#[derive(Validator)]
#[validator(bit(range(min = 7, max = 7)))]
pub struct BitEq(pub Bit);
harness!(#[kani::unwind(4)] q_bit_wide_eq, bytes = 16, bound = "every u128", |s| {
    let x = s.u128();
    let want = inside(x, Some(7), Some(7), true) && matches!(Bit::from_u128(x), Some(_));
    match BitEq::parse_u128(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitEq::validate_u128(x).is_ok() == want, "a size is validated as it is parsed");
});
harness!(#[kani::unwind(4)] q_bit_narrow_eq, bytes = 8, bound = "every number of up to 64 bits", |s| {
    let x = s.u64();
    let want = inside(x as u128, Some(7), Some(7), true);
    match BitEq::parse_u64(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitEq::validate_u64(x).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u8;
    let want = inside(y as u128, Some(7), Some(7), true);
    match BitEq::parse_u8(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitEq::validate_u8(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u16;
    let want = inside(y as u128, Some(7), Some(7), true);
    match BitEq::parse_u16(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitEq::validate_u16(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u32;
    let want = inside(y as u128, Some(7), Some(7), true);
    match BitEq::parse_u32(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitEq::validate_u32(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as usize;
    let want = inside(y as u128, Some(7), Some(7), true);
    match BitEq::parse_usize(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitEq::validate_usize(y).is_ok() == want, "a size is validated as it is parsed");
});
#[derive(Validator)]
#[validator(bit(range(min = 0, max = 0)))]
pub struct BitZero(pub Bit);
harness!(#[kani::unwind(4)] q_bit_wide_zero, bytes = 16, bound = "every u128", |s| {
    let x = s.u128();
    let want = inside(x, Some(0), Some(0), true) && matches!(Bit::from_u128(x), Some(_));
    match BitZero::parse_u128(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitZero::validate_u128(x).is_ok() == want, "a size is validated as it is parsed");
});
harness!(#[kani::unwind(4)] q_bit_narrow_zero, bytes = 8, bound = "every number of up to 64 bits", |s| {
    let x = s.u64();
    let want = inside(x as u128, Some(0), Some(0), true);
    match BitZero::parse_u64(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitZero::validate_u64(x).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u8;
    let want = inside(y as u128, Some(0), Some(0), true);
    match BitZero::parse_u8(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitZero::validate_u8(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u16;
    let want = inside(y as u128, Some(0), Some(0), true);
    match BitZero::parse_u16(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitZero::validate_u16(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u32;
    let want = inside(y as u128, Some(0), Some(0), true);
    match BitZero::parse_u32(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitZero::validate_u32(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as usize;
    let want = inside(y as u128, Some(0), Some(0), true);
    match BitZero::parse_usize(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitZero::validate_usize(y).is_ok() == want, "a size is validated as it is parsed");
});
#[derive(Validator)]
#[validator(bit(range(max = 20000000000000000000, inclusive = false)))]
pub struct BitExMa(pub Bit);
harness!(#[kani::unwind(4)] q_bit_wide_exma, bytes = 16, bound = "every u128", |s| {
    let x = s.u128();
    let want = inside(x, None, Some(20000000000000000000), false) && matches!(Bit::from_u128(x), Some(_));
    match BitExMa::parse_u128(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitExMa::validate_u128(x).is_ok() == want, "a size is validated as it is parsed");
});
harness!(#[kani::unwind(4)] q_bit_narrow_exma, bytes = 8, bound = "every number of up to 64 bits", |s| {
    let x = s.u64();
    let want = inside(x as u128, None, Some(20000000000000000000), false);
    match BitExMa::parse_u64(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitExMa::validate_u64(x).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u8;
    let want = inside(y as u128, None, Some(20000000000000000000), false);
    match BitExMa::parse_u8(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitExMa::validate_u8(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u16;
    let want = inside(y as u128, None, Some(20000000000000000000), false);
    match BitExMa::parse_u16(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitExMa::validate_u16(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u32;
    let want = inside(y as u128, None, Some(20000000000000000000), false);
    match BitExMa::parse_u32(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitExMa::validate_u32(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as usize;
    let want = inside(y as u128, None, Some(20000000000000000000), false);
    match BitExMa::parse_usize(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitExMa::validate_usize(y).is_ok() == want, "a size is validated as it is parsed");
});
#[derive(Validator)]
#[validator(bit(range(min = 20000000000000000000, max = 100000000000000000000000000)))]
pub struct BitBig(pub Bit);
harness!(#[kani::unwind(4)] q_bit_wide_big, bytes = 16, bound = "every u128", |s| {
    let x = s.u128();
    let want = inside(x, Some(20000000000000000000), Some(100000000000000000000000000), true) && matches!(Bit::from_u128(x), Some(_));
    match BitBig::parse_u128(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitBig::validate_u128(x).is_ok() == want, "a size is validated as it is parsed");
});
harness!(#[kani::unwind(4)] q_bit_narrow_big, bytes = 8, bound = "every number of up to 64 bits", |s| {
    let x = s.u64();
    let want = inside(x as u128, Some(20000000000000000000), Some(100000000000000000000000000), true);
    match BitBig::parse_u64(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitBig::validate_u64(x).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u8;
    let want = inside(y as u128, Some(20000000000000000000), Some(100000000000000000000000000), true);
    match BitBig::parse_u8(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitBig::validate_u8(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u16;
    let want = inside(y as u128, Some(20000000000000000000), Some(100000000000000000000000000), true);
    match BitBig::parse_u16(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitBig::validate_u16(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u32;
    let want = inside(y as u128, Some(20000000000000000000), Some(100000000000000000000000000), true);
    match BitBig::parse_u32(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitBig::validate_u32(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as usize;
    let want = inside(y as u128, Some(20000000000000000000), Some(100000000000000000000000000), true);
    match BitBig::parse_usize(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(BitBig::validate_usize(y).is_ok() == want, "a size is validated as it is parsed");
});
#[derive(Validator)]
#[validator(byte)]
pub struct ByteUn(pub Byte);
harness!(#[kani::unwind(4)] q_byte_wide_un, bytes = 16, bound = "every u128", |s| {
    let x = s.u128();
    let want = inside(x, None, None, true) && matches!(Byte::from_u128(x), Some(_));
    match ByteUn::parse_u128(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteUn::validate_u128(x).is_ok() == want, "a size is validated as it is parsed");
});
harness!(#[kani::unwind(4)] q_byte_narrow_un, bytes = 8, bound = "every number of up to 64 bits", |s| {
    let x = s.u64();
    let want = inside(x as u128, None, None, true);
    match ByteUn::parse_u64(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteUn::validate_u64(x).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u8;
    let want = inside(y as u128, None, None, true);
    match ByteUn::parse_u8(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteUn::validate_u8(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u16;
    let want = inside(y as u128, None, None, true);
    match ByteUn::parse_u16(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteUn::validate_u16(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u32;
    let want = inside(y as u128, None, None, true);
    match ByteUn::parse_u32(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteUn::validate_u32(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as usize;
    let want = inside(y as u128, None, None, true);
    match ByteUn::parse_usize(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteUn::validate_usize(y).is_ok() == want, "a size is validated as it is parsed");
});
#[derive(Validator)]
#[validator(byte(range(min = 5)))]
pub struct ByteMi(pub Byte);
harness!(#[kani::unwind(4)] q_byte_wide_mi, bytes = 16, bound = "every u128", |s| {
    let x = s.u128();
    let want = inside(x, Some(5), None, true) && matches!(Byte::from_u128(x), Some(_));
    match ByteMi::parse_u128(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteMi::validate_u128(x).is_ok() == want, "a size is validated as it is parsed");
});
harness!(#[kani::unwind(4)] q_byte_narrow_mi, bytes = 8, bound = "every number of up to 64 bits", |s| {
    let x = s.u64();
    let want = inside(x as u128, Some(5), None, true);
    match ByteMi::parse_u64(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteMi::validate_u64(x).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u8;
    let want = inside(y as u128, Some(5), None, true);
    match ByteMi::parse_u8(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteMi::validate_u8(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u16;
    let want = inside(y as u128, Some(5), None, true);
    match ByteMi::parse_u16(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteMi::validate_u16(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u32;
    let want = inside(y as u128, Some(5), None, true);
    match ByteMi::parse_u32(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteMi::validate_u32(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as usize;
    let want = inside(y as u128, Some(5), None, true);
    match ByteMi::parse_usize(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteMi::validate_usize(y).is_ok() == want, "a size is validated as it is parsed");
});
#[derive(Validator)]
#[validator(byte(range(max = 100)))]
pub struct ByteMa(pub Byte);
harness!(#[kani::unwind(4)] q_byte_wide_ma, bytes = 16, bound = "every u128", |s| {
    let x = s.u128();
    let want = inside(x, None, Some(100), true) && matches!(Byte::from_u128(x), Some(_));
    match ByteMa::parse_u128(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteMa::validate_u128(x).is_ok() == want, "a size is validated as it is parsed");
});
harness!(#[kani::unwind(4)] q_byte_narrow_ma, bytes = 8, bound = "every number of up to 64 bits", |s| {
    let x = s.u64();
    let want = inside(x as u128, None, Some(100), true);
    match ByteMa::parse_u64(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteMa::validate_u64(x).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u8;
    let want = inside(y as u128, None, Some(100), true);
    match ByteMa::parse_u8(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteMa::validate_u8(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u16;
    let want = inside(y as u128, None, Some(100), true);
    match ByteMa::parse_u16(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteMa::validate_u16(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u32;
    let want = inside(y as u128, None, Some(100), true);
    match ByteMa::parse_u32(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteMa::validate_u32(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as usize;
    let want = inside(y as u128, None, Some(100), true);
    match ByteMa::parse_usize(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteMa::validate_usize(y).is_ok() == want, "a size is validated as it is parsed");
});
#[derive(Validator)]
#[validator(byte(range(min = 5, max = 100)))]
pub struct ByteIn(pub Byte);
harness!(#[kani::unwind(4)] q_byte_wide_in, bytes = 16, bound = "every u128", |s| {
    let x = s.u128();
    let want = inside(x, Some(5), Some(100), true) && matches!(Byte::from_u128(x), Some(_));
    match ByteIn::parse_u128(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteIn::validate_u128(x).is_ok() == want, "a size is validated as it is parsed");
});
harness!(#[kani::unwind(4)] q_byte_narrow_in, bytes = 8, bound = "every number of up to 64 bits", |s| {
    let x = s.u64();
    let want = inside(x as u128, Some(5), Some(100), true);
    match ByteIn::parse_u64(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteIn::validate_u64(x).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u8;
    let want = inside(y as u128, Some(5), Some(100), true);
    match ByteIn::parse_u8(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteIn::validate_u8(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u16;
    let want = inside(y as u128, Some(5), Some(100), true);
    match ByteIn::parse_u16(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteIn::validate_u16(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u32;
    let want = inside(y as u128, Some(5), Some(100), true);
    match ByteIn::parse_u32(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteIn::validate_u32(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as usize;
    let want = inside(y as u128, Some(5), Some(100), true);
    match ByteIn::parse_usize(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteIn::validate_usize(y).is_ok() == want, "a size is validated as it is parsed");
});
#[derive(Validator)]
#[validator(byte(range(min = 5, max = 100, inclusive = false)))]
pub struct ByteEx(pub Byte);
harness!(#[kani::unwind(4)] q_byte_wide_ex, bytes = 16, bound = "every u128", |s| {
    let x = s.u128();
    let want = inside(x, Some(5), Some(100), false) && matches!(Byte::from_u128(x), Some(_));
    match ByteEx::parse_u128(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteEx::validate_u128(x).is_ok() == want, "a size is validated as it is parsed");
});
harness!(#[kani::unwind(4)] q_byte_narrow_ex, bytes = 8, bound = "every number of up to 64 bits", |s| {
    let x = s.u64();
    let want = inside(x as u128, Some(5), Some(100), false);
    match ByteEx::parse_u64(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteEx::validate_u64(x).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u8;
    let want = inside(y as u128, Some(5), Some(100), false);
    match ByteEx::parse_u8(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteEx::validate_u8(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u16;
    let want = inside(y as u128, Some(5), Some(100), false);
    match ByteEx::parse_u16(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteEx::validate_u16(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u32;
    let want = inside(y as u128, Some(5), Some(100), false);
    match ByteEx::parse_u32(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteEx::validate_u32(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as usize;
    let want = inside(y as u128, Some(5), Some(100), false);
    match ByteEx::parse_usize(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteEx::validate_usize(y).is_ok() == want, "a size is validated as it is parsed");
});
#[derive(Validator)]
#[validator(byte(range(min = 7, max = 7)))]
pub struct ByteEq(pub Byte);
harness!(#[kani::unwind(4)] q_byte_wide_eq, bytes = 16, bound = "every u128", |s| {
    let x = s.u128();
    let want = inside(x, Some(7), Some(7), true) && matches!(Byte::from_u128(x), Some(_));
    match ByteEq::parse_u128(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteEq::validate_u128(x).is_ok() == want, "a size is validated as it is parsed");
});
harness!(#[kani::unwind(4)] q_byte_narrow_eq, bytes = 8, bound = "every number of up to 64 bits", |s| {
    let x = s.u64();
    let want = inside(x as u128, Some(7), Some(7), true);
    match ByteEq::parse_u64(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteEq::validate_u64(x).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u8;
    let want = inside(y as u128, Some(7), Some(7), true);
    match ByteEq::parse_u8(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteEq::validate_u8(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u16;
    let want = inside(y as u128, Some(7), Some(7), true);
    match ByteEq::parse_u16(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteEq::validate_u16(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u32;
    let want = inside(y as u128, Some(7), Some(7), true);
    match ByteEq::parse_u32(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteEq::validate_u32(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as usize;
    let want = inside(y as u128, Some(7), Some(7), true);
    match ByteEq::parse_usize(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteEq::validate_usize(y).is_ok() == want, "a size is validated as it is parsed");
});
#[derive(Validator)]
#[validator(byte(range(min = 0, max = 0)))]
pub struct ByteZero(pub Byte);
harness!(#[kani::unwind(4)] q_byte_wide_zero, bytes = 16, bound = "every u128", |s| {
    let x = s.u128();
    let want = inside(x, Some(0), Some(0), true) && matches!(Byte::from_u128(x), Some(_));
    match ByteZero::parse_u128(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteZero::validate_u128(x).is_ok() == want, "a size is validated as it is parsed");
});
harness!(#[kani::unwind(4)] q_byte_narrow_zero, bytes = 8, bound = "every number of up to 64 bits", |s| {
    let x = s.u64();
    let want = inside(x as u128, Some(0), Some(0), true);
    match ByteZero::parse_u64(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteZero::validate_u64(x).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u8;
    let want = inside(y as u128, Some(0), Some(0), true);
    match ByteZero::parse_u8(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteZero::validate_u8(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u16;
    let want = inside(y as u128, Some(0), Some(0), true);
    match ByteZero::parse_u16(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteZero::validate_u16(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u32;
    let want = inside(y as u128, Some(0), Some(0), true);
    match ByteZero::parse_u32(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteZero::validate_u32(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as usize;
    let want = inside(y as u128, Some(0), Some(0), true);
    match ByteZero::parse_usize(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteZero::validate_usize(y).is_ok() == want, "a size is validated as it is parsed");
});
#[derive(Validator)]
#[validator(byte(range(max = 20000000000000000000, inclusive = false)))]
pub struct ByteExMa(pub Byte);
harness!(#[kani::unwind(4)] q_byte_wide_exma, bytes = 16, bound = "every u128", |s| {
    let x = s.u128();
    let want = inside(x, None, Some(20000000000000000000), false) && matches!(Byte::from_u128(x), Some(_));
    match ByteExMa::parse_u128(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteExMa::validate_u128(x).is_ok() == want, "a size is validated as it is parsed");
});
harness!(#[kani::unwind(4)] q_byte_narrow_exma, bytes = 8, bound = "every number of up to 64 bits", |s| {
    let x = s.u64();
    let want = inside(x as u128, None, Some(20000000000000000000), false);
    match ByteExMa::parse_u64(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteExMa::validate_u64(x).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u8;
    let want = inside(y as u128, None, Some(20000000000000000000), false);
    match ByteExMa::parse_u8(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteExMa::validate_u8(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u16;
    let want = inside(y as u128, None, Some(20000000000000000000), false);
    match ByteExMa::parse_u16(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteExMa::validate_u16(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u32;
    let want = inside(y as u128, None, Some(20000000000000000000), false);
    match ByteExMa::parse_u32(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteExMa::validate_u32(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as usize;
    let want = inside(y as u128, None, Some(20000000000000000000), false);
    match ByteExMa::parse_usize(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteExMa::validate_usize(y).is_ok() == want, "a size is validated as it is parsed");
});
#[derive(Validator)]
#[validator(byte(range(min = 20000000000000000000, max = 100000000000000000000000000)))]
pub struct ByteBig(pub Byte);
harness!(#[kani::unwind(4)] q_byte_wide_big, bytes = 16, bound = "every u128", |s| {
    let x = s.u128();
    let want = inside(x, Some(20000000000000000000), Some(100000000000000000000000000), true) && matches!(Byte::from_u128(x), Some(_));
    match ByteBig::parse_u128(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteBig::validate_u128(x).is_ok() == want, "a size is validated as it is parsed");
});
harness!(#[kani::unwind(4)] q_byte_narrow_big, bytes = 8, bound = "every number of up to 64 bits", |s| {
    let x = s.u64();
    let want = inside(x as u128, Some(20000000000000000000), Some(100000000000000000000000000), true);
    match ByteBig::parse_u64(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteBig::validate_u64(x).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u8;
    let want = inside(y as u128, Some(20000000000000000000), Some(100000000000000000000000000), true);
    match ByteBig::parse_u8(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteBig::validate_u8(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u16;
    let want = inside(y as u128, Some(20000000000000000000), Some(100000000000000000000000000), true);
    match ByteBig::parse_u16(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteBig::validate_u16(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as u32;
    let want = inside(y as u128, Some(20000000000000000000), Some(100000000000000000000000000), true);
    match ByteBig::parse_u32(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteBig::validate_u32(y).is_ok() == want, "a size is validated as it is parsed");
    let y = x as usize;
    let want = inside(y as u128, Some(20000000000000000000), Some(100000000000000000000000000), true);
    match ByteBig::parse_usize(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(ByteBig::validate_usize(y).is_ok() == want, "a size is validated as it is parsed");
});
