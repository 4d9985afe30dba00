// Written by tools/gen_hexid.py
use crate::hexid::*;
use validators::prelude::*;
mac_types!();

harness!(#[kani::unwind(14)] q_parse_macallowany_12, bytes = 12, bound = "every ASCII string of 12 bytes; MacAllowAny", |s| {
    let w = parse::<MacAllowAny, 12>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_validate_macallowany_12, bytes = 12, bound = "every ASCII string of 12 bytes; MacAllowAny", |s| {
    let w = validate::<MacAllowAny, 12>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_parse_macallowany_13, bytes = 13, bound = "every ASCII string of 13 bytes; MacAllowAny", |s| {
    let w = parse::<MacAllowAny, 13>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_validate_macallowany_13, bytes = 13, bound = "every ASCII string of 13 bytes; MacAllowAny", |s| {
    let w = validate::<MacAllowAny, 13>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_parse_macallowany_14, bytes = 14, bound = "every ASCII string of 14 bytes; MacAllowAny", |s| {
    let w = parse::<MacAllowAny, 14>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_validate_macallowany_14, bytes = 14, bound = "every ASCII string of 14 bytes; MacAllowAny", |s| {
    let w = validate::<MacAllowAny, 14>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_parse_macallowany_15, bytes = 15, bound = "every ASCII string of 15 bytes; MacAllowAny", |s| {
    let w = parse::<MacAllowAny, 15>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_validate_macallowany_15, bytes = 15, bound = "every ASCII string of 15 bytes; MacAllowAny", |s| {
    let w = validate::<MacAllowAny, 15>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_parse_macallowany_16, bytes = 16, bound = "every ASCII string of 16 bytes; MacAllowAny", |s| {
    let w = parse::<MacAllowAny, 16>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_validate_macallowany_16, bytes = 16, bound = "every ASCII string of 16 bytes; MacAllowAny", |s| {
    let w = validate::<MacAllowAny, 16>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_parse_macallowany_17, bytes = 17, bound = "every ASCII string of 17 bytes; MacAllowAny", |s| {
    let w = parse::<MacAllowAny, 17>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_validate_macallowany_17, bytes = 17, bound = "every ASCII string of 17 bytes; MacAllowAny", |s| {
    let w = validate::<MacAllowAny, 17>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_parse_macallowupper_12, bytes = 12, bound = "every ASCII string of 12 bytes; MacAllowUpper", |s| {
    let w = parse::<MacAllowUpper, 12>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_validate_macallowupper_12, bytes = 12, bound = "every ASCII string of 12 bytes; MacAllowUpper", |s| {
    let w = validate::<MacAllowUpper, 12>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_parse_macallowupper_13, bytes = 13, bound = "every ASCII string of 13 bytes; MacAllowUpper", |s| {
    let w = parse::<MacAllowUpper, 13>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_validate_macallowupper_13, bytes = 13, bound = "every ASCII string of 13 bytes; MacAllowUpper", |s| {
    let w = validate::<MacAllowUpper, 13>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_parse_macallowupper_14, bytes = 14, bound = "every ASCII string of 14 bytes; MacAllowUpper", |s| {
    let w = parse::<MacAllowUpper, 14>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_validate_macallowupper_14, bytes = 14, bound = "every ASCII string of 14 bytes; MacAllowUpper", |s| {
    let w = validate::<MacAllowUpper, 14>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_parse_macallowupper_15, bytes = 15, bound = "every ASCII string of 15 bytes; MacAllowUpper", |s| {
    let w = parse::<MacAllowUpper, 15>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_validate_macallowupper_15, bytes = 15, bound = "every ASCII string of 15 bytes; MacAllowUpper", |s| {
    let w = validate::<MacAllowUpper, 15>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_parse_macallowupper_16, bytes = 16, bound = "every ASCII string of 16 bytes; MacAllowUpper", |s| {
    let w = parse::<MacAllowUpper, 16>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_validate_macallowupper_16, bytes = 16, bound = "every ASCII string of 16 bytes; MacAllowUpper", |s| {
    let w = validate::<MacAllowUpper, 16>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_parse_macallowupper_17, bytes = 17, bound = "every ASCII string of 17 bytes; MacAllowUpper", |s| {
    let w = parse::<MacAllowUpper, 17>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_validate_macallowupper_17, bytes = 17, bound = "every ASCII string of 17 bytes; MacAllowUpper", |s| {
    let w = validate::<MacAllowUpper, 17>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_parse_macallowlower_12, bytes = 12, bound = "every ASCII string of 12 bytes; MacAllowLower", |s| {
    let w = parse::<MacAllowLower, 12>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_validate_macallowlower_12, bytes = 12, bound = "every ASCII string of 12 bytes; MacAllowLower", |s| {
    let w = validate::<MacAllowLower, 12>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_parse_macallowlower_13, bytes = 13, bound = "every ASCII string of 13 bytes; MacAllowLower", |s| {
    let w = parse::<MacAllowLower, 13>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_validate_macallowlower_13, bytes = 13, bound = "every ASCII string of 13 bytes; MacAllowLower", |s| {
    let w = validate::<MacAllowLower, 13>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_parse_macallowlower_14, bytes = 14, bound = "every ASCII string of 14 bytes; MacAllowLower", |s| {
    let w = parse::<MacAllowLower, 14>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_validate_macallowlower_14, bytes = 14, bound = "every ASCII string of 14 bytes; MacAllowLower", |s| {
    let w = validate::<MacAllowLower, 14>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_parse_macallowlower_15, bytes = 15, bound = "every ASCII string of 15 bytes; MacAllowLower", |s| {
    let w = parse::<MacAllowLower, 15>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_validate_macallowlower_15, bytes = 15, bound = "every ASCII string of 15 bytes; MacAllowLower", |s| {
    let w = validate::<MacAllowLower, 15>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_parse_macallowlower_16, bytes = 16, bound = "every ASCII string of 16 bytes; MacAllowLower", |s| {
    let w = parse::<MacAllowLower, 16>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_validate_macallowlower_16, bytes = 16, bound = "every ASCII string of 16 bytes; MacAllowLower", |s| {
    let w = validate::<MacAllowLower, 16>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_parse_macallowlower_17, bytes = 17, bound = "every ASCII string of 17 bytes; MacAllowLower", |s| {
    let w = parse::<MacAllowLower, 17>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_validate_macallowlower_17, bytes = 17, bound = "every ASCII string of 17 bytes; MacAllowLower", |s| {
    let w = validate::<MacAllowLower, 17>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_parse_macmustany_17, bytes = 17, bound = "every ASCII string of 17 bytes; MacMustAny", |s| {
    let w = parse::<MacMustAny, 17>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_validate_macmustany_17, bytes = 17, bound = "every ASCII string of 17 bytes; MacMustAny", |s| {
    let w = validate::<MacMustAny, 17>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_parse_macmustupper_17, bytes = 17, bound = "every ASCII string of 17 bytes; MacMustUpper", |s| {
    let w = parse::<MacMustUpper, 17>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_validate_macmustupper_17, bytes = 17, bound = "every ASCII string of 17 bytes; MacMustUpper", |s| {
    let w = validate::<MacMustUpper, 17>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_parse_macmustlower_17, bytes = 17, bound = "every ASCII string of 17 bytes; MacMustLower", |s| {
    let w = parse::<MacMustLower, 17>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] t_validate_macmustlower_17, bytes = 17, bound = "every ASCII string of 17 bytes; MacMustLower", |s| {
    let w = validate::<MacMustLower, 17>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_parse_macnoneany_12, bytes = 12, bound = "every ASCII string of 12 bytes; MacNoneAny", |s| {
    let w = parse::<MacNoneAny, 12>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_validate_macnoneany_12, bytes = 12, bound = "every ASCII string of 12 bytes; MacNoneAny", |s| {
    let w = validate::<MacNoneAny, 12>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_parse_macnoneupper_12, bytes = 12, bound = "every ASCII string of 12 bytes; MacNoneUpper", |s| {
    let w = parse::<MacNoneUpper, 12>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_validate_macnoneupper_12, bytes = 12, bound = "every ASCII string of 12 bytes; MacNoneUpper", |s| {
    let w = validate::<MacNoneUpper, 12>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_parse_macnonelower_12, bytes = 12, bound = "every ASCII string of 12 bytes; MacNoneLower", |s| {
    let w = parse::<MacNoneLower, 12>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_validate_macnonelower_12, bytes = 12, bound = "every ASCII string of 12 bytes; MacNoneLower", |s| {
    let w = validate::<MacNoneLower, 12>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_refuse_macallowany_11, bytes = 11, bound = "every ASCII string of 0 to 11 bytes; MacAllowAny", |s| {
    let w = refuses::<MacAllowAny, 0, 11>(s);
    assert!(!w);
});
harness!(#[kani::unwind(14)] q_refuse_macallowany_20, bytes = 20, bound = "every ASCII string of 18 to 20 bytes; MacAllowAny", |s| {
    let w = refuses::<MacAllowAny, 18, 20>(s);
    assert!(!w);
});
harness!(#[kani::unwind(18)] q_refuse_macmustany_16, bytes = 16, bound = "every ASCII string of 0 to 16 bytes; MacMustAny", |s| {
    let w = refuses::<MacMustAny, 0, 16>(s);
    assert!(!w);
});
harness!(#[kani::unwind(14)] q_refuse_macmustany_20, bytes = 20, bound = "every ASCII string of 18 to 20 bytes; MacMustAny", |s| {
    let w = refuses::<MacMustAny, 18, 20>(s);
    assert!(!w);
});
harness!(#[kani::unwind(14)] q_refuse_macnoneany_11, bytes = 11, bound = "every ASCII string of 0 to 11 bytes; MacNoneAny", |s| {
    let w = refuses::<MacNoneAny, 0, 11>(s);
    assert!(!w);
});
harness!(#[kani::unwind(14)] q_refuse_macnoneany_20, bytes = 20, bound = "every ASCII string of 13 to 20 bytes; MacNoneAny", |s| {
    let w = refuses::<MacNoneAny, 13, 20>(s);
    assert!(!w);
});
harness!(#[kani::unwind(14)] q_owned, bytes = 12, bound = "every owned ASCII string of 12 bytes; MacNoneAny", |s| {
    let w = owned::<MacNoneAny, 12>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_multi, bytes = 14, bound = "every ASCII string of 12 bytes with a two-byte character; MacNoneAny", |s| {
    let w = multi::<MacNoneAny, 12>(s);
    assert!(!w);
});
harness!(#[kani::unwind(14)] t_multi, bytes = 14, bound = "every ASCII string of 12 bytes with a two-byte character; MacAllowAny", |s| {
    let w = multi::<MacAllowAny, 12>(s);
    assert!(!w);
});
