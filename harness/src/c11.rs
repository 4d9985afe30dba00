// Written by tools/gen_hexid.py
use crate::hexid::*;
use validators::prelude::*;
uuid_types!();

harness!(#[kani::unwind(34)] q_parse_uuidallowany_32, bytes = 32, bound = "every ASCII string of 32 bytes; UuidAllowAny", |s| {
    let w = parse::<UuidAllowAny, 32>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_validate_uuidallowany_32, bytes = 32, bound = "every ASCII string of 32 bytes; UuidAllowAny", |s| {
    let w = validate::<UuidAllowAny, 32>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] q_parse_uuidallowany_33, bytes = 33, bound = "every ASCII string of 33 bytes; UuidAllowAny", |s| {
    let w = parse::<UuidAllowAny, 33>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] q_validate_uuidallowany_33, bytes = 33, bound = "every ASCII string of 33 bytes; UuidAllowAny", |s| {
    let w = validate::<UuidAllowAny, 33>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] q_parse_uuidallowany_34, bytes = 34, bound = "every ASCII string of 34 bytes; UuidAllowAny", |s| {
    let w = parse::<UuidAllowAny, 34>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_validate_uuidallowany_34, bytes = 34, bound = "every ASCII string of 34 bytes; UuidAllowAny", |s| {
    let w = validate::<UuidAllowAny, 34>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] q_parse_uuidallowany_35, bytes = 35, bound = "every ASCII string of 35 bytes; UuidAllowAny", |s| {
    let w = parse::<UuidAllowAny, 35>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_validate_uuidallowany_35, bytes = 35, bound = "every ASCII string of 35 bytes; UuidAllowAny", |s| {
    let w = validate::<UuidAllowAny, 35>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] q_parse_uuidallowany_36, bytes = 36, bound = "every ASCII string of 36 bytes; UuidAllowAny", |s| {
    let w = parse::<UuidAllowAny, 36>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] q_validate_uuidallowany_36, bytes = 36, bound = "every ASCII string of 36 bytes; UuidAllowAny", |s| {
    let w = validate::<UuidAllowAny, 36>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_parse_uuidallowupper_32, bytes = 32, bound = "every ASCII string of 32 bytes; UuidAllowUpper", |s| {
    let w = parse::<UuidAllowUpper, 32>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_validate_uuidallowupper_32, bytes = 32, bound = "every ASCII string of 32 bytes; UuidAllowUpper", |s| {
    let w = validate::<UuidAllowUpper, 32>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_parse_uuidallowupper_33, bytes = 33, bound = "every ASCII string of 33 bytes; UuidAllowUpper", |s| {
    let w = parse::<UuidAllowUpper, 33>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_validate_uuidallowupper_33, bytes = 33, bound = "every ASCII string of 33 bytes; UuidAllowUpper", |s| {
    let w = validate::<UuidAllowUpper, 33>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_parse_uuidallowupper_34, bytes = 34, bound = "every ASCII string of 34 bytes; UuidAllowUpper", |s| {
    let w = parse::<UuidAllowUpper, 34>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_validate_uuidallowupper_34, bytes = 34, bound = "every ASCII string of 34 bytes; UuidAllowUpper", |s| {
    let w = validate::<UuidAllowUpper, 34>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_parse_uuidallowupper_35, bytes = 35, bound = "every ASCII string of 35 bytes; UuidAllowUpper", |s| {
    let w = parse::<UuidAllowUpper, 35>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_validate_uuidallowupper_35, bytes = 35, bound = "every ASCII string of 35 bytes; UuidAllowUpper", |s| {
    let w = validate::<UuidAllowUpper, 35>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_parse_uuidallowupper_36, bytes = 36, bound = "every ASCII string of 36 bytes; UuidAllowUpper", |s| {
    let w = parse::<UuidAllowUpper, 36>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_validate_uuidallowupper_36, bytes = 36, bound = "every ASCII string of 36 bytes; UuidAllowUpper", |s| {
    let w = validate::<UuidAllowUpper, 36>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_parse_uuidallowlower_32, bytes = 32, bound = "every ASCII string of 32 bytes; UuidAllowLower", |s| {
    let w = parse::<UuidAllowLower, 32>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_validate_uuidallowlower_32, bytes = 32, bound = "every ASCII string of 32 bytes; UuidAllowLower", |s| {
    let w = validate::<UuidAllowLower, 32>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_parse_uuidallowlower_33, bytes = 33, bound = "every ASCII string of 33 bytes; UuidAllowLower", |s| {
    let w = parse::<UuidAllowLower, 33>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_validate_uuidallowlower_33, bytes = 33, bound = "every ASCII string of 33 bytes; UuidAllowLower", |s| {
    let w = validate::<UuidAllowLower, 33>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_parse_uuidallowlower_34, bytes = 34, bound = "every ASCII string of 34 bytes; UuidAllowLower", |s| {
    let w = parse::<UuidAllowLower, 34>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_validate_uuidallowlower_34, bytes = 34, bound = "every ASCII string of 34 bytes; UuidAllowLower", |s| {
    let w = validate::<UuidAllowLower, 34>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_parse_uuidallowlower_35, bytes = 35, bound = "every ASCII string of 35 bytes; UuidAllowLower", |s| {
    let w = parse::<UuidAllowLower, 35>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_validate_uuidallowlower_35, bytes = 35, bound = "every ASCII string of 35 bytes; UuidAllowLower", |s| {
    let w = validate::<UuidAllowLower, 35>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_parse_uuidallowlower_36, bytes = 36, bound = "every ASCII string of 36 bytes; UuidAllowLower", |s| {
    let w = parse::<UuidAllowLower, 36>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_validate_uuidallowlower_36, bytes = 36, bound = "every ASCII string of 36 bytes; UuidAllowLower", |s| {
    let w = validate::<UuidAllowLower, 36>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] q_parse_uuidmustany_36, bytes = 36, bound = "every ASCII string of 36 bytes; UuidMustAny", |s| {
    let w = parse::<UuidMustAny, 36>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] q_validate_uuidmustany_36, bytes = 36, bound = "every ASCII string of 36 bytes; UuidMustAny", |s| {
    let w = validate::<UuidMustAny, 36>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_parse_uuidmustupper_36, bytes = 36, bound = "every ASCII string of 36 bytes; UuidMustUpper", |s| {
    let w = parse::<UuidMustUpper, 36>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_validate_uuidmustupper_36, bytes = 36, bound = "every ASCII string of 36 bytes; UuidMustUpper", |s| {
    let w = validate::<UuidMustUpper, 36>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_parse_uuidmustlower_36, bytes = 36, bound = "every ASCII string of 36 bytes; UuidMustLower", |s| {
    let w = parse::<UuidMustLower, 36>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] t_validate_uuidmustlower_36, bytes = 36, bound = "every ASCII string of 36 bytes; UuidMustLower", |s| {
    let w = validate::<UuidMustLower, 36>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] q_parse_uuidnoneany_32, bytes = 32, bound = "every ASCII string of 32 bytes; UuidNoneAny", |s| {
    let w = parse::<UuidNoneAny, 32>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] q_validate_uuidnoneany_32, bytes = 32, bound = "every ASCII string of 32 bytes; UuidNoneAny", |s| {
    let w = validate::<UuidNoneAny, 32>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] q_parse_uuidnoneupper_32, bytes = 32, bound = "every ASCII string of 32 bytes; UuidNoneUpper", |s| {
    let w = parse::<UuidNoneUpper, 32>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] q_validate_uuidnoneupper_32, bytes = 32, bound = "every ASCII string of 32 bytes; UuidNoneUpper", |s| {
    let w = validate::<UuidNoneUpper, 32>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] q_parse_uuidnonelower_32, bytes = 32, bound = "every ASCII string of 32 bytes; UuidNoneLower", |s| {
    let w = parse::<UuidNoneLower, 32>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] q_validate_uuidnonelower_32, bytes = 32, bound = "every ASCII string of 32 bytes; UuidNoneLower", |s| {
    let w = validate::<UuidNoneLower, 32>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] q_refuse_uuidallowany_31, bytes = 31, bound = "every ASCII string of 0 to 31 bytes; UuidAllowAny", |s| {
    let w = refuses::<UuidAllowAny, 0, 31>(s);
    assert!(!w);
});
harness!(#[kani::unwind(34)] q_refuse_uuidallowany_39, bytes = 39, bound = "every ASCII string of 37 to 39 bytes; UuidAllowAny", |s| {
    let w = refuses::<UuidAllowAny, 37, 39>(s);
    assert!(!w);
});
harness!(#[kani::unwind(37)] q_refuse_uuidmustany_35, bytes = 35, bound = "every ASCII string of 0 to 35 bytes; UuidMustAny", |s| {
    let w = refuses::<UuidMustAny, 0, 35>(s);
    assert!(!w);
});
harness!(#[kani::unwind(34)] q_refuse_uuidmustany_39, bytes = 39, bound = "every ASCII string of 37 to 39 bytes; UuidMustAny", |s| {
    let w = refuses::<UuidMustAny, 37, 39>(s);
    assert!(!w);
});
harness!(#[kani::unwind(34)] q_refuse_uuidnoneany_31, bytes = 31, bound = "every ASCII string of 0 to 31 bytes; UuidNoneAny", |s| {
    let w = refuses::<UuidNoneAny, 0, 31>(s);
    assert!(!w);
});
harness!(#[kani::unwind(34)] q_refuse_uuidnoneany_39, bytes = 39, bound = "every ASCII string of 33 to 39 bytes; UuidNoneAny", |s| {
    let w = refuses::<UuidNoneAny, 33, 39>(s);
    assert!(!w);
});
harness!(#[kani::unwind(34)] q_owned, bytes = 32, bound = "every owned ASCII string of 32 bytes; UuidNoneAny", |s| {
    let w = owned::<UuidNoneAny, 32>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(34)] q_multi, bytes = 34, bound = "every ASCII string of 32 bytes with a two-byte character; UuidNoneAny", |s| {
    let w = multi::<UuidNoneAny, 32>(s);
    assert!(!w);
});
harness!(#[kani::unwind(34)] t_multi, bytes = 34, bound = "every ASCII string of 32 bytes with a two-byte character; UuidAllowAny", |s| {
    let w = multi::<UuidAllowAny, 32>(s);
    assert!(!w);
});
