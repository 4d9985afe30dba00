// Written by tools/gen_hexid.py
use crate::hexid::*;
#[cfg(kani)]
use crate::util::fmtstub;
use validators::prelude::*;
mac_types!();
uuid_types!();

harness!(#[kani::unwind(18)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_print_macallowany, bytes = 8, bound = "every value; MacAllowAny", |s| {
    prints::<MacAllowAny>(s);
});
harness!(#[kani::unwind(18)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_back_macallowany, bytes = 8, bound = "every value; MacAllowAny", |s| {
    back::<MacAllowAny>(s);
});
harness!(#[kani::unwind(18)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_print_macallowupper, bytes = 8, bound = "every value; MacAllowUpper", |s| {
    prints::<MacAllowUpper>(s);
});
harness!(#[kani::unwind(18)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_back_macallowupper, bytes = 8, bound = "every value; MacAllowUpper", |s| {
    back::<MacAllowUpper>(s);
});
harness!(#[kani::unwind(18)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_print_macallowlower, bytes = 8, bound = "every value; MacAllowLower", |s| {
    prints::<MacAllowLower>(s);
});
harness!(#[kani::unwind(18)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_back_macallowlower, bytes = 8, bound = "every value; MacAllowLower", |s| {
    back::<MacAllowLower>(s);
});
harness!(#[kani::unwind(18)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_print_macmustany, bytes = 8, bound = "every value; MacMustAny", |s| {
    prints::<MacMustAny>(s);
});
harness!(#[kani::unwind(18)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_back_macmustany, bytes = 8, bound = "every value; MacMustAny", |s| {
    back::<MacMustAny>(s);
});
harness!(#[kani::unwind(18)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_print_macmustupper, bytes = 8, bound = "every value; MacMustUpper", |s| {
    prints::<MacMustUpper>(s);
});
harness!(#[kani::unwind(18)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_back_macmustupper, bytes = 8, bound = "every value; MacMustUpper", |s| {
    back::<MacMustUpper>(s);
});
harness!(#[kani::unwind(18)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_print_macmustlower, bytes = 8, bound = "every value; MacMustLower", |s| {
    prints::<MacMustLower>(s);
});
harness!(#[kani::unwind(18)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_back_macmustlower, bytes = 8, bound = "every value; MacMustLower", |s| {
    back::<MacMustLower>(s);
});
harness!(#[kani::unwind(18)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_print_macnoneany, bytes = 8, bound = "every value; MacNoneAny", |s| {
    prints::<MacNoneAny>(s);
});
harness!(#[kani::unwind(18)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_back_macnoneany, bytes = 8, bound = "every value; MacNoneAny", |s| {
    back::<MacNoneAny>(s);
});
harness!(#[kani::unwind(18)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_print_macnoneupper, bytes = 8, bound = "every value; MacNoneUpper", |s| {
    prints::<MacNoneUpper>(s);
});
harness!(#[kani::unwind(18)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_back_macnoneupper, bytes = 8, bound = "every value; MacNoneUpper", |s| {
    back::<MacNoneUpper>(s);
});
harness!(#[kani::unwind(18)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_print_macnonelower, bytes = 8, bound = "every value; MacNoneLower", |s| {
    prints::<MacNoneLower>(s);
});
harness!(#[kani::unwind(18)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_back_macnonelower, bytes = 8, bound = "every value; MacNoneLower", |s| {
    back::<MacNoneLower>(s);
});
harness!(#[kani::unwind(38)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_print_uuidallowany, bytes = 16, bound = "every value; UuidAllowAny", |s| {
    prints::<UuidAllowAny>(s);
});
harness!(#[kani::unwind(38)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_back_uuidallowany, bytes = 16, bound = "every value; UuidAllowAny", |s| {
    back::<UuidAllowAny>(s);
});
harness!(#[kani::unwind(38)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_print_uuidallowupper, bytes = 16, bound = "every value; UuidAllowUpper", |s| {
    prints::<UuidAllowUpper>(s);
});
harness!(#[kani::unwind(38)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_back_uuidallowupper, bytes = 16, bound = "every value; UuidAllowUpper", |s| {
    back::<UuidAllowUpper>(s);
});
harness!(#[kani::unwind(38)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_print_uuidallowlower, bytes = 16, bound = "every value; UuidAllowLower", |s| {
    prints::<UuidAllowLower>(s);
});
harness!(#[kani::unwind(38)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_back_uuidallowlower, bytes = 16, bound = "every value; UuidAllowLower", |s| {
    back::<UuidAllowLower>(s);
});
harness!(#[kani::unwind(38)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_print_uuidmustany, bytes = 16, bound = "every value; UuidMustAny", |s| {
    prints::<UuidMustAny>(s);
});
harness!(#[kani::unwind(38)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_back_uuidmustany, bytes = 16, bound = "every value; UuidMustAny", |s| {
    back::<UuidMustAny>(s);
});
harness!(#[kani::unwind(38)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_print_uuidmustupper, bytes = 16, bound = "every value; UuidMustUpper", |s| {
    prints::<UuidMustUpper>(s);
});
harness!(#[kani::unwind(38)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_back_uuidmustupper, bytes = 16, bound = "every value; UuidMustUpper", |s| {
    back::<UuidMustUpper>(s);
});
harness!(#[kani::unwind(38)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_print_uuidmustlower, bytes = 16, bound = "every value; UuidMustLower", |s| {
    prints::<UuidMustLower>(s);
});
harness!(#[kani::unwind(38)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_back_uuidmustlower, bytes = 16, bound = "every value; UuidMustLower", |s| {
    back::<UuidMustLower>(s);
});
harness!(#[kani::unwind(38)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_print_uuidnoneany, bytes = 16, bound = "every value; UuidNoneAny", |s| {
    prints::<UuidNoneAny>(s);
});
harness!(#[kani::unwind(38)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_back_uuidnoneany, bytes = 16, bound = "every value; UuidNoneAny", |s| {
    back::<UuidNoneAny>(s);
});
harness!(#[kani::unwind(38)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_print_uuidnoneupper, bytes = 16, bound = "every value; UuidNoneUpper", |s| {
    prints::<UuidNoneUpper>(s);
});
harness!(#[kani::unwind(38)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_back_uuidnoneupper, bytes = 16, bound = "every value; UuidNoneUpper", |s| {
    back::<UuidNoneUpper>(s);
});
harness!(#[kani::unwind(38)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_print_uuidnonelower, bytes = 16, bound = "every value; UuidNoneLower", |s| {
    prints::<UuidNoneLower>(s);
});
harness!(#[kani::unwind(38)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_back_uuidnonelower, bytes = 16, bound = "every value; UuidNoneLower", |s| {
    back::<UuidNoneLower>(s);
});
