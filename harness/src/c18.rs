// Written by tools/gen_c18.py
use crate::mail::*;
#[cfg(kani)]
use crate::net::stub;
use crate::net::{ip_text, Ip, Tri};
#[cfg(kani)]
use crate::util::fmtstub;
use crate::util::{st, Src};
use validators::models::Host;
use validators::prelude::*;
mail!(MailADAAA, validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow))), Disallow, Allow, Allow, true, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, comments, );
mail!(MailADAAD, validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))), Disallow, Allow, Allow, false, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, comments, );
mail!(MailDDAAA, validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow))), Disallow, Allow, Allow, true, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, plain, );
mail!(MailDDAAD, validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))), Disallow, Allow, Allow, false, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, plain, );
mail!(MailAAAAA, validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow))), Allow, Allow, Allow, true, Host, |h| h, |h| h, comments, );

/// arbitrary ASCII text of N bytes
fn text<T: Mail, const N: usize>(s: &mut Src) {
    let b = s.ascii::<N>();
    compare::<T>(&b, None);
}

/// arbitrary ASCII text of N bytes between a fixed start and a fixed end
fn skeleton<T: Mail, const N: usize, const L: usize>(s: &mut Src, prefix: &[u8], suffix: &[u8]) {
    let m = s.ascii::<N>();
    let mut b = [0u8; L];
    let n = prefix.len();
    let mut i = 0;
    while i < L {
        b[i] = if i < n { prefix[i] } else if i < n + N { m[i - n] } else { suffix[i - n - N] };
        i += 1;
    }
    compare::<T>(&b, None);
}

/// a character of two bytes (U+0080..U+00BF) between a fixed start and a fixed end
fn letter<T: Mail, const L: usize>(s: &mut Src, prefix: &[u8], suffix: &[u8]) {
    let x = s.within(0x80, 0xBF);
    let mut b = [0u8; L];
    let n = prefix.len();
    let mut i = 0;
    while i < L {
        b[i] = if i < n { prefix[i] } else if i == n { 0xC2 } else if i == n + 1 { x } else { suffix[i - n - 2] };
        i += 1;
    }
    compare::<T>(&b, None);
}

/// parse_string and validate_str do as parse_str
fn ways<T: Mail, const N: usize, const L: usize>(s: &mut Src, prefix: &[u8], suffix: &[u8]) {
    let m = s.ascii::<N>();
    let mut b = [0u8; L];
    let n = prefix.len();
    let mut i = 0;
    while i < L {
        b[i] = if i < n { prefix[i] } else if i < n + N { m[i - n] } else { suffix[i - n - N] };
        i += 1;
    }
    let mut w = want();
    let ok = judge::<T>(&b, None, &mut w);
    let t = st(&b);
    assert!(T::validate_(t) == ok, "validate_str accepts what the grammar admits");
    match &T::string_(t) {
        Some(r) => assert!(ok && equal(r, &b, None, &w), "parse_string gives the parts of the text"),
        None => assert!(!ok, "parse_string accepts what the grammar admits"),
    }
}

harness!(#[kani::unwind(3)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_text_ddaaa_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    text::<MailDDAAA, 1>(s);
});
harness!(#[kani::unwind(4)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_text_ddaaa_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    text::<MailDDAAA, 2>(s);
});
harness!(#[kani::unwind(5)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_text_ddaaa_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    text::<MailDDAAA, 3>(s);
});
harness!(#[kani::unwind(6)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_text_ddaaa_4, bytes = 4, bound = "every ASCII text of 4 bytes", |s| {
    text::<MailDDAAA, 4>(s);
});
harness!(#[kani::unwind(7)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_text_ddaaa_5, bytes = 5, bound = "every ASCII text of 5 bytes", |s| {
    text::<MailDDAAA, 5>(s);
});
harness!(#[kani::unwind(8)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_text_ddaaa_6, bytes = 6, bound = "every ASCII text of 6 bytes", |s| {
    text::<MailDDAAA, 6>(s);
});
harness!(#[kani::unwind(9)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_text_ddaaa_7, bytes = 7, bound = "every ASCII text of 7 bytes", |s| {
    text::<MailDDAAA, 7>(s);
});
harness!(#[kani::unwind(5)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_text_ddaad_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    text::<MailDDAAD, 3>(s);
});
harness!(#[kani::unwind(7)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_text_ddaad_5, bytes = 5, bound = "every ASCII text of 5 bytes", |s| {
    text::<MailDDAAD, 5>(s);
});
harness!(#[kani::unwind(3)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_text_aaaaa_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    text::<MailAAAAA, 1>(s);
});
harness!(#[kani::unwind(4)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_text_adaaa_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    text::<MailADAAA, 2>(s);
});
harness!(#[kani::unwind(7)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_inner, bytes = 1, bound = "every ASCII text of 1 bytes between a and b@x", |s| {
    skeleton::<MailADAAA, 1, 5>(s, b"a", b"b@x");
});
harness!(#[kani::unwind(7)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_inner2, bytes = 2, bound = "every ASCII text of 2 bytes between a and @x", |s| {
    skeleton::<MailADAAA, 2, 5>(s, b"a", b"@x");
});
harness!(#[kani::unwind(6)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_skeleton_adaaa_inner3, bytes = 3, bound = "every ASCII text of 3 bytes between a and nothing", |s| {
    skeleton::<MailADAAA, 3, 4>(s, b"a", b"");
});
harness!(#[kani::unwind(7)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_dot, bytes = 1, bound = "every ASCII text of 1 bytes between a. and @x", |s| {
    skeleton::<MailADAAA, 1, 5>(s, b"a.", b"@x");
});
harness!(#[kani::unwind(7)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_quote, bytes = 1, bound = "every ASCII text of 1 bytes between ' and '@x", |s| {
    skeleton::<MailADAAA, 1, 5>(s, b"\"", b"\"@x");
});
harness!(#[kani::unwind(8)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_quote2, bytes = 2, bound = "every ASCII text of 2 bytes between ' and '@x", |s| {
    skeleton::<MailADAAA, 2, 6>(s, b"\"", b"\"@x");
});
harness!(#[kani::unwind(8)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_escape, bytes = 1, bound = "every ASCII text of 1 bytes between 'backslash and '@x", |s| {
    skeleton::<MailADAAA, 1, 6>(s, b"\"\\", b"\"@x");
});
harness!(#[kani::unwind(8)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_closed, bytes = 1, bound = "every ASCII text of 1 bytes between 'a' and @x", |s| {
    skeleton::<MailADAAA, 1, 6>(s, b"\"a\"", b"@x");
});
harness!(#[kani::unwind(8)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_quote_dot, bytes = 1, bound = "every ASCII text of 1 bytes between '. and '@x", |s| {
    skeleton::<MailADAAA, 1, 6>(s, b"\".", b"\"@x");
});
harness!(#[kani::unwind(9)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_quote_tail, bytes = 1, bound = "every ASCII text of 1 bytes between 'a and b'@x", |s| {
    skeleton::<MailADAAA, 1, 7>(s, b"\"a", b"b\"@x");
});
harness!(#[kani::unwind(8)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_c1, bytes = 1, bound = "every ASCII text of 1 bytes between (c) and @x", |s| {
    skeleton::<MailADAAA, 1, 6>(s, b"(c)", b"@x");
});
harness!(#[kani::unwind(7)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_c1_empty, bytes = 1, bound = "every ASCII text of 1 bytes between () and @x", |s| {
    skeleton::<MailADAAA, 1, 5>(s, b"()", b"@x");
});
harness!(#[kani::unwind(10)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_c1_quote, bytes = 1, bound = "every ASCII text of 1 bytes between (c)' and '@x", |s| {
    skeleton::<MailADAAA, 1, 8>(s, b"(c)\"", b"\"@x");
});
harness!(#[kani::unwind(8)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_c1_nested, bytes = 0, bound = "every ASCII text of 0 bytes between (( and )a@x", |s| {
    skeleton::<MailADAAA, 0, 6>(s, b"((", b")a@x");
});
harness!(#[kani::unwind(6)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_c1_open, bytes = 0, bound = "every ASCII text of 0 bytes between (a@x and nothing", |s| {
    skeleton::<MailADAAA, 0, 4>(s, b"(a@x", b"");
});
harness!(#[kani::unwind(5)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_c1_only, bytes = 0, bound = "every ASCII text of 0 bytes between (a) and nothing", |s| {
    skeleton::<MailADAAA, 0, 3>(s, b"(a)", b"");
});
harness!(#[kani::unwind(8)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_c2, bytes = 1, bound = "every ASCII text of 1 bytes between a( and )@x", |s| {
    skeleton::<MailADAAA, 1, 6>(s, b"a(", b")@x");
});
harness!(#[kani::unwind(8)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_c2_after, bytes = 1, bound = "every ASCII text of 1 bytes between a(b) and x", |s| {
    skeleton::<MailADAAA, 1, 6>(s, b"a(b)", b"x");
});
harness!(#[kani::unwind(10)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_c2_quote, bytes = 1, bound = "every ASCII text of 1 bytes between 'a'( and )@x", |s| {
    skeleton::<MailADAAA, 1, 8>(s, b"\"a\"(", b")@x");
});
harness!(#[kani::unwind(11)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_c12, bytes = 1, bound = "every ASCII text of 1 bytes between (a)b( and )@x", |s| {
    skeleton::<MailADAAA, 1, 9>(s, b"(a)b(", b")@x");
});
harness!(#[kani::unwind(6)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_at, bytes = 1, bound = "every ASCII text of 1 bytes between a@ and x", |s| {
    skeleton::<MailADAAA, 1, 4>(s, b"a@", b"x");
});
harness!(#[kani::unwind(8)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_c3, bytes = 1, bound = "every ASCII text of 1 bytes between a@( and )x", |s| {
    skeleton::<MailADAAA, 1, 6>(s, b"a@(", b")x");
});
harness!(#[kani::unwind(9)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_c3_after, bytes = 1, bound = "every ASCII text of 1 bytes between a@(b) and x", |s| {
    skeleton::<MailADAAA, 1, 7>(s, b"a@(b)", b"x");
});
harness!(#[kani::unwind(7)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_c3_only, bytes = 0, bound = "every ASCII text of 0 bytes between a@(b) and nothing", |s| {
    skeleton::<MailADAAA, 0, 5>(s, b"a@(b)", b"");
});
harness!(#[kani::unwind(7)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_dom, bytes = 1, bound = "every ASCII text of 1 bytes between a@x and y", |s| {
    skeleton::<MailADAAA, 1, 5>(s, b"a@x", b"y");
});
harness!(#[kani::unwind(7)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_dom2, bytes = 2, bound = "every ASCII text of 2 bytes between a@x and nothing", |s| {
    skeleton::<MailADAAA, 2, 5>(s, b"a@x", b"");
});
harness!(#[kani::unwind(9)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_c4, bytes = 1, bound = "every ASCII text of 1 bytes between a@x( and y)", |s| {
    skeleton::<MailADAAA, 1, 7>(s, b"a@x(", b"y)");
});
harness!(#[kani::unwind(8)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_c4_end, bytes = 1, bound = "every ASCII text of 1 bytes between a@x(y and nothing", |s| {
    skeleton::<MailADAAA, 1, 6>(s, b"a@x(y", b"");
});
harness!(#[kani::unwind(9)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_c4_after, bytes = 1, bound = "every ASCII text of 1 bytes between a@x(y) and nothing", |s| {
    skeleton::<MailADAAA, 1, 7>(s, b"a@x(y)", b"");
});
harness!(#[kani::unwind(15)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_adaaa_all_1, bytes = 1, bound = "every ASCII text of 1 bytes between a and (b)@(c)x(d)", |s| {
    skeleton::<MailADAAA, 1, 13>(s, b"a", b"(b)@(c)x(d)");
});
harness!(#[kani::unwind(18)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_skeleton_adaaa_all_2, bytes = 1, bound = "every ASCII text of 1 bytes between (a)b(c and )@(d)x(e)", |s| {
    skeleton::<MailADAAA, 1, 16>(s, b"(a)b(c", b")@(d)x(e)");
});
harness!(#[kani::unwind(17)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_skeleton_adaaa_all_3, bytes = 1, bound = "every ASCII text of 1 bytes between (a)b(c)@(d) and (e)", |s| {
    skeleton::<MailADAAA, 1, 15>(s, b"(a)b(c)@(d)", b"(e)");
});
harness!(#[kani::unwind(18)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_skeleton_adaaa_all_4, bytes = 1, bound = "every ASCII text of 1 bytes between (a)b(c)@(d)x(e and )", |s| {
    skeleton::<MailADAAA, 1, 16>(s, b"(a)b(c)@(d)x(e", b")");
});
harness!(#[kani::unwind(8)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_skeleton_adaaa_first_comment, bytes = 1, bound = "every ASCII text of 1 bytes between ( and )a@x", |s| {
    skeleton::<MailADAAA, 1, 6>(s, b"(", b")a@x");
});
harness!(#[kani::unwind(5)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_skeleton_adaaa_first, bytes = 1, bound = "every ASCII text of 1 bytes between nothing and @x", |s| {
    skeleton::<MailADAAA, 1, 3>(s, b"", b"@x");
});
harness!(#[kani::unwind(6)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_skeleton_adaaa_first2, bytes = 2, bound = "every ASCII text of 2 bytes between nothing and @x", |s| {
    skeleton::<MailADAAA, 2, 4>(s, b"", b"@x");
});
harness!(#[kani::unwind(7)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_aaaaa_bracket, bytes = 1, bound = "every ASCII text of 1 bytes between a@[ and ]", |s| {
    skeleton::<MailAAAAA, 1, 5>(s, b"a@[", b"]");
});
harness!(#[kani::unwind(12)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_aaaaa_tag, bytes = 1, bound = "every ASCII text of 1 bytes between a@[IPv6: and ]", |s| {
    skeleton::<MailAAAAA, 1, 10>(s, b"a@[IPv6:", b"]");
});
harness!(#[kani::unwind(7)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_aaaaa_behind, bytes = 2, bound = "every ASCII text of 2 bytes between a@[ and nothing", |s| {
    skeleton::<MailAAAAA, 2, 5>(s, b"a@[", b"");
});
harness!(#[kani::unwind(6)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_skeleton_aaaaa_at, bytes = 1, bound = "every ASCII text of 1 bytes between a@ and [", |s| {
    skeleton::<MailAAAAA, 1, 4>(s, b"a@", b"[");
});
harness!(#[kani::unwind(6)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_letter_adaaa_first, bytes = 1, bound = "every character U+0080..U+00BF between nothing and @x", |s| {
    letter::<MailADAAA, 4>(s, b"", b"@x");
});
harness!(#[kani::unwind(7)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_letter_adaaa_inner, bytes = 1, bound = "every character U+0080..U+00BF between a and @x", |s| {
    letter::<MailADAAA, 5>(s, b"a", b"@x");
});
harness!(#[kani::unwind(8)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_letter_adaaa_quote, bytes = 1, bound = "every character U+0080..U+00BF between ' and '@x", |s| {
    letter::<MailADAAA, 6>(s, b"\"", b"\"@x");
});
harness!(#[kani::unwind(9)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_letter_adaaa_quote_inner, bytes = 1, bound = "every character U+0080..U+00BF between 'a and '@x", |s| {
    letter::<MailADAAA, 7>(s, b"\"a", b"\"@x");
});
harness!(#[kani::unwind(9)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_letter_adaaa_escape, bytes = 1, bound = "every character U+0080..U+00BF between 'backslash and '@x", |s| {
    letter::<MailADAAA, 7>(s, b"\"\\", b"\"@x");
});
harness!(#[kani::unwind(9)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_letter_adaaa_c1, bytes = 1, bound = "every character U+0080..U+00BF between ( and )a@x", |s| {
    letter::<MailADAAA, 7>(s, b"(", b")a@x");
});
harness!(#[kani::unwind(9)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_letter_adaaa_c2, bytes = 1, bound = "every character U+0080..U+00BF between a( and )@x", |s| {
    letter::<MailADAAA, 7>(s, b"a(", b")@x");
});
harness!(#[kani::unwind(9)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_letter_adaaa_c3, bytes = 1, bound = "every character U+0080..U+00BF between a@( and )x", |s| {
    letter::<MailADAAA, 7>(s, b"a@(", b")x");
});
harness!(#[kani::unwind(9)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_letter_adaaa_c4, bytes = 1, bound = "every character U+0080..U+00BF between a@x( and )", |s| {
    letter::<MailADAAA, 7>(s, b"a@x(", b")");
});
harness!(#[kani::unwind(6)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_letter_adaad_first, bytes = 1, bound = "every character U+0080..U+00BF between nothing and @x", |s| {
    letter::<MailADAAD, 4>(s, b"", b"@x");
});
harness!(#[kani::unwind(7)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_letter_adaad_inner, bytes = 1, bound = "every character U+0080..U+00BF between a and @x", |s| {
    letter::<MailADAAD, 5>(s, b"a", b"@x");
});
harness!(#[kani::unwind(8)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_letter_adaad_quote, bytes = 1, bound = "every character U+0080..U+00BF between ' and '@x", |s| {
    letter::<MailADAAD, 6>(s, b"\"", b"\"@x");
});
harness!(#[kani::unwind(9)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_letter_adaad_quote_inner, bytes = 1, bound = "every character U+0080..U+00BF between 'a and '@x", |s| {
    letter::<MailADAAD, 7>(s, b"\"a", b"\"@x");
});
harness!(#[kani::unwind(9)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_letter_adaad_escape, bytes = 1, bound = "every character U+0080..U+00BF between 'backslash and '@x", |s| {
    letter::<MailADAAD, 7>(s, b"\"\\", b"\"@x");
});
harness!(#[kani::unwind(9)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_letter_adaad_c1, bytes = 1, bound = "every character U+0080..U+00BF between ( and )a@x", |s| {
    letter::<MailADAAD, 7>(s, b"(", b")a@x");
});
harness!(#[kani::unwind(9)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_letter_adaad_c2, bytes = 1, bound = "every character U+0080..U+00BF between a( and )@x", |s| {
    letter::<MailADAAD, 7>(s, b"a(", b")@x");
});
harness!(#[kani::unwind(9)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_letter_adaad_c3, bytes = 1, bound = "every character U+0080..U+00BF between a@( and )x", |s| {
    letter::<MailADAAD, 7>(s, b"a@(", b")x");
});
harness!(#[kani::unwind(9)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_letter_adaad_c4, bytes = 1, bound = "every character U+0080..U+00BF between a@x( and )", |s| {
    letter::<MailADAAD, 7>(s, b"a@x(", b")");
});
harness!(#[kani::unwind(6)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_letter_ddaad_first, bytes = 1, bound = "every character U+0080..U+00BF between nothing and @x", |s| {
    letter::<MailDDAAD, 4>(s, b"", b"@x");
});
harness!(#[kani::unwind(7)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_letter_ddaad_inner, bytes = 1, bound = "every character U+0080..U+00BF between a and @x", |s| {
    letter::<MailDDAAD, 5>(s, b"a", b"@x");
});
harness!(#[kani::unwind(8)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_letter_ddaad_quote, bytes = 1, bound = "every character U+0080..U+00BF between ' and '@x", |s| {
    letter::<MailDDAAD, 6>(s, b"\"", b"\"@x");
});
harness!(#[kani::unwind(9)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_letter_ddaad_quote_inner, bytes = 1, bound = "every character U+0080..U+00BF between 'a and '@x", |s| {
    letter::<MailDDAAD, 7>(s, b"\"a", b"\"@x");
});
harness!(#[kani::unwind(9)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_letter_ddaad_escape, bytes = 1, bound = "every character U+0080..U+00BF between 'backslash and '@x", |s| {
    letter::<MailDDAAD, 7>(s, b"\"\\", b"\"@x");
});
harness!(#[kani::unwind(6)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_ways_adaaa_local, bytes = 1, bound = "every ASCII text of 1 bytes between a and @x", |s| {
    ways::<MailADAAA, 1, 4>(s, b"a", b"@x");
});
harness!(#[kani::unwind(7)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_ways_adaaa_quote, bytes = 1, bound = "every ASCII text of 1 bytes between ' and '@x", |s| {
    ways::<MailADAAA, 1, 5>(s, b"\"", b"\"@x");
});
harness!(#[kani::unwind(6)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_ways_adaaa_dom, bytes = 1, bound = "every ASCII text of 1 bytes between a@ and x", |s| {
    ways::<MailADAAA, 1, 4>(s, b"a@", b"x");
});
