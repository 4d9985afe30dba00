// Written by tools/gen_c19.py
use crate::mail::*;
#[cfg(kani)]
use crate::net::stub;
use crate::net::{ip_text, Ip, Tri};
#[cfg(kani)]
use crate::util::fmtstub;
use crate::util::{st, Src};
use validators::models::Host;
use validators::prelude::*;
mail!(MailADAAD, validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))), Disallow, Allow, Allow, false, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, comments, );
mail!(MailADAAA, validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow))), Disallow, Allow, Allow, true, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, comments, );
mail!(MailDDAAD, validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))), Disallow, Allow, Allow, false, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, plain, );
mail!(MailDDAAA, validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow))), Disallow, Allow, Allow, true, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, plain, );
mail!(MailAAAAD, validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))), Allow, Allow, Allow, false, Host, |h| h, |h| h, comments, );

#[derive(Clone, Copy)]
enum Class {
    /// characters of atoms
    Atom,
    /// what quotes may enclose without a backslash
    Quoted,
    Close,
    Comment,
    /// the second byte of a character of two bytes
    Letter,
}
fn admits(c: Class, b: u8) -> bool {
    match c {
        Class::Atom => atom(b),
        Class::Quoted => atom(b) || b == b'.' || b == b' ' || b == b'\t',
        Class::Close => b == b'"',
        Class::Comment => b != b')',
        Class::Letter => true,
    }
}
type Range = (usize, usize);
fn is(a: &str, b: &[u8], r: Range) -> bool {
    a.as_bytes() == &b[r.0..r.1]
}
fn full<T: Mail, const L: usize>(s: &mut Src, text: &[u8; L], at: usize, class: Class, local: Range, domain: Range, comments: [Range; 4]) {
    let mut b = *text;
    b[at] = if let Class::Letter = class { s.within(0x80, 0xBF) } else { s.within(0, 127) };
    let ok = admits(class, b[at]);
    match T::str_(st(&b)) {
        None => assert!(!ok, "an address of which every part is as long as it may be is accepted"),
        Some(r) => {
            assert!(ok, "only what the grammar admits is accepted");
            let host = match &r.host {
                Host::Domain(d) => is(d, text, domain),
                _ => false,
            };
            let mut same = host && is(&r.local, &b, local);
            if let Class::Quoted = class {
                same &= r.quoted == !atom(b[at]);
            } else {
                same &= !r.quoted;
            }
            let mut i = 0;
            while i < 4 {
                same &= match &r.comments[i] {
                    Some(c) => is(c, &b, comments[i]),
                    None => comments[i].1 == 0,
                };
                i += 1;
            }
            assert!(same, "the parts are those of the text");
        }
    }
}
fn over<T: Mail, const L: usize>(s: &mut Src, text: &[u8; L], at: usize, class: Class) {
    let mut b = *text;
    b[at] = if let Class::Letter = class { s.within(0x80, 0xBF) } else { s.within(0, 127) };
    assert!(T::str_(st(&b)).is_none(), "an address with a part which is longer than allowed is refused");
}

harness!(#[kani::unwind(68)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_ddaad_atoms_full, bytes = 1, bound = "local part of 64 bytes: atoms, the last byte arbitrary; accepted exactly when the byte may stand there", |s| {
    full::<MailDDAAD, 66>(s, b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa?@x", 63, Class::Atom, (0, 64), (65, 66), [(0, 0), (0, 0), (0, 0), (0, 0)]);
});
harness!(#[kani::unwind(68)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_atoms_full, bytes = 1, bound = "local part of 64 bytes: atoms, the last byte arbitrary; accepted exactly when the byte may stand there", |s| {
    full::<MailADAAD, 66>(s, b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa?@x", 63, Class::Atom, (0, 64), (65, 66), [(0, 0), (0, 0), (0, 0), (0, 0)]);
});
harness!(#[kani::unwind(68)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_dots_full, bytes = 1, bound = "local part of 64 bytes: atoms, the last byte arbitrary; accepted exactly when the byte may stand there", |s| {
    full::<MailADAAD, 66>(s, b"a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a?@x", 63, Class::Atom, (0, 64), (65, 66), [(0, 0), (0, 0), (0, 0), (0, 0)]);
});
harness!(#[kani::unwind(68)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_ddaad_quoted_full, bytes = 1, bound = "local part of 64 bytes: quoted, the last byte arbitrary; accepted exactly when the byte may stand there", |s| {
    full::<MailDDAAD, 66>(s, b"\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa?\"@x", 62, Class::Quoted, (1, 63), (65, 66), [(0, 0), (0, 0), (0, 0), (0, 0)]);
});
harness!(#[kani::unwind(68)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_ddaad_quoted_end_full, bytes = 1, bound = "local part of 64 bytes: quoted, the closing quote arbitrary; accepted exactly when the byte may stand there", |s| {
    full::<MailDDAAD, 66>(s, b"\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa?@x", 63, Class::Close, (1, 63), (65, 66), [(0, 0), (0, 0), (0, 0), (0, 0)]);
});
harness!(#[kani::unwind(68)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_before_full, bytes = 1, bound = "local part of 64 bytes: a comment before one arbitrary byte; accepted exactly when the byte may stand there", |s| {
    full::<MailADAAD, 66>(s, b"(ccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc)?@x", 63, Class::Atom, (63, 64), (65, 66), [(1, 62), (0, 0), (0, 0), (0, 0)]);
});
harness!(#[kani::unwind(68)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_before_mid_full, bytes = 1, bound = "local part of 64 bytes: a comment before atoms, the last arbitrary; accepted exactly when the byte may stand there", |s| {
    full::<MailADAAD, 66>(s, b"(cccccccccccccccccccc)aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa?@x", 63, Class::Atom, (22, 64), (65, 66), [(1, 21), (0, 0), (0, 0), (0, 0)]);
});
harness!(#[kani::unwind(68)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_before_quoted_full, bytes = 1, bound = "local part of 64 bytes: a comment before a quoted arbitrary byte; accepted exactly when the byte may stand there", |s| {
    full::<MailADAAD, 66>(s, b"(ccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc)\"?\"@x", 62, Class::Quoted, (62, 63), (65, 66), [(1, 60), (0, 0), (0, 0), (0, 0)]);
});
harness!(#[kani::unwind(68)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_adaad_after_full, bytes = 1, bound = "local part of 64 bytes: a comment after one atom, the last byte arbitrary; accepted exactly when the byte may stand there", |s| {
    full::<MailADAAD, 66>(s, b"a(cccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc?)@x", 62, Class::Comment, (0, 1), (65, 66), [(0, 0), (2, 63), (0, 0), (0, 0)]);
});
harness!(#[kani::unwind(71)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_after_full, bytes = 1, bound = "local part of 64 bytes: a comment after one atom, one byte of another comment arbitrary; accepted exactly when the byte may stand there", |s| {
    full::<MailADAAD, 69>(s, b"a(ccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc)@x(?)", 67, Class::Comment, (0, 1), (65, 66), [(0, 0), (2, 63), (0, 0), (67, 68)]);
});
harness!(#[kani::unwind(71)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_after_quoted_full, bytes = 1, bound = "local part of 64 bytes: a comment after a quoted part, one byte of another comment arbitrary; accepted exactly when the byte may stand there", |s| {
    full::<MailADAAD, 69>(s, b"\"a\"(ccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc)@x(?)", 67, Class::Comment, (1, 2), (65, 66), [(0, 0), (4, 63), (0, 0), (67, 68)]);
});
harness!(#[kani::unwind(71)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_both_full, bytes = 1, bound = "local part of 64 bytes: comments before and after, one byte of another comment arbitrary; accepted exactly when the byte may stand there", |s| {
    full::<MailADAAD, 69>(s, b"(cc)aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(cccccccccccccccccc)@x(?)", 67, Class::Comment, (4, 44), (65, 66), [(1, 3), (45, 63), (0, 0), (67, 68)]);
});
harness!(#[kani::unwind(68)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_ddaaa_letter_full, bytes = 1, bound = "local part of 64 bytes: ends with an arbitrary character of two bytes; accepted exactly when the byte may stand there", |s| {
    full::<MailDDAAA, 66>(s, b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\xC2?@x", 63, Class::Letter, (0, 64), (65, 66), [(0, 0), (0, 0), (0, 0), (0, 0)]);
});
harness!(#[kani::unwind(68)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_ddaaa_letter_quoted_full, bytes = 1, bound = "local part of 64 bytes: quoted, ends with an arbitrary character of two bytes; accepted exactly when the byte may stand there", |s| {
    full::<MailDDAAA, 66>(s, b"\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\xC2?\"@x", 62, Class::Letter, (1, 63), (65, 66), [(0, 0), (0, 0), (0, 0), (0, 0)]);
});
harness!(#[kani::unwind(259)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_domain_after_full, bytes = 1, bound = "domain part of 255 bytes: a comment after, the last byte arbitrary; accepted exactly when the byte may stand there", |s| {
    full::<MailADAAD, 257>(s, b"a@x(ccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc?)", 255, Class::Comment, (0, 1), (2, 3), [(0, 0), (0, 0), (0, 0), (4, 256)]);
});
harness!(#[kani::unwind(259)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_domain_both_full, bytes = 1, bound = "domain part of 255 bytes: a comment before and one arbitrary byte in a comment after; accepted exactly when the byte may stand there", |s| {
    full::<MailADAAD, 257>(s, b"a@(ccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc)x(?)", 255, Class::Comment, (0, 1), (253, 254), [(0, 0), (0, 0), (3, 252), (255, 256)]);
});
harness!(#[kani::unwind(322)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_total_full, bytes = 1, bound = "addresses of 320 bytes: a local part of 64 bytes and a domain part of 255 bytes, the last byte of a comment arbitrary; accepted exactly when the byte may stand there", |s| {
    full::<MailADAAD, 320>(s, b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa@x(ccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc?)", 318, Class::Comment, (0, 64), (65, 66), [(0, 0), (0, 0), (0, 0), (67, 319)]);
});
harness!(#[kani::unwind(69)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_ddaad_atoms_over, bytes = 1, bound = "local part of 65 bytes: atoms, the last byte arbitrary; refused whatever the byte is", |s| {
    over::<MailDDAAD, 67>(s, b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa?@x", 64, Class::Atom);
});
harness!(#[kani::unwind(69)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_atoms_over, bytes = 1, bound = "local part of 65 bytes: atoms, the last byte arbitrary; refused whatever the byte is", |s| {
    over::<MailADAAD, 67>(s, b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa?@x", 64, Class::Atom);
});
harness!(#[kani::unwind(69)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_dots_over, bytes = 1, bound = "local part of 65 bytes: atoms, the last byte arbitrary; refused whatever the byte is", |s| {
    over::<MailADAAD, 67>(s, b"a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.a.aa?@x", 64, Class::Atom);
});
harness!(#[kani::unwind(69)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_ddaad_quoted_over, bytes = 1, bound = "local part of 65 bytes: quoted, the last byte arbitrary; refused whatever the byte is", |s| {
    over::<MailDDAAD, 67>(s, b"\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa?\"@x", 63, Class::Quoted);
});
harness!(#[kani::unwind(69)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_ddaad_quoted_end_over, bytes = 1, bound = "local part of 65 bytes: quoted, the closing quote arbitrary; refused whatever the byte is", |s| {
    over::<MailDDAAD, 67>(s, b"\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa?@x", 64, Class::Close);
});
harness!(#[kani::unwind(69)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_before_over, bytes = 1, bound = "local part of 65 bytes: a comment before one arbitrary byte; refused whatever the byte is", |s| {
    over::<MailADAAD, 67>(s, b"(cccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc)?@x", 64, Class::Atom);
});
harness!(#[kani::unwind(69)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_before_mid_over, bytes = 1, bound = "local part of 65 bytes: a comment before atoms, the last arbitrary; refused whatever the byte is", |s| {
    over::<MailADAAD, 67>(s, b"(cccccccccccccccccccc)aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa?@x", 64, Class::Atom);
});
harness!(#[kani::unwind(69)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_before_quoted_over, bytes = 1, bound = "local part of 65 bytes: a comment before a quoted arbitrary byte; refused whatever the byte is", |s| {
    over::<MailADAAD, 67>(s, b"(cccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc)\"?\"@x", 63, Class::Quoted);
});
harness!(#[kani::unwind(69)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_adaad_after_over, bytes = 1, bound = "local part of 65 bytes: a comment after one atom, the last byte arbitrary; refused whatever the byte is", |s| {
    over::<MailADAAD, 67>(s, b"a(ccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc?)@x", 63, Class::Comment);
});
harness!(#[kani::unwind(72)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_after_over, bytes = 1, bound = "local part of 65 bytes: a comment after one atom, one byte of another comment arbitrary; refused whatever the byte is", |s| {
    over::<MailADAAD, 70>(s, b"a(cccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc)@x(?)", 68, Class::Comment);
});
harness!(#[kani::unwind(72)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_after_quoted_over, bytes = 1, bound = "local part of 65 bytes: a comment after a quoted part, one byte of another comment arbitrary; refused whatever the byte is", |s| {
    over::<MailADAAD, 70>(s, b"\"a\"(cccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc)@x(?)", 68, Class::Comment);
});
harness!(#[kani::unwind(72)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_both_over, bytes = 1, bound = "local part of 65 bytes: comments before and after, one byte of another comment arbitrary; refused whatever the byte is", |s| {
    over::<MailADAAD, 70>(s, b"(cc)aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa(ccccccccccccccccccc)@x(?)", 68, Class::Comment);
});
harness!(#[kani::unwind(69)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_ddaaa_letter_over, bytes = 1, bound = "local part of 65 bytes: ends with an arbitrary character of two bytes; refused whatever the byte is", |s| {
    over::<MailDDAAA, 67>(s, b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\xC2?@x", 64, Class::Letter);
});
harness!(#[kani::unwind(69)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_ddaaa_letter_quoted_over, bytes = 1, bound = "local part of 65 bytes: quoted, ends with an arbitrary character of two bytes; refused whatever the byte is", |s| {
    over::<MailDDAAA, 67>(s, b"\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\xC2?\"@x", 63, Class::Letter);
});
harness!(#[kani::unwind(260)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_domain_after_over, bytes = 1, bound = "domain part of 256 bytes: a comment after, the last byte arbitrary; refused whatever the byte is", |s| {
    over::<MailADAAD, 258>(s, b"a@x(cccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc?)", 256, Class::Comment);
});
harness!(#[kani::unwind(260)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_domain_both_over, bytes = 1, bound = "domain part of 256 bytes: a comment before and one arbitrary byte in a comment after; refused whatever the byte is", |s| {
    over::<MailADAAD, 258>(s, b"a@(cccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc)x(?)", 256, Class::Comment);
});
harness!(#[kani::unwind(323)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_total_over, bytes = 1, bound = "addresses of 321 bytes: a local part of 64 bytes and a domain part of 256 bytes, the last byte of a comment arbitrary; refused whatever the byte is", |s| {
    over::<MailADAAD, 321>(s, b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa@x(cccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc?)", 319, Class::Comment);
});

fn mapped<T: Mail, const L: usize>(s: &mut Src, text: &[u8; L], at: usize, fits: bool) {
    let mut b = *text;
    b[at] = s.within(0, 127);
    let ok = fits && b[at] != b')';
    match T::str_(st(&b)) {
        None => assert!(!ok, "a domain part of at most 255 bytes after the mapping is accepted"),
        Some(r) => {
            assert!(ok, "a domain part of more than 255 bytes after the mapping is refused");
            let host = match &r.host {
                Host::Domain(d) => is(d, b"xn--tda", (0, 7)),
                _ => false,
            };
            let comment = match &r.comments[3] {
                Some(c) => is(c, &b, (5, L - 1)),
                None => false,
            };
            assert!(host && comment, "the parts are those of the text");
        }
    }
}

harness!(#[kani::unwind(254)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_longer)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_mapped_255, bytes = 1, bound = "domain parts which are 255 bytes long once the name is mapped, the last byte of a comment arbitrary", |s| {
    mapped::<MailADAAD, 252>(s, b"a@\xC3\xBC(ccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc?)", 250, true);
});
harness!(#[kani::unwind(255)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_longer)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_adaad_mapped_256, bytes = 1, bound = "domain parts which are 256 bytes long once the name is mapped, the last byte of a comment arbitrary", |s| {
    mapped::<MailADAAD, 253>(s, b"a@\xC3\xBC(cccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc?)", 251, false);
});
