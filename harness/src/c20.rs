// Written by tools/gen_c20.py
use crate::mail::*;
#[cfg(kani)]
use crate::net::stub;
use crate::net::{ip_text, Ip, Tri};
#[cfg(kani)]
use crate::util::fmtstub;
use crate::util::{st, Src};
use validators::models::Host;
use validators::prelude::*;
mail!(MailDAAAD, validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))), Allow, Allow, Allow, false, Host, |h| h, |h| h, plain, );
mail!(MailDAAMD, validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))), Allow, Allow, Must, false, Host, |h| h, |h| h, plain, is_local);
mail!(MailDAADD, validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow))), Allow, Allow, Disallow, false, Host, |h| h, |h| h, plain, is_local);
mail!(MailDAMAD, validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow))), Allow, Must, Allow, false, Host, |h| h, |h| h, plain, );
mail!(MailDAMMD, validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Disallow))), Allow, Must, Must, false, Host, |h| h, |h| h, plain, );
mail!(MailDAMDD, validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow))), Allow, Must, Disallow, false, Host, |h| h, |h| h, plain, );
mail!(MailDADAD, validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow))), Allow, Disallow, Allow, false, Host, |h| h, |h| h, plain, );
mail!(MailDADMD, validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow))), Allow, Disallow, Must, false, Host, |h| h, |h| h, plain, );
mail!(MailDADDD, validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow))), Allow, Disallow, Disallow, false, Host, |h| h, |h| h, plain, );
mail!(MailDMAAD, validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))), Must, Allow, Allow, false, std::net::IpAddr, |h| match h { std::net::IpAddr::V4(a) => Host::IPv4(a), std::net::IpAddr::V6(a) => Host::IPv6(a) }, |h| match h { Host::IPv4(a) => a.into(), Host::IPv6(a) => a.into(), _ => unreachable!() }, plain, );
mail!(MailDMAMD, validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))), Must, Allow, Must, false, std::net::IpAddr, |h| match h { std::net::IpAddr::V4(a) => Host::IPv4(a), std::net::IpAddr::V6(a) => Host::IPv6(a) }, |h| match h { Host::IPv4(a) => a.into(), Host::IPv6(a) => a.into(), _ => unreachable!() }, plain, is_local);
mail!(MailDMADD, validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow))), Must, Allow, Disallow, false, std::net::IpAddr, |h| match h { std::net::IpAddr::V4(a) => Host::IPv4(a), std::net::IpAddr::V6(a) => Host::IPv6(a) }, |h| match h { Host::IPv4(a) => a.into(), Host::IPv6(a) => a.into(), _ => unreachable!() }, plain, is_local);
mail!(MailDMMAD, validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Disallow))), Must, Must, Allow, false, std::net::IpAddr, |h| match h { std::net::IpAddr::V4(a) => Host::IPv4(a), std::net::IpAddr::V6(a) => Host::IPv6(a) }, |h| match h { Host::IPv4(a) => a.into(), Host::IPv6(a) => a.into(), _ => unreachable!() }, plain, );
mail!(MailDMMMD, validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Disallow))), Must, Must, Must, false, std::net::IpAddr, |h| match h { std::net::IpAddr::V4(a) => Host::IPv4(a), std::net::IpAddr::V6(a) => Host::IPv6(a) }, |h| match h { Host::IPv4(a) => a.into(), Host::IPv6(a) => a.into(), _ => unreachable!() }, plain, );
mail!(MailDMMDD, validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow))), Must, Must, Disallow, false, std::net::IpAddr, |h| match h { std::net::IpAddr::V4(a) => Host::IPv4(a), std::net::IpAddr::V6(a) => Host::IPv6(a) }, |h| match h { Host::IPv4(a) => a.into(), Host::IPv6(a) => a.into(), _ => unreachable!() }, plain, );
mail!(MailDMDAD, validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow))), Must, Disallow, Allow, false, std::net::IpAddr, |h| match h { std::net::IpAddr::V4(a) => Host::IPv4(a), std::net::IpAddr::V6(a) => Host::IPv6(a) }, |h| match h { Host::IPv4(a) => a.into(), Host::IPv6(a) => a.into(), _ => unreachable!() }, plain, );
mail!(MailDMDMD, validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow))), Must, Disallow, Must, false, std::net::IpAddr, |h| match h { std::net::IpAddr::V4(a) => Host::IPv4(a), std::net::IpAddr::V6(a) => Host::IPv6(a) }, |h| match h { Host::IPv4(a) => a.into(), Host::IPv6(a) => a.into(), _ => unreachable!() }, plain, );
mail!(MailDMDDD, validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow))), Must, Disallow, Disallow, false, std::net::IpAddr, |h| match h { std::net::IpAddr::V4(a) => Host::IPv4(a), std::net::IpAddr::V6(a) => Host::IPv6(a) }, |h| match h { Host::IPv4(a) => a.into(), Host::IPv6(a) => a.into(), _ => unreachable!() }, plain, );
mail!(MailDDAAD, validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))), Disallow, Allow, Allow, false, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, plain, );
mail!(MailDDAMD, validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))), Disallow, Allow, Must, false, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, plain, is_local);
mail!(MailDDADD, validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow))), Disallow, Allow, Disallow, false, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, plain, is_local);
mail!(MailDDMAD, validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow))), Disallow, Must, Allow, false, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, plain, );
mail!(MailDDMMD, validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Disallow))), Disallow, Must, Must, false, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, plain, );
mail!(MailDDMDD, validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow))), Disallow, Must, Disallow, false, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, plain, );
mail!(MailDDDAD, validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow))), Disallow, Disallow, Allow, false, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, plain, );
mail!(MailDDDMD, validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow))), Disallow, Disallow, Must, false, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, plain, );
mail!(MailDDDDD, validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow))), Disallow, Disallow, Disallow, false, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, plain, );
mail!(MailAAAMD, validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))), Allow, Allow, Must, false, Host, |h| h, |h| h, comments, is_local);
mail!(MailAAAAD, validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))), Allow, Allow, Allow, false, Host, |h| h, |h| h, comments, );
mail!(MailAMAMD, validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))), Must, Allow, Must, false, std::net::IpAddr, |h| match h { std::net::IpAddr::V4(a) => Host::IPv4(a), std::net::IpAddr::V6(a) => Host::IPv6(a) }, |h| match h { Host::IPv4(a) => a.into(), Host::IPv6(a) => a.into(), _ => unreachable!() }, comments, is_local);
mail!(MailAMAAD, validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))), Must, Allow, Allow, false, std::net::IpAddr, |h| match h { std::net::IpAddr::V4(a) => Host::IPv4(a), std::net::IpAddr::V6(a) => Host::IPv6(a) }, |h| match h { Host::IPv4(a) => a.into(), Host::IPv6(a) => a.into(), _ => unreachable!() }, comments, );
mail!(MailADAMD, validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))), Disallow, Allow, Must, false, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, comments, is_local);
mail!(MailADAAD, validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))), Disallow, Allow, Allow, false, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, comments, );

fn join(parts: &[&str]) -> String {
    let mut t = String::new();
    for p in parts {
        t.push_str(p);
    }
    t
}
fn text<T: Mail>(b: &[u8]) -> bool {
    compare::<T>(b, None)
}
/// an arbitrary address in brackets, with the right tag and with the wrong one
fn literals<T: Mail>(s: &mut Src) {
    let a = Ip::V4(s.u32());
    let b = Ip::V6(s.u128());
    let (ta, tb) = (ip_text(a), ip_text(b));
    compare::<T>(join(&["a@[", &ta, "]"]).as_bytes(), Some(a));
    compare::<T>(join(&["a@[IPv6:", &tb, "]"]).as_bytes(), Some(b));
    compare::<T>(join(&["a@[", &tb, "]"]).as_bytes(), None);
    compare::<T>(join(&["a@[IPv6:", &ta, "]"]).as_bytes(), None);
}
fn names<T: Mail>() {
    text::<T>(b"a@LocalHost");
    text::<T>(b"a@x");
    text::<T>(b"a@x.Y");
    text::<T>(b"a@localhost.x");
}
/// where literals or names are refused anyway
fn refused<T: Mail>(s: &mut Src) {
    let a = Ip::V4(s.u32());
    let b = Ip::V6(s.u128());
    compare::<T>(join(&["a@[", &ip_text(a), "]"]).as_bytes(), Some(a));
    compare::<T>(join(&["a@[IPv6:", &ip_text(b), "]"]).as_bytes(), Some(b));
}
fn two_names<T: Mail>() {
    text::<T>(b"a@LocalHost");
    text::<T>(b"a@x");
}
fn dotted<T: Mail>() {
    text::<T>(b"a@x.");
    text::<T>(b"a@localhost.");
    text::<T>(b"a@x.y.");
}
/// an arbitrary address in brackets between comments
fn around<T: Mail>(s: &mut Src) {
    let a = Ip::V4(s.u32());
    let b = Ip::V6(s.u128());
    let (ta, tb) = (ip_text(a), ip_text(b));
    compare::<T>(join(&["a@(c)[", &ta, "](d)"]).as_bytes(), Some(a));
    compare::<T>(join(&["a@(c)[IPv6:", &tb, "](d)"]).as_bytes(), Some(b));
}
/// an arbitrary address in brackets with an arbitrary byte behind
fn behind<T: Mail>(s: &mut Src) {
    let a = Ip::V4(s.u32());
    let x = [s.within(0, 127)];
    compare::<T>(join(&["a@[", &ip_text(a), "]", st(&x)]).as_bytes(), Some(a));
}
/// N arbitrary bytes somewhere in the text of an IPv4 literal
fn literal4<T: Mail, const N: usize, const L: usize>(s: &mut Src, template: &[u8; L], at: usize) {
    let m = s.ascii::<N>();
    let mut b = *template;
    let mut i = 0;
    while i < N {
        b[at + i] = m[i];
        i += 1;
    }
    let ip = crate::ipmodel::v4(&b[3..L - 1]);
    compare::<T>(&b, ip.map(Ip::V4));
}
/// the same for an IPv6 literal
fn literal6<T: Mail, const N: usize, const L: usize>(s: &mut Src, template: &[u8; L], at: usize) {
    let m = s.ascii::<N>();
    let mut b = *template;
    let mut i = 0;
    while i < N {
        b[at + i] = m[i];
        i += 1;
    }
    let ip = crate::ipmodel::v6(&b[8..L - 1]);
    compare::<T>(&b, ip.map(Ip::V6));
}
/// an arbitrary byte in a name
fn name<T: Mail, const L: usize>(s: &mut Src, template: &[u8; L], at: usize) {
    let mut b = *template;
    b[at] = s.within(0, 127);
    compare::<T>(&b, None);
}

harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_literal_aaa, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets, with and without the tag", |s| {
    literals::<MailDAAAD>(s);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_names_aaa, bytes = 1, bound = "LocalHost, a name of one label, names of two labels", |s| {
    let _ = s;
    names::<MailDAAAD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_dotted_aaa, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDAAAD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_literal_aam, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets, with and without the tag", |s| {
    literals::<MailDAAMD>(s);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_names_aam, bytes = 1, bound = "LocalHost, a name of one label, names of two labels", |s| {
    let _ = s;
    names::<MailDAAMD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_aam, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDAAMD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_aad, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets; LocalHost, a name of one label, names of two labels", |s| {
    refused::<MailDAADD>(s);
    names::<MailDAADD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_aad, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDAADD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_literal_ama, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets, with and without the tag", |s| {
    literals::<MailDAMAD>(s);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_names_ama, bytes = 1, bound = "LocalHost, a name of one label, names of two labels", |s| {
    let _ = s;
    names::<MailDAMAD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_ama, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDAMAD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_literal_amm, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets, with and without the tag", |s| {
    literals::<MailDAMMD>(s);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_names_amm, bytes = 1, bound = "LocalHost, a name of one label, names of two labels", |s| {
    let _ = s;
    names::<MailDAMMD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_amm, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDAMMD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_amd, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets; LocalHost, a name of one label, names of two labels", |s| {
    refused::<MailDAMDD>(s);
    names::<MailDAMDD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_amd, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDAMDD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_literal_ada, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets, with and without the tag", |s| {
    literals::<MailDADAD>(s);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_names_ada, bytes = 1, bound = "LocalHost, a name of one label, names of two labels", |s| {
    let _ = s;
    names::<MailDADAD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_ada, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDADAD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_literal_adm, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets, with and without the tag", |s| {
    literals::<MailDADMD>(s);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_names_adm, bytes = 1, bound = "LocalHost, a name of one label, names of two labels", |s| {
    let _ = s;
    names::<MailDADMD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_adm, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDADMD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_add, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets; LocalHost, a name of one label, names of two labels", |s| {
    refused::<MailDADDD>(s);
    names::<MailDADDD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_dotted_add, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDADDD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_maa, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets, with and without the tag; LocalHost, a name of one label", |s| {
    literals::<MailDMAAD>(s);
    two_names::<MailDMAAD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_maa, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDMAAD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_mam, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets, with and without the tag; LocalHost, a name of one label", |s| {
    literals::<MailDMAMD>(s);
    two_names::<MailDMAMD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_mam, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDMAMD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_mad, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets; LocalHost, a name of one label, names of two labels", |s| {
    refused::<MailDMADD>(s);
    names::<MailDMADD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_mad, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDMADD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_mma, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets, with and without the tag; LocalHost, a name of one label", |s| {
    literals::<MailDMMAD>(s);
    two_names::<MailDMMAD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_mma, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDMMAD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_mmm, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets, with and without the tag; LocalHost, a name of one label", |s| {
    literals::<MailDMMMD>(s);
    two_names::<MailDMMMD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_mmm, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDMMMD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_mmd, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets; LocalHost, a name of one label, names of two labels", |s| {
    refused::<MailDMMDD>(s);
    names::<MailDMMDD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_mmd, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDMMDD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_mda, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets, with and without the tag; LocalHost, a name of one label", |s| {
    literals::<MailDMDAD>(s);
    two_names::<MailDMDAD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_mda, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDMDAD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_mdm, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets, with and without the tag; LocalHost, a name of one label", |s| {
    literals::<MailDMDMD>(s);
    two_names::<MailDMDMD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_mdm, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDMDMD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_mdd, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets; LocalHost, a name of one label, names of two labels", |s| {
    refused::<MailDMDDD>(s);
    names::<MailDMDDD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_mdd, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDMDDD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_daa, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets; LocalHost, a name of one label, names of two labels", |s| {
    refused::<MailDDAAD>(s);
    names::<MailDDAAD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_dotted_daa, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDDAAD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_dam, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets; LocalHost, a name of one label, names of two labels", |s| {
    refused::<MailDDAMD>(s);
    names::<MailDDAMD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_dam, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDDAMD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_dad, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets; LocalHost, a name of one label, names of two labels", |s| {
    refused::<MailDDADD>(s);
    names::<MailDDADD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_dad, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDDADD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_dma, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets; LocalHost, a name of one label, names of two labels", |s| {
    refused::<MailDDMAD>(s);
    names::<MailDDMAD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_dma, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDDMAD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_dmm, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets; LocalHost, a name of one label, names of two labels", |s| {
    refused::<MailDDMMD>(s);
    names::<MailDDMMD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_dmm, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDDMMD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_dmd, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets; LocalHost, a name of one label, names of two labels", |s| {
    refused::<MailDDMDD>(s);
    names::<MailDDMDD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_dotted_dmd, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDDMDD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_dda, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets; LocalHost, a name of one label, names of two labels", |s| {
    refused::<MailDDDAD>(s);
    names::<MailDDDAD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_dda, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDDDAD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_ddm, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets; LocalHost, a name of one label, names of two labels", |s| {
    refused::<MailDDDMD>(s);
    names::<MailDDDMD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_ddm, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDDDMD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_policy_ddd, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets; LocalHost, a name of one label, names of two labels", |s| {
    refused::<MailDDDDD>(s);
    names::<MailDDDDD>();
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_ddd, bytes = 1, bound = "names with a root dot", |s| {
    let _ = s;
    dotted::<MailDDDDD>();
});
harness!(#[kani::unwind(22)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_around_aam, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets between comments", |s| {
    around::<MailAAAMD>(s);
});
harness!(#[kani::unwind(22)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_around_aaa, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets between comments", |s| {
    around::<MailAAAAD>(s);
});
harness!(#[kani::unwind(22)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_around_mam, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets between comments", |s| {
    around::<MailAMAMD>(s);
});
harness!(#[kani::unwind(22)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_around_maa, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets between comments", |s| {
    around::<MailAMAAD>(s);
});
harness!(#[kani::unwind(22)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_around_dam, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets between comments", |s| {
    around::<MailADAMD>(s);
});
harness!(#[kani::unwind(22)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_around_daa, bytes = 20, bound = "every IPv4 and every IPv6 address in brackets between comments", |s| {
    around::<MailADAAD>(s);
});
harness!(#[kani::unwind(22)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_behind_aaaa, bytes = 5, bound = "every IPv4 address in brackets with an arbitrary byte behind", |s| {
    behind::<MailAAAAD>(s);
});
harness!(#[kani::unwind(22)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_behind_daaa, bytes = 5, bound = "every IPv4 address in brackets with an arbitrary byte behind", |s| {
    behind::<MailDAAAD>(s);
});
harness!(#[kani::unwind(22)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_behind_dmmm, bytes = 5, bound = "every IPv4 address in brackets with an arbitrary byte behind", |s| {
    behind::<MailDMMMD>(s);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_v4_aaa_first, bytes = 1, bound = "every ASCII text of 1 bytes at the marks in a@[?.2.3.4]", |s| {
    literal4::<MailDAAAD, 1, 11>(s, b"a@[?.2.3.4]", 3);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_v4_aaa_end, bytes = 2, bound = "every ASCII text of 2 bytes at the marks in a@[1.2.3.??]", |s| {
    literal4::<MailDAAAD, 2, 12>(s, b"a@[1.2.3.??]", 9);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_v4_aaa_mid, bytes = 1, bound = "every ASCII text of 1 bytes at the marks in a@[10.?.0.1]", |s| {
    literal4::<MailDAAAD, 1, 12>(s, b"a@[10.?.0.1]", 6);
});
harness!(#[kani::unwind(15)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_v4_aaa_dot, bytes = 1, bound = "every ASCII text of 1 bytes at the marks in a@[127.0.0?1]", |s| {
    literal4::<MailDAAAD, 1, 13>(s, b"a@[127.0.0?1]", 10);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_v6_aaa_short, bytes = 1, bound = "every ASCII text of 1 bytes at the marks in a@[IPv6:::?]", |s| {
    literal6::<MailDAAAD, 1, 12>(s, b"a@[IPv6:::?]", 10);
});
harness!(#[kani::unwind(16)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_v6_aaa_first, bytes = 2, bound = "every ASCII text of 2 bytes at the marks in a@[IPv6:??::1]", |s| {
    literal6::<MailDAAAD, 2, 14>(s, b"a@[IPv6:??::1]", 8);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_v6_aaa_bare, bytes = 2, bound = "every ASCII text of 2 bytes at the marks in a@[IPv6:??]", |s| {
    literal6::<MailDAAAD, 2, 11>(s, b"a@[IPv6:??]", 8);
});
harness!(#[kani::unwind(15)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_v6_aaa_colon, bytes = 1, bound = "every ASCII text of 1 bytes at the marks in a@[IPv6:1?:2]", |s| {
    literal6::<MailDAAAD, 1, 13>(s, b"a@[IPv6:1?:2]", 9);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_v4_ada_first, bytes = 1, bound = "every ASCII text of 1 bytes at the marks in a@[?.2.3.4]", |s| {
    literal4::<MailDADAD, 1, 11>(s, b"a@[?.2.3.4]", 3);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_v4_ada_end, bytes = 2, bound = "every ASCII text of 2 bytes at the marks in a@[1.2.3.??]", |s| {
    literal4::<MailDADAD, 2, 12>(s, b"a@[1.2.3.??]", 9);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_v4_ada_mid, bytes = 1, bound = "every ASCII text of 1 bytes at the marks in a@[10.?.0.1]", |s| {
    literal4::<MailDADAD, 1, 12>(s, b"a@[10.?.0.1]", 6);
});
harness!(#[kani::unwind(15)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_v4_ada_dot, bytes = 1, bound = "every ASCII text of 1 bytes at the marks in a@[127.0.0?1]", |s| {
    literal4::<MailDADAD, 1, 13>(s, b"a@[127.0.0?1]", 10);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_v6_ada_short, bytes = 1, bound = "every ASCII text of 1 bytes at the marks in a@[IPv6:::?]", |s| {
    literal6::<MailDADAD, 1, 12>(s, b"a@[IPv6:::?]", 10);
});
harness!(#[kani::unwind(16)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_v6_ada_first, bytes = 2, bound = "every ASCII text of 2 bytes at the marks in a@[IPv6:??::1]", |s| {
    literal6::<MailDADAD, 2, 14>(s, b"a@[IPv6:??::1]", 8);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_v6_ada_bare, bytes = 2, bound = "every ASCII text of 2 bytes at the marks in a@[IPv6:??]", |s| {
    literal6::<MailDADAD, 2, 11>(s, b"a@[IPv6:??]", 8);
});
harness!(#[kani::unwind(15)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_v6_ada_colon, bytes = 1, bound = "every ASCII text of 1 bytes at the marks in a@[IPv6:1?:2]", |s| {
    literal6::<MailDADAD, 1, 13>(s, b"a@[IPv6:1?:2]", 9);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_v4_mma_first, bytes = 1, bound = "every ASCII text of 1 bytes at the marks in a@[?.2.3.4]", |s| {
    literal4::<MailDMMAD, 1, 11>(s, b"a@[?.2.3.4]", 3);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_v4_mma_end, bytes = 2, bound = "every ASCII text of 2 bytes at the marks in a@[1.2.3.??]", |s| {
    literal4::<MailDMMAD, 2, 12>(s, b"a@[1.2.3.??]", 9);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_v4_mma_mid, bytes = 1, bound = "every ASCII text of 1 bytes at the marks in a@[10.?.0.1]", |s| {
    literal4::<MailDMMAD, 1, 12>(s, b"a@[10.?.0.1]", 6);
});
harness!(#[kani::unwind(15)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_v4_mma_dot, bytes = 1, bound = "every ASCII text of 1 bytes at the marks in a@[127.0.0?1]", |s| {
    literal4::<MailDMMAD, 1, 13>(s, b"a@[127.0.0?1]", 10);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_v6_mma_short, bytes = 1, bound = "every ASCII text of 1 bytes at the marks in a@[IPv6:::?]", |s| {
    literal6::<MailDMMAD, 1, 12>(s, b"a@[IPv6:::?]", 10);
});
harness!(#[kani::unwind(16)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_v6_mma_first, bytes = 2, bound = "every ASCII text of 2 bytes at the marks in a@[IPv6:??::1]", |s| {
    literal6::<MailDMMAD, 2, 14>(s, b"a@[IPv6:??::1]", 8);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_v6_mma_bare, bytes = 2, bound = "every ASCII text of 2 bytes at the marks in a@[IPv6:??]", |s| {
    literal6::<MailDMMAD, 2, 11>(s, b"a@[IPv6:??]", 8);
});
harness!(#[kani::unwind(15)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6_any)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_v6_mma_colon, bytes = 1, bound = "every ASCII text of 1 bytes at the marks in a@[IPv6:1?:2]", |s| {
    literal6::<MailDMMAD, 1, 13>(s, b"a@[IPv6:1?:2]", 9);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_amm_local, bytes = 1, bound = "every byte at the mark in a@localhos?", |s| {
    name::<MailDAMMD, 11>(s, b"a@localhos?", 10);
});
harness!(#[kani::unwind(7)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_amm_label, bytes = 1, bound = "every byte at the mark in a@x?y", |s| {
    name::<MailDAMMD, 5>(s, b"a@x?y", 3);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_name_amm_first, bytes = 1, bound = "every byte at the mark in a@?ocalhost", |s| {
    name::<MailDAMMD, 11>(s, b"a@?ocalhost", 2);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_dam_local, bytes = 1, bound = "every byte at the mark in a@localhos?", |s| {
    name::<MailDDAMD, 11>(s, b"a@localhos?", 10);
});
harness!(#[kani::unwind(7)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_dam_label, bytes = 1, bound = "every byte at the mark in a@x?y", |s| {
    name::<MailDDAMD, 5>(s, b"a@x?y", 3);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_name_dam_first, bytes = 1, bound = "every byte at the mark in a@?ocalhost", |s| {
    name::<MailDDAMD, 11>(s, b"a@?ocalhost", 2);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_ddd_local, bytes = 1, bound = "every byte at the mark in a@localhos?", |s| {
    name::<MailDDDDD, 11>(s, b"a@localhos?", 10);
});
harness!(#[kani::unwind(7)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_ddd_label, bytes = 1, bound = "every byte at the mark in a@x?y", |s| {
    name::<MailDDDDD, 5>(s, b"a@x?y", 3);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_name_ddd_first, bytes = 1, bound = "every byte at the mark in a@?ocalhost", |s| {
    name::<MailDDDDD, 11>(s, b"a@?ocalhost", 2);
});
