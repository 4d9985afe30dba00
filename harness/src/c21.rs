// Written by tools/gen_c21.py
use crate::mail::*;
#[cfg(kani)]
use crate::net::stub;
use crate::net::{ip_text, Ip, Tri};
#[cfg(kani)]
use crate::util::fmtstub;
use crate::util::{st, Src};
use validators::models::Host;
use validators::prelude::*;
#[cfg(not(kani))]
use crate::kani;
mail!(MailAAAMD, validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))), Allow, Allow, Must, false, Host, |h| h, |h| h, comments, is_local);
mail!(MailAAAAD, validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))), Allow, Allow, Allow, false, Host, |h| h, |h| h, comments, );
mail!(MailADAMD, validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))), Disallow, Allow, Must, false, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, comments, is_local);
mail!(MailADAAD, validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))), Disallow, Allow, Allow, false, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, comments, );
mail!(MailAMAMD, validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))), Must, Allow, Must, false, std::net::IpAddr, |h| match h { std::net::IpAddr::V4(a) => Host::IPv4(a), std::net::IpAddr::V6(a) => Host::IPv6(a) }, |h| match h { Host::IPv4(a) => a.into(), Host::IPv6(a) => a.into(), _ => unreachable!() }, comments, is_local);
mail!(MailAMAAD, validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))), Must, Allow, Allow, false, std::net::IpAddr, |h| match h { std::net::IpAddr::V4(a) => Host::IPv4(a), std::net::IpAddr::V6(a) => Host::IPv6(a) }, |h| match h { Host::IPv4(a) => a.into(), Host::IPv6(a) => a.into(), _ => unreachable!() }, comments, );
mail!(MailDAAMD, validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))), Allow, Allow, Must, false, Host, |h| h, |h| h, plain, is_local);
mail!(MailDAAAD, validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))), Allow, Allow, Allow, false, Host, |h| h, |h| h, plain, );
mail!(MailDDAMD, validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))), Disallow, Allow, Must, false, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, plain, is_local);
mail!(MailDDAAD, validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))), Disallow, Allow, Allow, false, String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }, plain, );
mail!(MailDMAMD, validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))), Must, Allow, Must, false, std::net::IpAddr, |h| match h { std::net::IpAddr::V4(a) => Host::IPv4(a), std::net::IpAddr::V6(a) => Host::IPv6(a) }, |h| match h { Host::IPv4(a) => a.into(), Host::IPv6(a) => a.into(), _ => unreachable!() }, plain, is_local);
mail!(MailDMAAD, validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))), Must, Allow, Allow, false, std::net::IpAddr, |h| match h { std::net::IpAddr::V4(a) => Host::IPv4(a), std::net::IpAddr::V6(a) => Host::IPv6(a) }, |h| match h { Host::IPv4(a) => a.into(), Host::IPv6(a) => a.into(), _ => unreachable!() }, plain, );

struct Value<'a> {
    local: &'a [u8],
    quoted: bool,
    host: Option<Ip>,
    domain: &'a [u8],
    comments: [Option<&'a [u8]>; 4],
}
fn put(t: &mut Vec<u8>, c: Option<&[u8]>) {
    if let Some(c) = c {
        t.push(b'(');
        t.extend_from_slice(c);
        t.push(b')');
    }
}
/// the address as the documentation writes it
fn spell(v: &Value) -> Vec<u8> {
    let mut t = Vec::with_capacity(64);
    put(&mut t, v.comments[0]);
    if v.quoted {
        t.push(b'"');
    }
    t.extend_from_slice(v.local);
    if v.quoted {
        t.push(b'"');
    }
    put(&mut t, v.comments[1]);
    t.push(b'@');
    put(&mut t, v.comments[2]);
    match v.host {
        Some(ip) => {
            t.push(b'[');
            if let Ip::V6(_) = ip {
                t.extend_from_slice(b"IPv6:");
            }
            t.extend_from_slice(ip_text(ip).as_bytes());
            t.push(b']');
        }
        None => t.extend_from_slice(v.domain),
    }
    put(&mut t, v.comments[3]);
    t
}
fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    let mut same = a.len() == b.len();
    let mut i = 0;
    while same && i < b.len() {
        same &= a[i] == b[i];
        i += 1;
    }
    same
}
fn written<T: Mail>(v: Value) {
    let text = spell(&v);
    let own = |b: &[u8]| String::from(st(b));
    let host = match v.host {
        Some(Ip::V4(a)) => Host::IPv4(a.into()),
        Some(Ip::V6(a)) => Host::IPv6(a.into()),
        None => Host::Domain(own(v.domain)),
    };
    let c = v.comments;
    let r = R { local: own(v.local), quoted: v.quoted, host, comments: [c[0].map(own), c[1].map(own), c[2].map(own), c[3].map(own)], is_local: None };
    assert!(bytes_eq(T::write_(r).as_bytes(), &text), "the address which is written is made of the parts of the value");
}
fn read<T: Mail>(v: Value) {
    let text = spell(&v);
    match T::str_(st(&text)) {
        None => assert!(false, "the text of a value is accepted"),
        Some(r) => {
            let host = match &r.host {
                Host::IPv4(a) => v.host == Some(Ip::V4(u32::from(*a))),
                Host::IPv6(a) => v.host == Some(Ip::V6(u128::from(*a))),
                Host::Domain(n) => v.host.is_none() && bytes_eq(n.as_bytes(), v.domain),
            };
            assert!(host, "the domain part is read back");
            assert!(bytes_eq(r.local.as_bytes(), v.local) && r.quoted == v.quoted, "the local part is read back");
            let mut ok = true;
            let mut i = 0;
            while i < 4 {
                ok &= match (&r.comments[i], v.comments[i]) {
                    (Some(a), Some(b)) => bytes_eq(a.as_bytes(), b),
                    (None, None) => true,
                    _ => false,
                };
                i += 1;
            }
            assert!(ok, "the comments are read back");
            if let (Some(l), Some(ip)) = (r.is_local, v.host) {
                assert!(l == ip.local(), "the classification is read back");
            }
        }
    }
}
const NO: [Option<&'static [u8]>; 4] = [None; 4];
const ALL_OF_THEM: [Option<&'static [u8]>; 4] = [Some(b"c"), Some(b"dd"), Some(b""), Some(b"(e")];
fn ip<T: Mail>(s: &mut Src, six: bool) -> Option<Ip> {
    match (T::IP, six) {
        (Tri::Disallow, _) => None,
        (_, false) => Some(Ip::V4(s.u32())),
        (_, true) => Some(Ip::V6(s.u128())),
    }
}
/// everything arbitrary at once
fn writes<T: Mail>(s: &mut Src) {
    let l = s.ascii::<3>();
    let d = s.ascii::<2>();
    let c = s.ascii::<4>();
    let five = ip::<T>(s, false);
    let six = ip::<T>(s, true);
    let name = if T::IP == Tri::Must { five } else { None };
    written::<T>(Value { local: &l, quoted: false, host: name, domain: &d, comments: NO });
    written::<T>(Value { local: &l[..2], quoted: true, host: five, domain: &d, comments: NO });
    if T::COMMENT {
        written::<T>(Value { local: &l[..1], quoted: true, host: six, domain: &d, comments: [Some(&c[..1]), Some(&c[1..2]), Some(&c[2..3]), Some(&c[3..])] });
        written::<T>(Value { local: &l, quoted: false, host: name, domain: &d, comments: [Some(&c[..2]), None, Some(&c[2..2]), None] });
        written::<T>(Value { local: &l, quoted: false, host: five, domain: &d, comments: [None, Some(&c[..2]), None, Some(&c[2..2])] });
    } else {
        written::<T>(Value { local: &l, quoted: false, host: six, domain: &d, comments: NO });
    }
}
/// texts without an arbitrary byte apart from the address
fn addresses<T: Mail>(s: &mut Src) {
    let five = ip::<T>(s, false);
    let six = ip::<T>(s, true);
    read::<T>(Value { local: b"a", quoted: false, host: five, domain: b"xn--a-ga.y", comments: NO });
    read::<T>(Value { local: b".", quoted: true, host: six, domain: b"localhost", comments: if T::COMMENT { ALL_OF_THEM } else { NO } });
}
/// the part which holds the arbitrary byte
fn part<T: Mail>(s: &mut Src, which: u8) {
    let x = s.within(0, 127);
    let five = if T::IP == Tri::Must { ip::<T>(s, false) } else { None };
    let mut v = Value { local: b"a", quoted: false, host: five, domain: b"x.y", comments: NO };
    let dotted = [b'a', b'.', x];
    let quoted = [x, b'b'];
    let escaped = [b'\\', x];
    let domain = [b'x', x, b'.', b'y'];
    let comment = [b'c', x];
    match which {
        0 => {
            kani::assume(atom(x));
            v.local = &dotted;
        }
        1 => {
            kani::assume(x == b'.' || x == b' ' || x == b'\t');
            v.local = &quoted;
            v.quoted = true;
        }
        2 => {
            kani::assume(special(x) || atom(x) || x == b'\\' || x == b'.' || x == b' ' || x == b'\t');
            v.local = &escaped;
            v.quoted = true;
        }
        3 => {
            kani::assume(x.is_ascii_lowercase() || x.is_ascii_digit());
            v.domain = &domain;
        }
        _ => {
            kani::assume(x != b')');
            v.comments[(which - 4) as usize] = Some(&comment);
        }
    }
    read::<T>(v);
}

harness!(#[kani::unwind(30)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_write_aaam, bytes = 29, bound = "every local part of up to 3 bytes, domain of 2 bytes, comments of up to 2 bytes and every address", |s| {
    writes::<MailAAAMD>(s);
});
harness!(#[kani::unwind(36)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_read_aaam, bytes = 20, bound = "every address with and without comments", |s| {
    addresses::<MailAAAMD>(s);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_dotted_aaam, bytes = 1, bound = "a dot-atom which ends with an arbitrary byte", |s| {
    part::<MailAAAMD>(s, 0);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_quoted_aaam, bytes = 1, bound = "a quoted local part with an arbitrary dot, space or tab", |s| {
    part::<MailAAAMD>(s, 1);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_escaped_aaam, bytes = 1, bound = "a quoted local part with an arbitrary escaped byte", |s| {
    part::<MailAAAMD>(s, 2);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_domain_aaam, bytes = 1, bound = "a domain with an arbitrary letter or digit", |s| {
    part::<MailAAAMD>(s, 3);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_c2_aaam, bytes = 1, bound = "an arbitrary byte in a comment after the local part", |s| {
    part::<MailAAAMD>(s, 5);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_c3_aaam, bytes = 1, bound = "an arbitrary byte in a comment before the domain part", |s| {
    part::<MailAAAMD>(s, 6);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_c4_aaam, bytes = 1, bound = "an arbitrary byte in a comment after the domain part", |s| {
    part::<MailAAAMD>(s, 7);
});
harness!(#[kani::unwind(30)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_write_aaaa, bytes = 29, bound = "every local part of up to 3 bytes, domain of 2 bytes, comments of up to 2 bytes and every address", |s| {
    writes::<MailAAAAD>(s);
});
harness!(#[kani::unwind(36)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_read_aaaa, bytes = 20, bound = "every address with and without comments", |s| {
    addresses::<MailAAAAD>(s);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_aaaa, bytes = 1, bound = "a dot-atom which ends with an arbitrary byte", |s| {
    part::<MailAAAAD>(s, 0);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_quoted_aaaa, bytes = 1, bound = "a quoted local part with an arbitrary dot, space or tab", |s| {
    part::<MailAAAAD>(s, 1);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_escaped_aaaa, bytes = 1, bound = "a quoted local part with an arbitrary escaped byte", |s| {
    part::<MailAAAAD>(s, 2);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_domain_aaaa, bytes = 1, bound = "a domain with an arbitrary letter or digit", |s| {
    part::<MailAAAAD>(s, 3);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_c2_aaaa, bytes = 1, bound = "an arbitrary byte in a comment after the local part", |s| {
    part::<MailAAAAD>(s, 5);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_c3_aaaa, bytes = 1, bound = "an arbitrary byte in a comment before the domain part", |s| {
    part::<MailAAAAD>(s, 6);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_c4_aaaa, bytes = 1, bound = "an arbitrary byte in a comment after the domain part", |s| {
    part::<MailAAAAD>(s, 7);
});
harness!(#[kani::unwind(30)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_write_adam, bytes = 29, bound = "every local part of up to 3 bytes, domain of 2 bytes, comments of up to 2 bytes and every address", |s| {
    writes::<MailADAMD>(s);
});
harness!(#[kani::unwind(36)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_read_adam, bytes = 20, bound = "every address with and without comments", |s| {
    addresses::<MailADAMD>(s);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_dotted_adam, bytes = 1, bound = "a dot-atom which ends with an arbitrary byte", |s| {
    part::<MailADAMD>(s, 0);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_quoted_adam, bytes = 1, bound = "a quoted local part with an arbitrary dot, space or tab", |s| {
    part::<MailADAMD>(s, 1);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_escaped_adam, bytes = 1, bound = "a quoted local part with an arbitrary escaped byte", |s| {
    part::<MailADAMD>(s, 2);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_domain_adam, bytes = 1, bound = "a domain with an arbitrary letter or digit", |s| {
    part::<MailADAMD>(s, 3);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_c2_adam, bytes = 1, bound = "an arbitrary byte in a comment after the local part", |s| {
    part::<MailADAMD>(s, 5);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_c3_adam, bytes = 1, bound = "an arbitrary byte in a comment before the domain part", |s| {
    part::<MailADAMD>(s, 6);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_c4_adam, bytes = 1, bound = "an arbitrary byte in a comment after the domain part", |s| {
    part::<MailADAMD>(s, 7);
});
harness!(#[kani::unwind(30)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_write_adaa, bytes = 29, bound = "every local part of up to 3 bytes, domain of 2 bytes, comments of up to 2 bytes and every address", |s| {
    writes::<MailADAAD>(s);
});
harness!(#[kani::unwind(36)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_read_adaa, bytes = 20, bound = "every address with and without comments", |s| {
    addresses::<MailADAAD>(s);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_adaa, bytes = 1, bound = "a dot-atom which ends with an arbitrary byte", |s| {
    part::<MailADAAD>(s, 0);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_quoted_adaa, bytes = 1, bound = "a quoted local part with an arbitrary dot, space or tab", |s| {
    part::<MailADAAD>(s, 1);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_escaped_adaa, bytes = 1, bound = "a quoted local part with an arbitrary escaped byte", |s| {
    part::<MailADAAD>(s, 2);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_domain_adaa, bytes = 1, bound = "a domain with an arbitrary letter or digit", |s| {
    part::<MailADAAD>(s, 3);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_c2_adaa, bytes = 1, bound = "an arbitrary byte in a comment after the local part", |s| {
    part::<MailADAAD>(s, 5);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_c3_adaa, bytes = 1, bound = "an arbitrary byte in a comment before the domain part", |s| {
    part::<MailADAAD>(s, 6);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_c4_adaa, bytes = 1, bound = "an arbitrary byte in a comment after the domain part", |s| {
    part::<MailADAAD>(s, 7);
});
harness!(#[kani::unwind(30)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_write_amam, bytes = 29, bound = "every local part of up to 3 bytes, domain of 2 bytes, comments of up to 2 bytes and every address", |s| {
    writes::<MailAMAMD>(s);
});
harness!(#[kani::unwind(36)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_read_amam, bytes = 20, bound = "every address with and without comments", |s| {
    addresses::<MailAMAMD>(s);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_amam, bytes = 5, bound = "a dot-atom which ends with an arbitrary byte", |s| {
    part::<MailAMAMD>(s, 0);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_quoted_amam, bytes = 5, bound = "a quoted local part with an arbitrary dot, space or tab", |s| {
    part::<MailAMAMD>(s, 1);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_escaped_amam, bytes = 5, bound = "a quoted local part with an arbitrary escaped byte", |s| {
    part::<MailAMAMD>(s, 2);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_c2_amam, bytes = 5, bound = "an arbitrary byte in a comment after the local part", |s| {
    part::<MailAMAMD>(s, 5);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_c3_amam, bytes = 5, bound = "an arbitrary byte in a comment before the domain part", |s| {
    part::<MailAMAMD>(s, 6);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_c4_amam, bytes = 5, bound = "an arbitrary byte in a comment after the domain part", |s| {
    part::<MailAMAMD>(s, 7);
});
harness!(#[kani::unwind(30)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_write_amaa, bytes = 29, bound = "every local part of up to 3 bytes, domain of 2 bytes, comments of up to 2 bytes and every address", |s| {
    writes::<MailAMAAD>(s);
});
harness!(#[kani::unwind(36)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_read_amaa, bytes = 20, bound = "every address with and without comments", |s| {
    addresses::<MailAMAAD>(s);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_amaa, bytes = 5, bound = "a dot-atom which ends with an arbitrary byte", |s| {
    part::<MailAMAAD>(s, 0);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_quoted_amaa, bytes = 5, bound = "a quoted local part with an arbitrary dot, space or tab", |s| {
    part::<MailAMAAD>(s, 1);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_escaped_amaa, bytes = 5, bound = "a quoted local part with an arbitrary escaped byte", |s| {
    part::<MailAMAAD>(s, 2);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_c2_amaa, bytes = 5, bound = "an arbitrary byte in a comment after the local part", |s| {
    part::<MailAMAAD>(s, 5);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_c3_amaa, bytes = 5, bound = "an arbitrary byte in a comment before the domain part", |s| {
    part::<MailAMAAD>(s, 6);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_c4_amaa, bytes = 5, bound = "an arbitrary byte in a comment after the domain part", |s| {
    part::<MailAMAAD>(s, 7);
});
harness!(#[kani::unwind(30)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_write_daam, bytes = 29, bound = "every local part of up to 3 bytes, domain of 2 bytes, comments of up to 2 bytes and every address", |s| {
    writes::<MailDAAMD>(s);
});
harness!(#[kani::unwind(36)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_read_daam, bytes = 20, bound = "every address with and without comments", |s| {
    addresses::<MailDAAMD>(s);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_dotted_daam, bytes = 1, bound = "a dot-atom which ends with an arbitrary byte", |s| {
    part::<MailDAAMD>(s, 0);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_quoted_daam, bytes = 1, bound = "a quoted local part with an arbitrary dot, space or tab", |s| {
    part::<MailDAAMD>(s, 1);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_escaped_daam, bytes = 1, bound = "a quoted local part with an arbitrary escaped byte", |s| {
    part::<MailDAAMD>(s, 2);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_domain_daam, bytes = 1, bound = "a domain with an arbitrary letter or digit", |s| {
    part::<MailDAAMD>(s, 3);
});
harness!(#[kani::unwind(30)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_write_daaa, bytes = 29, bound = "every local part of up to 3 bytes, domain of 2 bytes, comments of up to 2 bytes and every address", |s| {
    writes::<MailDAAAD>(s);
});
harness!(#[kani::unwind(36)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_read_daaa, bytes = 20, bound = "every address with and without comments", |s| {
    addresses::<MailDAAAD>(s);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_daaa, bytes = 1, bound = "a dot-atom which ends with an arbitrary byte", |s| {
    part::<MailDAAAD>(s, 0);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_quoted_daaa, bytes = 1, bound = "a quoted local part with an arbitrary dot, space or tab", |s| {
    part::<MailDAAAD>(s, 1);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_escaped_daaa, bytes = 1, bound = "a quoted local part with an arbitrary escaped byte", |s| {
    part::<MailDAAAD>(s, 2);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_domain_daaa, bytes = 1, bound = "a domain with an arbitrary letter or digit", |s| {
    part::<MailDAAAD>(s, 3);
});
harness!(#[kani::unwind(30)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_write_ddam, bytes = 29, bound = "every local part of up to 3 bytes, domain of 2 bytes, comments of up to 2 bytes and every address", |s| {
    writes::<MailDDAMD>(s);
});
harness!(#[kani::unwind(36)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_read_ddam, bytes = 20, bound = "every address with and without comments", |s| {
    addresses::<MailDDAMD>(s);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_dotted_ddam, bytes = 1, bound = "a dot-atom which ends with an arbitrary byte", |s| {
    part::<MailDDAMD>(s, 0);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_quoted_ddam, bytes = 1, bound = "a quoted local part with an arbitrary dot, space or tab", |s| {
    part::<MailDDAMD>(s, 1);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_escaped_ddam, bytes = 1, bound = "a quoted local part with an arbitrary escaped byte", |s| {
    part::<MailDDAMD>(s, 2);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_domain_ddam, bytes = 1, bound = "a domain with an arbitrary letter or digit", |s| {
    part::<MailDDAMD>(s, 3);
});
harness!(#[kani::unwind(30)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_write_ddaa, bytes = 29, bound = "every local part of up to 3 bytes, domain of 2 bytes, comments of up to 2 bytes and every address", |s| {
    writes::<MailDDAAD>(s);
});
harness!(#[kani::unwind(36)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_read_ddaa, bytes = 20, bound = "every address with and without comments", |s| {
    addresses::<MailDDAAD>(s);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_ddaa, bytes = 1, bound = "a dot-atom which ends with an arbitrary byte", |s| {
    part::<MailDDAAD>(s, 0);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_quoted_ddaa, bytes = 1, bound = "a quoted local part with an arbitrary dot, space or tab", |s| {
    part::<MailDDAAD>(s, 1);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_escaped_ddaa, bytes = 1, bound = "a quoted local part with an arbitrary escaped byte", |s| {
    part::<MailDDAAD>(s, 2);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_domain_ddaa, bytes = 1, bound = "a domain with an arbitrary letter or digit", |s| {
    part::<MailDDAAD>(s, 3);
});
harness!(#[kani::unwind(30)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_write_dmam, bytes = 29, bound = "every local part of up to 3 bytes, domain of 2 bytes, comments of up to 2 bytes and every address", |s| {
    writes::<MailDMAMD>(s);
});
harness!(#[kani::unwind(36)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_read_dmam, bytes = 20, bound = "every address with and without comments", |s| {
    addresses::<MailDMAMD>(s);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_dmam, bytes = 5, bound = "a dot-atom which ends with an arbitrary byte", |s| {
    part::<MailDMAMD>(s, 0);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_quoted_dmam, bytes = 5, bound = "a quoted local part with an arbitrary dot, space or tab", |s| {
    part::<MailDMAMD>(s, 1);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_escaped_dmam, bytes = 5, bound = "a quoted local part with an arbitrary escaped byte", |s| {
    part::<MailDMAMD>(s, 2);
});
harness!(#[kani::unwind(30)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_write_dmaa, bytes = 29, bound = "every local part of up to 3 bytes, domain of 2 bytes, comments of up to 2 bytes and every address", |s| {
    writes::<MailDMAAD>(s);
});
harness!(#[kani::unwind(36)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_read_dmaa, bytes = 20, bound = "every address with and without comments", |s| {
    addresses::<MailDMAAD>(s);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_dotted_dmaa, bytes = 5, bound = "a dot-atom which ends with an arbitrary byte", |s| {
    part::<MailDMAAD>(s, 0);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_quoted_dmaa, bytes = 5, bound = "a quoted local part with an arbitrary dot, space or tab", |s| {
    part::<MailDMAAD>(s, 1);
});
harness!(#[kani::unwind(20)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_escaped_dmaa, bytes = 5, bound = "a quoted local part with an arbitrary escaped byte", |s| {
    part::<MailDMAAD>(s, 2);
});
