use crate::net::{ip_text, port_text, Ip};
#[cfg(kani)]
use crate::net::stub;
#[cfg(kani)]
use crate::util::fmtstub;
use crate::util::{st, Src};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use validators::models::Host;
use validators::prelude::*;

/// [address], [address]:port, address, address:port or domain:port
struct Text {
    b: [u8; 80],
    n: usize,
}
impl Text {
    fn put(&mut self, c: u8) {
        self.b[self.n] = c;
        self.n += 1;
    }
    fn puts(&mut self, s: &[u8]) {
        let mut i = 0;
        while i < s.len() {
            self.put(s[i]);
            i += 1;
        }
    }
    fn port(&mut self, p: u16) {
        self.put(b':');
        self.puts(port_text(p).as_bytes());
    }
}
fn text(name: &[u8], six: bool, port: Option<u16>) -> Text {
    let mut t = Text { b: [0; 80], n: 0 };
    if six {
        t.put(b'[');
    }
    t.puts(name);
    if six {
        t.put(b']');
    }
    if let Some(p) = port {
        t.port(p);
    }
    t
}
fn same(a: &str, t: &Text) -> bool {
    let a = a.as_bytes();
    if a.len() != t.n {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != t.b[i] {
            return false;
        }
        i += 1;
    }
    true
}

trait A: Sized + ToUriAuthorityString {
    fn make(ip: IpAddr, port: Option<u16>) -> Self;
    fn parse(s: &str) -> Option<(IpAddr, Option<u16>)>;
}
macro_rules! ip_authority {
    ($name:ident, $kind:ident, $field:ident, $ty:ty, Allow, |$ip:ident| $conv:expr) => {
        #[derive(Validator)]
        #[validator($kind(local(Allow), port(Allow)))]
        struct $name {
            $field: $ty,
            port: Option<u16>,
        }
        impl A for $name {
            fn make($ip: IpAddr, port: Option<u16>) -> Self {
                $name { $field: $conv, port }
            }
            fn parse(s: &str) -> Option<(IpAddr, Option<u16>)> {
                $name::parse_str(s).ok().map(|v| (v.$field.into(), v.port))
            }
        }
    };
    ($name:ident, $kind:ident, $field:ident, $ty:ty, Must, |$ip:ident| $conv:expr) => {
        #[derive(Validator)]
        #[validator($kind(local(Allow), port(Must)))]
        struct $name {
            $field: $ty,
            port: u16,
        }
        impl A for $name {
            fn make($ip: IpAddr, port: Option<u16>) -> Self {
                $name { $field: $conv, port: port.unwrap() }
            }
            fn parse(s: &str) -> Option<(IpAddr, Option<u16>)> {
                $name::parse_str(s).ok().map(|v| (v.$field.into(), Some(v.port)))
            }
        }
    };
    ($name:ident, $kind:ident, $ty:ty, |$ip:ident| $conv:expr, |$v:ident| $back:expr) => {
        #[derive(Validator)]
        #[validator($kind(local(Allow), port(Disallow)))]
        struct $name($ty);
        impl A for $name {
            fn make($ip: IpAddr, _: Option<u16>) -> Self {
                $name($conv)
            }
            fn parse(s: &str) -> Option<(IpAddr, Option<u16>)> {
                $name::parse_str(s).ok().map(|x| { let $v = x.0; ($back, None) })
            }
        }
    };
}
fn four(ip: IpAddr) -> Ipv4Addr {
    match ip {
        IpAddr::V4(ip) => ip,
        IpAddr::V6(_) => unreachable!(),
    }
}
fn six(ip: IpAddr) -> Ipv6Addr {
    match ip {
        IpAddr::V6(ip) => ip,
        IpAddr::V4(_) => unreachable!(),
    }
}
ip_authority!(IpA, ip, ip, IpAddr, Allow, |ip| ip);
ip_authority!(IpM, ip, ip, IpAddr, Must, |ip| ip);
ip_authority!(IpD, ip, IpAddr, |ip| ip, |v| v);
ip_authority!(V4A, ipv4, ipv4, Ipv4Addr, Allow, |ip| four(ip));
ip_authority!(V4M, ipv4, ipv4, Ipv4Addr, Must, |ip| four(ip));
ip_authority!(V4D, ipv4, Ipv4Addr, |ip| four(ip), |v| v.into());
ip_authority!(V6A, ipv6, ipv6, Ipv6Addr, Allow, |ip| six(ip));
ip_authority!(V6M, ipv6, ipv6, Ipv6Addr, Must, |ip| six(ip));
ip_authority!(V6D, ipv6, Ipv6Addr, |ip| six(ip), |v| v.into());

fn host_ip(ip: IpAddr) -> Host {
    match ip {
        IpAddr::V4(ip) => Host::IPv4(ip),
        IpAddr::V6(ip) => Host::IPv6(ip),
    }
}
fn ip_host(h: Host) -> IpAddr {
    match h {
        Host::IPv4(ip) => ip.into(),
        Host::IPv6(ip) => ip.into(),
        Host::Domain(_) => panic!("the text of an address is read as a domain"),
    }
}
macro_rules! host_authority {
    ($name:ident, $port:ident, $labels:ident, {$($f:ident: $t:ty = $e:expr,)*}, $pv:ident: $pt:ty = |$p:ident| $pe:expr, |$q:ident| $qe:expr) => {
        #[derive(Validator)]
        #[validator(host(local(Allow), port($port), at_least_two_labels($labels)))]
        #[allow(dead_code)]
        struct $name {
            host: Host,
            $pv: $pt,
            $($f: $t,)*
        }
        impl $name {
            fn of(host: Host, $p: Option<u16>) -> $name {
                $name { host, $pv: $pe, $($f: $e,)* }
            }
        }
        impl A for $name {
            fn make(ip: IpAddr, port: Option<u16>) -> Self {
                $name::of(host_ip(ip), port)
            }
            fn parse(s: &str) -> Option<(IpAddr, Option<u16>)> {
                $name::parse_str(s).ok().map(|v| { let $q = v.$pv; (ip_host(v.host), $qe) })
            }
        }
    };
}
host_authority!(HostA, Allow, Allow, {}, port: Option<u16> = |p| p, |q| q);
host_authority!(HostAL, Allow, Must, {is_local: bool = true,}, port: Option<u16> = |p| p, |q| q);
host_authority!(HostM, Must, Allow, {}, port: u16 = |p| p.unwrap(), |q| Some(q));
host_authority!(HostML, Must, Must, {is_local: bool = true,}, port: u16 = |p| p.unwrap(), |q| Some(q));
#[derive(Validator)]
#[validator(host(local(Allow), port(Disallow), at_least_two_labels(Allow)))]
struct HostD(Host);
#[derive(Validator)]
#[validator(host(local(Allow), port(Disallow), at_least_two_labels(Must)))]
#[allow(dead_code)]
struct HostDL {
    host: Host,
    is_local: bool,
}
impl HostD {
    fn of(h: Host, _: Option<u16>) -> Self {
        HostD(h)
    }
}
impl HostDL {
    fn of(host: Host, _: Option<u16>) -> Self {
        HostDL { host, is_local: false }
    }
}
impl A for HostD {
    fn make(ip: IpAddr, _: Option<u16>) -> Self {
        HostD(host_ip(ip))
    }
    fn parse(s: &str) -> Option<(IpAddr, Option<u16>)> {
        HostD::parse_str(s).ok().map(|v| (ip_host(v.0), None))
    }
}
impl A for HostDL {
    fn make(ip: IpAddr, _: Option<u16>) -> Self {
        HostDL { host: host_ip(ip), is_local: false }
    }
    fn parse(s: &str) -> Option<(IpAddr, Option<u16>)> {
        HostDL::parse_str(s).ok().map(|v| (ip_host(v.host), None))
    }
}

/// writes an address and a port and reads them back
fn address<T: A>(s: &mut Src, six: bool, with_port: bool, back: bool) {
    let ip = s.u128();
    let p = s.u16();
    let port = if with_port { Some(p) } else { None };
    let ip = if six { Ip::V6(ip) } else { Ip::V4(ip as u32) };
    let name = ip_text(ip);
    let given = ip;
    let ip = ip.std();
    let want = text(name.as_bytes(), six, port);
    let v = T::make(ip, port);
    let got = v.to_uri_authority_string();
    assert!(same(&got, &want), "the authority is the address, in brackets for version 6, and the port");
    if !back {
        return;
    }
    match T::parse(&got) {
        Some(r) => assert!(Ip::of(r.0) == given && r.1 == port, "the authority reads back as the same value"),
        None => assert!(false, "the authority is valid"),
    }
}

/// writes a domain and a port
fn domain<T, const N: usize>(s: &mut Src, with_port: bool, dot: bool, make: fn(String, Option<u16>) -> T)
where
    T: ToUriAuthorityString,
{
    let n = s.within(1, N as u8) as usize;
    let b = s.ascii::<N>();
    let p = s.u16();
    let port = if with_port { Some(p) } else { None };
    let name = &b[..n];
    crate::c15::not(name.len() == 1 && name[0] == b'.');
    let kept = if dot && name[n - 1] == b'.' { &name[..n - 1] } else { name };
    let want = text(kept, false, port);
    let v = make(String::from(st(name)), port);
    assert!(same(&v.to_uri_authority_string(), &want), "the authority is the name without root dot and the port");
}
fn not(c: bool) {
    #[cfg(not(kani))]
    use crate::kani;
    kani::assume(!c);
}

macro_rules! domain_authority {
    ($name:ident, $port:ident, $ipv4:ident, $labels:ident, {$($f:ident: $t:ty = $e:expr,)*}, $pt:ty = |$p:ident| $pe:expr) => {
        #[derive(Validator)]
        #[validator(domain(ipv4($ipv4), local(Allow), port($port), at_least_two_labels($labels)))]
        #[allow(dead_code)]
        struct $name {
            domain: String,
            port: $pt,
            $($f: $t,)*
        }
        impl $name {
            fn of(domain: String, $p: Option<u16>) -> $name {
                $name { domain, port: $pe, $($f: $e,)* }
            }
        }
    };
}
domain_authority!(DomA, Allow, Disallow, Allow, {}, Option<u16> = |p| p);
domain_authority!(DomM, Must, Disallow, Allow, {}, u16 = |p| p.unwrap());
domain_authority!(DomAL, Allow, Disallow, Must, {is_local: bool = false,}, Option<u16> = |p| p);
domain_authority!(DomML, Must, Disallow, Must, {is_local: bool = false,}, u16 = |p| p.unwrap());
domain_authority!(DomAF, Allow, Allow, Must, {is_local: bool = false, is_ipv4: bool = false,}, Option<u16> = |p| p);
domain_authority!(DomMF, Must, Allow, Must, {is_local: bool = false, is_ipv4: bool = false,}, u16 = |p| p.unwrap());
#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Allow)))]
struct DomD(String);
#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Must)))]
#[allow(dead_code)]
struct DomDL {
    domain: String,
    is_local: bool,
}

harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_ipa_4, bytes = 18, bound = "every IPv4 address", |s| {
    address::<IpA>(s, false, false, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_ipa_4_port, bytes = 18, bound = "every IPv4 address and every port", |s| {
    address::<IpA>(s, false, true, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_ipa_6, bytes = 18, bound = "every IPv6 address", |s| {
    address::<IpA>(s, true, false, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_ipa_6_port, bytes = 18, bound = "every IPv6 address and every port", |s| {
    address::<IpA>(s, true, true, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_ipm_4_port, bytes = 18, bound = "every IPv4 address and every port", |s| {
    address::<IpM>(s, false, true, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_ipm_6_port, bytes = 18, bound = "every IPv6 address and every port", |s| {
    address::<IpM>(s, true, true, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_ipd_4, bytes = 18, bound = "every IPv4 address", |s| {
    address::<IpD>(s, false, false, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_ipd_6, bytes = 18, bound = "every IPv6 address", |s| {
    address::<IpD>(s, true, false, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_v4a_4, bytes = 18, bound = "every IPv4 address", |s| {
    address::<V4A>(s, false, false, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_v4a_4_port, bytes = 18, bound = "every IPv4 address and every port", |s| {
    address::<V4A>(s, false, true, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_v4m_4_port, bytes = 18, bound = "every IPv4 address and every port", |s| {
    address::<V4M>(s, false, true, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_v4d_4, bytes = 18, bound = "every IPv4 address", |s| {
    address::<V4D>(s, false, false, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_v6a_6, bytes = 18, bound = "every IPv6 address", |s| {
    address::<V6A>(s, true, false, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_v6a_6_port, bytes = 18, bound = "every IPv6 address and every port", |s| {
    address::<V6A>(s, true, true, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_v6m_6_port, bytes = 18, bound = "every IPv6 address and every port", |s| {
    address::<V6M>(s, true, true, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_v6d_6, bytes = 18, bound = "every IPv6 address", |s| {
    address::<V6D>(s, true, false, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_address_hosta_4, bytes = 18, bound = "every IPv4 address", |s| {
    address::<HostA>(s, false, false, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_hosta_4_port, bytes = 18, bound = "every IPv4 address and every port", |s| {
    address::<HostA>(s, false, true, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_hosta_6, bytes = 18, bound = "every IPv6 address", |s| {
    address::<HostA>(s, true, false, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_hosta_6_port, bytes = 18, bound = "every IPv6 address and every port", |s| {
    address::<HostA>(s, true, true, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_hostal_4, bytes = 18, bound = "every IPv4 address", |s| {
    address::<HostAL>(s, false, false, false);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_hostal_4_port, bytes = 18, bound = "every IPv4 address and every port", |s| {
    address::<HostAL>(s, false, true, false);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_hostal_6, bytes = 18, bound = "every IPv6 address", |s| {
    address::<HostAL>(s, true, false, false);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_hostal_6_port, bytes = 18, bound = "every IPv6 address and every port", |s| {
    address::<HostAL>(s, true, true, false);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_hostm_4_port, bytes = 18, bound = "every IPv4 address and every port", |s| {
    address::<HostM>(s, false, true, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_hostm_6_port, bytes = 18, bound = "every IPv6 address and every port", |s| {
    address::<HostM>(s, true, true, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_hostml_4_port, bytes = 18, bound = "every IPv4 address and every port", |s| {
    address::<HostML>(s, false, true, false);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_hostml_6_port, bytes = 18, bound = "every IPv6 address and every port", |s| {
    address::<HostML>(s, true, true, false);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_hostd_4, bytes = 18, bound = "every IPv4 address", |s| {
    address::<HostD>(s, false, false, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] t_address_hostd_6, bytes = 18, bound = "every IPv6 address", |s| {
    address::<HostD>(s, true, false, true);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_hostdl_4, bytes = 18, bound = "every IPv4 address", |s| {
    address::<HostDL>(s, false, false, false);
    cover!(true, "done");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_address_hostdl_6, bytes = 18, bound = "every IPv6 address", |s| {
    address::<HostDL>(s, true, false, false);
    cover!(true, "done");
});
harness!(#[kani::unwind(13)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_doma, bytes = 7, bound = "every ASCII name of up to 4 bytes", |s| {
    domain::<DomA, 4>(s, false, true, DomA::of);
    cover!(true, "done");
});
harness!(#[kani::unwind(13)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_doma_port, bytes = 7, bound = "every ASCII name of up to 4 bytes and every port", |s| {
    domain::<DomA, 4>(s, true, true, DomA::of);
    cover!(true, "done");
});
harness!(#[kani::unwind(13)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_domm_port, bytes = 7, bound = "every ASCII name of up to 4 bytes and every port", |s| {
    domain::<DomM, 4>(s, true, true, DomM::of);
    cover!(true, "done");
});
harness!(#[kani::unwind(13)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_domal, bytes = 7, bound = "every ASCII name of up to 4 bytes", |s| {
    domain::<DomAL, 4>(s, false, true, DomAL::of);
    cover!(true, "done");
});
harness!(#[kani::unwind(13)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_domal_port, bytes = 7, bound = "every ASCII name of up to 4 bytes and every port", |s| {
    domain::<DomAL, 4>(s, true, true, DomAL::of);
    cover!(true, "done");
});
harness!(#[kani::unwind(13)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_domml_port, bytes = 7, bound = "every ASCII name of up to 4 bytes and every port", |s| {
    domain::<DomML, 4>(s, true, true, DomML::of);
    cover!(true, "done");
});
harness!(#[kani::unwind(13)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_domaf, bytes = 7, bound = "every ASCII name of up to 4 bytes", |s| {
    domain::<DomAF, 4>(s, false, true, DomAF::of);
    cover!(true, "done");
});
harness!(#[kani::unwind(13)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_domaf_port, bytes = 7, bound = "every ASCII name of up to 4 bytes and every port", |s| {
    domain::<DomAF, 4>(s, true, true, DomAF::of);
    cover!(true, "done");
});
harness!(#[kani::unwind(13)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_dommf_port, bytes = 7, bound = "every ASCII name of up to 4 bytes and every port", |s| {
    domain::<DomMF, 4>(s, true, true, DomMF::of);
    cover!(true, "done");
});
harness!(#[kani::unwind(13)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_domd, bytes = 7, bound = "every ASCII name of up to 4 bytes", |s| {
    domain::<DomD, 4>(s, false, true, |d, _| DomD(d));
    cover!(true, "done");
});
harness!(#[kani::unwind(13)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_domdl, bytes = 7, bound = "every ASCII name of up to 4 bytes", |s| {
    domain::<DomDL, 4>(s, false, true, |domain, _| DomDL { domain, is_local: false });
    cover!(true, "done");
});
harness!(#[kani::unwind(13)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_hosta, bytes = 7, bound = "every ASCII name of up to 4 bytes", |s| {
    domain::<HostA, 4>(s, false, false, |d, p| HostA::of(Host::Domain(d), p));
    cover!(true, "done");
});
harness!(#[kani::unwind(13)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_hosta_port, bytes = 7, bound = "every ASCII name of up to 4 bytes and every port", |s| {
    domain::<HostA, 4>(s, true, false, |d, p| HostA::of(Host::Domain(d), p));
    cover!(true, "done");
});
harness!(#[kani::unwind(13)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_hostal, bytes = 7, bound = "every ASCII name of up to 4 bytes", |s| {
    domain::<HostAL, 4>(s, false, false, |d, p| HostAL::of(Host::Domain(d), p));
    cover!(true, "done");
});
harness!(#[kani::unwind(13)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_hostal_port, bytes = 7, bound = "every ASCII name of up to 4 bytes and every port", |s| {
    domain::<HostAL, 4>(s, true, false, |d, p| HostAL::of(Host::Domain(d), p));
    cover!(true, "done");
});
harness!(#[kani::unwind(13)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_hostm_port, bytes = 7, bound = "every ASCII name of up to 4 bytes and every port", |s| {
    domain::<HostM, 4>(s, true, false, |d, p| HostM::of(Host::Domain(d), p));
    cover!(true, "done");
});
harness!(#[kani::unwind(13)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_hostml_port, bytes = 7, bound = "every ASCII name of up to 4 bytes and every port", |s| {
    domain::<HostML, 4>(s, true, false, |d, p| HostML::of(Host::Domain(d), p));
    cover!(true, "done");
});
harness!(#[kani::unwind(13)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_hostd, bytes = 7, bound = "every ASCII name of up to 4 bytes", |s| {
    domain::<HostD, 4>(s, false, false, |d, p| HostD::of(Host::Domain(d), p));
    cover!(true, "done");
});
harness!(#[kani::unwind(13)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] q_name_hostdl, bytes = 7, bound = "every ASCII name of up to 4 bytes", |s| {
    domain::<HostDL, 4>(s, false, false, |d, p| HostDL::of(Host::Domain(d), p));
    cover!(true, "done");
});
