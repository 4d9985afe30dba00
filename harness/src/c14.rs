use crate::ipmodel;
#[cfg(kani)]
use crate::net::stub;
use crate::net::{ip_text, port, Ip, Tri};
use crate::util::{st, Src};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use validators::prelude::*;

pub trait V: Sized {
    /// 4, 6 or 0 for both
    const FAMILY: u8;
    const LOCAL: Tri;
    const PORT: Tri;
    fn str_(s: &str) -> Option<(Ip, Option<u16>)>;
    fn string_(s: &str) -> Option<(Ip, Option<u16>)>;
    fn validate_(s: &str) -> bool;
}

macro_rules! ip_type {
    ($name:ident, $kind:ident, $field:ident, $ty:ty, $family:literal, $local:ident, Allow) => {
        #[derive(Validator)]
        #[validator($kind(local($local), port(Allow)))]
        pub struct $name {
            pub $field: $ty,
            pub port: Option<u16>,
        }
        ip_impl!($name, $family, $local, Allow, |v| (Ip::of(IpAddr::from(v.$field)), v.port));
    };
    ($name:ident, $kind:ident, $field:ident, $ty:ty, $family:literal, $local:ident, Must) => {
        #[derive(Validator)]
        #[validator($kind(local($local), port(Must)))]
        pub struct $name {
            pub $field: $ty,
            pub port: u16,
        }
        ip_impl!($name, $family, $local, Must, |v| (Ip::of(IpAddr::from(v.$field)), Some(v.port)));
    };
    ($name:ident, $kind:ident, $field:ident, $ty:ty, $family:literal, $local:ident, Disallow) => {
        #[derive(Validator)]
        #[validator($kind(local($local), port(Disallow)))]
        pub struct $name(pub $ty);
        ip_impl!($name, $family, $local, Disallow, |v| (Ip::of(IpAddr::from(v.0)), None));
    };
}
macro_rules! ip_impl {
    ($name:ident, $family:literal, $local:ident, $port:ident, |$v:ident| $e:expr) => {
        impl V for $name {
            const FAMILY: u8 = $family;
            const LOCAL: Tri = Tri::$local;
            const PORT: Tri = Tri::$port;
            fn str_(s: &str) -> Option<(Ip, Option<u16>)> {
                $name::parse_str(s).ok().map(|$v| $e)
            }
            fn string_(s: &str) -> Option<(Ip, Option<u16>)> {
                $name::parse_string(s).ok().map(|$v| $e)
            }
            fn validate_(s: &str) -> bool {
                $name::validate_str(s).is_ok()
            }
        }
    };
}
macro_rules! ip_types {
    ($kind:ident, $field:ident, $ty:ty, $family:literal: $($name:ident $local:ident $port:ident,)*) => {
        $(ip_type!($name, $kind, $field, $ty, $family, $local, $port);)*
    };
}
ip_types! { ip, ip, IpAddr, 0:
    IpAA Allow Allow, IpAM Allow Must, IpAD Allow Disallow,
    IpMA Must Allow, IpMM Must Must, IpMD Must Disallow,
    IpDA Disallow Allow, IpDM Disallow Must, IpDD Disallow Disallow,
}
ip_types! { ipv4, ipv4, Ipv4Addr, 4:
    V4AA Allow Allow, V4AM Allow Must, V4AD Allow Disallow,
    V4MA Must Allow, V4MM Must Must, V4MD Must Disallow,
    V4DA Disallow Allow, V4DM Disallow Must, V4DD Disallow Disallow,
}
ip_types! { ipv6, ipv6, Ipv6Addr, 6:
    V6AA Allow Allow, V6AM Allow Must, V6AD Allow Disallow,
    V6MA Must Allow, V6MM Must Must, V6MD Must Disallow,
    V6DA Disallow Allow, V6DM Disallow Must, V6DD Disallow Disallow,
}

fn policies<T: V>(ip: Ip, port: Option<u16>) -> bool {
    (match T::LOCAL {
        Tri::Must => ip.local(),
        Tri::Disallow => !ip.local(),
        Tri::Allow => true,
    }) && (match T::PORT {
        Tri::Must => port.is_some(),
        Tri::Disallow => port.is_none(),
        Tri::Allow => true,
    })
}

/// The only way to read the text, by the grammar.
fn want<T: V>(b: &[u8]) -> Option<(Ip, Option<u16>)> {
    let n = b.len();
    let mut close = n; // the first closing bracket
    let mut colon = n; // the last colon
    let mut i = 0;
    while i < n {
        if b[i] == b']' && close == n {
            close = i;
        }
        if b[i] == b':' {
            colon = i;
        }
        i += 1;
    }
    let r = if n > 0 && b[0] == b'[' {
        if T::FAMILY == 4 || close == n {
            None
        } else {
            match ipmodel::v6(&b[1..close]) {
                Some(ip) => {
                    if close == n - 1 {
                        Some((Ip::V6(ip), None))
                    } else if b[close + 1] == b':' {
                        port(&b[close + 2..]).map(|p| (Ip::V6(ip), Some(p)))
                    } else {
                        None
                    }
                }
                None => None,
            }
        }
    } else {
        let six = if T::FAMILY == 4 { None } else { ipmodel::v6(b) };
        match six {
            Some(ip) => Some((Ip::V6(ip), None)),
            None if T::FAMILY == 6 => None,
            None if colon == n => ipmodel::v4(b).map(|ip| (Ip::V4(ip), None)),
            None => match (ipmodel::v4(&b[..colon]), port(&b[colon + 1..])) {
                (Some(ip), Some(p)) => Some((Ip::V4(ip), Some(p))),
                _ => None,
            },
        }
    };
    r.filter(|r| policies::<T>(r.0, r.1))
}

fn agree<T: V>(b: &[u8], w: Option<(Ip, Option<u16>)>) -> bool {
    match T::str_(st(b)) {
        Some(r) => assert!(w.is_some() && w.unwrap() == r, "only what the policies admit is accepted, with the address and the port written"),
        None => assert!(w.is_none(), "what the policies admit is accepted"),
    }
    w.is_some()
}

/// every ASCII string of up to N bytes
fn any<T: V, const N: usize>(s: &mut Src) -> bool {
    let n = s.within(0, N as u8) as usize;
    let b = s.ascii::<N>();
    agree::<T>(&b[..n], want::<T>(&b[..n]))
}

/// HEAD with an arbitrary byte instead of each '?', then every ASCII string of up to N bytes
fn tail<T: V, const H: usize, const N: usize, const M: usize>(s: &mut Src, head: &[u8; H]) -> bool {
    let n = s.within(0, N as u8) as usize;
    let mut b = s.ascii::<M>();
    let mut i = 0;
    while i < H {
        if head[i] != b'?' {
            b[i] = head[i];
        }
        i += 1;
    }
    agree::<T>(&b[..H + n], want::<T>(&b[..H + n]))
}

/// an arbitrary address (a version 6 address in brackets), then nothing or ':' and a port
fn address<T: V>(ip: Ip, tail: Option<&[u8]>, owned: bool) -> bool {
    let text = ip_text(ip);
    let text = text.as_bytes();
    let mut b = [0u8; 64];
    let mut n = 0;
    let six = matches!(ip, Ip::V6(_));
    if six {
        b[n] = b'[';
        n += 1;
    }
    let mut i = 0;
    while i < text.len() {
        b[n] = text[i];
        n += 1;
        i += 1;
    }
    if six {
        b[n] = b']';
        n += 1;
    }
    let mut w = Some((ip, None));
    if let Some(t) = tail {
        b[n] = b':';
        n += 1;
        let mut i = 0;
        while i < t.len() {
            b[n] = t[i];
            n += 1;
            i += 1;
        }
        w = port(t).map(|p| (ip, Some(p)));
    }
    let text = st(&b[..n]);
    let w = w.filter(|r| policies::<T>(r.0, r.1));
    let r = if owned { T::string_(text) } else { T::str_(text) };
    match r {
        Some(r) => assert!(w.is_some() && w.unwrap() == r, "only what the policies admit is accepted, with the address and the port written"),
        None => assert!(w.is_none(), "what the policies admit is accepted"),
    }
    if owned {
        assert!(T::validate_(text) == w.is_some(), "validating accepts what the policies admit");
    }
    w.is_some()
}

fn addresses<A: V, M: V, D: V>(s: &mut Src, six: bool) -> (bool, bool) {
    let ip = s.u128();
    let ip = if six { Ip::V6(ip) } else { Ip::V4(ip as u32) };
    let t = s.ascii::<2>();
    let a = address::<A>(ip, Some(&t), false);
    let m = address::<M>(ip, Some(&t), false);
    let d = address::<D>(ip, Some(&t), false);
    assert!(a == m && !d, "a port is required, allowed or refused");
    let with_port = a;
    let a = address::<A>(ip, None, true);
    let m = address::<M>(ip, None, false);
    let d = address::<D>(ip, None, false);
    assert!(a == d && !m, "a port is required, allowed or refused");
    (with_port, a)
}

/// an address with every port text of P bytes
fn ports<T: V, const P: usize>(s: &mut Src, six: bool) -> bool {
    let ip = s.u128();
    let ip = if six { Ip::V6(ip) } else { Ip::V4(ip as u32) };
    let t = s.ascii::<P>();
    address::<T>(ip, Some(&t), false)
}

harness!(#[kani::unwind(10)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_policies_ip_4_local_allow, bytes = 19, bound = "every IPv4 address, followed by nothing or by a colon and any two ASCII bytes; three port policies", |s| {
    let (m, d) = addresses::<IpAA, IpAM, IpAD>(s, false);
    cover!(m, "accepts with a port");
    cover!(d, "accepts without a port");
    cover!(!m, "refuses a port");
});
harness!(#[kani::unwind(10)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_policies_ip_6_local_allow, bytes = 19, bound = "every IPv6 address in brackets, followed by nothing or by a colon and any two ASCII bytes; three port policies", |s| {
    let (m, d) = addresses::<IpAA, IpAM, IpAD>(s, true);
    cover!(m, "accepts with a port");
    cover!(d, "accepts without a port");
    cover!(!m, "refuses a port");
});
harness!(#[kani::unwind(10)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_policies_ip_4_local_must, bytes = 19, bound = "every IPv4 address, followed by nothing or by a colon and any two ASCII bytes; three port policies", |s| {
    let (m, d) = addresses::<IpMA, IpMM, IpMD>(s, false);
    cover!(m, "accepts with a port");
    cover!(d, "accepts without a port");
    cover!(!m, "refuses a port");
});
harness!(#[kani::unwind(10)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_policies_ip_6_local_must, bytes = 19, bound = "every IPv6 address in brackets, followed by nothing or by a colon and any two ASCII bytes; three port policies", |s| {
    let (m, d) = addresses::<IpMA, IpMM, IpMD>(s, true);
    cover!(m, "accepts with a port");
    cover!(d, "accepts without a port");
    cover!(!m, "refuses a port");
});
harness!(#[kani::unwind(10)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_policies_ip_4_local_disallow, bytes = 19, bound = "every IPv4 address, followed by nothing or by a colon and any two ASCII bytes; three port policies", |s| {
    let (m, d) = addresses::<IpDA, IpDM, IpDD>(s, false);
    cover!(m, "accepts with a port");
    cover!(d, "accepts without a port");
    cover!(!m, "refuses a port");
});
harness!(#[kani::unwind(10)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_policies_ip_6_local_disallow, bytes = 19, bound = "every IPv6 address in brackets, followed by nothing or by a colon and any two ASCII bytes; three port policies", |s| {
    let (m, d) = addresses::<IpDA, IpDM, IpDD>(s, true);
    cover!(m, "accepts with a port");
    cover!(d, "accepts without a port");
    cover!(!m, "refuses a port");
});
harness!(#[kani::unwind(10)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_policies_ipv4_local_allow, bytes = 19, bound = "every IPv4 address, followed by nothing or by a colon and any two ASCII bytes; three port policies", |s| {
    let (m, d) = addresses::<V4AA, V4AM, V4AD>(s, false);
    cover!(m, "accepts with a port");
    cover!(d, "accepts without a port");
    cover!(!m, "refuses a port");
});
harness!(#[kani::unwind(10)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_policies_ipv4_local_must, bytes = 19, bound = "every IPv4 address, followed by nothing or by a colon and any two ASCII bytes; three port policies", |s| {
    let (m, d) = addresses::<V4MA, V4MM, V4MD>(s, false);
    cover!(m, "accepts with a port");
    cover!(d, "accepts without a port");
    cover!(!m, "refuses a port");
});
harness!(#[kani::unwind(10)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_policies_ipv4_local_disallow, bytes = 19, bound = "every IPv4 address, followed by nothing or by a colon and any two ASCII bytes; three port policies", |s| {
    let (m, d) = addresses::<V4DA, V4DM, V4DD>(s, false);
    cover!(m, "accepts with a port");
    cover!(d, "accepts without a port");
    cover!(!m, "refuses a port");
});
harness!(#[kani::unwind(10)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_policies_ipv6_local_allow, bytes = 19, bound = "every IPv6 address in brackets, followed by nothing or by a colon and any two ASCII bytes; three port policies", |s| {
    let (m, d) = addresses::<V6AA, V6AM, V6AD>(s, true);
    cover!(m, "accepts with a port");
    cover!(d, "accepts without a port");
    cover!(!m, "refuses a port");
});
harness!(#[kani::unwind(10)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_policies_ipv6_local_must, bytes = 19, bound = "every IPv6 address in brackets, followed by nothing or by a colon and any two ASCII bytes; three port policies", |s| {
    let (m, d) = addresses::<V6MA, V6MM, V6MD>(s, true);
    cover!(m, "accepts with a port");
    cover!(d, "accepts without a port");
    cover!(!m, "refuses a port");
});
harness!(#[kani::unwind(10)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_policies_ipv6_local_disallow, bytes = 19, bound = "every IPv6 address in brackets, followed by nothing or by a colon and any two ASCII bytes; three port policies", |s| {
    let (m, d) = addresses::<V6DA, V6DM, V6DD>(s, true);
    cover!(m, "accepts with a port");
    cover!(d, "accepts without a port");
    cover!(!m, "refuses a port");
});
harness!(#[kani::unwind(8)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] q_any_ip_6, bytes = 7, bound = "every ASCII string of up to 6 bytes", |s| {
    let w = any::<IpAA, 6>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(11)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] q_any_ipv4_9, bytes = 10, bound = "every ASCII string of up to 9 bytes", |s| {
    let w = any::<V4AA, 9>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(10)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] q_any_ipv6_8, bytes = 9, bound = "every ASCII string of up to 8 bytes", |s| {
    let w = any::<V6AA, 8>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(12)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] t_any_ip_10, bytes = 11, bound = "every ASCII string of up to 10 bytes", |s| {
    let w = any::<IpAA, 10>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] t_any_ipv4_12, bytes = 13, bound = "every ASCII string of up to 12 bytes", |s| {
    let w = any::<V4AA, 12>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(13)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] t_any_ipv6_11, bytes = 12, bound = "every ASCII string of up to 11 bytes", |s| {
    let w = any::<V6AA, 11>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] q_four_ip_4, bytes = 13, bound = "?.1.1.2? with an arbitrary ASCII byte for each question mark, then every ASCII string of up to 4 bytes", |s| {
    let w = tail::<IpAA, 8, 4, 12>(s, b"?.1.1.2?");
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(17)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] q_four_ipv4_7, bytes = 16, bound = "?.1.1.2? with an arbitrary ASCII byte for each question mark, then every ASCII string of up to 7 bytes", |s| {
    let w = tail::<V4AA, 8, 7, 15>(s, b"?.1.1.2?");
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(13)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] q_brackets_ipv6_7, bytes = 12, bound = "[::? with an arbitrary ASCII byte for each question mark, then every ASCII string of up to 7 bytes", |s| {
    let w = tail::<V6AA, 4, 7, 11>(s, b"[::?");
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(19)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] t_four_ip_9, bytes = 18, bound = "?.1.1.2? with an arbitrary ASCII byte for each question mark, then every ASCII string of up to 9 bytes", |s| {
    let w = tail::<IpAA, 8, 9, 17>(s, b"?.1.1.2?");
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(19)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] t_four_ipv4_9, bytes = 18, bound = "?.1.1.2? with an arbitrary ASCII byte for each question mark, then every ASCII string of up to 9 bytes", |s| {
    let w = tail::<V4AA, 8, 9, 17>(s, b"?.1.1.2?");
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(15)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] t_brackets_ip_9, bytes = 14, bound = "[::? with an arbitrary ASCII byte for each question mark, then every ASCII string of up to 9 bytes", |s| {
    let w = tail::<IpAA, 4, 9, 13>(s, b"[::?");
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(15)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] t_brackets_ipv6_9, bytes = 14, bound = "[::? with an arbitrary ASCII byte for each question mark, then every ASCII string of up to 9 bytes", |s| {
    let w = tail::<V6AA, 4, 9, 13>(s, b"[::?");
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(12)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] q_brackets_ip_6, bytes = 11, bound = "[::? with an arbitrary ASCII byte for each question mark, then every ASCII string of up to 6 bytes", |s| {
    let w = tail::<IpMM, 4, 6, 10>(s, b"[::?");
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(12)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_ip_4_5, bytes = 21, bound = "every IPv4 address with every port text of 5 ASCII bytes", |s| {
    let w = ports::<IpAA, 5>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(13)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_ip_4_6, bytes = 22, bound = "every IPv4 address with every port text of 6 ASCII bytes", |s| {
    let w = ports::<IpAA, 6>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(13)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_ip_6_5, bytes = 21, bound = "every IPv6 address with every port text of 5 ASCII bytes", |s| {
    let w = ports::<IpAM, 5>(s, true);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_ip_6_6, bytes = 22, bound = "every IPv6 address with every port text of 6 ASCII bytes", |s| {
    let w = ports::<IpAM, 6>(s, true);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(12)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_ipv4_5, bytes = 21, bound = "every IPv4 address with every port text of 5 ASCII bytes", |s| {
    let w = ports::<V4AM, 5>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(13)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_ipv4_6, bytes = 22, bound = "every IPv4 address with every port text of 6 ASCII bytes", |s| {
    let w = ports::<V4AM, 6>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(13)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_ipv6_5, bytes = 21, bound = "every IPv6 address with every port text of 5 ASCII bytes", |s| {
    let w = ports::<V6AA, 5>(s, true);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_ipv6_6, bytes = 22, bound = "every IPv6 address with every port text of 6 ASCII bytes", |s| {
    let w = ports::<V6AA, 6>(s, true);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
