use crate::ipmodel::{local4, local6};
use crate::util::st;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use validators::functions::*;

harness!(#[kani::unwind(2)] q_ipv4, bytes = 4, bound = "every IPv4 address", |s| {
    let ip = s.u32();
    let r = is_local_ipv4(Ipv4Addr::from(ip));
    assert!(r == local4(ip), "local exactly in the reserved ranges");
    assert!(is_local_ip(IpAddr::V4(Ipv4Addr::from(ip))) == r, "the classification of either family agrees");
    cover!(r, "local");
    cover!(!r, "not local");
});

harness!(#[kani::unwind(2)] q_ipv6, bytes = 16, bound = "every IPv6 address", |s| {
    let ip = s.u128();
    let r = is_local_ipv6(Ipv6Addr::from(ip));
    assert!(r == local6(ip), "local exactly in the reserved ranges");
    assert!(is_local_ip(IpAddr::V6(Ipv6Addr::from(ip))) == r, "the classification of either family agrees");
    cover!(r, "local");
    cover!(!r, "not local");
});

fn local_name(b: &[u8]) -> bool {
    let n = b.len();
    if n != 9 && !(n == 10 && b[9] == b'.') {
        return false;
    }
    let w = b"localhost";
    let mut i = 0;
    while i < 9 {
        if b[i] | 0x20 != w[i] || b[i] & 0x40 == 0 {
            return false;
        }
        i += 1;
    }
    true
}

harness!(#[kani::unwind(14)] q_name, bytes = 13, bound = "every ASCII string of up to 12 bytes", |s| {
    let n = s.within(0, 12) as usize;
    let b = s.ascii::<12>();
    let r = is_local_domain(st(&b[..n]));
    assert!(r == local_name(&b[..n]), "only localhost is local");
    cover!(r, "local");
});

harness!(#[kani::unwind(14)] q_name_unicode, bytes = 24, bound = "every string of localhost's length or one more with one arbitrary character at any place", |s| {
    let mut buf = [0u8; 16];
    let at = s.within(0, 9) as usize;
    let c = s.char();
    let rest = s.ascii::<9>();
    let mut p = 0;
    let mut i = 0;
    while i < 10 {
        if i == at {
            p += c.encode_utf8(&mut buf[p..]).len();
        } else {
            buf[p] = rest[if i < at { i } else { i - 1 }];
            p += 1;
        }
        i += 1;
    }
    let r = is_local_domain(st(&buf[..p]));
    assert!(r == local_name(&buf[..p]), "only localhost is local");
    cover!(r, "local");
});

harness!(#[kani::unwind(10)] q_labels, bytes = 9, bound = "every ASCII string of up to 8 bytes", |s| {
    let n = s.within(0, 8) as usize;
    let b = s.ascii::<8>();
    let r = is_at_least_two_labels_domain(st(&b[..n]));
    let mut inner = false;
    let mut i = 0;
    while i + 1 < n {
        if b[i] == b'.' {
            inner = true;
        }
        i += 1;
    }
    assert!(r == inner, "two labels are separated by a dot which is not the root dot");
    cover!(r, "two labels");
});
