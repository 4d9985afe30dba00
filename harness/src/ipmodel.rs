//! What IP addresses look like and which of them are local, written down independently of std and of the repository.
use crate::util::Src;

/// Four decimal numbers up to 255 without leading zeros.
pub fn v4(b: &[u8]) -> Option<u32> {
    let mut ip: u32 = 0;
    let mut dots = 0;
    let mut value: u32 = 0;
    let mut digits = 0;
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == b'.' {
            if digits == 0 || dots == 3 {
                return None;
            }
            ip = (ip << 8) | value;
            dots += 1;
            value = 0;
            digits = 0;
        } else if c >= b'0' && c <= b'9' {
            if digits == 3 || digits == 1 && value == 0 {
                return None;
            }
            value = value * 10 + (c - b'0') as u32;
            digits += 1;
            if value > 255 {
                return None;
            }
        } else {
            return None;
        }
        i += 1;
    }
    if dots == 3 && digits > 0 { Some((ip << 8) | value) } else { None }
}

/// Text form of RFC 4291 (the longest run or any other run of zeros may be abbreviated, an IPv4 address may stand at the end).
pub fn v6(b: &[u8]) -> Option<u128> {
    let mut head: u128 = 0;
    let mut tail: u128 = 0;
    let mut n = 0; // 16-bit groups so far
    let mut after = 0; // of which after the double colon
    let mut double = false;
    let mut hex: u32 = 0;
    let mut dec: u32 = 0;
    let mut digits = 0;
    let mut decimal = true; // the group may be a part of an IPv4 address
    let mut dots = 0;
    let mut v4: u32 = 0;
    let mut colons = 0; // directly before this place
    let mut ok = true;
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let d = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            b'A'..=b'F' => c - b'A' + 10,
            _ => 16,
        };
        if d < 16 {
            if i == 1 && colons == 1 {
                ok = false; // starts with one colon
            }
            if d > 9 || digits == 1 && dec == 0 || digits == 3 {
                decimal = false;
            }
            if digits == 4 {
                ok = false;
            }
            hex = ((hex << 4) | d as u32) & 0xFFFF;
            dec = (dec * 10 + d as u32) & 0xFFFF;
            digits += 1;
            colons = 0;
        } else if c == b':' {
            if dots > 0 {
                ok = false;
            }
            if digits > 0 {
                head = (head << 16) | hex as u128;
                tail = (tail << 16) | hex as u128;
                n += 1;
                after += 1;
            }
            colons += 1;
            if colons == 2 {
                if double {
                    ok = false;
                }
                double = true;
                after = 0;
                tail = 0;
            } else if colons > 2 {
                ok = false;
            }
            hex = 0;
            dec = 0;
            digits = 0;
            decimal = true;
        } else if c == b'.' {
            if digits == 0 || !decimal || dec > 255 || dots == 3 || i > 0 && n == 0 && !double {
                ok = false;
            }
            v4 = (v4 << 8) | (dec & 255);
            dots += 1;
            hex = 0;
            dec = 0;
            digits = 0;
            decimal = true;
            colons = 0;
        } else {
            ok = false;
        }
        i += 1;
    }
    if dots > 0 {
        if dots != 3 || digits == 0 || !decimal || dec > 255 {
            ok = false;
        }
        v4 = (v4 << 8) | (dec & 255);
        head = (head << 32) | v4 as u128;
        tail = (tail << 32) | v4 as u128;
        n += 2;
        after += 2;
    } else if digits > 0 {
        head = (head << 16) | hex as u128;
        tail = (tail << 16) | hex as u128;
        n += 1;
        after += 1;
    } else if colons != 2 {
        ok = false;
    }
    if double {
        if !ok || n > 7 || colons > 2 {
            return None;
        }
        // `head` also holds the groups after the double colon
        let before = n - after;
        let front = if before == 0 { 0 } else { (head >> (16 * after)) << (16 * (8 - before)) };
        Some(front | if after == 0 { 0 } else { tail })
    } else if ok && n == 8 {
        Some(head)
    } else {
        None
    }
}

pub const fn in4(ip: u32, net: u32, bits: u32) -> bool {
    ip >> (32 - bits) == net >> (32 - bits)
}

/// private, loopback, link-local, broadcast, documentation, unspecified
pub const fn local4(ip: u32) -> bool {
    in4(ip, 0x0A00_0000, 8)
        || in4(ip, 0xAC10_0000, 12)
        || in4(ip, 0xC0A8_0000, 16)
        || in4(ip, 0x7F00_0000, 8)
        || in4(ip, 0xA9FE_0000, 16)
        || ip == 0xFFFF_FFFF
        || in4(ip, 0xC000_0200, 24)
        || in4(ip, 0xC633_6400, 24)
        || in4(ip, 0xCB00_7100, 24)
        || ip == 0
}

pub const fn in6(ip: u128, net: u128, bits: u32) -> bool {
    ip >> (128 - bits) == net >> (128 - bits)
}

pub const fn local6(ip: u128) -> bool {
    if in6(ip, 0xFF << 120, 8) {
        return (ip >> 112) & 15 != 14;
    }
    ip < 2
        || in6(ip, 0xFE80 << 112, 10)
        || in6(ip, 0xFEC0 << 112, 10)
        || in6(ip, 0xFC00 << 112, 7)
        || in6(ip, 0x2001_0DB8 << 96, 32)
        || ip >> 32 == 0 && local4(ip as u32)
        || ip >> 32 == 0xFFFF && local4(ip as u32)
}

#[cfg(not(kani))]
#[test]
fn ip_model_agrees() {
    use std::net::{Ipv4Addr, Ipv6Addr};
    let mut x = 88172645463325252u64;
    let mut next = || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x
    };
    let pieces: [&[u8]; 18] = [b":", b"::", b"1", b"ab", b"0", b"00", b"12", b"256", b"255", b".", b"1.2.3.4", b"fFfF", b"12345", b":1", b":2:3", b"7:8", b":::", b"g"];
    let (mut good4, mut good6) = (0, 0);
    for k in 0..30_000_000u64 {
        let mut v = Vec::new();
        let n = next() % 11;
        for _ in 0..n {
            let m = if k % 4 == 0 { 18 } else if k % 4 == 1 { 6 } else if k % 4 == 2 { 15 } else { 3 };
            let p = pieces[(next() >> 11) as usize % m];
            v.extend_from_slice(p);
            if k % 8 == 7 {
                v.push(if next() % 3 == 0 { b':' } else { b'.' });
            }
        }
        let s = core::str::from_utf8(&v).unwrap();
        let a = s.parse::<Ipv4Addr>().ok().map(u32::from);
        assert_eq!(v4(&v), a, "{s}");
        let c = s.parse::<Ipv6Addr>().ok().map(u128::from);
        assert_eq!(v6(&v), c, "{s}");
        good4 += a.is_some() as u32;
        good6 += c.is_some() as u32;
    }
    println!("{good4} {good6}");
    assert!(good4 > 1000 && good6 > 100_000);
}
