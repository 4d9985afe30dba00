// Written by tools/gen_domain.py
use crate::idn;
use crate::ipmodel;
#[cfg(kani)]
use crate::net::stub;
use crate::net::{ip_text, port, port_text, Ip, Tri};
use crate::util::{st, Src};
use validators::prelude::*;

/// What a domain validator gives; None for a field which the type does not have.
pub struct R {
    name: String,
    port: Option<u16>,
    is_ipv4: Option<bool>,
    is_local: Option<bool>,
}

pub trait Dom: Sized {
    const IPV4: Tri;
    const LOCAL: Tri;
    const LABELS: Tri;
    const PORT: Tri;
    fn str_(s: &str) -> Option<R>;
    fn string_(s: &str) -> Option<R>;
    fn validate_(s: &str) -> bool;
}

struct Want {
    name: [u8; idn::CAP],
    len: usize,
    port: Option<u16>,
    is_ipv4: bool,
    is_local: bool,
}

fn localhost(b: &[u8]) -> bool {
    let l = b"localhost";
    let n = if b.len() == 10 && b[9] == b'.' { 9 } else { b.len() };
    if n != 9 {
        return false;
    }
    let mut i = 0;
    while i < 9 {
        if b[i] | 32 != l[i] {
            return false;
        }
        i += 1;
    }
    true
}

/// `ip`: the IPv4 address which the name stands for. -> accepted. Lengths stay concrete when those of the input are.
fn judge<T: Dom>(name: &[u8], port_text: Option<&[u8]>, ip: Option<u32>, w: &mut Want) -> bool {
    let mut ok = true;
    w.port = None;
    match port_text {
        Some(t) => {
            w.port = port(t);
            ok &= T::PORT != Tri::Disallow && w.port.is_some();
        }
        None => ok &= T::PORT != Tri::Must,
    }
    w.len = name.len();
    w.is_ipv4 = ip.is_some();
    ok &= idn::ascii(idn::STRICT, name, &mut w.name);
    match ip {
        Some(ip) => {
            w.is_local = ipmodel::local4(ip);
            ok &= T::IPV4 != Tri::Disallow && T::LABELS != Tri::Disallow;
        }
        None => {
            ok &= T::IPV4 != Tri::Must;
            w.is_local = localhost(&w.name[..w.len]);
            let mut dots = 0;
            let mut i = 0;
            while i + 1 < w.len {
                dots += (w.name[i] == b'.') as usize;
                i += 1;
            }
            ok &= w.is_local || T::LABELS == Tri::Allow || (T::LABELS == Tri::Must) == (dots > 0);
        }
    }
    ok && (T::LOCAL == Tri::Allow || (T::LOCAL == Tri::Must) == w.is_local)
}

fn equal(r: &R, w: &Want) -> bool {
    let n = r.name.as_bytes();
    if n.len() != w.len {
        return false;
    }
    let mut i = 0;
    while i < n.len() {
        if n[i] != w.name[i] {
            return false;
        }
        i += 1;
    }
    r.port == w.port
        && match r.is_ipv4 {
            Some(x) => x == w.is_ipv4,
            None => true,
        }
        && match r.is_local {
            Some(x) => x == w.is_local,
            None => true,
        }
}

fn compare(r: Option<R>, ok: bool, w: &Want) -> bool {
    match &r {
        Some(r) => {
            assert!(ok, "only what the grammar and the policies admit is accepted");
            assert!(equal(r, w), "the name in lower case, the port and the classification are those of the text");
        }
        None => assert!(!ok, "what the grammar and the policies admit is accepted"),
    }
    r.is_some()
}

/// a text made of concrete pieces: an address or a name, a root dot, a port
fn one<T: Dom>(name: &str, dot: bool, with_port: Option<u16>, ip: Option<u32>) -> bool {
    let mut b = [0u8; 64];
    let mut n = 0;
    let name = name.as_bytes();
    while n < name.len() {
        b[n] = name[n];
        n += 1;
    }
    if dot {
        b[n] = b'.';
        n += 1;
    }
    let len = n;
    let mut w = Want { name: [0; idn::CAP], len: 0, port: None, is_ipv4: false, is_local: false };
    let mut ok = judge::<T>(&b[..len], None, ip, &mut w);
    if let Some(p) = with_port {
        b[n] = b':';
        n += 1;
        let t = port_text(p);
        let t = t.as_bytes();
        let mut i = 0;
        while i < t.len() {
            b[n] = t[i];
            n += 1;
            i += 1;
        }
        ok = judge::<T>(&b[..len], Some(b"0"), ip, &mut w);
        w.port = Some(p);
    }
    compare(T::str_(st(&b[..n])), ok, &w)
}

fn policies<T: Dom>(s: &mut Src, every: bool) {
    let ip = s.u32();
    let p = s.u16();
    let text = ip_text(Ip::V4(ip));
    let mut i = 0;
    while i < 8 {
        let (name, dot) = match i {
            0 => (text.as_str(), false),
            1 => (text.as_str(), true),
            2 => ("LocalHost", true),
            3 => ("localhost", false),
            4 => ("X", false),
            5 => ("x", true),
            6 => ("x.y", true),
            _ => ("x.Y", false),
        };
        if !every && (i == 3 || i == 4 || i == 6) {
            i += 1;
            continue;
        }
        let port = match T::PORT {
            Tri::Allow => i % 2 == 0,
            Tri::Must => i != 7,
            Tri::Disallow => i == 7,
        };
        let ip = if i < 2 { Some(ip) } else { None };
        one::<T>(name, dot, if port { Some(p) } else { None }, ip);
        if every {
            one::<T>(name, dot, if port { None } else { Some(p) }, ip);
        }
        i += 1;
    }
}

/// arbitrary ASCII text of N bytes, which cannot be an IPv4 address; the last byte is LAST unless that is 0
fn name<T: Dom, const N: usize, const LAST: u8>(s: &mut Src) {
    let mut b = s.ascii::<N>();
    if LAST != 0 {
        b[N - 1] = LAST;
    }
    let mut w = Want { name: [0; idn::CAP], len: 0, port: None, is_ipv4: false, is_local: false };
    if T::PORT != Tri::Disallow {
        let mut i = 0;
        while i < N {
            must(b[i] != b':');
            i += 1;
        }
    }
    let ok = judge::<T>(&b, None, None, &mut w);
    compare(T::str_(st(&b)), ok, &w);
}

/// a name of N bytes, a colon and a text of M bytes
fn with_port<T: Dom, const N: usize, const M: usize, const L: usize>(s: &mut Src) {
    let b = s.ascii::<L>();
    must(b[N] == b':');
    let mut i = N + 1;
    while i < L {
        must(b[i] != b':');
        i += 1;
    }
    let mut w = Want { name: [0; idn::CAP], len: 0, port: None, is_ipv4: false, is_local: false };
    let ok = judge::<T>(&b[..N], Some(&b[N + 1..]), None, &mut w);
    compare(T::str_(st(&b)), ok, &w);
}

/// parse_string and validate_str do as parse_str
fn ways<T: Dom, const N: usize>(s: &mut Src) {
    let b = s.ascii::<N>();
    let t = st(&b);
    let r = T::str_(t);
    assert!(T::validate_(t) == r.is_some(), "validate_str does as parse_str");
    match (&r, T::string_(t)) {
        (Some(a), Some(b)) => {
            let (x, y) = (a.name.as_bytes(), b.name.as_bytes());
            let mut same = x.len() == y.len();
            let mut i = 0;
            while i < x.len() && i < y.len() {
                same &= x[i] == y[i];
                i += 1;
            }
            assert!(same && a.port == b.port && a.is_ipv4 == b.is_ipv4 && a.is_local == b.is_local, "parse_string does as parse_str");
        }
        (None, None) => (),
        _ => assert!(false, "parse_string does as parse_str"),
    }
}

/// the first character is any fullwidth one, which the mapping of names may turn into a digit of an IPv4 address
fn wide<T: Dom, const L: usize>(s: &mut Src, prefix: &[u8], rest: &[u8]) {
    let x = s.within(0x81, 0xBF);
    let mut b = [0u8; L];
    let n = prefix.len();
    let mut i = 0;
    while i < L {
        b[i] = if i < n { prefix[i] } else if i == n { 0xEF } else if i == n + 1 { 0xBC } else if i == n + 2 { x } else { rest[i - n - 3] };
        i += 1;
    }
    let mut m = [0u8; idn::CAP];
    let mut i = 0;
    while i < L - 2 {
        m[i] = if i < n { prefix[i] } else if i == n { x - 0x81 + 0x21 } else { rest[i - n - 1] };
        i += 1;
    }
    let mut w = Want { name: [0; idn::CAP], len: 0, port: None, is_ipv4: false, is_local: false };
    // the colon of a port is an ASCII one
    let mut ok = judge::<T>(&m[..L - 2], None, None, &mut w);
    let all = T::IPV4 == Tri::Allow && T::LOCAL == Tri::Allow && T::LABELS == Tri::Allow;
    ok &= all || ipmodel::v4(if m[L - 3] == b'.' { &m[..L - 3] } else { &m[..L - 2] }).is_none();
    compare(T::str_(st(&b)), ok, &w);
}

pub fn must(c: bool) {
    #[cfg(not(kani))]
    use crate::kani;
    kani::assume(c);
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Allow), at_least_two_labels(Allow), port(Allow)))]
pub struct DomAAAA { pub domain: String, pub port: Option<u16> }
impl Dom for DomAAAA {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomAAAA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomAAAA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomAAAA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Allow), at_least_two_labels(Allow), port(Must)))]
pub struct DomAAAM { pub domain: String, pub port: u16 }
impl Dom for DomAAAM {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomAAAM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomAAAM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomAAAM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Allow), at_least_two_labels(Allow), port(Disallow)))]
pub struct DomAAAD(pub String);
impl Dom for DomAAAD {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomAAAD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomAAAD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomAAAD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Allow), at_least_two_labels(Must), port(Allow)))]
pub struct DomAAMA { pub domain: String, pub is_ipv4: bool, pub is_local: bool, pub port: Option<u16> }
impl Dom for DomAAMA {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomAAMA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: Some(v.is_ipv4), is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { DomAAMA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: Some(v.is_ipv4), is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { DomAAMA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Allow), at_least_two_labels(Must), port(Must)))]
pub struct DomAAMM { pub domain: String, pub is_ipv4: bool, pub is_local: bool, pub port: u16 }
impl Dom for DomAAMM {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomAAMM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: Some(v.is_ipv4), is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { DomAAMM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: Some(v.is_ipv4), is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { DomAAMM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Allow), at_least_two_labels(Must), port(Disallow)))]
pub struct DomAAMD { pub domain: String, pub is_ipv4: bool, pub is_local: bool }
impl Dom for DomAAMD {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomAAMD::parse_str(s).ok().map(|v| R { name: v.domain, port: None, is_ipv4: Some(v.is_ipv4), is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { DomAAMD::parse_string(s).ok().map(|v| R { name: v.domain, port: None, is_ipv4: Some(v.is_ipv4), is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { DomAAMD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Allow), at_least_two_labels(Disallow), port(Allow)))]
pub struct DomAADA { pub domain: String, pub is_ipv4: bool, pub is_local: bool, pub port: Option<u16> }
impl Dom for DomAADA {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomAADA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: Some(v.is_ipv4), is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { DomAADA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: Some(v.is_ipv4), is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { DomAADA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Allow), at_least_two_labels(Disallow), port(Must)))]
pub struct DomAADM { pub domain: String, pub is_ipv4: bool, pub is_local: bool, pub port: u16 }
impl Dom for DomAADM {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomAADM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: Some(v.is_ipv4), is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { DomAADM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: Some(v.is_ipv4), is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { DomAADM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Allow), at_least_two_labels(Disallow), port(Disallow)))]
pub struct DomAADD { pub domain: String, pub is_ipv4: bool, pub is_local: bool }
impl Dom for DomAADD {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomAADD::parse_str(s).ok().map(|v| R { name: v.domain, port: None, is_ipv4: Some(v.is_ipv4), is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { DomAADD::parse_string(s).ok().map(|v| R { name: v.domain, port: None, is_ipv4: Some(v.is_ipv4), is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { DomAADD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Must), at_least_two_labels(Allow), port(Allow)))]
pub struct DomAMAA { pub domain: String, pub port: Option<u16> }
impl Dom for DomAMAA {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomAMAA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomAMAA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomAMAA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Must), at_least_two_labels(Allow), port(Must)))]
pub struct DomAMAM { pub domain: String, pub port: u16 }
impl Dom for DomAMAM {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomAMAM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomAMAM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomAMAM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Must), at_least_two_labels(Allow), port(Disallow)))]
pub struct DomAMAD(pub String);
impl Dom for DomAMAD {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomAMAD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomAMAD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomAMAD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Must), at_least_two_labels(Must), port(Allow)))]
pub struct DomAMMA { pub domain: String, pub port: Option<u16> }
impl Dom for DomAMMA {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomAMMA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomAMMA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomAMMA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Must), at_least_two_labels(Must), port(Must)))]
pub struct DomAMMM { pub domain: String, pub port: u16 }
impl Dom for DomAMMM {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomAMMM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomAMMM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomAMMM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Must), at_least_two_labels(Must), port(Disallow)))]
pub struct DomAMMD(pub String);
impl Dom for DomAMMD {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomAMMD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomAMMD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomAMMD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Must), at_least_two_labels(Disallow), port(Allow)))]
pub struct DomAMDA { pub domain: String, pub port: Option<u16> }
impl Dom for DomAMDA {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomAMDA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomAMDA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomAMDA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Must), at_least_two_labels(Disallow), port(Must)))]
pub struct DomAMDM { pub domain: String, pub port: u16 }
impl Dom for DomAMDM {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomAMDM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomAMDM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomAMDM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Must), at_least_two_labels(Disallow), port(Disallow)))]
pub struct DomAMDD(pub String);
impl Dom for DomAMDD {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomAMDD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomAMDD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomAMDD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), at_least_two_labels(Allow), port(Allow)))]
pub struct DomADAA { pub domain: String, pub port: Option<u16> }
impl Dom for DomADAA {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomADAA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomADAA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomADAA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), at_least_two_labels(Allow), port(Must)))]
pub struct DomADAM { pub domain: String, pub port: u16 }
impl Dom for DomADAM {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomADAM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomADAM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomADAM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), at_least_two_labels(Allow), port(Disallow)))]
pub struct DomADAD(pub String);
impl Dom for DomADAD {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomADAD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomADAD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomADAD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), at_least_two_labels(Must), port(Allow)))]
pub struct DomADMA { pub domain: String, pub port: Option<u16> }
impl Dom for DomADMA {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomADMA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomADMA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomADMA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), at_least_two_labels(Must), port(Must)))]
pub struct DomADMM { pub domain: String, pub port: u16 }
impl Dom for DomADMM {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomADMM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomADMM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomADMM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), at_least_two_labels(Must), port(Disallow)))]
pub struct DomADMD(pub String);
impl Dom for DomADMD {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomADMD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomADMD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomADMD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), at_least_two_labels(Disallow), port(Allow)))]
pub struct DomADDA { pub domain: String, pub port: Option<u16> }
impl Dom for DomADDA {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomADDA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomADDA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomADDA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), at_least_two_labels(Disallow), port(Must)))]
pub struct DomADDM { pub domain: String, pub port: u16 }
impl Dom for DomADDM {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomADDM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomADDM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomADDM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), at_least_two_labels(Disallow), port(Disallow)))]
pub struct DomADDD(pub String);
impl Dom for DomADDD {
    const IPV4: Tri = Tri::Allow;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomADDD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomADDD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomADDD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Allow), at_least_two_labels(Allow), port(Allow)))]
pub struct DomMAAA { pub domain: String, pub port: Option<u16> }
impl Dom for DomMAAA {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomMAAA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMAAA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMAAA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Allow), at_least_two_labels(Allow), port(Must)))]
pub struct DomMAAM { pub domain: String, pub port: u16 }
impl Dom for DomMAAM {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomMAAM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMAAM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMAAM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Allow), at_least_two_labels(Allow), port(Disallow)))]
pub struct DomMAAD(pub String);
impl Dom for DomMAAD {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomMAAD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMAAD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMAAD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Allow), at_least_two_labels(Must), port(Allow)))]
pub struct DomMAMA { pub domain: String, pub is_local: bool, pub port: Option<u16> }
impl Dom for DomMAMA {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomMAMA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { DomMAMA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { DomMAMA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Allow), at_least_two_labels(Must), port(Must)))]
pub struct DomMAMM { pub domain: String, pub is_local: bool, pub port: u16 }
impl Dom for DomMAMM {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomMAMM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { DomMAMM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { DomMAMM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Allow), at_least_two_labels(Must), port(Disallow)))]
pub struct DomMAMD { pub domain: String, pub is_local: bool }
impl Dom for DomMAMD {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomMAMD::parse_str(s).ok().map(|v| R { name: v.domain, port: None, is_ipv4: None, is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { DomMAMD::parse_string(s).ok().map(|v| R { name: v.domain, port: None, is_ipv4: None, is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { DomMAMD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Allow), at_least_two_labels(Disallow), port(Allow), conflict(Allow)))]
pub struct DomMADA { pub domain: String, pub is_local: bool, pub port: Option<u16> }
impl Dom for DomMADA {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomMADA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { DomMADA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { DomMADA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Allow), at_least_two_labels(Disallow), port(Must), conflict(Allow)))]
pub struct DomMADM { pub domain: String, pub is_local: bool, pub port: u16 }
impl Dom for DomMADM {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomMADM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { DomMADM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { DomMADM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Allow), at_least_two_labels(Disallow), port(Disallow), conflict(Allow)))]
pub struct DomMADD { pub domain: String, pub is_local: bool }
impl Dom for DomMADD {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomMADD::parse_str(s).ok().map(|v| R { name: v.domain, port: None, is_ipv4: None, is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { DomMADD::parse_string(s).ok().map(|v| R { name: v.domain, port: None, is_ipv4: None, is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { DomMADD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Must), at_least_two_labels(Allow), port(Allow)))]
pub struct DomMMAA { pub domain: String, pub port: Option<u16> }
impl Dom for DomMMAA {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomMMAA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMMAA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMMAA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Must), at_least_two_labels(Allow), port(Must)))]
pub struct DomMMAM { pub domain: String, pub port: u16 }
impl Dom for DomMMAM {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomMMAM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMMAM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMMAM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Must), at_least_two_labels(Allow), port(Disallow)))]
pub struct DomMMAD(pub String);
impl Dom for DomMMAD {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomMMAD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMMAD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMMAD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Must), at_least_two_labels(Must), port(Allow)))]
pub struct DomMMMA { pub domain: String, pub port: Option<u16> }
impl Dom for DomMMMA {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomMMMA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMMMA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMMMA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Must), at_least_two_labels(Must), port(Must)))]
pub struct DomMMMM { pub domain: String, pub port: u16 }
impl Dom for DomMMMM {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomMMMM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMMMM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMMMM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Must), at_least_two_labels(Must), port(Disallow)))]
pub struct DomMMMD(pub String);
impl Dom for DomMMMD {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomMMMD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMMMD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMMMD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Must), at_least_two_labels(Disallow), port(Allow), conflict(Allow)))]
pub struct DomMMDA { pub domain: String, pub port: Option<u16> }
impl Dom for DomMMDA {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomMMDA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMMDA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMMDA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Must), at_least_two_labels(Disallow), port(Must), conflict(Allow)))]
pub struct DomMMDM { pub domain: String, pub port: u16 }
impl Dom for DomMMDM {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomMMDM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMMDM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMMDM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Must), at_least_two_labels(Disallow), port(Disallow), conflict(Allow)))]
pub struct DomMMDD(pub String);
impl Dom for DomMMDD {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomMMDD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMMDD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMMDD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Disallow), at_least_two_labels(Allow), port(Allow)))]
pub struct DomMDAA { pub domain: String, pub port: Option<u16> }
impl Dom for DomMDAA {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomMDAA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMDAA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMDAA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Disallow), at_least_two_labels(Allow), port(Must)))]
pub struct DomMDAM { pub domain: String, pub port: u16 }
impl Dom for DomMDAM {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomMDAM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMDAM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMDAM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Disallow), at_least_two_labels(Allow), port(Disallow)))]
pub struct DomMDAD(pub String);
impl Dom for DomMDAD {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomMDAD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMDAD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMDAD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Disallow), at_least_two_labels(Must), port(Allow)))]
pub struct DomMDMA { pub domain: String, pub port: Option<u16> }
impl Dom for DomMDMA {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomMDMA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMDMA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMDMA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Disallow), at_least_two_labels(Must), port(Must)))]
pub struct DomMDMM { pub domain: String, pub port: u16 }
impl Dom for DomMDMM {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomMDMM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMDMM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMDMM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Disallow), at_least_two_labels(Must), port(Disallow)))]
pub struct DomMDMD(pub String);
impl Dom for DomMDMD {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomMDMD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMDMD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMDMD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Disallow), at_least_two_labels(Disallow), port(Allow), conflict(Allow)))]
pub struct DomMDDA { pub domain: String, pub port: Option<u16> }
impl Dom for DomMDDA {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomMDDA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMDDA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMDDA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Disallow), at_least_two_labels(Disallow), port(Must), conflict(Allow)))]
pub struct DomMDDM { pub domain: String, pub port: u16 }
impl Dom for DomMDDM {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomMDDM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMDDM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMDDM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Must), local(Disallow), at_least_two_labels(Disallow), port(Disallow), conflict(Allow)))]
pub struct DomMDDD(pub String);
impl Dom for DomMDDD {
    const IPV4: Tri = Tri::Must;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomMDDD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomMDDD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomMDDD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), at_least_two_labels(Allow), port(Allow)))]
pub struct DomDAAA { pub domain: String, pub port: Option<u16> }
impl Dom for DomDAAA {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomDAAA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDAAA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDAAA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), at_least_two_labels(Allow), port(Must)))]
pub struct DomDAAM { pub domain: String, pub port: u16 }
impl Dom for DomDAAM {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomDAAM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDAAM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDAAM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), at_least_two_labels(Allow), port(Disallow)))]
pub struct DomDAAD(pub String);
impl Dom for DomDAAD {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomDAAD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDAAD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDAAD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), at_least_two_labels(Must), port(Allow)))]
pub struct DomDAMA { pub domain: String, pub is_local: bool, pub port: Option<u16> }
impl Dom for DomDAMA {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomDAMA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { DomDAMA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { DomDAMA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), at_least_two_labels(Must), port(Must)))]
pub struct DomDAMM { pub domain: String, pub is_local: bool, pub port: u16 }
impl Dom for DomDAMM {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomDAMM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { DomDAMM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { DomDAMM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), at_least_two_labels(Must), port(Disallow)))]
pub struct DomDAMD { pub domain: String, pub is_local: bool }
impl Dom for DomDAMD {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomDAMD::parse_str(s).ok().map(|v| R { name: v.domain, port: None, is_ipv4: None, is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { DomDAMD::parse_string(s).ok().map(|v| R { name: v.domain, port: None, is_ipv4: None, is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { DomDAMD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), at_least_two_labels(Disallow), port(Allow)))]
pub struct DomDADA { pub domain: String, pub is_local: bool, pub port: Option<u16> }
impl Dom for DomDADA {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomDADA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { DomDADA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { DomDADA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), at_least_two_labels(Disallow), port(Must)))]
pub struct DomDADM { pub domain: String, pub is_local: bool, pub port: u16 }
impl Dom for DomDADM {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomDADM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { DomDADM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { DomDADM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), at_least_two_labels(Disallow), port(Disallow)))]
pub struct DomDADD { pub domain: String, pub is_local: bool }
impl Dom for DomDADD {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomDADD::parse_str(s).ok().map(|v| R { name: v.domain, port: None, is_ipv4: None, is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { DomDADD::parse_string(s).ok().map(|v| R { name: v.domain, port: None, is_ipv4: None, is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { DomDADD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Must), at_least_two_labels(Allow), port(Allow)))]
pub struct DomDMAA { pub domain: String, pub port: Option<u16> }
impl Dom for DomDMAA {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomDMAA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDMAA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDMAA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Must), at_least_two_labels(Allow), port(Must)))]
pub struct DomDMAM { pub domain: String, pub port: u16 }
impl Dom for DomDMAM {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomDMAM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDMAM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDMAM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Must), at_least_two_labels(Allow), port(Disallow)))]
pub struct DomDMAD(pub String);
impl Dom for DomDMAD {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomDMAD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDMAD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDMAD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Must), at_least_two_labels(Must), port(Allow)))]
pub struct DomDMMA { pub domain: String, pub port: Option<u16> }
impl Dom for DomDMMA {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomDMMA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDMMA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDMMA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Must), at_least_two_labels(Must), port(Must)))]
pub struct DomDMMM { pub domain: String, pub port: u16 }
impl Dom for DomDMMM {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomDMMM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDMMM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDMMM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Must), at_least_two_labels(Must), port(Disallow)))]
pub struct DomDMMD(pub String);
impl Dom for DomDMMD {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomDMMD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDMMD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDMMD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Must), at_least_two_labels(Disallow), port(Allow)))]
pub struct DomDMDA { pub domain: String, pub port: Option<u16> }
impl Dom for DomDMDA {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomDMDA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDMDA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDMDA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Must), at_least_two_labels(Disallow), port(Must)))]
pub struct DomDMDM { pub domain: String, pub port: u16 }
impl Dom for DomDMDM {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomDMDM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDMDM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDMDM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Must), at_least_two_labels(Disallow), port(Disallow)))]
pub struct DomDMDD(pub String);
impl Dom for DomDMDD {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomDMDD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDMDD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDMDD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), at_least_two_labels(Allow), port(Allow)))]
pub struct DomDDAA { pub domain: String, pub port: Option<u16> }
impl Dom for DomDDAA {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomDDAA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDDAA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDDAA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), at_least_two_labels(Allow), port(Must)))]
pub struct DomDDAM { pub domain: String, pub port: u16 }
impl Dom for DomDDAM {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomDDAM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDDAM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDDAM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), at_least_two_labels(Allow), port(Disallow)))]
pub struct DomDDAD(pub String);
impl Dom for DomDDAD {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomDDAD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDDAD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDDAD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), at_least_two_labels(Must), port(Allow)))]
pub struct DomDDMA { pub domain: String, pub port: Option<u16> }
impl Dom for DomDDMA {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomDDMA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDDMA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDDMA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), at_least_two_labels(Must), port(Must)))]
pub struct DomDDMM { pub domain: String, pub port: u16 }
impl Dom for DomDDMM {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomDDMM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDDMM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDDMM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), at_least_two_labels(Must), port(Disallow)))]
pub struct DomDDMD(pub String);
impl Dom for DomDDMD {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomDDMD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDDMD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDDMD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), at_least_two_labels(Disallow), port(Allow)))]
pub struct DomDDDA { pub domain: String, pub port: Option<u16> }
impl Dom for DomDDDA {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { DomDDDA::parse_str(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDDDA::parse_string(s).ok().map(|v| R { name: v.domain, port: v.port, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDDDA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), at_least_two_labels(Disallow), port(Must)))]
pub struct DomDDDM { pub domain: String, pub port: u16 }
impl Dom for DomDDDM {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { DomDDDM::parse_str(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDDDM::parse_string(s).ok().map(|v| R { name: v.domain, port: Some(v.port), is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDDDM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), at_least_two_labels(Disallow), port(Disallow)))]
pub struct DomDDDD(pub String);
impl Dom for DomDDDD {
    const IPV4: Tri = Tri::Disallow;
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { DomDDDD::parse_str(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { DomDDDD::parse_string(s).ok().map(|v| R { name: v.0, port: None, is_ipv4: None, is_local: None }) }
    fn validate_(s: &str) -> bool { DomDDDD::validate_str(s).is_ok() }
}

harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_aaaa, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAAAA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_aaaa, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAAAA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_aaam, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAAAM>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_aaam, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAAAM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_aaad, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAAAD>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_aaad, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAAAD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_aama, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAAMA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_aama, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAAMA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_aamm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAAMM>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_aamm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAAMM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_aamd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAAMD>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_aamd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAAMD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_aada, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAADA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_aada, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAADA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_aadm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAADM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_aadd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAADD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_amaa, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAMAA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_amaa, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAMAA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_amam, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAMAM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_amad, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAMAD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_amma, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAMMA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_amma, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAMMA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_ammm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAMMM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_ammd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAMMD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_amda, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAMDA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_amda, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAMDA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_amdm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAMDM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_amdd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomAMDD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_adaa, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomADAA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_adaa, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomADAA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_adam, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomADAM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_adad, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomADAD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_adma, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomADMA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_adma, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomADMA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_admm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomADMM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_admd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomADMD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_adda, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomADDA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_adda, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomADDA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_addm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomADDM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_addd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomADDD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_maaa, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMAAA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_maaa, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMAAA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_maam, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMAAM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_maad, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMAAD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_mama, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMAMA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mama, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMAMA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mamm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMAMM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mamd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMAMD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_mada, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMADA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mada, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMADA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_madm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMADM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_madd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMADD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_mmaa, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMMAA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mmaa, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMMAA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_mmam, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMMAM>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mmam, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMMAM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_mmad, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMMAD>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mmad, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMMAD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_mmma, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMMMA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mmma, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMMMA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mmmm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMMMM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mmmd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMMMD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_mmda, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMMDA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mmda, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMMDA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mmdm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMMDM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mmdd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMMDD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_mdaa, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMDAA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mdaa, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMDAA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mdam, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMDAM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mdad, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMDAD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_mdma, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMDMA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mdma, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMDMA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mdmm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMDMM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mdmd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMDMD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_mdda, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMDDA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mdda, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMDDA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mddm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMDDM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_mddd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomMDDD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_daaa, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDAAA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_daaa, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDAAA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_daam, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDAAM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_daad, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDAAD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_dama, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDAMA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_dama, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDAMA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_damm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDAMM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_damd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDAMD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_dada, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDADA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_dada, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDADA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_dadm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDADM>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_dadm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDADM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_dadd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDADD>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_dadd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDADD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_dmaa, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDMAA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_dmaa, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDMAA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_dmam, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDMAM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_dmad, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDMAD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_dmma, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDMMA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_dmma, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDMMA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_dmmm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDMMM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_dmmd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDMMD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_dmda, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDMDA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_dmda, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDMDA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_dmdm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDMDM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_dmdd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDMDD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_ddaa, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDDAA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_ddaa, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDDAA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_ddam, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDDAM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_ddad, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDDAD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_ddma, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDDMA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_ddma, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDDMA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_ddmm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDDMM>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_ddmm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDDMM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_ddmd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDDMD>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_ddmd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDDMD>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_ddda, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDDDA>(s, false);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_ddda, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDDDA>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_dddm, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDDDM>(s, true);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_all_dddd, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {
    policies::<DomDDDD>(s, true);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_name_aaaa_0, bytes = 1, bound = "every ASCII text of 0 bytes", |s| {
    name::<DomAAAA, 0, 0>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_name_aaaa_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    name::<DomAAAA, 1, 0>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_name_aaaa_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    name::<DomAAAA, 2, 0>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_name_aaaa_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    name::<DomAAAA, 3, 0>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_name_aaaa_4, bytes = 4, bound = "every ASCII text of 4 bytes", |s| {
    name::<DomAAAA, 4, 0>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_name_aaaa_5, bytes = 5, bound = "every ASCII text of 5 bytes", |s| {
    name::<DomAAAA, 5, 0>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_name_aaaa_6, bytes = 6, bound = "every ASCII text of 6 bytes", |s| {
    name::<DomAAAA, 6, 0>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_name_dadd_0, bytes = 1, bound = "every ASCII text of 0 bytes", |s| {
    name::<DomDADD, 0, 0>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_name_dadd_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    name::<DomDADD, 1, 0>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_name_dadd_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    name::<DomDADD, 3, 0>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_name_dadd_5, bytes = 5, bound = "every ASCII text of 5 bytes", |s| {
    name::<DomDADD, 5, 0>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_name_adma_1_dot, bytes = 1, bound = "every ASCII text of 1 bytes which ends with '.'", |s| {
    name::<DomADMA, 1, b'.'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_name_adma_1_letter, bytes = 1, bound = "every ASCII text of 1 bytes which ends with 'x'", |s| {
    name::<DomADMA, 1, b'x'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_name_adma_3_dot, bytes = 3, bound = "every ASCII text of 3 bytes which ends with '.'", |s| {
    name::<DomADMA, 3, b'.'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_name_adma_3_letter, bytes = 3, bound = "every ASCII text of 3 bytes which ends with 'x'", |s| {
    name::<DomADMA, 3, b'x'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_name_adma_5_dot, bytes = 5, bound = "every ASCII text of 5 bytes which ends with '.'", |s| {
    name::<DomADMA, 5, b'.'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_name_adma_5_letter, bytes = 5, bound = "every ASCII text of 5 bytes which ends with 'x'", |s| {
    name::<DomADMA, 5, b'x'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_name_damd_1_dot, bytes = 1, bound = "every ASCII text of 1 bytes which ends with '.'", |s| {
    name::<DomDAMD, 1, b'.'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_name_damd_1_letter, bytes = 1, bound = "every ASCII text of 1 bytes which ends with 'x'", |s| {
    name::<DomDAMD, 1, b'x'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_name_damd_3_dot, bytes = 3, bound = "every ASCII text of 3 bytes which ends with '.'", |s| {
    name::<DomDAMD, 3, b'.'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_name_damd_3_letter, bytes = 3, bound = "every ASCII text of 3 bytes which ends with 'x'", |s| {
    name::<DomDAMD, 3, b'x'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_name_damd_5_dot, bytes = 5, bound = "every ASCII text of 5 bytes which ends with '.'", |s| {
    name::<DomDAMD, 5, b'.'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_name_damd_5_letter, bytes = 5, bound = "every ASCII text of 5 bytes which ends with 'x'", |s| {
    name::<DomDAMD, 5, b'x'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_name_damd_6_dot, bytes = 6, bound = "every ASCII text of 6 bytes which ends with '.'", |s| {
    name::<DomDAMD, 6, b'.'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_name_damd_6_letter, bytes = 6, bound = "every ASCII text of 6 bytes which ends with 'x'", |s| {
    name::<DomDAMD, 6, b'x'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_name_damd_7_dot, bytes = 7, bound = "every ASCII text of 7 bytes which ends with '.'", |s| {
    name::<DomDAMD, 7, b'.'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_name_damd_7_letter, bytes = 7, bound = "every ASCII text of 7 bytes which ends with 'x'", |s| {
    name::<DomDAMD, 7, b'x'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_name_ddmm_3_dot, bytes = 3, bound = "every ASCII text of 3 bytes which ends with '.'", |s| {
    name::<DomDDMM, 3, b'.'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_name_ddmm_3_letter, bytes = 3, bound = "every ASCII text of 3 bytes which ends with 'x'", |s| {
    name::<DomDDMM, 3, b'x'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_name_ddmm_5_dot, bytes = 5, bound = "every ASCII text of 5 bytes which ends with '.'", |s| {
    name::<DomDDMM, 5, b'.'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_name_ddmm_5_letter, bytes = 5, bound = "every ASCII text of 5 bytes which ends with 'x'", |s| {
    name::<DomDDMM, 5, b'x'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_aaaa_0_1, bytes = 2, bound = "every ASCII name of 0 bytes with a port of 1 bytes", |s| {
    with_port::<DomAAAA, 0, 1, 2>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_aaaa_1_0, bytes = 2, bound = "every ASCII name of 1 bytes with a port of 0 bytes", |s| {
    with_port::<DomAAAA, 1, 0, 2>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_aaaa_1_1, bytes = 3, bound = "every ASCII name of 1 bytes with a port of 1 bytes", |s| {
    with_port::<DomAAAA, 1, 1, 3>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_aaaa_1_5, bytes = 7, bound = "every ASCII name of 1 bytes with a port of 5 bytes", |s| {
    with_port::<DomAAAA, 1, 5, 7>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_aaaa_1_6, bytes = 8, bound = "every ASCII name of 1 bytes with a port of 6 bytes", |s| {
    with_port::<DomAAAA, 1, 6, 8>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_aaaa_3_2, bytes = 6, bound = "every ASCII name of 3 bytes with a port of 2 bytes", |s| {
    with_port::<DomAAAA, 3, 2, 6>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_damm_0_1, bytes = 2, bound = "every ASCII name of 0 bytes with a port of 1 bytes", |s| {
    with_port::<DomDAMM, 0, 1, 2>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_damm_1_0, bytes = 2, bound = "every ASCII name of 1 bytes with a port of 0 bytes", |s| {
    with_port::<DomDAMM, 1, 0, 2>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_damm_1_1, bytes = 3, bound = "every ASCII name of 1 bytes with a port of 1 bytes", |s| {
    with_port::<DomDAMM, 1, 1, 3>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_damm_1_5, bytes = 7, bound = "every ASCII name of 1 bytes with a port of 5 bytes", |s| {
    with_port::<DomDAMM, 1, 5, 7>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_damm_1_6, bytes = 8, bound = "every ASCII name of 1 bytes with a port of 6 bytes", |s| {
    with_port::<DomDAMM, 1, 6, 8>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_damm_3_2, bytes = 6, bound = "every ASCII name of 3 bytes with a port of 2 bytes", |s| {
    with_port::<DomDAMM, 3, 2, 6>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_dadd_1_0, bytes = 2, bound = "every ASCII name of 1 bytes with a port of 0 bytes", |s| {
    with_port::<DomDADD, 1, 0, 2>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_dadd_1_1, bytes = 3, bound = "every ASCII name of 1 bytes with a port of 1 bytes", |s| {
    with_port::<DomDADD, 1, 1, 3>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_dadd_1_5, bytes = 7, bound = "every ASCII name of 1 bytes with a port of 5 bytes", |s| {
    with_port::<DomDADD, 1, 5, 7>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_port_dadd_1_6, bytes = 8, bound = "every ASCII name of 1 bytes with a port of 6 bytes", |s| {
    with_port::<DomDADD, 1, 6, 8>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_port_maaa_0_1, bytes = 2, bound = "every ASCII name of 0 bytes with a port of 1 bytes", |s| {
    with_port::<DomMAAA, 0, 1, 2>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_port_maaa_1_0, bytes = 2, bound = "every ASCII name of 1 bytes with a port of 0 bytes", |s| {
    with_port::<DomMAAA, 1, 0, 2>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_port_maaa_1_1, bytes = 3, bound = "every ASCII name of 1 bytes with a port of 1 bytes", |s| {
    with_port::<DomMAAA, 1, 1, 3>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_port_maaa_1_5, bytes = 7, bound = "every ASCII name of 1 bytes with a port of 5 bytes", |s| {
    with_port::<DomMAAA, 1, 5, 7>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_port_maaa_1_6, bytes = 8, bound = "every ASCII name of 1 bytes with a port of 6 bytes", |s| {
    with_port::<DomMAAA, 1, 6, 8>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_port_maaa_3_2, bytes = 6, bound = "every ASCII name of 3 bytes with a port of 2 bytes", |s| {
    with_port::<DomMAAA, 3, 2, 6>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_ways_aaaa_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    ways::<DomAAAA, 1>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_ways_aaaa_4, bytes = 4, bound = "every ASCII text of 4 bytes", |s| {
    ways::<DomAAAA, 4>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_ways_damm_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    ways::<DomDAMM, 1>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_ways_damm_4, bytes = 4, bound = "every ASCII text of 4 bytes", |s| {
    ways::<DomDAMM, 4>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_ways_dadd_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    ways::<DomDADD, 1>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_ways_dadd_4, bytes = 4, bound = "every ASCII text of 4 bytes", |s| {
    ways::<DomDADD, 4>(s);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_local_dmdd_8_t, bytes = 8, bound = "every ASCII text of 8 bytes which ends with 't'", |s| {
    name::<DomDMDD, 8, b't'>(s);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_local_dmdd_9, bytes = 9, bound = "every ASCII text of 9 bytes", |s| {
    name::<DomDMDD, 9, 0>(s);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_local_dmdd_9_t, bytes = 9, bound = "every ASCII text of 9 bytes which ends with 't'", |s| {
    name::<DomDMDD, 9, b't'>(s);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_local_dmdd_10_dot, bytes = 10, bound = "every ASCII text of 10 bytes which ends with '.'", |s| {
    name::<DomDMDD, 10, b'.'>(s);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_local_dmdd_10_t, bytes = 10, bound = "every ASCII text of 10 bytes which ends with 't'", |s| {
    name::<DomDMDD, 10, b't'>(s);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] q_local_ddad_9, bytes = 9, bound = "every ASCII text of 9 bytes", |s| {
    name::<DomDDAD, 9, 0>(s);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_local_ddad_9_t, bytes = 9, bound = "every ASCII text of 9 bytes which ends with 't'", |s| {
    name::<DomDDAD, 9, b't'>(s);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_local_aama_9, bytes = 9, bound = "every ASCII text of 9 bytes", |s| {
    name::<DomAAMA, 9, 0>(s);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_local_aama_9_t, bytes = 9, bound = "every ASCII text of 9 bytes which ends with 't'", |s| {
    name::<DomAAMA, 9, b't'>(s);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_local_aadm_9, bytes = 9, bound = "every ASCII text of 9 bytes", |s| {
    name::<DomAADM, 9, 0>(s);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] t_local_aadm_9_t, bytes = 9, bound = "every ASCII text of 9 bytes which ends with 't'", |s| {
    name::<DomAADM, 9, b't'>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] q_wide_aaaa_first, bytes = 1, bound = "every character U+FF01..U+FF3F between nothing and 27.0.0.1", |s| {
    wide::<DomAAAA, 11>(s, b"", b"27.0.0.1");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] q_wide_aaaa_last, bytes = 1, bound = "every character U+FF01..U+FF3F between 8.8.8. and nothing", |s| {
    wide::<DomAAAA, 9>(s, b"8.8.8.", b"");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] q_wide_aaaa_dot, bytes = 1, bound = "every character U+FF01..U+FF3F between 8.8.8 and 8.", |s| {
    wide::<DomAAAA, 10>(s, b"8.8.8", b"8.");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] q_wide_aaaa_label, bytes = 1, bound = "every character U+FF01..U+FF3F between a and nothing", |s| {
    wide::<DomAAAA, 4>(s, b"a", b"");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] q_wide_dadd_first, bytes = 1, bound = "every character U+FF01..U+FF3F between nothing and 27.0.0.1", |s| {
    wide::<DomDADD, 11>(s, b"", b"27.0.0.1");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] q_wide_dadd_last, bytes = 1, bound = "every character U+FF01..U+FF3F between 8.8.8. and nothing", |s| {
    wide::<DomDADD, 9>(s, b"8.8.8.", b"");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] q_wide_dadd_dot, bytes = 1, bound = "every character U+FF01..U+FF3F between 8.8.8 and 8.", |s| {
    wide::<DomDADD, 10>(s, b"8.8.8", b"8.");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] q_wide_dadd_label, bytes = 1, bound = "every character U+FF01..U+FF3F between a and nothing", |s| {
    wide::<DomDADD, 4>(s, b"a", b"");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] t_wide_daad_first, bytes = 1, bound = "every character U+FF01..U+FF3F between nothing and 27.0.0.1", |s| {
    wide::<DomDAAD, 11>(s, b"", b"27.0.0.1");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] t_wide_daad_last, bytes = 1, bound = "every character U+FF01..U+FF3F between 8.8.8. and nothing", |s| {
    wide::<DomDAAD, 9>(s, b"8.8.8.", b"");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] t_wide_daad_dot, bytes = 1, bound = "every character U+FF01..U+FF3F between 8.8.8 and 8.", |s| {
    wide::<DomDAAD, 10>(s, b"8.8.8", b"8.");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] t_wide_daad_label, bytes = 1, bound = "every character U+FF01..U+FF3F between a and nothing", |s| {
    wide::<DomDAAD, 4>(s, b"a", b"");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] t_wide_aama_first, bytes = 1, bound = "every character U+FF01..U+FF3F between nothing and 27.0.0.1", |s| {
    wide::<DomAAMA, 11>(s, b"", b"27.0.0.1");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] t_wide_aama_last, bytes = 1, bound = "every character U+FF01..U+FF3F between 8.8.8. and nothing", |s| {
    wide::<DomAAMA, 9>(s, b"8.8.8.", b"");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] t_wide_aama_dot, bytes = 1, bound = "every character U+FF01..U+FF3F between 8.8.8 and 8.", |s| {
    wide::<DomAAMA, 10>(s, b"8.8.8", b"8.");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] t_wide_aama_label, bytes = 1, bound = "every character U+FF01..U+FF3F between a and nothing", |s| {
    wide::<DomAAMA, 4>(s, b"a", b"");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] t_wide_addd_first, bytes = 1, bound = "every character U+FF01..U+FF3F between nothing and 27.0.0.1", |s| {
    wide::<DomADDD, 11>(s, b"", b"27.0.0.1");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] t_wide_addd_last, bytes = 1, bound = "every character U+FF01..U+FF3F between 8.8.8. and nothing", |s| {
    wide::<DomADDD, 9>(s, b"8.8.8.", b"");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] t_wide_addd_dot, bytes = 1, bound = "every character U+FF01..U+FF3F between 8.8.8 and 8.", |s| {
    wide::<DomADDD, 10>(s, b"8.8.8", b"8.");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] t_wide_addd_label, bytes = 1, bound = "every character U+FF01..U+FF3F between a and nothing", |s| {
    wide::<DomADDD, 4>(s, b"a", b"");
});
