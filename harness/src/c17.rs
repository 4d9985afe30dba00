// Written by tools/gen_host.py
use crate::idn;
use crate::ipmodel;
#[cfg(kani)]
use crate::net::stub;
use crate::net::{ip_text, port, port_text, Ip, Tri};
use crate::util::{st, Src};
use validators::models::Host;
use validators::prelude::*;

/// What a host validator gives; is_local: None where the type does not have it.
pub struct R {
    host: Host,
    port: Option<u16>,
    is_local: Option<bool>,
}

pub trait HostType: Sized {
    const LOCAL: Tri;
    const LABELS: Tri;
    const PORT: Tri;
    fn str_(s: &str) -> Option<R>;
    fn string_(s: &str) -> Option<R>;
    fn validate_(s: &str) -> bool;
}

struct Want {
    name: [u8; idn::CAP],
    len: usize,
    ip: Option<Ip>,
    port: Option<u16>,
    is_local: bool,
}
fn empty() -> Want {
    Want { name: [0; idn::CAP], len: 0, ip: None, port: None, is_local: false }
}

fn localhost(b: &[u8]) -> bool {
    let l = b"localhost";
    if b.len() != 9 {
        return false;
    }
    let mut same = true;
    let mut i = 0;
    while i < 9 {
        same &= b[i] | 32 == l[i];
        i += 1;
    }
    same
}

/// `ip`: the address which the name stands for. -> accepted. Lengths stay concrete when those of the input are.
fn judge<T: HostType>(name: &[u8], port_text: Option<&[u8]>, ip: Option<Ip>, w: &mut Want) -> bool {
    let mut ok = true;
    w.port = None;
    match port_text {
        Some(t) => {
            w.port = port(t);
            ok &= T::PORT != Tri::Disallow && w.port.is_some();
        }
        None => ok &= T::PORT != Tri::Must,
    }
    w.ip = ip;
    match ip {
        Some(ip) => {
            w.is_local = ip.local();
            ok &= T::LABELS != Tri::Disallow;
        }
        None => {
            w.len = name.len();
            ok &= idn::ascii(idn::STRICT, name, &mut w.name);
            w.is_local = localhost(&w.name[..w.len]);
            let mut dots = 0;
            let mut i = 0;
            while i < w.len {
                dots += (w.name[i] == b'.') as usize;
                i += 1;
            }
            ok &= w.len > 0 && w.name[w.len - 1] != b'.';
            ok &= w.is_local || T::LABELS == Tri::Allow || (T::LABELS == Tri::Must) == (dots > 0);
        }
    }
    ok && (T::LOCAL == Tri::Allow || (T::LOCAL == Tri::Must) == w.is_local)
}

fn equal(r: &R, w: &Want) -> bool {
    let host = match (&r.host, w.ip) {
        (Host::IPv4(a), Some(b)) => Ip::V4(u32::from(*a)) == b,
        (Host::IPv6(a), Some(b)) => Ip::V6(u128::from(*a)) == b,
        (Host::Domain(n), None) => {
            let n = n.as_bytes();
            let mut same = n.len() == w.len;
            let mut i = 0;
            while same && i < n.len() {
                same &= n[i] == w.name[i];
                i += 1;
            }
            same
        }
        _ => false,
    };
    host && r.port == w.port
        && match r.is_local {
            Some(x) => x == w.is_local,
            None => true,
        }
}

fn compare(r: Option<R>, ok: bool, w: &Want) -> bool {
    match &r {
        Some(r) => {
            assert!(ok, "only what the grammar and the policies admit is accepted");
            assert!(equal(r, w), "the host, the port and the classification are those of the text");
        }
        None => assert!(!ok, "what the grammar and the policies admit is accepted"),
    }
    r.is_some()
}

struct Text {
    b: [u8; 64],
    n: usize,
}
impl Text {
    fn puts(&mut self, s: &[u8]) {
        let mut i = 0;
        while i < s.len() {
            self.b[self.n] = s[i];
            self.n += 1;
            i += 1;
        }
    }
}

/// a text made of concrete pieces: an address or a name, and a port
fn one<T: HostType>(name: &str, brackets: bool, with_port: Option<u16>, ip: Option<Ip>) {
    let mut t = Text { b: [0; 64], n: 0 };
    if brackets {
        t.puts(b"[");
    }
    t.puts(name.as_bytes());
    if brackets {
        t.puts(b"]");
    }
    let mut w = empty();
    let mut ok = judge::<T>(name.as_bytes(), None, ip, &mut w);
    if let Some(p) = with_port {
        t.puts(b":");
        t.puts(port_text(p).as_bytes());
        ok = judge::<T>(name.as_bytes(), Some(b"0"), ip, &mut w);
        w.port = Some(p);
    }
    ok &= !brackets || matches!(ip, Some(Ip::V6(_)));
    compare(T::str_(st(&t.b[..t.n])), ok, &w);
}

fn four<T: HostType>(s: &mut Src) {
    let ip = s.u32();
    let p = s.u16();
    let text = ip_text(Ip::V4(ip));
    one::<T>(&text, false, None, Some(Ip::V4(ip)));
    one::<T>(&text, false, Some(p), Some(Ip::V4(ip)));
    one::<T>(&text, true, None, Some(Ip::V4(ip)));
}
fn six<T: HostType>(s: &mut Src) {
    let ip = s.u128();
    let p = s.u16();
    let text = ip_text(Ip::V6(ip));
    one::<T>(&text, false, None, Some(Ip::V6(ip)));
    one::<T>(&text, true, None, Some(Ip::V6(ip)));
    one::<T>(&text, true, Some(p), Some(Ip::V6(ip)));
}
/// an arbitrary address is an IPv4 and an IPv6 address
fn policies<T: HostType>(s: &mut Src) {
    four::<T>(s);
    six::<T>(s);
    names::<T>(s);
}
fn names<T: HostType>(s: &mut Src) {
    let p = s.u16();
    let mut i = 0;
    while i < 4 {
        let port = if i == 3 { T::PORT == Tri::Disallow } else { T::PORT != Tri::Disallow };
        one::<T>(["LocalHost", "X", "x.Y", "x.y"][i], false, if port { Some(p) } else { None }, None);
        i += 1;
    }
}
fn names_all<T: HostType>(s: &mut Src) {
    let p = s.u16();
    let mut i = 0;
    while i < 6 {
        let name = ["LocalHost", "X", "x.Y", "localhost.", "x.", "x.y."][i];
        one::<T>(name, false, None, None);
        one::<T>(name, false, Some(p), None);
        one::<T>(name, true, None, None);
        i += 1;
    }
}

/// arbitrary ASCII text of N bytes, which cannot be an IP address; the last byte is LAST unless that is 0
fn name<T: HostType, const N: usize, const LAST: u8>(s: &mut Src) {
    let mut b = s.ascii::<N>();
    if LAST != 0 {
        b[N - 1] = LAST;
    }
    let mut colons = 0;
    let mut i = 0;
    while i < N {
        colons += (b[i] == b':') as u8;
        i += 1;
    }
    // with a colon: see with_port
    must(colons == 0);
    let mut w = empty();
    let ok = judge::<T>(&b, None, None, &mut w);
    compare(T::str_(st(&b)), ok, &w);
}

/// a name of N bytes, a colon and a text of M bytes without colons
fn with_port<T: HostType, const N: usize, const M: usize, const L: usize>(s: &mut Src) {
    let mut b = s.ascii::<L>();
    b[N] = b':';
    let mut i = 0;
    while i < L {
        must(i == N || b[i] != b':');
        i += 1;
    }
    let mut w = empty();
    let ok = judge::<T>(&b[..N], Some(&b[N + 1..]), None, &mut w);
    compare(T::str_(st(&b)), ok, &w);
}

/// an IPv6 address in brackets and an arbitrary text of N bytes behind them
fn tail<T: HostType, const N: usize>(s: &mut Src) {
    let ip = Ip::V6(s.u128());
    let b = s.ascii::<N>();
    let text = ip_text(ip);
    let mut t = Text { b: [0; 64], n: 0 };
    t.puts(b"[");
    t.puts(text.as_bytes());
    t.puts(b"]");
    t.puts(&b);
    let mut w = empty();
    let ok = if N == 0 { judge::<T>(b"", None, Some(ip), &mut w) } else { judge::<T>(b"", Some(&b[1..]), Some(ip), &mut w) & (b[0] == b':') };
    compare(T::str_(st(&t.b[..t.n])), ok, &w);
}

/// arbitrary text of N bytes read with a full model of the IPv6 grammar
fn any<T: HostType, const N: usize>(s: &mut Src) {
    let b = s.ascii::<N>();
    let mut colons = 0;
    let mut last = 0;
    let mut i = 0;
    while i < N {
        if b[i] == b':' {
            colons += 1;
            last = i;
        }
        i += 1;
    }
    must(colons > 1 || b[0] == b'[');
    // no name holds a colon or a bracket, and no address in brackets with a port is this short (N < 7)
    let mut w = empty();
    let ip = ipmodel::v6(&b);
    let inner = if N > 2 && b[0] == b'[' && b[N - 1] == b']' { ipmodel::v6(&b[1..N - 1]) } else { None };
    let ip = if inner.is_some() { inner } else { ip };
    let ok = match ip {
        Some(ip) => judge::<T>(b"", None, Some(Ip::V6(ip)), &mut w),
        None => false,
    };
    compare(T::str_(st(&b)), ok, &w);
}

/// parse_string and validate_str do as parse_str
fn ways<T: HostType, const N: usize>(s: &mut Src) {
    let b = s.ascii::<N>();
    must(b[0] != b'[');
    let t = st(&b);
    let r = T::str_(t);
    assert!(T::validate_(t) == r.is_some(), "validate_str does as parse_str");
    match (&r, T::string_(t)) {
        (Some(a), Some(b)) => {
            let same = match (&a.host, &b.host) {
                (Host::IPv4(x), Host::IPv4(y)) => u32::from(*x) == u32::from(*y),
                (Host::IPv6(x), Host::IPv6(y)) => u128::from(*x) == u128::from(*y),
                (Host::Domain(x), Host::Domain(y)) => {
                    let (x, y) = (x.as_bytes(), y.as_bytes());
                    let mut same = x.len() == y.len();
                    let mut i = 0;
                    while i < x.len() && i < y.len() {
                        same &= x[i] == y[i];
                        i += 1;
                    }
                    same
                }
                _ => false,
            };
            assert!(same && a.port == b.port && a.is_local == b.is_local, "parse_string does as parse_str");
        }
        (None, None) => (),
        _ => assert!(false, "parse_string does as parse_str"),
    }
}

/// the first character is any fullwidth one, which the mapping of names may turn into a digit or a dot
fn wide<T: HostType, const L: usize>(s: &mut Src, prefix: &[u8], rest: &[u8]) {
    let x = s.within(0x81, 0xBF);
    let mut b = [0u8; L];
    let n = prefix.len();
    let mut i = 0;
    while i < L {
        b[i] = if i < n { prefix[i] } else if i == n { 0xEF } else if i == n + 1 { 0xBC } else if i == n + 2 { x } else { rest[i - n - 3] };
        i += 1;
    }
    let mut m = [0u8; idn::CAP];
    let mut i = 0;
    while i < L - 2 {
        m[i] = if i < n { prefix[i] } else if i == n { x - 0x81 + 0x21 } else { rest[i - n - 1] };
        i += 1;
    }
    let mut w = empty();
    let ok = judge::<T>(&m[..L - 2], None, None, &mut w) & ipmodel::v4(&m[..L - 2]).is_none();
    compare(T::str_(st(&b)), ok, &w);
}

pub fn must(c: bool) {
    #[cfg(not(kani))]
    use crate::kani;
    kani::assume(c);
}

#[derive(Validator)]
#[validator(host(local(Allow), at_least_two_labels(Allow), port(Allow)))]
pub struct HostAAA { pub host: Host, pub port: Option<u16> }
impl HostType for HostAAA {
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { HostAAA::parse_str(s).ok().map(|v| R { host: v.host, port: v.port, is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostAAA::parse_string(s).ok().map(|v| R { host: v.host, port: v.port, is_local: None }) }
    fn validate_(s: &str) -> bool { HostAAA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Allow), at_least_two_labels(Allow), port(Must)))]
pub struct HostAAM { pub host: Host, pub port: u16 }
impl HostType for HostAAM {
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { HostAAM::parse_str(s).ok().map(|v| R { host: v.host, port: Some(v.port), is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostAAM::parse_string(s).ok().map(|v| R { host: v.host, port: Some(v.port), is_local: None }) }
    fn validate_(s: &str) -> bool { HostAAM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Allow), at_least_two_labels(Allow), port(Disallow)))]
pub struct HostAAD(pub Host);
impl HostType for HostAAD {
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { HostAAD::parse_str(s).ok().map(|v| R { host: v.0, port: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostAAD::parse_string(s).ok().map(|v| R { host: v.0, port: None, is_local: None }) }
    fn validate_(s: &str) -> bool { HostAAD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Allow), at_least_two_labels(Must), port(Allow)))]
pub struct HostAMA { pub host: Host, pub is_local: bool, pub port: Option<u16> }
impl HostType for HostAMA {
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { HostAMA::parse_str(s).ok().map(|v| R { host: v.host, port: v.port, is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { HostAMA::parse_string(s).ok().map(|v| R { host: v.host, port: v.port, is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { HostAMA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Allow), at_least_two_labels(Must), port(Must)))]
pub struct HostAMM { pub host: Host, pub is_local: bool, pub port: u16 }
impl HostType for HostAMM {
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { HostAMM::parse_str(s).ok().map(|v| R { host: v.host, port: Some(v.port), is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { HostAMM::parse_string(s).ok().map(|v| R { host: v.host, port: Some(v.port), is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { HostAMM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Allow), at_least_two_labels(Must), port(Disallow)))]
pub struct HostAMD { pub host: Host, pub is_local: bool }
impl HostType for HostAMD {
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { HostAMD::parse_str(s).ok().map(|v| R { host: v.host, port: None, is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { HostAMD::parse_string(s).ok().map(|v| R { host: v.host, port: None, is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { HostAMD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Allow), at_least_two_labels(Disallow), port(Allow)))]
pub struct HostADA { pub host: Host, pub is_local: bool, pub port: Option<u16> }
impl HostType for HostADA {
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { HostADA::parse_str(s).ok().map(|v| R { host: v.host, port: v.port, is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { HostADA::parse_string(s).ok().map(|v| R { host: v.host, port: v.port, is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { HostADA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Allow), at_least_two_labels(Disallow), port(Must)))]
pub struct HostADM { pub host: Host, pub is_local: bool, pub port: u16 }
impl HostType for HostADM {
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { HostADM::parse_str(s).ok().map(|v| R { host: v.host, port: Some(v.port), is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { HostADM::parse_string(s).ok().map(|v| R { host: v.host, port: Some(v.port), is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { HostADM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Allow), at_least_two_labels(Disallow), port(Disallow)))]
pub struct HostADD { pub host: Host, pub is_local: bool }
impl HostType for HostADD {
    const LOCAL: Tri = Tri::Allow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { HostADD::parse_str(s).ok().map(|v| R { host: v.host, port: None, is_local: Some(v.is_local) }) }
    fn string_(s: &str) -> Option<R> { HostADD::parse_string(s).ok().map(|v| R { host: v.host, port: None, is_local: Some(v.is_local) }) }
    fn validate_(s: &str) -> bool { HostADD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Must), at_least_two_labels(Allow), port(Allow)))]
pub struct HostMAA { pub host: Host, pub port: Option<u16> }
impl HostType for HostMAA {
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { HostMAA::parse_str(s).ok().map(|v| R { host: v.host, port: v.port, is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostMAA::parse_string(s).ok().map(|v| R { host: v.host, port: v.port, is_local: None }) }
    fn validate_(s: &str) -> bool { HostMAA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Must), at_least_two_labels(Allow), port(Must)))]
pub struct HostMAM { pub host: Host, pub port: u16 }
impl HostType for HostMAM {
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { HostMAM::parse_str(s).ok().map(|v| R { host: v.host, port: Some(v.port), is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostMAM::parse_string(s).ok().map(|v| R { host: v.host, port: Some(v.port), is_local: None }) }
    fn validate_(s: &str) -> bool { HostMAM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Must), at_least_two_labels(Allow), port(Disallow)))]
pub struct HostMAD(pub Host);
impl HostType for HostMAD {
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { HostMAD::parse_str(s).ok().map(|v| R { host: v.0, port: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostMAD::parse_string(s).ok().map(|v| R { host: v.0, port: None, is_local: None }) }
    fn validate_(s: &str) -> bool { HostMAD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Must), at_least_two_labels(Must), port(Allow)))]
pub struct HostMMA { pub host: Host, pub port: Option<u16> }
impl HostType for HostMMA {
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { HostMMA::parse_str(s).ok().map(|v| R { host: v.host, port: v.port, is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostMMA::parse_string(s).ok().map(|v| R { host: v.host, port: v.port, is_local: None }) }
    fn validate_(s: &str) -> bool { HostMMA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Must), at_least_two_labels(Must), port(Must)))]
pub struct HostMMM { pub host: Host, pub port: u16 }
impl HostType for HostMMM {
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { HostMMM::parse_str(s).ok().map(|v| R { host: v.host, port: Some(v.port), is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostMMM::parse_string(s).ok().map(|v| R { host: v.host, port: Some(v.port), is_local: None }) }
    fn validate_(s: &str) -> bool { HostMMM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Must), at_least_two_labels(Must), port(Disallow)))]
pub struct HostMMD(pub Host);
impl HostType for HostMMD {
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { HostMMD::parse_str(s).ok().map(|v| R { host: v.0, port: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostMMD::parse_string(s).ok().map(|v| R { host: v.0, port: None, is_local: None }) }
    fn validate_(s: &str) -> bool { HostMMD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Must), at_least_two_labels(Disallow), port(Allow)))]
pub struct HostMDA { pub host: Host, pub port: Option<u16> }
impl HostType for HostMDA {
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { HostMDA::parse_str(s).ok().map(|v| R { host: v.host, port: v.port, is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostMDA::parse_string(s).ok().map(|v| R { host: v.host, port: v.port, is_local: None }) }
    fn validate_(s: &str) -> bool { HostMDA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Must), at_least_two_labels(Disallow), port(Must)))]
pub struct HostMDM { pub host: Host, pub port: u16 }
impl HostType for HostMDM {
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { HostMDM::parse_str(s).ok().map(|v| R { host: v.host, port: Some(v.port), is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostMDM::parse_string(s).ok().map(|v| R { host: v.host, port: Some(v.port), is_local: None }) }
    fn validate_(s: &str) -> bool { HostMDM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Must), at_least_two_labels(Disallow), port(Disallow)))]
pub struct HostMDD(pub Host);
impl HostType for HostMDD {
    const LOCAL: Tri = Tri::Must;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { HostMDD::parse_str(s).ok().map(|v| R { host: v.0, port: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostMDD::parse_string(s).ok().map(|v| R { host: v.0, port: None, is_local: None }) }
    fn validate_(s: &str) -> bool { HostMDD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Disallow), at_least_two_labels(Allow), port(Allow)))]
pub struct HostDAA { pub host: Host, pub port: Option<u16> }
impl HostType for HostDAA {
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { HostDAA::parse_str(s).ok().map(|v| R { host: v.host, port: v.port, is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostDAA::parse_string(s).ok().map(|v| R { host: v.host, port: v.port, is_local: None }) }
    fn validate_(s: &str) -> bool { HostDAA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Disallow), at_least_two_labels(Allow), port(Must)))]
pub struct HostDAM { pub host: Host, pub port: u16 }
impl HostType for HostDAM {
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { HostDAM::parse_str(s).ok().map(|v| R { host: v.host, port: Some(v.port), is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostDAM::parse_string(s).ok().map(|v| R { host: v.host, port: Some(v.port), is_local: None }) }
    fn validate_(s: &str) -> bool { HostDAM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Disallow), at_least_two_labels(Allow), port(Disallow)))]
pub struct HostDAD(pub Host);
impl HostType for HostDAD {
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Allow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { HostDAD::parse_str(s).ok().map(|v| R { host: v.0, port: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostDAD::parse_string(s).ok().map(|v| R { host: v.0, port: None, is_local: None }) }
    fn validate_(s: &str) -> bool { HostDAD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Disallow), at_least_two_labels(Must), port(Allow)))]
pub struct HostDMA { pub host: Host, pub port: Option<u16> }
impl HostType for HostDMA {
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { HostDMA::parse_str(s).ok().map(|v| R { host: v.host, port: v.port, is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostDMA::parse_string(s).ok().map(|v| R { host: v.host, port: v.port, is_local: None }) }
    fn validate_(s: &str) -> bool { HostDMA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Disallow), at_least_two_labels(Must), port(Must)))]
pub struct HostDMM { pub host: Host, pub port: u16 }
impl HostType for HostDMM {
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { HostDMM::parse_str(s).ok().map(|v| R { host: v.host, port: Some(v.port), is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostDMM::parse_string(s).ok().map(|v| R { host: v.host, port: Some(v.port), is_local: None }) }
    fn validate_(s: &str) -> bool { HostDMM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Disallow), at_least_two_labels(Must), port(Disallow)))]
pub struct HostDMD(pub Host);
impl HostType for HostDMD {
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Must;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { HostDMD::parse_str(s).ok().map(|v| R { host: v.0, port: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostDMD::parse_string(s).ok().map(|v| R { host: v.0, port: None, is_local: None }) }
    fn validate_(s: &str) -> bool { HostDMD::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Disallow), at_least_two_labels(Disallow), port(Allow)))]
pub struct HostDDA { pub host: Host, pub port: Option<u16> }
impl HostType for HostDDA {
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Allow;
    fn str_(s: &str) -> Option<R> { HostDDA::parse_str(s).ok().map(|v| R { host: v.host, port: v.port, is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostDDA::parse_string(s).ok().map(|v| R { host: v.host, port: v.port, is_local: None }) }
    fn validate_(s: &str) -> bool { HostDDA::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Disallow), at_least_two_labels(Disallow), port(Must)))]
pub struct HostDDM { pub host: Host, pub port: u16 }
impl HostType for HostDDM {
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Must;
    fn str_(s: &str) -> Option<R> { HostDDM::parse_str(s).ok().map(|v| R { host: v.host, port: Some(v.port), is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostDDM::parse_string(s).ok().map(|v| R { host: v.host, port: Some(v.port), is_local: None }) }
    fn validate_(s: &str) -> bool { HostDDM::validate_str(s).is_ok() }
}

#[derive(Validator)]
#[validator(host(local(Disallow), at_least_two_labels(Disallow), port(Disallow)))]
pub struct HostDDD(pub Host);
impl HostType for HostDDD {
    const LOCAL: Tri = Tri::Disallow;
    const LABELS: Tri = Tri::Disallow;
    const PORT: Tri = Tri::Disallow;
    fn str_(s: &str) -> Option<R> { HostDDD::parse_str(s).ok().map(|v| R { host: v.0, port: None, is_local: None }) }
    fn string_(s: &str) -> Option<R> { HostDDD::parse_string(s).ok().map(|v| R { host: v.0, port: None, is_local: None }) }
    fn validate_(s: &str) -> bool { HostDDD::validate_str(s).is_ok() }
}

harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_aaa, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostAAA>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_aaa, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostAAA>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_aam, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostAAM>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_aam, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostAAM>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_aad, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostAAD>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_aad, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostAAD>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_ama, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostAMA>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_ama, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostAMA>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_amm, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostAMM>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_amm, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostAMM>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_amd, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostAMD>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_amd, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostAMD>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_ada, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostADA>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_ada, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostADA>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_adm, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostADM>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_adm, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostADM>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_add, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostADD>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_add, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostADD>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_maa, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostMAA>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_maa, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostMAA>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_mam, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostMAM>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_mam, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostMAM>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_mad, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostMAD>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_mad, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostMAD>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_mma, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostMMA>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_mma, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostMMA>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_mmm, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostMMM>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_mmm, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostMMM>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_mmd, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostMMD>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_mmd, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostMMD>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_mda, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostMDA>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_mda, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostMDA>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_mdm, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostMDM>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_mdm, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostMDM>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_mdd, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostMDD>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_mdd, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostMDD>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_daa, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostDAA>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_daa, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostDAA>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_dam, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostDAM>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_dam, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostDAM>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_dad, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostDAD>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_dad, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostDAD>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_dma, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostDMA>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_dma, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostDMA>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_dmm, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostDMM>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_dmm, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostDMM>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_policy_dmd, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostDMD>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_dmd, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostDMD>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_dda, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostDDA>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_dda, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostDDA>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_ddm, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostDDM>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_ddm, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostDDM>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] q_policy_ddd, bytes = 26, bound = "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", |s| {
    policies::<HostDDD>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] t_names_all_ddd, bytes = 2, bound = "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", |s| {
    names_all::<HostDDD>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_name_aaa_1, bytes = 1, bound = "every ASCII text of 1 bytes without a colon", |s| {
    name::<HostAAA, 1, 0>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_name_aaa_3, bytes = 3, bound = "every ASCII text of 3 bytes without a colon", |s| {
    name::<HostAAA, 3, 0>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_name_aaa_5, bytes = 5, bound = "every ASCII text of 5 bytes without a colon", |s| {
    name::<HostAAA, 5, 0>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_name_dad_0, bytes = 1, bound = "every ASCII text of 0 bytes without a colon", |s| {
    name::<HostDAD, 0, 0>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_name_dad_2, bytes = 2, bound = "every ASCII text of 2 bytes without a colon", |s| {
    name::<HostDAD, 2, 0>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_name_dad_4, bytes = 4, bound = "every ASCII text of 4 bytes without a colon", |s| {
    name::<HostDAD, 4, 0>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_name_ama_2_dot, bytes = 2, bound = "every ASCII text of 2 bytes without a colon which ends with '.'", |s| {
    name::<HostAMA, 2, b'.'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_name_ama_2_letter, bytes = 2, bound = "every ASCII text of 2 bytes without a colon which ends with 'x'", |s| {
    name::<HostAMA, 2, b'x'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_name_ama_4_dot, bytes = 4, bound = "every ASCII text of 4 bytes without a colon which ends with '.'", |s| {
    name::<HostAMA, 4, b'.'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_name_ama_4_letter, bytes = 4, bound = "every ASCII text of 4 bytes without a colon which ends with 'x'", |s| {
    name::<HostAMA, 4, b'x'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_name_dda_1_dot, bytes = 1, bound = "every ASCII text of 1 bytes without a colon which ends with '.'", |s| {
    name::<HostDDA, 1, b'.'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_name_dda_1_letter, bytes = 1, bound = "every ASCII text of 1 bytes without a colon which ends with 'x'", |s| {
    name::<HostDDA, 1, b'x'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_name_dda_3_dot, bytes = 3, bound = "every ASCII text of 3 bytes without a colon which ends with '.'", |s| {
    name::<HostDDA, 3, b'.'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_name_dda_3_letter, bytes = 3, bound = "every ASCII text of 3 bytes without a colon which ends with 'x'", |s| {
    name::<HostDDA, 3, b'x'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_name_dda_5_dot, bytes = 5, bound = "every ASCII text of 5 bytes without a colon which ends with '.'", |s| {
    name::<HostDDA, 5, b'.'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_name_dda_5_letter, bytes = 5, bound = "every ASCII text of 5 bytes without a colon which ends with 'x'", |s| {
    name::<HostDDA, 5, b'x'>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_port_aaa_0_1, bytes = 2, bound = "every ASCII name of 0 bytes with a port of 1 bytes", |s| {
    with_port::<HostAAA, 0, 1, 2>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_port_aaa_1_0, bytes = 2, bound = "every ASCII name of 1 bytes with a port of 0 bytes", |s| {
    with_port::<HostAAA, 1, 0, 2>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_port_aaa_1_1, bytes = 3, bound = "every ASCII name of 1 bytes with a port of 1 bytes", |s| {
    with_port::<HostAAA, 1, 1, 3>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_port_aaa_1_5, bytes = 7, bound = "every ASCII name of 1 bytes with a port of 5 bytes", |s| {
    with_port::<HostAAA, 1, 5, 7>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_port_aaa_1_6, bytes = 8, bound = "every ASCII name of 1 bytes with a port of 6 bytes", |s| {
    with_port::<HostAAA, 1, 6, 8>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_port_aaa_3_2, bytes = 6, bound = "every ASCII name of 3 bytes with a port of 2 bytes", |s| {
    with_port::<HostAAA, 3, 2, 6>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_port_amm_0_1, bytes = 2, bound = "every ASCII name of 0 bytes with a port of 1 bytes", |s| {
    with_port::<HostAMM, 0, 1, 2>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_port_amm_1_0, bytes = 2, bound = "every ASCII name of 1 bytes with a port of 0 bytes", |s| {
    with_port::<HostAMM, 1, 0, 2>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_port_amm_1_1, bytes = 3, bound = "every ASCII name of 1 bytes with a port of 1 bytes", |s| {
    with_port::<HostAMM, 1, 1, 3>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_port_amm_1_5, bytes = 7, bound = "every ASCII name of 1 bytes with a port of 5 bytes", |s| {
    with_port::<HostAMM, 1, 5, 7>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_port_amm_1_6, bytes = 8, bound = "every ASCII name of 1 bytes with a port of 6 bytes", |s| {
    with_port::<HostAMM, 1, 6, 8>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_port_amm_3_2, bytes = 6, bound = "every ASCII name of 3 bytes with a port of 2 bytes", |s| {
    with_port::<HostAMM, 3, 2, 6>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_port_dad_1_1, bytes = 3, bound = "every ASCII name of 1 bytes with a port of 1 bytes", |s| {
    with_port::<HostDAD, 1, 1, 3>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_port_maa_0_1, bytes = 2, bound = "every ASCII name of 0 bytes with a port of 1 bytes", |s| {
    with_port::<HostMAA, 0, 1, 2>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_port_maa_1_0, bytes = 2, bound = "every ASCII name of 1 bytes with a port of 0 bytes", |s| {
    with_port::<HostMAA, 1, 0, 2>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_port_maa_1_1, bytes = 3, bound = "every ASCII name of 1 bytes with a port of 1 bytes", |s| {
    with_port::<HostMAA, 1, 1, 3>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_port_maa_1_5, bytes = 7, bound = "every ASCII name of 1 bytes with a port of 5 bytes", |s| {
    with_port::<HostMAA, 1, 5, 7>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_port_maa_1_6, bytes = 8, bound = "every ASCII name of 1 bytes with a port of 6 bytes", |s| {
    with_port::<HostMAA, 1, 6, 8>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_port_maa_3_2, bytes = 6, bound = "every ASCII name of 3 bytes with a port of 2 bytes", |s| {
    with_port::<HostMAA, 3, 2, 6>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_tail_aaa_0, bytes = 16, bound = "every IPv6 address in brackets with every ASCII text of 0 bytes behind", |s| {
    tail::<HostAAA, 0>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_tail_aaa_1, bytes = 17, bound = "every IPv6 address in brackets with every ASCII text of 1 bytes behind", |s| {
    tail::<HostAAA, 1>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_tail_aaa_2, bytes = 18, bound = "every IPv6 address in brackets with every ASCII text of 2 bytes behind", |s| {
    tail::<HostAAA, 2>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_tail_aaa_6, bytes = 22, bound = "every IPv6 address in brackets with every ASCII text of 6 bytes behind", |s| {
    tail::<HostAAA, 6>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_tail_dad_1, bytes = 17, bound = "every IPv6 address in brackets with every ASCII text of 1 bytes behind", |s| {
    tail::<HostDAD, 1>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_tail_mmm_0, bytes = 16, bound = "every IPv6 address in brackets with every ASCII text of 0 bytes behind", |s| {
    tail::<HostMMM, 0>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_tail_mmm_2, bytes = 18, bound = "every IPv6 address in brackets with every ASCII text of 2 bytes behind", |s| {
    tail::<HostMMM, 2>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_tail_mmm_6, bytes = 22, bound = "every IPv6 address in brackets with every ASCII text of 6 bytes behind", |s| {
    tail::<HostMMM, 6>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_tail_ada_0, bytes = 16, bound = "every IPv6 address in brackets with every ASCII text of 0 bytes behind", |s| {
    tail::<HostADA, 0>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] q_any_aaa_2, bytes = 2, bound = "every ASCII text of 2 bytes with two colons or a bracket at the start", |s| {
    any::<HostAAA, 2>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] q_any_aaa_4, bytes = 4, bound = "every ASCII text of 4 bytes with two colons or a bracket at the start", |s| {
    any::<HostAAA, 4>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] t_any_aaa_1, bytes = 1, bound = "every ASCII text of 1 bytes with two colons or a bracket at the start", |s| {
    any::<HostAAA, 1>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] t_any_aaa_3, bytes = 3, bound = "every ASCII text of 3 bytes with two colons or a bracket at the start", |s| {
    any::<HostAAA, 3>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] t_any_aaa_5, bytes = 5, bound = "every ASCII text of 5 bytes with two colons or a bracket at the start", |s| {
    any::<HostAAA, 5>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] q_any_mmd_3, bytes = 3, bound = "every ASCII text of 3 bytes with two colons or a bracket at the start", |s| {
    any::<HostMMD, 3>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] t_any_mmd_4, bytes = 4, bound = "every ASCII text of 4 bytes with two colons or a bracket at the start", |s| {
    any::<HostMMD, 4>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] t_any_ama_4, bytes = 4, bound = "every ASCII text of 4 bytes with two colons or a bracket at the start", |s| {
    any::<HostAMA, 4>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_ways_aaa_1, bytes = 1, bound = "every ASCII text of 1 bytes which does not begin with a bracket", |s| {
    ways::<HostAAA, 1>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_ways_aaa_4, bytes = 4, bound = "every ASCII text of 4 bytes which does not begin with a bracket", |s| {
    ways::<HostAAA, 4>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_ways_amm_1, bytes = 1, bound = "every ASCII text of 1 bytes which does not begin with a bracket", |s| {
    ways::<HostAMM, 1>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_ways_amm_4, bytes = 4, bound = "every ASCII text of 4 bytes which does not begin with a bracket", |s| {
    ways::<HostAMM, 4>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_ways_dad_1, bytes = 1, bound = "every ASCII text of 1 bytes which does not begin with a bracket", |s| {
    ways::<HostDAD, 1>(s);
});
harness!(#[kani::unwind(12)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_ways_dad_4, bytes = 4, bound = "every ASCII text of 4 bytes which does not begin with a bracket", |s| {
    ways::<HostDAD, 4>(s);
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_wide_aaa_first, bytes = 1, bound = "every character U+FF01..U+FF3F between nothing and 27.0.0.1", |s| {
    wide::<HostAAA, 11>(s, b"", b"27.0.0.1");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_wide_aaa_last, bytes = 1, bound = "every character U+FF01..U+FF3F between 8.8.8. and nothing", |s| {
    wide::<HostAAA, 9>(s, b"8.8.8.", b"");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_wide_aaa_dot, bytes = 1, bound = "every character U+FF01..U+FF3F between 8.8.8 and 8.", |s| {
    wide::<HostAAA, 10>(s, b"8.8.8", b"8.");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_wide_aaa_label, bytes = 1, bound = "every character U+FF01..U+FF3F between a and nothing", |s| {
    wide::<HostAAA, 4>(s, b"a", b"");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_wide_dad_first, bytes = 1, bound = "every character U+FF01..U+FF3F between nothing and 27.0.0.1", |s| {
    wide::<HostDAD, 11>(s, b"", b"27.0.0.1");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_wide_dad_last, bytes = 1, bound = "every character U+FF01..U+FF3F between 8.8.8. and nothing", |s| {
    wide::<HostDAD, 9>(s, b"8.8.8.", b"");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_wide_dad_dot, bytes = 1, bound = "every character U+FF01..U+FF3F between 8.8.8 and 8.", |s| {
    wide::<HostDAD, 10>(s, b"8.8.8", b"8.");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_wide_dad_label, bytes = 1, bound = "every character U+FF01..U+FF3F between a and nothing", |s| {
    wide::<HostDAD, 4>(s, b"a", b"");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_wide_ama_first, bytes = 1, bound = "every character U+FF01..U+FF3F between nothing and 27.0.0.1", |s| {
    wide::<HostAMA, 11>(s, b"", b"27.0.0.1");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_wide_ama_last, bytes = 1, bound = "every character U+FF01..U+FF3F between 8.8.8. and nothing", |s| {
    wide::<HostAMA, 9>(s, b"8.8.8.", b"");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_wide_ama_dot, bytes = 1, bound = "every character U+FF01..U+FF3F between 8.8.8 and 8.", |s| {
    wide::<HostAMA, 10>(s, b"8.8.8", b"8.");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_wide_ama_label, bytes = 1, bound = "every character U+FF01..U+FF3F between a and nothing", |s| {
    wide::<HostAMA, 4>(s, b"a", b"");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_wide_add_first, bytes = 1, bound = "every character U+FF01..U+FF3F between nothing and 27.0.0.1", |s| {
    wide::<HostADD, 11>(s, b"", b"27.0.0.1");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_wide_add_last, bytes = 1, bound = "every character U+FF01..U+FF3F between 8.8.8. and nothing", |s| {
    wide::<HostADD, 9>(s, b"8.8.8.", b"");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_wide_add_dot, bytes = 1, bound = "every character U+FF01..U+FF3F between 8.8.8 and 8.", |s| {
    wide::<HostADD, 10>(s, b"8.8.8", b"8.");
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub_wide)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_wide_add_label, bytes = 1, bound = "every character U+FF01..U+FF3F between a and nothing", |s| {
    wide::<HostADD, 4>(s, b"a", b"");
});
harness!(#[kani::unwind(13)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_local_mdd_8, bytes = 8, bound = "every ASCII text of 8 bytes without a colon", |s| {
    name::<HostMDD, 8, b't'>(s);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_local_mdd_9, bytes = 9, bound = "every ASCII text of 9 bytes without a colon", |s| {
    name::<HostMDD, 9, 0>(s);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] q_local_mdd_10, bytes = 10, bound = "every ASCII text of 10 bytes without a colon", |s| {
    name::<HostMDD, 10, b't'>(s);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_local_dad_9, bytes = 9, bound = "every ASCII text of 9 bytes without a colon", |s| {
    name::<HostDAD, 9, 0>(s);
});
harness!(#[kani::unwind(13)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] t_local_adm_9, bytes = 9, bound = "every ASCII text of 9 bytes without a colon", |s| {
    name::<HostADM, 9, 0>(s);
});
