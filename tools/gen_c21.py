#!/usr/bin/env python3
"""Writing an email address and reading it back, for the twelve shapes of the type."""
from gen_mail import *
o = []
T = ["Mail%s%s%sD" % (c, i, lt) for c in "AD" for i in "ADM" for lt in ("AM", "AA")]
for t in T: o.append(mail(t))
o.append("""
struct Value<'a> {
    local: &'a [u8],
    quoted: bool,
    host: Option<Ip>,
    domain: &'a [u8],
    comments: [Option<&'a [u8]>; 4],
}
fn put(t: &mut Vec<u8>, c: Option<&[u8]>) {
    if let Some(c) = c {
        t.push(b'(');
        t.extend_from_slice(c);
        t.push(b')');
    }
}
/// the address as the documentation writes it
fn spell(v: &Value) -> Vec<u8> {
    let mut t = Vec::with_capacity(64);
    put(&mut t, v.comments[0]);
    if v.quoted {
        t.push(b'"');
    }
    t.extend_from_slice(v.local);
    if v.quoted {
        t.push(b'"');
    }
    put(&mut t, v.comments[1]);
    t.push(b'@');
    put(&mut t, v.comments[2]);
    match v.host {
        Some(ip) => {
            t.push(b'[');
            if let Ip::V6(_) = ip {
                t.extend_from_slice(b"IPv6:");
            }
            t.extend_from_slice(ip_text(ip).as_bytes());
            t.push(b']');
        }
        None => t.extend_from_slice(v.domain),
    }
    put(&mut t, v.comments[3]);
    t
}
fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    let mut same = a.len() == b.len();
    let mut i = 0;
    while same && i < b.len() {
        same &= a[i] == b[i];
        i += 1;
    }
    same
}
fn written<T: Mail>(v: Value) {
    let text = spell(&v);
    let own = |b: &[u8]| String::from(st(b));
    let host = match v.host {
        Some(Ip::V4(a)) => Host::IPv4(a.into()),
        Some(Ip::V6(a)) => Host::IPv6(a.into()),
        None => Host::Domain(own(v.domain)),
    };
    let c = v.comments;
    let r = R { local: own(v.local), quoted: v.quoted, host, comments: [c[0].map(own), c[1].map(own), c[2].map(own), c[3].map(own)], is_local: None };
    assert!(bytes_eq(T::write_(r).as_bytes(), &text), "the address which is written is made of the parts of the value");
}
fn read<T: Mail>(v: Value) {
    let text = spell(&v);
    match T::str_(st(&text)) {
        None => assert!(false, "the text of a value is accepted"),
        Some(r) => {
            let host = match &r.host {
                Host::IPv4(a) => v.host == Some(Ip::V4(u32::from(*a))),
                Host::IPv6(a) => v.host == Some(Ip::V6(u128::from(*a))),
                Host::Domain(n) => v.host.is_none() && bytes_eq(n.as_bytes(), v.domain),
            };
            assert!(host, "the domain part is read back");
            assert!(bytes_eq(r.local.as_bytes(), v.local) && r.quoted == v.quoted, "the local part is read back");
            let mut ok = true;
            let mut i = 0;
            while i < 4 {
                ok &= match (&r.comments[i], v.comments[i]) {
                    (Some(a), Some(b)) => bytes_eq(a.as_bytes(), b),
                    (None, None) => true,
                    _ => false,
                };
                i += 1;
            }
            assert!(ok, "the comments are read back");
            if let (Some(l), Some(ip)) = (r.is_local, v.host) {
                assert!(l == ip.local(), "the classification is read back");
            }
        }
    }
}
const NO: [Option<&'static [u8]>; 4] = [None; 4];
const ALL_OF_THEM: [Option<&'static [u8]>; 4] = [Some(b"c"), Some(b"dd"), Some(b""), Some(b"(e")];
fn ip<T: Mail>(s: &mut Src, six: bool) -> Option<Ip> {
    match (T::IP, six) {
        (Tri::Disallow, _) => None,
        (_, false) => Some(Ip::V4(s.u32())),
        (_, true) => Some(Ip::V6(s.u128())),
    }
}
/// everything arbitrary at once
fn writes<T: Mail>(s: &mut Src) {
    let l = s.ascii::<3>();
    let d = s.ascii::<2>();
    let c = s.ascii::<4>();
    let five = ip::<T>(s, false);
    let six = ip::<T>(s, true);
    let name = if T::IP == Tri::Must { five } else { None };
    written::<T>(Value { local: &l, quoted: false, host: name, domain: &d, comments: NO });
    written::<T>(Value { local: &l[..2], quoted: true, host: five, domain: &d, comments: NO });
    if T::COMMENT {
        written::<T>(Value { local: &l[..1], quoted: true, host: six, domain: &d, comments: [Some(&c[..1]), Some(&c[1..2]), Some(&c[2..3]), Some(&c[3..])] });
        written::<T>(Value { local: &l, quoted: false, host: name, domain: &d, comments: [Some(&c[..2]), None, Some(&c[2..2]), None] });
        written::<T>(Value { local: &l, quoted: false, host: five, domain: &d, comments: [None, Some(&c[..2]), None, Some(&c[2..2])] });
    } else {
        written::<T>(Value { local: &l, quoted: false, host: six, domain: &d, comments: NO });
    }
}
/// texts without an arbitrary byte apart from the address
fn addresses<T: Mail>(s: &mut Src) {
    let five = ip::<T>(s, false);
    let six = ip::<T>(s, true);
    read::<T>(Value { local: b"a", quoted: false, host: five, domain: b"xn--a-ga.y", comments: NO });
    read::<T>(Value { local: b".", quoted: true, host: six, domain: b"localhost", comments: if T::COMMENT { ALL_OF_THEM } else { NO } });
}
/// the part which holds the arbitrary byte
fn part<T: Mail>(s: &mut Src, which: u8) {
    let x = s.within(0, 127);
    let five = if T::IP == Tri::Must { ip::<T>(s, false) } else { None };
    let mut v = Value { local: b"a", quoted: false, host: five, domain: b"x.y", comments: NO };
    let dotted = [b'a', b'.', x];
    let quoted = [x, b'b'];
    let escaped = [b'\\\\', x];
    let domain = [b'x', x, b'.', b'y'];
    let comment = [b'c', x];
    match which {
        0 => {
            kani::assume(atom(x));
            v.local = &dotted;
        }
        1 => {
            kani::assume(x == b'.' || x == b' ' || x == b'\\t');
            v.local = &quoted;
            v.quoted = true;
        }
        2 => {
            kani::assume(special(x) || atom(x) || x == b'\\\\' || x == b'.' || x == b' ' || x == b'\\t');
            v.local = &escaped;
            v.quoted = true;
        }
        3 => {
            kani::assume(x.is_ascii_lowercase() || x.is_ascii_digit());
            v.domain = &domain;
        }
        _ => {
            kani::assume(x != b')');
            v.comments[(which - 4) as usize] = Some(&comment);
        }
    }
    read::<T>(v);
}
""")
PARTS = {0: ("dotted", "a dot-atom which ends with an arbitrary byte"), 1: ("quoted", "a quoted local part with an arbitrary dot, space or tab"),
         2: ("escaped", "a quoted local part with an arbitrary escaped byte"), 3: ("domain", "a domain with an arbitrary letter or digit"),
         4: ("c1", "an arbitrary byte in a comment before the local part"), 5: ("c2", "an arbitrary byte in a comment after the local part"),
         6: ("c3", "an arbitrary byte in a comment before the domain part"), 7: ("c4", "an arbitrary byte in a comment after the domain part")}
for t in T:
    i = t[4:8].lower()
    o.append(harness(ALL, 30, "q_write_" + i, 29, "every local part of up to 3 bytes, domain of 2 bytes, comments of up to 2 bytes and every address", "writes::<%s>(s)" % t))
    o.append(harness(ALL, 36, "q_read_" + i, 20, "every address with and without comments", "addresses::<%s>(s)" % t))
    for k, (name, bound) in PARTS.items():
        if k == 4 or k >= 4 and t[4] == "D" or k == 3 and t[5] == "M": continue
        q = "t" if t[6:8] == "AA" else "q" if k != 0 or t[5] != "M" else "t"
        o.append(harness(ALL, 20, "%s_%s_%s" % (q, name, i), 5 if t[5] == "M" else 1, bound, "part::<%s>(s, %d)" % (t, k)))
o[0] = "#[cfg(not(kani))]\nuse crate::kani;\n" + o[0]
write("c21", "\n".join(o))
