//! The grammar of email addresses, written from the documentation, as one pass over the bytes.
use crate::idn;
use crate::net::{Ip, Tri};
use crate::util::st;
use validators::models::Host;

pub const MAX: usize = 24;

pub struct R {
    pub local: String,
    pub quoted: bool,
    pub host: Host,
    /// before and after the local part, before and after the domain part
    pub comments: [Option<String>; 4],
    pub is_local: Option<bool>,
}

pub trait Mail: Sized {
    const COMMENT: bool;
    const IP: Tri;
    const LOCAL: Tri;
    const LABELS: Tri;
    const NON_ASCII: bool;
    fn str_(s: &str) -> Option<R>;
    fn string_(s: &str) -> Option<R>;
    fn validate_(s: &str) -> bool;
    fn write_(r: R) -> String;
}

#[derive(Clone, Copy)]
pub struct Piece {
    pub some: bool,
    pub start: usize,
    pub end: usize,
}
const NONE: Piece = Piece { some: false, start: 0, end: 0 };

pub struct Want {
    pub local: Piece,
    pub quoted: bool,
    pub comments: [Piece; 4],
    pub at: usize,
    pub domain: Piece,
    pub literal: bool,
    pub name: [u8; idn::CAP],
    pub is_local: bool,
}

pub fn atom(c: u8) -> bool {
    c.is_ascii_alphanumeric()
        || c == b'!' || c == b'#' || c == b'$' || c == b'%' || c == b'&' || c == b'\'' || c == b'*' || c == b'+' || c == b'-'
        || c == b'/' || c == b'=' || c == b'?' || c == b'^' || c == b'_' || c == b'`' || c == b'{' || c == b'|' || c == b'}' || c == b'~'
}
/// needs a backslash in quotes
pub fn special(c: u8) -> bool {
    c == b'(' || c == b')' || c == b',' || c == b':' || c == b';' || c == b'<' || c == b'>' || c == b'@' || c == b'[' || c == b']' || c == b'"'
}

fn localhost(b: &[u8]) -> bool {
    let l = b"localhost";
    let mut same = b.len() == 9;
    let mut i = 0;
    while i < 9 && i < b.len() {
        same &= b[i] | 32 == l[i];
        i += 1;
    }
    same
}

const START: u8 = 0;
const COMMENT0: u8 = 1;
const BEFORE: u8 = 2;
const ATOM: u8 = 3;
const DOT: u8 = 4;
const QUOTED: u8 = 5;
const ESCAPED: u8 = 6;
const CLOSED: u8 = 7;
const COMMENT1: u8 = 8;
const AFTER: u8 = 9;
const AT: u8 = 10;
const COMMENT2: u8 = 11;
const HOST: u8 = 12;
const DOMAIN: u8 = 13;
const LITERAL: u8 = 14;
const BRACKET: u8 = 15;
const COMMENT3: u8 = 16;
const END: u8 = 17;
const BAD: u8 = 18;

/// `ip`: the address which a literal stands for; without one every literal is refused. Bytes above 127 may stand in the
/// local part and in comments only.
pub fn judge<T: Mail>(b: &[u8], ip: Option<Ip>, w: &mut Want) -> bool {
    let mut s = START;
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let plain = atom(c) || (c >= 0x80 && T::NON_ASCII);
        s = match s {
            START if c == b'(' && T::COMMENT => {
                w.comments[0] = Piece { some: true, start: i + 1, end: i + 1 };
                COMMENT0
            }
            START | BEFORE => {
                if c == b'"' {
                    w.local = Piece { some: true, start: i + 1, end: i + 1 };
                    QUOTED
                } else {
                    w.local = Piece { some: true, start: i, end: i };
                    if plain { ATOM } else { BAD }
                }
            }
            COMMENT0 => {
                w.comments[0].end = i;
                if c == b')' { BEFORE } else { COMMENT0 }
            }
            ATOM | DOT => {
                w.local.end = i;
                if plain {
                    ATOM
                } else if s == DOT {
                    BAD
                } else if c == b'.' {
                    DOT
                } else if c == b'@' {
                    w.at = i;
                    AT
                } else if c == b'(' && T::COMMENT {
                    w.comments[1] = Piece { some: true, start: i + 1, end: i + 1 };
                    COMMENT1
                } else {
                    BAD
                }
            }
            QUOTED => {
                w.local.end = i;
                if c == b'"' {
                    if w.local.start < i { CLOSED } else { BAD }
                } else if c == b'\\' {
                    ESCAPED
                } else if plain || c == b'.' || c == b' ' || c == b'\t' {
                    QUOTED
                } else {
                    BAD
                }
            }
            ESCAPED => {
                if plain || special(c) || c == b'\\' || c == b'.' || c == b' ' || c == b'\t' { QUOTED } else { BAD }
            }
            CLOSED | AFTER => {
                if c == b'@' {
                    w.at = i;
                    AT
                } else if c == b'(' && s == CLOSED && T::COMMENT {
                    w.comments[1] = Piece { some: true, start: i + 1, end: i + 1 };
                    COMMENT1
                } else {
                    BAD
                }
            }
            COMMENT1 => {
                w.comments[1].end = i;
                if c == b')' { AFTER } else { COMMENT1 }
            }
            AT | HOST => {
                if c == b'(' {
                    if s == AT && T::COMMENT {
                        w.comments[2] = Piece { some: true, start: i + 1, end: i + 1 };
                        COMMENT2
                    } else {
                        BAD
                    }
                } else if c == b'[' {
                    w.literal = true;
                    w.domain = Piece { some: true, start: i + 1, end: i + 1 };
                    LITERAL
                } else {
                    w.domain = Piece { some: true, start: i, end: i + 1 };
                    DOMAIN
                }
            }
            COMMENT2 => {
                w.comments[2].end = i;
                if c == b')' { HOST } else { COMMENT2 }
            }
            DOMAIN => {
                if c == b'(' {
                    if T::COMMENT {
                        w.comments[3] = Piece { some: true, start: i + 1, end: i + 1 };
                        COMMENT3
                    } else {
                        BAD
                    }
                } else {
                    w.domain.end = i + 1;
                    DOMAIN
                }
            }
            LITERAL => {
                w.domain.end = i;
                if c == b']' { BRACKET } else { LITERAL }
            }
            BRACKET => {
                if c == b'(' && T::COMMENT {
                    w.comments[3] = Piece { some: true, start: i + 1, end: i + 1 };
                    COMMENT3
                } else {
                    BAD
                }
            }
            COMMENT3 => {
                w.comments[3].end = i;
                if c == b')' { END } else { COMMENT3 }
            }
            _ => BAD,
        };
        i += 1;
    }
    let mut ok = s == DOMAIN || s == BRACKET || s == END;
    ok &= w.at <= 64 && b.len() <= w.at + 256 && b.len() <= 320;
    // quotes are needed unless the text is a dot-atom
    let mut dot = true;
    let mut quoted = false;
    let mut i = 0;
    while i < b.len() {
        if i >= w.local.start && i < w.local.end {
            let c = b[i];
            quoted |= (c == b'.' && dot) || !(c == b'.' || c >= 0x80 || atom(c));
            dot = c == b'.';
        }
        i += 1;
    }
    w.quoted = quoted || dot;
    if w.literal {
        ok &= T::IP != Tri::Disallow && T::LABELS != Tri::Disallow && ip.is_some();
        w.is_local = match ip {
            Some(ip) => ip.local(),
            None => false,
        };
    } else {
        ok &= T::IP != Tri::Must;
        let mut dots = 0;
        let mut i = 0;
        while i < b.len() {
            dots += (i >= w.domain.start && i < w.domain.end && b[i] == b'.') as usize;
            i += 1;
        }
        let d = if ok { &b[w.domain.start..w.domain.end] } else { &b[..0] };
        ok &= idn::ascii(idn::STRICT, d, &mut w.name);
        ok &= d.len() > 0 && d[d.len() - 1] != b'.';
        w.is_local = localhost(&w.name[..d.len()]);
        ok &= w.is_local || T::LABELS == Tri::Allow || (T::LABELS == Tri::Must) == (dots > 0);
    }
    ok && (T::LOCAL == Tri::Allow || (T::LOCAL == Tri::Must) == w.is_local)
}

pub fn want() -> Want {
    Want { local: NONE, quoted: false, comments: [NONE; 4], at: 0, domain: NONE, literal: false, name: [0; idn::CAP], is_local: false }
}

fn same(a: &str, b: &[u8], p: Piece) -> bool {
    let a = a.as_bytes();
    let mut same = p.some && a.len() == p.end - p.start;
    let mut i = 0;
    while i < b.len() {
        if i >= p.start && i < p.end && same {
            same &= a[i - p.start] == b[i];
        }
        i += 1;
    }
    same
}

pub fn equal(r: &R, b: &[u8], ip: Option<Ip>, w: &Want) -> bool {
    let host = match &r.host {
        Host::IPv4(a) => w.literal && Some(Ip::V4(u32::from(*a))) == ip,
        Host::IPv6(a) => w.literal && Some(Ip::V6(u128::from(*a))) == ip,
        Host::Domain(n) => !w.literal && same(n, &w.name[..b.len()], Piece { some: true, start: 0, end: w.domain.end - w.domain.start }),
    };
    let mut ok = host && same(&r.local, b, w.local) && r.quoted == w.quoted;
    let mut i = 0;
    while i < 4 {
        ok &= match &r.comments[i] {
            Some(c) => same(c, b, w.comments[i]),
            None => !w.comments[i].some,
        };
        i += 1;
    }
    ok && match r.is_local {
        Some(x) => x == w.is_local,
        None => true,
    }
}

pub fn compare<T: Mail>(b: &[u8], ip: Option<Ip>) -> bool {
    let mut w = want();
    let ok = judge::<T>(b, ip, &mut w);
    let r = T::str_(st(b));
    match &r {
        Some(r) => {
            assert!(ok, "only what the grammar and the policies admit is accepted");
            assert!(equal(r, b, ip, &w), "local part, quotes, domain part, comments and classification are those of the text");
        }
        None => assert!(!ok, "what the grammar and the policies admit is accepted"),
    }
    ok
}

macro_rules! mail {
    // comments, address kind, flag
    ($name:ident, $attr:meta, $ip:ident, $local:ident, $labels:ident, $na:expr, $host:ty, |$h:ident| $to:expr, |$d:ident| $from:expr, comments, $($flag:ident)?) => {
        #[derive(Validator)]
        #[$attr]
        pub struct $name {
            pub local_part: String,
            pub need_quoted: bool,
            pub domain_part: $host,
            pub comment_before_local_part: Option<String>,
            pub comment_after_local_part: Option<String>,
            pub comment_before_domain_part: Option<String>,
            pub comment_after_domain_part: Option<String>,
            $(pub $flag: bool,)?
        }
        impl $name {
            fn r(v: $name) -> crate::mail::R {
                let $h = v.domain_part;
                let mut is_local = None;
                $(is_local = Some(v.$flag);)?
                crate::mail::R { local: v.local_part, quoted: v.need_quoted, host: $to, is_local,
                    comments: [v.comment_before_local_part, v.comment_after_local_part, v.comment_before_domain_part, v.comment_after_domain_part] }
            }
        }
        impl crate::mail::Mail for $name {
            const COMMENT: bool = true;
            mail!(@consts $ip, $local, $labels, $na);
            mail!(@ways $name);
            fn write_(r: crate::mail::R) -> String {
                let $d = r.host;
                let [a, b, c, d] = r.comments;
                let _is_local = r.is_local;
                $name { local_part: r.local, need_quoted: r.quoted, domain_part: $from, comment_before_local_part: a, comment_after_local_part: b,
                    comment_before_domain_part: c, comment_after_domain_part: d, $($flag: _is_local.is_some(),)? }.to_email_string()
            }
        }
    };
    ($name:ident, $attr:meta, $ip:ident, $local:ident, $labels:ident, $na:expr, $host:ty, |$h:ident| $to:expr, |$d:ident| $from:expr, plain, $($flag:ident)?) => {
        #[derive(Validator)]
        #[$attr]
        pub struct $name {
            pub local_part: String,
            pub need_quoted: bool,
            pub domain_part: $host,
            $(pub $flag: bool,)?
        }
        impl $name {
            fn r(v: $name) -> crate::mail::R {
                let $h = v.domain_part;
                let mut is_local = None;
                $(is_local = Some(v.$flag);)?
                crate::mail::R { local: v.local_part, quoted: v.need_quoted, host: $to, is_local, comments: [None, None, None, None] }
            }
        }
        impl crate::mail::Mail for $name {
            const COMMENT: bool = false;
            mail!(@consts $ip, $local, $labels, $na);
            mail!(@ways $name);
            fn write_(r: crate::mail::R) -> String {
                let $d = r.host;
                let _is_local = r.is_local;
                $name { local_part: r.local, need_quoted: r.quoted, domain_part: $from, $($flag: _is_local.is_some(),)? }.to_email_string()
            }
        }
    };
    (@consts $ip:ident, $local:ident, $labels:ident, $na:expr) => {
        const IP: crate::net::Tri = crate::net::Tri::$ip;
        const LOCAL: crate::net::Tri = crate::net::Tri::$local;
        const LABELS: crate::net::Tri = crate::net::Tri::$labels;
        const NON_ASCII: bool = $na;
    };
    (@ways $name:ident) => {
        fn str_(s: &str) -> Option<crate::mail::R> {
            $name::parse_str(s).ok().map($name::r)
        }
        fn string_(s: &str) -> Option<crate::mail::R> {
            $name::parse_string(s).ok().map($name::r)
        }
        fn validate_(s: &str) -> bool {
            $name::validate_str(s).is_ok()
        }
    };
}
