#!/usr/bin/env python3
"""Deserializing compared with parsing, serializing with what deserializing reads."""
import os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src")
HEAD = r'''// Written by tools/gen_c22.py
use validators::models::Host;
use validators::prelude::*;
use validators::serde;
use validators::serde::de::{value, DeserializeOwned, IntoDeserializer};

#[cfg(not(kani))]
use crate::kani;
use crate::nope::{Buf, Keep, Kept, Nope};
#[cfg(kani)]
use crate::net::stub;
use crate::net::{ip_text, port_text, Ip};
use crate::util::{st, Src};

/// any expression: it matches what the harness wants
pub struct Expression;
pub static EXPRESSION: Expression = Expression;
static mut MATCHES: bool = false;
impl Expression {
    pub fn is_match(&self, _s: &str) -> bool {
        unsafe { MATCHES }
    }
}

/// the value is read back from what it is serialized to
fn back<T: serde::Serialize + DeserializeOwned + PartialEq>(v: &T) -> Kept {
    match v.serialize(Keep) {
        Ok(k) => {
            match T::deserialize(k) {
                Ok(w) => assert!(*v == w, "a value is read back from what it is serialized to"),
                Err(_) => assert!(false, "what a value is serialized to is read back"),
            }
            k
        },
        Err(_) => {
            assert!(false, "a value is serialized");
            unreachable!()
        },
    }
}
fn same<T: PartialEq>(parsed: &Option<T>, read: Result<T, Nope>) {
    assert!(*parsed == read.ok(), "deserializing gives what parsing gives");
}
fn strings<T: ValidateString + DeserializeOwned + PartialEq>(t: &str) -> Option<T> {
    let p = T::parse_str(t).ok();
    same(&p, T::deserialize(value::StrDeserializer::<Nope>::new(t)));
    same(&p, T::deserialize(value::BorrowedStrDeserializer::<Nope>::new(t)));
    same(&p, T::deserialize(value::StringDeserializer::<Nope>::new(String::from(t))));
    p
}
fn bytes<T: ValidateBytes + DeserializeOwned + PartialEq>(b: &[u8]) {
    let p = T::parse_u8_slice(b).ok();
    same(&p, T::deserialize(value::BytesDeserializer::<Nope>::new(b)));
    same(&p, T::deserialize(Buf(b.to_vec())));
}
/// a text of the given one with one arbitrary byte
fn at<const N: usize>(s: &mut Src, base: &[u8; N], k: usize) -> [u8; N] {
    let mut b = *base;
    b[k] = s.within(0, 127);
    b
}
/// for types which read texts only
fn text_only<T: ValidateString + DeserializeOwned + PartialEq>(t: &str) {
    let p = T::parse_str(t).ok();
    same(&p, T::deserialize(value::StrDeserializer::<Nope>::new(t)));
}
fn owned_only<T: ValidateString + DeserializeOwned + PartialEq>(t: &str) {
    let p = T::parse_str(t).ok();
    same(&p, T::deserialize(value::StringDeserializer::<Nope>::new(String::from(t))));
}
/// a value is written, serialized as it is written, and read back
fn written<T: serde::Serialize + DeserializeOwned + PartialEq>(v: T, t: String) {
    match v.serialize(Keep) {
        Ok(k) => {
            assert!(k.is_text(&t), "what is written is serialized");
            match T::deserialize(value::StrDeserializer::<Nope>::new(&t)) {
                Ok(w) => assert!(v == w, "a value is read back from what it is serialized to"),
                Err(_) => assert!(false, "what a value is serialized to is read back"),
            }
        },
        Err(_) => assert!(false, "a value is serialized"),
    }
}
/// an address and perhaps a port
fn address(s: &mut Src, six: bool) -> std::net::IpAddr {
    let ip = s.u128();
    let ip = if six { Ip::V6(ip) } else { Ip::V4(ip as u32) };
    ip_text(ip);
    ip.std()
}
fn some_port(s: &mut Src, with: bool) -> Option<u16> {
    let p = s.u16();
    port_text(p);
    if with { Some(p) } else { None }
}
fn v4(ip: std::net::IpAddr) -> std::net::Ipv4Addr {
    match ip {
        std::net::IpAddr::V4(ip) => ip,
        _ => unreachable!(),
    }
}
fn v6(ip: std::net::IpAddr) -> std::net::Ipv6Addr {
    match ip {
        std::net::IpAddr::V6(ip) => ip,
        _ => unreachable!(),
    }
}
/// a name of two letters
fn name(s: &mut Src) -> String {
    let b = [s.within(b'a', b'z'), s.within(b'a', b'z')];
    String::from(st(&b))
}
/// texts which are serialized as they are
fn plain<T: ValidateString + serde::Serialize + DeserializeOwned + PartialEq>(t: &str) {
    if let Some(v) = strings::<T>(t) {
        assert!(back(&v).is_text(t), "a text is serialized as it is");
    }
}
'''
o = []
T = []
def t(name, attr, body, extra=""):
    T.append("#[derive(Validator, PartialEq)]\n#[validator(%s)]\npub struct %s%s%s" % (attr, name, body, "" if body.endswith("}") else ";"))
def h(name, n, bound, body, unwind=8, stubs=()):
    st = "".join(" #[kani::stub(%s)]" % x for x in stubs)
    o.append('harness!(#[kani::unwind(%d)]%s %s, bytes = %d, bound = "%s", |s| {\n    %s\n});' % (unwind, st, name, n, bound, body))
MEM = "core::slice::memchr::memchr, crate::util::memstub::memchr"
SLI = "core::str::slice_error_fail_rt, crate::util::memstub::slice_error"
IDNA = "idna::Config::to_ascii, crate::idn::stub"

# integers
for w in (8, 16, 32, 64, 128, "size"):
    n = {"size": 64}.get(w, w)
    t("S%s" % w, "signed_integer(range(Inside(min = -100, max = 27)))", "(pub i%s)" % w)
    t("Su%s" % w, "signed_integer(range(Unlimited))", "(pub i%s)" % w)
    t("U%s" % w, "unsigned_integer(range(Outside(min = 3, max = 200)))", "(pub u%s)" % w)
    t("Uu%s" % w, "unsigned_integer(range(Unlimited))", "(pub u%s)" % w)
    for ty in ("S", "Su", "U", "Uu"):
        sg = ty[0] == "S"
        body = "let x = s.u128();\n"
        for p in ("i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128"):
            wide = "i128" if sg else "u128"
            body += "    let v = x as %s;\n    same(&%s::try_from(v).ok().and_then(|v| %s%s::parse_%s(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));\n" % (p, wide, ty, w, wide)
        body += "    if let Ok(v) = %s%s::parse_%s(x as %s) {\n        let k = back(&v);\n        assert!(k == %s(x as %s), \"a number is serialized as it is\");\n    }" % (ty, w, wide, wide, "Kept::Signed" if sg else "Kept::Unsigned", wide)
        h("q_int_%s%s" % (ty.lower(), w), 16, "every number of every width", body)
for f in (32, 64):
    for nm, at in (("N%d" % f, "number(nan(Disallow), range(Inside(min = -1.5, max = 100.25)))"), ("Nu%d" % f, "number(nan(Allow), range(Unlimited))"), ("Nm%d" % f, "number(nan(Must))")):
        # NaN is not equal to itself: compare by bits
        T.append("#[derive(Validator)]\n#[validator(%s)]\npub struct %s(pub f%d);\nimpl PartialEq for %s {\n    fn eq(&self, o: &Self) -> bool {\n        self.0.to_bits() == o.0.to_bits() || (self.0.is_nan() && o.0.is_nan())\n    }\n}" % (at, nm, f, nm))
        body = "let x = s.u64();\n"
        for p in ("f64::from_bits(x)", "f32::from_bits(x as u32)", "x", "x as i64", "x as u32", "x as i32", "x as u16", "x as i8"):
            body += "    let v = %s;\n    same(&%s::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));\n" % (p, nm)
        body += "    if let Ok(v) = %s::parse_f64(f64::from_bits(x)) {\n        back(&v);\n    }" % nm
        h("q_number_%s" % nm.lower(), 8, "every f32, f64 and integer up to 64 bits", body)
t("B", "boolean", "(pub bool)")
body = "let x = s.u128();\n    let v = s.bool();\n    same(&B::parse_bool(v).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));\n    let c = s.char();\n    same(&B::parse_char(c).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(c)));\n"
for p in ("i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128"):
    body += "    let v = x as %s;\n    same(&B::parse_%s(v).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));\n" % (p, p)
body += "    if let Ok(v) = B::parse_bool(v) {\n        assert!(back(&v) == Kept::Bool(v.0), \"a boolean is serialized as it is\");\n    }"
h("q_boolean", 21, "every bool, char and integer", body.replace("if let Ok(v) = B::parse_bool(v)", "if let Ok(v) = B::parse_u128(x)"))
for n in (1, 2, 3, 4, 5):
    h("q_boolean_text_%d" % n, n, "every ASCII text of %d bytes" % n, "let b = s.ascii::<%d>();\n    strings::<B>(st(&b));" % n, 10)

# texts
t("Txt", "text(char_length(trimmed_min = 1, max = 1))", "(pub String)")
t("Lin", "line(char_length(trimmed_min = 1, max = 1))", "(pub String)")
for ty in ("Txt", "Lin"):
    for n in (1, 2):
        h("%s_%s_%d" % ("t" if (ty, n) == ("Lin", 2) else "q", ty.lower(), n), n, "every ASCII text of %d bytes" % n, "let b = s.ascii::<%d>();\n    plain::<%s>(st(&b));" % (n, ty), 10)
for k in ("base32", "base64", "base64_url"):
    ty = k.title().replace("_", "")
    t(ty, "%s(padding(Allow))" % k, "(pub String)")
    t(ty + "D", "%s_decoded(padding(Allow))" % k, "(pub Vec<u8>)")
    n = 8 if k == "base32" else 4
    h("q_%s" % k, n, "every ASCII text and byte string of %d bytes" % n, "let b = s.ascii::<%d>();\n    plain::<%s>(st(&b));\n    bytes::<%s>(&b);" % (n, ty, ty), n + 2, [MEM])
    n = 2
    h("q_%s_decoded" % k, n, "every ASCII text and byte string of %d bytes" % n, "let b = s.ascii::<%d>();\n    strings::<%sD>(st(&b));\n    bytes::<%sD>(&b);" % (n, ty, ty), 10, [MEM])
t("Re", "regex(regex = EXPRESSION)", "(pub String)")
h("q_regex", 4, "every ASCII text of 3 bytes, matched or not", "unsafe { MATCHES = s.bool() };\n    let b = s.ascii::<3>();\n    plain::<Re>(st(&b));", 8)
# hexadecimal
t("Mac", "mac_address(case(Upper), separator(Disallow))", "(pub u64)")
t("Uuid", "uuid(case(Upper), separator(Disallow))", "(pub u128)")
FMT = "alloc::fmt::format, crate::util::fmtstub::format"
for ty, base, ks in (("Mac", "080027B46A3F", (0, 11)), ("Uuid", "2B1F7F2A0C5D4E8A9B3C6D7E8F901234", (0, 31,))):
    for k in ks:
        h("q_%s_%d_at_%d" % (ty.lower(), len(base), k), 1, "%s with any byte at position %d" % (base, k), 'let b = at(s, b"%s", %d);\n    text_only::<%s>(st(&b));' % (base, k, ty), 2 + len(base))
t("MacW", "mac_address(case(Any), separator(Allow(b':')))", "(pub u64)")
t("UuidW", "uuid(case(Any), separator(Allow(b'-')))", "(pub u128)")
for ty, k in (("MacW", "mac_address"), ("UuidW", "uuid")):
    h("q_%s_written" % ty.lower(), 16, "every value", "let v = %s(s.u%d()%s);\n    let t = v.to_%s_string();\n    match serde::Serialize::serialize(&v, Keep) {\n        Ok(k) => assert!(k.is_text(&t), \"what is written is serialized\"),\n        Err(_) => assert!(false, \"a value is serialized\"),\n    }" % (ty, 64 if ty == "MacW" else 128, " & 0xffff_ffff_ffff" if ty == "MacW" else "", k), 40, [FMT])
# addresses and names
NET = [MEM]
t("TyI4", "ipv4(local(Allow), port(Allow))", "{\n    pub ipv4: std::net::Ipv4Addr,\n    pub port: Option<u16>,\n}")
t("TyI6", "ipv6(local(Allow), port(Allow))", "{\n    pub ipv6: std::net::Ipv6Addr,\n    pub port: Option<u16>,\n}")
t("TyI", "ip(local(Allow), port(Allow))", "{\n    pub ip: std::net::IpAddr,\n    pub port: Option<u16>,\n}")
t("TyD", "domain(ipv4(Allow), local(Allow), at_least_two_labels(Allow), port(Allow))", "{\n    pub domain: String,\n    pub port: Option<u16>,\n}")
t("TyH", "host(local(Allow), at_least_two_labels(Allow), port(Allow))", "{\n    pub host: Host,\n    pub port: Option<u16>,\n}")
t("TyE", "email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow))", "{\n    pub local_part: String,\n    pub need_quoted: bool,\n    pub domain_part: Host,\n    pub comment_before_local_part: Option<String>,\n    pub comment_after_local_part: Option<String>,\n    pub comment_before_domain_part: Option<String>,\n    pub comment_after_domain_part: Option<String>,\n}")
TOK = ["<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4", "<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6"]
TOKP = ["<u16 as core::str::FromStr>::from_str, stub::token_port"]
SHOW = ["<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4", "<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6"]
SHOWP = ["<u16 as core::fmt::Display>::fmt, stub::show_port"]
# one byte of the text is arbitrary; addresses and ports are tokens
for ty, base, pos in (("TyD", "a.bc:432", (0, 4)), ("TyD", "a.bc", (2,)), ("TyH", "a.bc:432", (0, 4)), ("TyE", "ab@c.d", (0, 2, 5))):
    for k in pos:
        for fn, f in (("text", "text_only"), ("owned", "owned_only")):
            if fn == "owned" and (ty != "TyD" or k == 2): continue
            h("q_%s_%s_%d_at_%d" % (ty.lower(), fn, len(base), k), 3, "%s with any byte at position %d" % (base, k), 'some_port(s, true);\n    let b = at(s, b"%s", %d);\n    %s::<%s>(st(&b));' % (base, k, f, ty), 14, [MEM, IDNA] + TOK + TOKP + [SLI])
for ty, six, tx in (("TyI4", 0, "ADDR:PORT"), ("TyI6", 1, "[ADDR]:PORT"), ("TyI", 0, "ADDR:PORT"), ("TyI", 1, "[ADDR]"), ("TyH", 0, "ADDR:PORT"), ("TyH", 1, "[ADDR]"), ("TyD", 0, "ADDR:PORT"), ("TyE", 0, "a@[ADDR]")):
    body = """let ip = s.u128();
    let a = ip_text(%s);
    let p = port_text(s.u16());
    let mut t = String::from("%s");
    t.push_str(&a);
    t.push_str("%s");
    %s
    text_only::<%s>(&t);""" % ("Ip::V6(ip)" if six else "Ip::V4(ip as u32)", tx.split("ADDR")[0], tx.split("ADDR")[1].replace("PORT", ""), "t.push_str(&p);" if "PORT" in tx else "", ty)
    h("q_%s_address_%d" % (ty.lower(), 6 if six else 4), 18, "every %s" % tx, body, 18, [MEM, IDNA] + TOK + TOKP + [SLI])
for port in (False, True):
    pt = "true" if port else "false"
    S = [MEM, IDNA] + TOK + TOKP + SHOW + SHOWP + [FMT, SLI]
    w = "q_%s%s_written"
    for ty, six, mk in (("TyI4", 0, "ipv4: v4(ip)"), ("TyI6", 1, "ipv6: v6(ip)"), ("TyI", 0, "ip"), ("TyI", 1, "ip"), ("TyH", 0, "host: Host::IPv4(v4(ip))"), ("TyH", 1, "host: Host::IPv6(v6(ip))")):
        h("%s_%s_written_%d%s" % ("q" if port or ty in ("TyI4", "TyI6") else "t", ty.lower(), 6 if six else 4, "_port" if port else ""), 18, "every address" + (" and port" if port else ""), "let ip = address(s, %s);\n    let v = %s { %s, port: some_port(s, %s) };\n    let t = v.to_uri_authority_string().into_owned();\n    written(v, t);" % ("true" if six else "false", ty, mk, pt), 18, S)
    for ty, mk in (("TyD", "domain: name(s)"), ("TyH", "host: Host::Domain(name(s))")):
        h("q_%s_written_name%s" % (ty.lower(), "_port" if port else ""), 4, "every name of two letters" + (" and port" if port else ""), "let v = %s { %s, port: some_port(s, %s) };\n    let t = v.to_uri_authority_string().into_owned();\n    written(v, t);" % (ty, mk, pt), 18, S)
S = [MEM, IDNA] + TOK + SHOW + [FMT, SLI]
for nm, mk, host in (("name", "", "Host::Domain(name(s))"), ("4", "let ip = address(s, false);\n    ", "Host::IPv4(v4(ip))"), ("6", "let ip = address(s, true);\n    ", "Host::IPv6(v6(ip))")):
    h("q_tye_written_" + nm, 24, "every local part of two letters, and every such domain part", mk + "let v = TyE { local_part: name(s), need_quoted: false, domain_part: %s, comment_before_local_part: None, comment_after_local_part: None, comment_before_domain_part: None, comment_after_domain_part: None };\n    let t = v.to_email_string();\n    match serde::Serialize::serialize(&v, Keep) {\n        Ok(k) => assert!(k.is_text(&t), \"what is written is serialized\"),\n        Err(_) => assert!(false, \"a value is serialized\"),\n    }" % host, 24, S)
# length
t("L", "length(min = 2, max = 4)", "(pub Counted)")
L = """/// a collection which is its length
#[derive(PartialEq)]
pub struct Counted(usize);
impl CollectionLength for Counted {
    fn len(&self) -> usize {
        self.0
    }
}
impl serde::Serialize for Counted {
    fn serialize<S: serde::Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        z.serialize_u64(self.0 as u64)
    }
}
impl<'de> serde::Deserialize<'de> for Counted {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        <u128 as serde::Deserialize>::deserialize(d).map(|n| Counted(n as usize))
    }
}"""
h("q_length", 8, "every length", """let n = s.u64();
    let p = L::parse_collection(Counted(n as usize)).ok();
    same(&p, serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(n)));
    if let Some(v) = p {
        assert!(back(&v) == Kept::Unsigned(n as u128), "a collection is serialized as it is");
    }""")
open(os.path.join(R, "c22.rs"), "w").write(HEAD + L + "\n" + "\n".join(T) + "\n" + "\n".join(o) + "\n")
