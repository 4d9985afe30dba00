#!/usr/bin/env python3
"""Every way of asking a validator compared with every other."""
import os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src")
HEAD = r'''// Written by tools/gen_c24.py
use validators::models::Host;
use validators::prelude::*;

#[cfg(not(kani))]
use crate::kani;
#[cfg(kani)]
use crate::net::stub;
use crate::net::{ip_text, port_text, Ip};
use crate::util::{st, Src};

/// any expression: it matches what the harness wants
pub struct Expression;
pub static EXPRESSION: Expression = Expression;
static mut MATCHES: bool = false;
static mut ASKED: usize = 0;
impl Expression {
    pub fn is_match(&self, s: &str) -> bool {
        unsafe {
            ASKED = s.len();
            MATCHES
        }
    }
}

fn texts<T: ValidateString + PartialEq>(t: &str) -> Option<T> {
    let p = T::parse_str(t).ok();
    assert!(T::validate_str(t).is_ok() == matches!(p, Some(_)), "validating gives the verdict of parsing");
    assert!(T::parse_string(String::from(t)).ok() == p, "an owned string gives what a borrowed one gives");
    p
}
/// the owned string in a harness of its own
fn validated<T: ValidateString>(t: &str) {
    assert!(T::validate_str(t).is_ok() == T::parse_str(t).is_ok(), "validating gives the verdict of parsing");
}
fn owned<T: ValidateString + PartialEq>(t: &str) {
    assert!(T::parse_string(String::from(t)).ok() == T::parse_str(t).ok(), "an owned string gives what a borrowed one gives");
}
fn bytes<T: ValidateBytes + PartialEq>(b: &[u8]) -> Option<T> {
    let p = T::parse_u8_slice(b).ok();
    assert!(T::validate_u8_slice(b).is_ok() == matches!(p, Some(_)), "validating gives the verdict of parsing");
    assert!(T::parse_vec_u8(b.to_vec()).ok() == p, "owned bytes give what borrowed ones give");
    p
}
fn at<const N: usize>(s: &mut Src, base: &[u8; N], k: usize) -> [u8; N] {
    let mut b = *base;
    b[k] = s.within(0, 127);
    b
}
/// ASCII with a character of two bytes at `k`
fn wide<const N: usize>(s: &mut Src, k: usize) -> [u8; N] {
    let mut b = s.bytes::<N>();
    let mut i = 0;
    while i < N {
        if i == k {
            kani::assume(b[i] >= 0xC2 && b[i] <= 0xDF);
        } else if i == k + 1 {
            kani::assume(b[i] >= 0x80 && b[i] <= 0xBF);
        } else {
            kani::assume(b[i] < 0x80);
        }
        i += 1;
    }
    b
}
'''
o = []
T = []
def t(name, attr, body):
    T.append("#[derive(Validator, PartialEq)]\n#[validator(%s)]\npub struct %s%s%s" % (attr, name, body, "" if body.endswith("}") else ";"))
def h(name, n, bound, body, unwind=8, stubs=()):
    st = "".join(" #[kani::stub(%s)]" % x for x in stubs)
    o.append('harness!(#[kani::unwind(%d)]%s %s, bytes = %d, bound = "%s", |s| {\n    %s\n});' % (unwind, st, name, n, bound, body))
MEM = "core::slice::memchr::memchr, crate::util::memstub::memchr"
SLI = "core::str::slice_error_fail_rt, crate::util::memstub::slice_error"
IDNA = "idna::Config::to_ascii, crate::idn::stub"
PRIM = ("i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize")
for w in (8, 16, 32, 64, 128, "size"):
    for ty, at in (("S", "signed_integer(range(Inside(min = -100, max = 27)))"), ("Su", "signed_integer(range(Unlimited))"), ("U", "unsigned_integer(range(Outside(min = 3, max = 200)))"), ("Uu", "unsigned_integer(range(Unlimited))")):
        sg = ty[0] == "S"
        t("%s%s" % (ty, w), at, "(pub %s%s)" % ("i" if sg else "u", w))
        wide = "i128" if sg else "u128"
        n = "%s%s" % (ty, w)
        body = "let x = s.u128();\n    let p = %s::parse_%s(x as %s).ok();\n" % (n, wide, wide)
        for p in PRIM:
            if (p[0] == "i") == sg:
                body += "    let v = x as %s;\n    let p = %s::parse_%s(v as %s).ok();\n    assert!(%s::parse_%s(v).ok() == p && %s::validate_%s(v).is_ok() == matches!(p, Some(_)), \"every width gives the same\");\n" % (p, n, wide, wide, n, p, n, p)
        h("q_int_" + n.lower(), 16, "every number of every width", body.rstrip())
        for k in (1, 3):
            h("q_int_text_%s_%d" % (n.lower(), k) if w in (8, "size") and ty in ("S", "U") else "t_int_text_%s_%d" % (n.lower(), k), k, "every ASCII text of %d bytes" % k, "let b = s.ascii::<%d>();\n    texts::<%s>(st(&b));" % (k, n), 8)
for f in (32, 64):
    for nm, at in (("N%d" % f, "number(nan(Disallow), range(Inside(min = -1.5, max = 100.25)))"), ("Nu%d" % f, "number(nan(Allow), range(Unlimited))"), ("Nm%d" % f, "number(nan(Must))")):
        T.append("#[derive(Validator)]\n#[validator(%s)]\npub struct %s(pub f%d);\nimpl PartialEq for %s {\n    fn eq(&self, o: &Self) -> bool {\n        self.0.to_bits() == o.0.to_bits() || (self.0.is_nan() && o.0.is_nan())\n    }\n}" % (at, nm, f, nm))
        body = """let x = s.u64();
    let v = f64::from_bits(x);
    let p = %s::parse_f64(v).ok();
    assert!(%s::validate_f64(v).is_ok() == matches!(p, Some(_)), "validating gives the verdict of parsing");
    let v = f32::from_bits(x as u32);
    let p = %s::parse_f64(v as f64).ok();
    assert!(%s::parse_f32(v).ok() == p && %s::validate_f32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");""" % ((nm,) * 5)
        h("q_number_%s" % nm.lower(), 8, "every f32 and f64", body)
t("B", "boolean", "(pub bool)")
body = "let v = s.bool();\n    let p = B::parse_bool(v).ok();\n    assert!(B::validate_bool(v).is_ok() == matches!(p, Some(_)), \"validating gives the verdict of parsing\");\n    let c = s.char();\n    let p = B::parse_char(c).ok();\n    assert!(B::validate_char(c).is_ok() == matches!(p, Some(_)), \"validating gives the verdict of parsing\");\n    let x = s.u128();\n"
for p in PRIM:
    wide = "i128" if p[0] == "i" else "u128"
    body += "    let v = x as %s;\n    let p = B::parse_%s(v as %s).ok();\n    assert!(B::parse_%s(v).ok() == p && B::validate_%s(v).is_ok() == matches!(p, Some(_)), \"every width gives the same\");\n" % (p, wide, wide, p, p)
h("q_boolean", 21, "every bool, char and integer", body.rstrip())
for n in range(0, 7):
    h("q_boolean_text_%d" % n, max(n, 1), "every ASCII text of %d bytes" % n, "let b = s.ascii::<%d>();\n    texts::<B>(st(&b));" % n, 10)
t("Txt", "text(char_length(trimmed_min = 1, max = 1))", "(pub String)")
t("TxtB", "text(byte_length(min = 1, max = 2))", "(pub String)")
t("Lin", "line(char_length(trimmed_min = 1, max = 1))", "(pub String)")
t("LinB", "line(byte_length(min = 1, max = 2))", "(pub String)")
for ty in ("Txt", "TxtB", "Lin", "LinB"):
    for n in (0, 1, 2):
        h("q_%s_%d" % (ty.lower(), n), max(n, 1), "every ASCII text of %d bytes" % n, "let b = s.ascii::<%d>();\n    texts::<%s>(st(&b));" % (n, ty), 10)
    h("q_%s_wide" % ty.lower(), 3, "every character of two bytes before and after every ASCII character", "let b = wide::<3>(s, %d);\n    texts::<%s>(st(&b));" % (0 if ty == "Txt" else 1, ty), 10)
for k in ("base32", "base64", "base64_url"):
    ty = k.title().replace("_", "")
    for pad in ("Allow", "Must", "Disallow"):
        t(ty + pad[0], "%s(padding(%s))" % (k, pad), "(pub String)")
        t(ty + "D" + pad[0], "%s_decoded(padding(%s))" % (k, pad), "(pub Vec<u8>)")
        q = "q" if pad == "Allow" else "t"
        for n in (1, 2, 4):
            q2 = q if n != 2 else "t"
            h("%s_%s_%s_%d" % (q2, k, pad.lower(), n), n, "every ASCII text of %d bytes" % n, "let b = s.ascii::<%d>();\n    texts::<%s>(st(&b));" % (n, ty + pad[0]), n + 6, [MEM])
            h("%s_%s_%s_%d_bytes" % (q2, k, pad.lower(), n), n, "every %d bytes" % n, "let b = s.bytes::<%d>();\n    bytes::<%s>(&b);" % (n, ty + pad[0]), n + 6, [MEM])
        for n in (1, 2):
            h("%s_%s_decoded_%s_%d" % ("t" if n == 1 else q, k, pad.lower(), n), n, "every ASCII text of %d bytes" % n, "let b = s.ascii::<%d>();\n    texts::<%s>(st(&b));" % (n, ty + "D" + pad[0]), 10, [MEM])
            h("%s_%s_decoded_%s_%d_bytes" % ("t" if n == 1 else q, k, pad.lower(), n), n, "every %d bytes" % n, "let b = s.bytes::<%d>();\n    bytes::<%s>(&b);" % (n, ty + "D" + pad[0]), 10, [MEM])
t("Re", "regex(regex = EXPRESSION)", "(pub String)")
h("q_regex", 4, "every ASCII text of 3 bytes, matched or not", "unsafe { MATCHES = s.bool() };\n    let b = s.ascii::<3>();\n    texts::<Re>(st(&b));", 8)
for case in ("Any", "Upper", "Lower"):
    for sep in ("Allow(b':')", "Must(b'-')", "Disallow"):
        k = case[0] + sep[0]
        t("Mac" + k, "mac_address(case(%s), separator(%s))" % (case, sep), "(pub u64)")
        t("Uuid" + k, "uuid(case(%s), separator(%s))" % (case, sep.replace(":", "-")), "(pub u128)")
        for ty, base, last in (("Mac", "08-00-27-44-60-31", 16), ("Mac", "080027446031", 11), ("Uuid", "20107020-0050-4080-9030-607080901234", 35), ("Uuid", "20107020005040809030607080901234", 31)):
            if sep[0] == "A" and ty == "Mac": base = base.replace("-", ":")
            # the others are decided by C10 and C11, which ask every way separately
            if sep[0] != "D" or "-" in base or ":" in base: continue
            for p in (2, last):
                h("q_%s%s_%d_at_%d" % (ty.lower(), k.lower(), len(base), p), 1, "%s with any byte at position %d" % (base, p), 'let b = at(s, b"%s", %d);\n    texts::<%s>(st(&b));' % (base, p, ty + k), 2 + len(base))
t("TyI4", "ipv4(local(Allow), port(Allow))", "{\n    pub ipv4: std::net::Ipv4Addr,\n    pub port: Option<u16>,\n}")
t("TyI6", "ipv6(local(Allow), port(Allow))", "{\n    pub ipv6: std::net::Ipv6Addr,\n    pub port: Option<u16>,\n}")
t("TyI", "ip(local(Allow), port(Allow))", "{\n    pub ip: std::net::IpAddr,\n    pub port: Option<u16>,\n}")
t("TyD", "domain(ipv4(Allow), local(Allow), at_least_two_labels(Allow), port(Allow))", "{\n    pub domain: String,\n    pub port: Option<u16>,\n}")
t("TyH", "host(local(Allow), at_least_two_labels(Allow), port(Allow))", "{\n    pub host: Host,\n    pub port: Option<u16>,\n}")
t("TyE", "email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow))", "{\n    pub local_part: String,\n    pub need_quoted: bool,\n    pub domain_part: Host,\n    pub comment_before_local_part: Option<String>,\n    pub comment_after_local_part: Option<String>,\n    pub comment_before_domain_part: Option<String>,\n    pub comment_after_domain_part: Option<String>,\n}")
TOK = ["<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4", "<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6", "<u16 as core::str::FromStr>::from_str, stub::token_port"]
for ty, base, pos in (("TyD", "a.bc:432", (0, 4)), ("TyD", "a.bc", (2,)), ("TyH", "a.bc:432", (0, 4)), ("TyI4", "8.8:432", (0, 3)), ("TyI6", "[a::b]:432", (0, 5, 6)), ("TyI", "8.8:432", (0, 3)), ("TyI", "[a::b]:432", (0, 5, 6)), ("TyE", "ab@c.d", (0, 2, 5)), ("TyE", "a@[8.8]", (6,)), ("TyE", "a@b(c)", (3, 5))):
    for k in pos:
        for f in ("validated", "owned"):
            h("q_%s_%s_%d_%d_at_%d" % (ty.lower(), f, len(base), base.count("["), k) if (ty, base) != ("TyE", "a@b(c)") else "q_tye_%s_comment_at_%d" % (f, k), 19, "%s with any byte at position %d; 8.8, a::b and 432 stand for any address and port" % (base, k), 'ip_text(Ip::V6(s.u128()));\n    ip_text(Ip::V4(1));\n    port_text(s.u16());\n    let b = at(s, b"%s", %d);\n    %s::<%s>(st(&b));' % (base, k, f, ty), 20, [MEM, IDNA] + TOK + [SLI])
t("L", "length(min = 2, max = 4)", "(pub Counted)")
L = """/// a collection which is its length
#[derive(PartialEq)]
pub struct Counted(usize);
impl CollectionLength for Counted {
    fn len(&self) -> usize {
        self.0
    }
}"""
h("q_length", 8, "every length", """let n = s.u64() as usize;
    assert!(L::validate_collection(&Counted(n)).is_ok() == L::parse_collection(Counted(n)).is_ok(), "validating gives the verdict of parsing");""")
open(os.path.join(R, "c24.rs"), "w").write(HEAD + L + "\n" + "\n".join(T) + "\n" + "\n".join(o) + "\n")
