#!/usr/bin/env python3
"""Helpers for the email modules: types and harnesses."""
import os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src")
TRI = {"A": "Allow", "M": "Must", "D": "Disallow"}
MEM = "#[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] "
IDN = "#[kani::stub(idna::Config::to_ascii, crate::idn::stub)] "
V4 = "#[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] "
V6 = "#[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] "
SHOW = "#[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, fmtstub::format)] "
ALL = MEM + IDN + V4 + V6 + SHOW

def mail(name):
    """Mail<comment><ip><local><labels><non ascii>"""
    c, i, l, t, n = name[4:]
    conflict = ", conflict(Allow)" if i == "M" and t == "D" else ""
    attr = "validator(email(comment(%s), ip(%s), local(%s), at_least_two_labels(%s), non_ascii(%s)%s))" % (TRI[c], TRI[i], TRI[l], TRI[t], TRI[n], conflict)
    host = {"A": "Host, |h| h, |h| h", "D": "String, |h| Host::Domain(h), |h| match h { Host::Domain(d) => d, _ => unreachable!() }",
            "M": "std::net::IpAddr, |h| match h { std::net::IpAddr::V4(a) => Host::IPv4(a), std::net::IpAddr::V6(a) => Host::IPv6(a) }, |h| match h { Host::IPv4(a) => a.into(), Host::IPv6(a) => a.into(), _ => unreachable!() }"}[i]
    flag = "is_local" if l == "A" and t != "A" else ""
    return "mail!(%s, %s, %s, %s, %s, %s, %s, %s, %s);" % (name, attr, TRI[i], TRI[l], TRI[t], "true" if n == "A" else "false", host, "comments" if c == "A" else "plain", flag)

def harness(attrs, unwind, name, nbytes, bound, body):
    return 'harness!(#[kani::unwind(%d)] %s%s, bytes = %d, bound = "%s", |s| {\n    %s;\n});' % (unwind, attrs, name, nbytes, bound, body)

HEAD = """use crate::mail::*;
#[cfg(kani)]
use crate::net::stub;
use crate::net::{ip_text, Ip, Tri};
#[cfg(kani)]
use crate::util::fmtstub;
use crate::util::{st, Src};
use validators::models::Host;
use validators::prelude::*;
"""
def write(mod, text):
    with open(os.path.join(R, mod + ".rs"), "w") as f:
        f.write("// Written by tools/gen_%s.py\n" % mod + HEAD + text + "\n")
