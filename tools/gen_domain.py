#!/usr/bin/env python3
"""Writes harness/src/c16.rs: the domain validator in all 81 combinations of policies."""
import os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src")
TRI = {"A": "Allow", "M": "Must", "D": "Disallow"}
HEAD = open(os.path.join(R, "c16_head.txt")).read() if os.path.exists(os.path.join(R, "c16_head.txt")) else None
STUB = "#[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] "
TOKEN = STUB + "#[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] "
o = []
names = []
for i in "AMD":
    for l in "AMD":
        for t in "AMD":
            for p in "AMD":
                n = "Dom" + i + l + t + p
                names.append(n)
                conflict = ", conflict(Allow)" if i == "M" and t == "D" else ""
                attr = "domain(ipv4(%s), local(%s), at_least_two_labels(%s), port(%s)%s)" % (TRI[i], TRI[l], TRI[t], TRI[p], conflict)
                flags = l == "A" and t != "A"
                four = flags and i == "A"
                shape = "#[derive(Validator)]\n#[validator(%s)]\n" % attr
                if p == "D" and not flags:
                    shape += "pub struct %s(pub String);\n" % n
                    out = "R { name: v.0, port: None, is_ipv4: None, is_local: None }"
                else:
                    f = ["pub domain: String"]
                    out = "R { name: v.domain, port: %s, is_ipv4: %s, is_local: %s }" % (
                        {"A": "v.port", "M": "Some(v.port)", "D": "None"}[p], "Some(v.is_ipv4)" if four else "None", "Some(v.is_local)" if flags else "None")
                    if four: f.append("pub is_ipv4: bool")
                    if flags: f.append("pub is_local: bool")
                    if p != "D": f.append("pub port: %s" % ("u16" if p == "M" else "Option<u16>"))
                    shape += "pub struct %s { %s }\n" % (n, ", ".join(f))
                o.append(shape + "impl Dom for %s {\n    const IPV4: Tri = Tri::%s;\n    const LOCAL: Tri = Tri::%s;\n    const LABELS: Tri = Tri::%s;\n    const PORT: Tri = Tri::%s;\n"
                         "    fn str_(s: &str) -> Option<R> { %s::parse_str(s).ok().map(|v| %s) }\n"
                         "    fn string_(s: &str) -> Option<R> { %s::parse_string(s).ok().map(|v| %s) }\n"
                         "    fn validate_(s: &str) -> bool { %s::validate_str(s).is_ok() }\n}\n" % (n, TRI[i], TRI[l], TRI[t], TRI[p], n, out, n, out, n))
for n in names:
    i, l, t, p = n[3:]
    quick = p == "A" or i + l + t in ("AAM", "AAA", "DAD", "DDM", "MMA")
    for every in (0, 1):
        if not every and not quick: continue
        name = "%s_policy%s_%s" % ("t" if every else "q", "_all" if every else "", n[3:].lower())
        o.append('harness!(#[kani::unwind(14)] %s%s, bytes = 6, bound = "every IPv4 address, localhost, a name of one label and one of two, each with and without root dot, with every port and without", |s| {\n    policies::<%s>(s, %s);\n});'
             % (TOKEN, name, n, "true" if every else "false"))
V4 = STUB + "#[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] "
for n, q, sizes in (("DomAAAA", "q", (0, 1, 2, 3, 4, 5, 6)), ("DomDADD", "q", (0, 1, 3, 5)), ("DomADMA", "q", (1, 3, 5)), ("DomDAMD", "t", (1, 3, 5, 6, 7)), ("DomDDMM", "t", (3, 5))):
    for k in sizes:
        for last in (0,) if n in ("DomAAAA", "DomDADD") else (".", "x"):
            o.append('harness!(#[kani::unwind(12)] %s%s_name_%s_%d%s, bytes = %d, bound = "every ASCII text of %d bytes%s", |s| {\n    name::<%s, %d, %s>(s);\n});' % (
                V4, q, n[3:].lower(), k, {0: "", ".": "_dot", "x": "_letter"}[last], max(k, 1), k, " which ends with '%s'" % last if last else "", n, k, "b'%s'" % last if last else 0))
for n, q in (("DomAAAA", "q"), ("DomDAMM", "q"), ("DomDADD", "q"), ("DomMAAA", "t")):
    for a, m in ((0, 1), (1, 0), (1, 1), (1, 5), (1, 6), (3, 2)):
        if n == "DomDADD" and a != 1: continue
        o.append('harness!(#[kani::unwind(12)] %s%s_port_%s_%d_%d, bytes = %d, bound = "every ASCII name of %d bytes with a port of %d bytes", |s| {\n    with_port::<%s, %d, %d, %d>(s);\n});' % (V4, q, n[3:].lower(), a, m, a + m + 1, a, m, n, a, m, a + m + 1))
for n in ("DomAAAA", "DomDAMM", "DomDADD"):
    for k in (1, 4):
        o.append('harness!(#[kani::unwind(12)] %s%s_ways_%s_%d, bytes = %d, bound = "every ASCII text of %d bytes", |s| {\n    ways::<%s, %d>(s);\n});' % (V4, "q" if k == 4 else "t", n[3:].lower(), k, k, k, n, k))
for n, q, last in (("DomDMDD", "q", (8, 9, 10)), ("DomDDAD", "q", (9,)), ("DomAAMA", "t", (9,)), ("DomAADM", "t", (9,))):
    for k in last:
        for e in ((0, "t") if k < 10 else (".", "t")):
            if k == 8 and e == 0: continue
            e2 = "b'%s'" % e if e else "0"
            o.append('harness!(#[kani::unwind(13)] %s%s_local_%s_%d%s, bytes = %d, bound = "every ASCII text of %d bytes%s", |s| {\n    name::<%s, %d, %s>(s);\n});' % (
                V4, q if e != "t" or k == 10 else "t", n[3:].lower(), k, {0: "", ".": "_dot", "t": "_t"}[e], k, k, " which ends with '%s'" % e if e else "", n, k, e2))
WIDE = STUB.replace("idn::stub", "idn::stub_wide")
for n in ("DomAAAA", "DomDADD", "DomDAAD", "DomAAMA", "DomADDD"):
    for name, pre, rest in (("first", "", "27.0.0.1"), ("last", "8.8.8.", ""), ("dot", "8.8.8", "8."), ("label", "a", "")):
        l = len(pre) + len(rest) + 3
        o.append('harness!(#[kani::unwind(14)] %s%s_wide_%s_%s, bytes = 1, bound = "every character U+FF01..U+FF3F between %s and %s", |s| {\n    wide::<%s, %d>(s, b"%s", b"%s");\n});' % (
            WIDE, "q" if n in ("DomAAAA", "DomDADD") else "t", n[3:].lower(), name, pre or "nothing", rest or "nothing", n, l, pre, rest))
with open(os.path.join(R, "c16.rs"), "w") as f:
    f.write("// Written by tools/gen_domain.py\n" + HEAD + "\n" + "\n".join(o) + "\n")
