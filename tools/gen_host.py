#!/usr/bin/env python3
"""Writes harness/src/c17.rs: the host validator in all 27 combinations of policies."""
import os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src")
TRI = {"A": "Allow", "M": "Must", "D": "Disallow"}
HEAD = open(os.path.join(R, "c17_head.txt")).read()
STUB = "#[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] "
V4 = "#[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] "
V6 = "#[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] "
M6 = "#[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] "
P = "#[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] "
o = []
names = []
def h(attrs, unwind, name, nbytes, bound, body):
    o.append('harness!(#[kani::unwind(%d)] %s%s, bytes = %d, bound = "%s", |s| {\n    %s;\n});' % (unwind, attrs, name, nbytes, bound, body))
for l in "AMD":
    for t in "AMD":
        for p in "AMD":
            n = "Host" + l + t + p
            names.append(n)
            flags = l == "A" and t != "A"
            attr = "host(local(%s), at_least_two_labels(%s), port(%s))" % (TRI[l], TRI[t], TRI[p])
            shape = "#[derive(Validator)]\n#[validator(%s)]\n" % attr
            if p == "D" and not flags:
                shape += "pub struct %s(pub Host);\n" % n
                out = "R { host: v.0, port: None, is_local: None }"
            else:
                f = ["pub host: Host"]
                out = "R { host: v.host, port: %s, is_local: %s }" % ({"A": "v.port", "M": "Some(v.port)", "D": "None"}[p], "Some(v.is_local)" if flags else "None")
                if flags: f.append("pub is_local: bool")
                if p != "D": f.append("pub port: %s" % ("u16" if p == "M" else "Option<u16>"))
                shape += "pub struct %s { %s }\n" % (n, ", ".join(f))
            o.append(shape + "impl HostType for %s {\n    const LOCAL: Tri = Tri::%s;\n    const LABELS: Tri = Tri::%s;\n    const PORT: Tri = Tri::%s;\n"
                     "    fn str_(s: &str) -> Option<R> { %s::parse_str(s).ok().map(|v| %s) }\n"
                     "    fn string_(s: &str) -> Option<R> { %s::parse_string(s).ok().map(|v| %s) }\n"
                     "    fn validate_(s: &str) -> bool { %s::validate_str(s).is_ok() }\n}\n" % (n, TRI[l], TRI[t], TRI[p], n, out, n, out, n))
for n in names:
    l, t, p = n[4:]
    i = n[4:].lower()
    quick = p == "A" or l + t in ("AA", "AM", "DD", "MM", "DA")
    h(STUB + V4 + V6 + P, 14, ("q" if quick else "t") + "_policy_" + i, 26, "every IPv4 address with and without every port, every IPv6 address, bare, in brackets and with every port; localhost, a name of one label and one of two with every port", "policies::<%s>(s)" % n)
    h(STUB + V4 + V6 + P, 14, "t_names_all_" + i, 2, "localhost, a name of one label and one of two, with root dot, in brackets, with every port and without", "names_all::<%s>(s)" % n)
for n, q, sizes in (("HostAAA", "q", (1, 3, 5)), ("HostDAD", "t", (0, 2, 4)), ("HostAMA", "q", (2, 4)), ("HostDDA", "t", (1, 3, 5))):
    for k in sizes:
        for last in (0,) if n[5] == "A" else (".", "x"):
            h(STUB + V4 + V6, 12, "%s_name_%s_%d%s" % (q, i if 0 else n[4:].lower(), k, {0: "", ".": "_dot", "x": "_letter"}[last]), max(k, 1),
              "every ASCII text of %d bytes without a colon%s" % (k, " which ends with '%s'" % last if last else ""), "name::<%s, %d, %s>(s)" % (n, k, "b'%s'" % last if last else 0))
for n, q in (("HostAAA", "q"), ("HostAMM", "q"), ("HostDAD", "q"), ("HostMAA", "t")):
    for a, m in ((0, 1), (1, 0), (1, 1), (1, 5), (1, 6), (3, 2)):
        if n == "HostDAD" and (a, m) != (1, 1): continue
        h(STUB + V4 + V6, 12, "%s_port_%s_%d_%d" % (q, n[4:].lower(), a, m), a + m + 1, "every ASCII name of %d bytes with a port of %d bytes" % (a, m), "with_port::<%s, %d, %d, %d>(s)" % (n, a, m, a + m + 1))
for n, q, sizes in (("HostAAA", "q", (0, 1, 2, 6)), ("HostDAD", "q", (1,)), ("HostMMM", "q", (0, 2, 6)), ("HostADA", "q", (0,))):
    for k in sizes:
        h(STUB + V4 + V6, 12, "%s_tail_%s_%d" % (q, n[4:].lower(), k), 16 + k, "every IPv6 address in brackets with every ASCII text of %d bytes behind" % k, "tail::<%s, %d>(s)" % (n, k))
for n, q, sizes in (("HostAAA", "q", (2, 4)), ("HostAAA", "t", (1, 3, 5)), ("HostMMD", "q", (3,)), ("HostMMD", "t", (4,)), ("HostAMA", "t", (4,))):
    for k in sizes:
        h(STUB + V4 + M6, 12, "%s_any_%s_%d" % (q, n[4:].lower(), k), k, "every ASCII text of %d bytes with two colons or a bracket at the start" % k, "any::<%s, %d>(s)" % (n, k))
for n in ("HostAAA", "HostAMM", "HostDAD"):
    for k in (1, 4):
        h(STUB + V4 + V6, 12, "%s_ways_%s_%d" % ("q" if k == 4 and n != "HostAMM" else "t", n[4:].lower(), k), k, "every ASCII text of %d bytes which does not begin with a bracket" % k, "ways::<%s, %d>(s)" % (n, k))
for n in ("HostAAA", "HostDAD", "HostAMA", "HostADD"):
    for name, pre, rest in (("first", "", "27.0.0.1"), ("last", "8.8.8.", ""), ("dot", "8.8.8", "8."), ("label", "a", "")):
        l = len(pre) + len(rest) + 3
        h(STUB.replace("idn::stub", "idn::stub_wide") + V6, 14, "%s_wide_%s_%s" % ("q" if n == "HostDAD" else "t", n[4:].lower(), name), 1,
          "every character U+FF01..U+FF3F between %s and %s" % (pre or "nothing", rest or "nothing"), 'wide::<%s, %d>(s, b"%s", b"%s")' % (n, l, pre, rest))
for n, ks in (("HostMDD", (8, 9, 10)), ("HostDAD", (9,)), ("HostADM", (9,))):
    for k in ks:
        h(STUB + V4 + V6, 13, "%s_local_%s_%d" % ("q" if n == "HostMDD" else "t", n[4:].lower(), k), k, "every ASCII text of %d bytes without a colon" % k, "name::<%s, %d, %s>(s)" % (n, k, "b't'" if k != 9 else 0))
with open(os.path.join(R, "c17.rs"), "w") as f:
    f.write("// Written by tools/gen_host.py\n" + HEAD + "\n" + "\n".join(o) + "\n")
