#!/usr/bin/env python3
"""Writes harness/src/c10.rs (MAC address parsing), c11.rs (UUID parsing) and c12.rs (printing)."""
import os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src")

def h(name, unwind, nbytes, bound, call, accepts, attrs=""):
    cov = '\n    cover!(w, "accepts");\n    cover!(!w, "refuses");' if accepts else '\n    assert!(!w);'
    return ('harness!(#[kani::unwind(%d)] %s%s, bytes = %d, bound = "%s", |s| {\n    let w = %s;%s\n});\n'
            % (unwind, attrs, name, nbytes, bound, call, cov))

def parsing(mod, types, pre, lo, hi, unwind, quick):
    o = ["// Written by tools/gen_hexid.py\nuse crate::hexid::*;\nuse validators::prelude::*;\n%s!();\n\n" % types]
    for sep, lens in (("Allow", range(lo, hi + 1)), ("Must", [hi]), ("None", [lo])):
        for case in ("Any", "Upper", "Lower"):
            t = pre + sep + case
            for n in lens:
                for f in ("parse", "validate"):
                    tier = "q" if quick(sep, case, n, f) else "t"
                    o.append(h("%s_%s_%s_%d" % (tier, f, t.lower(), n), unwind, n, "every ASCII string of %d bytes; %s" % (n, t), "%s::<%s, %d>(s)" % (f, t, n), True))
    for sep in ("Allow", "Must", "None"):
        t = pre + sep + "Any"
        if sep == "Allow":
            ranges = [(0, lo - 1), (hi + 1, hi + 3)]
        elif sep == "Must":
            ranges = [(0, hi - 1), (hi + 1, hi + 3)]
        else:
            ranges = [(0, lo - 1), (lo + 1, hi + 3)]
        for a, b in ranges:
            o.append(h("q_refuse_%s_%d" % (t.lower(), b), max(unwind, b - a + 2), b, "every ASCII string of %d to %d bytes; %s" % (a, b, t), "refuses::<%s, %d, %d>(s)" % (t, a, b), False))
    o.append(h("q_owned", unwind, lo, "every owned ASCII string of %d bytes; %sNoneAny" % (lo, pre), "owned::<%sNoneAny, %d>(s)" % (pre, lo), True))
    o.append(h("q_multi", unwind, lo + 2, "every ASCII string of %d bytes with a two-byte character; %sNoneAny" % (lo, pre), "multi::<%sNoneAny, %d>(s)" % (pre, lo), False))
    o.append(h("t_multi", unwind, lo + 2, "every ASCII string of %d bytes with a two-byte character; %sAllowAny" % (lo, pre), "multi::<%sAllowAny, %d>(s)" % (pre, lo), False))
    open(os.path.join(R, mod), "w").write("".join(o))

parsing("c10.rs", "mac_types", "Mac", 12, 17, 14, lambda sep, case, n, f: sep == "None" or case == "Any" or (n in (14, 17) and f == "parse"))
parsing("c11.rs", "uuid_types", "Uuid", 32, 36, 34,
        lambda sep, case, n, f: sep == "None" or (case == "Any" and (sep == "Must" or f == "parse" or n in (33, 36))))

F = "#[kani::stub(alloc::fmt::format, fmtstub::format)] "
o = ["// Written by tools/gen_hexid.py\nuse crate::hexid::*;\n#[cfg(kani)]\nuse crate::util::fmtstub;\nuse validators::prelude::*;\nmac_types!();\nuuid_types!();\n\n"]
for pre, nb, u in (("Mac", 8, 18), ("Uuid", 16, 38)):
    for sep in ("Allow", "Must", "None"):
        for case in ("Any", "Upper", "Lower"):
            t = pre + sep + case
            o.append('harness!(#[kani::unwind(%d)] %sq_print_%s, bytes = %d, bound = "every value; %s", |s| {\n    prints::<%s>(s);\n});\n' % (u, F, t.lower(), nb, t, t))
            tier = "q" if pre == "Mac" and (sep == "None" or case == "Any" and sep == "Must") or pre == "Uuid" and sep == "None" and case == "Any" else "t"
            o.append('harness!(#[kani::unwind(%d)] %s%s_back_%s, bytes = %d, bound = "every value; %s", |s| {\n    back::<%s>(s);\n});\n' % (u, F, tier, t.lower(), nb, t, t))
open(os.path.join(R, "c12.rs"), "w").write("".join(o))
