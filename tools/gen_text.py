#!/usr/bin/env python3
"""Writes harness/src/c06.rs (text) and c07.rs (line): one harness per combination of length attributes."""
import os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src")
# (config, characters, unwind)
U = [("Free", 3, 6), ("CMin", 3, 6), ("CMax", 3, 6), ("CTMin", 3, 6), ("CMinMax", 4, 7), ("CTMinMin", 4, 7), ("CTMinMax", 4, 7),
     ("CTMinMinMax", 4, 7), ("CTMinMin0", 3, 6), ("CTMinMax0", 3, 6), ("CTMinMinMax0", 4, 7), ("CExact", 3, 6), ("CTMin0", 3, 6),
     ("CZero", 2, 5), ("BMin", 3, 14), ("BMax", 3, 14), ("BTMin", 3, 6), ("BMinMax", 3, 14), ("BTMinMin", 3, 6), ("BTMinMax", 3, 6),
     ("BTMinMinMax", 3, 6), ("BTMinMin0", 3, 6), ("BTMinMax0", 3, 6), ("BTMinMinMax0", 3, 6), ("BTMin0", 3, 6)]
A = [(c, 7) for c in ("CLong", "BLong", "CLongMin", "BLongMin", "CLongMax", "BLongMax", "CLongT", "BLongT")]
K = [("Free", 3), ("CMinMax", 4), ("CTMinMinMax", 3), ("BMinMax", 4), ("BTMinMinMax0", 3)]
for prop, kind, line in (("c06", "text", "false"), ("c07", "line", "true")):
    o = ["// Written by tools/gen_text.py", "use crate::strs::*;", "use validators::prelude::*;", "", "text_types!(%s);" % kind, ""]
    def h(name, unwind, nbytes, bound, call):
        o.append('harness!(#[kani::unwind(%d)] %s, bytes = %d, bound = "%s", |s| {\n    let w = %s;\n    cover!(w, "accepts");\n    cover!(!w, "refuses");\n});'
                 % (unwind, name, nbytes, bound, call))
    for c, n, u in U:
        h("q_uni_" + c.lower(), u, 4 * n + 1, "every string of up to %d Unicode characters; configuration %s" % (n, c),
          "unicode::<%s, %d, %d>(s, %s)" % (c, n, 4 * n, line))
        h("t_uni_" + c.lower(), u + 1 if u < 14 else 18, 4 * n + 5, "every string of up to %d Unicode characters; configuration %s" % (n + 1, c),
          "unicode::<%s, %d, %d>(s, %s)" % (c, n + 1, 4 * n + 4, line))
    for c, n in A:
        h("q_ascii_" + c.lower(), n + 2, n + 1, "every ASCII string of up to %d bytes; configuration %s" % (n, c), "ascii::<%s, %d>(s, %s)" % (c, n, line))
        h("t_ascii_" + c.lower(), n + 4, n + 3, "every ASCII string of up to %d bytes; configuration %s" % (n + 2, c), "ascii::<%s, %d>(s, %s)" % (c, n + 2, line))
    for c, n in K:
        h("q_kept_" + c.lower(), n + 2, n + 1, "every ASCII string of up to %d bytes through all entry points; configuration %s" % (n, c), "kept::<%s, %d>(s, %s)" % (c, n, line))
    with open(os.path.join(R, prop + ".rs"), "w") as f:
        f.write("\n".join(o) + "\n")
