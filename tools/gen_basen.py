#!/usr/bin/env python3
"""Writes the harnesses at the end of harness/src/c08.rs and c09.rs."""
import os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src")
MARK = "// Below: written by tools/gen_basen.py\n"
T = [(k + p, k) for k in ("B32", "B64", "Url") for p in ("Must", "Allow", "Disallow")]
ST = "#[kani::stub(data_encoding::Encoding::decode, decode_model)] "

def write(name, items):
    path = os.path.join(R, name)
    s = open(path).read()
    s = s[:s.index(MARK)] if MARK in s else s
    with open(path, "w") as f:
        f.write(s.rstrip("\n") + "\n\n" + MARK + "".join(items))

def h(name, unwind, nbytes, bound, call, attrs=""):
    return ('harness!(#[kani::unwind(%d)] %s%s, bytes = %d, bound = "%s", |s| {\n    let w = %s;\n    cover!(w, "accepts");\n    cover!(!w, "refuses");\n});\n'
            % (unwind, attrs, name, nbytes, bound, call))

o = []
for t, k in T:
    n = 17 if t == "B32Allow" else 10 if k == "B32" else 9
    o.append(h("q_verdict_" + t.lower(), n + 2, n + 1, "every byte string of up to %d bytes; %s" % (n, t), "verdict::<%s, %d>(s)" % (t, n)))
    n = 25 if k == "B32" else 17
    o.append(h("t_verdict_" + t.lower(), n + 2, n + 1, "every byte string of up to %d bytes; %s" % (n, t), "verdict::<%s, %d>(s)" % (t, n)))
    n = 8 if k == "B32" and "Must" in t else 4
    o.append(h("q_kept_" + t.lower(), n + 2, n, "every ASCII string of %d bytes through every entry point; %s" % (n, t), "kept::<%s, %d>(s)" % (t, n)))
write("c08.rs", o)
o = []
for t, k in T:
    n = 8
    o.append(h("q_any_" + t.lower(), n + 2, n + 1, "every byte string of up to %d bytes; %s" % (n, t), "any::<%s, %d>(s)" % (t, n), ST))
    n = 16 if k == "B32" else 12
    o.append(h("t_any_" + t.lower(), n + 2, n + 1, "every byte string of up to %d bytes; %s" % (n, t), "any::<%s, %d>(s)" % (t, n), ST))
    n = 8 if k == "B32" and "Must" in t else 4
    o.append(h("q_entries_" + t.lower(), n + 2, n, "every ASCII string of %d bytes through every entry point; %s" % (n, t), "entries::<%s, %d>(s)" % (t, n), ST))
    if "Disallow" in t:
        for n in ((4, 7, 8) if k == "B32" else (2, 3, 4)):
            o.append(h("q_real_%s_%d" % (t.lower(), n), n + 2, n, "every byte string of %d bytes, without the stub; %s" % (n, t), "fixed::<%s, %d>(s)" % (t, n)))
        for n in ((2, 5, 10) if k == "B32" else (6, 7, 8)):
            o.append(h("t_real_%s_%d" % (t.lower(), n), n + 2, n, "every byte string of %d bytes, without the stub; %s" % (n, t), "fixed::<%s, %d>(s)" % (t, n)))
write("c09.rs", o)
