#!/usr/bin/env python3
import os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src")
HEAD = r'''// Written by tools/gen_c26.py
use validators::byte_unit::{Bit, Byte};
use validators::prelude::*;

use crate::util::Src;

/// the verdict on `n` for a size which exists
fn inside(n: u128, min: Option<u128>, max: Option<u128>, inclusive: bool) -> bool {
    let mut ok = true;
    if let Some(min) = min {
        ok &= n >= min;
    }
    if let Some(max) = max {
        ok &= if inclusive || min == Some(max) { n <= max } else { n < max };
    }
    ok
}
'''
o = []
FORMS = [("Un", "", None, None, True), ("Mi", "(range(min = 5))", 5, None, True), ("Ma", "(range(max = 100))", None, 100, True),
 ("In", "(range(min = 5, max = 100))", 5, 100, True), ("Ex", "(range(min = 5, max = 100, inclusive = false))", 5, 100, False),
 ("Eq", "(range(min = 7, max = 7))", 7, 7, True), ("Zero", "(range(min = 0, max = 0))", 0, 0, True),
 ("ExMa", "(range(max = 20000000000000000000, inclusive = false))", None, 20000000000000000000, False),
 ("Big", "(range(min = 20000000000000000000, max = 100000000000000000000000000))", 20000000000000000000, 10**26, True)]
opt = lambda x: "None" if x is None else "Some(%d)" % x
for kind, ty in (("bit", "Bit"), ("byte", "Byte")):
    for n, at, lo, hi, inc in FORMS:
        name = ty + n
        o.append("#[derive(Validator)]\n#[validator(%s%s)]\npub struct %s(pub %s);" % (kind, at, name, ty))
        b = """let x = s.u128();
    let want = inside(x, %s, %s, %s) && matches!(%s::from_u128(x), Some(_));
    match %s::parse_u128(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(%s::validate_u128(x).is_ok() == want, "a size is validated as it is parsed");""" % (opt(lo), opt(hi), "true" if inc else "false", ty, name, name)
        o.append('harness!(#[kani::unwind(4)] q_%s_wide_%s, bytes = 16, bound = "every u128", |s| {\n    %s\n});' % (kind, n.lower(), b))
        b = """let x = s.u64();
    let want = inside(x as u128, %s, %s, %s);
    match %s::parse_u64(x) {
        Ok(v) => assert!(want && v.0.as_u128() == x as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(%s::validate_u64(x).is_ok() == want, "a size is validated as it is parsed");
""" % (opt(lo), opt(hi), "true" if inc else "false", name, name)
        for w in ("u8", "u16", "u32", "usize"):
            b += """    let y = x as %s;
    let want = inside(y as u128, %s, %s, %s);
    match %s::parse_%s(y) {
        Ok(v) => assert!(want && v.0.as_u128() == y as u128, "a size in the range is accepted and kept"),
        Err(_) => assert!(!want, "a size in the range is accepted"),
    }
    assert!(%s::validate_%s(y).is_ok() == want, "a size is validated as it is parsed");
""" % (w, opt(lo), opt(hi), "true" if inc else "false", name, w, name, w)
        o.append('harness!(#[kani::unwind(4)] q_%s_narrow_%s, bytes = 8, bound = "every number of up to 64 bits", |s| {\n    %s\n});' % (kind, n.lower(), b.rstrip()))
open(os.path.join(R, "c26.rs"), "w").write(HEAD + "\n".join(o) + "\n")
