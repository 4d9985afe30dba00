#!/usr/bin/env python3
from gen_mail import *
o = []
T = ["MailADAAA", "MailADAAD", "MailDDAAA", "MailDDAAD", "MailAAAAA"]
for t in T: o.append(mail(t))
o.append("""
/// arbitrary ASCII text of N bytes
fn text<T: Mail, const N: usize>(s: &mut Src) {
    let b = s.ascii::<N>();
    compare::<T>(&b, None);
}

/// arbitrary ASCII text of N bytes between a fixed start and a fixed end
fn skeleton<T: Mail, const N: usize, const L: usize>(s: &mut Src, prefix: &[u8], suffix: &[u8]) {
    let m = s.ascii::<N>();
    let mut b = [0u8; L];
    let n = prefix.len();
    let mut i = 0;
    while i < L {
        b[i] = if i < n { prefix[i] } else if i < n + N { m[i - n] } else { suffix[i - n - N] };
        i += 1;
    }
    compare::<T>(&b, None);
}

/// a character of two bytes (U+0080..U+00BF) between a fixed start and a fixed end
fn letter<T: Mail, const L: usize>(s: &mut Src, prefix: &[u8], suffix: &[u8]) {
    let x = s.within(0x80, 0xBF);
    let mut b = [0u8; L];
    let n = prefix.len();
    let mut i = 0;
    while i < L {
        b[i] = if i < n { prefix[i] } else if i == n { 0xC2 } else if i == n + 1 { x } else { suffix[i - n - 2] };
        i += 1;
    }
    compare::<T>(&b, None);
}

/// parse_string and validate_str do as parse_str
fn ways<T: Mail, const N: usize, const L: usize>(s: &mut Src, prefix: &[u8], suffix: &[u8]) {
    let m = s.ascii::<N>();
    let mut b = [0u8; L];
    let n = prefix.len();
    let mut i = 0;
    while i < L {
        b[i] = if i < n { prefix[i] } else if i < n + N { m[i - n] } else { suffix[i - n - N] };
        i += 1;
    }
    let mut w = want();
    let ok = judge::<T>(&b, None, &mut w);
    let t = st(&b);
    assert!(T::validate_(t) == ok, "validate_str accepts what the grammar admits");
    match &T::string_(t) {
        Some(r) => assert!(ok && equal(r, &b, None, &w), "parse_string gives the parts of the text"),
        None => assert!(!ok, "parse_string accepts what the grammar admits"),
    }
}
""")
def lit(s): return s.replace("\\", "\\\\").replace('"', '\\"')
def show(s): return s.replace("\\", "backslash").replace('"', "'") or "nothing"
def skel(q, kind, t, pre, n, suf, name):
    l = len(pre) + len(suf) + n
    if kind == "letter":
        o.append(harness(ALL, l + 2, "%s_letter_%s_%s" % (q, t[4:].lower(), name), 1, "every character U+0080..U+00BF between %s and %s" % (show(pre), show(suf)),
                         'letter::<%s, %d>(s, b"%s", b"%s")' % (t, l, lit(pre), lit(suf))))
    else:
        o.append(harness(ALL, l + 2, "%s_%s_%s_%s" % (q, kind, t[4:].lower(), name), n, "every ASCII text of %d bytes between %s and %s" % (n, show(pre), show(suf)),
                         '%s::<%s, %d, %d>(s, b"%s", b"%s")' % (kind, t, n, l, lit(pre), lit(suf))))
for t, q, ks in (("MailDDAAA", "q", (1, 2, 3, 4)), ("MailDDAAA", "t", (5, 6, 7)), ("MailDDAAD", "t", (3, 5)), ("MailAAAAA", "q", (1,)), ("MailADAAA", "t", (2,))):
    for k in ks:
        o.append(harness(ALL, k + 2, "%s_text_%s_%d" % (q, t[4:].lower(), k), k, "every ASCII text of %d bytes" % k, "text::<%s, %d>(s)" % (t, k)))
A = "MailADAAA"
for name, q, pre, n, suf in (
        ("inner", "q", "a", 1, "b@x"), ("inner2", "q", "a", 2, "@x"), ("inner3", "t", "a", 3, ""), ("dot", "q", "a.", 1, "@x"),
        ("quote", "q", '"', 1, '"@x'), ("quote2", "q", '"', 2, '"@x'), ("escape", "q", '"\\', 1, '"@x'), ("closed", "q", '"a"', 1, "@x"), ("quote_dot", "q", '".', 1, '"@x'), ("quote_tail", "q", '"a', 1, 'b"@x'),
        ("c1", "q", "(c)", 1, "@x"), ("c1_empty", "q", "()", 1, "@x"), ("c1_quote", "q", '(c)"', 1, '"@x'), ("c1_nested", "q", "((", 0, ")a@x"), ("c1_open", "q", "(a@x", 0, ""), ("c1_only", "q", "(a)", 0, ""),
        ("c2", "q", "a(", 1, ")@x"), ("c2_after", "q", "a(b)", 1, "x"), ("c2_quote", "q", '"a"(', 1, ")@x"), ("c12", "q", "(a)b(", 1, ")@x"),
        ("at", "q", "a@", 1, "x"), ("c3", "q", "a@(", 1, ")x"), ("c3_after", "q", "a@(b)", 1, "x"), ("c3_only", "q", "a@(b)", 0, ""),
        ("dom", "q", "a@x", 1, "y"), ("dom2", "q", "a@x", 2, ""), ("c4", "q", "a@x(", 1, "y)"), ("c4_end", "q", "a@x(y", 1, ""), ("c4_after", "q", "a@x(y)", 1, ""),
        ("all_1", "q", "a", 1, "(b)@(c)x(d)"), ("all_2", "t", "(a)b(c", 1, ")@(d)x(e)"), ("all_3", "t", "(a)b(c)@(d)", 1, "(e)"), ("all_4", "t", "(a)b(c)@(d)x(e", 1, ")"),
        ("first_comment", "t", "(", 1, ")a@x"), ("first", "t", "", 1, "@x"), ("first2", "t", "", 2, "@x")):
    skel(q, "skeleton", A, pre, n, suf, name)
for name, pre, n, suf in (("bracket", "a@[", 1, "]"), ("tag", "a@[IPv6:", 1, "]"), ("behind", "a@[", 2, ""), ("at", "a@", 1, "[")):
    skel("q", "skeleton", "MailAAAAA", pre, n, suf, name)
for t in ("MailADAAA", "MailADAAD", "MailDDAAD"):
    for name, pre, suf in (("first", "", "@x"), ("inner", "a", "@x"), ("quote", '"', '"@x'), ("quote_inner", '"a', '"@x'), ("escape", '"\\', '"@x'), ("c1", "(", ")a@x"), ("c2", "a(", ")@x"), ("c3", "a@(", ")x"), ("c4", "a@x(", ")")):
        if t[4] == "D" and name[0] == "c": continue
        skel("q" if t[8] == "D" and t[4] == "A" and name != "c1" else "t", "letter", t, pre, 2, suf, name)
for name, pre, n, suf in (("local", "a", 1, "@x"), ("quote", '"', 1, '"@x'), ("dom", "a@", 1, "x")):
    skel("q", "ways", A, pre, n, suf, name)
write("c18", "\n".join(o))
