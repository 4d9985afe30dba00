#!/usr/bin/env python3
"""The limits of email addresses: texts at and just above each limit with an arbitrary byte ('?').

What is expected is worked out here from the places of the pieces in the text."""
from gen_mail import *
o = []
T = ["MailADAAD", "MailADAAA", "MailDDAAD", "MailDDAAA", "MailAAAAD"]
for t in T: o.append(mail(t))
o.append("""
#[derive(Clone, Copy)]
enum Class {
    /// characters of atoms
    Atom,
    /// what quotes may enclose without a backslash
    Quoted,
    Close,
    Comment,
    /// the second byte of a character of two bytes
    Letter,
}
fn admits(c: Class, b: u8) -> bool {
    match c {
        Class::Atom => atom(b),
        Class::Quoted => atom(b) || b == b'.' || b == b' ' || b == b'\\t',
        Class::Close => b == b'"',
        Class::Comment => b != b')',
        Class::Letter => true,
    }
}
type Range = (usize, usize);
fn is(a: &str, b: &[u8], r: Range) -> bool {
    a.as_bytes() == &b[r.0..r.1]
}
fn full<T: Mail, const L: usize>(s: &mut Src, text: &[u8; L], at: usize, class: Class, local: Range, domain: Range, comments: [Range; 4]) {
    let mut b = *text;
    b[at] = if let Class::Letter = class { s.within(0x80, 0xBF) } else { s.within(0, 127) };
    let ok = admits(class, b[at]);
    match T::str_(st(&b)) {
        None => assert!(!ok, "an address of which every part is as long as it may be is accepted"),
        Some(r) => {
            assert!(ok, "only what the grammar admits is accepted");
            let host = match &r.host {
                Host::Domain(d) => is(d, text, domain),
                _ => false,
            };
            let mut same = host && is(&r.local, &b, local);
            if let Class::Quoted = class {
                same &= r.quoted == !atom(b[at]);
            } else {
                same &= !r.quoted;
            }
            let mut i = 0;
            while i < 4 {
                same &= match &r.comments[i] {
                    Some(c) => is(c, &b, comments[i]),
                    None => comments[i].1 == 0,
                };
                i += 1;
            }
            assert!(same, "the parts are those of the text");
        }
    }
}
fn over<T: Mail, const L: usize>(s: &mut Src, text: &[u8; L], at: usize, class: Class) {
    let mut b = *text;
    b[at] = if let Class::Letter = class { s.within(0x80, 0xBF) } else { s.within(0, 127) };
    assert!(T::str_(st(&b)).is_none(), "an address with a part which is longer than allowed is refused");
}
""")
def lit(s): return s.replace("\\", "\\\\").replace('"', '\\"').replace("\u00c2", "\\xC2")
def pieces(text):
    """places of the parts in a text of the shape (c)local(c)@(c)domain(c)"""
    c = [(0, 0)] * 4
    i = 0
    if text[0] == "(":
        e = text.index(")"); c[0] = (1, e); i = e + 1
    if text[i] == '"':
        e = text.index('"', i + 1); local = (i + 1, e); i = e + 1
    else:
        e = min(text.index(x, i) for x in "@(" if x in text[i:]); local = (i, e); i = e
    if text[i] == "(":
        e = text.index(")", i); c[1] = (i + 1, e); i = e + 1
    assert text[i] == "@"
    i += 1
    if text[i] == "(":
        e = text.index(")", i); c[2] = (i + 1, e); i = e + 1
    e = text.index("(", i) if "(" in text[i:] else len(text)
    domain = (i, e); i = e
    if i < len(text):
        e = text.index(")", i); c[3] = (i + 1, e); i = e + 1
    assert i == len(text)
    return local, domain, c
def lim(q, t, name, text, bound, cls, extra, unwind=None):
    at = text.index("?")
    assert text.count("?") == 1
    if extra:
        body = 'over::<%s, %d>(s, b"%s", %d, Class::%s)' % (t, len(text), lit(text), at, cls)
        bound += "; refused whatever the byte is"
    else:
        text2 = text.replace("?", '"') if cls == "Close" else text
        l, d, c = pieces(text2)
        body = 'full::<%s, %d>(s, b"%s", %d, Class::%s, (%d, %d), (%d, %d), [%s])' % (t, len(text), lit(text), at, cls, l[0], l[1], d[0], d[1], ", ".join("(%d, %d)" % x for x in c))
        bound += "; accepted exactly when the byte may stand there"
    o.append(harness(ALL, unwind or len(text) + 2, "%s_%s_%s_%s" % (q, t[4:].lower(), name, "over" if extra else "full"), 1, bound, body))
for extra in (0, 1):
    k = 64 + extra
    B = "local part of %d bytes: " % k
    D, A = "MailDDAAD", "MailADAAD"
    lim("q", D, "atoms", "a" * (k - 1) + "?@x", B + "atoms, the last byte arbitrary", "Atom", extra)
    lim("q", A, "atoms", "a" * (k - 1) + "?@x", B + "atoms, the last byte arbitrary", "Atom", extra)
    lim("q", A, "dots", "a." * 31 + "a" * (k - 63) + "?@x", B + "atoms, the last byte arbitrary", "Atom", extra)
    lim("q", D, "quoted", '"' + "a" * (k - 3) + '?"@x', B + "quoted, the last byte arbitrary", "Quoted", extra)
    lim("q", D, "quoted_end", '"' + "a" * (k - 2) + '?@x', B + "quoted, the closing quote arbitrary", "Close", extra)
    lim("q", A, "before", "(" + "c" * (k - 3) + ")?@x", B + "a comment before one arbitrary byte", "Atom", extra)
    lim("q", A, "before_mid", "(" + "c" * 20 + ")" + "a" * (k - 23) + "?@x", B + "a comment before atoms, the last arbitrary", "Atom", extra)
    lim("q", A, "before_quoted", "(" + "c" * (k - 5) + ')"?"@x', B + "a comment before a quoted arbitrary byte", "Quoted", extra)
    lim("t", A, "after", "a(" + "c" * (k - 4) + "?)@x", B + "a comment after one atom, the last byte arbitrary", "Comment", extra)
    lim("q", A, "after", "a(" + "c" * (k - 3) + ")@x(?)", B + "a comment after one atom, one byte of another comment arbitrary", "Comment", extra)
    lim("q", A, "after_quoted", '"a"(' + "c" * (k - 5) + ")@x(?)", B + "a comment after a quoted part, one byte of another comment arbitrary", "Comment", extra)
    lim("q", A, "both", "(cc)" + "a" * 40 + "(" + "c" * (k - 46) + ")@x(?)", B + "comments before and after, one byte of another comment arbitrary", "Comment", extra)
    lim("q", "MailDDAAA", "letter", "a" * (k - 2) + "\u00c2?@x", B + "ends with an arbitrary character of two bytes", "Letter", extra)
    lim("q", "MailDDAAA", "letter_quoted", '"' + "a" * (k - 4) + '\u00c2?"@x', B + "quoted, ends with an arbitrary character of two bytes", "Letter", extra)
    d = 255 + extra
    B = "domain part of %d bytes: " % d
    lim("q", A, "domain_after", "a@x(" + "c" * (d - 4) + "?)", B + "a comment after, the last byte arbitrary", "Comment", extra)
    lim("q", A, "domain_both", "a@(" + "c" * (d - 6) + ")x(?)", B + "a comment before and one arbitrary byte in a comment after", "Comment", extra)
    lim("q", A, "total", "a" * 64 + "@x(" + "c" * (d - 4) + "?)", "addresses of %d bytes: a local part of 64 bytes and a domain part of %d bytes, the last byte of a comment arbitrary" % (65 + d, d), "Comment", extra)
o.append("""
fn mapped<T: Mail, const L: usize>(s: &mut Src, text: &[u8; L], at: usize, fits: bool) {
    let mut b = *text;
    b[at] = s.within(0, 127);
    let ok = fits && b[at] != b')';
    match T::str_(st(&b)) {
        None => assert!(!ok, "a domain part of at most 255 bytes after the mapping is accepted"),
        Some(r) => {
            assert!(ok, "a domain part of more than 255 bytes after the mapping is refused");
            let host = match &r.host {
                Host::Domain(d) => is(d, b"xn--tda", (0, 7)),
                _ => false,
            };
            let comment = match &r.comments[3] {
                Some(c) => is(c, &b, (5, L - 1)),
                None => false,
            };
            assert!(host && comment, "the parts are those of the text");
        }
    }
}
""")
for k in (255, 256):
    # a@\xC3\xBC(c...c?)
    n = k - 5 - 5
    text = 'a@\\xC3\\xBC(' + "c" * n + "?)"
    L = 5 + n + 2
    o.append(harness(MEM + "#[kani::stub(idna::Config::to_ascii, crate::idn::stub_longer)] " + V4 + V6 + SHOW, L + 2, "q_adaad_mapped_%d" % k, 1, "domain parts which are %d bytes long once the name is mapped, the last byte of a comment arbitrary" % k,
        'mapped::<MailADAAD, %d>(s, b"%s", %d, %s)' % (L, text, L - 2, "true" if k == 255 else "false")))
write("c19", "\n".join(o))
