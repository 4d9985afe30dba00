#!/usr/bin/env python3
"""The domain part of email addresses in all 27 combinations of the address, local and labels policies."""
from gen_mail import *
o = []
T = ["MailD%s%s%sD" % (i, l, t) for i in "AMD" for l in "AMD" for t in "AMD"]
C = ["MailAAAMD", "MailAAAAD", "MailAMAMD", "MailAMAAD", "MailADAMD", "MailADAAD"]
for t in T + C: o.append(mail(t))
o.append("""
fn join(parts: &[&str]) -> String {
    let mut t = String::new();
    for p in parts {
        t.push_str(p);
    }
    t
}
fn text<T: Mail>(b: &[u8]) -> bool {
    compare::<T>(b, None)
}
/// an arbitrary address in brackets, with the right tag and with the wrong one
fn literals<T: Mail>(s: &mut Src) {
    let a = Ip::V4(s.u32());
    let b = Ip::V6(s.u128());
    let (ta, tb) = (ip_text(a), ip_text(b));
    compare::<T>(join(&["a@[", &ta, "]"]).as_bytes(), Some(a));
    compare::<T>(join(&["a@[IPv6:", &tb, "]"]).as_bytes(), Some(b));
    compare::<T>(join(&["a@[", &tb, "]"]).as_bytes(), None);
    compare::<T>(join(&["a@[IPv6:", &ta, "]"]).as_bytes(), None);
}
fn names<T: Mail>() {
    text::<T>(b"a@LocalHost");
    text::<T>(b"a@x");
    text::<T>(b"a@x.Y");
    text::<T>(b"a@localhost.x");
}
/// where literals or names are refused anyway
fn refused<T: Mail>(s: &mut Src) {
    let a = Ip::V4(s.u32());
    let b = Ip::V6(s.u128());
    compare::<T>(join(&["a@[", &ip_text(a), "]"]).as_bytes(), Some(a));
    compare::<T>(join(&["a@[IPv6:", &ip_text(b), "]"]).as_bytes(), Some(b));
}
fn two_names<T: Mail>() {
    text::<T>(b"a@LocalHost");
    text::<T>(b"a@x");
}
fn dotted<T: Mail>() {
    text::<T>(b"a@x.");
    text::<T>(b"a@localhost.");
    text::<T>(b"a@x.y.");
}
/// an arbitrary address in brackets between comments
fn around<T: Mail>(s: &mut Src) {
    let a = Ip::V4(s.u32());
    let b = Ip::V6(s.u128());
    let (ta, tb) = (ip_text(a), ip_text(b));
    compare::<T>(join(&["a@(c)[", &ta, "](d)"]).as_bytes(), Some(a));
    compare::<T>(join(&["a@(c)[IPv6:", &tb, "](d)"]).as_bytes(), Some(b));
}
/// an arbitrary address in brackets with an arbitrary byte behind
fn behind<T: Mail>(s: &mut Src) {
    let a = Ip::V4(s.u32());
    let x = [s.within(0, 127)];
    compare::<T>(join(&["a@[", &ip_text(a), "]", st(&x)]).as_bytes(), Some(a));
}
/// N arbitrary bytes somewhere in the text of an IPv4 literal
fn literal4<T: Mail, const N: usize, const L: usize>(s: &mut Src, template: &[u8; L], at: usize) {
    let m = s.ascii::<N>();
    let mut b = *template;
    let mut i = 0;
    while i < N {
        b[at + i] = m[i];
        i += 1;
    }
    let ip = crate::ipmodel::v4(&b[3..L - 1]);
    compare::<T>(&b, ip.map(Ip::V4));
}
/// the same for an IPv6 literal
fn literal6<T: Mail, const N: usize, const L: usize>(s: &mut Src, template: &[u8; L], at: usize) {
    let m = s.ascii::<N>();
    let mut b = *template;
    let mut i = 0;
    while i < N {
        b[at + i] = m[i];
        i += 1;
    }
    let ip = crate::ipmodel::v6(&b[8..L - 1]);
    compare::<T>(&b, ip.map(Ip::V6));
}
/// an arbitrary byte in a name
fn name<T: Mail, const L: usize>(s: &mut Src, template: &[u8; L], at: usize) {
    let mut b = *template;
    b[at] = s.within(0, 127);
    compare::<T>(&b, None);
}
""")
for t in T:
    i = t[5:8].lower()
    if i[0] == "d" or i[2] == "d":
        o.append(harness(ALL, 20, "q_policy_" + i, 20, "every IPv4 and every IPv6 address in brackets; LocalHost, a name of one label, names of two labels", "refused::<%s>(s);\n    names::<%s>()" % (t, t)))
    elif i[0] == "m":
        o.append(harness(ALL, 20, "q_policy_" + i, 20, "every IPv4 and every IPv6 address in brackets, with and without the tag; LocalHost, a name of one label", "literals::<%s>(s);\n    two_names::<%s>()" % (t, t)))
    else:
        o.append(harness(ALL, 20, "q_literal_" + i, 20, "every IPv4 and every IPv6 address in brackets, with and without the tag", "literals::<%s>(s)" % t))
        o.append(harness(ALL, 20, "q_names_" + i, 1, "LocalHost, a name of one label, names of two labels", "let _ = s;\n    names::<%s>()" % t))
    o.append(harness(ALL, 20, ("q" if i in ("aaa", "daa", "dmd", "add") else "t") + "_dotted_" + i, 1, "names with a root dot", "let _ = s;\n    dotted::<%s>()" % t))
for t in C:
    i = t[5:8].lower()
    o.append(harness(ALL, 22, "q_around_" + i, 20, "every IPv4 and every IPv6 address in brackets between comments", "around::<%s>(s)" % t))
for t in ("MailAAAAD", "MailDAAAD", "MailDMMMD"):
    o.append(harness(ALL, 22, "q_behind_" + t[4:8].lower(), 5, "every IPv4 address in brackets with an arbitrary byte behind", "behind::<%s>(s)" % t))
NOV4 = MEM + IDN + "#[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::model6)] " + SHOW.replace("show6", "show6_any")
for t in ("MailDAAAD", "MailDADAD", "MailDMMAD"):
    for name, text, n in (("first", "a@[?.2.3.4]", 1), ("end", "a@[1.2.3.??]", 2), ("mid", "a@[10.?.0.1]", 1), ("dot", "a@[127.0.0?1]", 1)):
        at = text.index("?")
        assert text.count("?") == n
        o.append(harness(NOV4, len(text) + 2, "%s_v4_%s_%s" % ("q" if t == "MailDADAD" and name in ("end", "dot") else "t", t[5:8].lower(), name), n, "every ASCII text of %d bytes at the marks in %s" % (n, text),
                         'literal4::<%s, %d, %d>(s, b"%s", %d)' % (t, n, len(text), text, at)))
    for name, text, n in (("short", "a@[IPv6:::?]", 1), ("first", "a@[IPv6:??::1]", 2), ("bare", "a@[IPv6:??]", 2), ("colon", "a@[IPv6:1?:2]", 1)):
        at = text.index("?")
        assert text.count("?") == n
        o.append(harness(NOV4, max(len(text) + 2, 14), "%s_v6_%s_%s" % ("q" if t == "MailDADAD" else "t", t[5:8].lower(), name), n, "every ASCII text of %d bytes at the marks in %s" % (n, text),
                         'literal6::<%s, %d, %d>(s, b"%s", %d)' % (t, n, len(text), text, at)))
for t in ("MailDAMMD", "MailDDAMD", "MailDDDDD"):
    for name, text in (("local", "a@localhos?"), ("label", "a@x?y"), ("first", "a@?ocalhost")):
        o.append(harness(ALL, len(text) + 2, "%s_name_%s_%s" % ("t" if name == "first" else "q", t[5:8].lower(), name), 1, "every byte at the mark in %s" % text, 'name::<%s, %d>(s, b"%s", %d)' % (t, len(text), text, text.index("?"))))
write("c20", "\n".join(o))
