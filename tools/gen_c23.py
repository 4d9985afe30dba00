#!/usr/bin/env python3
"""The result wrapper around a validator which records what it is asked and answers as it is told."""
import os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src")
HEAD = r'''// Written by tools/gen_c23.py
//! `Spy` stands for any validator: it records the input which reaches it and accepts or refuses as the harness wants.
use core::marker::PhantomData;
use validators::errors::*;
use validators::prelude::*;
use validators::serde;
use validators::serde::de::{value, DeserializeOwned, Deserializer, IntoDeserializer};
use validators::Result as Wrapped;

use crate::nope::Nope;
#[cfg(not(kani))]
use crate::kani;
use crate::util::{st, Src};

#[derive(Clone, Copy, PartialEq)]
enum Seen {
    Nothing,
    Text([u8; 4], usize),
    Bytes([u8; 4], usize),
    Bool(bool),
    Char(char),
    Signed(i128),
    Unsigned(u128),
    Float(u64),
    Json,
    Size(usize),
}
static mut SEEN: Seen = Seen::Nothing;
static mut CALLS: u8 = 0;
/// the token of the accepted value, or refused
static mut ANSWER: Option<u16> = None;

struct Spy<E>(u16, PhantomData<E>);

/// an error which is not the one with which the wrapper itself refuses
trait Own {
    fn own() -> Self;
    fn is_own(&self) -> bool;
}

fn note<E: Own>(s: Seen) -> Result<Spy<E>, E> {
    unsafe {
        SEEN = s;
        CALLS += 1;
        match ANSWER {
            Some(t) => Ok(Spy(t, PhantomData)),
            None => Err(E::own()),
        }
    }
}
fn four(b: &[u8]) -> ([u8; 4], usize) {
    let mut o = [0u8; 4];
    let mut i = 0;
    while i < 4 && i < b.len() {
        o[i] = b[i];
        i += 1;
    }
    (o, b.len())
}
fn float(f: f64) -> Seen {
    if f.is_nan() { Seen::Float(f64::NAN.to_bits()) } else { Seen::Float(f.to_bits()) }
}

impl<E: Own> ValidateString for Spy<E> {
    type Error = E;
    fn parse_string<S: Into<String>>(s: S) -> Result<Self, E> {
        let s = s.into();
        let (b, n) = four(s.as_bytes());
        note(Seen::Text(b, n))
    }
    fn parse_str<S: AsRef<str>>(s: S) -> Result<Self, E> {
        let (b, n) = four(s.as_ref().as_bytes());
        note(Seen::Text(b, n))
    }
    fn validate_str<S: AsRef<str>>(_s: S) -> Result<(), E> {
        unreachable!()
    }
}
impl<E: Own> ValidateBytes for Spy<E> {
    type Error = E;
    fn parse_vec_u8<V: Into<Vec<u8>>>(v: V) -> Result<Self, E> {
        let v = v.into();
        let (b, n) = four(&v);
        note(Seen::Bytes(b, n))
    }
    fn parse_u8_slice<V: AsRef<[u8]>>(v: V) -> Result<Self, E> {
        let (b, n) = four(v.as_ref());
        note(Seen::Bytes(b, n))
    }
    fn validate_u8_slice<V: AsRef<[u8]>>(_v: V) -> Result<(), E> {
        unreachable!()
    }
}
impl<E: Own> ValidateBoolean for Spy<E> {
    type Error = E;
    fn parse_bool(b: bool) -> Result<Self, E> {
        note(Seen::Bool(b))
    }
    fn validate_bool(_b: bool) -> Result<(), E> {
        unreachable!()
    }
}
impl<E: Own> ValidateChar for Spy<E> {
    type Error = E;
    fn parse_char(c: char) -> Result<Self, E> {
        note(Seen::Char(c))
    }
    fn validate_char(_c: char) -> Result<(), E> {
        unreachable!()
    }
}
/// the other widths are those of the trait
impl<E: Own> ValidateSignedInteger for Spy<E> {
    type Error = E;
    fn parse_i128(i: i128) -> Result<Self, E> {
        note(Seen::Signed(i))
    }
    fn validate_i128(i: i128) -> Result<(), E> {
        note::<E>(Seen::Signed(i)).map(|_| ())
    }
}
impl<E: Own> ValidateUnsignedInteger for Spy<E> {
    type Error = E;
    fn parse_u128(u: u128) -> Result<Self, E> {
        note(Seen::Unsigned(u))
    }
    fn validate_u128(u: u128) -> Result<(), E> {
        note::<E>(Seen::Unsigned(u)).map(|_| ())
    }
}
impl<E: Own> ValidateNumber for Spy<E> {
    type Error = E;
    fn parse_f64(f: f64) -> Result<Self, E> {
        note(float(f))
    }
    fn validate_f64(f: f64) -> Result<(), E> {
        note::<E>(float(f)).map(|_| ())
    }
}
struct Sized_(usize);
impl CollectionLength for Sized_ {
    fn len(&self) -> usize {
        self.0
    }
}
impl<'de> serde::Deserialize<'de> for Sized_ {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        <u64 as serde::Deserialize>::deserialize(d).map(|n| Sized_(n as usize))
    }
}
impl<E: Own> ValidateLength<Sized_> for Spy<E> {
    type Error = E;
    fn parse_collection(v: Sized_) -> Result<Self, E> {
        note(Seen::Size(v.0))
    }
    fn validate_collection(_v: &Sized_) -> Result<(), E> {
        unreachable!()
    }
}

/// prepares the answer of the validator
fn tell(s: &mut Src) {
    unsafe {
        CALLS = 0;
        SEEN = Seen::Nothing;
        ANSWER = if s.bool() { Some(s.u16()) } else { None };
    }
}
fn captured<E: Own, K>(r: Wrapped<Spy<E>, E, K>, seen: Seen) {
    unsafe {
        assert!(CALLS == 1 && SEEN == seen, "the validator is asked once about the input");
        match (r.as_std_result(), ANSWER) {
            (Ok(v), Some(t)) => assert!(v.0 == t, "the value of the validator is captured"),
            (Err(e), None) => assert!(e.is_own(), "the error of the validator is captured"),
            _ => assert!(false, "the outcome is that of the validator"),
        }
        match (r.into_std_result(), ANSWER) {
            (Ok(v), Some(t)) => assert!(v.0 == t),
            (Err(e), None) => assert!(e.is_own()),
            _ => assert!(false, "the outcome is kept by the conversion"),
        }
    }
}
type W<E> = Wrapped<Spy<E>, E>;
fn text(s: &mut Src) -> ([u8; 4], usize, String) {
    let mut b = s.ascii::<4>();
    b[3] = 0;
    (b, 3, String::from(st(&b[..3])))
}
/// visit_str, visit_string and visit_borrowed_str
fn strings<E: Own>(s: &mut Src)
where
    W<E>: DeserializeOwned,
{
    tell(s);
    let (b, n, t) = text(s);
    let seen = Seen::Text(b, n);
    match <W<E> as serde::Deserialize>::deserialize(value::StrDeserializer::<Nope>::new(&t)) {
        Ok(r) => captured(r, seen),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
    tell(s);
    match <W<E> as serde::Deserialize>::deserialize(value::BorrowedStrDeserializer::<Nope>::new(&t)) {
        Ok(r) => captured(r, seen),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
    tell(s);
    match <W<E> as serde::Deserialize>::deserialize(value::StringDeserializer::<Nope>::new(t)) {
        Ok(r) => captured(r, seen),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
}
fn bytes<E: Own>(s: &mut Src)
where
    W<E>: DeserializeOwned,
{
    tell(s);
    let mut b = s.bytes::<4>();
    b[3] = 0;
    match <W<E> as serde::Deserialize>::deserialize(value::BytesDeserializer::<Nope>::new(&b[..3])) {
        Ok(r) => captured(r, Seen::Bytes(b, 3)),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
    tell(s);
    match <W<E> as serde::Deserialize>::deserialize(crate::nope::Buf(b[..3].to_vec())) {
        Ok(r) => captured(r, Seen::Bytes(b, 3)),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
}
fn from<E: Own, X>(s: &mut Src, x: X, seen: Seen)
where
    X: IntoDeserializer<'static, Nope>,
    W<E>: DeserializeOwned,
{
    tell(s);
    match <W<E> as serde::Deserialize>::deserialize(x.into_deserializer()) {
        Ok(r) => captured(r, seen),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
}
/// a number which cannot reach the validator
fn out_of_reach<E: Own, X>(s: &mut Src, x: X, which: fn(&E) -> bool)
where
    X: IntoDeserializer<'static, Nope>,
    W<E>: DeserializeOwned,
{
    tell(s);
    match <W<E> as serde::Deserialize>::deserialize(x.into_deserializer()) {
        Ok(r) => match r.as_std_result() {
            Ok(_) => assert!(false, "a number which the type cannot hold is refused"),
            Err(e) => assert!(which(e), "the error says on which side the number lies"),
        },
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
}
'''
o = []
ERR = [("Base32Error", "Invalid"), ("Base32DecodedError", "Decode"), ("Base64Error", "Invalid"), ("Base64DecodedError", "Decode"), ("Base64UrlError", "Invalid"), ("Base64UrlDecodedError", "Decode"),
       ("BooleanError", None), ("DomainError", "PortMust"), ("EmailError", "CommentDisallow"), ("HostError", "PortMust"), ("HttpURLError", "LocalMust"), ("HttpFtpURLError", "LocalMust"),
       ("IpError", "PortMust"), ("Ipv4Error", "PortMust"), ("Ipv6Error", "PortMust"), ("LineError", "TooLong"), ("MacAddressError", "SeparatorMust"), ("NumberError", "NaNMust"),
       ("RegexError", None), ("SignedIntegerError", "Forbidden"), ("TextError", "TooLong"), ("UnsignedIntegerError", "Forbidden"), ("UuidError", "SeparatorMust"), ("BitError", "TooLarge"), ("ByteError", "TooLarge"),
       ("UrlError", None), ("SemverError", None), ("LengthError", "TooLarge")]
H = []
def own(e, v): o.append("impl Own for %s {\n    fn own() -> Self {\n        %s\n    }\n    fn is_own(&self) -> bool {\n        matches!(self, %s)\n    }\n}" % (e, v, v))
for e, v in ERR:
    if v: own(e, "%s::%s" % (e, v))
o.append("""impl Own for RegexError {
    fn own() -> Self {
        RegexError
    }
    fn is_own(&self) -> bool {
        true
    }
}
impl Own for BooleanError {
    fn own() -> Self {
        BooleanError
    }
    fn is_own(&self) -> bool {
        true
    }
}
impl Own for UrlError {
    fn own() -> Self {
        UrlError(validators::url::ParseError::InvalidPort)
    }
    fn is_own(&self) -> bool {
        self.0 == validators::url::ParseError::InvalidPort
    }
}
impl Own for u8 {
    fn own() -> Self {
        7
    }
    fn is_own(&self) -> bool {
        *self == 7
    }
}""")
def h(name, n, bound, body, unwind=8):
    o.append('harness!(#[kani::unwind(%d)] %s, bytes = %d, bound = "%s", |s| {\n    %s\n});' % (unwind, name, n, bound, body))
for e, v in ERR:
    if e in ("BitError", "ByteError", "LengthError", "SemverError"): continue
    h("q_str_" + e[:-5].lower(), 13, "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", "strings::<%s>(s);" % e)
for e in ("Base32", "Base32Decoded", "Base64", "Base64Decoded", "Base64Url", "Base64UrlDecoded"):
    h("q_bytes_" + e.lower(), 10, "every 3 bytes and every outcome, borrowed and owned", "bytes::<%sError>(s);" % e)
h("q_boolean", 200, "every bool, char and integer of every width, and every outcome", """let x = s.bool();
    from::<BooleanError, _>(s, x, Seen::Bool(x));
    let x = s.char();
    from::<BooleanError, _>(s, x, Seen::Char(x));
    let x = s.u64();
    from::<BooleanError, _>(s, x, Seen::Unsigned(x as u128));
    from::<BooleanError, _>(s, x as i64, Seen::Signed(x as i64 as i128));
    from::<BooleanError, _>(s, x as u8, Seen::Unsigned(x as u8 as u128));
    from::<BooleanError, _>(s, x as i8, Seen::Signed(x as i8 as i128));
    let x = s.u128();
    from::<BooleanError, _>(s, x, Seen::Unsigned(x));
    from::<BooleanError, _>(s, x as i128, Seen::Signed(x as i128));""")
for w in (8, 16, 32, 64, 128):
    h("q_signed_%d" % w, 25, "every i%d and every outcome" % w, "let x = s.u128() as i%d;\n    from::<SignedIntegerError, _>(s, x, Seen::Signed(x as i128));" % w)
    h("q_unsigned_%d" % w, 25, "every u%d and every outcome" % w, "let x = s.u128() as u%d;\n    from::<UnsignedIntegerError, _>(s, x, Seen::Unsigned(x as u128));" % w)
    if w < 128:
        h("q_signed_u%d" % w, 25, "every u%d and every outcome, for signed integers" % w, "let x = s.u128() as u%d;\n    from::<SignedIntegerError, _>(s, x, Seen::Signed(x as i128));" % w)
    h("q_unsigned_i%d" % w, 25, "every i%d and every outcome, for unsigned integers" % w, """let x = s.u128() as i%d;
    if x >= 0 {
        from::<UnsignedIntegerError, _>(s, x, Seen::Unsigned(x as u128));
    } else {
        out_of_reach::<UnsignedIntegerError, _>(s, x, |e| matches!(e, UnsignedIntegerError::TooSmall));
    }""" % w)
h("q_signed_u128", 25, "every u128 and every outcome, for signed integers", """let x = s.u128();
    if x <= i128::MAX as u128 {
        from::<SignedIntegerError, _>(s, x, Seen::Signed(x as i128));
    } else {
        out_of_reach::<SignedIntegerError, _>(s, x, |e| matches!(e, SignedIntegerError::TooLarge));
    }""")
h("q_number_float", 20, "every f32 and f64 and every outcome", """let x = f64::from_bits(s.u64());
    from::<NumberError, _>(s, x, float(x));
    let x = f32::from_bits(s.u32());
    from::<NumberError, _>(s, x, float(x as f64));""")
h("q_number_int", 40, "every i64, u64, i32 and u32 and every outcome", """let x = s.u64();
    from::<NumberError, _>(s, x, float(x as f64));
    from::<NumberError, _>(s, x as i64, float(x as i64 as f64));
    from::<NumberError, _>(s, x as u32, float(x as u32 as f64));
    from::<NumberError, _>(s, x as i32, float(x as i32 as f64));""")
for e in ("Bit", "Byte"):
    h("q_%s" % e.lower(), 60, "every ASCII text of 3 bytes, every u128 and every outcome", """tell(s);
    let (b, n, t) = text(s);
    match <W<%sError> as serde::Deserialize>::deserialize(value::StringDeserializer::<Nope>::new(t)) {
        Ok(r) => captured(r, Seen::Text(b, n)),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
    tell(s);
    let x = s.u128();
    match <W<%sError> as serde::Deserialize>::deserialize(crate::nope::Compact(x)) {
        Ok(r) => captured(r, Seen::Unsigned(x)),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }""" % (e, e))
h("q_length", 20, "every length and every outcome", """tell(s);
    let n = s.u64();
    let r: Result<Wrapped<Spy<LengthError>, LengthError, Sized_>, Nope> = serde::Deserialize::deserialize(n.into_deserializer());
    match r {
        Ok(r) => captured(r, Seen::Size(n as usize)),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }""")
h("q_from_text", 40, "every ASCII text of 3 bytes, every 3 bytes, every char and bool, and every outcome", """let (b, n, t) = text(s);
    tell(s);
    match st(&b[..3]).parse::<W<u8>>() {
        Ok(r) => captured(r, Seen::Text(b, n)),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
    tell(s);
    captured(W::<u8>::from(st(&b[..3])), Seen::Text(b, n));
    tell(s);
    captured(W::<u8>::from(t), Seen::Text(b, n));
    tell(s);
    captured(W::<u8>::from(&b[..3]), Seen::Bytes(b, 3));
    tell(s);
    captured(W::<u8>::from(b[..3].to_vec()), Seen::Bytes(b, 3));
    tell(s);
    let c = s.char();
    captured(W::<u8>::from(c), Seen::Char(c));
    tell(s);
    let x = s.bool();
    captured(W::<u8>::from(x), Seen::Bool(x));""")
body = "let x = s.u128();\n"
for t in ("i8", "i16", "i32", "i64", "i128", "isize"):
    body += "    tell(s);\n    captured(W::<u8>::from(x as %s), Seen::Signed(x as %s as i128));\n" % (t, t)
for t in ("u8", "u16", "u32", "u64", "u128", "usize"):
    body += "    tell(s);\n    captured(W::<u8>::from(x as %s), Seen::Unsigned(x as %s as u128));\n" % (t, t)
body += "    tell(s);\n    let f = f64::from_bits(x as u64);\n    captured(W::<u8>::from(f), float(f));\n    tell(s);\n    let f = f32::from_bits(x as u32);\n    captured(W::<u8>::from(f), float(f as f64));"
h("q_from_number", 70, "every integer of every width, every f32 and f64 and every outcome", body)
body = "let x = s.u128();\n"
for t in ("i8", "i16", "i32", "i64", "i128", "isize"):
    body += "    tell(s);\n    told(Spy::<u8>::validate_%s(x as %s), Seen::Signed(x as %s as i128));\n" % (t, t, t)
for t in ("u8", "u16", "u32", "u64", "u128", "usize"):
    body += "    tell(s);\n    told(Spy::<u8>::validate_%s(x as %s), Seen::Unsigned(x as %s as u128));\n" % (t, t, t)
body += "    tell(s);\n    let f = f32::from_bits(x as u32);\n    told(Spy::<u8>::validate_f32(f), float(f as f64));"
o.append("""fn told(r: Result<(), u8>, seen: Seen) {
    unsafe {
        assert!(CALLS == 1 && SEEN == seen, "every width reaches the validator with the same number");
        assert!(r.is_ok() == matches!(ANSWER, Some(_)), "with the same outcome");
    }
}""")
h("q_widths", 70, "every integer of every width and every f32, validated by a validator which handles the widest only", body)
h("q_std", 10, "every value and every error", """tell(s);
    let r: Result<Spy<u8>, u8> = note(Seen::Nothing);
    let w = W::<u8>::from(r);
    assert!((*w).is_ok() == unsafe { matches!(ANSWER, Some(_)) }, "the outcome can be looked at");
    let mut w = w;
    assert!((*w).as_mut().is_ok() == unsafe { matches!(ANSWER, Some(_)) }, "the outcome can be looked at");
    let r: Result<Spy<u8>, u8> = w.into();
    captured::<u8, ()>(Wrapped::new(r), Seen::Nothing);""")
open(os.path.join(R, "c23.rs"), "w").write(HEAD + "\n".join(o) + "\n")
