// Written by tools/gen_c23.py
//! `Spy` stands for any validator: it records the input which reaches it and accepts or refuses as the harness wants.
use core::marker::PhantomData;
use validators::errors::*;
use validators::prelude::*;
use validators::serde;
use validators::serde::de::{value, DeserializeOwned, Deserializer, IntoDeserializer};
use validators::Result as Wrapped;

use crate::nope::Nope;
#[cfg(not(kani))]
use crate::kani;
use crate::util::{st, Src};

#[derive(Clone, Copy, PartialEq)]
enum Seen {
    Nothing,
    Text([u8; 4], usize),
    Bytes([u8; 4], usize),
    Bool(bool),
    Char(char),
    Signed(i128),
    Unsigned(u128),
    Float(u64),
    Json,
    Size(usize),
}
static mut SEEN: Seen = Seen::Nothing;
static mut CALLS: u8 = 0;
/// the token of the accepted value, or refused
static mut ANSWER: Option<u16> = None;

struct Spy<E>(u16, PhantomData<E>);

/// an error which is not the one with which the wrapper itself refuses
trait Own {
    fn own() -> Self;
    fn is_own(&self) -> bool;
}

fn note<E: Own>(s: Seen) -> Result<Spy<E>, E> {
    unsafe {
        SEEN = s;
        CALLS += 1;
        match ANSWER {
            Some(t) => Ok(Spy(t, PhantomData)),
            None => Err(E::own()),
        }
    }
}
fn four(b: &[u8]) -> ([u8; 4], usize) {
    let mut o = [0u8; 4];
    let mut i = 0;
    while i < 4 && i < b.len() {
        o[i] = b[i];
        i += 1;
    }
    (o, b.len())
}
fn float(f: f64) -> Seen {
    if f.is_nan() { Seen::Float(f64::NAN.to_bits()) } else { Seen::Float(f.to_bits()) }
}

impl<E: Own> ValidateString for Spy<E> {
    type Error = E;
    fn parse_string<S: Into<String>>(s: S) -> Result<Self, E> {
        let s = s.into();
        let (b, n) = four(s.as_bytes());
        note(Seen::Text(b, n))
    }
    fn parse_str<S: AsRef<str>>(s: S) -> Result<Self, E> {
        let (b, n) = four(s.as_ref().as_bytes());
        note(Seen::Text(b, n))
    }
    fn validate_str<S: AsRef<str>>(_s: S) -> Result<(), E> {
        unreachable!()
    }
}
impl<E: Own> ValidateBytes for Spy<E> {
    type Error = E;
    fn parse_vec_u8<V: Into<Vec<u8>>>(v: V) -> Result<Self, E> {
        let v = v.into();
        let (b, n) = four(&v);
        note(Seen::Bytes(b, n))
    }
    fn parse_u8_slice<V: AsRef<[u8]>>(v: V) -> Result<Self, E> {
        let (b, n) = four(v.as_ref());
        note(Seen::Bytes(b, n))
    }
    fn validate_u8_slice<V: AsRef<[u8]>>(_v: V) -> Result<(), E> {
        unreachable!()
    }
}
impl<E: Own> ValidateBoolean for Spy<E> {
    type Error = E;
    fn parse_bool(b: bool) -> Result<Self, E> {
        note(Seen::Bool(b))
    }
    fn validate_bool(_b: bool) -> Result<(), E> {
        unreachable!()
    }
}
impl<E: Own> ValidateChar for Spy<E> {
    type Error = E;
    fn parse_char(c: char) -> Result<Self, E> {
        note(Seen::Char(c))
    }
    fn validate_char(_c: char) -> Result<(), E> {
        unreachable!()
    }
}
/// the other widths are those of the trait
impl<E: Own> ValidateSignedInteger for Spy<E> {
    type Error = E;
    fn parse_i128(i: i128) -> Result<Self, E> {
        note(Seen::Signed(i))
    }
    fn validate_i128(i: i128) -> Result<(), E> {
        note::<E>(Seen::Signed(i)).map(|_| ())
    }
}
impl<E: Own> ValidateUnsignedInteger for Spy<E> {
    type Error = E;
    fn parse_u128(u: u128) -> Result<Self, E> {
        note(Seen::Unsigned(u))
    }
    fn validate_u128(u: u128) -> Result<(), E> {
        note::<E>(Seen::Unsigned(u)).map(|_| ())
    }
}
impl<E: Own> ValidateNumber for Spy<E> {
    type Error = E;
    fn parse_f64(f: f64) -> Result<Self, E> {
        note(float(f))
    }
    fn validate_f64(f: f64) -> Result<(), E> {
        note::<E>(float(f)).map(|_| ())
    }
}
struct Sized_(usize);
impl CollectionLength for Sized_ {
    fn len(&self) -> usize {
        self.0
    }
}
impl<'de> serde::Deserialize<'de> for Sized_ {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        <u64 as serde::Deserialize>::deserialize(d).map(|n| Sized_(n as usize))
    }
}
impl<E: Own> ValidateLength<Sized_> for Spy<E> {
    type Error = E;
    fn parse_collection(v: Sized_) -> Result<Self, E> {
        note(Seen::Size(v.0))
    }
    fn validate_collection(_v: &Sized_) -> Result<(), E> {
        unreachable!()
    }
}

/// prepares the answer of the validator
fn tell(s: &mut Src) {
    unsafe {
        CALLS = 0;
        SEEN = Seen::Nothing;
        ANSWER = if s.bool() { Some(s.u16()) } else { None };
    }
}
fn captured<E: Own, K>(r: Wrapped<Spy<E>, E, K>, seen: Seen) {
    unsafe {
        assert!(CALLS == 1 && SEEN == seen, "the validator is asked once about the input");
        match (r.as_std_result(), ANSWER) {
            (Ok(v), Some(t)) => assert!(v.0 == t, "the value of the validator is captured"),
            (Err(e), None) => assert!(e.is_own(), "the error of the validator is captured"),
            _ => assert!(false, "the outcome is that of the validator"),
        }
        match (r.into_std_result(), ANSWER) {
            (Ok(v), Some(t)) => assert!(v.0 == t),
            (Err(e), None) => assert!(e.is_own()),
            _ => assert!(false, "the outcome is kept by the conversion"),
        }
    }
}
type W<E> = Wrapped<Spy<E>, E>;
fn text(s: &mut Src) -> ([u8; 4], usize, String) {
    let mut b = s.ascii::<4>();
    b[3] = 0;
    (b, 3, String::from(st(&b[..3])))
}
/// visit_str, visit_string and visit_borrowed_str
fn strings<E: Own>(s: &mut Src)
where
    W<E>: DeserializeOwned,
{
    tell(s);
    let (b, n, t) = text(s);
    let seen = Seen::Text(b, n);
    match <W<E> as serde::Deserialize>::deserialize(value::StrDeserializer::<Nope>::new(&t)) {
        Ok(r) => captured(r, seen),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
    tell(s);
    match <W<E> as serde::Deserialize>::deserialize(value::BorrowedStrDeserializer::<Nope>::new(&t)) {
        Ok(r) => captured(r, seen),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
    tell(s);
    match <W<E> as serde::Deserialize>::deserialize(value::StringDeserializer::<Nope>::new(t)) {
        Ok(r) => captured(r, seen),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
}
fn bytes<E: Own>(s: &mut Src)
where
    W<E>: DeserializeOwned,
{
    tell(s);
    let mut b = s.bytes::<4>();
    b[3] = 0;
    match <W<E> as serde::Deserialize>::deserialize(value::BytesDeserializer::<Nope>::new(&b[..3])) {
        Ok(r) => captured(r, Seen::Bytes(b, 3)),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
    tell(s);
    match <W<E> as serde::Deserialize>::deserialize(crate::nope::Buf(b[..3].to_vec())) {
        Ok(r) => captured(r, Seen::Bytes(b, 3)),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
}
fn from<E: Own, X>(s: &mut Src, x: X, seen: Seen)
where
    X: IntoDeserializer<'static, Nope>,
    W<E>: DeserializeOwned,
{
    tell(s);
    match <W<E> as serde::Deserialize>::deserialize(x.into_deserializer()) {
        Ok(r) => captured(r, seen),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
}
/// a number which cannot reach the validator
fn out_of_reach<E: Own, X>(s: &mut Src, x: X, which: fn(&E) -> bool)
where
    X: IntoDeserializer<'static, Nope>,
    W<E>: DeserializeOwned,
{
    tell(s);
    match <W<E> as serde::Deserialize>::deserialize(x.into_deserializer()) {
        Ok(r) => match r.as_std_result() {
            Ok(_) => assert!(false, "a number which the type cannot hold is refused"),
            Err(e) => assert!(which(e), "the error says on which side the number lies"),
        },
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
}
impl Own for Base32Error {
    fn own() -> Self {
        Base32Error::Invalid
    }
    fn is_own(&self) -> bool {
        matches!(self, Base32Error::Invalid)
    }
}
impl Own for Base32DecodedError {
    fn own() -> Self {
        Base32DecodedError::Decode
    }
    fn is_own(&self) -> bool {
        matches!(self, Base32DecodedError::Decode)
    }
}
impl Own for Base64Error {
    fn own() -> Self {
        Base64Error::Invalid
    }
    fn is_own(&self) -> bool {
        matches!(self, Base64Error::Invalid)
    }
}
impl Own for Base64DecodedError {
    fn own() -> Self {
        Base64DecodedError::Decode
    }
    fn is_own(&self) -> bool {
        matches!(self, Base64DecodedError::Decode)
    }
}
impl Own for Base64UrlError {
    fn own() -> Self {
        Base64UrlError::Invalid
    }
    fn is_own(&self) -> bool {
        matches!(self, Base64UrlError::Invalid)
    }
}
impl Own for Base64UrlDecodedError {
    fn own() -> Self {
        Base64UrlDecodedError::Decode
    }
    fn is_own(&self) -> bool {
        matches!(self, Base64UrlDecodedError::Decode)
    }
}
impl Own for DomainError {
    fn own() -> Self {
        DomainError::PortMust
    }
    fn is_own(&self) -> bool {
        matches!(self, DomainError::PortMust)
    }
}
impl Own for EmailError {
    fn own() -> Self {
        EmailError::CommentDisallow
    }
    fn is_own(&self) -> bool {
        matches!(self, EmailError::CommentDisallow)
    }
}
impl Own for HostError {
    fn own() -> Self {
        HostError::PortMust
    }
    fn is_own(&self) -> bool {
        matches!(self, HostError::PortMust)
    }
}
impl Own for HttpURLError {
    fn own() -> Self {
        HttpURLError::LocalMust
    }
    fn is_own(&self) -> bool {
        matches!(self, HttpURLError::LocalMust)
    }
}
impl Own for HttpFtpURLError {
    fn own() -> Self {
        HttpFtpURLError::LocalMust
    }
    fn is_own(&self) -> bool {
        matches!(self, HttpFtpURLError::LocalMust)
    }
}
impl Own for IpError {
    fn own() -> Self {
        IpError::PortMust
    }
    fn is_own(&self) -> bool {
        matches!(self, IpError::PortMust)
    }
}
impl Own for Ipv4Error {
    fn own() -> Self {
        Ipv4Error::PortMust
    }
    fn is_own(&self) -> bool {
        matches!(self, Ipv4Error::PortMust)
    }
}
impl Own for Ipv6Error {
    fn own() -> Self {
        Ipv6Error::PortMust
    }
    fn is_own(&self) -> bool {
        matches!(self, Ipv6Error::PortMust)
    }
}
impl Own for LineError {
    fn own() -> Self {
        LineError::TooLong
    }
    fn is_own(&self) -> bool {
        matches!(self, LineError::TooLong)
    }
}
impl Own for MacAddressError {
    fn own() -> Self {
        MacAddressError::SeparatorMust
    }
    fn is_own(&self) -> bool {
        matches!(self, MacAddressError::SeparatorMust)
    }
}
impl Own for NumberError {
    fn own() -> Self {
        NumberError::NaNMust
    }
    fn is_own(&self) -> bool {
        matches!(self, NumberError::NaNMust)
    }
}
impl Own for SignedIntegerError {
    fn own() -> Self {
        SignedIntegerError::Forbidden
    }
    fn is_own(&self) -> bool {
        matches!(self, SignedIntegerError::Forbidden)
    }
}
impl Own for TextError {
    fn own() -> Self {
        TextError::TooLong
    }
    fn is_own(&self) -> bool {
        matches!(self, TextError::TooLong)
    }
}
impl Own for UnsignedIntegerError {
    fn own() -> Self {
        UnsignedIntegerError::Forbidden
    }
    fn is_own(&self) -> bool {
        matches!(self, UnsignedIntegerError::Forbidden)
    }
}
impl Own for UuidError {
    fn own() -> Self {
        UuidError::SeparatorMust
    }
    fn is_own(&self) -> bool {
        matches!(self, UuidError::SeparatorMust)
    }
}
impl Own for BitError {
    fn own() -> Self {
        BitError::TooLarge
    }
    fn is_own(&self) -> bool {
        matches!(self, BitError::TooLarge)
    }
}
impl Own for ByteError {
    fn own() -> Self {
        ByteError::TooLarge
    }
    fn is_own(&self) -> bool {
        matches!(self, ByteError::TooLarge)
    }
}
impl Own for LengthError {
    fn own() -> Self {
        LengthError::TooLarge
    }
    fn is_own(&self) -> bool {
        matches!(self, LengthError::TooLarge)
    }
}
impl Own for RegexError {
    fn own() -> Self {
        RegexError
    }
    fn is_own(&self) -> bool {
        true
    }
}
impl Own for BooleanError {
    fn own() -> Self {
        BooleanError
    }
    fn is_own(&self) -> bool {
        true
    }
}
impl Own for UrlError {
    fn own() -> Self {
        UrlError(validators::url::ParseError::InvalidPort)
    }
    fn is_own(&self) -> bool {
        self.0 == validators::url::ParseError::InvalidPort
    }
}
impl Own for u8 {
    fn own() -> Self {
        7
    }
    fn is_own(&self) -> bool {
        *self == 7
    }
}
harness!(#[kani::unwind(8)] q_str_base32, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<Base32Error>(s);
});
harness!(#[kani::unwind(8)] q_str_base32decoded, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<Base32DecodedError>(s);
});
harness!(#[kani::unwind(8)] q_str_base64, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<Base64Error>(s);
});
harness!(#[kani::unwind(8)] q_str_base64decoded, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<Base64DecodedError>(s);
});
harness!(#[kani::unwind(8)] q_str_base64url, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<Base64UrlError>(s);
});
harness!(#[kani::unwind(8)] q_str_base64urldecoded, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<Base64UrlDecodedError>(s);
});
harness!(#[kani::unwind(8)] q_str_boolean, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<BooleanError>(s);
});
harness!(#[kani::unwind(8)] q_str_domain, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<DomainError>(s);
});
harness!(#[kani::unwind(8)] q_str_email, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<EmailError>(s);
});
harness!(#[kani::unwind(8)] q_str_host, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<HostError>(s);
});
harness!(#[kani::unwind(8)] q_str_httpurl, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<HttpURLError>(s);
});
harness!(#[kani::unwind(8)] q_str_httpftpurl, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<HttpFtpURLError>(s);
});
harness!(#[kani::unwind(8)] q_str_ip, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<IpError>(s);
});
harness!(#[kani::unwind(8)] q_str_ipv4, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<Ipv4Error>(s);
});
harness!(#[kani::unwind(8)] q_str_ipv6, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<Ipv6Error>(s);
});
harness!(#[kani::unwind(8)] q_str_line, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<LineError>(s);
});
harness!(#[kani::unwind(8)] q_str_macaddress, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<MacAddressError>(s);
});
harness!(#[kani::unwind(8)] q_str_number, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<NumberError>(s);
});
harness!(#[kani::unwind(8)] q_str_regex, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<RegexError>(s);
});
harness!(#[kani::unwind(8)] q_str_signedinteger, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<SignedIntegerError>(s);
});
harness!(#[kani::unwind(8)] q_str_text, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<TextError>(s);
});
harness!(#[kani::unwind(8)] q_str_unsignedinteger, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<UnsignedIntegerError>(s);
});
harness!(#[kani::unwind(8)] q_str_uuid, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<UuidError>(s);
});
harness!(#[kani::unwind(8)] q_str_url, bytes = 13, bound = "every ASCII text of 3 bytes and every outcome, three ways of handing over a string", |s| {
    strings::<UrlError>(s);
});
harness!(#[kani::unwind(8)] q_bytes_base32, bytes = 10, bound = "every 3 bytes and every outcome, borrowed and owned", |s| {
    bytes::<Base32Error>(s);
});
harness!(#[kani::unwind(8)] q_bytes_base32decoded, bytes = 10, bound = "every 3 bytes and every outcome, borrowed and owned", |s| {
    bytes::<Base32DecodedError>(s);
});
harness!(#[kani::unwind(8)] q_bytes_base64, bytes = 10, bound = "every 3 bytes and every outcome, borrowed and owned", |s| {
    bytes::<Base64Error>(s);
});
harness!(#[kani::unwind(8)] q_bytes_base64decoded, bytes = 10, bound = "every 3 bytes and every outcome, borrowed and owned", |s| {
    bytes::<Base64DecodedError>(s);
});
harness!(#[kani::unwind(8)] q_bytes_base64url, bytes = 10, bound = "every 3 bytes and every outcome, borrowed and owned", |s| {
    bytes::<Base64UrlError>(s);
});
harness!(#[kani::unwind(8)] q_bytes_base64urldecoded, bytes = 10, bound = "every 3 bytes and every outcome, borrowed and owned", |s| {
    bytes::<Base64UrlDecodedError>(s);
});
harness!(#[kani::unwind(8)] q_boolean, bytes = 200, bound = "every bool, char and integer of every width, and every outcome", |s| {
    let x = s.bool();
    from::<BooleanError, _>(s, x, Seen::Bool(x));
    let x = s.char();
    from::<BooleanError, _>(s, x, Seen::Char(x));
    let x = s.u64();
    from::<BooleanError, _>(s, x, Seen::Unsigned(x as u128));
    from::<BooleanError, _>(s, x as i64, Seen::Signed(x as i64 as i128));
    from::<BooleanError, _>(s, x as u8, Seen::Unsigned(x as u8 as u128));
    from::<BooleanError, _>(s, x as i8, Seen::Signed(x as i8 as i128));
    let x = s.u128();
    from::<BooleanError, _>(s, x, Seen::Unsigned(x));
    from::<BooleanError, _>(s, x as i128, Seen::Signed(x as i128));
});
harness!(#[kani::unwind(8)] q_signed_8, bytes = 25, bound = "every i8 and every outcome", |s| {
    let x = s.u128() as i8;
    from::<SignedIntegerError, _>(s, x, Seen::Signed(x as i128));
});
harness!(#[kani::unwind(8)] q_unsigned_8, bytes = 25, bound = "every u8 and every outcome", |s| {
    let x = s.u128() as u8;
    from::<UnsignedIntegerError, _>(s, x, Seen::Unsigned(x as u128));
});
harness!(#[kani::unwind(8)] q_signed_u8, bytes = 25, bound = "every u8 and every outcome, for signed integers", |s| {
    let x = s.u128() as u8;
    from::<SignedIntegerError, _>(s, x, Seen::Signed(x as i128));
});
harness!(#[kani::unwind(8)] q_unsigned_i8, bytes = 25, bound = "every i8 and every outcome, for unsigned integers", |s| {
    let x = s.u128() as i8;
    if x >= 0 {
        from::<UnsignedIntegerError, _>(s, x, Seen::Unsigned(x as u128));
    } else {
        out_of_reach::<UnsignedIntegerError, _>(s, x, |e| matches!(e, UnsignedIntegerError::TooSmall));
    }
});
harness!(#[kani::unwind(8)] q_signed_16, bytes = 25, bound = "every i16 and every outcome", |s| {
    let x = s.u128() as i16;
    from::<SignedIntegerError, _>(s, x, Seen::Signed(x as i128));
});
harness!(#[kani::unwind(8)] q_unsigned_16, bytes = 25, bound = "every u16 and every outcome", |s| {
    let x = s.u128() as u16;
    from::<UnsignedIntegerError, _>(s, x, Seen::Unsigned(x as u128));
});
harness!(#[kani::unwind(8)] q_signed_u16, bytes = 25, bound = "every u16 and every outcome, for signed integers", |s| {
    let x = s.u128() as u16;
    from::<SignedIntegerError, _>(s, x, Seen::Signed(x as i128));
});
harness!(#[kani::unwind(8)] q_unsigned_i16, bytes = 25, bound = "every i16 and every outcome, for unsigned integers", |s| {
    let x = s.u128() as i16;
    if x >= 0 {
        from::<UnsignedIntegerError, _>(s, x, Seen::Unsigned(x as u128));
    } else {
        out_of_reach::<UnsignedIntegerError, _>(s, x, |e| matches!(e, UnsignedIntegerError::TooSmall));
    }
});
harness!(#[kani::unwind(8)] q_signed_32, bytes = 25, bound = "every i32 and every outcome", |s| {
    let x = s.u128() as i32;
    from::<SignedIntegerError, _>(s, x, Seen::Signed(x as i128));
});
harness!(#[kani::unwind(8)] q_unsigned_32, bytes = 25, bound = "every u32 and every outcome", |s| {
    let x = s.u128() as u32;
    from::<UnsignedIntegerError, _>(s, x, Seen::Unsigned(x as u128));
});
harness!(#[kani::unwind(8)] q_signed_u32, bytes = 25, bound = "every u32 and every outcome, for signed integers", |s| {
    let x = s.u128() as u32;
    from::<SignedIntegerError, _>(s, x, Seen::Signed(x as i128));
});
harness!(#[kani::unwind(8)] q_unsigned_i32, bytes = 25, bound = "every i32 and every outcome, for unsigned integers", |s| {
    let x = s.u128() as i32;
    if x >= 0 {
        from::<UnsignedIntegerError, _>(s, x, Seen::Unsigned(x as u128));
    } else {
        out_of_reach::<UnsignedIntegerError, _>(s, x, |e| matches!(e, UnsignedIntegerError::TooSmall));
    }
});
harness!(#[kani::unwind(8)] q_signed_64, bytes = 25, bound = "every i64 and every outcome", |s| {
    let x = s.u128() as i64;
    from::<SignedIntegerError, _>(s, x, Seen::Signed(x as i128));
});
harness!(#[kani::unwind(8)] q_unsigned_64, bytes = 25, bound = "every u64 and every outcome", |s| {
    let x = s.u128() as u64;
    from::<UnsignedIntegerError, _>(s, x, Seen::Unsigned(x as u128));
});
harness!(#[kani::unwind(8)] q_signed_u64, bytes = 25, bound = "every u64 and every outcome, for signed integers", |s| {
    let x = s.u128() as u64;
    from::<SignedIntegerError, _>(s, x, Seen::Signed(x as i128));
});
harness!(#[kani::unwind(8)] q_unsigned_i64, bytes = 25, bound = "every i64 and every outcome, for unsigned integers", |s| {
    let x = s.u128() as i64;
    if x >= 0 {
        from::<UnsignedIntegerError, _>(s, x, Seen::Unsigned(x as u128));
    } else {
        out_of_reach::<UnsignedIntegerError, _>(s, x, |e| matches!(e, UnsignedIntegerError::TooSmall));
    }
});
harness!(#[kani::unwind(8)] q_signed_128, bytes = 25, bound = "every i128 and every outcome", |s| {
    let x = s.u128() as i128;
    from::<SignedIntegerError, _>(s, x, Seen::Signed(x as i128));
});
harness!(#[kani::unwind(8)] q_unsigned_128, bytes = 25, bound = "every u128 and every outcome", |s| {
    let x = s.u128() as u128;
    from::<UnsignedIntegerError, _>(s, x, Seen::Unsigned(x as u128));
});
harness!(#[kani::unwind(8)] q_unsigned_i128, bytes = 25, bound = "every i128 and every outcome, for unsigned integers", |s| {
    let x = s.u128() as i128;
    if x >= 0 {
        from::<UnsignedIntegerError, _>(s, x, Seen::Unsigned(x as u128));
    } else {
        out_of_reach::<UnsignedIntegerError, _>(s, x, |e| matches!(e, UnsignedIntegerError::TooSmall));
    }
});
harness!(#[kani::unwind(8)] q_signed_u128, bytes = 25, bound = "every u128 and every outcome, for signed integers", |s| {
    let x = s.u128();
    if x <= i128::MAX as u128 {
        from::<SignedIntegerError, _>(s, x, Seen::Signed(x as i128));
    } else {
        out_of_reach::<SignedIntegerError, _>(s, x, |e| matches!(e, SignedIntegerError::TooLarge));
    }
});
harness!(#[kani::unwind(8)] q_number_float, bytes = 20, bound = "every f32 and f64 and every outcome", |s| {
    let x = f64::from_bits(s.u64());
    from::<NumberError, _>(s, x, float(x));
    let x = f32::from_bits(s.u32());
    from::<NumberError, _>(s, x, float(x as f64));
});
harness!(#[kani::unwind(8)] q_number_int, bytes = 40, bound = "every i64, u64, i32 and u32 and every outcome", |s| {
    let x = s.u64();
    from::<NumberError, _>(s, x, float(x as f64));
    from::<NumberError, _>(s, x as i64, float(x as i64 as f64));
    from::<NumberError, _>(s, x as u32, float(x as u32 as f64));
    from::<NumberError, _>(s, x as i32, float(x as i32 as f64));
});
harness!(#[kani::unwind(8)] q_bit, bytes = 60, bound = "every ASCII text of 3 bytes, every u128 and every outcome", |s| {
    tell(s);
    let (b, n, t) = text(s);
    match <W<BitError> as serde::Deserialize>::deserialize(value::StringDeserializer::<Nope>::new(t)) {
        Ok(r) => captured(r, Seen::Text(b, n)),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
    tell(s);
    let x = s.u128();
    match <W<BitError> as serde::Deserialize>::deserialize(crate::nope::Compact(x)) {
        Ok(r) => captured(r, Seen::Unsigned(x)),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
});
harness!(#[kani::unwind(8)] q_byte, bytes = 60, bound = "every ASCII text of 3 bytes, every u128 and every outcome", |s| {
    tell(s);
    let (b, n, t) = text(s);
    match <W<ByteError> as serde::Deserialize>::deserialize(value::StringDeserializer::<Nope>::new(t)) {
        Ok(r) => captured(r, Seen::Text(b, n)),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
    tell(s);
    let x = s.u128();
    match <W<ByteError> as serde::Deserialize>::deserialize(crate::nope::Compact(x)) {
        Ok(r) => captured(r, Seen::Unsigned(x)),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
});
harness!(#[kani::unwind(8)] q_length, bytes = 20, bound = "every length and every outcome", |s| {
    tell(s);
    let n = s.u64();
    let r: Result<Wrapped<Spy<LengthError>, LengthError, Sized_>, Nope> = serde::Deserialize::deserialize(n.into_deserializer());
    match r {
        Ok(r) => captured(r, Seen::Size(n as usize)),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
});
harness!(#[kani::unwind(8)] q_from_text, bytes = 40, bound = "every ASCII text of 3 bytes, every 3 bytes, every char and bool, and every outcome", |s| {
    let (b, n, t) = text(s);
    tell(s);
    match st(&b[..3]).parse::<W<u8>>() {
        Ok(r) => captured(r, Seen::Text(b, n)),
        Err(_) => assert!(false, "the wrapper itself does not fail"),
    }
    tell(s);
    captured(W::<u8>::from(st(&b[..3])), Seen::Text(b, n));
    tell(s);
    captured(W::<u8>::from(t), Seen::Text(b, n));
    tell(s);
    captured(W::<u8>::from(&b[..3]), Seen::Bytes(b, 3));
    tell(s);
    captured(W::<u8>::from(b[..3].to_vec()), Seen::Bytes(b, 3));
    tell(s);
    let c = s.char();
    captured(W::<u8>::from(c), Seen::Char(c));
    tell(s);
    let x = s.bool();
    captured(W::<u8>::from(x), Seen::Bool(x));
});
harness!(#[kani::unwind(8)] q_from_number, bytes = 70, bound = "every integer of every width, every f32 and f64 and every outcome", |s| {
    let x = s.u128();
    tell(s);
    captured(W::<u8>::from(x as i8), Seen::Signed(x as i8 as i128));
    tell(s);
    captured(W::<u8>::from(x as i16), Seen::Signed(x as i16 as i128));
    tell(s);
    captured(W::<u8>::from(x as i32), Seen::Signed(x as i32 as i128));
    tell(s);
    captured(W::<u8>::from(x as i64), Seen::Signed(x as i64 as i128));
    tell(s);
    captured(W::<u8>::from(x as i128), Seen::Signed(x as i128 as i128));
    tell(s);
    captured(W::<u8>::from(x as isize), Seen::Signed(x as isize as i128));
    tell(s);
    captured(W::<u8>::from(x as u8), Seen::Unsigned(x as u8 as u128));
    tell(s);
    captured(W::<u8>::from(x as u16), Seen::Unsigned(x as u16 as u128));
    tell(s);
    captured(W::<u8>::from(x as u32), Seen::Unsigned(x as u32 as u128));
    tell(s);
    captured(W::<u8>::from(x as u64), Seen::Unsigned(x as u64 as u128));
    tell(s);
    captured(W::<u8>::from(x as u128), Seen::Unsigned(x as u128 as u128));
    tell(s);
    captured(W::<u8>::from(x as usize), Seen::Unsigned(x as usize as u128));
    tell(s);
    let f = f64::from_bits(x as u64);
    captured(W::<u8>::from(f), float(f));
    tell(s);
    let f = f32::from_bits(x as u32);
    captured(W::<u8>::from(f), float(f as f64));
});
fn told(r: Result<(), u8>, seen: Seen) {
    unsafe {
        assert!(CALLS == 1 && SEEN == seen, "every width reaches the validator with the same number");
        assert!(r.is_ok() == matches!(ANSWER, Some(_)), "with the same outcome");
    }
}
harness!(#[kani::unwind(8)] q_widths, bytes = 70, bound = "every integer of every width and every f32, validated by a validator which handles the widest only", |s| {
    let x = s.u128();
    tell(s);
    told(Spy::<u8>::validate_i8(x as i8), Seen::Signed(x as i8 as i128));
    tell(s);
    told(Spy::<u8>::validate_i16(x as i16), Seen::Signed(x as i16 as i128));
    tell(s);
    told(Spy::<u8>::validate_i32(x as i32), Seen::Signed(x as i32 as i128));
    tell(s);
    told(Spy::<u8>::validate_i64(x as i64), Seen::Signed(x as i64 as i128));
    tell(s);
    told(Spy::<u8>::validate_i128(x as i128), Seen::Signed(x as i128 as i128));
    tell(s);
    told(Spy::<u8>::validate_isize(x as isize), Seen::Signed(x as isize as i128));
    tell(s);
    told(Spy::<u8>::validate_u8(x as u8), Seen::Unsigned(x as u8 as u128));
    tell(s);
    told(Spy::<u8>::validate_u16(x as u16), Seen::Unsigned(x as u16 as u128));
    tell(s);
    told(Spy::<u8>::validate_u32(x as u32), Seen::Unsigned(x as u32 as u128));
    tell(s);
    told(Spy::<u8>::validate_u64(x as u64), Seen::Unsigned(x as u64 as u128));
    tell(s);
    told(Spy::<u8>::validate_u128(x as u128), Seen::Unsigned(x as u128 as u128));
    tell(s);
    told(Spy::<u8>::validate_usize(x as usize), Seen::Unsigned(x as usize as u128));
    tell(s);
    let f = f32::from_bits(x as u32);
    told(Spy::<u8>::validate_f32(f), float(f as f64));
});
harness!(#[kani::unwind(8)] q_std, bytes = 10, bound = "every value and every error", |s| {
    tell(s);
    let r: Result<Spy<u8>, u8> = note(Seen::Nothing);
    let w = W::<u8>::from(r);
    assert!((*w).is_ok() == unsafe { matches!(ANSWER, Some(_)) }, "the outcome can be looked at");
    let mut w = w;
    assert!((*w).as_mut().is_ok() == unsafe { matches!(ANSWER, Some(_)) }, "the outcome can be looked at");
    let r: Result<Spy<u8>, u8> = w.into();
    captured::<u8, ()>(Wrapped::new(r), Seen::Nothing);
});
