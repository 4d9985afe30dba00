// Written by tools/gen_c22.py
use validators::models::Host;
use validators::prelude::*;
use validators::serde;
use validators::serde::de::{value, DeserializeOwned, IntoDeserializer};

#[cfg(not(kani))]
use crate::kani;
use crate::nope::{Buf, Keep, Kept, Nope};
#[cfg(kani)]
use crate::net::stub;
use crate::net::{ip_text, port_text, Ip};
use crate::util::{st, Src};

/// any expression: it matches what the harness wants
pub struct Expression;
pub static EXPRESSION: Expression = Expression;
static mut MATCHES: bool = false;
impl Expression {
    pub fn is_match(&self, _s: &str) -> bool {
        unsafe { MATCHES }
    }
}

/// the value is read back from what it is serialized to
fn back<T: serde::Serialize + DeserializeOwned + PartialEq>(v: &T) -> Kept {
    match v.serialize(Keep) {
        Ok(k) => {
            match T::deserialize(k) {
                Ok(w) => assert!(*v == w, "a value is read back from what it is serialized to"),
                Err(_) => assert!(false, "what a value is serialized to is read back"),
            }
            k
        },
        Err(_) => {
            assert!(false, "a value is serialized");
            unreachable!()
        },
    }
}
fn same<T: PartialEq>(parsed: &Option<T>, read: Result<T, Nope>) {
    assert!(*parsed == read.ok(), "deserializing gives what parsing gives");
}
fn strings<T: ValidateString + DeserializeOwned + PartialEq>(t: &str) -> Option<T> {
    let p = T::parse_str(t).ok();
    same(&p, T::deserialize(value::StrDeserializer::<Nope>::new(t)));
    same(&p, T::deserialize(value::BorrowedStrDeserializer::<Nope>::new(t)));
    same(&p, T::deserialize(value::StringDeserializer::<Nope>::new(String::from(t))));
    p
}
fn bytes<T: ValidateBytes + DeserializeOwned + PartialEq>(b: &[u8]) {
    let p = T::parse_u8_slice(b).ok();
    same(&p, T::deserialize(value::BytesDeserializer::<Nope>::new(b)));
    same(&p, T::deserialize(Buf(b.to_vec())));
}
/// a text of the given one with one arbitrary byte
fn at<const N: usize>(s: &mut Src, base: &[u8; N], k: usize) -> [u8; N] {
    let mut b = *base;
    b[k] = s.within(0, 127);
    b
}
/// for types which read texts only
fn text_only<T: ValidateString + DeserializeOwned + PartialEq>(t: &str) {
    let p = T::parse_str(t).ok();
    same(&p, T::deserialize(value::StrDeserializer::<Nope>::new(t)));
}
fn owned_only<T: ValidateString + DeserializeOwned + PartialEq>(t: &str) {
    let p = T::parse_str(t).ok();
    same(&p, T::deserialize(value::StringDeserializer::<Nope>::new(String::from(t))));
}
/// a value is written, serialized as it is written, and read back
fn written<T: serde::Serialize + DeserializeOwned + PartialEq>(v: T, t: String) {
    match v.serialize(Keep) {
        Ok(k) => {
            assert!(k.is_text(&t), "what is written is serialized");
            match T::deserialize(value::StrDeserializer::<Nope>::new(&t)) {
                Ok(w) => assert!(v == w, "a value is read back from what it is serialized to"),
                Err(_) => assert!(false, "what a value is serialized to is read back"),
            }
        },
        Err(_) => assert!(false, "a value is serialized"),
    }
}
/// an address and perhaps a port
fn address(s: &mut Src, six: bool) -> std::net::IpAddr {
    let ip = s.u128();
    let ip = if six { Ip::V6(ip) } else { Ip::V4(ip as u32) };
    ip_text(ip);
    ip.std()
}
fn some_port(s: &mut Src, with: bool) -> Option<u16> {
    let p = s.u16();
    port_text(p);
    if with { Some(p) } else { None }
}
fn v4(ip: std::net::IpAddr) -> std::net::Ipv4Addr {
    match ip {
        std::net::IpAddr::V4(ip) => ip,
        _ => unreachable!(),
    }
}
fn v6(ip: std::net::IpAddr) -> std::net::Ipv6Addr {
    match ip {
        std::net::IpAddr::V6(ip) => ip,
        _ => unreachable!(),
    }
}
/// a name of two letters
fn name(s: &mut Src) -> String {
    let b = [s.within(b'a', b'z'), s.within(b'a', b'z')];
    String::from(st(&b))
}
/// texts which are serialized as they are
fn plain<T: ValidateString + serde::Serialize + DeserializeOwned + PartialEq>(t: &str) {
    if let Some(v) = strings::<T>(t) {
        assert!(back(&v).is_text(t), "a text is serialized as it is");
    }
}
/// a collection which is its length
#[derive(PartialEq)]
pub struct Counted(usize);
impl CollectionLength for Counted {
    fn len(&self) -> usize {
        self.0
    }
}
impl serde::Serialize for Counted {
    fn serialize<S: serde::Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        z.serialize_u64(self.0 as u64)
    }
}
impl<'de> serde::Deserialize<'de> for Counted {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        <u128 as serde::Deserialize>::deserialize(d).map(|n| Counted(n as usize))
    }
}
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Inside(min = -100, max = 27))))]
pub struct S8(pub i8);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Unlimited)))]
pub struct Su8(pub i8);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 200))))]
pub struct U8(pub u8);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Unlimited)))]
pub struct Uu8(pub u8);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Inside(min = -100, max = 27))))]
pub struct S16(pub i16);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Unlimited)))]
pub struct Su16(pub i16);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 200))))]
pub struct U16(pub u16);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Unlimited)))]
pub struct Uu16(pub u16);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Inside(min = -100, max = 27))))]
pub struct S32(pub i32);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Unlimited)))]
pub struct Su32(pub i32);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 200))))]
pub struct U32(pub u32);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Unlimited)))]
pub struct Uu32(pub u32);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Inside(min = -100, max = 27))))]
pub struct S64(pub i64);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Unlimited)))]
pub struct Su64(pub i64);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 200))))]
pub struct U64(pub u64);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Unlimited)))]
pub struct Uu64(pub u64);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Inside(min = -100, max = 27))))]
pub struct S128(pub i128);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Unlimited)))]
pub struct Su128(pub i128);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 200))))]
pub struct U128(pub u128);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Unlimited)))]
pub struct Uu128(pub u128);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Inside(min = -100, max = 27))))]
pub struct Ssize(pub isize);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Unlimited)))]
pub struct Susize(pub isize);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 200))))]
pub struct Usize(pub usize);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Unlimited)))]
pub struct Uusize(pub usize);
#[derive(Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -1.5, max = 100.25))))]
pub struct N32(pub f32);
impl PartialEq for N32 {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits() || (self.0.is_nan() && o.0.is_nan())
    }
}
#[derive(Validator)]
#[validator(number(nan(Allow), range(Unlimited)))]
pub struct Nu32(pub f32);
impl PartialEq for Nu32 {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits() || (self.0.is_nan() && o.0.is_nan())
    }
}
#[derive(Validator)]
#[validator(number(nan(Must)))]
pub struct Nm32(pub f32);
impl PartialEq for Nm32 {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits() || (self.0.is_nan() && o.0.is_nan())
    }
}
#[derive(Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -1.5, max = 100.25))))]
pub struct N64(pub f64);
impl PartialEq for N64 {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits() || (self.0.is_nan() && o.0.is_nan())
    }
}
#[derive(Validator)]
#[validator(number(nan(Allow), range(Unlimited)))]
pub struct Nu64(pub f64);
impl PartialEq for Nu64 {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits() || (self.0.is_nan() && o.0.is_nan())
    }
}
#[derive(Validator)]
#[validator(number(nan(Must)))]
pub struct Nm64(pub f64);
impl PartialEq for Nm64 {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits() || (self.0.is_nan() && o.0.is_nan())
    }
}
#[derive(Validator, PartialEq)]
#[validator(boolean)]
pub struct B(pub bool);
#[derive(Validator, PartialEq)]
#[validator(text(char_length(trimmed_min = 1, max = 1)))]
pub struct Txt(pub String);
#[derive(Validator, PartialEq)]
#[validator(line(char_length(trimmed_min = 1, max = 1)))]
pub struct Lin(pub String);
#[derive(Validator, PartialEq)]
#[validator(base32(padding(Allow)))]
pub struct Base32(pub String);
#[derive(Validator, PartialEq)]
#[validator(base32_decoded(padding(Allow)))]
pub struct Base32D(pub Vec<u8>);
#[derive(Validator, PartialEq)]
#[validator(base64(padding(Allow)))]
pub struct Base64(pub String);
#[derive(Validator, PartialEq)]
#[validator(base64_decoded(padding(Allow)))]
pub struct Base64D(pub Vec<u8>);
#[derive(Validator, PartialEq)]
#[validator(base64_url(padding(Allow)))]
pub struct Base64Url(pub String);
#[derive(Validator, PartialEq)]
#[validator(base64_url_decoded(padding(Allow)))]
pub struct Base64UrlD(pub Vec<u8>);
#[derive(Validator, PartialEq)]
#[validator(regex(regex = EXPRESSION))]
pub struct Re(pub String);
#[derive(Validator, PartialEq)]
#[validator(mac_address(case(Upper), separator(Disallow)))]
pub struct Mac(pub u64);
#[derive(Validator, PartialEq)]
#[validator(uuid(case(Upper), separator(Disallow)))]
pub struct Uuid(pub u128);
#[derive(Validator, PartialEq)]
#[validator(mac_address(case(Any), separator(Allow(b':'))))]
pub struct MacW(pub u64);
#[derive(Validator, PartialEq)]
#[validator(uuid(case(Any), separator(Allow(b'-'))))]
pub struct UuidW(pub u128);
#[derive(Validator, PartialEq)]
#[validator(ipv4(local(Allow), port(Allow)))]
pub struct TyI4{
    pub ipv4: std::net::Ipv4Addr,
    pub port: Option<u16>,
}
#[derive(Validator, PartialEq)]
#[validator(ipv6(local(Allow), port(Allow)))]
pub struct TyI6{
    pub ipv6: std::net::Ipv6Addr,
    pub port: Option<u16>,
}
#[derive(Validator, PartialEq)]
#[validator(ip(local(Allow), port(Allow)))]
pub struct TyI{
    pub ip: std::net::IpAddr,
    pub port: Option<u16>,
}
#[derive(Validator, PartialEq)]
#[validator(domain(ipv4(Allow), local(Allow), at_least_two_labels(Allow), port(Allow)))]
pub struct TyD{
    pub domain: String,
    pub port: Option<u16>,
}
#[derive(Validator, PartialEq)]
#[validator(host(local(Allow), at_least_two_labels(Allow), port(Allow)))]
pub struct TyH{
    pub host: Host,
    pub port: Option<u16>,
}
#[derive(Validator, PartialEq)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct TyE{
    pub local_part: String,
    pub need_quoted: bool,
    pub domain_part: Host,
    pub comment_before_local_part: Option<String>,
    pub comment_after_local_part: Option<String>,
    pub comment_before_domain_part: Option<String>,
    pub comment_after_domain_part: Option<String>,
}
#[derive(Validator, PartialEq)]
#[validator(length(min = 2, max = 4))]
pub struct L(pub Counted);
harness!(#[kani::unwind(8)] q_int_s8, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&i128::try_from(v).ok().and_then(|v| S8::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&i128::try_from(v).ok().and_then(|v| S8::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&i128::try_from(v).ok().and_then(|v| S8::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&i128::try_from(v).ok().and_then(|v| S8::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&i128::try_from(v).ok().and_then(|v| S8::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&i128::try_from(v).ok().and_then(|v| S8::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&i128::try_from(v).ok().and_then(|v| S8::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&i128::try_from(v).ok().and_then(|v| S8::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&i128::try_from(v).ok().and_then(|v| S8::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&i128::try_from(v).ok().and_then(|v| S8::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = S8::parse_i128(x as i128) {
        let k = back(&v);
        assert!(k == Kept::Signed(x as i128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_su8, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&i128::try_from(v).ok().and_then(|v| Su8::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&i128::try_from(v).ok().and_then(|v| Su8::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&i128::try_from(v).ok().and_then(|v| Su8::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&i128::try_from(v).ok().and_then(|v| Su8::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&i128::try_from(v).ok().and_then(|v| Su8::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&i128::try_from(v).ok().and_then(|v| Su8::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&i128::try_from(v).ok().and_then(|v| Su8::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&i128::try_from(v).ok().and_then(|v| Su8::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&i128::try_from(v).ok().and_then(|v| Su8::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&i128::try_from(v).ok().and_then(|v| Su8::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = Su8::parse_i128(x as i128) {
        let k = back(&v);
        assert!(k == Kept::Signed(x as i128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_u8, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&u128::try_from(v).ok().and_then(|v| U8::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&u128::try_from(v).ok().and_then(|v| U8::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&u128::try_from(v).ok().and_then(|v| U8::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&u128::try_from(v).ok().and_then(|v| U8::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&u128::try_from(v).ok().and_then(|v| U8::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&u128::try_from(v).ok().and_then(|v| U8::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&u128::try_from(v).ok().and_then(|v| U8::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&u128::try_from(v).ok().and_then(|v| U8::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&u128::try_from(v).ok().and_then(|v| U8::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&u128::try_from(v).ok().and_then(|v| U8::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = U8::parse_u128(x as u128) {
        let k = back(&v);
        assert!(k == Kept::Unsigned(x as u128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_uu8, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&u128::try_from(v).ok().and_then(|v| Uu8::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&u128::try_from(v).ok().and_then(|v| Uu8::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&u128::try_from(v).ok().and_then(|v| Uu8::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&u128::try_from(v).ok().and_then(|v| Uu8::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&u128::try_from(v).ok().and_then(|v| Uu8::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&u128::try_from(v).ok().and_then(|v| Uu8::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&u128::try_from(v).ok().and_then(|v| Uu8::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&u128::try_from(v).ok().and_then(|v| Uu8::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&u128::try_from(v).ok().and_then(|v| Uu8::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&u128::try_from(v).ok().and_then(|v| Uu8::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = Uu8::parse_u128(x as u128) {
        let k = back(&v);
        assert!(k == Kept::Unsigned(x as u128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_s16, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&i128::try_from(v).ok().and_then(|v| S16::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&i128::try_from(v).ok().and_then(|v| S16::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&i128::try_from(v).ok().and_then(|v| S16::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&i128::try_from(v).ok().and_then(|v| S16::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&i128::try_from(v).ok().and_then(|v| S16::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&i128::try_from(v).ok().and_then(|v| S16::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&i128::try_from(v).ok().and_then(|v| S16::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&i128::try_from(v).ok().and_then(|v| S16::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&i128::try_from(v).ok().and_then(|v| S16::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&i128::try_from(v).ok().and_then(|v| S16::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = S16::parse_i128(x as i128) {
        let k = back(&v);
        assert!(k == Kept::Signed(x as i128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_su16, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&i128::try_from(v).ok().and_then(|v| Su16::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&i128::try_from(v).ok().and_then(|v| Su16::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&i128::try_from(v).ok().and_then(|v| Su16::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&i128::try_from(v).ok().and_then(|v| Su16::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&i128::try_from(v).ok().and_then(|v| Su16::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&i128::try_from(v).ok().and_then(|v| Su16::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&i128::try_from(v).ok().and_then(|v| Su16::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&i128::try_from(v).ok().and_then(|v| Su16::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&i128::try_from(v).ok().and_then(|v| Su16::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&i128::try_from(v).ok().and_then(|v| Su16::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = Su16::parse_i128(x as i128) {
        let k = back(&v);
        assert!(k == Kept::Signed(x as i128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_u16, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&u128::try_from(v).ok().and_then(|v| U16::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&u128::try_from(v).ok().and_then(|v| U16::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&u128::try_from(v).ok().and_then(|v| U16::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&u128::try_from(v).ok().and_then(|v| U16::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&u128::try_from(v).ok().and_then(|v| U16::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&u128::try_from(v).ok().and_then(|v| U16::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&u128::try_from(v).ok().and_then(|v| U16::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&u128::try_from(v).ok().and_then(|v| U16::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&u128::try_from(v).ok().and_then(|v| U16::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&u128::try_from(v).ok().and_then(|v| U16::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = U16::parse_u128(x as u128) {
        let k = back(&v);
        assert!(k == Kept::Unsigned(x as u128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_uu16, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&u128::try_from(v).ok().and_then(|v| Uu16::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&u128::try_from(v).ok().and_then(|v| Uu16::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&u128::try_from(v).ok().and_then(|v| Uu16::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&u128::try_from(v).ok().and_then(|v| Uu16::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&u128::try_from(v).ok().and_then(|v| Uu16::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&u128::try_from(v).ok().and_then(|v| Uu16::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&u128::try_from(v).ok().and_then(|v| Uu16::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&u128::try_from(v).ok().and_then(|v| Uu16::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&u128::try_from(v).ok().and_then(|v| Uu16::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&u128::try_from(v).ok().and_then(|v| Uu16::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = Uu16::parse_u128(x as u128) {
        let k = back(&v);
        assert!(k == Kept::Unsigned(x as u128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_s32, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&i128::try_from(v).ok().and_then(|v| S32::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&i128::try_from(v).ok().and_then(|v| S32::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&i128::try_from(v).ok().and_then(|v| S32::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&i128::try_from(v).ok().and_then(|v| S32::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&i128::try_from(v).ok().and_then(|v| S32::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&i128::try_from(v).ok().and_then(|v| S32::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&i128::try_from(v).ok().and_then(|v| S32::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&i128::try_from(v).ok().and_then(|v| S32::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&i128::try_from(v).ok().and_then(|v| S32::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&i128::try_from(v).ok().and_then(|v| S32::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = S32::parse_i128(x as i128) {
        let k = back(&v);
        assert!(k == Kept::Signed(x as i128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_su32, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&i128::try_from(v).ok().and_then(|v| Su32::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&i128::try_from(v).ok().and_then(|v| Su32::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&i128::try_from(v).ok().and_then(|v| Su32::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&i128::try_from(v).ok().and_then(|v| Su32::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&i128::try_from(v).ok().and_then(|v| Su32::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&i128::try_from(v).ok().and_then(|v| Su32::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&i128::try_from(v).ok().and_then(|v| Su32::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&i128::try_from(v).ok().and_then(|v| Su32::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&i128::try_from(v).ok().and_then(|v| Su32::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&i128::try_from(v).ok().and_then(|v| Su32::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = Su32::parse_i128(x as i128) {
        let k = back(&v);
        assert!(k == Kept::Signed(x as i128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_u32, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&u128::try_from(v).ok().and_then(|v| U32::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&u128::try_from(v).ok().and_then(|v| U32::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&u128::try_from(v).ok().and_then(|v| U32::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&u128::try_from(v).ok().and_then(|v| U32::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&u128::try_from(v).ok().and_then(|v| U32::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&u128::try_from(v).ok().and_then(|v| U32::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&u128::try_from(v).ok().and_then(|v| U32::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&u128::try_from(v).ok().and_then(|v| U32::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&u128::try_from(v).ok().and_then(|v| U32::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&u128::try_from(v).ok().and_then(|v| U32::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = U32::parse_u128(x as u128) {
        let k = back(&v);
        assert!(k == Kept::Unsigned(x as u128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_uu32, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&u128::try_from(v).ok().and_then(|v| Uu32::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&u128::try_from(v).ok().and_then(|v| Uu32::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&u128::try_from(v).ok().and_then(|v| Uu32::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&u128::try_from(v).ok().and_then(|v| Uu32::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&u128::try_from(v).ok().and_then(|v| Uu32::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&u128::try_from(v).ok().and_then(|v| Uu32::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&u128::try_from(v).ok().and_then(|v| Uu32::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&u128::try_from(v).ok().and_then(|v| Uu32::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&u128::try_from(v).ok().and_then(|v| Uu32::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&u128::try_from(v).ok().and_then(|v| Uu32::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = Uu32::parse_u128(x as u128) {
        let k = back(&v);
        assert!(k == Kept::Unsigned(x as u128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_s64, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&i128::try_from(v).ok().and_then(|v| S64::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&i128::try_from(v).ok().and_then(|v| S64::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&i128::try_from(v).ok().and_then(|v| S64::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&i128::try_from(v).ok().and_then(|v| S64::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&i128::try_from(v).ok().and_then(|v| S64::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&i128::try_from(v).ok().and_then(|v| S64::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&i128::try_from(v).ok().and_then(|v| S64::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&i128::try_from(v).ok().and_then(|v| S64::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&i128::try_from(v).ok().and_then(|v| S64::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&i128::try_from(v).ok().and_then(|v| S64::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = S64::parse_i128(x as i128) {
        let k = back(&v);
        assert!(k == Kept::Signed(x as i128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_su64, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&i128::try_from(v).ok().and_then(|v| Su64::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&i128::try_from(v).ok().and_then(|v| Su64::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&i128::try_from(v).ok().and_then(|v| Su64::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&i128::try_from(v).ok().and_then(|v| Su64::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&i128::try_from(v).ok().and_then(|v| Su64::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&i128::try_from(v).ok().and_then(|v| Su64::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&i128::try_from(v).ok().and_then(|v| Su64::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&i128::try_from(v).ok().and_then(|v| Su64::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&i128::try_from(v).ok().and_then(|v| Su64::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&i128::try_from(v).ok().and_then(|v| Su64::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = Su64::parse_i128(x as i128) {
        let k = back(&v);
        assert!(k == Kept::Signed(x as i128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_u64, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&u128::try_from(v).ok().and_then(|v| U64::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&u128::try_from(v).ok().and_then(|v| U64::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&u128::try_from(v).ok().and_then(|v| U64::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&u128::try_from(v).ok().and_then(|v| U64::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&u128::try_from(v).ok().and_then(|v| U64::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&u128::try_from(v).ok().and_then(|v| U64::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&u128::try_from(v).ok().and_then(|v| U64::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&u128::try_from(v).ok().and_then(|v| U64::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&u128::try_from(v).ok().and_then(|v| U64::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&u128::try_from(v).ok().and_then(|v| U64::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = U64::parse_u128(x as u128) {
        let k = back(&v);
        assert!(k == Kept::Unsigned(x as u128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_uu64, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&u128::try_from(v).ok().and_then(|v| Uu64::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&u128::try_from(v).ok().and_then(|v| Uu64::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&u128::try_from(v).ok().and_then(|v| Uu64::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&u128::try_from(v).ok().and_then(|v| Uu64::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&u128::try_from(v).ok().and_then(|v| Uu64::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&u128::try_from(v).ok().and_then(|v| Uu64::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&u128::try_from(v).ok().and_then(|v| Uu64::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&u128::try_from(v).ok().and_then(|v| Uu64::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&u128::try_from(v).ok().and_then(|v| Uu64::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&u128::try_from(v).ok().and_then(|v| Uu64::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = Uu64::parse_u128(x as u128) {
        let k = back(&v);
        assert!(k == Kept::Unsigned(x as u128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_s128, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&i128::try_from(v).ok().and_then(|v| S128::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&i128::try_from(v).ok().and_then(|v| S128::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&i128::try_from(v).ok().and_then(|v| S128::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&i128::try_from(v).ok().and_then(|v| S128::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&i128::try_from(v).ok().and_then(|v| S128::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&i128::try_from(v).ok().and_then(|v| S128::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&i128::try_from(v).ok().and_then(|v| S128::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&i128::try_from(v).ok().and_then(|v| S128::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&i128::try_from(v).ok().and_then(|v| S128::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&i128::try_from(v).ok().and_then(|v| S128::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = S128::parse_i128(x as i128) {
        let k = back(&v);
        assert!(k == Kept::Signed(x as i128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_su128, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&i128::try_from(v).ok().and_then(|v| Su128::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&i128::try_from(v).ok().and_then(|v| Su128::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&i128::try_from(v).ok().and_then(|v| Su128::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&i128::try_from(v).ok().and_then(|v| Su128::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&i128::try_from(v).ok().and_then(|v| Su128::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&i128::try_from(v).ok().and_then(|v| Su128::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&i128::try_from(v).ok().and_then(|v| Su128::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&i128::try_from(v).ok().and_then(|v| Su128::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&i128::try_from(v).ok().and_then(|v| Su128::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&i128::try_from(v).ok().and_then(|v| Su128::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = Su128::parse_i128(x as i128) {
        let k = back(&v);
        assert!(k == Kept::Signed(x as i128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_u128, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&u128::try_from(v).ok().and_then(|v| U128::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&u128::try_from(v).ok().and_then(|v| U128::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&u128::try_from(v).ok().and_then(|v| U128::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&u128::try_from(v).ok().and_then(|v| U128::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&u128::try_from(v).ok().and_then(|v| U128::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&u128::try_from(v).ok().and_then(|v| U128::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&u128::try_from(v).ok().and_then(|v| U128::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&u128::try_from(v).ok().and_then(|v| U128::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&u128::try_from(v).ok().and_then(|v| U128::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&u128::try_from(v).ok().and_then(|v| U128::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = U128::parse_u128(x as u128) {
        let k = back(&v);
        assert!(k == Kept::Unsigned(x as u128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_uu128, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&u128::try_from(v).ok().and_then(|v| Uu128::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&u128::try_from(v).ok().and_then(|v| Uu128::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&u128::try_from(v).ok().and_then(|v| Uu128::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&u128::try_from(v).ok().and_then(|v| Uu128::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&u128::try_from(v).ok().and_then(|v| Uu128::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&u128::try_from(v).ok().and_then(|v| Uu128::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&u128::try_from(v).ok().and_then(|v| Uu128::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&u128::try_from(v).ok().and_then(|v| Uu128::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&u128::try_from(v).ok().and_then(|v| Uu128::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&u128::try_from(v).ok().and_then(|v| Uu128::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = Uu128::parse_u128(x as u128) {
        let k = back(&v);
        assert!(k == Kept::Unsigned(x as u128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_ssize, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&i128::try_from(v).ok().and_then(|v| Ssize::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&i128::try_from(v).ok().and_then(|v| Ssize::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&i128::try_from(v).ok().and_then(|v| Ssize::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&i128::try_from(v).ok().and_then(|v| Ssize::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&i128::try_from(v).ok().and_then(|v| Ssize::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&i128::try_from(v).ok().and_then(|v| Ssize::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&i128::try_from(v).ok().and_then(|v| Ssize::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&i128::try_from(v).ok().and_then(|v| Ssize::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&i128::try_from(v).ok().and_then(|v| Ssize::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&i128::try_from(v).ok().and_then(|v| Ssize::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = Ssize::parse_i128(x as i128) {
        let k = back(&v);
        assert!(k == Kept::Signed(x as i128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_susize, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&i128::try_from(v).ok().and_then(|v| Susize::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&i128::try_from(v).ok().and_then(|v| Susize::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&i128::try_from(v).ok().and_then(|v| Susize::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&i128::try_from(v).ok().and_then(|v| Susize::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&i128::try_from(v).ok().and_then(|v| Susize::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&i128::try_from(v).ok().and_then(|v| Susize::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&i128::try_from(v).ok().and_then(|v| Susize::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&i128::try_from(v).ok().and_then(|v| Susize::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&i128::try_from(v).ok().and_then(|v| Susize::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&i128::try_from(v).ok().and_then(|v| Susize::parse_i128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = Susize::parse_i128(x as i128) {
        let k = back(&v);
        assert!(k == Kept::Signed(x as i128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_usize, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&u128::try_from(v).ok().and_then(|v| Usize::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&u128::try_from(v).ok().and_then(|v| Usize::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&u128::try_from(v).ok().and_then(|v| Usize::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&u128::try_from(v).ok().and_then(|v| Usize::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&u128::try_from(v).ok().and_then(|v| Usize::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&u128::try_from(v).ok().and_then(|v| Usize::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&u128::try_from(v).ok().and_then(|v| Usize::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&u128::try_from(v).ok().and_then(|v| Usize::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&u128::try_from(v).ok().and_then(|v| Usize::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&u128::try_from(v).ok().and_then(|v| Usize::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = Usize::parse_u128(x as u128) {
        let k = back(&v);
        assert!(k == Kept::Unsigned(x as u128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_int_uusize, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let v = x as i8;
    same(&u128::try_from(v).ok().and_then(|v| Uusize::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&u128::try_from(v).ok().and_then(|v| Uusize::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&u128::try_from(v).ok().and_then(|v| Uusize::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&u128::try_from(v).ok().and_then(|v| Uusize::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&u128::try_from(v).ok().and_then(|v| Uusize::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&u128::try_from(v).ok().and_then(|v| Uusize::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&u128::try_from(v).ok().and_then(|v| Uusize::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&u128::try_from(v).ok().and_then(|v| Uusize::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&u128::try_from(v).ok().and_then(|v| Uusize::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&u128::try_from(v).ok().and_then(|v| Uusize::parse_u128(v).ok()), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = Uusize::parse_u128(x as u128) {
        let k = back(&v);
        assert!(k == Kept::Unsigned(x as u128), "a number is serialized as it is");
    }
});
harness!(#[kani::unwind(8)] q_number_n32, bytes = 8, bound = "every f32, f64 and integer up to 64 bits", |s| {
    let x = s.u64();
    let v = f64::from_bits(x);
    same(&N32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = f32::from_bits(x as u32);
    same(&N32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x;
    same(&N32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&N32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&N32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&N32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&N32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i8;
    same(&N32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = N32::parse_f64(f64::from_bits(x)) {
        back(&v);
    }
});
harness!(#[kani::unwind(8)] q_number_nu32, bytes = 8, bound = "every f32, f64 and integer up to 64 bits", |s| {
    let x = s.u64();
    let v = f64::from_bits(x);
    same(&Nu32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = f32::from_bits(x as u32);
    same(&Nu32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x;
    same(&Nu32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&Nu32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&Nu32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&Nu32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&Nu32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i8;
    same(&Nu32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = Nu32::parse_f64(f64::from_bits(x)) {
        back(&v);
    }
});
harness!(#[kani::unwind(8)] q_number_nm32, bytes = 8, bound = "every f32, f64 and integer up to 64 bits", |s| {
    let x = s.u64();
    let v = f64::from_bits(x);
    same(&Nm32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = f32::from_bits(x as u32);
    same(&Nm32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x;
    same(&Nm32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&Nm32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&Nm32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&Nm32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&Nm32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i8;
    same(&Nm32::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = Nm32::parse_f64(f64::from_bits(x)) {
        back(&v);
    }
});
harness!(#[kani::unwind(8)] q_number_n64, bytes = 8, bound = "every f32, f64 and integer up to 64 bits", |s| {
    let x = s.u64();
    let v = f64::from_bits(x);
    same(&N64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = f32::from_bits(x as u32);
    same(&N64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x;
    same(&N64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&N64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&N64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&N64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&N64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i8;
    same(&N64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = N64::parse_f64(f64::from_bits(x)) {
        back(&v);
    }
});
harness!(#[kani::unwind(8)] q_number_nu64, bytes = 8, bound = "every f32, f64 and integer up to 64 bits", |s| {
    let x = s.u64();
    let v = f64::from_bits(x);
    same(&Nu64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = f32::from_bits(x as u32);
    same(&Nu64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x;
    same(&Nu64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&Nu64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&Nu64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&Nu64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&Nu64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i8;
    same(&Nu64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = Nu64::parse_f64(f64::from_bits(x)) {
        back(&v);
    }
});
harness!(#[kani::unwind(8)] q_number_nm64, bytes = 8, bound = "every f32, f64 and integer up to 64 bits", |s| {
    let x = s.u64();
    let v = f64::from_bits(x);
    same(&Nm64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = f32::from_bits(x as u32);
    same(&Nm64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x;
    same(&Nm64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&Nm64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&Nm64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&Nm64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&Nm64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i8;
    same(&Nm64::parse_f64(v as f64).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = Nm64::parse_f64(f64::from_bits(x)) {
        back(&v);
    }
});
harness!(#[kani::unwind(8)] q_boolean, bytes = 21, bound = "every bool, char and integer", |s| {
    let x = s.u128();
    let v = s.bool();
    same(&B::parse_bool(v).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let c = s.char();
    same(&B::parse_char(c).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(c)));
    let v = x as i8;
    same(&B::parse_i8(v).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i16;
    same(&B::parse_i16(v).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i32;
    same(&B::parse_i32(v).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i64;
    same(&B::parse_i64(v).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as i128;
    same(&B::parse_i128(v).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u8;
    same(&B::parse_u8(v).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u16;
    same(&B::parse_u16(v).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u32;
    same(&B::parse_u32(v).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u64;
    same(&B::parse_u64(v).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    let v = x as u128;
    same(&B::parse_u128(v).ok(), serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(v)));
    if let Ok(v) = B::parse_u128(x) {
        assert!(back(&v) == Kept::Bool(v.0), "a boolean is serialized as it is");
    }
});
harness!(#[kani::unwind(10)] q_boolean_text_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    strings::<B>(st(&b));
});
harness!(#[kani::unwind(10)] q_boolean_text_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    strings::<B>(st(&b));
});
harness!(#[kani::unwind(10)] q_boolean_text_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    strings::<B>(st(&b));
});
harness!(#[kani::unwind(10)] q_boolean_text_4, bytes = 4, bound = "every ASCII text of 4 bytes", |s| {
    let b = s.ascii::<4>();
    strings::<B>(st(&b));
});
harness!(#[kani::unwind(10)] q_boolean_text_5, bytes = 5, bound = "every ASCII text of 5 bytes", |s| {
    let b = s.ascii::<5>();
    strings::<B>(st(&b));
});
harness!(#[kani::unwind(10)] q_txt_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    plain::<Txt>(st(&b));
});
harness!(#[kani::unwind(10)] q_txt_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    plain::<Txt>(st(&b));
});
harness!(#[kani::unwind(10)] q_lin_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    plain::<Lin>(st(&b));
});
harness!(#[kani::unwind(10)] t_lin_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    plain::<Lin>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base32, bytes = 8, bound = "every ASCII text and byte string of 8 bytes", |s| {
    let b = s.ascii::<8>();
    plain::<Base32>(st(&b));
    bytes::<Base32>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base32_decoded, bytes = 2, bound = "every ASCII text and byte string of 2 bytes", |s| {
    let b = s.ascii::<2>();
    strings::<Base32D>(st(&b));
    bytes::<Base32D>(&b);
});
harness!(#[kani::unwind(6)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base64, bytes = 4, bound = "every ASCII text and byte string of 4 bytes", |s| {
    let b = s.ascii::<4>();
    plain::<Base64>(st(&b));
    bytes::<Base64>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base64_decoded, bytes = 2, bound = "every ASCII text and byte string of 2 bytes", |s| {
    let b = s.ascii::<2>();
    strings::<Base64D>(st(&b));
    bytes::<Base64D>(&b);
});
harness!(#[kani::unwind(6)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base64_url, bytes = 4, bound = "every ASCII text and byte string of 4 bytes", |s| {
    let b = s.ascii::<4>();
    plain::<Base64Url>(st(&b));
    bytes::<Base64Url>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base64_url_decoded, bytes = 2, bound = "every ASCII text and byte string of 2 bytes", |s| {
    let b = s.ascii::<2>();
    strings::<Base64UrlD>(st(&b));
    bytes::<Base64UrlD>(&b);
});
harness!(#[kani::unwind(8)] q_regex, bytes = 4, bound = "every ASCII text of 3 bytes, matched or not", |s| {
    unsafe { MATCHES = s.bool() };
    let b = s.ascii::<3>();
    plain::<Re>(st(&b));
});
harness!(#[kani::unwind(14)] q_mac_12_at_0, bytes = 1, bound = "080027B46A3F with any byte at position 0", |s| {
    let b = at(s, b"080027B46A3F", 0);
    text_only::<Mac>(st(&b));
});
harness!(#[kani::unwind(14)] q_mac_12_at_11, bytes = 1, bound = "080027B46A3F with any byte at position 11", |s| {
    let b = at(s, b"080027B46A3F", 11);
    text_only::<Mac>(st(&b));
});
harness!(#[kani::unwind(34)] q_uuid_32_at_0, bytes = 1, bound = "2B1F7F2A0C5D4E8A9B3C6D7E8F901234 with any byte at position 0", |s| {
    let b = at(s, b"2B1F7F2A0C5D4E8A9B3C6D7E8F901234", 0);
    text_only::<Uuid>(st(&b));
});
harness!(#[kani::unwind(34)] q_uuid_32_at_31, bytes = 1, bound = "2B1F7F2A0C5D4E8A9B3C6D7E8F901234 with any byte at position 31", |s| {
    let b = at(s, b"2B1F7F2A0C5D4E8A9B3C6D7E8F901234", 31);
    text_only::<Uuid>(st(&b));
});
harness!(#[kani::unwind(40)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] q_macw_written, bytes = 16, bound = "every value", |s| {
    let v = MacW(s.u64() & 0xffff_ffff_ffff);
    let t = v.to_mac_address_string();
    match serde::Serialize::serialize(&v, Keep) {
        Ok(k) => assert!(k.is_text(&t), "what is written is serialized"),
        Err(_) => assert!(false, "a value is serialized"),
    }
});
harness!(#[kani::unwind(40)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] q_uuidw_written, bytes = 16, bound = "every value", |s| {
    let v = UuidW(s.u128());
    let t = v.to_uuid_string();
    match serde::Serialize::serialize(&v, Keep) {
        Ok(k) => assert!(k.is_text(&t), "what is written is serialized"),
        Err(_) => assert!(false, "a value is serialized"),
    }
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyd_text_8_at_0, bytes = 3, bound = "a.bc:432 with any byte at position 0", |s| {
    some_port(s, true);
    let b = at(s, b"a.bc:432", 0);
    text_only::<TyD>(st(&b));
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyd_owned_8_at_0, bytes = 3, bound = "a.bc:432 with any byte at position 0", |s| {
    some_port(s, true);
    let b = at(s, b"a.bc:432", 0);
    owned_only::<TyD>(st(&b));
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyd_text_8_at_4, bytes = 3, bound = "a.bc:432 with any byte at position 4", |s| {
    some_port(s, true);
    let b = at(s, b"a.bc:432", 4);
    text_only::<TyD>(st(&b));
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyd_owned_8_at_4, bytes = 3, bound = "a.bc:432 with any byte at position 4", |s| {
    some_port(s, true);
    let b = at(s, b"a.bc:432", 4);
    owned_only::<TyD>(st(&b));
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyd_text_4_at_2, bytes = 3, bound = "a.bc with any byte at position 2", |s| {
    some_port(s, true);
    let b = at(s, b"a.bc", 2);
    text_only::<TyD>(st(&b));
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyh_text_8_at_0, bytes = 3, bound = "a.bc:432 with any byte at position 0", |s| {
    some_port(s, true);
    let b = at(s, b"a.bc:432", 0);
    text_only::<TyH>(st(&b));
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyh_text_8_at_4, bytes = 3, bound = "a.bc:432 with any byte at position 4", |s| {
    some_port(s, true);
    let b = at(s, b"a.bc:432", 4);
    text_only::<TyH>(st(&b));
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tye_text_6_at_0, bytes = 3, bound = "ab@c.d with any byte at position 0", |s| {
    some_port(s, true);
    let b = at(s, b"ab@c.d", 0);
    text_only::<TyE>(st(&b));
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tye_text_6_at_2, bytes = 3, bound = "ab@c.d with any byte at position 2", |s| {
    some_port(s, true);
    let b = at(s, b"ab@c.d", 2);
    text_only::<TyE>(st(&b));
});
harness!(#[kani::unwind(14)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tye_text_6_at_5, bytes = 3, bound = "ab@c.d with any byte at position 5", |s| {
    some_port(s, true);
    let b = at(s, b"ab@c.d", 5);
    text_only::<TyE>(st(&b));
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi4_address_4, bytes = 18, bound = "every ADDR:PORT", |s| {
    let ip = s.u128();
    let a = ip_text(Ip::V4(ip as u32));
    let p = port_text(s.u16());
    let mut t = String::from("");
    t.push_str(&a);
    t.push_str(":");
    t.push_str(&p);
    text_only::<TyI4>(&t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi6_address_6, bytes = 18, bound = "every [ADDR]:PORT", |s| {
    let ip = s.u128();
    let a = ip_text(Ip::V6(ip));
    let p = port_text(s.u16());
    let mut t = String::from("[");
    t.push_str(&a);
    t.push_str("]:");
    t.push_str(&p);
    text_only::<TyI6>(&t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi_address_4, bytes = 18, bound = "every ADDR:PORT", |s| {
    let ip = s.u128();
    let a = ip_text(Ip::V4(ip as u32));
    let p = port_text(s.u16());
    let mut t = String::from("");
    t.push_str(&a);
    t.push_str(":");
    t.push_str(&p);
    text_only::<TyI>(&t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi_address_6, bytes = 18, bound = "every [ADDR]", |s| {
    let ip = s.u128();
    let a = ip_text(Ip::V6(ip));
    let p = port_text(s.u16());
    let mut t = String::from("[");
    t.push_str(&a);
    t.push_str("]");
    
    text_only::<TyI>(&t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyh_address_4, bytes = 18, bound = "every ADDR:PORT", |s| {
    let ip = s.u128();
    let a = ip_text(Ip::V4(ip as u32));
    let p = port_text(s.u16());
    let mut t = String::from("");
    t.push_str(&a);
    t.push_str(":");
    t.push_str(&p);
    text_only::<TyH>(&t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyh_address_6, bytes = 18, bound = "every [ADDR]", |s| {
    let ip = s.u128();
    let a = ip_text(Ip::V6(ip));
    let p = port_text(s.u16());
    let mut t = String::from("[");
    t.push_str(&a);
    t.push_str("]");
    
    text_only::<TyH>(&t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyd_address_4, bytes = 18, bound = "every ADDR:PORT", |s| {
    let ip = s.u128();
    let a = ip_text(Ip::V4(ip as u32));
    let p = port_text(s.u16());
    let mut t = String::from("");
    t.push_str(&a);
    t.push_str(":");
    t.push_str(&p);
    text_only::<TyD>(&t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tye_address_4, bytes = 18, bound = "every a@[ADDR]", |s| {
    let ip = s.u128();
    let a = ip_text(Ip::V4(ip as u32));
    let p = port_text(s.u16());
    let mut t = String::from("a@[");
    t.push_str(&a);
    t.push_str("]");
    
    text_only::<TyE>(&t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi4_written_4, bytes = 18, bound = "every address", |s| {
    let ip = address(s, false);
    let v = TyI4 { ipv4: v4(ip), port: some_port(s, false) };
    let t = v.to_uri_authority_string().into_owned();
    written(v, t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi6_written_6, bytes = 18, bound = "every address", |s| {
    let ip = address(s, true);
    let v = TyI6 { ipv6: v6(ip), port: some_port(s, false) };
    let t = v.to_uri_authority_string().into_owned();
    written(v, t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] t_tyi_written_4, bytes = 18, bound = "every address", |s| {
    let ip = address(s, false);
    let v = TyI { ip, port: some_port(s, false) };
    let t = v.to_uri_authority_string().into_owned();
    written(v, t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] t_tyi_written_6, bytes = 18, bound = "every address", |s| {
    let ip = address(s, true);
    let v = TyI { ip, port: some_port(s, false) };
    let t = v.to_uri_authority_string().into_owned();
    written(v, t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] t_tyh_written_4, bytes = 18, bound = "every address", |s| {
    let ip = address(s, false);
    let v = TyH { host: Host::IPv4(v4(ip)), port: some_port(s, false) };
    let t = v.to_uri_authority_string().into_owned();
    written(v, t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] t_tyh_written_6, bytes = 18, bound = "every address", |s| {
    let ip = address(s, true);
    let v = TyH { host: Host::IPv6(v6(ip)), port: some_port(s, false) };
    let t = v.to_uri_authority_string().into_owned();
    written(v, t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyd_written_name, bytes = 4, bound = "every name of two letters", |s| {
    let v = TyD { domain: name(s), port: some_port(s, false) };
    let t = v.to_uri_authority_string().into_owned();
    written(v, t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyh_written_name, bytes = 4, bound = "every name of two letters", |s| {
    let v = TyH { host: Host::Domain(name(s)), port: some_port(s, false) };
    let t = v.to_uri_authority_string().into_owned();
    written(v, t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi4_written_4_port, bytes = 18, bound = "every address and port", |s| {
    let ip = address(s, false);
    let v = TyI4 { ipv4: v4(ip), port: some_port(s, true) };
    let t = v.to_uri_authority_string().into_owned();
    written(v, t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi6_written_6_port, bytes = 18, bound = "every address and port", |s| {
    let ip = address(s, true);
    let v = TyI6 { ipv6: v6(ip), port: some_port(s, true) };
    let t = v.to_uri_authority_string().into_owned();
    written(v, t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi_written_4_port, bytes = 18, bound = "every address and port", |s| {
    let ip = address(s, false);
    let v = TyI { ip, port: some_port(s, true) };
    let t = v.to_uri_authority_string().into_owned();
    written(v, t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi_written_6_port, bytes = 18, bound = "every address and port", |s| {
    let ip = address(s, true);
    let v = TyI { ip, port: some_port(s, true) };
    let t = v.to_uri_authority_string().into_owned();
    written(v, t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyh_written_4_port, bytes = 18, bound = "every address and port", |s| {
    let ip = address(s, false);
    let v = TyH { host: Host::IPv4(v4(ip)), port: some_port(s, true) };
    let t = v.to_uri_authority_string().into_owned();
    written(v, t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyh_written_6_port, bytes = 18, bound = "every address and port", |s| {
    let ip = address(s, true);
    let v = TyH { host: Host::IPv6(v6(ip)), port: some_port(s, true) };
    let t = v.to_uri_authority_string().into_owned();
    written(v, t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyd_written_name_port, bytes = 4, bound = "every name of two letters and port", |s| {
    let v = TyD { domain: name(s), port: some_port(s, true) };
    let t = v.to_uri_authority_string().into_owned();
    written(v, t);
});
harness!(#[kani::unwind(18)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(<u16 as core::fmt::Display>::fmt, stub::show_port)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyh_written_name_port, bytes = 4, bound = "every name of two letters and port", |s| {
    let v = TyH { host: Host::Domain(name(s)), port: some_port(s, true) };
    let t = v.to_uri_authority_string().into_owned();
    written(v, t);
});
harness!(#[kani::unwind(24)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tye_written_name, bytes = 24, bound = "every local part of two letters, and every such domain part", |s| {
    let v = TyE { local_part: name(s), need_quoted: false, domain_part: Host::Domain(name(s)), comment_before_local_part: None, comment_after_local_part: None, comment_before_domain_part: None, comment_after_domain_part: None };
    let t = v.to_email_string();
    match serde::Serialize::serialize(&v, Keep) {
        Ok(k) => assert!(k.is_text(&t), "what is written is serialized"),
        Err(_) => assert!(false, "a value is serialized"),
    }
});
harness!(#[kani::unwind(24)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tye_written_4, bytes = 24, bound = "every local part of two letters, and every such domain part", |s| {
    let ip = address(s, false);
    let v = TyE { local_part: name(s), need_quoted: false, domain_part: Host::IPv4(v4(ip)), comment_before_local_part: None, comment_after_local_part: None, comment_before_domain_part: None, comment_after_domain_part: None };
    let t = v.to_email_string();
    match serde::Serialize::serialize(&v, Keep) {
        Ok(k) => assert!(k.is_text(&t), "what is written is serialized"),
        Err(_) => assert!(false, "a value is serialized"),
    }
});
harness!(#[kani::unwind(24)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<std::net::Ipv4Addr as core::fmt::Display>::fmt, stub::show4)] #[kani::stub(<std::net::Ipv6Addr as core::fmt::Display>::fmt, stub::show6)] #[kani::stub(alloc::fmt::format, crate::util::fmtstub::format)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tye_written_6, bytes = 24, bound = "every local part of two letters, and every such domain part", |s| {
    let ip = address(s, true);
    let v = TyE { local_part: name(s), need_quoted: false, domain_part: Host::IPv6(v6(ip)), comment_before_local_part: None, comment_after_local_part: None, comment_before_domain_part: None, comment_after_domain_part: None };
    let t = v.to_email_string();
    match serde::Serialize::serialize(&v, Keep) {
        Ok(k) => assert!(k.is_text(&t), "what is written is serialized"),
        Err(_) => assert!(false, "a value is serialized"),
    }
});
harness!(#[kani::unwind(8)] q_length, bytes = 8, bound = "every length", |s| {
    let n = s.u64();
    let p = L::parse_collection(Counted(n as usize)).ok();
    same(&p, serde::Deserialize::deserialize(IntoDeserializer::<Nope>::into_deserializer(n)));
    if let Some(v) = p {
        assert!(back(&v) == Kept::Unsigned(n as u128), "a collection is serialized as it is");
    }
});
