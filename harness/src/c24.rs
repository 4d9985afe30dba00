// Written by tools/gen_c24.py
use validators::models::Host;
use validators::prelude::*;

#[cfg(not(kani))]
use crate::kani;
#[cfg(kani)]
use crate::net::stub;
use crate::net::{ip_text, port_text, Ip};
use crate::util::{st, Src};

/// any expression: it matches what the harness wants
pub struct Expression;
pub static EXPRESSION: Expression = Expression;
static mut MATCHES: bool = false;
static mut ASKED: usize = 0;
impl Expression {
    pub fn is_match(&self, s: &str) -> bool {
        unsafe {
            ASKED = s.len();
            MATCHES
        }
    }
}

fn texts<T: ValidateString + PartialEq>(t: &str) -> Option<T> {
    let p = T::parse_str(t).ok();
    assert!(T::validate_str(t).is_ok() == matches!(p, Some(_)), "validating gives the verdict of parsing");
    assert!(T::parse_string(String::from(t)).ok() == p, "an owned string gives what a borrowed one gives");
    p
}
/// the owned string in a harness of its own
fn validated<T: ValidateString>(t: &str) {
    assert!(T::validate_str(t).is_ok() == T::parse_str(t).is_ok(), "validating gives the verdict of parsing");
}
fn owned<T: ValidateString + PartialEq>(t: &str) {
    assert!(T::parse_string(String::from(t)).ok() == T::parse_str(t).ok(), "an owned string gives what a borrowed one gives");
}
fn bytes<T: ValidateBytes + PartialEq>(b: &[u8]) -> Option<T> {
    let p = T::parse_u8_slice(b).ok();
    assert!(T::validate_u8_slice(b).is_ok() == matches!(p, Some(_)), "validating gives the verdict of parsing");
    assert!(T::parse_vec_u8(b.to_vec()).ok() == p, "owned bytes give what borrowed ones give");
    p
}
fn at<const N: usize>(s: &mut Src, base: &[u8; N], k: usize) -> [u8; N] {
    let mut b = *base;
    b[k] = s.within(0, 127);
    b
}
/// ASCII with a character of two bytes at `k`
fn wide<const N: usize>(s: &mut Src, k: usize) -> [u8; N] {
    let mut b = s.bytes::<N>();
    let mut i = 0;
    while i < N {
        if i == k {
            kani::assume(b[i] >= 0xC2 && b[i] <= 0xDF);
        } else if i == k + 1 {
            kani::assume(b[i] >= 0x80 && b[i] <= 0xBF);
        } else {
            kani::assume(b[i] < 0x80);
        }
        i += 1;
    }
    b
}
/// a collection which is its length
#[derive(PartialEq)]
pub struct Counted(usize);
impl CollectionLength for Counted {
    fn len(&self) -> usize {
        self.0
    }
}
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Inside(min = -100, max = 27))))]
pub struct S8(pub i8);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Unlimited)))]
pub struct Su8(pub i8);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 200))))]
pub struct U8(pub u8);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Unlimited)))]
pub struct Uu8(pub u8);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Inside(min = -100, max = 27))))]
pub struct S16(pub i16);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Unlimited)))]
pub struct Su16(pub i16);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 200))))]
pub struct U16(pub u16);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Unlimited)))]
pub struct Uu16(pub u16);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Inside(min = -100, max = 27))))]
pub struct S32(pub i32);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Unlimited)))]
pub struct Su32(pub i32);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 200))))]
pub struct U32(pub u32);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Unlimited)))]
pub struct Uu32(pub u32);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Inside(min = -100, max = 27))))]
pub struct S64(pub i64);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Unlimited)))]
pub struct Su64(pub i64);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 200))))]
pub struct U64(pub u64);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Unlimited)))]
pub struct Uu64(pub u64);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Inside(min = -100, max = 27))))]
pub struct S128(pub i128);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Unlimited)))]
pub struct Su128(pub i128);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 200))))]
pub struct U128(pub u128);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Unlimited)))]
pub struct Uu128(pub u128);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Inside(min = -100, max = 27))))]
pub struct Ssize(pub isize);
#[derive(Validator, PartialEq)]
#[validator(signed_integer(range(Unlimited)))]
pub struct Susize(pub isize);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 200))))]
pub struct Usize(pub usize);
#[derive(Validator, PartialEq)]
#[validator(unsigned_integer(range(Unlimited)))]
pub struct Uusize(pub usize);
#[derive(Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -1.5, max = 100.25))))]
pub struct N32(pub f32);
impl PartialEq for N32 {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits() || (self.0.is_nan() && o.0.is_nan())
    }
}
#[derive(Validator)]
#[validator(number(nan(Allow), range(Unlimited)))]
pub struct Nu32(pub f32);
impl PartialEq for Nu32 {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits() || (self.0.is_nan() && o.0.is_nan())
    }
}
#[derive(Validator)]
#[validator(number(nan(Must)))]
pub struct Nm32(pub f32);
impl PartialEq for Nm32 {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits() || (self.0.is_nan() && o.0.is_nan())
    }
}
#[derive(Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -1.5, max = 100.25))))]
pub struct N64(pub f64);
impl PartialEq for N64 {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits() || (self.0.is_nan() && o.0.is_nan())
    }
}
#[derive(Validator)]
#[validator(number(nan(Allow), range(Unlimited)))]
pub struct Nu64(pub f64);
impl PartialEq for Nu64 {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits() || (self.0.is_nan() && o.0.is_nan())
    }
}
#[derive(Validator)]
#[validator(number(nan(Must)))]
pub struct Nm64(pub f64);
impl PartialEq for Nm64 {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits() || (self.0.is_nan() && o.0.is_nan())
    }
}
#[derive(Validator, PartialEq)]
#[validator(boolean)]
pub struct B(pub bool);
#[derive(Validator, PartialEq)]
#[validator(text(char_length(trimmed_min = 1, max = 1)))]
pub struct Txt(pub String);
#[derive(Validator, PartialEq)]
#[validator(text(byte_length(min = 1, max = 2)))]
pub struct TxtB(pub String);
#[derive(Validator, PartialEq)]
#[validator(line(char_length(trimmed_min = 1, max = 1)))]
pub struct Lin(pub String);
#[derive(Validator, PartialEq)]
#[validator(line(byte_length(min = 1, max = 2)))]
pub struct LinB(pub String);
#[derive(Validator, PartialEq)]
#[validator(base32(padding(Allow)))]
pub struct Base32A(pub String);
#[derive(Validator, PartialEq)]
#[validator(base32_decoded(padding(Allow)))]
pub struct Base32DA(pub Vec<u8>);
#[derive(Validator, PartialEq)]
#[validator(base32(padding(Must)))]
pub struct Base32M(pub String);
#[derive(Validator, PartialEq)]
#[validator(base32_decoded(padding(Must)))]
pub struct Base32DM(pub Vec<u8>);
#[derive(Validator, PartialEq)]
#[validator(base32(padding(Disallow)))]
pub struct Base32D(pub String);
#[derive(Validator, PartialEq)]
#[validator(base32_decoded(padding(Disallow)))]
pub struct Base32DD(pub Vec<u8>);
#[derive(Validator, PartialEq)]
#[validator(base64(padding(Allow)))]
pub struct Base64A(pub String);
#[derive(Validator, PartialEq)]
#[validator(base64_decoded(padding(Allow)))]
pub struct Base64DA(pub Vec<u8>);
#[derive(Validator, PartialEq)]
#[validator(base64(padding(Must)))]
pub struct Base64M(pub String);
#[derive(Validator, PartialEq)]
#[validator(base64_decoded(padding(Must)))]
pub struct Base64DM(pub Vec<u8>);
#[derive(Validator, PartialEq)]
#[validator(base64(padding(Disallow)))]
pub struct Base64D(pub String);
#[derive(Validator, PartialEq)]
#[validator(base64_decoded(padding(Disallow)))]
pub struct Base64DD(pub Vec<u8>);
#[derive(Validator, PartialEq)]
#[validator(base64_url(padding(Allow)))]
pub struct Base64UrlA(pub String);
#[derive(Validator, PartialEq)]
#[validator(base64_url_decoded(padding(Allow)))]
pub struct Base64UrlDA(pub Vec<u8>);
#[derive(Validator, PartialEq)]
#[validator(base64_url(padding(Must)))]
pub struct Base64UrlM(pub String);
#[derive(Validator, PartialEq)]
#[validator(base64_url_decoded(padding(Must)))]
pub struct Base64UrlDM(pub Vec<u8>);
#[derive(Validator, PartialEq)]
#[validator(base64_url(padding(Disallow)))]
pub struct Base64UrlD(pub String);
#[derive(Validator, PartialEq)]
#[validator(base64_url_decoded(padding(Disallow)))]
pub struct Base64UrlDD(pub Vec<u8>);
#[derive(Validator, PartialEq)]
#[validator(regex(regex = EXPRESSION))]
pub struct Re(pub String);
#[derive(Validator, PartialEq)]
#[validator(mac_address(case(Any), separator(Allow(b':'))))]
pub struct MacAA(pub u64);
#[derive(Validator, PartialEq)]
#[validator(uuid(case(Any), separator(Allow(b'-'))))]
pub struct UuidAA(pub u128);
#[derive(Validator, PartialEq)]
#[validator(mac_address(case(Any), separator(Must(b'-'))))]
pub struct MacAM(pub u64);
#[derive(Validator, PartialEq)]
#[validator(uuid(case(Any), separator(Must(b'-'))))]
pub struct UuidAM(pub u128);
#[derive(Validator, PartialEq)]
#[validator(mac_address(case(Any), separator(Disallow)))]
pub struct MacAD(pub u64);
#[derive(Validator, PartialEq)]
#[validator(uuid(case(Any), separator(Disallow)))]
pub struct UuidAD(pub u128);
#[derive(Validator, PartialEq)]
#[validator(mac_address(case(Upper), separator(Allow(b':'))))]
pub struct MacUA(pub u64);
#[derive(Validator, PartialEq)]
#[validator(uuid(case(Upper), separator(Allow(b'-'))))]
pub struct UuidUA(pub u128);
#[derive(Validator, PartialEq)]
#[validator(mac_address(case(Upper), separator(Must(b'-'))))]
pub struct MacUM(pub u64);
#[derive(Validator, PartialEq)]
#[validator(uuid(case(Upper), separator(Must(b'-'))))]
pub struct UuidUM(pub u128);
#[derive(Validator, PartialEq)]
#[validator(mac_address(case(Upper), separator(Disallow)))]
pub struct MacUD(pub u64);
#[derive(Validator, PartialEq)]
#[validator(uuid(case(Upper), separator(Disallow)))]
pub struct UuidUD(pub u128);
#[derive(Validator, PartialEq)]
#[validator(mac_address(case(Lower), separator(Allow(b':'))))]
pub struct MacLA(pub u64);
#[derive(Validator, PartialEq)]
#[validator(uuid(case(Lower), separator(Allow(b'-'))))]
pub struct UuidLA(pub u128);
#[derive(Validator, PartialEq)]
#[validator(mac_address(case(Lower), separator(Must(b'-'))))]
pub struct MacLM(pub u64);
#[derive(Validator, PartialEq)]
#[validator(uuid(case(Lower), separator(Must(b'-'))))]
pub struct UuidLM(pub u128);
#[derive(Validator, PartialEq)]
#[validator(mac_address(case(Lower), separator(Disallow)))]
pub struct MacLD(pub u64);
#[derive(Validator, PartialEq)]
#[validator(uuid(case(Lower), separator(Disallow)))]
pub struct UuidLD(pub u128);
#[derive(Validator, PartialEq)]
#[validator(ipv4(local(Allow), port(Allow)))]
pub struct TyI4{
    pub ipv4: std::net::Ipv4Addr,
    pub port: Option<u16>,
}
#[derive(Validator, PartialEq)]
#[validator(ipv6(local(Allow), port(Allow)))]
pub struct TyI6{
    pub ipv6: std::net::Ipv6Addr,
    pub port: Option<u16>,
}
#[derive(Validator, PartialEq)]
#[validator(ip(local(Allow), port(Allow)))]
pub struct TyI{
    pub ip: std::net::IpAddr,
    pub port: Option<u16>,
}
#[derive(Validator, PartialEq)]
#[validator(domain(ipv4(Allow), local(Allow), at_least_two_labels(Allow), port(Allow)))]
pub struct TyD{
    pub domain: String,
    pub port: Option<u16>,
}
#[derive(Validator, PartialEq)]
#[validator(host(local(Allow), at_least_two_labels(Allow), port(Allow)))]
pub struct TyH{
    pub host: Host,
    pub port: Option<u16>,
}
#[derive(Validator, PartialEq)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct TyE{
    pub local_part: String,
    pub need_quoted: bool,
    pub domain_part: Host,
    pub comment_before_local_part: Option<String>,
    pub comment_after_local_part: Option<String>,
    pub comment_before_domain_part: Option<String>,
    pub comment_after_domain_part: Option<String>,
}
#[derive(Validator, PartialEq)]
#[validator(length(min = 2, max = 4))]
pub struct L(pub Counted);
harness!(#[kani::unwind(8)] q_int_s8, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = S8::parse_i128(x as i128).ok();
    let v = x as i8;
    let p = S8::parse_i128(v as i128).ok();
    assert!(S8::parse_i8(v).ok() == p && S8::validate_i8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i16;
    let p = S8::parse_i128(v as i128).ok();
    assert!(S8::parse_i16(v).ok() == p && S8::validate_i16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i32;
    let p = S8::parse_i128(v as i128).ok();
    assert!(S8::parse_i32(v).ok() == p && S8::validate_i32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i64;
    let p = S8::parse_i128(v as i128).ok();
    assert!(S8::parse_i64(v).ok() == p && S8::validate_i64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i128;
    let p = S8::parse_i128(v as i128).ok();
    assert!(S8::parse_i128(v).ok() == p && S8::validate_i128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as isize;
    let p = S8::parse_i128(v as i128).ok();
    assert!(S8::parse_isize(v).ok() == p && S8::validate_isize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] q_int_text_s8_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<S8>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_text_s8_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<S8>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_su8, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = Su8::parse_i128(x as i128).ok();
    let v = x as i8;
    let p = Su8::parse_i128(v as i128).ok();
    assert!(Su8::parse_i8(v).ok() == p && Su8::validate_i8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i16;
    let p = Su8::parse_i128(v as i128).ok();
    assert!(Su8::parse_i16(v).ok() == p && Su8::validate_i16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i32;
    let p = Su8::parse_i128(v as i128).ok();
    assert!(Su8::parse_i32(v).ok() == p && Su8::validate_i32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i64;
    let p = Su8::parse_i128(v as i128).ok();
    assert!(Su8::parse_i64(v).ok() == p && Su8::validate_i64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i128;
    let p = Su8::parse_i128(v as i128).ok();
    assert!(Su8::parse_i128(v).ok() == p && Su8::validate_i128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as isize;
    let p = Su8::parse_i128(v as i128).ok();
    assert!(Su8::parse_isize(v).ok() == p && Su8::validate_isize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] t_int_text_su8_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Su8>(st(&b));
});
harness!(#[kani::unwind(8)] t_int_text_su8_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<Su8>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_u8, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = U8::parse_u128(x as u128).ok();
    let v = x as u8;
    let p = U8::parse_u128(v as u128).ok();
    assert!(U8::parse_u8(v).ok() == p && U8::validate_u8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u16;
    let p = U8::parse_u128(v as u128).ok();
    assert!(U8::parse_u16(v).ok() == p && U8::validate_u16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u32;
    let p = U8::parse_u128(v as u128).ok();
    assert!(U8::parse_u32(v).ok() == p && U8::validate_u32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u64;
    let p = U8::parse_u128(v as u128).ok();
    assert!(U8::parse_u64(v).ok() == p && U8::validate_u64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u128;
    let p = U8::parse_u128(v as u128).ok();
    assert!(U8::parse_u128(v).ok() == p && U8::validate_u128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as usize;
    let p = U8::parse_u128(v as u128).ok();
    assert!(U8::parse_usize(v).ok() == p && U8::validate_usize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] q_int_text_u8_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<U8>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_text_u8_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<U8>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_uu8, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = Uu8::parse_u128(x as u128).ok();
    let v = x as u8;
    let p = Uu8::parse_u128(v as u128).ok();
    assert!(Uu8::parse_u8(v).ok() == p && Uu8::validate_u8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u16;
    let p = Uu8::parse_u128(v as u128).ok();
    assert!(Uu8::parse_u16(v).ok() == p && Uu8::validate_u16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u32;
    let p = Uu8::parse_u128(v as u128).ok();
    assert!(Uu8::parse_u32(v).ok() == p && Uu8::validate_u32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u64;
    let p = Uu8::parse_u128(v as u128).ok();
    assert!(Uu8::parse_u64(v).ok() == p && Uu8::validate_u64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u128;
    let p = Uu8::parse_u128(v as u128).ok();
    assert!(Uu8::parse_u128(v).ok() == p && Uu8::validate_u128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as usize;
    let p = Uu8::parse_u128(v as u128).ok();
    assert!(Uu8::parse_usize(v).ok() == p && Uu8::validate_usize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] t_int_text_uu8_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Uu8>(st(&b));
});
harness!(#[kani::unwind(8)] t_int_text_uu8_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<Uu8>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_s16, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = S16::parse_i128(x as i128).ok();
    let v = x as i8;
    let p = S16::parse_i128(v as i128).ok();
    assert!(S16::parse_i8(v).ok() == p && S16::validate_i8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i16;
    let p = S16::parse_i128(v as i128).ok();
    assert!(S16::parse_i16(v).ok() == p && S16::validate_i16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i32;
    let p = S16::parse_i128(v as i128).ok();
    assert!(S16::parse_i32(v).ok() == p && S16::validate_i32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i64;
    let p = S16::parse_i128(v as i128).ok();
    assert!(S16::parse_i64(v).ok() == p && S16::validate_i64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i128;
    let p = S16::parse_i128(v as i128).ok();
    assert!(S16::parse_i128(v).ok() == p && S16::validate_i128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as isize;
    let p = S16::parse_i128(v as i128).ok();
    assert!(S16::parse_isize(v).ok() == p && S16::validate_isize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] t_int_text_s16_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<S16>(st(&b));
});
harness!(#[kani::unwind(8)] t_int_text_s16_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<S16>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_su16, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = Su16::parse_i128(x as i128).ok();
    let v = x as i8;
    let p = Su16::parse_i128(v as i128).ok();
    assert!(Su16::parse_i8(v).ok() == p && Su16::validate_i8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i16;
    let p = Su16::parse_i128(v as i128).ok();
    assert!(Su16::parse_i16(v).ok() == p && Su16::validate_i16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i32;
    let p = Su16::parse_i128(v as i128).ok();
    assert!(Su16::parse_i32(v).ok() == p && Su16::validate_i32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i64;
    let p = Su16::parse_i128(v as i128).ok();
    assert!(Su16::parse_i64(v).ok() == p && Su16::validate_i64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i128;
    let p = Su16::parse_i128(v as i128).ok();
    assert!(Su16::parse_i128(v).ok() == p && Su16::validate_i128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as isize;
    let p = Su16::parse_i128(v as i128).ok();
    assert!(Su16::parse_isize(v).ok() == p && Su16::validate_isize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] t_int_text_su16_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Su16>(st(&b));
});
harness!(#[kani::unwind(8)] t_int_text_su16_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<Su16>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_u16, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = U16::parse_u128(x as u128).ok();
    let v = x as u8;
    let p = U16::parse_u128(v as u128).ok();
    assert!(U16::parse_u8(v).ok() == p && U16::validate_u8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u16;
    let p = U16::parse_u128(v as u128).ok();
    assert!(U16::parse_u16(v).ok() == p && U16::validate_u16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u32;
    let p = U16::parse_u128(v as u128).ok();
    assert!(U16::parse_u32(v).ok() == p && U16::validate_u32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u64;
    let p = U16::parse_u128(v as u128).ok();
    assert!(U16::parse_u64(v).ok() == p && U16::validate_u64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u128;
    let p = U16::parse_u128(v as u128).ok();
    assert!(U16::parse_u128(v).ok() == p && U16::validate_u128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as usize;
    let p = U16::parse_u128(v as u128).ok();
    assert!(U16::parse_usize(v).ok() == p && U16::validate_usize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] t_int_text_u16_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<U16>(st(&b));
});
harness!(#[kani::unwind(8)] t_int_text_u16_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<U16>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_uu16, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = Uu16::parse_u128(x as u128).ok();
    let v = x as u8;
    let p = Uu16::parse_u128(v as u128).ok();
    assert!(Uu16::parse_u8(v).ok() == p && Uu16::validate_u8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u16;
    let p = Uu16::parse_u128(v as u128).ok();
    assert!(Uu16::parse_u16(v).ok() == p && Uu16::validate_u16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u32;
    let p = Uu16::parse_u128(v as u128).ok();
    assert!(Uu16::parse_u32(v).ok() == p && Uu16::validate_u32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u64;
    let p = Uu16::parse_u128(v as u128).ok();
    assert!(Uu16::parse_u64(v).ok() == p && Uu16::validate_u64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u128;
    let p = Uu16::parse_u128(v as u128).ok();
    assert!(Uu16::parse_u128(v).ok() == p && Uu16::validate_u128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as usize;
    let p = Uu16::parse_u128(v as u128).ok();
    assert!(Uu16::parse_usize(v).ok() == p && Uu16::validate_usize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] t_int_text_uu16_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Uu16>(st(&b));
});
harness!(#[kani::unwind(8)] t_int_text_uu16_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<Uu16>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_s32, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = S32::parse_i128(x as i128).ok();
    let v = x as i8;
    let p = S32::parse_i128(v as i128).ok();
    assert!(S32::parse_i8(v).ok() == p && S32::validate_i8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i16;
    let p = S32::parse_i128(v as i128).ok();
    assert!(S32::parse_i16(v).ok() == p && S32::validate_i16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i32;
    let p = S32::parse_i128(v as i128).ok();
    assert!(S32::parse_i32(v).ok() == p && S32::validate_i32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i64;
    let p = S32::parse_i128(v as i128).ok();
    assert!(S32::parse_i64(v).ok() == p && S32::validate_i64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i128;
    let p = S32::parse_i128(v as i128).ok();
    assert!(S32::parse_i128(v).ok() == p && S32::validate_i128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as isize;
    let p = S32::parse_i128(v as i128).ok();
    assert!(S32::parse_isize(v).ok() == p && S32::validate_isize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] t_int_text_s32_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<S32>(st(&b));
});
harness!(#[kani::unwind(8)] t_int_text_s32_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<S32>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_su32, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = Su32::parse_i128(x as i128).ok();
    let v = x as i8;
    let p = Su32::parse_i128(v as i128).ok();
    assert!(Su32::parse_i8(v).ok() == p && Su32::validate_i8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i16;
    let p = Su32::parse_i128(v as i128).ok();
    assert!(Su32::parse_i16(v).ok() == p && Su32::validate_i16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i32;
    let p = Su32::parse_i128(v as i128).ok();
    assert!(Su32::parse_i32(v).ok() == p && Su32::validate_i32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i64;
    let p = Su32::parse_i128(v as i128).ok();
    assert!(Su32::parse_i64(v).ok() == p && Su32::validate_i64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i128;
    let p = Su32::parse_i128(v as i128).ok();
    assert!(Su32::parse_i128(v).ok() == p && Su32::validate_i128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as isize;
    let p = Su32::parse_i128(v as i128).ok();
    assert!(Su32::parse_isize(v).ok() == p && Su32::validate_isize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] t_int_text_su32_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Su32>(st(&b));
});
harness!(#[kani::unwind(8)] t_int_text_su32_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<Su32>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_u32, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = U32::parse_u128(x as u128).ok();
    let v = x as u8;
    let p = U32::parse_u128(v as u128).ok();
    assert!(U32::parse_u8(v).ok() == p && U32::validate_u8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u16;
    let p = U32::parse_u128(v as u128).ok();
    assert!(U32::parse_u16(v).ok() == p && U32::validate_u16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u32;
    let p = U32::parse_u128(v as u128).ok();
    assert!(U32::parse_u32(v).ok() == p && U32::validate_u32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u64;
    let p = U32::parse_u128(v as u128).ok();
    assert!(U32::parse_u64(v).ok() == p && U32::validate_u64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u128;
    let p = U32::parse_u128(v as u128).ok();
    assert!(U32::parse_u128(v).ok() == p && U32::validate_u128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as usize;
    let p = U32::parse_u128(v as u128).ok();
    assert!(U32::parse_usize(v).ok() == p && U32::validate_usize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] t_int_text_u32_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<U32>(st(&b));
});
harness!(#[kani::unwind(8)] t_int_text_u32_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<U32>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_uu32, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = Uu32::parse_u128(x as u128).ok();
    let v = x as u8;
    let p = Uu32::parse_u128(v as u128).ok();
    assert!(Uu32::parse_u8(v).ok() == p && Uu32::validate_u8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u16;
    let p = Uu32::parse_u128(v as u128).ok();
    assert!(Uu32::parse_u16(v).ok() == p && Uu32::validate_u16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u32;
    let p = Uu32::parse_u128(v as u128).ok();
    assert!(Uu32::parse_u32(v).ok() == p && Uu32::validate_u32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u64;
    let p = Uu32::parse_u128(v as u128).ok();
    assert!(Uu32::parse_u64(v).ok() == p && Uu32::validate_u64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u128;
    let p = Uu32::parse_u128(v as u128).ok();
    assert!(Uu32::parse_u128(v).ok() == p && Uu32::validate_u128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as usize;
    let p = Uu32::parse_u128(v as u128).ok();
    assert!(Uu32::parse_usize(v).ok() == p && Uu32::validate_usize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] t_int_text_uu32_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Uu32>(st(&b));
});
harness!(#[kani::unwind(8)] t_int_text_uu32_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<Uu32>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_s64, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = S64::parse_i128(x as i128).ok();
    let v = x as i8;
    let p = S64::parse_i128(v as i128).ok();
    assert!(S64::parse_i8(v).ok() == p && S64::validate_i8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i16;
    let p = S64::parse_i128(v as i128).ok();
    assert!(S64::parse_i16(v).ok() == p && S64::validate_i16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i32;
    let p = S64::parse_i128(v as i128).ok();
    assert!(S64::parse_i32(v).ok() == p && S64::validate_i32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i64;
    let p = S64::parse_i128(v as i128).ok();
    assert!(S64::parse_i64(v).ok() == p && S64::validate_i64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i128;
    let p = S64::parse_i128(v as i128).ok();
    assert!(S64::parse_i128(v).ok() == p && S64::validate_i128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as isize;
    let p = S64::parse_i128(v as i128).ok();
    assert!(S64::parse_isize(v).ok() == p && S64::validate_isize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] t_int_text_s64_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<S64>(st(&b));
});
harness!(#[kani::unwind(8)] t_int_text_s64_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<S64>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_su64, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = Su64::parse_i128(x as i128).ok();
    let v = x as i8;
    let p = Su64::parse_i128(v as i128).ok();
    assert!(Su64::parse_i8(v).ok() == p && Su64::validate_i8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i16;
    let p = Su64::parse_i128(v as i128).ok();
    assert!(Su64::parse_i16(v).ok() == p && Su64::validate_i16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i32;
    let p = Su64::parse_i128(v as i128).ok();
    assert!(Su64::parse_i32(v).ok() == p && Su64::validate_i32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i64;
    let p = Su64::parse_i128(v as i128).ok();
    assert!(Su64::parse_i64(v).ok() == p && Su64::validate_i64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i128;
    let p = Su64::parse_i128(v as i128).ok();
    assert!(Su64::parse_i128(v).ok() == p && Su64::validate_i128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as isize;
    let p = Su64::parse_i128(v as i128).ok();
    assert!(Su64::parse_isize(v).ok() == p && Su64::validate_isize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] t_int_text_su64_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Su64>(st(&b));
});
harness!(#[kani::unwind(8)] t_int_text_su64_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<Su64>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_u64, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = U64::parse_u128(x as u128).ok();
    let v = x as u8;
    let p = U64::parse_u128(v as u128).ok();
    assert!(U64::parse_u8(v).ok() == p && U64::validate_u8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u16;
    let p = U64::parse_u128(v as u128).ok();
    assert!(U64::parse_u16(v).ok() == p && U64::validate_u16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u32;
    let p = U64::parse_u128(v as u128).ok();
    assert!(U64::parse_u32(v).ok() == p && U64::validate_u32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u64;
    let p = U64::parse_u128(v as u128).ok();
    assert!(U64::parse_u64(v).ok() == p && U64::validate_u64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u128;
    let p = U64::parse_u128(v as u128).ok();
    assert!(U64::parse_u128(v).ok() == p && U64::validate_u128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as usize;
    let p = U64::parse_u128(v as u128).ok();
    assert!(U64::parse_usize(v).ok() == p && U64::validate_usize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] t_int_text_u64_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<U64>(st(&b));
});
harness!(#[kani::unwind(8)] t_int_text_u64_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<U64>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_uu64, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = Uu64::parse_u128(x as u128).ok();
    let v = x as u8;
    let p = Uu64::parse_u128(v as u128).ok();
    assert!(Uu64::parse_u8(v).ok() == p && Uu64::validate_u8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u16;
    let p = Uu64::parse_u128(v as u128).ok();
    assert!(Uu64::parse_u16(v).ok() == p && Uu64::validate_u16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u32;
    let p = Uu64::parse_u128(v as u128).ok();
    assert!(Uu64::parse_u32(v).ok() == p && Uu64::validate_u32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u64;
    let p = Uu64::parse_u128(v as u128).ok();
    assert!(Uu64::parse_u64(v).ok() == p && Uu64::validate_u64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u128;
    let p = Uu64::parse_u128(v as u128).ok();
    assert!(Uu64::parse_u128(v).ok() == p && Uu64::validate_u128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as usize;
    let p = Uu64::parse_u128(v as u128).ok();
    assert!(Uu64::parse_usize(v).ok() == p && Uu64::validate_usize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] t_int_text_uu64_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Uu64>(st(&b));
});
harness!(#[kani::unwind(8)] t_int_text_uu64_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<Uu64>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_s128, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = S128::parse_i128(x as i128).ok();
    let v = x as i8;
    let p = S128::parse_i128(v as i128).ok();
    assert!(S128::parse_i8(v).ok() == p && S128::validate_i8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i16;
    let p = S128::parse_i128(v as i128).ok();
    assert!(S128::parse_i16(v).ok() == p && S128::validate_i16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i32;
    let p = S128::parse_i128(v as i128).ok();
    assert!(S128::parse_i32(v).ok() == p && S128::validate_i32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i64;
    let p = S128::parse_i128(v as i128).ok();
    assert!(S128::parse_i64(v).ok() == p && S128::validate_i64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i128;
    let p = S128::parse_i128(v as i128).ok();
    assert!(S128::parse_i128(v).ok() == p && S128::validate_i128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as isize;
    let p = S128::parse_i128(v as i128).ok();
    assert!(S128::parse_isize(v).ok() == p && S128::validate_isize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] t_int_text_s128_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<S128>(st(&b));
});
harness!(#[kani::unwind(8)] t_int_text_s128_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<S128>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_su128, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = Su128::parse_i128(x as i128).ok();
    let v = x as i8;
    let p = Su128::parse_i128(v as i128).ok();
    assert!(Su128::parse_i8(v).ok() == p && Su128::validate_i8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i16;
    let p = Su128::parse_i128(v as i128).ok();
    assert!(Su128::parse_i16(v).ok() == p && Su128::validate_i16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i32;
    let p = Su128::parse_i128(v as i128).ok();
    assert!(Su128::parse_i32(v).ok() == p && Su128::validate_i32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i64;
    let p = Su128::parse_i128(v as i128).ok();
    assert!(Su128::parse_i64(v).ok() == p && Su128::validate_i64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i128;
    let p = Su128::parse_i128(v as i128).ok();
    assert!(Su128::parse_i128(v).ok() == p && Su128::validate_i128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as isize;
    let p = Su128::parse_i128(v as i128).ok();
    assert!(Su128::parse_isize(v).ok() == p && Su128::validate_isize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] t_int_text_su128_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Su128>(st(&b));
});
harness!(#[kani::unwind(8)] t_int_text_su128_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<Su128>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_u128, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = U128::parse_u128(x as u128).ok();
    let v = x as u8;
    let p = U128::parse_u128(v as u128).ok();
    assert!(U128::parse_u8(v).ok() == p && U128::validate_u8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u16;
    let p = U128::parse_u128(v as u128).ok();
    assert!(U128::parse_u16(v).ok() == p && U128::validate_u16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u32;
    let p = U128::parse_u128(v as u128).ok();
    assert!(U128::parse_u32(v).ok() == p && U128::validate_u32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u64;
    let p = U128::parse_u128(v as u128).ok();
    assert!(U128::parse_u64(v).ok() == p && U128::validate_u64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u128;
    let p = U128::parse_u128(v as u128).ok();
    assert!(U128::parse_u128(v).ok() == p && U128::validate_u128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as usize;
    let p = U128::parse_u128(v as u128).ok();
    assert!(U128::parse_usize(v).ok() == p && U128::validate_usize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] t_int_text_u128_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<U128>(st(&b));
});
harness!(#[kani::unwind(8)] t_int_text_u128_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<U128>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_uu128, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = Uu128::parse_u128(x as u128).ok();
    let v = x as u8;
    let p = Uu128::parse_u128(v as u128).ok();
    assert!(Uu128::parse_u8(v).ok() == p && Uu128::validate_u8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u16;
    let p = Uu128::parse_u128(v as u128).ok();
    assert!(Uu128::parse_u16(v).ok() == p && Uu128::validate_u16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u32;
    let p = Uu128::parse_u128(v as u128).ok();
    assert!(Uu128::parse_u32(v).ok() == p && Uu128::validate_u32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u64;
    let p = Uu128::parse_u128(v as u128).ok();
    assert!(Uu128::parse_u64(v).ok() == p && Uu128::validate_u64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u128;
    let p = Uu128::parse_u128(v as u128).ok();
    assert!(Uu128::parse_u128(v).ok() == p && Uu128::validate_u128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as usize;
    let p = Uu128::parse_u128(v as u128).ok();
    assert!(Uu128::parse_usize(v).ok() == p && Uu128::validate_usize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] t_int_text_uu128_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Uu128>(st(&b));
});
harness!(#[kani::unwind(8)] t_int_text_uu128_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<Uu128>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_ssize, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = Ssize::parse_i128(x as i128).ok();
    let v = x as i8;
    let p = Ssize::parse_i128(v as i128).ok();
    assert!(Ssize::parse_i8(v).ok() == p && Ssize::validate_i8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i16;
    let p = Ssize::parse_i128(v as i128).ok();
    assert!(Ssize::parse_i16(v).ok() == p && Ssize::validate_i16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i32;
    let p = Ssize::parse_i128(v as i128).ok();
    assert!(Ssize::parse_i32(v).ok() == p && Ssize::validate_i32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i64;
    let p = Ssize::parse_i128(v as i128).ok();
    assert!(Ssize::parse_i64(v).ok() == p && Ssize::validate_i64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i128;
    let p = Ssize::parse_i128(v as i128).ok();
    assert!(Ssize::parse_i128(v).ok() == p && Ssize::validate_i128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as isize;
    let p = Ssize::parse_i128(v as i128).ok();
    assert!(Ssize::parse_isize(v).ok() == p && Ssize::validate_isize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] q_int_text_ssize_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Ssize>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_text_ssize_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<Ssize>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_susize, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = Susize::parse_i128(x as i128).ok();
    let v = x as i8;
    let p = Susize::parse_i128(v as i128).ok();
    assert!(Susize::parse_i8(v).ok() == p && Susize::validate_i8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i16;
    let p = Susize::parse_i128(v as i128).ok();
    assert!(Susize::parse_i16(v).ok() == p && Susize::validate_i16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i32;
    let p = Susize::parse_i128(v as i128).ok();
    assert!(Susize::parse_i32(v).ok() == p && Susize::validate_i32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i64;
    let p = Susize::parse_i128(v as i128).ok();
    assert!(Susize::parse_i64(v).ok() == p && Susize::validate_i64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i128;
    let p = Susize::parse_i128(v as i128).ok();
    assert!(Susize::parse_i128(v).ok() == p && Susize::validate_i128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as isize;
    let p = Susize::parse_i128(v as i128).ok();
    assert!(Susize::parse_isize(v).ok() == p && Susize::validate_isize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] t_int_text_susize_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Susize>(st(&b));
});
harness!(#[kani::unwind(8)] t_int_text_susize_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<Susize>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_usize, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = Usize::parse_u128(x as u128).ok();
    let v = x as u8;
    let p = Usize::parse_u128(v as u128).ok();
    assert!(Usize::parse_u8(v).ok() == p && Usize::validate_u8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u16;
    let p = Usize::parse_u128(v as u128).ok();
    assert!(Usize::parse_u16(v).ok() == p && Usize::validate_u16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u32;
    let p = Usize::parse_u128(v as u128).ok();
    assert!(Usize::parse_u32(v).ok() == p && Usize::validate_u32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u64;
    let p = Usize::parse_u128(v as u128).ok();
    assert!(Usize::parse_u64(v).ok() == p && Usize::validate_u64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u128;
    let p = Usize::parse_u128(v as u128).ok();
    assert!(Usize::parse_u128(v).ok() == p && Usize::validate_u128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as usize;
    let p = Usize::parse_u128(v as u128).ok();
    assert!(Usize::parse_usize(v).ok() == p && Usize::validate_usize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] q_int_text_usize_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Usize>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_text_usize_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<Usize>(st(&b));
});
harness!(#[kani::unwind(8)] q_int_uusize, bytes = 16, bound = "every number of every width", |s| {
    let x = s.u128();
    let p = Uusize::parse_u128(x as u128).ok();
    let v = x as u8;
    let p = Uusize::parse_u128(v as u128).ok();
    assert!(Uusize::parse_u8(v).ok() == p && Uusize::validate_u8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u16;
    let p = Uusize::parse_u128(v as u128).ok();
    assert!(Uusize::parse_u16(v).ok() == p && Uusize::validate_u16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u32;
    let p = Uusize::parse_u128(v as u128).ok();
    assert!(Uusize::parse_u32(v).ok() == p && Uusize::validate_u32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u64;
    let p = Uusize::parse_u128(v as u128).ok();
    assert!(Uusize::parse_u64(v).ok() == p && Uusize::validate_u64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u128;
    let p = Uusize::parse_u128(v as u128).ok();
    assert!(Uusize::parse_u128(v).ok() == p && Uusize::validate_u128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as usize;
    let p = Uusize::parse_u128(v as u128).ok();
    assert!(Uusize::parse_usize(v).ok() == p && Uusize::validate_usize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] t_int_text_uusize_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Uusize>(st(&b));
});
harness!(#[kani::unwind(8)] t_int_text_uusize_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<Uusize>(st(&b));
});
harness!(#[kani::unwind(8)] q_number_n32, bytes = 8, bound = "every f32 and f64", |s| {
    let x = s.u64();
    let v = f64::from_bits(x);
    let p = N32::parse_f64(v).ok();
    assert!(N32::validate_f64(v).is_ok() == matches!(p, Some(_)), "validating gives the verdict of parsing");
    let v = f32::from_bits(x as u32);
    let p = N32::parse_f64(v as f64).ok();
    assert!(N32::parse_f32(v).ok() == p && N32::validate_f32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] q_number_nu32, bytes = 8, bound = "every f32 and f64", |s| {
    let x = s.u64();
    let v = f64::from_bits(x);
    let p = Nu32::parse_f64(v).ok();
    assert!(Nu32::validate_f64(v).is_ok() == matches!(p, Some(_)), "validating gives the verdict of parsing");
    let v = f32::from_bits(x as u32);
    let p = Nu32::parse_f64(v as f64).ok();
    assert!(Nu32::parse_f32(v).ok() == p && Nu32::validate_f32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] q_number_nm32, bytes = 8, bound = "every f32 and f64", |s| {
    let x = s.u64();
    let v = f64::from_bits(x);
    let p = Nm32::parse_f64(v).ok();
    assert!(Nm32::validate_f64(v).is_ok() == matches!(p, Some(_)), "validating gives the verdict of parsing");
    let v = f32::from_bits(x as u32);
    let p = Nm32::parse_f64(v as f64).ok();
    assert!(Nm32::parse_f32(v).ok() == p && Nm32::validate_f32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] q_number_n64, bytes = 8, bound = "every f32 and f64", |s| {
    let x = s.u64();
    let v = f64::from_bits(x);
    let p = N64::parse_f64(v).ok();
    assert!(N64::validate_f64(v).is_ok() == matches!(p, Some(_)), "validating gives the verdict of parsing");
    let v = f32::from_bits(x as u32);
    let p = N64::parse_f64(v as f64).ok();
    assert!(N64::parse_f32(v).ok() == p && N64::validate_f32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] q_number_nu64, bytes = 8, bound = "every f32 and f64", |s| {
    let x = s.u64();
    let v = f64::from_bits(x);
    let p = Nu64::parse_f64(v).ok();
    assert!(Nu64::validate_f64(v).is_ok() == matches!(p, Some(_)), "validating gives the verdict of parsing");
    let v = f32::from_bits(x as u32);
    let p = Nu64::parse_f64(v as f64).ok();
    assert!(Nu64::parse_f32(v).ok() == p && Nu64::validate_f32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] q_number_nm64, bytes = 8, bound = "every f32 and f64", |s| {
    let x = s.u64();
    let v = f64::from_bits(x);
    let p = Nm64::parse_f64(v).ok();
    assert!(Nm64::validate_f64(v).is_ok() == matches!(p, Some(_)), "validating gives the verdict of parsing");
    let v = f32::from_bits(x as u32);
    let p = Nm64::parse_f64(v as f64).ok();
    assert!(Nm64::parse_f32(v).ok() == p && Nm64::validate_f32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(8)] q_boolean, bytes = 21, bound = "every bool, char and integer", |s| {
    let v = s.bool();
    let p = B::parse_bool(v).ok();
    assert!(B::validate_bool(v).is_ok() == matches!(p, Some(_)), "validating gives the verdict of parsing");
    let c = s.char();
    let p = B::parse_char(c).ok();
    assert!(B::validate_char(c).is_ok() == matches!(p, Some(_)), "validating gives the verdict of parsing");
    let x = s.u128();
    let v = x as i8;
    let p = B::parse_i128(v as i128).ok();
    assert!(B::parse_i8(v).ok() == p && B::validate_i8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i16;
    let p = B::parse_i128(v as i128).ok();
    assert!(B::parse_i16(v).ok() == p && B::validate_i16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i32;
    let p = B::parse_i128(v as i128).ok();
    assert!(B::parse_i32(v).ok() == p && B::validate_i32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i64;
    let p = B::parse_i128(v as i128).ok();
    assert!(B::parse_i64(v).ok() == p && B::validate_i64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as i128;
    let p = B::parse_i128(v as i128).ok();
    assert!(B::parse_i128(v).ok() == p && B::validate_i128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as isize;
    let p = B::parse_i128(v as i128).ok();
    assert!(B::parse_isize(v).ok() == p && B::validate_isize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u8;
    let p = B::parse_u128(v as u128).ok();
    assert!(B::parse_u8(v).ok() == p && B::validate_u8(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u16;
    let p = B::parse_u128(v as u128).ok();
    assert!(B::parse_u16(v).ok() == p && B::validate_u16(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u32;
    let p = B::parse_u128(v as u128).ok();
    assert!(B::parse_u32(v).ok() == p && B::validate_u32(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u64;
    let p = B::parse_u128(v as u128).ok();
    assert!(B::parse_u64(v).ok() == p && B::validate_u64(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as u128;
    let p = B::parse_u128(v as u128).ok();
    assert!(B::parse_u128(v).ok() == p && B::validate_u128(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
    let v = x as usize;
    let p = B::parse_u128(v as u128).ok();
    assert!(B::parse_usize(v).ok() == p && B::validate_usize(v).is_ok() == matches!(p, Some(_)), "every width gives the same");
});
harness!(#[kani::unwind(10)] q_boolean_text_0, bytes = 1, bound = "every ASCII text of 0 bytes", |s| {
    let b = s.ascii::<0>();
    texts::<B>(st(&b));
});
harness!(#[kani::unwind(10)] q_boolean_text_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<B>(st(&b));
});
harness!(#[kani::unwind(10)] q_boolean_text_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<B>(st(&b));
});
harness!(#[kani::unwind(10)] q_boolean_text_3, bytes = 3, bound = "every ASCII text of 3 bytes", |s| {
    let b = s.ascii::<3>();
    texts::<B>(st(&b));
});
harness!(#[kani::unwind(10)] q_boolean_text_4, bytes = 4, bound = "every ASCII text of 4 bytes", |s| {
    let b = s.ascii::<4>();
    texts::<B>(st(&b));
});
harness!(#[kani::unwind(10)] q_boolean_text_5, bytes = 5, bound = "every ASCII text of 5 bytes", |s| {
    let b = s.ascii::<5>();
    texts::<B>(st(&b));
});
harness!(#[kani::unwind(10)] q_boolean_text_6, bytes = 6, bound = "every ASCII text of 6 bytes", |s| {
    let b = s.ascii::<6>();
    texts::<B>(st(&b));
});
harness!(#[kani::unwind(10)] q_txt_0, bytes = 1, bound = "every ASCII text of 0 bytes", |s| {
    let b = s.ascii::<0>();
    texts::<Txt>(st(&b));
});
harness!(#[kani::unwind(10)] q_txt_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Txt>(st(&b));
});
harness!(#[kani::unwind(10)] q_txt_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<Txt>(st(&b));
});
harness!(#[kani::unwind(10)] q_txt_wide, bytes = 3, bound = "every character of two bytes before and after every ASCII character", |s| {
    let b = wide::<3>(s, 0);
    texts::<Txt>(st(&b));
});
harness!(#[kani::unwind(10)] q_txtb_0, bytes = 1, bound = "every ASCII text of 0 bytes", |s| {
    let b = s.ascii::<0>();
    texts::<TxtB>(st(&b));
});
harness!(#[kani::unwind(10)] q_txtb_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<TxtB>(st(&b));
});
harness!(#[kani::unwind(10)] q_txtb_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<TxtB>(st(&b));
});
harness!(#[kani::unwind(10)] q_txtb_wide, bytes = 3, bound = "every character of two bytes before and after every ASCII character", |s| {
    let b = wide::<3>(s, 1);
    texts::<TxtB>(st(&b));
});
harness!(#[kani::unwind(10)] q_lin_0, bytes = 1, bound = "every ASCII text of 0 bytes", |s| {
    let b = s.ascii::<0>();
    texts::<Lin>(st(&b));
});
harness!(#[kani::unwind(10)] q_lin_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Lin>(st(&b));
});
harness!(#[kani::unwind(10)] q_lin_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<Lin>(st(&b));
});
harness!(#[kani::unwind(10)] q_lin_wide, bytes = 3, bound = "every character of two bytes before and after every ASCII character", |s| {
    let b = wide::<3>(s, 1);
    texts::<Lin>(st(&b));
});
harness!(#[kani::unwind(10)] q_linb_0, bytes = 1, bound = "every ASCII text of 0 bytes", |s| {
    let b = s.ascii::<0>();
    texts::<LinB>(st(&b));
});
harness!(#[kani::unwind(10)] q_linb_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<LinB>(st(&b));
});
harness!(#[kani::unwind(10)] q_linb_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<LinB>(st(&b));
});
harness!(#[kani::unwind(10)] q_linb_wide, bytes = 3, bound = "every character of two bytes before and after every ASCII character", |s| {
    let b = wide::<3>(s, 1);
    texts::<LinB>(st(&b));
});
harness!(#[kani::unwind(7)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base32_allow_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Base32A>(st(&b));
});
harness!(#[kani::unwind(7)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base32_allow_1_bytes, bytes = 1, bound = "every 1 bytes", |s| {
    let b = s.bytes::<1>();
    bytes::<Base32A>(&b);
});
harness!(#[kani::unwind(8)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_allow_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<Base32A>(st(&b));
});
harness!(#[kani::unwind(8)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_allow_2_bytes, bytes = 2, bound = "every 2 bytes", |s| {
    let b = s.bytes::<2>();
    bytes::<Base32A>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base32_allow_4, bytes = 4, bound = "every ASCII text of 4 bytes", |s| {
    let b = s.ascii::<4>();
    texts::<Base32A>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base32_allow_4_bytes, bytes = 4, bound = "every 4 bytes", |s| {
    let b = s.bytes::<4>();
    bytes::<Base32A>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_decoded_allow_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Base32DA>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_decoded_allow_1_bytes, bytes = 1, bound = "every 1 bytes", |s| {
    let b = s.bytes::<1>();
    bytes::<Base32DA>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base32_decoded_allow_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<Base32DA>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base32_decoded_allow_2_bytes, bytes = 2, bound = "every 2 bytes", |s| {
    let b = s.bytes::<2>();
    bytes::<Base32DA>(&b);
});
harness!(#[kani::unwind(7)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_must_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Base32M>(st(&b));
});
harness!(#[kani::unwind(7)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_must_1_bytes, bytes = 1, bound = "every 1 bytes", |s| {
    let b = s.bytes::<1>();
    bytes::<Base32M>(&b);
});
harness!(#[kani::unwind(8)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_must_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<Base32M>(st(&b));
});
harness!(#[kani::unwind(8)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_must_2_bytes, bytes = 2, bound = "every 2 bytes", |s| {
    let b = s.bytes::<2>();
    bytes::<Base32M>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_must_4, bytes = 4, bound = "every ASCII text of 4 bytes", |s| {
    let b = s.ascii::<4>();
    texts::<Base32M>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_must_4_bytes, bytes = 4, bound = "every 4 bytes", |s| {
    let b = s.bytes::<4>();
    bytes::<Base32M>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_decoded_must_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Base32DM>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_decoded_must_1_bytes, bytes = 1, bound = "every 1 bytes", |s| {
    let b = s.bytes::<1>();
    bytes::<Base32DM>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_decoded_must_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<Base32DM>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_decoded_must_2_bytes, bytes = 2, bound = "every 2 bytes", |s| {
    let b = s.bytes::<2>();
    bytes::<Base32DM>(&b);
});
harness!(#[kani::unwind(7)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_disallow_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Base32D>(st(&b));
});
harness!(#[kani::unwind(7)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_disallow_1_bytes, bytes = 1, bound = "every 1 bytes", |s| {
    let b = s.bytes::<1>();
    bytes::<Base32D>(&b);
});
harness!(#[kani::unwind(8)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_disallow_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<Base32D>(st(&b));
});
harness!(#[kani::unwind(8)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_disallow_2_bytes, bytes = 2, bound = "every 2 bytes", |s| {
    let b = s.bytes::<2>();
    bytes::<Base32D>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_disallow_4, bytes = 4, bound = "every ASCII text of 4 bytes", |s| {
    let b = s.ascii::<4>();
    texts::<Base32D>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_disallow_4_bytes, bytes = 4, bound = "every 4 bytes", |s| {
    let b = s.bytes::<4>();
    bytes::<Base32D>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_decoded_disallow_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Base32DD>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_decoded_disallow_1_bytes, bytes = 1, bound = "every 1 bytes", |s| {
    let b = s.bytes::<1>();
    bytes::<Base32DD>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_decoded_disallow_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<Base32DD>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base32_decoded_disallow_2_bytes, bytes = 2, bound = "every 2 bytes", |s| {
    let b = s.bytes::<2>();
    bytes::<Base32DD>(&b);
});
harness!(#[kani::unwind(7)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base64_allow_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Base64A>(st(&b));
});
harness!(#[kani::unwind(7)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base64_allow_1_bytes, bytes = 1, bound = "every 1 bytes", |s| {
    let b = s.bytes::<1>();
    bytes::<Base64A>(&b);
});
harness!(#[kani::unwind(8)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_allow_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<Base64A>(st(&b));
});
harness!(#[kani::unwind(8)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_allow_2_bytes, bytes = 2, bound = "every 2 bytes", |s| {
    let b = s.bytes::<2>();
    bytes::<Base64A>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base64_allow_4, bytes = 4, bound = "every ASCII text of 4 bytes", |s| {
    let b = s.ascii::<4>();
    texts::<Base64A>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base64_allow_4_bytes, bytes = 4, bound = "every 4 bytes", |s| {
    let b = s.bytes::<4>();
    bytes::<Base64A>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_decoded_allow_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Base64DA>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_decoded_allow_1_bytes, bytes = 1, bound = "every 1 bytes", |s| {
    let b = s.bytes::<1>();
    bytes::<Base64DA>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base64_decoded_allow_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<Base64DA>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base64_decoded_allow_2_bytes, bytes = 2, bound = "every 2 bytes", |s| {
    let b = s.bytes::<2>();
    bytes::<Base64DA>(&b);
});
harness!(#[kani::unwind(7)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_must_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Base64M>(st(&b));
});
harness!(#[kani::unwind(7)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_must_1_bytes, bytes = 1, bound = "every 1 bytes", |s| {
    let b = s.bytes::<1>();
    bytes::<Base64M>(&b);
});
harness!(#[kani::unwind(8)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_must_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<Base64M>(st(&b));
});
harness!(#[kani::unwind(8)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_must_2_bytes, bytes = 2, bound = "every 2 bytes", |s| {
    let b = s.bytes::<2>();
    bytes::<Base64M>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_must_4, bytes = 4, bound = "every ASCII text of 4 bytes", |s| {
    let b = s.ascii::<4>();
    texts::<Base64M>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_must_4_bytes, bytes = 4, bound = "every 4 bytes", |s| {
    let b = s.bytes::<4>();
    bytes::<Base64M>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_decoded_must_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Base64DM>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_decoded_must_1_bytes, bytes = 1, bound = "every 1 bytes", |s| {
    let b = s.bytes::<1>();
    bytes::<Base64DM>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_decoded_must_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<Base64DM>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_decoded_must_2_bytes, bytes = 2, bound = "every 2 bytes", |s| {
    let b = s.bytes::<2>();
    bytes::<Base64DM>(&b);
});
harness!(#[kani::unwind(7)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_disallow_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Base64D>(st(&b));
});
harness!(#[kani::unwind(7)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_disallow_1_bytes, bytes = 1, bound = "every 1 bytes", |s| {
    let b = s.bytes::<1>();
    bytes::<Base64D>(&b);
});
harness!(#[kani::unwind(8)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_disallow_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<Base64D>(st(&b));
});
harness!(#[kani::unwind(8)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_disallow_2_bytes, bytes = 2, bound = "every 2 bytes", |s| {
    let b = s.bytes::<2>();
    bytes::<Base64D>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_disallow_4, bytes = 4, bound = "every ASCII text of 4 bytes", |s| {
    let b = s.ascii::<4>();
    texts::<Base64D>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_disallow_4_bytes, bytes = 4, bound = "every 4 bytes", |s| {
    let b = s.bytes::<4>();
    bytes::<Base64D>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_decoded_disallow_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Base64DD>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_decoded_disallow_1_bytes, bytes = 1, bound = "every 1 bytes", |s| {
    let b = s.bytes::<1>();
    bytes::<Base64DD>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_decoded_disallow_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<Base64DD>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_decoded_disallow_2_bytes, bytes = 2, bound = "every 2 bytes", |s| {
    let b = s.bytes::<2>();
    bytes::<Base64DD>(&b);
});
harness!(#[kani::unwind(7)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base64_url_allow_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Base64UrlA>(st(&b));
});
harness!(#[kani::unwind(7)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base64_url_allow_1_bytes, bytes = 1, bound = "every 1 bytes", |s| {
    let b = s.bytes::<1>();
    bytes::<Base64UrlA>(&b);
});
harness!(#[kani::unwind(8)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_allow_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<Base64UrlA>(st(&b));
});
harness!(#[kani::unwind(8)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_allow_2_bytes, bytes = 2, bound = "every 2 bytes", |s| {
    let b = s.bytes::<2>();
    bytes::<Base64UrlA>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base64_url_allow_4, bytes = 4, bound = "every ASCII text of 4 bytes", |s| {
    let b = s.ascii::<4>();
    texts::<Base64UrlA>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base64_url_allow_4_bytes, bytes = 4, bound = "every 4 bytes", |s| {
    let b = s.bytes::<4>();
    bytes::<Base64UrlA>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_decoded_allow_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Base64UrlDA>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_decoded_allow_1_bytes, bytes = 1, bound = "every 1 bytes", |s| {
    let b = s.bytes::<1>();
    bytes::<Base64UrlDA>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base64_url_decoded_allow_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<Base64UrlDA>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] q_base64_url_decoded_allow_2_bytes, bytes = 2, bound = "every 2 bytes", |s| {
    let b = s.bytes::<2>();
    bytes::<Base64UrlDA>(&b);
});
harness!(#[kani::unwind(7)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_must_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Base64UrlM>(st(&b));
});
harness!(#[kani::unwind(7)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_must_1_bytes, bytes = 1, bound = "every 1 bytes", |s| {
    let b = s.bytes::<1>();
    bytes::<Base64UrlM>(&b);
});
harness!(#[kani::unwind(8)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_must_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<Base64UrlM>(st(&b));
});
harness!(#[kani::unwind(8)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_must_2_bytes, bytes = 2, bound = "every 2 bytes", |s| {
    let b = s.bytes::<2>();
    bytes::<Base64UrlM>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_must_4, bytes = 4, bound = "every ASCII text of 4 bytes", |s| {
    let b = s.ascii::<4>();
    texts::<Base64UrlM>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_must_4_bytes, bytes = 4, bound = "every 4 bytes", |s| {
    let b = s.bytes::<4>();
    bytes::<Base64UrlM>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_decoded_must_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Base64UrlDM>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_decoded_must_1_bytes, bytes = 1, bound = "every 1 bytes", |s| {
    let b = s.bytes::<1>();
    bytes::<Base64UrlDM>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_decoded_must_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<Base64UrlDM>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_decoded_must_2_bytes, bytes = 2, bound = "every 2 bytes", |s| {
    let b = s.bytes::<2>();
    bytes::<Base64UrlDM>(&b);
});
harness!(#[kani::unwind(7)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_disallow_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Base64UrlD>(st(&b));
});
harness!(#[kani::unwind(7)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_disallow_1_bytes, bytes = 1, bound = "every 1 bytes", |s| {
    let b = s.bytes::<1>();
    bytes::<Base64UrlD>(&b);
});
harness!(#[kani::unwind(8)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_disallow_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<Base64UrlD>(st(&b));
});
harness!(#[kani::unwind(8)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_disallow_2_bytes, bytes = 2, bound = "every 2 bytes", |s| {
    let b = s.bytes::<2>();
    bytes::<Base64UrlD>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_disallow_4, bytes = 4, bound = "every ASCII text of 4 bytes", |s| {
    let b = s.ascii::<4>();
    texts::<Base64UrlD>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_disallow_4_bytes, bytes = 4, bound = "every 4 bytes", |s| {
    let b = s.bytes::<4>();
    bytes::<Base64UrlD>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_decoded_disallow_1, bytes = 1, bound = "every ASCII text of 1 bytes", |s| {
    let b = s.ascii::<1>();
    texts::<Base64UrlDD>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_decoded_disallow_1_bytes, bytes = 1, bound = "every 1 bytes", |s| {
    let b = s.bytes::<1>();
    bytes::<Base64UrlDD>(&b);
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_decoded_disallow_2, bytes = 2, bound = "every ASCII text of 2 bytes", |s| {
    let b = s.ascii::<2>();
    texts::<Base64UrlDD>(st(&b));
});
harness!(#[kani::unwind(10)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] t_base64_url_decoded_disallow_2_bytes, bytes = 2, bound = "every 2 bytes", |s| {
    let b = s.bytes::<2>();
    bytes::<Base64UrlDD>(&b);
});
harness!(#[kani::unwind(8)] q_regex, bytes = 4, bound = "every ASCII text of 3 bytes, matched or not", |s| {
    unsafe { MATCHES = s.bool() };
    let b = s.ascii::<3>();
    texts::<Re>(st(&b));
});
harness!(#[kani::unwind(14)] q_macad_12_at_2, bytes = 1, bound = "080027446031 with any byte at position 2", |s| {
    let b = at(s, b"080027446031", 2);
    texts::<MacAD>(st(&b));
});
harness!(#[kani::unwind(14)] q_macad_12_at_11, bytes = 1, bound = "080027446031 with any byte at position 11", |s| {
    let b = at(s, b"080027446031", 11);
    texts::<MacAD>(st(&b));
});
harness!(#[kani::unwind(34)] q_uuidad_32_at_2, bytes = 1, bound = "20107020005040809030607080901234 with any byte at position 2", |s| {
    let b = at(s, b"20107020005040809030607080901234", 2);
    texts::<UuidAD>(st(&b));
});
harness!(#[kani::unwind(34)] q_uuidad_32_at_31, bytes = 1, bound = "20107020005040809030607080901234 with any byte at position 31", |s| {
    let b = at(s, b"20107020005040809030607080901234", 31);
    texts::<UuidAD>(st(&b));
});
harness!(#[kani::unwind(14)] q_macud_12_at_2, bytes = 1, bound = "080027446031 with any byte at position 2", |s| {
    let b = at(s, b"080027446031", 2);
    texts::<MacUD>(st(&b));
});
harness!(#[kani::unwind(14)] q_macud_12_at_11, bytes = 1, bound = "080027446031 with any byte at position 11", |s| {
    let b = at(s, b"080027446031", 11);
    texts::<MacUD>(st(&b));
});
harness!(#[kani::unwind(34)] q_uuidud_32_at_2, bytes = 1, bound = "20107020005040809030607080901234 with any byte at position 2", |s| {
    let b = at(s, b"20107020005040809030607080901234", 2);
    texts::<UuidUD>(st(&b));
});
harness!(#[kani::unwind(34)] q_uuidud_32_at_31, bytes = 1, bound = "20107020005040809030607080901234 with any byte at position 31", |s| {
    let b = at(s, b"20107020005040809030607080901234", 31);
    texts::<UuidUD>(st(&b));
});
harness!(#[kani::unwind(14)] q_macld_12_at_2, bytes = 1, bound = "080027446031 with any byte at position 2", |s| {
    let b = at(s, b"080027446031", 2);
    texts::<MacLD>(st(&b));
});
harness!(#[kani::unwind(14)] q_macld_12_at_11, bytes = 1, bound = "080027446031 with any byte at position 11", |s| {
    let b = at(s, b"080027446031", 11);
    texts::<MacLD>(st(&b));
});
harness!(#[kani::unwind(34)] q_uuidld_32_at_2, bytes = 1, bound = "20107020005040809030607080901234 with any byte at position 2", |s| {
    let b = at(s, b"20107020005040809030607080901234", 2);
    texts::<UuidLD>(st(&b));
});
harness!(#[kani::unwind(34)] q_uuidld_32_at_31, bytes = 1, bound = "20107020005040809030607080901234 with any byte at position 31", |s| {
    let b = at(s, b"20107020005040809030607080901234", 31);
    texts::<UuidLD>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyd_validated_8_0_at_0, bytes = 19, bound = "a.bc:432 with any byte at position 0; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"a.bc:432", 0);
    validated::<TyD>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyd_owned_8_0_at_0, bytes = 19, bound = "a.bc:432 with any byte at position 0; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"a.bc:432", 0);
    owned::<TyD>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyd_validated_8_0_at_4, bytes = 19, bound = "a.bc:432 with any byte at position 4; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"a.bc:432", 4);
    validated::<TyD>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyd_owned_8_0_at_4, bytes = 19, bound = "a.bc:432 with any byte at position 4; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"a.bc:432", 4);
    owned::<TyD>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyd_validated_4_0_at_2, bytes = 19, bound = "a.bc with any byte at position 2; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"a.bc", 2);
    validated::<TyD>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyd_owned_4_0_at_2, bytes = 19, bound = "a.bc with any byte at position 2; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"a.bc", 2);
    owned::<TyD>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyh_validated_8_0_at_0, bytes = 19, bound = "a.bc:432 with any byte at position 0; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"a.bc:432", 0);
    validated::<TyH>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyh_owned_8_0_at_0, bytes = 19, bound = "a.bc:432 with any byte at position 0; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"a.bc:432", 0);
    owned::<TyH>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyh_validated_8_0_at_4, bytes = 19, bound = "a.bc:432 with any byte at position 4; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"a.bc:432", 4);
    validated::<TyH>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyh_owned_8_0_at_4, bytes = 19, bound = "a.bc:432 with any byte at position 4; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"a.bc:432", 4);
    owned::<TyH>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi4_validated_7_0_at_0, bytes = 19, bound = "8.8:432 with any byte at position 0; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"8.8:432", 0);
    validated::<TyI4>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi4_owned_7_0_at_0, bytes = 19, bound = "8.8:432 with any byte at position 0; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"8.8:432", 0);
    owned::<TyI4>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi4_validated_7_0_at_3, bytes = 19, bound = "8.8:432 with any byte at position 3; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"8.8:432", 3);
    validated::<TyI4>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi4_owned_7_0_at_3, bytes = 19, bound = "8.8:432 with any byte at position 3; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"8.8:432", 3);
    owned::<TyI4>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi6_validated_10_1_at_0, bytes = 19, bound = "[a::b]:432 with any byte at position 0; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"[a::b]:432", 0);
    validated::<TyI6>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi6_owned_10_1_at_0, bytes = 19, bound = "[a::b]:432 with any byte at position 0; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"[a::b]:432", 0);
    owned::<TyI6>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi6_validated_10_1_at_5, bytes = 19, bound = "[a::b]:432 with any byte at position 5; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"[a::b]:432", 5);
    validated::<TyI6>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi6_owned_10_1_at_5, bytes = 19, bound = "[a::b]:432 with any byte at position 5; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"[a::b]:432", 5);
    owned::<TyI6>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi6_validated_10_1_at_6, bytes = 19, bound = "[a::b]:432 with any byte at position 6; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"[a::b]:432", 6);
    validated::<TyI6>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi6_owned_10_1_at_6, bytes = 19, bound = "[a::b]:432 with any byte at position 6; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"[a::b]:432", 6);
    owned::<TyI6>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi_validated_7_0_at_0, bytes = 19, bound = "8.8:432 with any byte at position 0; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"8.8:432", 0);
    validated::<TyI>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi_owned_7_0_at_0, bytes = 19, bound = "8.8:432 with any byte at position 0; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"8.8:432", 0);
    owned::<TyI>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi_validated_7_0_at_3, bytes = 19, bound = "8.8:432 with any byte at position 3; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"8.8:432", 3);
    validated::<TyI>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi_owned_7_0_at_3, bytes = 19, bound = "8.8:432 with any byte at position 3; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"8.8:432", 3);
    owned::<TyI>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi_validated_10_1_at_0, bytes = 19, bound = "[a::b]:432 with any byte at position 0; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"[a::b]:432", 0);
    validated::<TyI>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi_owned_10_1_at_0, bytes = 19, bound = "[a::b]:432 with any byte at position 0; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"[a::b]:432", 0);
    owned::<TyI>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi_validated_10_1_at_5, bytes = 19, bound = "[a::b]:432 with any byte at position 5; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"[a::b]:432", 5);
    validated::<TyI>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi_owned_10_1_at_5, bytes = 19, bound = "[a::b]:432 with any byte at position 5; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"[a::b]:432", 5);
    owned::<TyI>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi_validated_10_1_at_6, bytes = 19, bound = "[a::b]:432 with any byte at position 6; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"[a::b]:432", 6);
    validated::<TyI>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tyi_owned_10_1_at_6, bytes = 19, bound = "[a::b]:432 with any byte at position 6; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"[a::b]:432", 6);
    owned::<TyI>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tye_validated_6_0_at_0, bytes = 19, bound = "ab@c.d with any byte at position 0; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"ab@c.d", 0);
    validated::<TyE>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tye_owned_6_0_at_0, bytes = 19, bound = "ab@c.d with any byte at position 0; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"ab@c.d", 0);
    owned::<TyE>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tye_validated_6_0_at_2, bytes = 19, bound = "ab@c.d with any byte at position 2; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"ab@c.d", 2);
    validated::<TyE>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tye_owned_6_0_at_2, bytes = 19, bound = "ab@c.d with any byte at position 2; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"ab@c.d", 2);
    owned::<TyE>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tye_validated_6_0_at_5, bytes = 19, bound = "ab@c.d with any byte at position 5; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"ab@c.d", 5);
    validated::<TyE>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tye_owned_6_0_at_5, bytes = 19, bound = "ab@c.d with any byte at position 5; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"ab@c.d", 5);
    owned::<TyE>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tye_validated_7_1_at_6, bytes = 19, bound = "a@[8.8] with any byte at position 6; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"a@[8.8]", 6);
    validated::<TyE>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tye_owned_7_1_at_6, bytes = 19, bound = "a@[8.8] with any byte at position 6; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"a@[8.8]", 6);
    owned::<TyE>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tye_validated_comment_at_3, bytes = 19, bound = "a@b(c) with any byte at position 3; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"a@b(c)", 3);
    validated::<TyE>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tye_owned_comment_at_3, bytes = 19, bound = "a@b(c) with any byte at position 3; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"a@b(c)", 3);
    owned::<TyE>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tye_validated_comment_at_5, bytes = 19, bound = "a@b(c) with any byte at position 5; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"a@b(c)", 5);
    validated::<TyE>(st(&b));
});
harness!(#[kani::unwind(20)] #[kani::stub(core::slice::memchr::memchr, crate::util::memstub::memchr)] #[kani::stub(idna::Config::to_ascii, crate::idn::stub)] #[kani::stub(<std::net::Ipv4Addr as core::str::FromStr>::from_str, stub::token4)] #[kani::stub(<std::net::Ipv6Addr as core::str::FromStr>::from_str, stub::token6)] #[kani::stub(<u16 as core::str::FromStr>::from_str, stub::token_port)] #[kani::stub(core::str::slice_error_fail_rt, crate::util::memstub::slice_error)] q_tye_owned_comment_at_5, bytes = 19, bound = "a@b(c) with any byte at position 5; 8.8, a::b and 432 stand for any address and port", |s| {
    ip_text(Ip::V6(s.u128()));
    ip_text(Ip::V4(1));
    port_text(s.u16());
    let b = at(s, b"a@b(c)", 5);
    owned::<TyE>(st(&b));
});
harness!(#[kani::unwind(8)] q_length, bytes = 8, bound = "every length", |s| {
    let n = s.u64() as usize;
    assert!(L::validate_collection(&Counted(n)).is_ok() == L::parse_collection(Counted(n)).is_ok(), "validating gives the verdict of parsing");
});
