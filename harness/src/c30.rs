//! The expression is a stand-in: it records the text it is asked about and matches as the harness wants.
use validators::prelude::*;

#[cfg(not(kani))]
use crate::kani;
use crate::util::Src;

pub struct Expression;
pub static EXPRESSION: Expression = Expression;
static mut MATCHES: bool = false;
static mut CALLS: u8 = 0;
static mut ASKED: ([u8; 4], usize) = ([0; 4], 0);
impl Expression {
    pub fn is_match(&self, s: &str) -> bool {
        let mut b = [0u8; 4];
        let mut i = 0;
        while i < s.len() {
            b[i] = s.as_bytes()[i];
            i += 1;
        }
        unsafe {
            ASKED = (b, s.len());
            CALLS = 1;
            MATCHES
        }
    }
}
#[derive(Validator)]
#[validator(regex(regex = EXPRESSION))]
pub struct Re(pub String);

fn kept(r: Option<&str>, t: &str) {
    let mut b = [0u8; 4];
    let mut i = 0;
    while i < t.len() {
        b[i] = t.as_bytes()[i];
        i += 1;
    }
    unsafe {
        assert!(CALLS == 1 && ASKED == (b, t.len()), "the expression is asked about the whole text");
        match r {
            Some(v) => assert!(MATCHES && v == t, "a text which matches is kept unchanged"),
            None => assert!(!MATCHES, "a text which matches is accepted"),
        }
        CALLS = 0;
    }
}
fn ask(s: &mut Src, t: &str) {
    unsafe {
        CALLS = 0;
        MATCHES = s.bool();
    }
    let r = Re::parse_str(t).ok();
    kept(r.as_ref().map(|r| r.0.as_str()), t);
    let r = Re::parse_string(String::from(t)).ok();
    kept(r.as_ref().map(|r| r.0.as_str()), t);
    let r = Re::validate_str(t).ok();
    kept(r.map(|_| t), t);
}
/// every text of N bytes
fn utf8<const N: usize>(s: &mut Src) {
    let b = s.bytes::<N>();
    match core::str::from_utf8(&b) {
        Ok(t) => ask(s, t),
        Err(_) => (),
    }
}

harness!(#[kani::unwind(6)] q_empty, bytes = 1, bound = "the empty text, matched or not", |s| {
    ask(s, "");
});
harness!(#[kani::unwind(6)] q_text_1, bytes = 2, bound = "every text of 1 byte, matched or not", |s| {
    utf8::<1>(s);
});
harness!(#[kani::unwind(6)] q_text_2, bytes = 3, bound = "every text of 2 bytes, matched or not", |s| {
    utf8::<2>(s);
});
harness!(#[kani::unwind(6)] q_text_4, bytes = 5, bound = "every text of 4 bytes, matched or not", |s| {
    utf8::<4>(s);
});
