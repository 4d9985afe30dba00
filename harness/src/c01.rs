use validators::prelude::*;

use crate::util::{Src, st};

#[derive(Validator)]
#[validator(boolean)]
pub struct B(pub bool);

const WORDS: [(&[u8], bool); 12] = [
    (b"true", true),
    (b"t", true),
    (b"yes", true),
    (b"y", true),
    (b"on", true),
    (b"1", true),
    (b"false", false),
    (b"f", false),
    (b"no", false),
    (b"n", false),
    (b"off", false),
    (b"0", false),
];

fn same_word(b: &[u8], w: &[u8]) -> bool {
    if b.len() != w.len() {
        return false;
    }
    let mut i = 0;
    while i < w.len() {
        let upper = w[i] >= b'a' && w[i] <= b'z' && b[i] == w[i] - 32;
        if b[i] != w[i] && !upper {
            return false;
        }
        i += 1;
    }
    true
}

fn expect(b: &[u8]) -> Option<bool> {
    let mut i = 0;
    while i < WORDS.len() {
        if same_word(b, WORDS[i].0) {
            return Some(WORDS[i].1);
        }
        i += 1;
    }
    None
}

fn check(r: Result<B, impl Sized>, v: Result<(), impl Sized>, want: Option<bool>) {
    match (r, want) {
        (Ok(r), Some(want)) => assert!(r.0 == want, "the truth value of the word"),
        (Ok(_), None) => assert!(false, "only the words are accepted"),
        (Err(_), Some(_)) => assert!(false, "every word is accepted"),
        (Err(_), None) => (),
    }
    assert!(v.is_ok() == want.is_some(), "validating agrees with parsing");
}

harness!(#[kani::unwind(14)] q_str, bytes = 8, bound = "all ASCII strings of up to 7 bytes", |s| {
    let buf = s.ascii::<7>();
    let b = &buf[..s.within(0, 7) as usize];
    let want = expect(b);
    check(B::parse_str(st(b)), B::validate_str(st(b)), want);
    cover!(want == Some(true), "true");
    cover!(want == Some(false) && b.len() == 5, "false");
    cover!(want.is_none(), "rejected");
});

harness!(#[kani::unwind(16)] t_str, bytes = 13, bound = "all ASCII strings of up to 12 bytes", |s| {
    let buf = s.ascii::<12>();
    let b = &buf[..s.within(0, 12) as usize];
    let want = expect(b);
    check(B::parse_str(st(b)), B::validate_str(st(b)), want);
});

harness!(#[kani::unwind(14)] q_unicode, bytes = 12, bound = "all strings of one to three Unicode characters, the last one not ASCII", |s| {
    let mut buf = [0u8; 12];
    let mut n = 0;
    let k = s.within(0, 2);
    let (a, b, c) = (s.within(0, 127), s.within(0, 127), s.char());
    kani::assume(!c.is_ascii());
    if k > 0 { buf[n] = a; n += 1; }
    if k > 1 { buf[n] = b; n += 1; }
    n += c.encode_utf8(&mut buf[n..]).len();
    let s = unsafe { core::str::from_utf8_unchecked(&buf[..n]) };
    check(B::parse_str(s), B::validate_str(s), None);
});

harness!(q_char, bytes = 4, bound = "every char", |s| {
    let c = s.char();
    let want = match c {
        't' | 'T' | 'y' | 'Y' | '1' => Some(true),
        'f' | 'F' | 'n' | 'N' | '0' => Some(false),
        _ => None,
    };
    check(B::parse_char(c), B::validate_char(c), want);
    cover!(want == Some(true), "true");
});

fn number(v: i128) -> Option<bool> {
    match v {
        0 => Some(false),
        1 => Some(true),
        _ => None,
    }
}

harness!(q_int, bytes = 16, bound = "every integer of every width; both booleans", |s| {
    let w = s.u128();
    let u = if w <= 1 { w as i128 } else { -1 };
    check(B::parse_u128(w), B::validate_u128(w), number(u));
    check(B::parse_i128(w as i128), B::validate_i128(w as i128), number(w as i128));
    check(B::parse_u64(w as u64), B::validate_u64(w as u64), number((w as u64) as i128));
    check(B::parse_i64(w as i64), B::validate_i64(w as i64), number((w as i64) as i128));
    check(B::parse_usize(w as usize), B::validate_usize(w as usize), number((w as usize) as i128));
    check(B::parse_isize(w as isize), B::validate_isize(w as isize), number((w as isize) as i128));
    check(B::parse_u32(w as u32), B::validate_u32(w as u32), number((w as u32) as i128));
    check(B::parse_i32(w as i32), B::validate_i32(w as i32), number((w as i32) as i128));
    check(B::parse_u16(w as u16), B::validate_u16(w as u16), number((w as u16) as i128));
    check(B::parse_i16(w as i16), B::validate_i16(w as i16), number((w as i16) as i128));
    check(B::parse_u8(w as u8), B::validate_u8(w as u8), number((w as u8) as i128));
    check(B::parse_i8(w as i8), B::validate_i8(w as i8), number((w as i8) as i128));
    check(B::parse_bool(w & 1 == 1), B::validate_bool(w & 1 == 1), Some(w & 1 == 1));
    cover!(w == 1, "one");
});
