use crate::basen::*;
use crate::util::{st, Src};
use data_encoding::{Character, DecodeError, DecodeKind, Encoding};
use validators::prelude::*;
basen_type!(base32_decoded, B32Must, B32, Must, Vec<u8>);
basen_type!(base32_decoded, B32Allow, B32, Allow, Vec<u8>);
basen_type!(base32_decoded, B32Disallow, B32, Disallow, Vec<u8>);
basen_type!(base64_decoded, B64Must, B64, Must, Vec<u8>);
basen_type!(base64_decoded, B64Allow, B64, Allow, Vec<u8>);
basen_type!(base64_decoded, B64Disallow, B64, Disallow, Vec<u8>);
basen_type!(base64_url_decoded, UrlMust, Url, Must, Vec<u8>);
basen_type!(base64_url_decoded, UrlAllow, Url, Allow, Vec<u8>);
basen_type!(base64_url_decoded, UrlDisallow, Url, Disallow, Vec<u8>);

/// Decodes n well-formed letters; None when bits are left over which are not zero.
fn decoded(base: Base, v: &[u8], n: usize, out: &mut [u8]) -> Option<usize> {
    let bits = if base == Base::B32 { 5 } else { 6 };
    let mut acc: u16 = 0;
    let mut have = 0;
    let mut len = 0;
    let mut i = 0;
    while i < n {
        acc = (acc << bits) | letter(base, v[i]).unwrap() as u16;
        have += bits;
        if have >= 8 {
            have -= 8;
            out[len] = (acc >> have) as u8;
            len += 1;
            acc &= (1 << have) - 1;
        }
        i += 1;
    }
    if acc == 0 { Some(len) } else { None }
}


/// Stub of `data_encoding::Encoding::decode` (its documented contract, driven by the real symbol table):
/// blocks of letters, each completed by padding when the encoding has padding, zero trailing bits.
pub fn decode_model(e: &Encoding, v: &[u8]) -> Result<Vec<u8>, DecodeError> {
    let bits = e.bit_width();
    let block = if bits == 5 { 8 } else { 4 };
    let pad = match e.interpret_byte(b'=') {
        Character::Padding => true,
        _ => false,
    };
    let fail = |kind| Err(DecodeError { position: 0, kind });
    if pad && v.len() % block != 0 {
        return fail(DecodeKind::Length);
    }
    let mut out = vec![0u8; OUT];
    let mut len = 0;
    let mut i = 0;
    let mut acc: u16 = 0;
    let mut have = 0;
    let mut letters = 0; // of the current block
    let mut padding = 0;
    while i < v.len() {
        match e.interpret_byte(v[i]) {
            Character::Symbol { value } if padding == 0 => {
                acc = (acc << bits) | value as u16;
                have += bits;
                if have >= 8 {
                    have -= 8;
                    out[len] = (acc >> have) as u8;
                    len += 1;
                    acc &= (1 << have) - 1;
                }
                letters += 1;
            }
            Character::Padding => padding += 1,
            _ => return fail(DecodeKind::Symbol),
        }
        i += 1;
        if letters + padding == block || i == v.len() {
            let possible = if bits == 5 { !matches!(letters, 0 | 1 | 3 | 6) } else { letters > 1 };
            if !possible || acc != 0 {
                return fail(DecodeKind::Trailing);
            }
            have = 0;
            letters = 0;
            padding = 0;
        }
    }
    out.truncate(len);
    Ok(out)
}
const OUT: usize = 16;

fn decided<T: BaseN>(b: &[u8], r: Option<Vec<u8>>) -> bool {
    let mut out = [0u8; OUT];
    let w = want(T::BASE, T::PAD, b).and_then(|n| decoded(T::BASE, b, n, &mut out));
    match r {
        Some(r) => {
            assert!(w.is_some(), "only the encodings of data are accepted");
            assert!(same(&r, &out[..w.unwrap()]), "the data which was encoded is returned");
        }
        None => assert!(w.is_none(), "the encodings of all data are accepted"),
    }
    w.is_some()
}

/// every byte string of up to N bytes
fn any<T: BaseN, const N: usize>(s: &mut Src) -> bool {
    let n = s.within(0, N as u8) as usize;
    let b = s.bytes::<N>();
    decided::<T>(&b[..n], T::slice_(&b[..n]))
}

/// every byte string of N bytes
fn fixed<T: BaseN, const N: usize>(s: &mut Src) -> bool {
    let b = s.bytes::<N>();
    decided::<T>(&b, T::slice_(&b))
}

/// every ASCII string of N bytes, through every entry point
fn entries<T: BaseN, const N: usize>(s: &mut Src) -> bool {
    let b = s.ascii::<N>();
    let w = decided::<T>(&b, T::str_(st(&b)));
    decided::<T>(&b, T::string_(st(&b)));
    decided::<T>(&b, T::vec_(&b));
    assert!(T::validate_str_(st(&b)) == w && T::validate_slice_(&b) == w, "validating accepts exactly what parsing accepts");
    w
}

/// The stub against the real decoder (run natively: cargo test --features c09 model_agrees).
#[cfg(not(kani))]
#[test]
fn model_agrees() {
    use data_encoding::*;
    let mut x = 88172645463325252u64;
    let encs = [BASE32, BASE32_NOPAD, BASE64, BASE64_NOPAD, BASE64URL, BASE64URL_NOPAD];
    let alpha = b"AQgB28w=+-/=_Yz7=E";
    let mut good = 0;
    for k in 0..4_000_000u64 {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        let e = &encs[(k % 6) as usize];
        let n = (x >> 8) as usize % 13;
        let mut v = [0u8; 16];
        let mut y = x;
        for b in v.iter_mut() {
            y = y.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            *b = alpha[(y >> 40) as usize % if k % 3 == 0 { alpha.len() } else { 8 }];
        }
        let (a, b) = (decode_model(e, &v[..n]), e.decode(&v[..n]));
        assert_eq!(a.is_ok(), b.is_ok(), "{:?} {:?}", core::str::from_utf8(&v[..n]), e.specification());
        if let (Ok(a), Ok(b)) = (a, b) {
            good += 1;
            assert_eq!(a, b);
        }
    }
    assert!(good > 100_000);
}

// Below: written by tools/gen_basen.py
harness!(#[kani::unwind(10)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] q_any_b32must, bytes = 9, bound = "every byte string of up to 8 bytes; B32Must", |s| {
    let w = any::<B32Must, 8>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(18)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] t_any_b32must, bytes = 17, bound = "every byte string of up to 16 bytes; B32Must", |s| {
    let w = any::<B32Must, 16>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(10)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] q_entries_b32must, bytes = 8, bound = "every ASCII string of 8 bytes through every entry point; B32Must", |s| {
    let w = entries::<B32Must, 8>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(10)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] q_any_b32allow, bytes = 9, bound = "every byte string of up to 8 bytes; B32Allow", |s| {
    let w = any::<B32Allow, 8>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(18)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] t_any_b32allow, bytes = 17, bound = "every byte string of up to 16 bytes; B32Allow", |s| {
    let w = any::<B32Allow, 16>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] q_entries_b32allow, bytes = 4, bound = "every ASCII string of 4 bytes through every entry point; B32Allow", |s| {
    let w = entries::<B32Allow, 4>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(10)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] q_any_b32disallow, bytes = 9, bound = "every byte string of up to 8 bytes; B32Disallow", |s| {
    let w = any::<B32Disallow, 8>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(18)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] t_any_b32disallow, bytes = 17, bound = "every byte string of up to 16 bytes; B32Disallow", |s| {
    let w = any::<B32Disallow, 16>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] q_entries_b32disallow, bytes = 4, bound = "every ASCII string of 4 bytes through every entry point; B32Disallow", |s| {
    let w = entries::<B32Disallow, 4>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_real_b32disallow_4, bytes = 4, bound = "every byte string of 4 bytes, without the stub; B32Disallow", |s| {
    let w = fixed::<B32Disallow, 4>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(9)] q_real_b32disallow_7, bytes = 7, bound = "every byte string of 7 bytes, without the stub; B32Disallow", |s| {
    let w = fixed::<B32Disallow, 7>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(10)] q_real_b32disallow_8, bytes = 8, bound = "every byte string of 8 bytes, without the stub; B32Disallow", |s| {
    let w = fixed::<B32Disallow, 8>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(4)] t_real_b32disallow_2, bytes = 2, bound = "every byte string of 2 bytes, without the stub; B32Disallow", |s| {
    let w = fixed::<B32Disallow, 2>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] t_real_b32disallow_5, bytes = 5, bound = "every byte string of 5 bytes, without the stub; B32Disallow", |s| {
    let w = fixed::<B32Disallow, 5>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(12)] t_real_b32disallow_10, bytes = 10, bound = "every byte string of 10 bytes, without the stub; B32Disallow", |s| {
    let w = fixed::<B32Disallow, 10>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(10)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] q_any_b64must, bytes = 9, bound = "every byte string of up to 8 bytes; B64Must", |s| {
    let w = any::<B64Must, 8>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] t_any_b64must, bytes = 13, bound = "every byte string of up to 12 bytes; B64Must", |s| {
    let w = any::<B64Must, 12>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] q_entries_b64must, bytes = 4, bound = "every ASCII string of 4 bytes through every entry point; B64Must", |s| {
    let w = entries::<B64Must, 4>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(10)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] q_any_b64allow, bytes = 9, bound = "every byte string of up to 8 bytes; B64Allow", |s| {
    let w = any::<B64Allow, 8>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] t_any_b64allow, bytes = 13, bound = "every byte string of up to 12 bytes; B64Allow", |s| {
    let w = any::<B64Allow, 12>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] q_entries_b64allow, bytes = 4, bound = "every ASCII string of 4 bytes through every entry point; B64Allow", |s| {
    let w = entries::<B64Allow, 4>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(10)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] q_any_b64disallow, bytes = 9, bound = "every byte string of up to 8 bytes; B64Disallow", |s| {
    let w = any::<B64Disallow, 8>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] t_any_b64disallow, bytes = 13, bound = "every byte string of up to 12 bytes; B64Disallow", |s| {
    let w = any::<B64Disallow, 12>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] q_entries_b64disallow, bytes = 4, bound = "every ASCII string of 4 bytes through every entry point; B64Disallow", |s| {
    let w = entries::<B64Disallow, 4>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(4)] q_real_b64disallow_2, bytes = 2, bound = "every byte string of 2 bytes, without the stub; B64Disallow", |s| {
    let w = fixed::<B64Disallow, 2>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(5)] q_real_b64disallow_3, bytes = 3, bound = "every byte string of 3 bytes, without the stub; B64Disallow", |s| {
    let w = fixed::<B64Disallow, 3>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_real_b64disallow_4, bytes = 4, bound = "every byte string of 4 bytes, without the stub; B64Disallow", |s| {
    let w = fixed::<B64Disallow, 4>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(8)] t_real_b64disallow_6, bytes = 6, bound = "every byte string of 6 bytes, without the stub; B64Disallow", |s| {
    let w = fixed::<B64Disallow, 6>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(9)] t_real_b64disallow_7, bytes = 7, bound = "every byte string of 7 bytes, without the stub; B64Disallow", |s| {
    let w = fixed::<B64Disallow, 7>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(10)] t_real_b64disallow_8, bytes = 8, bound = "every byte string of 8 bytes, without the stub; B64Disallow", |s| {
    let w = fixed::<B64Disallow, 8>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(10)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] q_any_urlmust, bytes = 9, bound = "every byte string of up to 8 bytes; UrlMust", |s| {
    let w = any::<UrlMust, 8>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] t_any_urlmust, bytes = 13, bound = "every byte string of up to 12 bytes; UrlMust", |s| {
    let w = any::<UrlMust, 12>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] q_entries_urlmust, bytes = 4, bound = "every ASCII string of 4 bytes through every entry point; UrlMust", |s| {
    let w = entries::<UrlMust, 4>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(10)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] q_any_urlallow, bytes = 9, bound = "every byte string of up to 8 bytes; UrlAllow", |s| {
    let w = any::<UrlAllow, 8>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] t_any_urlallow, bytes = 13, bound = "every byte string of up to 12 bytes; UrlAllow", |s| {
    let w = any::<UrlAllow, 12>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] q_entries_urlallow, bytes = 4, bound = "every ASCII string of 4 bytes through every entry point; UrlAllow", |s| {
    let w = entries::<UrlAllow, 4>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(10)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] q_any_urldisallow, bytes = 9, bound = "every byte string of up to 8 bytes; UrlDisallow", |s| {
    let w = any::<UrlDisallow, 8>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] t_any_urldisallow, bytes = 13, bound = "every byte string of up to 12 bytes; UrlDisallow", |s| {
    let w = any::<UrlDisallow, 12>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] #[kani::stub(data_encoding::Encoding::decode, decode_model)] q_entries_urldisallow, bytes = 4, bound = "every ASCII string of 4 bytes through every entry point; UrlDisallow", |s| {
    let w = entries::<UrlDisallow, 4>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(4)] q_real_urldisallow_2, bytes = 2, bound = "every byte string of 2 bytes, without the stub; UrlDisallow", |s| {
    let w = fixed::<UrlDisallow, 2>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(5)] q_real_urldisallow_3, bytes = 3, bound = "every byte string of 3 bytes, without the stub; UrlDisallow", |s| {
    let w = fixed::<UrlDisallow, 3>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_real_urldisallow_4, bytes = 4, bound = "every byte string of 4 bytes, without the stub; UrlDisallow", |s| {
    let w = fixed::<UrlDisallow, 4>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(8)] t_real_urldisallow_6, bytes = 6, bound = "every byte string of 6 bytes, without the stub; UrlDisallow", |s| {
    let w = fixed::<UrlDisallow, 6>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(9)] t_real_urldisallow_7, bytes = 7, bound = "every byte string of 7 bytes, without the stub; UrlDisallow", |s| {
    let w = fixed::<UrlDisallow, 7>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(10)] t_real_urldisallow_8, bytes = 8, bound = "every byte string of 8 bytes, without the stub; UrlDisallow", |s| {
    let w = fixed::<UrlDisallow, 8>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
