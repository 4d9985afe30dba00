use crate::basen::*;
use crate::util::{st, Src};
use validators::prelude::*;
basen_type!(base32, B32Must, B32, Must, String);
basen_type!(base32, B32Allow, B32, Allow, String);
basen_type!(base32, B32Disallow, B32, Disallow, String);
basen_type!(base64, B64Must, B64, Must, String);
basen_type!(base64, B64Allow, B64, Allow, String);
basen_type!(base64, B64Disallow, B64, Disallow, String);
basen_type!(base64_url, UrlMust, Url, Must, String);
basen_type!(base64_url, UrlAllow, Url, Allow, String);
basen_type!(base64_url, UrlDisallow, Url, Disallow, String);

/// every byte string of up to N bytes: the verdict
fn verdict<T: BaseN, const N: usize>(s: &mut Src) -> bool {
    let n = s.within(0, N as u8) as usize;
    let b = s.bytes::<N>();
    let w = want(T::BASE, T::PAD, &b[..n]).is_some();
    assert!(T::validate_slice_(&b[..n]) == w, "accepted exactly when letters, length and padding are right");
    w
}

fn keeps(r: Option<Vec<u8>>, w: bool, b: &[u8]) {
    match r {
        Some(r) => assert!(w && same(&r, b), "only well-formed text is accepted, and it is kept"),
        None => assert!(!w, "well-formed text is accepted"),
    }
}

/// every ASCII string of N bytes through every entry point
fn kept<T: BaseN, const N: usize>(s: &mut Src) -> bool {
    let b = s.ascii::<N>();
    let w = want(T::BASE, T::PAD, &b).is_some();
    assert!(T::validate_str_(st(&b)) == w, "accepted exactly when letters, length and padding are right");
    keeps(T::str_(st(&b)), w, &b);
    keeps(T::string_(st(&b)), w, &b);
    keeps(T::slice_(&b), w, &b);
    keeps(T::vec_(&b), w, &b);
    w
}

// Below: written by tools/gen_basen.py
harness!(#[kani::unwind(12)] q_verdict_b32must, bytes = 11, bound = "every byte string of up to 10 bytes; B32Must", |s| {
    let w = verdict::<B32Must, 10>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(27)] t_verdict_b32must, bytes = 26, bound = "every byte string of up to 25 bytes; B32Must", |s| {
    let w = verdict::<B32Must, 25>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(10)] q_kept_b32must, bytes = 8, bound = "every ASCII string of 8 bytes through every entry point; B32Must", |s| {
    let w = kept::<B32Must, 8>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(19)] q_verdict_b32allow, bytes = 18, bound = "every byte string of up to 17 bytes; B32Allow", |s| {
    let w = verdict::<B32Allow, 17>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(27)] t_verdict_b32allow, bytes = 26, bound = "every byte string of up to 25 bytes; B32Allow", |s| {
    let w = verdict::<B32Allow, 25>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_kept_b32allow, bytes = 4, bound = "every ASCII string of 4 bytes through every entry point; B32Allow", |s| {
    let w = kept::<B32Allow, 4>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(12)] q_verdict_b32disallow, bytes = 11, bound = "every byte string of up to 10 bytes; B32Disallow", |s| {
    let w = verdict::<B32Disallow, 10>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(27)] t_verdict_b32disallow, bytes = 26, bound = "every byte string of up to 25 bytes; B32Disallow", |s| {
    let w = verdict::<B32Disallow, 25>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_kept_b32disallow, bytes = 4, bound = "every ASCII string of 4 bytes through every entry point; B32Disallow", |s| {
    let w = kept::<B32Disallow, 4>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(11)] q_verdict_b64must, bytes = 10, bound = "every byte string of up to 9 bytes; B64Must", |s| {
    let w = verdict::<B64Must, 9>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(19)] t_verdict_b64must, bytes = 18, bound = "every byte string of up to 17 bytes; B64Must", |s| {
    let w = verdict::<B64Must, 17>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_kept_b64must, bytes = 4, bound = "every ASCII string of 4 bytes through every entry point; B64Must", |s| {
    let w = kept::<B64Must, 4>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(11)] q_verdict_b64allow, bytes = 10, bound = "every byte string of up to 9 bytes; B64Allow", |s| {
    let w = verdict::<B64Allow, 9>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(19)] t_verdict_b64allow, bytes = 18, bound = "every byte string of up to 17 bytes; B64Allow", |s| {
    let w = verdict::<B64Allow, 17>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_kept_b64allow, bytes = 4, bound = "every ASCII string of 4 bytes through every entry point; B64Allow", |s| {
    let w = kept::<B64Allow, 4>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(11)] q_verdict_b64disallow, bytes = 10, bound = "every byte string of up to 9 bytes; B64Disallow", |s| {
    let w = verdict::<B64Disallow, 9>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(19)] t_verdict_b64disallow, bytes = 18, bound = "every byte string of up to 17 bytes; B64Disallow", |s| {
    let w = verdict::<B64Disallow, 17>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_kept_b64disallow, bytes = 4, bound = "every ASCII string of 4 bytes through every entry point; B64Disallow", |s| {
    let w = kept::<B64Disallow, 4>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(11)] q_verdict_urlmust, bytes = 10, bound = "every byte string of up to 9 bytes; UrlMust", |s| {
    let w = verdict::<UrlMust, 9>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(19)] t_verdict_urlmust, bytes = 18, bound = "every byte string of up to 17 bytes; UrlMust", |s| {
    let w = verdict::<UrlMust, 17>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_kept_urlmust, bytes = 4, bound = "every ASCII string of 4 bytes through every entry point; UrlMust", |s| {
    let w = kept::<UrlMust, 4>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(11)] q_verdict_urlallow, bytes = 10, bound = "every byte string of up to 9 bytes; UrlAllow", |s| {
    let w = verdict::<UrlAllow, 9>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(19)] t_verdict_urlallow, bytes = 18, bound = "every byte string of up to 17 bytes; UrlAllow", |s| {
    let w = verdict::<UrlAllow, 17>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_kept_urlallow, bytes = 4, bound = "every ASCII string of 4 bytes through every entry point; UrlAllow", |s| {
    let w = kept::<UrlAllow, 4>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(11)] q_verdict_urldisallow, bytes = 10, bound = "every byte string of up to 9 bytes; UrlDisallow", |s| {
    let w = verdict::<UrlDisallow, 9>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(19)] t_verdict_urldisallow, bytes = 18, bound = "every byte string of up to 17 bytes; UrlDisallow", |s| {
    let w = verdict::<UrlDisallow, 17>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_kept_urldisallow, bytes = 4, bound = "every ASCII string of 4 bytes through every entry point; UrlDisallow", |s| {
    let w = kept::<UrlDisallow, 4>(s);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
