use validators::errors::LengthError;
use validators::prelude::*;

#[derive(Validator)]
#[validator(length)]
pub struct Any(pub Vec<()>);
#[derive(Validator)]
#[validator(length(min = 2))]
pub struct Min(pub Vec<()>);
#[derive(Validator)]
#[validator(length(max = 5))]
pub struct Max(pub Vec<()>);
#[derive(Validator)]
#[validator(length(min = 2, max = 5))]
pub struct MinMax(pub Vec<()>);
#[derive(Validator)]
#[validator(length(min = 3, max = 3))]
pub struct Exact(pub Vec<()>);
#[derive(Validator)]
#[validator(length(min = 0, max = 1))]
pub struct ZeroOne(pub Vec<()>);
#[derive(Validator)]
#[validator(length(min = 5000000000, max = 18446744073709551614))]
pub struct Huge(pub Vec<()>);
#[derive(Validator)]
#[validator(length(min = 1, max = 3))]
pub struct Bytes(pub Vec<u8>);
#[derive(Validator)]
#[validator(length(min = 1, max = 2))]
pub struct Set(pub std::collections::BTreeSet<u8>);

/// A vector of n elements of no size: its length is any machine word.
fn vec(n: usize) -> Vec<()> {
    let mut v = Vec::new();
    v.resize(0, ());
    unsafe { v.set_len(n) };
    v
}

fn agree<T>(n: usize, min: usize, max: usize, r: &Result<T, LengthError>, v: Result<(), LengthError>) {
    let want = n >= min && n <= max;
    assert!(r.is_ok() == want, "accepted exactly when the length is in range");
    assert!(v.is_ok() == want, "validating agrees with parsing");
    if let Err(e) = r {
        match e {
            LengthError::TooSmall => assert!(n < min, "too small means below the minimum"),
            LengthError::TooLarge => assert!(n > max, "too large means above the maximum"),
        }
    }
}

macro_rules! one {
    ($v:ident, $n:expr, $min:expr, $max:expr) => {{
        let r = $v::parse_collection(vec($n));
        agree($n, $min, $max, &r, $v::validate_collection(&vec($n)));
        if let Ok(r) = r {
            assert!(r.0.len() == $n, "the collection is kept");
        }
    }};
}

harness!(#[kani::unwind(3)] q_words, bytes = 8, bound = "every length of a machine word, for every combination of bounds", |s| {
    let n = s.u64() as usize;
    one!(Any, n, 0, usize::MAX);
    one!(Min, n, 2, usize::MAX);
    one!(Max, n, 0, 5);
    one!(MinMax, n, 2, 5);
    one!(Exact, n, 3, 3);
    one!(ZeroOne, n, 0, 1);
    one!(Huge, n, 5000000000, 18446744073709551614);
    cover!(Exact::parse_collection(vec(n)).is_ok(), "accepts");
    cover!(Huge::parse_collection(vec(n)).is_ok(), "accepts huge");
});

harness!(#[kani::unwind(7)] q_bytes, bytes = 6, bound = "every byte vector of up to 5 elements", |s| {
    let a = s.bytes::<5>();
    let n = s.within(0, 5) as usize;
    let v = a[..n].to_vec();
    let w = Bytes::validate_collection(&v);
    let r = Bytes::parse_collection(v);
    agree(n, 1, 3, &r, w);
    if let Ok(r) = r {
        assert!(r.0.len() == n, "the collection is kept");
        let mut i = 0;
        while i < n {
            assert!(r.0[i] == a[i], "the collection is kept");
            i += 1;
        }
        assert!(CollectionLength::len(&r.0) == n && !CollectionLength::is_empty(&r.0));
    }
    cover!(n == 3, "accepts");
});
