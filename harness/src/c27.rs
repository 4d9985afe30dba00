use crate::util::{st, Src};
use validators::prelude::*;

macro_rules! domain {
    ($name:ident, $attr:meta, $($f:ident: $t:ty),*) => {
        #[derive(Validator)]
        #[$attr]
        struct $name { pub domain: String, $(pub $f: $t),* }
        impl Value for $name {
            fn of(domain: String) -> Self {
                $name { domain, $($f: Default::default()),* }
            }
        }
    };
    ($name:ident, $attr:meta) => {
        #[derive(Validator)]
        #[$attr]
        struct $name(pub String);
        impl Value for $name {
            fn of(domain: String) -> Self {
                $name(domain)
            }
        }
    };
}
trait Value: QualifyDomain {
    fn of(domain: String) -> Self;
}
// every shape of a domain type
domain!(NA, validator(domain(ipv4(Disallow), local(Allow), at_least_two_labels(Allow), port(Allow))), port: Option<u16>);
domain!(NM, validator(domain(ipv4(Disallow), local(Allow), at_least_two_labels(Allow), port(Must))), port: u16);
domain!(ND, validator(domain(ipv4(Disallow), local(Allow), at_least_two_labels(Allow), port(Disallow))));
domain!(LA, validator(domain(ipv4(Disallow), local(Allow), at_least_two_labels(Must), port(Allow))), port: Option<u16>, is_local: bool);
domain!(LM, validator(domain(ipv4(Disallow), local(Allow), at_least_two_labels(Must), port(Must))), port: u16, is_local: bool);
domain!(LD, validator(domain(ipv4(Disallow), local(Allow), at_least_two_labels(Must), port(Disallow))), is_local: bool);
domain!(FA, validator(domain(ipv4(Allow), local(Allow), at_least_two_labels(Must), port(Allow))), port: Option<u16>, is_local: bool, is_ipv4: bool);
domain!(FM, validator(domain(ipv4(Allow), local(Allow), at_least_two_labels(Disallow), port(Must))), port: u16, is_local: bool, is_ipv4: bool);
domain!(FD, validator(domain(ipv4(Allow), local(Allow), at_least_two_labels(Must), port(Disallow))), is_local: bool, is_ipv4: bool);
domain!(IA, validator(domain(ipv4(Allow), local(Must), at_least_two_labels(Allow), port(Allow))), port: Option<u16>);
domain!(IM, validator(domain(ipv4(Allow), local(Disallow), at_least_two_labels(Must), port(Must))), port: u16);
domain!(ID, validator(domain(ipv4(Allow), local(Disallow), at_least_two_labels(Must), port(Disallow))));
domain!(MD, validator(domain(ipv4(Must), local(Disallow), at_least_two_labels(Allow), port(Disallow))));
domain!(ML, validator(domain(ipv4(Must), local(Must), at_least_two_labels(Must), port(Allow))), port: Option<u16>);

/// names have at least one character before the root dot and no empty label
fn check<T: Value>(b: &[u8]) {
    #[cfg(not(kani))]
    use crate::kani;
    let n = b.len();
    let mut start = true;
    let mut i = 0;
    while i < n {
        let dot = b[i] == b'.';
        kani::assume(!(dot && start));
        start = dot;
        i += 1;
    }
    let v = T::of(String::from(st(b)));
    let root = b[n - 1] == b'.';
    assert!(v.is_fully_qualified() == root, "a name is fully qualified exactly when it ends with a dot");
    let g = v.get_domain_non_fully_qualified().as_bytes();
    assert!(g.len() == n - root as usize, "the root dot is left out, and nothing else");
    let mut i = 0;
    while i < g.len() {
        assert!(g[i] == b[i], "the name is otherwise unchanged");
        i += 1;
    }
    assert!(!g.is_empty() && g[g.len() - 1] != b'.', "no dot at the end, never empty");
    cover!(root, "with root dot");
    cover!(!root, "without root dot");
}
fn short<T: Value>(s: &mut Src) {
    let n = s.within(2, 6) as usize;
    let b = s.ascii::<6>();
    check::<T>(&b[..n]);
}
fn long<T: Value>(s: &mut Src) {
    let b = s.ascii::<40>();
    check::<T>(&b);
}
harness!(#[kani::unwind(8)] q_short_na, bytes = 7, bound = "every ASCII name of 2 to 6 bytes without empty labels", |s| {
    short::<NA>(s);
});
harness!(#[kani::unwind(8)] q_short_nm, bytes = 7, bound = "every ASCII name of 2 to 6 bytes without empty labels", |s| {
    short::<NM>(s);
});
harness!(#[kani::unwind(8)] q_short_nd, bytes = 7, bound = "every ASCII name of 2 to 6 bytes without empty labels", |s| {
    short::<ND>(s);
});
harness!(#[kani::unwind(8)] q_short_la, bytes = 7, bound = "every ASCII name of 2 to 6 bytes without empty labels", |s| {
    short::<LA>(s);
});
harness!(#[kani::unwind(8)] q_short_lm, bytes = 7, bound = "every ASCII name of 2 to 6 bytes without empty labels", |s| {
    short::<LM>(s);
});
harness!(#[kani::unwind(8)] q_short_ld, bytes = 7, bound = "every ASCII name of 2 to 6 bytes without empty labels", |s| {
    short::<LD>(s);
});
harness!(#[kani::unwind(8)] q_short_fa, bytes = 7, bound = "every ASCII name of 2 to 6 bytes without empty labels", |s| {
    short::<FA>(s);
});
harness!(#[kani::unwind(8)] q_short_fm, bytes = 7, bound = "every ASCII name of 2 to 6 bytes without empty labels", |s| {
    short::<FM>(s);
});
harness!(#[kani::unwind(8)] q_short_fd, bytes = 7, bound = "every ASCII name of 2 to 6 bytes without empty labels", |s| {
    short::<FD>(s);
});
harness!(#[kani::unwind(8)] q_short_ia, bytes = 7, bound = "every ASCII name of 2 to 6 bytes without empty labels", |s| {
    short::<IA>(s);
});
harness!(#[kani::unwind(8)] q_short_im, bytes = 7, bound = "every ASCII name of 2 to 6 bytes without empty labels", |s| {
    short::<IM>(s);
});
harness!(#[kani::unwind(8)] q_short_id, bytes = 7, bound = "every ASCII name of 2 to 6 bytes without empty labels", |s| {
    short::<ID>(s);
});
harness!(#[kani::unwind(8)] q_short_md, bytes = 7, bound = "every ASCII name of 2 to 6 bytes without empty labels", |s| {
    short::<MD>(s);
});
harness!(#[kani::unwind(8)] q_short_ml, bytes = 7, bound = "every ASCII name of 2 to 6 bytes without empty labels", |s| {
    short::<ML>(s);
});
harness!(#[kani::unwind(42)] t_long_nd, bytes = 40, bound = "every ASCII name of 40 bytes without empty labels", |s| {
    long::<ND>(s);
});
harness!(#[kani::unwind(42)] t_long_fd, bytes = 40, bound = "every ASCII name of 40 bytes without empty labels", |s| {
    long::<FD>(s);
});
harness!(#[kani::unwind(42)] t_long_la, bytes = 40, bound = "every ASCII name of 40 bytes without empty labels", |s| {
    long::<LA>(s);
});
