use core::str::FromStr;

use validators::errors::NumberError;
use validators::prelude::*;

use crate::ints::{Form, Get, Want};
use crate::util::st;

#[derive(Clone, Copy, PartialEq)]
enum Nan {
    Allow,
    Must,
    Disallow,
}

pub trait Float: Copy + PartialOrd {
    fn nan(self) -> bool;
    fn bits(self) -> u64;
}

impl Float for f32 {
    fn nan(self) -> bool { self != self }
    fn bits(self) -> u64 { self.to_bits() as u64 }
}

impl Float for f64 {
    fn nan(self) -> bool { self != self }
    fn bits(self) -> u64 { self.to_bits() }
}

/// x: the number in the type of the validator
fn agree<V: Get<T>, T: Float>(form: &Form<T>, nan: Nan, x: T, r: Result<V, NumberError>, v: Result<(), NumberError>) {
    let want = if x.nan() {
        nan != Nan::Disallow
    } else {
        form.want(x) == Want::Ok && nan != Nan::Must
    };
    match r {
        Ok(r) => {
            assert!(want, "only numbers which the range and the NaN policy admit are accepted");
            let y = r.get();
            assert!(y.nan() == x.nan() && (x.nan() || y.bits() == x.bits()), "the value is kept");
        },
        Err(e) => {
            assert!(!want, "every number which the range and the NaN policy admit is accepted");
            if !x.nan() && nan != Nan::Must {
                let right = match form.want(x) {
                    Want::TooSmall => matches!(e, NumberError::TooSmall),
                    Want::TooLarge => matches!(e, NumberError::TooLarge),
                    Want::Forbidden => matches!(e, NumberError::Forbidden),
                    Want::Ok => false,
                };
                assert!(right, "the refusal names the bound the number breaks");
            }
        },
    }
    assert!(v.is_ok() == want, "validating agrees with parsing");
}

fn check64<V: ValidateNumber<Error = NumberError> + Get<f64>>(form: Form<f64>, nan: Nan, a: &(f64, f32)) {
    agree(&form, nan, a.0, V::parse_f64(a.0), V::validate_f64(a.0));
    agree(&form, nan, a.1 as f64, V::parse_f32(a.1), V::validate_f32(a.1));
}

fn check32<V: ValidateNumber<Error = NumberError> + Get<f32>>(form: Form<f32>, nan: Nan, a: &(f64, f32)) {
    agree(&form, nan, a.0 as f32, V::parse_f64(a.0), V::validate_f64(a.0));
    agree(&form, nan, a.1, V::parse_f32(a.1), V::validate_f32(a.1));
}


mod f64_0_allow {
    use validators::prelude::*;
    get!(f64; Un, In, InX, InMin, InMax, InMaxX, InEq, Out, OutX, OutMin, OutMax, OutMaxX, OutEq);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Unlimited)))]
    pub struct Un(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(min = -1.5, max = 100.25))))]
    pub struct In(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(min = -1.5, max = 100.25, inclusive = false))))]
    pub struct InX(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(min = -1.5))))]
    pub struct InMin(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(max = 100.25))))]
    pub struct InMax(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(max = 100.25, inclusive = false))))]
    pub struct InMaxX(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(min = -1.5, max = -1.5))))]
    pub struct InEq(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(min = -1.5, max = 100.25))))]
    pub struct Out(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(min = -1.5, max = 100.25, inclusive = false))))]
    pub struct OutX(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(min = -1.5))))]
    pub struct OutMin(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(max = 100.25))))]
    pub struct OutMax(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(max = 100.25, inclusive = false))))]
    pub struct OutMaxX(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(min = 100.25, max = 100.25))))]
    pub struct OutEq(pub f64);
}

harness!(q_f64_0_allow, bytes = 12, bound = "f64, NaN policy Allow, every range form over -1.5 and 100.25; every f64 and f32 bit pattern", |s| {
    let a = (f64::from_bits(s.u64()), f32::from_bits(s.u32()));
    check64::<f64_0_allow::Un>(Form::Unlimited, Nan::Allow, &a);
    check64::<f64_0_allow::In>(Form::Inside(Some(-1.5), Some(100.25), true), Nan::Allow, &a);
    check64::<f64_0_allow::InX>(Form::Inside(Some(-1.5), Some(100.25), false), Nan::Allow, &a);
    check64::<f64_0_allow::InMin>(Form::Inside(Some(-1.5), None, true), Nan::Allow, &a);
    check64::<f64_0_allow::InMax>(Form::Inside(None, Some(100.25), true), Nan::Allow, &a);
    check64::<f64_0_allow::InMaxX>(Form::Inside(None, Some(100.25), false), Nan::Allow, &a);
    check64::<f64_0_allow::InEq>(Form::Inside(Some(-1.5), Some(-1.5), true), Nan::Allow, &a);
    check64::<f64_0_allow::Out>(Form::Outside(Some(-1.5), Some(100.25), true), Nan::Allow, &a);
    check64::<f64_0_allow::OutX>(Form::Outside(Some(-1.5), Some(100.25), false), Nan::Allow, &a);
    check64::<f64_0_allow::OutMin>(Form::Outside(Some(-1.5), None, true), Nan::Allow, &a);
    check64::<f64_0_allow::OutMax>(Form::Outside(None, Some(100.25), true), Nan::Allow, &a);
    check64::<f64_0_allow::OutMaxX>(Form::Outside(None, Some(100.25), false), Nan::Allow, &a);
    check64::<f64_0_allow::OutEq>(Form::Outside(Some(100.25), Some(100.25), true), Nan::Allow, &a);
    cover!(f64_0_allow::In::parse_f64(a.0).is_ok(), "accepts");
    cover!(f64_0_allow::Out::parse_f64(a.0).is_err(), "rejects");
});

mod f64_0_must {
    use validators::prelude::*;
    get!(f64; Un, Out, OutX, OutMin, OutMax, OutMaxX, OutEq);
    #[derive(Validator)]
    #[validator(number(nan(Must), range(Unlimited)))]
    pub struct Un(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Must), range(Outside(min = -1.5, max = 100.25))))]
    pub struct Out(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Must), range(Outside(min = -1.5, max = 100.25, inclusive = false))))]
    pub struct OutX(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Must), range(Outside(min = -1.5))))]
    pub struct OutMin(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Must), range(Outside(max = 100.25))))]
    pub struct OutMax(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Must), range(Outside(max = 100.25, inclusive = false))))]
    pub struct OutMaxX(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Must), range(Outside(min = 100.25, max = 100.25))))]
    pub struct OutEq(pub f64);
}

harness!(q_f64_0_must, bytes = 12, bound = "f64, NaN policy Must, every range form over -1.5 and 100.25; every f64 and f32 bit pattern", |s| {
    let a = (f64::from_bits(s.u64()), f32::from_bits(s.u32()));
    check64::<f64_0_must::Un>(Form::Unlimited, Nan::Must, &a);
    check64::<f64_0_must::Out>(Form::Outside(Some(-1.5), Some(100.25), true), Nan::Must, &a);
    check64::<f64_0_must::OutX>(Form::Outside(Some(-1.5), Some(100.25), false), Nan::Must, &a);
    check64::<f64_0_must::OutMin>(Form::Outside(Some(-1.5), None, true), Nan::Must, &a);
    check64::<f64_0_must::OutMax>(Form::Outside(None, Some(100.25), true), Nan::Must, &a);
    check64::<f64_0_must::OutMaxX>(Form::Outside(None, Some(100.25), false), Nan::Must, &a);
    check64::<f64_0_must::OutEq>(Form::Outside(Some(100.25), Some(100.25), true), Nan::Must, &a);
    cover!(f64_0_must::Out::parse_f64(a.0).is_ok(), "accepts");
    cover!(f64_0_must::Out::parse_f64(a.0).is_err(), "rejects");
});

mod f64_0_disallow {
    use validators::prelude::*;
    get!(f64; Un, In, InX, InMin, InMax, InMaxX, InEq, Out, OutX, OutMin, OutMax, OutMaxX, OutEq);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Unlimited)))]
    pub struct Un(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Inside(min = -1.5, max = 100.25))))]
    pub struct In(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Inside(min = -1.5, max = 100.25, inclusive = false))))]
    pub struct InX(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Inside(min = -1.5))))]
    pub struct InMin(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Inside(max = 100.25))))]
    pub struct InMax(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Inside(max = 100.25, inclusive = false))))]
    pub struct InMaxX(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Inside(min = -1.5, max = -1.5))))]
    pub struct InEq(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Outside(min = -1.5, max = 100.25))))]
    pub struct Out(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Outside(min = -1.5, max = 100.25, inclusive = false))))]
    pub struct OutX(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Outside(min = -1.5))))]
    pub struct OutMin(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Outside(max = 100.25))))]
    pub struct OutMax(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Outside(max = 100.25, inclusive = false))))]
    pub struct OutMaxX(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Outside(min = 100.25, max = 100.25))))]
    pub struct OutEq(pub f64);
}

harness!(q_f64_0_disallow, bytes = 12, bound = "f64, NaN policy Disallow, every range form over -1.5 and 100.25; every f64 and f32 bit pattern", |s| {
    let a = (f64::from_bits(s.u64()), f32::from_bits(s.u32()));
    check64::<f64_0_disallow::Un>(Form::Unlimited, Nan::Disallow, &a);
    check64::<f64_0_disallow::In>(Form::Inside(Some(-1.5), Some(100.25), true), Nan::Disallow, &a);
    check64::<f64_0_disallow::InX>(Form::Inside(Some(-1.5), Some(100.25), false), Nan::Disallow, &a);
    check64::<f64_0_disallow::InMin>(Form::Inside(Some(-1.5), None, true), Nan::Disallow, &a);
    check64::<f64_0_disallow::InMax>(Form::Inside(None, Some(100.25), true), Nan::Disallow, &a);
    check64::<f64_0_disallow::InMaxX>(Form::Inside(None, Some(100.25), false), Nan::Disallow, &a);
    check64::<f64_0_disallow::InEq>(Form::Inside(Some(-1.5), Some(-1.5), true), Nan::Disallow, &a);
    check64::<f64_0_disallow::Out>(Form::Outside(Some(-1.5), Some(100.25), true), Nan::Disallow, &a);
    check64::<f64_0_disallow::OutX>(Form::Outside(Some(-1.5), Some(100.25), false), Nan::Disallow, &a);
    check64::<f64_0_disallow::OutMin>(Form::Outside(Some(-1.5), None, true), Nan::Disallow, &a);
    check64::<f64_0_disallow::OutMax>(Form::Outside(None, Some(100.25), true), Nan::Disallow, &a);
    check64::<f64_0_disallow::OutMaxX>(Form::Outside(None, Some(100.25), false), Nan::Disallow, &a);
    check64::<f64_0_disallow::OutEq>(Form::Outside(Some(100.25), Some(100.25), true), Nan::Disallow, &a);
    cover!(f64_0_disallow::In::parse_f64(a.0).is_ok(), "accepts");
    cover!(f64_0_disallow::Out::parse_f64(a.0).is_err(), "rejects");
});

mod f64_1_allow {
    use validators::prelude::*;
    get!(f64; Un, In, InX, InMin, InMax, InMaxX, InEq, Out, OutX, OutMin, OutMax, OutMaxX, OutEq);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Unlimited)))]
    pub struct Un(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(min = 0.0, max = 0.1))))]
    pub struct In(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(min = 0.0, max = 0.1, inclusive = false))))]
    pub struct InX(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(min = 0.0))))]
    pub struct InMin(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(max = 0.1))))]
    pub struct InMax(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(max = 0.1, inclusive = false))))]
    pub struct InMaxX(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(min = 0.0, max = 0.0))))]
    pub struct InEq(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(min = 0.0, max = 0.1))))]
    pub struct Out(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(min = 0.0, max = 0.1, inclusive = false))))]
    pub struct OutX(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(min = 0.0))))]
    pub struct OutMin(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(max = 0.1))))]
    pub struct OutMax(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(max = 0.1, inclusive = false))))]
    pub struct OutMaxX(pub f64);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(min = 0.1, max = 0.1))))]
    pub struct OutEq(pub f64);
}

harness!(q_f64_1_allow, bytes = 12, bound = "f64, NaN policy Allow, every range form over 0.0 and 0.1; every f64 and f32 bit pattern", |s| {
    let a = (f64::from_bits(s.u64()), f32::from_bits(s.u32()));
    check64::<f64_1_allow::Un>(Form::Unlimited, Nan::Allow, &a);
    check64::<f64_1_allow::In>(Form::Inside(Some(0.0), Some(0.1), true), Nan::Allow, &a);
    check64::<f64_1_allow::InX>(Form::Inside(Some(0.0), Some(0.1), false), Nan::Allow, &a);
    check64::<f64_1_allow::InMin>(Form::Inside(Some(0.0), None, true), Nan::Allow, &a);
    check64::<f64_1_allow::InMax>(Form::Inside(None, Some(0.1), true), Nan::Allow, &a);
    check64::<f64_1_allow::InMaxX>(Form::Inside(None, Some(0.1), false), Nan::Allow, &a);
    check64::<f64_1_allow::InEq>(Form::Inside(Some(0.0), Some(0.0), true), Nan::Allow, &a);
    check64::<f64_1_allow::Out>(Form::Outside(Some(0.0), Some(0.1), true), Nan::Allow, &a);
    check64::<f64_1_allow::OutX>(Form::Outside(Some(0.0), Some(0.1), false), Nan::Allow, &a);
    check64::<f64_1_allow::OutMin>(Form::Outside(Some(0.0), None, true), Nan::Allow, &a);
    check64::<f64_1_allow::OutMax>(Form::Outside(None, Some(0.1), true), Nan::Allow, &a);
    check64::<f64_1_allow::OutMaxX>(Form::Outside(None, Some(0.1), false), Nan::Allow, &a);
    check64::<f64_1_allow::OutEq>(Form::Outside(Some(0.1), Some(0.1), true), Nan::Allow, &a);
    cover!(f64_1_allow::In::parse_f64(a.0).is_ok(), "accepts");
    cover!(f64_1_allow::Out::parse_f64(a.0).is_err(), "rejects");
});

mod f32_0_allow {
    use validators::prelude::*;
    get!(f32; Un, In, InX, InMin, InMax, InMaxX, InEq, Out, OutX, OutMin, OutMax, OutMaxX, OutEq);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Unlimited)))]
    pub struct Un(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(min = -2.5, max = 7.0))))]
    pub struct In(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(min = -2.5, max = 7.0, inclusive = false))))]
    pub struct InX(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(min = -2.5))))]
    pub struct InMin(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(max = 7.0))))]
    pub struct InMax(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(max = 7.0, inclusive = false))))]
    pub struct InMaxX(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(min = -2.5, max = -2.5))))]
    pub struct InEq(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(min = -2.5, max = 7.0))))]
    pub struct Out(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(min = -2.5, max = 7.0, inclusive = false))))]
    pub struct OutX(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(min = -2.5))))]
    pub struct OutMin(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(max = 7.0))))]
    pub struct OutMax(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(max = 7.0, inclusive = false))))]
    pub struct OutMaxX(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(min = 7.0, max = 7.0))))]
    pub struct OutEq(pub f32);
}

harness!(q_f32_0_allow, bytes = 12, bound = "f32, NaN policy Allow, every range form over -2.5 and 7.0; every f64 and f32 bit pattern", |s| {
    let a = (f64::from_bits(s.u64()), f32::from_bits(s.u32()));
    check32::<f32_0_allow::Un>(Form::Unlimited, Nan::Allow, &a);
    check32::<f32_0_allow::In>(Form::Inside(Some(-2.5), Some(7.0), true), Nan::Allow, &a);
    check32::<f32_0_allow::InX>(Form::Inside(Some(-2.5), Some(7.0), false), Nan::Allow, &a);
    check32::<f32_0_allow::InMin>(Form::Inside(Some(-2.5), None, true), Nan::Allow, &a);
    check32::<f32_0_allow::InMax>(Form::Inside(None, Some(7.0), true), Nan::Allow, &a);
    check32::<f32_0_allow::InMaxX>(Form::Inside(None, Some(7.0), false), Nan::Allow, &a);
    check32::<f32_0_allow::InEq>(Form::Inside(Some(-2.5), Some(-2.5), true), Nan::Allow, &a);
    check32::<f32_0_allow::Out>(Form::Outside(Some(-2.5), Some(7.0), true), Nan::Allow, &a);
    check32::<f32_0_allow::OutX>(Form::Outside(Some(-2.5), Some(7.0), false), Nan::Allow, &a);
    check32::<f32_0_allow::OutMin>(Form::Outside(Some(-2.5), None, true), Nan::Allow, &a);
    check32::<f32_0_allow::OutMax>(Form::Outside(None, Some(7.0), true), Nan::Allow, &a);
    check32::<f32_0_allow::OutMaxX>(Form::Outside(None, Some(7.0), false), Nan::Allow, &a);
    check32::<f32_0_allow::OutEq>(Form::Outside(Some(7.0), Some(7.0), true), Nan::Allow, &a);
    cover!(f32_0_allow::In::parse_f64(a.0).is_ok(), "accepts");
    cover!(f32_0_allow::Out::parse_f64(a.0).is_err(), "rejects");
});

mod f32_0_must {
    use validators::prelude::*;
    get!(f32; Un, Out, OutX, OutMin, OutMax, OutMaxX, OutEq);
    #[derive(Validator)]
    #[validator(number(nan(Must), range(Unlimited)))]
    pub struct Un(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Must), range(Outside(min = -2.5, max = 7.0))))]
    pub struct Out(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Must), range(Outside(min = -2.5, max = 7.0, inclusive = false))))]
    pub struct OutX(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Must), range(Outside(min = -2.5))))]
    pub struct OutMin(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Must), range(Outside(max = 7.0))))]
    pub struct OutMax(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Must), range(Outside(max = 7.0, inclusive = false))))]
    pub struct OutMaxX(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Must), range(Outside(min = 7.0, max = 7.0))))]
    pub struct OutEq(pub f32);
}

harness!(q_f32_0_must, bytes = 12, bound = "f32, NaN policy Must, every range form over -2.5 and 7.0; every f64 and f32 bit pattern", |s| {
    let a = (f64::from_bits(s.u64()), f32::from_bits(s.u32()));
    check32::<f32_0_must::Un>(Form::Unlimited, Nan::Must, &a);
    check32::<f32_0_must::Out>(Form::Outside(Some(-2.5), Some(7.0), true), Nan::Must, &a);
    check32::<f32_0_must::OutX>(Form::Outside(Some(-2.5), Some(7.0), false), Nan::Must, &a);
    check32::<f32_0_must::OutMin>(Form::Outside(Some(-2.5), None, true), Nan::Must, &a);
    check32::<f32_0_must::OutMax>(Form::Outside(None, Some(7.0), true), Nan::Must, &a);
    check32::<f32_0_must::OutMaxX>(Form::Outside(None, Some(7.0), false), Nan::Must, &a);
    check32::<f32_0_must::OutEq>(Form::Outside(Some(7.0), Some(7.0), true), Nan::Must, &a);
    cover!(f32_0_must::Out::parse_f64(a.0).is_ok(), "accepts");
    cover!(f32_0_must::Out::parse_f64(a.0).is_err(), "rejects");
});

mod f32_0_disallow {
    use validators::prelude::*;
    get!(f32; Un, In, InX, InMin, InMax, InMaxX, InEq, Out, OutX, OutMin, OutMax, OutMaxX, OutEq);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Unlimited)))]
    pub struct Un(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Inside(min = -2.5, max = 7.0))))]
    pub struct In(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Inside(min = -2.5, max = 7.0, inclusive = false))))]
    pub struct InX(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Inside(min = -2.5))))]
    pub struct InMin(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Inside(max = 7.0))))]
    pub struct InMax(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Inside(max = 7.0, inclusive = false))))]
    pub struct InMaxX(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Inside(min = -2.5, max = -2.5))))]
    pub struct InEq(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Outside(min = -2.5, max = 7.0))))]
    pub struct Out(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Outside(min = -2.5, max = 7.0, inclusive = false))))]
    pub struct OutX(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Outside(min = -2.5))))]
    pub struct OutMin(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Outside(max = 7.0))))]
    pub struct OutMax(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Outside(max = 7.0, inclusive = false))))]
    pub struct OutMaxX(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Disallow), range(Outside(min = 7.0, max = 7.0))))]
    pub struct OutEq(pub f32);
}

harness!(q_f32_0_disallow, bytes = 12, bound = "f32, NaN policy Disallow, every range form over -2.5 and 7.0; every f64 and f32 bit pattern", |s| {
    let a = (f64::from_bits(s.u64()), f32::from_bits(s.u32()));
    check32::<f32_0_disallow::Un>(Form::Unlimited, Nan::Disallow, &a);
    check32::<f32_0_disallow::In>(Form::Inside(Some(-2.5), Some(7.0), true), Nan::Disallow, &a);
    check32::<f32_0_disallow::InX>(Form::Inside(Some(-2.5), Some(7.0), false), Nan::Disallow, &a);
    check32::<f32_0_disallow::InMin>(Form::Inside(Some(-2.5), None, true), Nan::Disallow, &a);
    check32::<f32_0_disallow::InMax>(Form::Inside(None, Some(7.0), true), Nan::Disallow, &a);
    check32::<f32_0_disallow::InMaxX>(Form::Inside(None, Some(7.0), false), Nan::Disallow, &a);
    check32::<f32_0_disallow::InEq>(Form::Inside(Some(-2.5), Some(-2.5), true), Nan::Disallow, &a);
    check32::<f32_0_disallow::Out>(Form::Outside(Some(-2.5), Some(7.0), true), Nan::Disallow, &a);
    check32::<f32_0_disallow::OutX>(Form::Outside(Some(-2.5), Some(7.0), false), Nan::Disallow, &a);
    check32::<f32_0_disallow::OutMin>(Form::Outside(Some(-2.5), None, true), Nan::Disallow, &a);
    check32::<f32_0_disallow::OutMax>(Form::Outside(None, Some(7.0), true), Nan::Disallow, &a);
    check32::<f32_0_disallow::OutMaxX>(Form::Outside(None, Some(7.0), false), Nan::Disallow, &a);
    check32::<f32_0_disallow::OutEq>(Form::Outside(Some(7.0), Some(7.0), true), Nan::Disallow, &a);
    cover!(f32_0_disallow::In::parse_f64(a.0).is_ok(), "accepts");
    cover!(f32_0_disallow::Out::parse_f64(a.0).is_err(), "rejects");
});

mod f32_1_allow {
    use validators::prelude::*;
    get!(f32; Un, In, InX, InMin, InMax, InMaxX, InEq, Out, OutX, OutMin, OutMax, OutMaxX, OutEq);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Unlimited)))]
    pub struct Un(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(min = 0.0, max = 0.1))))]
    pub struct In(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(min = 0.0, max = 0.1, inclusive = false))))]
    pub struct InX(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(min = 0.0))))]
    pub struct InMin(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(max = 0.1))))]
    pub struct InMax(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(max = 0.1, inclusive = false))))]
    pub struct InMaxX(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Inside(min = 0.0, max = 0.0))))]
    pub struct InEq(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(min = 0.0, max = 0.1))))]
    pub struct Out(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(min = 0.0, max = 0.1, inclusive = false))))]
    pub struct OutX(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(min = 0.0))))]
    pub struct OutMin(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(max = 0.1))))]
    pub struct OutMax(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(max = 0.1, inclusive = false))))]
    pub struct OutMaxX(pub f32);
    #[derive(Validator)]
    #[validator(number(nan(Allow), range(Outside(min = 0.1, max = 0.1))))]
    pub struct OutEq(pub f32);
}

harness!(q_f32_1_allow, bytes = 12, bound = "f32, NaN policy Allow, every range form over 0.0 and 0.1; every f64 and f32 bit pattern", |s| {
    let a = (f64::from_bits(s.u64()), f32::from_bits(s.u32()));
    check32::<f32_1_allow::Un>(Form::Unlimited, Nan::Allow, &a);
    check32::<f32_1_allow::In>(Form::Inside(Some(0.0), Some(0.1), true), Nan::Allow, &a);
    check32::<f32_1_allow::InX>(Form::Inside(Some(0.0), Some(0.1), false), Nan::Allow, &a);
    check32::<f32_1_allow::InMin>(Form::Inside(Some(0.0), None, true), Nan::Allow, &a);
    check32::<f32_1_allow::InMax>(Form::Inside(None, Some(0.1), true), Nan::Allow, &a);
    check32::<f32_1_allow::InMaxX>(Form::Inside(None, Some(0.1), false), Nan::Allow, &a);
    check32::<f32_1_allow::InEq>(Form::Inside(Some(0.0), Some(0.0), true), Nan::Allow, &a);
    check32::<f32_1_allow::Out>(Form::Outside(Some(0.0), Some(0.1), true), Nan::Allow, &a);
    check32::<f32_1_allow::OutX>(Form::Outside(Some(0.0), Some(0.1), false), Nan::Allow, &a);
    check32::<f32_1_allow::OutMin>(Form::Outside(Some(0.0), None, true), Nan::Allow, &a);
    check32::<f32_1_allow::OutMax>(Form::Outside(None, Some(0.1), true), Nan::Allow, &a);
    check32::<f32_1_allow::OutMaxX>(Form::Outside(None, Some(0.1), false), Nan::Allow, &a);
    check32::<f32_1_allow::OutEq>(Form::Outside(Some(0.1), Some(0.1), true), Nan::Allow, &a);
    cover!(f32_1_allow::In::parse_f64(a.0).is_ok(), "accepts");
    cover!(f32_1_allow::Out::parse_f64(a.0).is_err(), "rejects");
});

#[derive(Validator)]
#[validator(number)]
pub struct DefaultNumber(pub f64);
get!(f64; DefaultNumber);

harness!(q_default, bytes = 12, bound = "no parameters; every f64 and f32 bit pattern", |s| {
    let a = (f64::from_bits(s.u64()), f32::from_bits(s.u32()));
    check64::<DefaultNumber>(Form::Unlimited, Nan::Allow, &a);
});
/// What the stub of the standard parser gives: the text stands for this number, or for none.
static mut NUMBER: Option<f64> = None;

fn stub64(_: &str) -> Result<f64, core::num::ParseFloatError> {
    unsafe {
        match NUMBER {
            Some(f) => Ok(f),
            None => Err(core::mem::transmute::<u8, core::num::ParseFloatError>(1)),
        }
    }
}

fn stub32(_: &str) -> Result<f32, core::num::ParseFloatError> {
    unsafe {
        match NUMBER {
            Some(f) => Ok(f as f32),
            None => Err(core::mem::transmute::<u8, core::num::ParseFloatError>(1)),
        }
    }
}

fn text(f: Option<f64>) -> String {
    unsafe { NUMBER = f };
    #[cfg(kani)]
    {
        String::from("?")
    }
    #[cfg(not(kani))]
    match f {
        Some(f) => format!("{f:?}"),
        None => String::from("?"),
    }
}

fn check_str<V: ValidateString<Error = NumberError> + Get<T>, T: Float>(form: Form<T>, nan: Nan, f: Option<f64>, x: T) {
    let t = text(f);
    let (r, v) = (V::parse_str(&t), V::validate_str(&t));
    match f {
        Some(_) => agree(&form, nan, x, r, v),
        None => assert!(r.is_err() && v.is_err(), "what is not a number is refused"),
    }
}

harness!(#[kani::unwind(5)] #[kani::stub(<f64 as core::str::FromStr>::from_str, stub64)] q_str64, bytes = 9, bound = "a string standing for any f64 or for no number", |s| {
    let f = if s.bool() { Some(f64::from_bits(s.u64())) } else { None };
    let x = f.unwrap_or(0.0);
    check_str::<f64_0_disallow::In, f64>(Form::Inside(Some(-1.5), Some(100.25), true), Nan::Disallow, f, x);
    check_str::<f64_0_must::OutX, f64>(Form::Outside(Some(-1.5), Some(100.25), false), Nan::Must, f, x);
    check_str::<f64_0_allow::OutMin, f64>(Form::Outside(Some(-1.5), None, true), Nan::Allow, f, x);
});

harness!(#[kani::unwind(5)] #[kani::stub(<f32 as core::str::FromStr>::from_str, stub32)] q_str32, bytes = 5, bound = "a string standing for any f32 or for no number", |s| {
    let f = if s.bool() { Some(f32::from_bits(s.u32()) as f64) } else { None };
    let x = f.unwrap_or(0.0) as f32;
    check_str::<f32_0_disallow::In, f32>(Form::Inside(Some(-2.5), Some(7.0), true), Nan::Disallow, f, x);
    check_str::<f32_0_must::OutX, f32>(Form::Outside(Some(-2.5), Some(7.0), false), Nan::Must, f, x);
});
