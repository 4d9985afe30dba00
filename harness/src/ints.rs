//! Shared by c02 (signed) and c03 (unsigned).

#[derive(Clone, Copy, PartialEq)]
pub enum Want {
    Ok,
    TooSmall,
    TooLarge,
    Forbidden,
}

/// A range as written in the attribute; the lower bound is inclusive, the upper bound is
/// inclusive unless `inclusive` is false.
#[derive(Clone, Copy)]
pub enum Form<T> {
    Unlimited,
    Inside(Option<T>, Option<T>, bool),
    Outside(Option<T>, Option<T>, bool),
}

impl<T: Copy + PartialOrd> Form<T> {
    pub fn want(&self, v: T) -> Want {
        match *self {
            Form::Unlimited => Want::Ok,
            Form::Inside(lo, hi, inclusive) => {
                if let Some(lo) = lo {
                    if v < lo {
                        return Want::TooSmall;
                    }
                }
                if let Some(hi) = hi {
                    if v > hi || (!inclusive && v >= hi) {
                        return Want::TooLarge;
                    }
                }
                Want::Ok
            },
            Form::Outside(lo, hi, inclusive) => {
                let above = match lo {
                    Some(lo) => v >= lo,
                    None => true,
                };
                let below = match hi {
                    Some(hi) => v < hi || (inclusive && v <= hi),
                    None => true,
                };
                if above && below { Want::Forbidden } else { Want::Ok }
            },
        }
    }
}

pub trait Get<T> {
    fn get(self) -> T;
}

macro_rules! get {
    ($t:ident; $($n:ident),*) => {
        $(impl crate::ints::Get<$t> for $n {
            fn get(self) -> $t { self.0 }
        })*
    };
}

/// Defines one validator per range form over the bounds $lo < $hi (and their literals in the attribute).
macro_rules! int_forms {
    ($m:ident, $kind:ident, $t:ident, $lo:literal, $hi:literal) => {
        pub mod $m {
            use validators::prelude::*;
            get!($t; Un, Default_, In, InX, InMin, InMax, InMaxX, InEq, Out, OutX, OutMin, OutMax, OutMaxX, OutEq);
            #[derive(Validator)]
            #[validator($kind(range(Unlimited)))]
            pub struct Un(pub $t);
            #[derive(Validator)]
            #[validator($kind)]
            pub struct Default_(pub $t);
            #[derive(Validator)]
            #[validator($kind(range(Inside(min = $lo, max = $hi))))]
            pub struct In(pub $t);
            #[derive(Validator)]
            #[validator($kind(range(Inside(min = $lo, max = $hi, inclusive = false))))]
            pub struct InX(pub $t);
            #[derive(Validator)]
            #[validator($kind(range(Inside(min = $lo))))]
            pub struct InMin(pub $t);
            #[derive(Validator)]
            #[validator($kind(range(Inside(max = $hi))))]
            pub struct InMax(pub $t);
            #[derive(Validator)]
            #[validator($kind(range(Inside(max = $hi, inclusive = false))))]
            pub struct InMaxX(pub $t);
            #[derive(Validator)]
            #[validator($kind(range(Inside(min = $lo, max = $lo))))]
            pub struct InEq(pub $t);
            #[derive(Validator)]
            #[validator($kind(range(Outside(min = $lo, max = $hi))))]
            pub struct Out(pub $t);
            #[derive(Validator)]
            #[validator($kind(range(Outside(min = $lo, max = $hi, inclusive = false))))]
            pub struct OutX(pub $t);
            #[derive(Validator)]
            #[validator($kind(range(Outside(min = $lo))))]
            pub struct OutMin(pub $t);
            #[derive(Validator)]
            #[validator($kind(range(Outside(max = $hi))))]
            pub struct OutMax(pub $t);
            #[derive(Validator)]
            #[validator($kind(range(Outside(max = $hi, inclusive = false))))]
            pub struct OutMaxX(pub $t);
            #[derive(Validator)]
            #[validator($kind(range(Outside(min = $hi, max = $hi))))]
            pub struct OutEq(pub $t);
        }
    };
}

macro_rules! int_all_forms {
    ($m:ident, $t:ident, $lo:literal, $hi:literal, $check:ident, $x:expr) => {{
        use crate::ints::Form;
        let lo: $t = $lo;
        let hi: $t = $hi;
        $check::<$m::Un, $t>(Form::Unlimited, $x);
        $check::<$m::Default_, $t>(Form::Unlimited, $x);
        $check::<$m::In, $t>(Form::Inside(Some(lo), Some(hi), true), $x);
        $check::<$m::InX, $t>(Form::Inside(Some(lo), Some(hi), false), $x);
        $check::<$m::InMin, $t>(Form::Inside(Some(lo), None, true), $x);
        $check::<$m::InMax, $t>(Form::Inside(None, Some(hi), true), $x);
        $check::<$m::InMaxX, $t>(Form::Inside(None, Some(hi), false), $x);
        $check::<$m::InEq, $t>(Form::Inside(Some(lo), Some(lo), true), $x);
        $check::<$m::Out, $t>(Form::Outside(Some(lo), Some(hi), true), $x);
        $check::<$m::OutX, $t>(Form::Outside(Some(lo), Some(hi), false), $x);
        $check::<$m::OutMin, $t>(Form::Outside(Some(lo), None, true), $x);
        $check::<$m::OutMax, $t>(Form::Outside(None, Some(hi), true), $x);
        $check::<$m::OutMaxX, $t>(Form::Outside(None, Some(hi), false), $x);
        $check::<$m::OutEq, $t>(Form::Outside(Some(hi), Some(hi), true), $x);
    }};
}
