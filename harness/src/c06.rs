// Written by tools/gen_text.py
use crate::strs::*;
use validators::prelude::*;

text_types!(text);

harness!(#[kani::unwind(6)] q_uni_free, bytes = 13, bound = "every string of up to 3 Unicode characters; configuration Free", |s| {
    let w = unicode::<Free, 3, 12>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] t_uni_free, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration Free", |s| {
    let w = unicode::<Free, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_uni_cmin, bytes = 13, bound = "every string of up to 3 Unicode characters; configuration CMin", |s| {
    let w = unicode::<CMin, 3, 12>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] t_uni_cmin, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration CMin", |s| {
    let w = unicode::<CMin, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_uni_cmax, bytes = 13, bound = "every string of up to 3 Unicode characters; configuration CMax", |s| {
    let w = unicode::<CMax, 3, 12>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] t_uni_cmax, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration CMax", |s| {
    let w = unicode::<CMax, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_uni_ctmin, bytes = 13, bound = "every string of up to 3 Unicode characters; configuration CTMin", |s| {
    let w = unicode::<CTMin, 3, 12>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] t_uni_ctmin, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration CTMin", |s| {
    let w = unicode::<CTMin, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] q_uni_cminmax, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration CMinMax", |s| {
    let w = unicode::<CMinMax, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(8)] t_uni_cminmax, bytes = 21, bound = "every string of up to 5 Unicode characters; configuration CMinMax", |s| {
    let w = unicode::<CMinMax, 5, 20>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] q_uni_ctminmin, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration CTMinMin", |s| {
    let w = unicode::<CTMinMin, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(8)] t_uni_ctminmin, bytes = 21, bound = "every string of up to 5 Unicode characters; configuration CTMinMin", |s| {
    let w = unicode::<CTMinMin, 5, 20>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] q_uni_ctminmax, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration CTMinMax", |s| {
    let w = unicode::<CTMinMax, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(8)] t_uni_ctminmax, bytes = 21, bound = "every string of up to 5 Unicode characters; configuration CTMinMax", |s| {
    let w = unicode::<CTMinMax, 5, 20>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] q_uni_ctminminmax, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration CTMinMinMax", |s| {
    let w = unicode::<CTMinMinMax, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(8)] t_uni_ctminminmax, bytes = 21, bound = "every string of up to 5 Unicode characters; configuration CTMinMinMax", |s| {
    let w = unicode::<CTMinMinMax, 5, 20>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_uni_ctminmin0, bytes = 13, bound = "every string of up to 3 Unicode characters; configuration CTMinMin0", |s| {
    let w = unicode::<CTMinMin0, 3, 12>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] t_uni_ctminmin0, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration CTMinMin0", |s| {
    let w = unicode::<CTMinMin0, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_uni_ctminmax0, bytes = 13, bound = "every string of up to 3 Unicode characters; configuration CTMinMax0", |s| {
    let w = unicode::<CTMinMax0, 3, 12>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] t_uni_ctminmax0, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration CTMinMax0", |s| {
    let w = unicode::<CTMinMax0, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] q_uni_ctminminmax0, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration CTMinMinMax0", |s| {
    let w = unicode::<CTMinMinMax0, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(8)] t_uni_ctminminmax0, bytes = 21, bound = "every string of up to 5 Unicode characters; configuration CTMinMinMax0", |s| {
    let w = unicode::<CTMinMinMax0, 5, 20>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_uni_cexact, bytes = 13, bound = "every string of up to 3 Unicode characters; configuration CExact", |s| {
    let w = unicode::<CExact, 3, 12>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] t_uni_cexact, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration CExact", |s| {
    let w = unicode::<CExact, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_uni_ctmin0, bytes = 13, bound = "every string of up to 3 Unicode characters; configuration CTMin0", |s| {
    let w = unicode::<CTMin0, 3, 12>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] t_uni_ctmin0, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration CTMin0", |s| {
    let w = unicode::<CTMin0, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(5)] q_uni_czero, bytes = 9, bound = "every string of up to 2 Unicode characters; configuration CZero", |s| {
    let w = unicode::<CZero, 2, 8>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] t_uni_czero, bytes = 13, bound = "every string of up to 3 Unicode characters; configuration CZero", |s| {
    let w = unicode::<CZero, 3, 12>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_uni_bmin, bytes = 13, bound = "every string of up to 3 Unicode characters; configuration BMin", |s| {
    let w = unicode::<BMin, 3, 12>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(18)] t_uni_bmin, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration BMin", |s| {
    let w = unicode::<BMin, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_uni_bmax, bytes = 13, bound = "every string of up to 3 Unicode characters; configuration BMax", |s| {
    let w = unicode::<BMax, 3, 12>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(18)] t_uni_bmax, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration BMax", |s| {
    let w = unicode::<BMax, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_uni_btmin, bytes = 13, bound = "every string of up to 3 Unicode characters; configuration BTMin", |s| {
    let w = unicode::<BTMin, 3, 12>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] t_uni_btmin, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration BTMin", |s| {
    let w = unicode::<BTMin, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(14)] q_uni_bminmax, bytes = 13, bound = "every string of up to 3 Unicode characters; configuration BMinMax", |s| {
    let w = unicode::<BMinMax, 3, 12>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(18)] t_uni_bminmax, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration BMinMax", |s| {
    let w = unicode::<BMinMax, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_uni_btminmin, bytes = 13, bound = "every string of up to 3 Unicode characters; configuration BTMinMin", |s| {
    let w = unicode::<BTMinMin, 3, 12>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] t_uni_btminmin, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration BTMinMin", |s| {
    let w = unicode::<BTMinMin, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_uni_btminmax, bytes = 13, bound = "every string of up to 3 Unicode characters; configuration BTMinMax", |s| {
    let w = unicode::<BTMinMax, 3, 12>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] t_uni_btminmax, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration BTMinMax", |s| {
    let w = unicode::<BTMinMax, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_uni_btminminmax, bytes = 13, bound = "every string of up to 3 Unicode characters; configuration BTMinMinMax", |s| {
    let w = unicode::<BTMinMinMax, 3, 12>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] t_uni_btminminmax, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration BTMinMinMax", |s| {
    let w = unicode::<BTMinMinMax, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_uni_btminmin0, bytes = 13, bound = "every string of up to 3 Unicode characters; configuration BTMinMin0", |s| {
    let w = unicode::<BTMinMin0, 3, 12>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] t_uni_btminmin0, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration BTMinMin0", |s| {
    let w = unicode::<BTMinMin0, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_uni_btminmax0, bytes = 13, bound = "every string of up to 3 Unicode characters; configuration BTMinMax0", |s| {
    let w = unicode::<BTMinMax0, 3, 12>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] t_uni_btminmax0, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration BTMinMax0", |s| {
    let w = unicode::<BTMinMax0, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_uni_btminminmax0, bytes = 13, bound = "every string of up to 3 Unicode characters; configuration BTMinMinMax0", |s| {
    let w = unicode::<BTMinMinMax0, 3, 12>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] t_uni_btminminmax0, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration BTMinMinMax0", |s| {
    let w = unicode::<BTMinMinMax0, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_uni_btmin0, bytes = 13, bound = "every string of up to 3 Unicode characters; configuration BTMin0", |s| {
    let w = unicode::<BTMin0, 3, 12>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(7)] t_uni_btmin0, bytes = 17, bound = "every string of up to 4 Unicode characters; configuration BTMin0", |s| {
    let w = unicode::<BTMin0, 4, 16>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(9)] q_ascii_clong, bytes = 8, bound = "every ASCII string of up to 7 bytes; configuration CLong", |s| {
    let w = ascii::<CLong, 7>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(11)] t_ascii_clong, bytes = 10, bound = "every ASCII string of up to 9 bytes; configuration CLong", |s| {
    let w = ascii::<CLong, 9>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(9)] q_ascii_blong, bytes = 8, bound = "every ASCII string of up to 7 bytes; configuration BLong", |s| {
    let w = ascii::<BLong, 7>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(11)] t_ascii_blong, bytes = 10, bound = "every ASCII string of up to 9 bytes; configuration BLong", |s| {
    let w = ascii::<BLong, 9>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(9)] q_ascii_clongmin, bytes = 8, bound = "every ASCII string of up to 7 bytes; configuration CLongMin", |s| {
    let w = ascii::<CLongMin, 7>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(11)] t_ascii_clongmin, bytes = 10, bound = "every ASCII string of up to 9 bytes; configuration CLongMin", |s| {
    let w = ascii::<CLongMin, 9>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(9)] q_ascii_blongmin, bytes = 8, bound = "every ASCII string of up to 7 bytes; configuration BLongMin", |s| {
    let w = ascii::<BLongMin, 7>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(11)] t_ascii_blongmin, bytes = 10, bound = "every ASCII string of up to 9 bytes; configuration BLongMin", |s| {
    let w = ascii::<BLongMin, 9>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(9)] q_ascii_clongmax, bytes = 8, bound = "every ASCII string of up to 7 bytes; configuration CLongMax", |s| {
    let w = ascii::<CLongMax, 7>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(11)] t_ascii_clongmax, bytes = 10, bound = "every ASCII string of up to 9 bytes; configuration CLongMax", |s| {
    let w = ascii::<CLongMax, 9>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(9)] q_ascii_blongmax, bytes = 8, bound = "every ASCII string of up to 7 bytes; configuration BLongMax", |s| {
    let w = ascii::<BLongMax, 7>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(11)] t_ascii_blongmax, bytes = 10, bound = "every ASCII string of up to 9 bytes; configuration BLongMax", |s| {
    let w = ascii::<BLongMax, 9>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(9)] q_ascii_clongt, bytes = 8, bound = "every ASCII string of up to 7 bytes; configuration CLongT", |s| {
    let w = ascii::<CLongT, 7>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(11)] t_ascii_clongt, bytes = 10, bound = "every ASCII string of up to 9 bytes; configuration CLongT", |s| {
    let w = ascii::<CLongT, 9>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(9)] q_ascii_blongt, bytes = 8, bound = "every ASCII string of up to 7 bytes; configuration BLongT", |s| {
    let w = ascii::<BLongT, 7>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(11)] t_ascii_blongt, bytes = 10, bound = "every ASCII string of up to 9 bytes; configuration BLongT", |s| {
    let w = ascii::<BLongT, 9>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(5)] q_kept_free, bytes = 4, bound = "every ASCII string of up to 3 bytes through all entry points; configuration Free", |s| {
    let w = kept::<Free, 3>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_kept_cminmax, bytes = 5, bound = "every ASCII string of up to 4 bytes through all entry points; configuration CMinMax", |s| {
    let w = kept::<CMinMax, 4>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(5)] q_kept_ctminminmax, bytes = 4, bound = "every ASCII string of up to 3 bytes through all entry points; configuration CTMinMinMax", |s| {
    let w = kept::<CTMinMinMax, 3>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(6)] q_kept_bminmax, bytes = 5, bound = "every ASCII string of up to 4 bytes through all entry points; configuration BMinMax", |s| {
    let w = kept::<BMinMax, 4>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
harness!(#[kani::unwind(5)] q_kept_btminminmax0, bytes = 4, bound = "every ASCII string of up to 3 bytes through all entry points; configuration BTMinMinMax0", |s| {
    let w = kept::<BTMinMinMax0, 3>(s, false);
    cover!(w, "accepts");
    cover!(!w, "refuses");
});
