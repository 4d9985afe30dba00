//! Model of `idna::Config::to_ascii` for ASCII, fullwidth ASCII (U+FF01..U+FF5E) and the ideographic full stop (U+3002)
//! without punycode labels ("xn--"); compared natively with the real function. Under Kani it replaces it (`ascii`
//! where the harness gives ASCII only).

pub const CAP: usize = 40;

#[derive(Clone, Copy)]
pub struct Flags {
    pub std3: bool,
    pub length: bool,
    pub hyphens: bool,
}
pub const STRICT: Flags = Flags { std3: true, length: true, hyphens: true };

/// ASCII: the text keeps its length, so that it stays concrete when the length of the input is. -> accepted
pub fn ascii(flags: Flags, b: &[u8], out: &mut [u8; CAP]) -> bool {
    let mut ok = true;
    let mut start = true; // of a label
    let mut label = 0usize;
    let mut before = 0u8;
    let mut i = 0;
    while i < b.len() {
        let c = if b[i].is_ascii_uppercase() { b[i] + 32 } else { b[i] };
        if c == b'.' {
            ok &= !(flags.length && start) && !(flags.hyphens && before == b'-');
            start = true;
            label = 0;
        } else {
            ok &= c < 0x80 && (!flags.std3 || c.is_ascii_lowercase() || c.is_ascii_digit() || c == b'-');
            ok &= !(flags.hyphens && start && c == b'-');
            start = false;
            label += 1;
            ok &= !flags.length || label <= 63;
        }
        before = c;
        out[i] = c;
        i += 1;
    }
    let root = before == b'.';
    ok &= !(flags.hyphens && before == b'-');
    ok && (!flags.length || (b.len() > root as usize && b.len() - root as usize <= 253))
}

/// -> length of the text written to `out`
pub fn wide(flags: Flags, b: &[u8], out: &mut [u8; CAP]) -> Option<usize> {
    let mut mapped = [0u8; CAP];
    let mut n = 0;
    let mut i = 0;
    while i < b.len() {
        let mut c = b[i];
        i += 1;
        if c >= 0x80 {
            // U+3002: e3 80 82, U+FF01..U+FF3F: ef bc 81..bf, U+FF40..U+FF5E: ef bd 80..9e
            if i + 1 >= b.len() {
                return None;
            }
            c = match (c, b[i], b[i + 1]) {
                (0xE3, 0x80, 0x82) => b'.',
                (0xEF, 0xBC, x) => x - 0x81 + 0x21,
                (0xEF, 0xBD, x) => x - 0x80 + 0x60,
                _ => return None,
            };
            i += 2;
        }
        mapped[n] = c;
        n += 1;
    }
    if ascii(flags, &mapped[..n], out) { Some(n) } else { None }
}

#[cfg(kani)]
pub fn stub(config: idna::Config, s: &str) -> Result<String, idna::Errors> {
    let mut out = [0u8; CAP];
    if ascii(flags(config), s.as_bytes(), &mut out) {
        Ok(String::from(crate::util::st(&out[..s.len()])))
    } else {
        Err(idna::Errors::default())
    }
}

#[cfg(kani)]
pub fn stub_wide(config: idna::Config, s: &str) -> Result<String, idna::Errors> {
    let mut out = [0u8; CAP];
    match wide(flags(config), s.as_bytes(), &mut out) {
        Some(n) => Ok(String::from(crate::util::st(&out[..n]))),
        None => Err(idna::Errors::default()),
    }
}

/// knows one name only, the one which gets longer
#[cfg(kani)]
pub fn stub_longer(_config: idna::Config, s: &str) -> Result<String, idna::Errors> {
    let b = s.as_bytes();
    if b.len() == 2 && b[0] == 0xC3 && b[1] == 0xBC {
        Ok(String::from("xn--tda"))
    } else {
        Err(idna::Errors::default())
    }
}

#[cfg(kani)]
fn flags(config: idna::Config) -> Flags {
    // the order of the fields is irrelevant: each flag is found by comparing with a configuration which has it only
    fn raw(c: idna::Config) -> [u8; 4] {
        unsafe { core::mem::transmute(c) }
    }
    fn has(c: [u8; 4], only: [u8; 4]) -> bool {
        let d = raw(idna::Config::default());
        (only[0] != d[0] && c[0] == only[0])
            || (only[1] != d[1] && c[1] == only[1])
            || (only[2] != d[2] && c[2] == only[2])
            || (only[3] != d[3] && c[3] == only[3])
    }
    let c = raw(config);
    Flags {
        std3: has(c, raw(idna::Config::default().use_std3_ascii_rules(true))),
        length: has(c, raw(idna::Config::default().verify_dns_length(true))),
        hyphens: has(c, raw(idna::Config::default().check_hyphens(true))),
    }
}

#[cfg(not(kani))]
#[test]
fn model_agrees() {
    for c in [idna::Config::default(), idna::Config::default().use_std3_ascii_rules(true).verify_dns_length(true).check_hyphens(true)] {
        assert_eq!(c.to_ascii("\u{fc}").ok().as_deref(), Some("xn--tda"));
    }
    let alphabet: Vec<char> = "aAzZ09x--..._~ !:[]@/1２．。－ａＺ＿！１".chars().collect();
    let mut seed = 0x9E3779B97F4A7C15u64;
    let mut next = move || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        seed
    };
    let mut accepted = 0;
    for _ in 0..6_000_000 {
        let n = next() % 9;
        let mut s = String::new();
        for _ in 0..n {
            let k = next() as usize;
            // mostly letters, digits, dots and hyphens
            s.push(if k % 4 == 0 { alphabet[(k >> 8) % alphabet.len()] } else { alphabet[(k >> 8) % 12] });
        }
        let k = next();
        let flags = Flags { std3: k & 1 == 0 || k & 8 == 0, length: k & 2 == 0 || k & 16 == 0, hyphens: k & 4 == 0 || k & 32 == 0 };
        let mut out = [0; CAP];
        let m = wide(flags, s.as_bytes(), &mut out).map(|n| String::from_utf8(out[..n].to_vec()).unwrap());
        if m.as_ref().is_some_and(|m| m.contains("xn--")) {
            continue;
        }
        let r = idna::Config::default().use_std3_ascii_rules(flags.std3).verify_dns_length(flags.length).check_hyphens(flags.hyphens).to_ascii(&s).ok();
        assert_eq!(m, r, "{s:?}");
        accepted += r.is_some() as u32;
    }
    assert!(accepted > 100_000);
}
