#[cfg(not(kani))]
use crate::kani;

/// Source of symbolic values: one symbolic array per harness, consumed at fixed positions.
pub struct Src<'a> {
    b: &'a [u8],
    p: usize,
}

impl<'a> Src<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Src { b, p: 0 }
    }

    #[inline]
    pub fn u8(&mut self) -> u8 {
        let v = self.b[self.p];
        self.p += 1;
        v
    }

    /// v in lo..=hi
    #[inline]
    pub fn within(&mut self, lo: u8, hi: u8) -> u8 {
        let v = self.u8();
        kani::assume(v >= lo && v <= hi);
        v
    }

    #[inline]
    pub fn bool(&mut self) -> bool {
        self.within(0, 1) == 1
    }

    #[inline]
    pub fn u16(&mut self) -> u16 {
        u16::from_le_bytes([self.u8(), self.u8()])
    }

    #[inline]
    pub fn u32(&mut self) -> u32 {
        (self.u16() as u32) | ((self.u16() as u32) << 16)
    }

    #[inline]
    pub fn u64(&mut self) -> u64 {
        (self.u32() as u64) | ((self.u32() as u64) << 32)
    }

    #[inline]
    pub fn u128(&mut self) -> u128 {
        (self.u64() as u128) | ((self.u64() as u128) << 64)
    }

    #[inline]
    pub fn char(&mut self) -> char {
        let v = self.u32();
        match char::from_u32(v) {
            Some(c) => c,
            None => {
                kani::assume(false);
                unreachable!()
            },
        }
    }

    /// N arbitrary bytes
    #[inline]
    pub fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0u8; N];
        let mut i = 0;
        while i < N {
            a[i] = self.u8();
            i += 1;
        }
        a
    }

    /// N arbitrary ASCII bytes
    #[inline]
    pub fn ascii<const N: usize>(&mut self) -> [u8; N] {
        let a = self.bytes::<N>();
        let mut i = 0;
        while i < N {
            kani::assume(a[i] < 128);
            i += 1;
        }
        a
    }
}

/// The bytes are ASCII (assumed by the caller).
#[inline]
pub fn st(b: &[u8]) -> &str {
    #[cfg(kani)]
    {
        unsafe { core::str::from_utf8_unchecked(b) }
    }
    #[cfg(not(kani))]
    {
        core::str::from_utf8(b).expect("the harness made a string which is not UTF-8")
    }
}

/// Defines a harness: a Kani proof, or natively a test which replays a counterexample.
macro_rules! harness {
    ($(#[$m:meta])* $name:ident, bytes = $n:expr, bound = $b:literal, |$s:ident| $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        $(#[cfg_attr(kani, $m)])*
        #[cfg_attr(not(kani), test)]
        fn $name() {
            #[cfg(kani)]
            let raw: [u8; $n] = kani::any();
            #[cfg(not(kani))]
            let raw: [u8; $n] = crate::kani::raw::<{ $n }>();
            let mut src = $crate::util::Src::new(&raw);
            let $s = &mut src;
            $body
        }
    };
}

#[cfg(kani)]
macro_rules! cover {
    ($c:expr, $m:literal) => {
        kani::cover!($c, $m)
    };
}


/// Stub of `alloc::fmt::format`: formats into a buffer on the stack first, so that the string does not grow step by step.
#[cfg(kani)]
pub mod fmtstub {
    use core::fmt::{self, Write};

    const CAP: usize = 96;

    struct Buffer {
        b: [u8; CAP],
        n: usize,
    }

    impl Write for Buffer {
        fn write_str(&mut self, s: &str) -> fmt::Result {
            let s = s.as_bytes();
            let mut i = 0;
            while i < s.len() {
                self.b[self.n] = s[i];
                self.n += 1;
                i += 1;
            }
            Ok(())
        }
    }

    pub fn format(a: fmt::Arguments<'_>) -> String {
        let mut w = Buffer { b: [0; CAP], n: 0 };
        assert!(fmt::write(&mut w, a).is_ok());
        String::from(super::st(&w.b[..w.n]))
    }
}

/// `core::slice::memchr::memchr` byte by byte (the real one reads aligned words, which is costly to encode)
#[cfg(kani)]
pub mod memstub {
    /// the message of a failed slicing is costly to encode
    pub fn slice_error(_: &str, _: usize, _: usize) -> ! {
        panic!("failed to slice a string")
    }
    pub fn memchr(x: u8, text: &[u8]) -> Option<usize> {
        let mut i = 0;
        while i < text.len() {
            if text[i] == x {
                return Some(i);
            }
            i += 1;
        }
        None
    }
}
