//! Stand-in for the `kani` crate when a harness is replayed natively: the bytes of the
//! counterexample come from the file named by VERIF_REPLAY.
pub mod kani {
    pub fn raw<const N: usize>() -> [u8; N] {
        let p = match std::env::var("VERIF_REPLAY") {
            Ok(p) => p,
            Err(_) => skip(),
        };
        let v = std::fs::read(p).expect("replay file");
        assert_eq!(v.len(), N, "REPLAY-SIZE");
        let mut a = [0u8; N];
        a.copy_from_slice(&v);
        a
    }

    pub fn assume(c: bool) {
        if !c {
            skip();
        }
    }

    /// The run leaves the harness here: nothing was violated.
    pub fn skip() -> ! {
        println!("REPLAY-ASSUMPTION-NOT-MET");
        std::process::exit(0)
    }
}

#[macro_export]
macro_rules! cover {
    ($($t:tt)*) => {};
}
