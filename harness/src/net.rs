//! Stubs for the address text handling of std, used under Kani only (natively the real functions run).
//! An IPv6 address is parsed by the model in `ipmodel` (compared natively with std), or - with a token - the text
//! TOKEN6 stands for an arbitrary address and any other text is refused. The same for IPv4 with TOKEN4; without a token
//! the real IPv4 parser runs.
use crate::util::{st, Src};
#[cfg(not(kani))]
use crate::kani;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};

#[derive(Clone, Copy, PartialEq)]
pub enum Tri {
    Must,
    Allow,
    Disallow,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Ip {
    V4(u32),
    V6(u128),
}

impl Ip {
    pub fn local(self) -> bool {
        match self {
            Ip::V4(ip) => crate::ipmodel::local4(ip),
            Ip::V6(ip) => crate::ipmodel::local6(ip),
        }
    }
    pub fn of(ip: IpAddr) -> Ip {
        match ip {
            IpAddr::V4(ip) => Ip::V4(u32::from(ip)),
            IpAddr::V6(ip) => Ip::V6(u128::from(ip)),
        }
    }
    pub fn std(self) -> IpAddr {
        match self {
            Ip::V4(ip) => IpAddr::V4(Ipv4Addr::from(ip)),
            Ip::V6(ip) => IpAddr::V6(Ipv6Addr::from(ip)),
        }
    }
}

#[cfg(kani)]
pub mod stub {
    use core::fmt::{Formatter, Result as R};
    use std::net::{AddrParseError, Ipv4Addr, Ipv6Addr};

    pub const TOKEN4: &str = "8.8";
    pub const TOKEN6: &str = "a::b";
    pub static mut IP4: Option<u32> = None;
    pub static mut IP6: Option<u128> = None;

    pub const TOKEN_PORT: &str = "432";
    pub static mut PORT: Option<u16> = None;

    pub fn show_port(p: &u16, f: &mut Formatter<'_>) -> R {
        assert!(unsafe { PORT } == Some(*p), "the port which was given is written");
        f.write_str(TOKEN_PORT)
    }

    pub fn token_port(s: &str) -> Result<u16, core::num::ParseIntError> {
        match unsafe { PORT } {
            Some(p) if same(s.as_bytes(), TOKEN_PORT.as_bytes()) => Ok(p),
            _ => Err("".parse::<u8>().unwrap_err()),
        }
    }

    fn failed() -> AddrParseError {
        unsafe { core::mem::transmute(1u8) }
    }

    pub fn same(a: &[u8], b: &[u8]) -> bool {
        if a.len() != b.len() {
            return false;
        }
        let mut i = 0;
        while i < b.len() {
            if a[i] != b[i] {
                return false;
            }
            i += 1;
        }
        true
    }

    /// any other text is refused
    pub fn token4(s: &str) -> Result<Ipv4Addr, AddrParseError> {
        match unsafe { IP4 } {
            Some(ip) if same(s.as_bytes(), TOKEN4.as_bytes()) => Ok(Ipv4Addr::from(ip)),
            _ => Err(failed()),
        }
    }

    /// any other text is refused
    pub fn token6(s: &str) -> Result<Ipv6Addr, AddrParseError> {
        match unsafe { IP6 } {
            Some(ip) if same(s.as_bytes(), TOKEN6.as_bytes()) => Ok(Ipv6Addr::from(ip)),
            _ => Err(failed()),
        }
    }

    pub fn model6(s: &str) -> Result<Ipv6Addr, AddrParseError> {
        match crate::ipmodel::v6(s.as_bytes()) {
            Some(ip) => Ok(Ipv6Addr::from(ip)),
            None => Err(failed()),
        }
    }

    pub fn model4(s: &str) -> Result<Ipv4Addr, AddrParseError> {
        match crate::ipmodel::v4(s.as_bytes()) {
            Some(ip) => Ok(Ipv4Addr::from(ip)),
            None => Err(failed()),
        }
    }

    pub fn show4(ip: &Ipv4Addr, f: &mut Formatter<'_>) -> R {
        assert!(unsafe { IP4 } == Some(u32::from(*ip)), "the address which was given is written");
        f.write_str(TOKEN4)
    }

    /// for texts which need not be the one of the harness
    pub fn show6_any(_ip: &Ipv6Addr, f: &mut Formatter<'_>) -> R {
        f.write_str(TOKEN6)
    }

    pub fn show6(ip: &Ipv6Addr, f: &mut Formatter<'_>) -> R {
        assert!(unsafe { IP6 } == Some(u128::from(*ip)), "the address which was given is written");
        f.write_str(TOKEN6)
    }
}

/// The text of an arbitrary address.
pub fn ip_text(ip: Ip) -> String {
    #[cfg(kani)]
    {
        match ip {
            Ip::V4(ip) => {
                unsafe { stub::IP4 = Some(ip) };
                String::from(stub::TOKEN4)
            }
            Ip::V6(ip) => {
                unsafe { stub::IP6 = Some(ip) };
                String::from(stub::TOKEN6)
            }
        }
    }
    #[cfg(not(kani))]
    {
        match ip {
            Ip::V4(ip) => Ipv4Addr::from(ip).to_string(),
            Ip::V6(ip) => Ipv6Addr::from(ip).to_string(),
        }
    }
}

/// The text of an arbitrary port.
pub fn port_text(p: u16) -> String {
    #[cfg(kani)]
    {
        unsafe { stub::PORT = Some(p) };
        String::from(stub::TOKEN_PORT)
    }
    #[cfg(not(kani))]
    {
        p.to_string()
    }
}

/// A decimal number up to 65535, any number of leading zeros.
pub fn port(b: &[u8]) -> Option<u16> {
    let mut v: u32 = 0;
    let mut ok = !b.is_empty();
    let mut i = 0;
    while i < b.len() {
        let d = b[i].wrapping_sub(b'0');
        if d > 9 {
            ok = false;
        } else if v <= 65535 {
            v = v * 10 + d as u32;
        }
        i += 1;
    }
    if ok && v <= 65535 { Some(v as u16) } else { None }
}
