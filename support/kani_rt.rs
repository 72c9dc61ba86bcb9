// Kani runtime: opaque leaf types whose formatting and parsing outcomes are symbolic.
#![allow(unused, static_mut_refs)]
use core::fmt::{self, Write as _};

pub struct R;
impl R {
    pub fn flag(&mut self) -> bool {
        kani::any()
    }
    pub fn pick(&mut self, n: usize) -> usize {
        let x: u8 = kani::any();
        kani::assume((x as usize) < n);
        x as usize
    }
}

// outcome of converting a text, by kind of conversion and text tag (0: empty text, variant*8+group otherwise)
pub static mut OUT_OK: [u32; 5] = [0; 5];
pub static mut OUT_V: [u128; 5] = [0; 5];
pub static mut DEFAULT_V: u8 = 0;
pub static mut ODD_V: u8 = 0;
pub fn symbolic_world() {
    unsafe {
        OUT_OK = [kani::any(), kani::any(), kani::any(), kani::any(), kani::any()];
        OUT_V = [kani::any(), kani::any(), kani::any(), kani::any(), kani::any()];
        DEFAULT_V = kani::any();
        ODD_V = kani::any();
        parse_display::mock::MATCH = [kani::any(), kani::any(), kani::any(), kani::any()];
    }
}
fn tag(s: &str) -> usize {
    let b = s.as_bytes();
    if b.is_empty() { 0 } else { (b[0] & 31) as usize }
}
fn out(kind: usize, s: &str) -> Result<u8, KErr> {
    let t = tag(s);
    unsafe {
        if OUT_OK[kind] >> t & 1 == 1 { Ok((OUT_V[kind] >> (t * 4)) as u8 & 15) } else { Err(KErr) }
    }
}

/// Writes one byte; the length is a constant for the verifier.
fn put(f: &mut fmt::Formatter, b: u8) -> fmt::Result {
    let x = [(b & 63) | 64];
    f.write_str(unsafe { core::str::from_utf8_unchecked(&x) })
}
#[derive(PartialEq, Eq, Clone, Copy)]
pub struct K {
    pub v: u8,
    pub fail: bool,
}
impl Default for K {
    fn default() -> Self {
        K { v: unsafe { DEFAULT_V }, fail: false }
    }
}
impl K {
    pub fn odd_default() -> Self {
        K { v: unsafe { ODD_V }, fail: false }
    }
    pub fn odd(&self) -> bool {
        self.v & 1 == 1
    }
}
fn k_fmt(k: &K, f: &mut fmt::Formatter, mark: &str) -> fmt::Result {
    f.write_str(mark)?;
    put(f, k.v)?;
    if k.fail {
        return Err(fmt::Error);
    }
    let (w, p) = (f.width(), f.precision());
    let flags = (f.sign_plus() as usize) | (f.sign_minus() as usize) << 1 | (f.alternate() as usize) << 2 | (f.sign_aware_zero_pad() as usize) << 3
        | match f.align() {
            None => 0,
            Some(fmt::Alignment::Left) => 16,
            Some(fmt::Alignment::Right) => 32,
            Some(fmt::Alignment::Center) => 48,
        };
    if flags != 0 || w.is_some() || p.is_some() {
        put(f, w.unwrap_or(63) as u8)?;
        put(f, p.unwrap_or(63) as u8)?;
        put(f, flags as u8)?;
        put(f, f.fill() as u8)?;
    }
    Ok(())
}
macro_rules! leaf {
    ($($t:ident $m:literal)*) => {$(
        impl fmt::$t for K {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                k_fmt(self, f, $m)
            }
        }
    )*};
}
leaf!(Display "." Debug "?" LowerHex "_" UpperHex "=" Octal "/" Binary "|" LowerExp "<" UpperExp ">" Pointer "*");
#[derive(Debug, PartialEq)]
pub struct KErr;
impl core::str::FromStr for K {
    type Err = KErr;
    fn from_str(s: &str) -> Result<Self, KErr> {
        out(0, s).map(|v| K { v, fail: false })
    }
}
impl super::common::Gen for K {
    fn gen(_: &mut R) -> Self {
        K { v: kani::any(), fail: kani::any() }
    }
}
impl parse_display::FromStrRegex for K {
    fn from_str_regex() -> String {
        String::new()
    }
}
/// A leaf whose conversion always succeeds.
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct S {
    pub v: u8,
}
impl S {
    pub fn odd_default() -> Self {
        S { v: unsafe { ODD_V } }
    }
}
impl Default for S {
    fn default() -> Self {
        S { v: unsafe { DEFAULT_V } }
    }
}
impl fmt::Display for S {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        k_fmt(&K { v: self.v, fail: false }, f, "s")
    }
}
impl core::str::FromStr for S {
    type Err = KErr;
    fn from_str(s: &str) -> Result<Self, KErr> {
        Ok(S { v: unsafe { (OUT_V[1] >> (tag(s) * 4)) as u8 & 15 } })
    }
}
impl super::common::Gen for S {
    fn gen(_: &mut R) -> Self {
        S { v: kani::any() }
    }
}
impl parse_display::FromStrRegex for S {
    fn from_str_regex() -> String {
        String::new()
    }
}

/// What `Wp`, `Wa`, `Wq` may be used on.
pub trait Leaf: Sized {
    fn make(v: u8) -> Self;
}
impl Leaf for K {
    fn make(v: u8) -> Self {
        K { v, fail: false }
    }
}
impl Leaf for S {
    fn make(v: u8) -> Self {
        S { v }
    }
}
macro_rules! with_format {
    ($name:ident, $e:expr, $kind:literal, $mark:literal) => {
        impl<T: fmt::Display + ?Sized> parse_display::DisplayFormat<T> for $name {
            fn write(&self, f: &mut fmt::Formatter, value: &T) -> fmt::Result {
                f.write_str($mark)?;
                value.fmt(f)
            }
        }
        impl<T: Leaf> parse_display::FromStrFormat<T> for $name {
            type Err = KErr;
            fn parse(&self, s: &str) -> Result<T, KErr> {
                out($kind, s).map(T::make)
            }
        }
    };
}
pub struct Wp(pub &'static str);
pub struct Wq(pub &'static str);
pub struct Wa;
with_format!(Wp, (), 2, "w");
with_format!(Wq, (), 3, "q");
with_format!(Wa, (), 4, "<");

/// A writer that fails after `limit` bytes and remembers the byte at an arbitrary, fixed position: two texts are equal
/// iff their lengths are equal and, for every position, the bytes there are.
pub struct Sink {
    pub pos: u16,
    pub at: u8,
    pub len: u16,
    pub limit: u16,
    pub failed: bool,
    pub after: bool,
}
impl Sink {
    pub fn new(limit: u16, pos: u16) -> Self {
        Sink { pos, at: 0, len: 0, limit, failed: false, after: false }
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.after |= self.failed;
        let b = s.as_bytes();
        let n = b.len() as u16;
        let room = self.limit - self.len;
        let take = if n <= room { n } else { room };
        let rel = self.pos.wrapping_sub(self.len);
        if rel < take {
            self.at = b[rel as usize];
        }
        self.len += take;
        if take < n {
            self.failed = true;
            return Err(fmt::Error);
        }
        Ok(())
    }
}

/// Contract of `Display::fmt`: same text, same result, nothing after an error - for every value and every failing point of the sink.
pub fn contract_display<T: fmt::Display>(v: &T, spec: fn(&T, &mut fmt::Formatter) -> fmt::Result) {
    let (limit, pos): (u16, u16) = (kani::any(), kani::any());
    let mut a = Sink::new(limit, pos);
    let ra = spec(v, &mut fmt::FormattingOptions::new().create_formatter(&mut a));
    let mut b = Sink::new(limit, pos);
    let mut flags = fmt::FormattingOptions::new();
    if kani::any() {
        flags.width(Some(9)).precision(Some(1)).fill('*').alternate(true).sign_aware_zero_pad(kani::any());
    }
    let rb = v.fmt(&mut flags.create_formatter(&mut b));
    kani::cover!(ra.is_ok(), "cover_ok");
    assert!(a.len == b.len, "the text written has the specified length");
    assert!(a.at == b.at, "the text written is the specified one at every position");
    assert!(ra.is_ok() == rb.is_ok(), "fmt fails exactly when the writer or a field fails");
    assert!(!b.after || a.after, "nothing is written after an error");
}

pub fn group(variant: usize, n: usize) -> Option<&'static str> {
    parse_display::mock::group(variant, n)
}
pub fn contract_from_str<T: PartialEq>(got: Result<T, parse_display::ParseError>, want: Option<T>) {
    kani::cover!(want.is_some(), "cover_ok");
    match (got, want) {
        (Ok(a), Some(b)) => assert!(a == b, "the parsed value is the specified one"),
        (Err(_), None) => {}
        (Ok(_), None) => assert!(false, "Ok although the specification says Err"),
        (Err(_), Some(_)) => assert!(false, "Err although the specification says Ok"),
    }
}
