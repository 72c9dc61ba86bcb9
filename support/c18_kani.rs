#![feature(formatting_options)]
#![cfg(kani)]
// C18 under Kani: the real code of parse-display-with, with symbolic items, failures and failing writers.
#![allow(static_mut_refs)]
use core::fmt::{self, Formatter};
use core::str::FromStr;
use parse_display::{DisplayFormat, FromStrFormat};
use parse_display_with::formats::*;

const N: usize = 4;
#[derive(Clone, Copy, PartialEq)]
struct K {
    v: u8,
    fail: bool,
}
fn put(f: &mut Formatter, b: u8) -> fmt::Result {
    let x = [(b & 63) | 64];
    f.write_str(unsafe { core::str::from_utf8_unchecked(&x) })
}
impl fmt::Display for K {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        put(f, self.v)?;
        if self.fail { Err(fmt::Error) } else { Ok(()) }
    }
}
struct Marked;
impl DisplayFormat<K> for Marked {
    fn write(&self, f: &mut Formatter, v: &K) -> fmt::Result {
        f.write_str("!")?;
        v.fmt(f)
    }
}
use core::fmt::Display;

struct Sink {
    pos: u16,
    at: u8,
    len: u16,
    limit: u16,
    failed: bool,
    after: bool,
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.after |= self.failed;
        let b = s.as_bytes();
        let n = b.len() as u16;
        let room = self.limit - self.len;
        let take = if n <= room { n } else { room };
        let rel = self.pos.wrapping_sub(self.len);
        if rel < take {
            self.at = b[rel as usize];
        }
        self.len += take;
        if take < n {
            self.failed = true;
            return Err(fmt::Error);
        }
        Ok(())
    }
}
/// A collection with a symbolic number of elements.
struct Coll {
    n: usize,
    a: [K; N],
}
struct It<'a>(&'a Coll, usize);
impl<'a> Iterator for It<'a> {
    type Item = &'a K;
    fn next(&mut self) -> Option<&'a K> {
        if self.1 < self.0.n {
            self.1 += 1;
            Some(&self.0.a[self.1 - 1])
        } else {
            None
        }
    }
}
impl<'a> IntoIterator for &'a Coll {
    type Item = &'a K;
    type IntoIter = It<'a>;
    fn into_iter(self) -> It<'a> {
        It(self, 0)
    }
}
fn any_k() -> K {
    K { v: kani::any(), fail: kani::any() }
}
fn any_coll() -> Coll {
    let n: usize = kani::any();
    kani::assume(n <= N);
    Coll { n, a: [any_k(), any_k(), any_k(), any_k()] }
}
fn spec_write(c: &Coll, d: &str, mark: &str, f: &mut Formatter) -> fmt::Result {
    let mut i = 0;
    while i < c.n {
        if i > 0 {
            f.write_str(d)?;
        }
        f.write_str(mark)?;
        c.a[i].fmt(f)?;
        i += 1;
    }
    Ok(())
}
fn contract_write<F: DisplayFormat<Coll>>(fm: F, d: &str, mark: &str) {
    let c = any_coll();
    let (limit, pos): (u16, u16) = (kani::any(), kani::any());
    let new = || Sink { pos, at: 0, len: 0, limit, failed: false, after: false };
    let mut a = new();
    let ra = spec_write(&c, d, mark, &mut fmt::FormattingOptions::new().create_formatter(&mut a));
    let mut b = new();
    let mut flags = fmt::FormattingOptions::new();
    if kani::any() {
        flags.width(Some(9)).precision(Some(1)).fill('*').alternate(true);
    }
    let rb = fm.write(&mut flags.create_formatter(&mut b), &c);
    kani::cover!(ra.is_ok() && c.n == N, "cover_ok");
    assert!(a.len == b.len, "the text written has the specified length");
    assert!(a.at == b.at, "the text written is the specified one at every position");
    assert!(ra.is_ok() == rb.is_ok(), "write fails exactly when the writer or an element fails");
    assert!(!b.after, "nothing is written after an error");
}
#[kani::proof]
#[kani::unwind(8)]
fn k_write_delimiter() {
    contract_write(delimiter::<K>(", "), ", ", "");
}
#[kani::proof]
#[kani::unwind(8)]
fn k_write_join() {
    contract_write(join::<K, _>(Marked, "/"), "/", "!");
}
#[kani::proof]
#[kani::unwind(8)]
fn k_write_delimiter_empty() {
    contract_write(delimiter::<K>(""), "", "");
}
#[kani::proof]
#[kani::unwind(8)]
fn k_write_fmt() {
    let c = any_k();
    let (limit, pos): (u16, u16) = (kani::any(), kani::any());
    let new = || Sink { pos, at: 0, len: 0, limit, failed: false, after: false };
    let mut a = new();
    let ra = c.fmt(&mut fmt::FormattingOptions::new().create_formatter(&mut a));
    let mut b = new();
    let rb = fmt().write(&mut fmt::FormattingOptions::new().create_formatter(&mut b), &c);
    let mut e = new();
    let re = fmt_display(|f: &mut Formatter, x: &K| x.fmt(f)).write(&mut fmt::FormattingOptions::new().create_formatter(&mut e), &c);
    kani::cover!(ra.is_ok(), "cover_ok");
    assert!(a.len == b.len && a.at == b.at && ra.is_ok() == rb.is_ok(), "Fmt::write is Display");
    assert!(a.len == e.len && a.at == e.at && ra.is_ok() == re.is_ok(), "fmt_display calls the function");
}

static mut OK: u32 = 0;
static mut LOG: [u8; 8] = [255; 8];
static mut CALLS: usize = 0;
fn out(s: &str) -> Result<u8, u8> {
    let b = s.as_bytes();
    // pieces are at most one byte long: 0 for the empty one
    let t = if b.is_empty() { 0 } else if b.len() > 1 { 31 } else { b[0] & 15 };
    unsafe {
        if CALLS < 8 {
            LOG[CALLS] = t;
        }
        CALLS += 1;
        if OK >> t & 1 == 1 { Ok(t) } else { Err(t) }
    }
}
#[derive(PartialEq, Clone, Copy)]
struct P(u8);
impl FromStr for P {
    type Err = u8;
    fn from_str(s: &str) -> Result<P, u8> {
        out(s).map(P)
    }
}
/// A collection of at most 6 elements.
#[derive(PartialEq)]
struct Acc {
    n: usize,
    a: [u8; 6],
}
impl FromIterator<P> for Acc {
    fn from_iter<I: IntoIterator<Item = P>>(i: I) -> Acc {
        let mut r = Acc { n: 0, a: [255; 6] };
        for x in i {
            r.a[r.n] = x.0;
            r.n += 1;
        }
        r
    }
}
/// `s`: pieces given as bytes (0: empty piece)
fn contract_parse(got: Result<Acc, u8>, pieces: &[u8]) {
    let mut want: Result<Acc, u8> = Ok(Acc { n: 0, a: [255; 6] });
    let mut i = 0;
    while i < pieces.len() {
        if let Ok(acc) = &mut want {
            if unsafe { OK >> pieces[i] & 1 == 1 } {
                acc.a[i] = pieces[i];
                acc.n += 1;
            } else {
                want = Err(pieces[i]);
            }
        }
        i += 1;
    }
    kani::cover!(want.is_ok(), "cover_ok");
    assert!(got == want, "parse converts every piece in order and fails exactly at the first failing piece");
}
macro_rules! parses {
    ($($name:ident $s:literal $d:literal [$($p:expr),*];)*) => {$(
        #[kani::proof]
        #[kani::unwind(12)]
        fn $name() {
            unsafe { OK = kani::any(); }
            let got: Result<Acc, u8> = delimiter::<P>($d).parse($s);
            contract_parse(got, &[$($p),*]);
        }
    )*};
}
parses! {
    k_parse_1 "" "," [0];
}
#[kani::proof]
#[kani::unwind(8)]
fn k_parse_fmt() {
    unsafe { OK = kani::any(); }
    let s = match kani::any::<u8>() { 0 => "", 1 => "a", 2 => "b", _ => "xy" };
    let got = <Fmt as FromStrFormat<P>>::parse(&fmt(), s);
    let want = P::from_str(s);
    assert!(got == want, "Fmt::parse is FromStr");
    unsafe { CALLS = 0; }
    let got: Result<u8, u8> = fmt_from_str(out).parse(s);
    let want = want.map(|p| p.0);
    kani::cover!(got.is_ok(), "cover_ok");
    assert!(got == want && unsafe { CALLS == 1 }, "fmt_from_str calls the function once, with the text");
}
