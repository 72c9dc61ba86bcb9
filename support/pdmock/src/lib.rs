//! Stands in for the crate `parse_display` under Kani: the real crate's items, with `helpers::Parser` (regex matching, outside
//! the verifier's reach) replaced by its contract: `captures` returns any outcome the group structure allows.
#![allow(static_mut_refs)]
pub use real::*;
pub mod mock {
    pub static mut MATCH: [bool; 4] = [false; 4];
    /// Bit n: group n of that variant is optional; groups of one optional part share the bit index of its first group.
    pub static mut ABSENT: [[bool; 8]; 4] = [[false; 8]; 4];
    /// (length, position, byte at position, variant) of the pattern text of each variant.
    pub static mut KEYS: &[(usize, usize, u8, usize)] = &[];
    pub static TAGS: [&str; 32] = [
        "", "\x01", "\x02", "\x03", "\x04", "\x05", "\x06", "\x07", "\x08", "\x09", "\x0a", "\x0b", "\x0c", "\x0d", "\x0e", "\x0f", "\x10", "\x11",
        "\x12", "\x13", "\x14", "\x15", "\x16", "\x17", "\x18", "\x19", "\x1a", "\x1b", "\x1c", "\x1d", "\x1e", "\x1f",
    ];
    pub fn group(v: usize, n: usize) -> Option<&'static str> {
        unsafe {
            if ABSENT[v][n] { None } else { Some(TAGS[v * 8 + n]) }
        }
    }
    pub struct Re {
        pub id: usize,
    }
    pub struct Caps {
        id: usize,
    }
    #[derive(Clone, Copy)]
    pub struct Match {
        s: &'static str,
    }
    impl Match {
        pub fn as_str(&self) -> &'static str {
            self.s
        }
    }
    impl Caps {
        pub fn get(&self, n: usize) -> Option<Match> {
            group(self.id, n).map(|s| Match { s })
        }
    }
    impl Re {
        pub fn captures(&self, _s: &str) -> Option<Caps> {
            if unsafe { MATCH[self.id] } { Some(Caps { id: self.id }) } else { None }
        }
        pub fn is_match(&self, _s: &str) -> bool {
            unsafe { MATCH[self.id] }
        }
    }
    pub fn id_of(s: &str) -> usize {
        let b = s.as_bytes();
        let mut i = 0;
        unsafe {
            while i < KEYS.len() {
                let (len, pos, byte, id) = KEYS[i];
                if b.len() == len && (len == 0 || b[pos] == byte) {
                    return id;
                }
                i += 1;
            }
        }
        0
    }
}
pub mod helpers {
    pub use real::helpers::*;
    use real::FromStrFormat;
    pub fn to_regex<T, E>(_f: &dyn FromStrFormat<T, Err = E>) -> Option<String> {
        None
    }
    pub fn to_ast<T, E>(_f: &dyn FromStrFormat<T, Err = E>) -> Option<(String, ())> {
        None
    }
    pub struct NoPatterns;
    impl core::ops::Index<usize> for NoPatterns {
        type Output = Option<String>;
        fn index(&self, _: usize) -> &Option<String> {
            &None
        }
    }
    pub struct Parser {
        pub re: super::mock::Re,
        pub re_str: String,
        pub ss: NoPatterns,
    }
    impl Parser {
        pub fn new(s: &str, _with: &mut [(&str, Option<(String, ())>)]) -> Self {
            Parser { re: super::mock::Re { id: super::mock::id_of(s) }, re_str: String::new(), ss: NoPatterns }
        }
    }
}
