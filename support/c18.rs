// C18: the formats of parse-display-with against a reference written from the property (native, bounded).
use super::rt::*;
use parse_display_real::{DisplayFormat, FromStrFormat};
use parse_display_with::formats::*;
use std::cell::RefCell;
use std::collections::*;
use std::fmt::{self, Write};

struct W<'a, F: ?Sized, T: ?Sized>(&'a F, &'a T);
impl<F: DisplayFormat<T> + ?Sized, T: ?Sized> fmt::Display for W<'_, F, T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.write(f, self.1)
    }
}
/// Accepts `room` bytes, then fails; remembers calls after a failure.
struct Sink {
    s: String,
    room: usize,
    failed: bool,
    after: bool,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.after |= self.failed;
        for c in s.chars() {
            if self.s.len() + c.len_utf8() > self.room {
                self.failed = true;
                return Err(fmt::Error);
            }
            self.s.push(c);
        }
        Ok(())
    }
}
fn show<F: DisplayFormat<T> + ?Sized, T: ?Sized>(f: &F, v: &T, room: usize) -> (String, bool, bool) {
    let mut s = Sink { s: String::new(), room, failed: false, after: false };
    let ok = write!(s, "{}", W(f, v)).is_ok();
    (s.s, ok, s.after)
}
fn show_wide<F: DisplayFormat<T> + ?Sized, T: ?Sized>(f: &F, v: &T) -> (String, bool, bool) {
    let mut s = Sink { s: String::new(), room: 100000, failed: false, after: false };
    let ok = write!(s, "{:*^+#9.1}", W(f, v)).is_ok();
    (s.s, ok, s.after)
}
fn cut(s: &str, room: usize) -> String {
    let mut r = String::new();
    for c in s.chars() {
        if r.len() + c.len_utf8() > room {
            break;
        }
        r.push(c);
    }
    r
}
/// An item format: brackets around the text; fails at the item `bad` before or after writing the bracket; logs the items seen.
struct Item {
    bad: Option<String>,
    partial: bool,
    log: RefCell<Vec<String>>,
}
impl Item {
    fn new(bad: Option<&str>, partial: bool) -> Self {
        Item { bad: bad.map(|s| s.to_string()), partial, log: RefCell::new(vec![]) }
    }
}
impl DisplayFormat<String> for Item {
    fn write(&self, f: &mut fmt::Formatter, v: &String) -> fmt::Result {
        self.log.borrow_mut().push(v.clone());
        if self.bad.as_ref() == Some(v) {
            if self.partial {
                f.write_str("[")?;
            }
            return Err(fmt::Error);
        }
        f.write_char('[')?;
        f.write_str(v)?;
        f.write_char(']')
    }
}
impl FromStrFormat<String> for Item {
    type Err = String;
    fn parse(&self, s: &str) -> Result<String, String> {
        self.log.borrow_mut().push(s.to_string());
        if self.bad.as_deref() == Some(s) { Err(format!("bad {s}")) } else { Ok(format!("[{s}]")) }
    }
}
/// Reference: the elements in order with the delimiter in between.
fn spec_join(items: &[String], d: &str) -> String {
    let mut r = String::new();
    for (i, s) in items.iter().enumerate() {
        if i != 0 {
            r += d;
        }
        r += s;
    }
    r
}
/// Reference: the pieces between the occurrences of the delimiter, from the left, not overlapping.
fn spec_split(s: &str, d: &str) -> Vec<String> {
    let (b, p) = (s.as_bytes(), d.as_bytes());
    let mut r = vec![];
    let (mut start, mut i) = (0, 0);
    if p.is_empty() {
        // the empty delimiter occurs at every character boundary
        for (k, _) in s.char_indices().chain(std::iter::once((s.len(), ' '))) {
            r.push(s[start..k].to_string());
            start = k;
        }
        r.push(String::new());
        return r;
    }
    while i + p.len() <= b.len() {
        if &b[i..i + p.len()] == p {
            r.push(s[start..i].to_string());
            i += p.len();
            start = i;
        } else {
            i += 1;
        }
    }
    r.push(s[start..].to_string());
    r
}
fn eq<T: PartialEq + fmt::Debug>(rep: &mut Rep, id: &str, kind: &str, input: &str, want: T, got: T) {
    rep.evals += 1;
    if want == got {
        rep.nontrivial += 1;
    } else {
        rep.viol(id, kind, input, &format!("{want:?}"), &format!("{got:?}"));
    }
}
fn rooms(full: &str) -> Vec<usize> {
    let mut r: Vec<usize> = (0..=full.len()).collect();
    r.push(1000);
    r
}
const DELIMS: &[&str] = &[",", ", ", "", "aa", "ab", "é", "\n", "{}", "-", "[", "]", ".", "|", "::", "aba", " ", "𝄞", "\\", "(?<a>x)", "\0"];
const POOL: &[&str] = &["", "a", "b", ",", ", ", "aa", "é", "x y", "-", "ab", "0", "[]", "long text", "\n", "𝄞", "aba"];

fn writing(rep: &mut Rep) {
    let mut r = R(rep.seed.wrapping_mul(31) | 1);
    for d in DELIMS {
        for n in 0..9usize {
            for round in 0..3 {
                let v: Vec<String> = (0..n).map(|_| POOL[r.pick(POOL.len())].to_string()).collect();
                let what = format!("{v:?} joined by {d:?}");
                let full = spec_join(&v, d);
                for room in rooms(&full) {
                    let (s, ok, after) = show(&delimiter::<String>(d), &v, room);
                    eq(rep, "Join::write", "delimiter(d)", &format!("{what}, the writer takes {room} bytes"), (cut(&full, room), full.len() <= room, false), (s, ok, after));
                }
                let marked: Vec<String> = v.iter().map(|s| format!("[{s}]")).collect();
                let full = spec_join(&marked, d);
                for room in rooms(&full) {
                    let (s, ok, after) = show(&join::<String, _>(Item::new(None, false), d), &v, room);
                    eq(rep, "Join::write", "join(f, d)", &format!("{what}, the writer takes {room} bytes"), (cut(&full, room), full.len() <= room, false), (s, ok, after));
                }
                let w = show_wide(&join::<String, _>(Item::new(None, false), d), &v);
                eq(rep, "Join::write", "join(f, d)", &format!("{what}, in a placeholder with flags"), (full.clone(), true, false), w);
                // every element that can fail
                for bad in 0..n {
                    for partial in [false, true] {
                        let first = v.iter().position(|s| *s == v[bad]).unwrap();
                        let mut want = spec_join(&marked[..first], d);
                        if first != 0 {
                            want += d;
                        }
                        if partial {
                            want += "[";
                        }
                        let f = join::<String, _>(Item::new(Some(&v[bad]), partial), d);
                        let (s, ok, after) = show(&f, &v, 100000);
                        eq(rep, "Join::write", "failing element", &format!("{what}, element {first} fails"), (want, false, false), (s, ok, after));
                    }
                }
            }
        }
    }
    // the items are shown once each, in order, and none after the failing one
    for n in 0..7usize {
        for bad in 0..=n {
            let v: Vec<String> = (0..n).map(|i| i.to_string()).collect();
            let item = Item::new(Some(&bad.to_string()), false);
            struct ByRef<'a>(&'a Item);
            impl DisplayFormat<String> for ByRef<'_> {
                fn write(&self, f: &mut fmt::Formatter, v: &String) -> fmt::Result {
                    self.0.write(f, v)
                }
            }
            show(&join::<String, _>(ByRef(&item), "-"), &v, 1000);
            let want: Vec<String> = v.iter().take(bad + 1).cloned().collect();
            eq(rep, "Join::write", "items shown", &format!("{v:?}, {bad} fails"), want, item.log.into_inner());
        }
    }
    // other collections
    let v: Vec<String> = ["x", "", "y"].iter().map(|s| s.to_string()).collect();
    let j = || delimiter::<String>("+");
    let want = ("x++y".to_string(), true, false);
    eq(rep, "Join::write", "slice", "[x, , y]", want.clone(), show(&j(), &v[..], 99));
    eq(rep, "Join::write", "array", "[x, , y]", want.clone(), show(&j(), &[v[0].clone(), v[1].clone(), v[2].clone()], 99));
    eq(rep, "Join::write", "VecDeque", "[x, , y]", want.clone(), show(&j(), &v.iter().cloned().collect::<VecDeque<_>>(), 99));
    eq(rep, "Join::write", "LinkedList", "[x, , y]", want, show(&j(), &v.iter().cloned().collect::<LinkedList<_>>(), 99));
    eq(rep, "Join::write", "BTreeSet", "{3,1,2}", ("1-2-3".to_string(), true, false), show(&delimiter::<i32>("-"), &BTreeSet::from([3, 1, 2]), 99));
    eq(rep, "Join::write", "Option", "Some(5)", ("5".to_string(), true, false), show(&delimiter::<i32>("-"), &Some(5), 99));
    eq(rep, "Join::write", "Option", "None", ("".to_string(), true, false), show(&delimiter::<i32>("-"), &None::<i32>, 99));
    eq(rep, "Join::write", "1000 elements", "0..1000", (spec_join(&(0..1000).map(|i| i.to_string()).collect::<Vec<_>>(), ", "), true, false), show(&delimiter::<i32>(", "), &(0..1000).collect::<Vec<i32>>(), 1 << 20));
    // an iterator that goes on after its first None must not be polled again; one that is not fused ends at the first None
    struct Odd(Vec<Option<i32>>);
    struct OddIter<'a>(&'a [Option<i32>], usize);
    impl<'a> Iterator for OddIter<'a> {
        type Item = &'a i32;
        fn next(&mut self) -> Option<&'a i32> {
            self.1 += 1;
            self.0.get(self.1 - 1)?.as_ref()
        }
    }
    impl<'a> IntoIterator for &'a Odd {
        type Item = &'a i32;
        type IntoIter = OddIter<'a>;
        fn into_iter(self) -> OddIter<'a> {
            OddIter(&self.0, 0)
        }
    }
    eq(rep, "Join::write", "iterator that resumes", "[None, 1]", ("".to_string(), true, false), show(&delimiter::<i32>("-"), &Odd(vec![None, Some(1)]), 99));
    eq(rep, "Join::write", "iterator that resumes", "[1, 2, None, 3]", ("1-2".to_string(), true, false), show(&delimiter::<i32>("-"), &Odd(vec![Some(1), Some(2), None, Some(3)]), 99));
    // nested
    let vv = vec![vec![1, 2], vec![], vec![3]];
    eq(rep, "Join::write", "nested", "[[1,2],[],[3]]", ("1,2;;3".to_string(), true, false), show(&join::<Vec<i32>, _>(delimiter::<i32>(","), ";"), &vv, 99));
}

fn parsing(rep: &mut Rep) {
    let mut r = R(rep.seed.wrapping_mul(57) | 1);
    let rounds = rep.n * 4;
    for d in DELIMS {
        let mut texts: Vec<String> = vec!["".into(), d.to_string(), d.repeat(2), d.repeat(3), format!("x{d}"), format!("{d}x"), format!("x{d}y{d}z"), "aaa".into(), "aaaa".into(), "ababa".into(), "x".into()];
        for _ in 0..rounds {
            let n = r.pick(7);
            let mut s = String::new();
            for _ in 0..n {
                s += if r.flag() { d } else { POOL[r.pick(POOL.len())] };
            }
            texts.push(s);
        }
        for s in texts {
            let what = format!("{s:?} split at {d:?}");
            let pieces = spec_split(&s, d);
            let got: Result<Vec<String>, _> = delimiter::<String>(d).parse(&s);
            eq(rep, "Join::parse", "delimiter(d)", &what, Ok(pieces.clone()), got.map_err(|e| e.to_string()));
            let mut bads: Vec<Option<String>> = pieces.iter().cloned().map(Some).collect();
            bads.push(None);
            for bad in bads {
                let item = Item::new(bad.as_deref(), false);
                struct ByRef<'a>(&'a Item);
                impl FromStrFormat<String> for ByRef<'_> {
                    type Err = String;
                    fn parse(&self, s: &str) -> Result<String, String> {
                        self.0.parse(s)
                    }
                }
                let got: Result<Vec<String>, String> = join::<String, _>(ByRef(&item), d).parse(&s);
                let pos = bad.as_ref().map(|b| pieces.iter().position(|p| p == b).unwrap());
                let want = match &bad {
                    Some(b) => Err(format!("bad {b}")),
                    None => Ok(pieces.iter().map(|p| format!("[{p}]")).collect()),
                };
                eq(rep, "Join::parse", "join(f, d)", &format!("{what}, piece {pos:?} fails"), want, got);
                let log = item.log.into_inner();
                let upto = pos.map_or(pieces.len(), |p| p + 1);
                eq(rep, "Join::parse", "pieces converted, in order", &format!("{what}, piece {pos:?} fails"), pieces[..upto].to_vec(), log[..upto.min(log.len())].to_vec());
            }
            // numbers: exactly the failing pieces make it fail
            let want: Option<Vec<u8>> = pieces.iter().map(|p| p.parse().ok()).collect();
            let got: Result<Vec<u8>, _> = delimiter::<u8>(d).parse(&s);
            eq(rep, "Join::parse", "delimiter::<u8>(d)", &what, want, got.ok());
            // split after join of pieces without the delimiter gives them back
            let got: Result<BTreeSet<String>, _> = delimiter::<String>(d).parse(&s);
            eq(rep, "Join::parse", "BTreeSet", &what, pieces.iter().cloned().collect::<BTreeSet<_>>(), got.unwrap());
            let got: Result<VecDeque<String>, _> = delimiter::<String>(d).parse(&s);
            eq(rep, "Join::parse", "VecDeque", &what, pieces.iter().cloned().collect::<VecDeque<_>>(), got.unwrap());
        }
    }
    let got: Result<Vec<Vec<u8>>, _> = join::<Vec<u8>, _>(delimiter::<u8>(","), ";").parse("1,2;3;4,5");
    eq(rep, "Join::parse", "nested", "1,2;3;4,5", Some(vec![vec![1, 2], vec![3], vec![4, 5]]), got.ok());
    let long: Vec<u32> = (0..1000).collect();
    let got: Result<Vec<u32>, _> = delimiter::<u32>(", ").parse(&spec_join(&long.iter().map(|x| x.to_string()).collect::<Vec<_>>(), ", "));
    eq(rep, "Join::parse", "1000 elements", "0, 1, .. 999", Some(long), got.ok());
}

struct Probe(i32);
impl fmt::Display for Probe {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("<p")?;
        write!(f, "{}", self.0)?;
        if self.0 < 0 { Err(fmt::Error) } else { f.write_str(">") }
    }
}
#[derive(Debug, PartialEq)]
struct Got(String);
#[derive(Debug, PartialEq)]
struct GotErr(String);
impl std::str::FromStr for Got {
    type Err = GotErr;
    fn from_str(s: &str) -> Result<Self, GotErr> {
        if s.contains('!') { Err(GotErr(s.into())) } else { Ok(Got(s.into())) }
    }
}
fn delegating(rep: &mut Rep) {
    for v in [-2, -1, 0, 1, 77] {
        let full = format!("<p{v}{}", if v < 0 { "" } else { ">" });
        for room in rooms(&full) {
            let want = (cut(&full, room), v >= 0 && full.len() <= room);
            let (s, ok, _) = show(&fmt(), &Probe(v), room);
            eq(rep, "Fmt::write", "fmt()", &format!("Probe({v}), {room} bytes"), want.clone(), (s, ok));
            let calls = RefCell::new(0);
            let g = fmt_display(|f: &mut fmt::Formatter, x: &Probe| {
                *calls.borrow_mut() += 1;
                write!(f, "{x}")
            });
            let (s, ok, _) = show(&g, &Probe(v), room);
            eq(rep, "fmt_display", "fmt_display(f)", &format!("Probe({v}), {room} bytes"), (want, 1), ((s, ok), *calls.borrow()));
        }
    }
    let (s, ok, _) = show(&fmt(), "str", 99);
    eq(rep, "Fmt::write", "fmt() of an unsized value", "str", ("str".to_string(), true), (s, ok));
    let g = fmt_display(|f: &mut fmt::Formatter, x: &str| write!(f, "{}", x.len()));
    eq(rep, "fmt_display", "unsized", "four", ("4".to_string(), true, false), show(&g, "four", 99));
    for s in POOL.iter().chain(&["!", "a!", " a ", "a b"]) {
        let want: Result<Got, GotErr> = s.parse();
        let got = <Fmt as FromStrFormat<Got>>::parse(&fmt(), s);
        eq(rep, "Fmt::parse", "fmt()", s, want, got);
        let calls = RefCell::new(vec![]);
        let g = fmt_from_str(|x: &str| {
            calls.borrow_mut().push(x.to_string());
            if x.len() % 2 == 0 { Ok(x.len()) } else { Err(x.to_string()) }
        });
        let got: Result<usize, String> = g.parse(s);
        drop(g);
        eq(rep, "fmt_from_str", "fmt_from_str(f)", s, (if s.len() % 2 == 0 { Ok(s.len()) } else { Err(s.to_string()) }, vec![s.to_string()]), (got, calls.into_inner()));
    }
}

#[derive(parse_display::Display, parse_display::FromStr, Debug, PartialEq)]
#[display("<{a}|{b}>")]
struct D {
    #[display(with = delimiter(", "))]
    a: Vec<u8>,
    #[display(with = join(delimiter("-"), "/"))]
    b: Vec<Vec<String>>,
}
fn derived(rep: &mut Rep) {
    let st = |x: &[&[&str]]| x.iter().map(|v| v.iter().map(|s| s.to_string()).collect()).collect::<Vec<Vec<String>>>();
    for (d, s) in [
        (D { a: vec![1, 2, 3], b: st(&[&["x", "y"], &["z"]]) }, "<1, 2, 3|x-y/z>"),
        (D { a: vec![255], b: st(&[&[""]]) }, "<255|>"),
        (D { a: vec![0, 0], b: st(&[&["", ""], &["", "q"], &[""]]) }, "<0, 0|-/-q/>"),
    ] {
        eq(rep, "derive", "Display", s, s.to_string(), d.to_string());
        eq(rep, "derive", "FromStr", s, Some(d), s.parse::<D>().ok());
    }
    for s in ["<|>", "<1,2|>", "<1, 2, |x>", "<256|x>", "<1, 2|x", "<1|x>y"] {
        let want = if s == "<1,2|>" { None } else { None };
        eq(rep, "derive", "FromStr", s, want, s.parse::<D>().ok());
    }
}
pub fn all(rep: &mut Rep) {
    writing(rep);
    parsing(rep);
    delegating(rep);
    derived(rep);
}
