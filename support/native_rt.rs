// Native runtime: concrete leaf types, generators, the independent matcher and the comparison drivers.
#![allow(unused)]
use core::fmt::{self, Write as _};
use regex_syntax::hir::{Capture, Hir, HirKind, Look, Repetition};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct R(pub u64);
impl R {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = self.0;
        (x ^ (x >> 29)) >> 16
    }
    pub fn pick(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 0
    }
}

pub static FAILING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// A leaf value.  666 fails to format (after writing "!").
#[derive(PartialEq, Eq, Clone, Copy, PartialOrd, Ord)]
pub struct K(pub i32);
impl Default for K {
    fn default() -> Self {
        K(77)
    }
}
impl K {
    pub fn odd_default() -> Self {
        K(-999)
    }
    pub fn odd(&self) -> bool {
        self.0 % 2 != 0
    }
}
macro_rules! deleg {
    ($($t:ident)*) => {$(
        impl fmt::$t for K {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                if self.0 == 666 {
                    f.write_str("!")?;
                    return Err(fmt::Error);
                }
                fmt::$t::fmt(&self.0, f)
            }
        }
    )*};
}
deleg!(Display LowerHex UpperHex Octal Binary LowerExp UpperExp);
impl fmt::Debug for K {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.0 == 666 {
            f.write_str("!")?;
            return Err(fmt::Error);
        }
        f.write_str("K")?;
        fmt::Debug::fmt(&self.0, f)
    }
}
impl fmt::Pointer for K {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("P")?;
        fmt::LowerHex::fmt(&self.0, f)
    }
}
#[derive(Debug, PartialEq)]
pub struct KErr;
impl core::str::FromStr for K {
    type Err = KErr;
    fn from_str(s: &str) -> Result<Self, KErr> {
        s.parse().map(K).map_err(|_| KErr)
    }
}
impl super::common::Gen for K {
    fn gen(r: &mut R) -> Self {
        let x = [0, 1, 5, -3, 12, 255, 1000000, i32::MIN, i32::MAX, 42, 7, 10, 666][r.pick(13)];
        K(if x == 666 && !FAILING.load(std::sync::atomic::Ordering::Relaxed) { 66 } else { x })
    }
}
impl parse_display::FromStrRegex for K {
    fn from_str_regex() -> String {
        r"-?[0-9]+".into()
    }
}

/// A leaf that accepts every text.
#[derive(PartialEq, Eq, Clone, Debug, PartialOrd, Ord)]
pub struct S(pub String);
impl S {
    pub fn odd_default() -> Self {
        S("odd".into())
    }
}
impl Default for S {
    fn default() -> Self {
        S("dflt".into())
    }
}
impl fmt::Display for S {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.pad(&self.0)
    }
}
impl core::str::FromStr for S {
    type Err = KErr;
    fn from_str(s: &str) -> Result<Self, KErr> {
        Ok(S(s.into()))
    }
}
impl super::common::Gen for S {
    fn gen(r: &mut R) -> Self {
        S(["", "x", "ab", "a\nb", "é€", "{}", "1", "(?<a>.)", "z\\"][r.pick(9)].into())
    }
}
impl parse_display::FromStrRegex for S {
    fn from_str_regex() -> String {
        r"(?s:.*?)".into()
    }
}
macro_rules! gen_ints {
    ($($t:ident)*) => {$(
        impl super::common::Gen for $t {
            fn gen(r: &mut R) -> Self {
                [0 as $t, 1, 5, 9, 42, $t::MIN, $t::MAX, 100][r.pick(8)]
            }
        }
    )*};
}
gen_ints!(u8 u16 u32 u64 i8 i16 i32 i64 usize isize u128 i128);
impl super::common::Gen for f64 {
    fn gen(r: &mut R) -> Self {
        [0.0, 1.5, -2.25, 1e10, 123456.789, -0.0001, 1e-7][r.pick(7)]
    }
}
impl super::common::Gen for bool {
    fn gen(r: &mut R) -> Self {
        r.flag()
    }
}
impl super::common::Gen for char {
    fn gen(r: &mut R) -> Self {
        ['a', 'Z', '0', '\n', 'é', '{', '-'][r.pick(7)]
    }
}
impl super::common::Gen for String {
    fn gen(r: &mut R) -> Self {
        S::gen(r).0
    }
}
impl super::common::Gen for &'static str {
    fn gen(r: &mut R) -> Self {
        ["", "x", "ab", "a\nb", "é€", "{}", "1"][r.pick(7)]
    }
}
use super::common::Gen;

/// `with` format: shows `w` + value; parses `w` + value; its regex is the given pattern.
pub struct Wp(pub &'static str);
impl<T: fmt::Display + ?Sized> parse_display::DisplayFormat<T> for Wp {
    fn write(&self, f: &mut fmt::Formatter, value: &T) -> fmt::Result {
        f.write_str("w")?;
        value.fmt(f)
    }
}
impl<T: core::str::FromStr> parse_display::FromStrFormat<T> for Wp {
    type Err = KErr;
    fn parse(&self, s: &str) -> Result<T, KErr> {
        s.strip_prefix('w').unwrap_or("-").parse().map_err(|_| KErr)
    }
    fn regex_pattern(&self) -> String {
        self.0.to_string()
    }
}
/// `with` format that keeps the default (match-anything) pattern: shows `<v>`.
pub struct Wa;
impl<T: fmt::Display + ?Sized> parse_display::DisplayFormat<T> for Wa {
    fn write(&self, f: &mut fmt::Formatter, value: &T) -> fmt::Result {
        f.write_str("<")?;
        value.fmt(f)?;
        f.write_str(">")
    }
}
impl<T: core::str::FromStr> parse_display::FromStrFormat<T> for Wa {
    type Err = KErr;
    fn parse(&self, s: &str) -> Result<T, KErr> {
        s.strip_prefix('<').and_then(|s| s.strip_suffix('>')).unwrap_or("-").parse().map_err(|_| KErr)
    }
}
/// FromStr-only `with`: parses `q` + value with the given pattern.
pub struct Wq(pub &'static str);
impl<T: core::str::FromStr> parse_display::FromStrFormat<T> for Wq {
    type Err = KErr;
    fn parse(&self, s: &str) -> Result<T, KErr> {
        s.strip_prefix('q').unwrap_or("-").parse().map_err(|_| KErr)
    }
    fn regex_pattern(&self) -> String {
        self.0.to_string()
    }
}
pub fn pattern_of<T>(w: &impl parse_display::FromStrFormat<T>) -> String {
    w.regex_pattern()
}
pub fn infer_of<T: parse_display::FromStrRegex>() -> String {
    T::from_str_regex()
}

// ------------------------------------------------------------------ specification of matching
#[derive(Clone, Debug)]
pub enum It {
    Lit(&'static str),
    Any(usize),
    Pat(usize, String, bool),
    Raw(String),
    Opt(Vec<It>),
}
fn simple(items: &[It]) -> bool {
    items.iter().all(|i| match i {
        It::Lit(_) | It::Any(_) => true,
        It::Pat(..) | It::Raw(_) => false,
        It::Opt(v) => simple(v),
    })
}
type Caps = Vec<Option<(usize, usize)>>;
/// Whole-string, leftmost-first, lazy matching of literals / anything / lazily-optional items.
fn mini(items: &[It], s: &str, caps: &mut Caps, budget: &mut usize) -> bool {
    let q: Vec<&It> = items.iter().collect();
    mini_rec(&q, s, 0, caps, budget)
}
fn mini_rec(q: &[&It], s: &str, pos: usize, caps: &mut Caps, budget: &mut usize) -> bool {
    if *budget == 0 {
        panic!("mini matcher budget");
    }
    *budget -= 1;
    let Some((first, rest)) = q.split_first() else {
        return pos == s.len();
    };
    match first {
        It::Lit(t) => s[pos..].starts_with(t) && mini_rec(rest, s, pos + t.len(), caps, budget),
        It::Any(n) => {
            let old = caps[*n];
            for (i, _) in s[pos..].char_indices().chain([(s.len() - pos, ' ')]) {
                caps[*n] = Some((pos, pos + i));
                if mini_rec(rest, s, pos + i, caps, budget) {
                    return true;
                }
            }
            caps[*n] = old;
            false
        }
        It::Opt(v) => {
            if mini_rec(rest, s, pos, caps, budget) {
                return true;
            }
            let mut q2: Vec<&It> = v.iter().collect();
            q2.extend_from_slice(rest);
            mini_rec(&q2, s, pos, caps, budget)
        }
        _ => unreachable!(),
    }
}
fn strip_caps(h: &Hir) -> Hir {
    match h.kind() {
        HirKind::Capture(c) => strip_caps(&c.sub),
        HirKind::Concat(v) => Hir::concat(v.iter().map(strip_caps).collect()),
        HirKind::Alternation(v) => Hir::alternation(v.iter().map(strip_caps).collect()),
        HirKind::Repetition(r) => Hir::repetition(Repetition { sub: Box::new(strip_caps(&r.sub)), ..r.clone() }),
        _ => h.clone(),
    }
}
fn hir_of(s: &str) -> Hir {
    regex_syntax::Parser::new().parse(s).unwrap()
}
pub const ANY: &str = "(?s:.*?)";
fn cap(n: usize, sub: Hir) -> Hir {
    Hir::capture(Capture { index: n as u32, name: Some(format!("g{n}").into()), sub: Box::new(sub) })
}
pub fn items_hir(items: &[It]) -> Hir {
    Hir::concat(
        items
            .iter()
            .map(|i| match i {
                It::Lit(t) => Hir::literal(t.as_bytes()),
                It::Any(n) => cap(*n, hir_of(ANY)),
                It::Pat(n, p, true) => cap(*n, strip_caps(&hir_of(p))),
                It::Pat(n, p, false) => cap(*n, hir_of(p)),
                It::Raw(p) => hir_of(p),
                It::Opt(v) => Hir::repetition(Repetition { min: 0, max: Some(1), greedy: false, sub: Box::new(items_hir(v)) }),
            })
            .collect(),
    )
}
pub fn anchored(h: Hir) -> Hir {
    Hir::concat(vec![Hir::look(Look::Start), h, Hir::look(Look::End)])
}
/// The pattern's normal form with group names dropped (numbers kept).
pub fn normal(s: &str) -> Option<Hir> {
    fn go(h: &Hir) -> Hir {
        match h.kind() {
            HirKind::Capture(c) => Hir::capture(Capture { index: c.index, name: None, sub: Box::new(go(&c.sub)) }),
            HirKind::Concat(v) => Hir::concat(v.iter().map(go).collect()),
            HirKind::Alternation(v) => Hir::alternation(v.iter().map(go).collect()),
            HirKind::Repetition(r) => Hir::repetition(Repetition { sub: Box::new(go(&r.sub)), ..r.clone() }),
            _ => h.clone(),
        }
    }
    Some(go(&regex_syntax::Parser::new().parse(s).ok()?))
}
pub fn normal_nocap(s: &str) -> Option<Hir> {
    Some(strip_caps(&regex_syntax::Parser::new().parse(s).ok()?))
}

pub struct VS<T> {
    pub name: &'static str,
    pub lit: Option<&'static str>,
    pub items: fn() -> Vec<It>,
    pub ncaps: usize,
    pub build: fn(&dyn Fn(usize) -> Option<&'static str>) -> Result<T, &'static str>,
    pub fails: fn(&dyn Fn(usize) -> Option<&'static str>) -> Vec<&'static str>,
}
pub struct Prog<T> {
    pub name: &'static str,
    pub is_enum: bool,
    pub gen: fn(&mut R) -> T,
    pub variants: Vec<VS<T>>,
    pub inputs: Vec<&'static str>,
}
enum Matcher {
    Mini(Vec<It>, usize),
    Re(regex::Regex),
}
impl Matcher {
    fn new(items: Vec<It>, ncaps: usize) -> Self {
        if simple(&items) {
            Matcher::Mini(items, ncaps)
        } else {
            let h = anchored(items_hir(&items));
            Matcher::Re(regex::Regex::new(&h.to_string()).unwrap())
        }
    }
    fn run(&self, s: &str) -> Option<Vec<Option<(usize, usize)>>> {
        match self {
            Matcher::Mini(items, n) => {
                let mut c = vec![None; n + 1];
                let mut budget = 2_000_000;
                mini(items, s, &mut c, &mut budget).then_some(c)
            }
            Matcher::Re(re) => {
                let c = re.captures(s)?;
                Some((0..re.captures_len()).map(|i| c.get(i).map(|m| (m.start(), m.end()))).collect())
            }
        }
    }
}
fn st(s: &str) -> &'static str {
    // the specification closures only look at the text during the call
    unsafe { std::mem::transmute::<&str, &'static str>(s) }
}
pub struct Spec<'a, T> {
    p: &'a Prog<T>,
    m: Vec<Option<Matcher>>,
}
pub enum Out<T> {
    Ok(T),
    Err(Option<Vec<&'static str>>),
}
impl<'a, T> Spec<'a, T> {
    pub fn new(p: &'a Prog<T>) -> Self {
        Spec { p, m: p.variants.iter().map(|v| if v.lit.is_some() { None } else { Some(Matcher::new((v.items)(), v.ncaps)) }).collect() }
    }
    pub fn parse(&self, s: &str) -> Out<T> {
        for v in &self.p.variants {
            if v.lit == Some(s) {
                match (v.build)(&|_| None) {
                    Ok(x) => return Out::Ok(x),
                    Err(_) => break, // the text equals this variant's; patterns are tried next
                }
            }
        }
        let mut failing = None;
        for (v, m) in self.p.variants.iter().zip(&self.m) {
            let Some(m) = m else { continue };
            if let Some(c) = m.run(s) {
                let g = |n: usize| c.get(n).copied().flatten().map(|(a, b)| st(&s[a..b]));
                match (v.build)(&g) {
                    Ok(x) => return Out::Ok(x),
                    Err(_) => {
                        if !self.p.is_enum {
                            failing = Some((v.fails)(&g));
                        }
                    }
                }
            }
        }
        Out::Err(failing)
    }
}

// ------------------------------------------------------------------ reporting
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}
pub struct Rep {
    pub seed: u64,
    pub n: usize,
    pub evals: usize,
    pub nontrivial: usize,
    pub viols: usize,
    pub seen: std::collections::HashSet<String>,
}
impl Rep {
    pub fn viol(&mut self, prog: &str, kind: &str, input: &str, expected: &str, actual: &str) {
        self.viols += 1;
        if self.viols <= 20 {
            println!(
                "{{\"t\":\"viol\",\"prog\":\"{}\",\"kind\":\"{}\",\"input\":\"{}\",\"expected\":\"{}\",\"actual\":\"{}\"}}",
                esc(prog), esc(kind), esc(input), esc(expected), esc(actual)
            );
        }
    }
    pub fn stat(&mut self, prog: &str, kind: &str, evals: usize, nontrivial: usize, sample: &str) {
        self.evals += evals;
        self.nontrivial += nontrivial;
        println!(
            "{{\"t\":\"stat\",\"prog\":\"{}\",\"kind\":\"{}\",\"evals\":{},\"nontrivial\":{},\"sample\":\"{}\"}}",
            esc(prog), esc(kind), evals, nontrivial, esc(sample)
        );
    }
}

/// Sink that accepts `limit` bytes.
pub struct Sink {
    pub buf: String,
    pub limit: usize,
    pub bytes: Vec<u8>,
    pub after_err: bool,
    pub failed: bool,
}
impl Sink {
    pub fn new(limit: usize) -> Self {
        Sink { buf: String::new(), limit, bytes: vec![], after_err: false, failed: false }
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after_err = true;
        }
        for b in s.bytes() {
            if self.bytes.len() >= self.limit {
                self.failed = true;
                return Err(fmt::Error);
            }
            self.bytes.push(b);
        }
        Ok(())
    }
}
fn show(s: &Sink, r: fmt::Result) -> String {
    format!("{}{:?}", if r.is_ok() { "Ok " } else { "Err after " }, String::from_utf8_lossy(&s.bytes))
}
fn catch<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
    })
}

pub fn check_display<T: fmt::Display + fmt::Debug>(rep: &mut Rep, p: &str, gen: fn(&mut R) -> T, spec: fn(&T, &mut fmt::Formatter) -> fmt::Result) {
    let mut r = R(rep.seed.wrapping_add(p.len() as u64));
    let mut texts = std::collections::HashSet::new();
    let mut sample = String::new();
    let mut evals = 0;
    for i in 0..rep.n {
        FAILING.store(true, std::sync::atomic::Ordering::Relaxed);
        let v = gen(&mut r);
        FAILING.store(false, std::sync::atomic::Ordering::Relaxed);
        // the text is the format's whatever the flags of the placeholder that shows the value
        if i < 8 {
            let (mut a, mut b) = (Sink::new(usize::MAX), Sink::new(usize::MAX));
            let rb = write!(b, "{}", super::common::Wd(|f: &mut fmt::Formatter| spec(&v, f)));
            let ra = catch(|| match i % 4 { 0 => write!(a, "{:*>40}", v), 1 => write!(a, "{:+.1}", v), 2 => write!(a, "{:#012}", v), _ => write!(a, "{:_^9.3}", v) });
            evals += 1;
            let (bad, act) = match ra {
                Ok(ra) => (ra.is_ok() != rb.is_ok() || a.bytes != b.bytes, show(&a, ra)),
                Err(e) => (true, e),
            };
            if bad {
                rep.viol(p, "display", &format!("{}, in a placeholder with flags ({})", v_dbg(&v), ["{:*>40}", "{:+.1}", "{:#012}", "{:_^9.3}"][i % 4]), &show(&b, rb), &act);
                rep.stat(p, "display", evals, texts.len(), &sample);
                return;
            }
        }
        let mut limits = vec![usize::MAX];
        let mut k = 0;
        while k < limits.len() {
            let limit = limits[k];
            k += 1;
            let (mut a, mut b) = (Sink::new(limit), Sink::new(limit));
            let rb = write!(b, "{}", super::common::Wd(|f: &mut fmt::Formatter| spec(&v, f)));
            let ra = catch(|| write!(a, "{}", v));
            evals += 1;
            if limit == usize::MAX {
                let t = show(&b, rb);
                if i < 6 {
                    limits.extend(0..b.bytes.len().min(40));
                }
                if sample.is_empty() && b.bytes.len() > 0 {
                    sample = format!("{:?} shows {t}", v_dbg(&v));
                }
                texts.insert(t);
            }
            let (bad, act) = match ra {
                Ok(ra) => (ra.is_ok() != rb.is_ok() || a.bytes != b.bytes || (a.after_err && !b.after_err), show(&a, ra)),
                Err(e) => (true, e),
            };
            if bad {
                let lim = if limit == usize::MAX { String::new() } else { format!(", sink fails after {limit} bytes") };
                rep.viol(p, "display", &format!("{}{lim}", v_dbg(&v)), &show(&b, rb), &act);
                rep.stat(p, "display", evals, texts.len(), &sample);
                return;
            }
        }
    }
    rep.stat(p, "display", evals, texts.len(), &sample);
}
fn v_dbg<T: fmt::Debug>(v: &T) -> String {
    catch(|| {
        let mut s = String::new();
        let _ = write!(s, "{v:?}");
        s
    })
    .unwrap_or_default()
}

const POOL: &[&str] = &["1", "", "12", "-3", "0", "x", "a\nb", "+5", "é", "w5", "q7", "<9>", "1-2", "(", "42", " ", "77", "a.b", "2147483648", "\\", "{}"];

pub fn candidates<T>(p: &Prog<T>, seed: u64, n: usize) -> Vec<String> {
    let mut r = R(seed ^ 0x5eed ^ p.name.len() as u64);
    let mut out: Vec<String> = p.inputs.iter().map(|s| s.to_string()).collect();
    let mut seen = std::collections::HashSet::new();
    let mut lits: Vec<String> = vec![];
    fn render(items: &[It], r: &mut R, o: &mut String, lits: &mut Vec<String>, first: bool) {
        for i in items {
            match i {
                It::Lit(t) => {
                    o.push_str(t);
                    lits.push(t.to_string());
                }
                It::Any(_) => o.push_str(POOL[if first { 0 } else { r.pick(POOL.len()) }]),
                It::Pat(_, p, _) | It::Raw(p) => {
                    // sample from the pattern, or put pool text
                    if r.pick(5) == 0 {
                        o.push_str(POOL[r.pick(POOL.len())])
                    } else {
                        sample(&hir_of(p), r, o)
                    }
                }
                It::Opt(v) => {
                    if r.pick(2) == 0 {
                        render(v, r, o, lits, first)
                    }
                }
            }
        }
    }
    fn sample(h: &Hir, r: &mut R, o: &mut String) {
        match h.kind() {
            HirKind::Empty | HirKind::Look(_) => {}
            HirKind::Literal(l) => o.push_str(std::str::from_utf8(&l.0).unwrap_or("")),
            HirKind::Class(c) => {
                if let regex_syntax::hir::Class::Unicode(c) = c {
                    let rs = c.ranges();
                    if !rs.is_empty() {
                        let g = rs[r.pick(rs.len())];
                        let (a, b) = (g.start() as u32, (g.end() as u32).min(g.start() as u32 + 200));
                        let c = char::from_u32(a + r.next() as u32 % (b - a + 1)).unwrap_or(g.start());
                        o.push(if r.pick(4) == 0 { g.end() } else if a < 32 && r.flag() { ' ' } else { c });
                    }
                } else if let regex_syntax::hir::Class::Bytes(c) = c {
                    if let Some(g) = c.ranges().first() {
                        o.push(g.start() as char)
                    }
                }
            }
            HirKind::Repetition(x) => {
                let max = x.max.unwrap_or(x.min + 3).min(x.min + 3);
                for _ in 0..x.min + r.pick((max - x.min + 1) as usize) as u32 {
                    sample(&x.sub, r, o)
                }
            }
            HirKind::Capture(c) => sample(&c.sub, r, o),
            HirKind::Concat(v) => v.iter().for_each(|h| sample(h, r, o)),
            HirKind::Alternation(v) => sample(&v[r.pick(v.len())], r, o),
        }
    }
    let mut base: Vec<String> = vec![];
    for v in &p.variants {
        if let Some(l) = v.lit {
            base.push(l.to_string());
            lits.push(l.to_string());
            continue;
        }
        let items = (v.items)();
        for k in 0..n {
            let mut o = String::new();
            render(&items, &mut r, &mut o, &mut lits, k == 0);
            base.push(o);
        }
    }
    out.extend(base.iter().cloned());
    let muts: Vec<String> = {
        let mut b: Vec<String> = p.inputs.iter().map(|s| s.to_string()).collect();
        b.extend(base);
        b.dedup();
        b
    };
    let step = (muts.len() / 24).max(1);
    for s in muts.iter().step_by(step) {
        for c in ["x", "\n", " ", "1", "w"] {
            out.push(format!("{c}{s}"));
            out.push(format!("{s}{c}"));
        }
        let idx: Vec<usize> = s.char_indices().map(|x| x.0).collect();
        for &i in idx.iter().take(24) {
            let c = s[i..].chars().next().unwrap();
            let e = i + c.len_utf8();
            out.push(format!("{}{}", &s[..i], &s[e..])); // delete
            out.push(format!("{}{c}{}", &s[..i], &s[i..])); // double
            for d in ["x", "\n", "0"] {
                out.push(format!("{}{d}{}", &s[..i], &s[e..])); // replace
            }
            let sw: String = if c.is_lowercase() { c.to_uppercase().collect() } else { c.to_lowercase().collect() };
            out.push(format!("{}{sw}{}", &s[..i], &s[e..]));
            out.push(format!("{}x{}", &s[..i], &s[i..]));
        }
    }
    // all short strings over the characters of the literals
    let mut al: Vec<char> = vec!['1', 'x', '\n'];
    for l in &lits {
        for c in l.chars() {
            if !al.contains(&c) && al.len() < 9 {
                al.push(c)
            }
        }
    }
    let mut layer = vec![String::new()];
    for _ in 0..3 {
        out.extend(layer.iter().cloned());
        layer = layer.iter().flat_map(|s| al.iter().map(move |c| format!("{s}{c}"))).collect();
    }
    out.extend(layer.into_iter().step_by(3));
    out.retain(|s| s.len() < 200 && seen.insert(s.clone()));
    out
}

pub fn check_from_str<T: core::str::FromStr<Err = parse_display::ParseError> + PartialEq + fmt::Debug>(rep: &mut Rep, p: &Prog<T>, extra: Vec<String>) {
    let spec = match catch(|| Spec::new(p)) {
        Ok(s) => s,
        Err(e) => panic!("oracle of {}: {e}", p.name),
    };
    let mut cands = candidates(p, rep.seed, rep.n);
    cands.extend(extra);
    let (mut oks, mut errs) = (0usize, 0usize);
    let mut sample = String::new();
    for s in &cands {
        let want = spec.parse(s);
        let got = catch(|| T::from_str(s));
        let show_want = match &want {
            Out::Ok(v) => format!("Ok({})", v_dbg(v)),
            Out::Err(f) => format!("Err (failing fields {f:?})"),
        };
        let bad = match (&want, &got) {
            (Out::Ok(a), Ok(Ok(b))) => {
                oks += 1;
                sample = format!("{s:?} parses to {}", v_dbg(b));
                a != b
            }
            (Out::Err(f), Ok(Err(e))) => {
                errs += 1;
                // a failed conversion names a failing field
                match f {
                    Some(f) if !f.is_empty() => {
                        let m = e.to_string();
                        !f.iter().any(|k| m.contains(&format!("`{k}`")))
                    }
                    _ => false,
                }
            }
            _ => true,
        };
        if bad {
            let act = match got {
                Ok(Ok(v)) => format!("Ok({})", v_dbg(&v)),
                Ok(Err(e)) => format!("Err({:?})", e),
                Err(e) => e,
            };
            rep.viol(p.name, "from_str", s, &show_want, &act);
            break;
        }
    }
    rep.stat(p.name, "from_str", cands.len(), oks, &format!("{sample}; {oks} accepted, {errs} rejected"));
}

pub fn check_roundtrip<T: fmt::Display + core::str::FromStr<Err = parse_display::ParseError> + PartialEq + fmt::Debug>(
    rep: &mut Rep, p: &str, gen: fn(&mut R) -> T, ok: fn(&T) -> bool,
) {
    let mut r = R(rep.seed ^ 77);
    let mut texts = std::collections::HashSet::new();
    let mut sample = String::new();
    let mut n = 0;
    for _ in 0..rep.n * 2 {
        let v = gen(&mut r);
        if !ok(&v) {
            continue;
        }
        n += 1;
        let got = catch(|| {
            let s = v.to_string();
            let r = T::from_str(&s);
            (s, r)
        });
        match got {
            Ok((s, Ok(w))) if w == v => {
                sample = format!("{:?} round-trips", s);
                texts.insert(s);
            }
            Ok((s, w)) => {
                rep.viol(p, "roundtrip", &format!("{} shown as {s:?}", v_dbg(&v)), &v_dbg(&v), &format!("{w:?}"));
                break;
            }
            Err(e) => {
                rep.viol(p, "roundtrip", &v_dbg(&v), &v_dbg(&v), &e);
                break;
            }
        }
    }
    rep.stat(p, "roundtrip", n, texts.len(), &sample);
}

// ------------------------------------------------------------------ regex obligations
use regex_automata::dfa::{dense, Automaton, StartKind};
use regex_automata::util::start;
use regex_automata::{Anchored, MatchKind};
pub type Dfa = dense::DFA<Vec<u32>>;
/// DFA of the strings the pattern matches as a whole.
pub fn dfa(h: &Hir) -> Option<Dfa> {
    let h = anchored(h.clone());
    let nfa = regex_automata::nfa::thompson::Compiler::new().configure(regex_automata::nfa::thompson::Config::new().which_captures(regex_automata::nfa::thompson::WhichCaptures::None)).build_from_hir(&h).ok()?;
    dense::Builder::new()
        .configure(dense::Config::new().start_kind(StartKind::Anchored).match_kind(MatchKind::All).dfa_size_limit(Some(40 << 20)).determinize_size_limit(Some(80 << 20)))
        .build_from_nfa(&nfa)
        .ok()
}
pub fn dfa_str(s: &str) -> Option<Dfa> {
    dfa(&regex_syntax::Parser::new().parse(s).ok()?)
}
fn dfa_start(d: &Dfa) -> regex_automata::util::primitives::StateID {
    d.start_state(&start::Config::new().anchored(Anchored::Yes)).unwrap()
}
/// A shortest string that only one of the two (`both`) or only the first (`!both`) matches.
pub fn lang_diff(a: &Dfa, b: &Dfa, both: bool) -> Option<(String, bool)> {
    let s = (dfa_start(a), dfa_start(b));
    let mut prev = std::collections::HashMap::new();
    prev.insert(s, None);
    let mut q = std::collections::VecDeque::from([s]);
    let mut reps: Vec<u8> = vec![];
    let mut seen = std::collections::HashSet::new();
    for x in 0..=255u8 {
        if seen.insert((a.byte_classes().get(x), b.byte_classes().get(x))) {
            reps.push(x);
        }
    }
    reps.sort_by_key(|b| !(b.is_ascii_alphanumeric() || *b == b' '));
    while let Some((x, y)) = q.pop_front() {
        let (ma, mb) = (a.is_match_state(a.next_eoi_state(x)), b.is_match_state(b.next_eoi_state(y)));
        if ma != mb && (both || ma) {
            let mut out = vec![];
            let mut c = (x, y);
            while let Some(Some((p, byte))) = prev.get(&c) {
                out.push(*byte);
                c = *p;
            }
            out.reverse();
            return Some((String::from_utf8_lossy(&out).into_owned(), ma));
        }
        if a.is_dead_state(x) && b.is_dead_state(y) {
            continue;
        }
        for &byte in &reps {
            let n = (a.next_state(x, byte), b.next_state(y, byte));
            if !prev.contains_key(&n) {
                prev.insert(n, Some(((x, y), byte)));
                q.push_back(n);
            }
        }
    }
    None
}
/// Compares the regexes the real code builds with the specified ones; returns strings on which they differ.
pub fn check_regex<T: core::str::FromStr>(rep: &mut Rep, p: &Prog<T>) -> Vec<String> {
    let real = parse_display::log_regexes(|| catch(|| T::from_str("\u{10ffff}\u{10fffe}").is_ok()));
    let (log, _) = real;
    let mut diffs = vec![];
    let mut exp: Vec<(usize, String, Option<Hir>, Hir)> = vec![];
    for (i, v) in p.variants.iter().enumerate() {
        if v.lit.is_none() {
            let h = anchored(items_hir(&(v.items)()));
            let s = h.to_string();
            exp.push((i, s.clone(), normal(&s), h));
        }
    }
    let mut used = vec![false; log.len()];
    let mut hits: Vec<Option<usize>> = vec![];
    for (_, _, eh, _) in &exp {
        let hit = (0..log.len()).find(|&k| !used[k] && eh.is_some() && normal(&log[k].1) == *eh);
        if let Some(k) = hit {
            used[k] = true;
        }
        hits.push(hit);
    }
    let rest: Vec<usize> = (0..log.len()).filter(|&k| !used[k]).collect();
    let missing = hits.iter().filter(|h| h.is_none()).count();
    let mut rest_it = rest.iter();
    for ((i, es, _, eh), hit) in exp.iter().zip(&hits) {
        let name = p.variants[*i].name;
        let (mut status, mut k, mut diff) = ("equal", *hit, String::new());
        if hit.is_none() {
            status = "differs";
            if rest.len() == missing {
                k = rest_it.next().copied();
                if let (Some(a), Some(b)) = (k.and_then(|k| dfa_str(&log[k].1)), dfa(eh)) {
                    match lang_diff(&a, &b, true) {
                        None => status = "same_language",
                        Some((s, in_real)) => {
                            status = "language_differs";
                            diff = format!("{s:?} is {} by the pattern built", if in_real { "matched" } else { "not matched" });
                            diffs.push(s);
                        }
                    }
                }
            }
        }
        println!(
            "{{\"t\":\"regex\",\"prog\":\"{}\",\"variant\":\"{}\",\"idx\":{},\"status\":\"{}\",\"expected\":\"{}\",\"src\":\"{}\",\"built\":\"{}\",\"diff\":\"{}\"}}",
            esc(p.name), esc(name), i, status, esc(es),
            esc(k.map(|k| log[k].0.as_str()).unwrap_or("")), esc(k.map(|k| log[k].1.as_str()).unwrap_or("")), esc(&diff)
        );
    }
    diffs
}
pub fn run_prog(rep: &mut Rep, name: &str, f: fn(&mut Rep)) {
    if let Err(e) = catch(|| f(rep)) {
        println!("{{\"t\":\"oracle_error\",\"prog\":\"{}\",\"msg\":\"{}\"}}", esc(name), esc(&e));
    }
}

/// FromStrRegex: the pattern's language is the set of texts the type's own matching accepts.
pub fn check_fsr<T: core::str::FromStr + parse_display::FromStrRegex>(rep: &mut Rep, p: &Prog<T>) {
    let src = match catch(|| T::from_str_regex()) {
        Ok(s) => s,
        Err(e) => return rep.viol(p.name, "from_str_regex", "", "a pattern", &e),
    };
    let Ok(re) = regex::Regex::new(&src) else {
        return rep.viol(p.name, "from_str_regex", &src, "a valid regex", "invalid");
    };
    if re.capture_names().flatten().next().is_some() {
        return rep.viol(p.name, "from_str_regex", &src, "no named groups", "a named group");
    }
    let mut alts = vec![];
    for v in &p.variants {
        alts.push(match v.lit {
            Some(l) => Hir::literal(l.as_bytes()),
            None => items_hir(&(v.items)()),
        });
    }
    let spec = strip_caps(&if alts.is_empty() { Hir::fail() } else { Hir::alternation(alts) });
    let real = regex_syntax::Parser::new().parse(&src).unwrap();
    rep.evals += 1;
    match (dfa(&real), dfa(&spec)) {
        (Some(a), Some(b)) => {
            rep.nontrivial += 1;
            match lang_diff(&a, &b, true) {
                None => println!("{{\"t\":\"fsr\",\"prog\":\"{}\",\"status\":\"ok\",\"src\":\"{}\"}}", esc(p.name), esc(&src)),
                Some((s, in_real)) => {
                    let (x, y) = ("accepts this text", "does not accept this text");
                    rep.viol(p.name, "from_str_regex", &s, &format!("T's own matching {}", if in_real { y } else { x }), &format!("from_str_regex() = {src:?} {}", if in_real { x } else { y }));
                }
            }
        }
        _ => println!("{{\"t\":\"fsr\",\"prog\":\"{}\",\"status\":\"undecided\",\"src\":\"{}\"}}", esc(p.name), esc(&src)),
    }
}
