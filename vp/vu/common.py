"""Spec vocabulary and assumed contracts shared by the units."""
STR_EXT = '''
// strings are equal when their characters are
#[verifier::external_body]
pub broadcast proof fn axiom_str_ext(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b { }
'''
# methods of str and String that the vstd of the installed Verus does not specify; the trait methods only forward
STR_X = '''
// the pieces of s between occurrences of d (str::split with a char)
pub open spec fn next_at(s: Seq<char>, d: char) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if s[0] == d { 0 } else { 1 + next_at(s.skip(1), d) }
}
pub open spec fn pieces(s: Seq<char>, d: char) -> Seq<Seq<char>> decreases s.len() via pieces_dec {
    let n = next_at(s, d);
    if 0 <= n < s.len() { seq![s.take(n)] + pieces(s.skip(n + 1), d) } else { seq![s] }
}
#[via_fn] proof fn pieces_dec(s: Seq<char>, d: char) { }
// the number an unsigned decimal text stands for (str::parse::<usize>): an optional `+` and at least one digit
pub open spec fn digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9' }
pub open spec fn value(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { value(s.drop_last()) * 10 + ((s.last() as u32 - '0' as u32) as nat) } }
pub open spec fn usize_of(s: Seq<char>) -> Option<usize> {
    let t = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if digits(t) && value(t) <= usize::MAX { Some(value(t) as usize) } else { None }
}
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
pub trait StrX {
    spec fn vw(&self) -> Seq<char>;
    fn vx_split<'a>(&'a self, d: char) -> (r: std::vec::IntoIter<&'a str>)
        ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.remaining().len() == pieces(self.vw(), d).len(),
            forall|i: int| 0 <= i < r.remaining().len() ==> (#[trigger] r.remaining()[i])@ == pieces(self.vw(), d)[i];
    fn vx_strip_prefix<'a>(&'a self, p: &str) -> (r: Option<&'a str>)
        ensures match r { Some(t) => starts(self.vw(), p@) && t@ == self.vw().skip(p@.len() as int), None => !starts(self.vw(), p@) };
    fn vx_into(&self) -> (r: String) ensures r@ == self.vw();
    fn vx_starts_with(&self, p: &str) -> (r: bool) ensures r == starts(self.vw(), p@);
    fn vx_parse(&self) -> (r: Result<usize, ()>) ensures match r { Ok(i) => usize_of(self.vw()) == Some(i), Err(_) => usize_of(self.vw()) is None };
}
impl StrX for str {
    open spec fn vw(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_split<'a>(&'a self, d: char) -> (r: std::vec::IntoIter<&'a str>) { self.split(d).collect::<Vec<_>>().into_iter() }
    #[verifier::external_body] fn vx_strip_prefix<'a>(&'a self, p: &str) -> (r: Option<&'a str>) { self.strip_prefix(p) }
    #[verifier::external_body] fn vx_into(&self) -> (r: String) { self.into() }
    #[verifier::external_body] fn vx_starts_with(&self, p: &str) -> (r: bool) { self.starts_with(p) }
    #[verifier::external_body] fn vx_parse(&self) -> (r: Result<usize, ()>) { self.parse().map_err(|_| ()) }
}
'''
RENAME = [(r'\.(split|strip_prefix|starts_with|parse|drain|into)\(', r'.vx_\1(')]
ASSUMED = ['str::{split(char), strip_prefix, starts_with, parse::<usize>, into::<String>} (assumed contracts on forwarding wrappers)']
