from vx import *
from vu.common import *

PRE = STR_EXT + '''
pub struct FmtError { pub x: u8 }
pub struct Infallible { pub x: u8 }
pub struct Formatter { pub out: Ghost<Seq<char>> }
impl Formatter {
    #[verifier::external_body] pub fn write_str(f: &mut Formatter, s: &str) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(f).out@ == old(f).out@ + s@ { unimplemented!() }
}
// any item format: what it writes and whether it succeeds is up to it
pub trait DisplayFormat<T> {
    spec fn wrote(&self, t: T, before: Seq<char>, after: Seq<char>, r: Result<(), FmtError>) -> bool;
    fn write(&self, f: &mut Formatter, value: &T) -> (r: Result<(), FmtError>) ensures self.wrote(*value, old(f).out@, final(f).out@, r);
}
pub trait VxOr { fn vx_or(self, o: String) -> String; }
impl VxOr for Option<String> { fn vx_or(self, o: String) -> (r: String) ensures r == (match self { Some(s) => s, None => o }) { match self { Some(s) => s, None => o } } }
pub trait FromStrFormat<T> {
    type Err;
    spec fn parsed(&self, s: Seq<char>) -> Result<T, Self::Err>;
    spec fn pattern(&self) -> Seq<char>;
    fn parse(&self, s: &str) -> (r: Result<T, Self::Err>) ensures r == self.parsed(s@);
    fn regex_pattern(&self) -> (r: String) ensures r@ == self.pattern();
}
// the two methods a format implements, of which regex_pattern is made
pub trait Pattern { spec fn own(&self) -> Option<Seq<char>>; fn regex(&self) -> (r: Option<String>) ensures match r { Some(p) => self.own() == Some(p@), None => self.own() is None }; }
// what Display and Pointer of a type write
pub trait Display { spec fn shows(&self, before: Seq<char>, after: Seq<char>, r: Result<(), FmtError>) -> bool; fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) ensures self.shows(old(f).out@, final(f).out@, r); }
#[verifier::external_body] pub fn vx_write<T: Display>(f: &mut Formatter, value: &T) -> (r: Result<(), FmtError>) ensures value.shows(old(f).out@, final(f).out@, r) { unimplemented!() }
pub trait Pointer { spec fn points(&self, before: Seq<char>, after: Seq<char>, r: Result<(), FmtError>) -> bool; fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) ensures self.points(old(f).out@, final(f).out@, r); }

// what FromStr and Display of a type do
pub trait FromStr: Sized { type Err; spec fn value_of(s: Seq<char>) -> Result<Self, Self::Err>; fn from_str(s: &str) -> (r: Result<Self, Self::Err>) ensures r == Self::value_of(s@); }
#[verifier::external_body] pub fn vx_parse<T: FromStr>(s: &str) -> (r: Result<T, T::Err>) ensures r == T::value_of(s@) { unimplemented!() }
pub trait FromStrRegex: FromStr { spec fn re() -> Seq<char>; fn from_str_regex() -> (r: String) ensures r@ == Self::re(); }
#[verifier::external_body] pub fn vx_eq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] pub fn vx_into(s: &str) -> (r: String) ensures r@ == s@ { s.into() }
#[verifier::external_body] pub struct Ast { x: u8 }
pub uninterp spec fn ast_of(s: Seq<char>) -> Ast;
// fails (panics) on what is no pattern, or has a named group
#[verifier::external_body] pub fn ast_from_str(s: &str) -> (r: Ast) ensures r == ast_of(s@) { unimplemented!() }
'''
RES = [(r'(?:::)?core::result::Result', 'Result'), (r'fmt::Result', 'Result<(), FmtError>'), (r'fmt::Formatter<\'_>', 'Formatter'), (r'fmt::Formatter', 'Formatter')]
SELF = [(r'\bself\b', 'vx_self')]
DYN = [(r'<T, E>', '<T, F: FromStrFormat<T>>'), (r'&dyn FromStrFormat<T, Err = E>', '&F')]
UNIT = Unit('helpers', PRE, [
    Const('ANY_REGEX', crate='core', subs=[(r'&str', "&'static str")]),
    Ty('ParseError', crate='core', subs=[(r"\(&'static str\)", "(pub &'static str)")]), Ty('Formatted', crate='core', subs=[(r', T: \?Sized, F: DisplayFormat<T>', ', T, F')]), Ty('OptionFormatHelper', crate='core'), Ty('RegexInfer', crate='core'), Ty('FmtPointer', crate='core', subs=[(r'T: \?Sized \+ fmt::Pointer', 'T'), (r"\(&'a T\)", "(pub &'a T)")]),
    Fn('ParseError', 'with_message', crate='core', spec='    ensures r.0@ == message@,'),
    Fn('ParseError', 'new', crate='core', spec='    ensures r.0@ == "parse failed."@,'),
    Fn('', 'parse_with', crate='core', spec='    ensures r == fmt.parsed(s@),'),
    Fn("fmt::Display for Formatted<'_, T, F>", 'fmt', crate='core', emit_owner="impl<'a, T, F: DisplayFormat<T>> Formatted<'a, T, F>", sig=RES,
       spec='    ensures self.format.wrote(*self.value, old(f).out@, final(f).out@, r),'),
    Fn("Display for OptionFormatHelper<'a, T, F>", 'fmt', crate='core', emit_owner="impl<'a, T, F: DisplayFormat<T>> OptionFormatHelper<'a, T, F>", sig=RES,
       subs=[(r'\(self\.f\)\((\w+), (\w+)\)', r'self.f.write(\2, \1)')],
       spec='''    ensures *self.value is None && r is Ok ==> final(f).out@ == old(f).out@ + self.none_value@,
        *self.value is Some ==> self.f.wrote(self.value->0, old(f).out@, final(f).out@, r),'''),
    Fn('Display for ParseError', 'fmt', crate='core', emit_owner='impl ParseError', sig=RES + [(r'-> Result\b(?!<)', '-> Result<(), FmtError>')], subs=[(r'write!\(f, "\{\}", ([\w.]+)\)', r'Formatter::write_str(f, \1)')], spec='    ensures r is Ok ==> final(f).out@ == old(f).out@ + self.0@,'),
    # `{:p}` of a field: the pointer the field is, not one to it
    Fn("fmt::Pointer for FmtPointer<'_, T>", 'fmt', crate='core', emit_owner="impl<'a, T: Pointer> FmtPointer<'a, T>", rename='fmt_p', sig=RES, subs=[(r'fmt::Pointer::fmt\(', 'Pointer::fmt(')], spec='    ensures self.0.points(old(f).out@, final(f).out@, r),'),
    Fn('', 'fmt_pointer', crate='core', sig=[(r"T: \?Sized \+ fmt::Pointer", 'T: Pointer'), (r"impl fmt::Pointer \+ '_", "FmtPointer<'_, T>")], spec='    ensures r.0 == value,'),
    # the three conversions of the value of `new`
    Fn('IntoResult<T> for T', 'into_result', crate='core', emit_owner='', rename='into_result_value', sig=RES + [(r'fn into_result\(self\)', 'fn into_result<T>(vx_self: T)'), (r'Self::Err', 'Infallible')], subs=SELF,
       spec='    ensures r == Ok::<T, Infallible>(vx_self),'),
    Fn('IntoResult<T> for Option<T>', 'into_result', crate='core', emit_owner='', rename='into_result_option', sig=RES + [(r'fn into_result\(self\)', 'fn into_result<T>(vx_self: Option<T>)'), (r'Self::Err', 'ParseError')],
       subs=SELF, spec='    ensures match vx_self { Some(t) => r is Ok && r->Ok_0 == t, None => r is Err },'),
    Fn('IntoResult<T> for core::result::Result<T, E>', 'into_result', crate='core', emit_owner='', rename='into_result_result',
       sig=RES + [(r'fn into_result\(self\)', 'fn into_result<T, E>(vx_self: Result<T, E>)')], subs=SELF, spec='    ensures r == vx_self,'),
    # a format without a pattern of its own matches anything
    Fn('', 'to_regex', crate='core', sig=DYN, subs=[(r'\b(\w+) == ANY_REGEX', r'vx_eq(&\1, ANY_REGEX)')],
       spec='    ensures match r { Some(p) => p@ == format.pattern() && format.pattern() != ANY_REGEX@, None => format.pattern() == ANY_REGEX@ },'),
    Fn('', 'to_ast', crate='core', sig=DYN, subs=[(r'\b(\w+) == ANY_REGEX', r'vx_eq(&\1, ANY_REGEX)')],
       spec='    ensures match r { Some((p, a)) => p@ == format.pattern() && a == ast_of(p@) && format.pattern() != ANY_REGEX@, None => format.pattern() == ANY_REGEX@ },'),
    Fn('FromStrFormat<T> for RegexInfer', 'parse', crate='core', emit_owner='impl RegexInfer', sig=RES + [(r'fn parse\(', 'fn parse<T: FromStrRegex>('), (r'Self::Err', 'T::Err')], subs=[(r'(\w+)\.parse\(\)', r'vx_parse(\1)')],
       spec='    ensures r == T::value_of(s@),'),
    Fn('FromStrFormat<T> for RegexInfer', 'regex', crate='core', emit_owner='impl RegexInfer', sig=[(r'fn regex\(', 'fn regex<T: FromStrRegex>(')], spec='    ensures r is Some && r->0@ == T::re(),'),
    Fn('trait FromStrFormat<T>', 'regex_pattern', crate='core', emit_owner='', rename='regex_pattern_of', sig=[(r'fn regex_pattern\(&self\)', 'fn regex_pattern<P: Pattern>(vx_self: &P)')], subs=SELF + [(r'(ANY_REGEX)\.into\(\)', r'vx_into(\1)'), (r'\.unwrap_or\(', '.vx_or(')],
       spec='    ensures r@ == (match vx_self.own() { Some(p) => p, None => ANY_REGEX@ }),'),
    Fn('DisplayFormat<T> for RegexInfer', 'write', crate='core', emit_owner='impl RegexInfer', sig=RES + [(r'fn write\(', 'fn write<T: Display>(')], spec='    ensures value.shows(old(f).out@, final(f).out@, r),'),
    Ty('Fmt', crate='with'),
    Fn('DisplayFormat<T> for Fmt', 'write', crate='with', emit_owner='impl Fmt', sig=RES + [(r'fn write\(', 'fn write<T: Display>(')], subs=[(r'write!\(f, "\{(\w+)\}"\)', r'vx_write(f, \1)')], spec='    ensures value.shows(old(f).out@, final(f).out@, r),'),
    Fn('FromStrFormat<T> for Fmt', 'parse', crate='with', emit_owner='impl Fmt', sig=[(r'fn parse\(', 'fn parse<T: FromStr>('), (r'Self::Err', 'T::Err')], subs=[(r'(\w+)\.parse\(\)', r'vx_parse(\1)')],
       spec='    ensures r == T::value_of(s@),'),
], assumed=['any item format, any FromStr, any FromStrRegex, any Display or Pointer (uninterpreted)', 'Formatter::write_str (assumed contract)', 'ast_from_str (assumed: a function of its text)'])
