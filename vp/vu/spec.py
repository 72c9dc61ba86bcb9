from vx import *
from vu.common import *

RE = r'"(?:[^"\\]|\\.)*"'  # any pattern: vp/specre.py decides that it has the shape assumed here and agrees with std's grammar
NAMES = 'fill align sign is_alternate is_zero width_integer width_arg precision_input precision_integer precision_arg format_type'.split()
TYPES = [('', 'Display'), ('?', 'Debug'), ('x?', 'DebugLowerHex'), ('X?', 'DebugUpperHex'), ('o', 'Octal'), ('x', 'LowerHex'), ('X', 'UpperHex'), ('p', 'Pointer'), ('b', 'Binary'),
         ('e', 'LowerExp'), ('E', 'UpperExp')]
TRAITS = {'DebugLowerHex': 'Debug', 'DebugUpperHex': 'Debug'}
REV = 'broadcast use axiom_str_ext;\nproof { ' + ' '.join('reveal_strlit("%s");' % x for x in sorted({t for t, _ in TYPES} | {'<', '>', '^', '+', '-'})) + ' }\n'
REVN = 'proof { ' + ' '.join('reveal_strlit("%s");' % x for x in NAMES) + ' }\n'
PRE = STR_EXT + STR_X.split('pub open spec fn starts')[0] + '''
pub struct FmtError { pub x: u8 }
pub struct Formatter { pub out: Ghost<Seq<char>> }
#[verifier::external_body] pub fn vx_write_str(f: &mut Formatter, s: &str) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(f).out@ == old(f).out@ + s@ { unimplemented!() }
// ---- the documented meaning: spec letters, traits, alignments
pub open spec fn letters(t: FormatType) -> Seq<char> { match t { %s } }
pub open spec fn trait_of(t: FormatType) -> Seq<char> { match t { %s } }
pub open spec fn type_of(s: Seq<char>) -> Option<FormatType> { %s { None } }
pub open spec fn align_of(s: Seq<char>) -> Option<Align> { if s == "<"@ { Some(Align::Left) } else if s == ">"@ { Some(Align::Right) } else if s == "^"@ { Some(Align::Center) } else { None } }
pub open spec fn sign_of(s: Seq<char>) -> Option<Sign> { if s == "+"@ { Some(Sign::Plus) } else if s == "-"@ { Some(Sign::Minus) } else { None } }
// ---- what the pattern captures (its shape and its agreement with std's grammar are decided by vp/specre.py on the pattern's text)
pub struct Groups { %s }
pub uninterp spec fn groups_of(s: Seq<char>) -> Option<Groups>;
// read off the pattern: a group that takes part has a text of its class
pub open spec fn sane(g: Groups) -> bool {
    (g.fill is Some ==> g.fill->0.len() == 1) && (g.align is Some ==> align_of(g.align->0) is Some) && (g.sign is Some ==> sign_of(g.sign->0) is Some)
    && (g.width_integer is Some ==> digits(g.width_integer->0)) && (g.precision_integer is Some ==> digits(g.precision_integer->0)) && g.format_type is Some
}
pub struct Rx { pub x: u8 }
pub struct Mat<'t> { pub txt: Ghost<Seq<char>>, pub x: &'t str }
impl<'t> Mat<'t> { #[verifier::external_body] pub fn as_str(&self) -> (r: &'t str) ensures r@ == self.txt@ { unimplemented!() } }
pub struct Caps<'t> { pub g: Ghost<Groups>, pub x: &'t str }
pub open spec fn group(g: Groups, n: Seq<char>) -> Option<Seq<char>> { %s { None } }
impl<'t> Caps<'t> {
    #[verifier::external_body] pub fn name(&self, n: &str) -> (r: Option<Mat<'t>>)
        ensures match group(self.g@, n@) { Some(t) => r is Some && r->0.txt@ == t, None => r is None } { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct Span { pub x: u8 } pub struct SynError { pub span: Span }
#[verifier::external_body] pub fn vx_regex() -> (r: Rx) { unimplemented!() }
impl Rx {
    #[verifier::external_body] pub fn captures<'t>(&self, s: &'t str) -> (r: Option<Caps<'t>>)
        ensures match r { Some(c) => groups_of(s@) == Some(c.g@) && sane(c.g@), None => groups_of(s@) is None } { unimplemented!() }
}
// str::parse, at the three types it is used with here
pub trait VxParse<T> { type Err; spec fn means(&self) -> Option<T>; fn vx_parse(&self) -> (r: Result<T, Self::Err>) ensures match r { Ok(x) => self.means() == Some(x), Err(_) => self.means() is None }; }
impl VxParse<usize> for str { type Err = u8; open spec fn means(&self) -> Option<usize> { usize_of(self@) } #[verifier::external_body] fn vx_parse(&self) -> (r: Result<usize, u8>) { unimplemented!() } }
impl VxParse<Align> for str { type Err = FormatParseError; open spec fn means(&self) -> Option<Align> { align_of(self@) } fn vx_parse(&self) -> (r: Result<Align, FormatParseError>) { Align::vx_from_str(self) } }
impl VxParse<FormatType> for str { type Err = FormatParseError; open spec fn means(&self) -> Option<FormatType> { type_of(self@) } fn vx_parse(&self) -> (r: Result<FormatType, FormatParseError>) { FormatType::vx_from_str(self) } }
#[verifier::external_body] pub fn vx_first(s: &str) -> (r: char) requires s@.len() > 0 ensures r == s@[0] { s.chars().next().unwrap() }
// ---- the meaning of a whole spec
pub open spec fn sub_arg(int_: Option<Seq<char>>, arg: Option<Seq<char>>, input: Option<Seq<char>>, got: Option<SubArg<usize>>) -> bool {
    match int_ {
        Some(t) => usize_of(t) is Some && got == Some(SubArg::<usize>::Value(usize_of(t)->0)),
        None => match arg {
            Some(t) => if usize_of(t) is Some { got == Some(SubArg::<usize>::Index(usize_of(t)->0)) } else { match got { Some(SubArg::Name(q)) => q@ == t, _ => false } },
            None => if input is Some { got == Some(SubArg::<usize>::Input) } else { got is None } } }
}
pub open spec fn fits(t: Option<Seq<char>>) -> bool { t is None || usize_of(t->0) is Some }
pub open spec fn means(s: Seq<char>, r: Result<FormatSpec, FormatParseError>) -> bool {
    match groups_of(s) {
        None => r is Err,
        Some(g) => if !fits(g.width_integer) || !fits(g.precision_integer) || type_of(g.format_type->0) is None { r is Err } else { match r { Err(_) => false, Ok(f) =>
            f.fill == (match g.fill { Some(t) => Some(t[0]), None => None }) && f.align == (match g.align { Some(t) => align_of(t), None => None })
            && f.sign == (match g.sign { Some(t) => sign_of(t), None => None }) && f.is_alternate == g.is_alternate is Some && f.is_zero == g.is_zero is Some
            && sub_arg(g.width_integer, g.width_arg, None, f.width) && sub_arg(g.precision_integer, g.precision_arg, g.precision_input, f.precision)
            && Some(f.format_type) == type_of(g.format_type->0) } }
    }
}
''' % (' '.join('FormatType::%s => "%s"@,' % (n, l) for l, n in TYPES), ' '.join('FormatType::%s => "%s"@,' % (n, TRAITS.get(n, n)) for l, n in TYPES),
       ' else '.join('if s == "%s"@ { Some(FormatType::%s) }' % x for x in TYPES) + ' else', ', '.join('pub %s: Option<Seq<char>>' % n for n in NAMES),
       ' else '.join('if n == "%s"@ { g.%s }' % (n, n) for n in NAMES) + ' else')

POST = '''
// the letters and the type determine each other; what is shown in messages is what was written
proof fn lemma_letters(t: FormatType) ensures type_of(letters(t)) == Some(t)
{ %s }
proof fn lemma_letters_unique(s: Seq<char>) ensures type_of(s) is Some ==> letters(type_of(s)->0) == s
{ }
''' % REV.replace('proof {', '').strip().rstrip('}')
UNIT = Unit('spec', PRE, [
    Ty('Sign'), Ty('Align'), Ty('SubArg'), Ty('FormatType'), Ty('FormatSpec'), Ty('FormatParseError', head='#[derive(Debug)]'),
    Fn('FormatType', 'trait_name', spec='    ensures r@ == trait_of(*self),'),
    Fn('FromStr for Align', 'from_str', emit_owner='impl Align', sig=[(r'fn from_str', 'pub fn vx_from_str'), (r'Self::Err', 'FormatParseError')], start=REV,
       spec='    ensures match r { Ok(x) => align_of(s@) == Some(x), Err(_) => align_of(s@) is None },'),
    Fn('FromStr for FormatType', 'from_str', emit_owner='impl FormatType', sig=[(r'fn from_str', 'pub fn vx_from_str'), (r'Self::Err', 'FormatParseError')], start=REV,
       spec='    ensures match r { Ok(x) => type_of(s@) == Some(x), Err(_) => type_of(s@) is None },'),
    Fn('Display for FormatType', 'fmt', emit_owner='impl FormatType', sig=[(r'fn fmt', 'fn vx_fmt'), (r'std::fmt::Result', 'Result<(), FmtError>')],
       subs=[(r'write!\(f, ("[^"{}]*")\)', r'vx_write_str(f, \1)')], spec='    ensures r is Ok ==> final(f).out@ == old(f).out@ + letters(*self),'),
    Fn("FormatSpec<'a>", 'parse', emit_owner="impl<'a> FormatSpec<'a>", start=REV + REVN,
       subs=[(r'\\\n\s*', ''), (r'regex!\(\s*%s\s*,?\s*\)' % RE, 'vx_regex()'),
             (r'\|(\w+)\| \1\.as_str\(\)\.chars\(\)\.next\(\)\.unwrap\(\)', r'|\1: Mat| -> (q: char) requires \1.txt@.len() > 0 ensures q == \1.txt@[0] { vx_first(\1.as_str()) }'),
             (r'\|(\w+)\| (\1\.as_str\(\)\.vx_parse\(\)\.unwrap\(\))', r'|\1: Mat| -> (q: Align) requires align_of(\1.txt@) is Some ensures Some(q) == align_of(\1.txt@) { \2 }'),
             (r'\|(\w+)\| (match \1\.as_str\(\) \{[^{}]*\})', r'|\1: Mat| -> (q: Sign) requires sign_of(\1.txt@) is Some ensures Some(q) == sign_of(\1.txt@) { \2 }'),
             (r'\|_\|', '|vx_e|'), (r'unreachable!\(\)', 'vstd::pervasive::unreached()')],
       want=[r'vx_regex\(\)'], spec='    ensures means(s@, r),'),
    Fn("FormatSpec<'a>", 'parse_with_span', emit_owner="impl<'a> FormatSpec<'a>", sig=[(r'syn::Result<Self>', 'Result<Self, SynError>')], subs=[(r'bail!\(\s*(\w+)\s*,[^;]*?\)(,|\s*\})', r'return Err(SynError { span: \1 })\2')],
       spec='    ensures r is Ok ==> means(s@, Ok(r->Ok_0)), r is Err ==> means(s@, Err(FormatParseError)) && r->Err_0.span == span,'),
], rename=RENAME, post=POST, assumed=['the regex crate matches as documented (leftmost-first); what the pattern captures is decided by vp/specre.py',
 'str::parse::<usize>, Formatter::write_str (assumed contracts)'])
