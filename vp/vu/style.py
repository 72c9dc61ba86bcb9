from vx import *
from vu.common import *

PRE = STR_EXT + '''
#[derive(Clone, Copy)] pub struct Span { pub x: u8 } pub struct SynError { pub span: Span }
#[verifier::external_body] pub struct LitStr { x: u8 }
pub uninterp spec fn lit_text(l: LitStr) -> Seq<char>;
impl LitStr { #[verifier::external_body] pub fn value(&self) -> (r: String) ensures r@ == lit_text(*self) { unimplemented!() } #[verifier::external_body] pub fn span(&self) -> (r: Span) { unimplemented!() } }
// stand-ins for syn::Ident
#[verifier::external_body] pub struct Ident { s: String }
pub uninterp spec fn id_text(i: &Ident) -> Seq<char>;
pub uninterp spec fn unraw_text(s: Seq<char>) -> Seq<char>;
impl Ident {
    #[verifier::external_body] pub fn unraw(&self) -> (r: Ident) ensures id_text(&r) == unraw_text(id_text(self)) { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == id_text(self) { unimplemented!() }
}
pub uninterp spec fn unicode_alnum(c: char) -> bool;
pub open spec fn alnum(c: char) -> bool { unicode_alnum(c) || ('0' <= c && c <= '9') }
pub open spec fn upper(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub uninterp spec fn ascii_up(c: char) -> char;
pub uninterp spec fn ascii_low(c: char) -> char;
pub assume_specification [char::is_alphanumeric](c: char) -> (r: bool) ensures r == unicode_alnum(c);
pub assume_specification [char::is_ascii_digit](c: &char) -> (r: bool) ensures r == ('0' <= *c && *c <= '9');
pub assume_specification [char::is_ascii_uppercase](c: &char) -> (r: bool) ensures r == upper(*c);
pub assume_specification [char::to_ascii_uppercase](c: &char) -> (r: char) ensures r == ascii_up(*c);
pub assume_specification [char::to_ascii_lowercase](c: &char) -> (r: char) ensures r == ascii_low(*c);
pub assume_specification<T> [Option::<T>::or](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });

// ---- the specification, from the documentation
pub struct Rule { pub first: bool, pub word: bool, pub rest: bool, pub sep: Seq<char> }
pub open spec fn cased(c: char, up: bool) -> char { if up { ascii_up(c) } else { ascii_low(c) } }
// no letter stands before i
pub open spec fn is_first(s: Seq<char>, i: int) -> bool { forall|j: int| 0 <= j < i ==> !alnum(#[trigger] s[j]) }
pub open spec fn is_word_start(s: Seq<char>, i: int) -> bool { i == 0 || !alnum(s[i - 1]) || (upper(s[i]) && !upper(s[i - 1])) }
pub open spec fn piece(k: Rule, s: Seq<char>, i: int) -> Seq<char> {
    if !alnum(s[i]) { Seq::empty() }
    else if is_first(s, i) { seq![cased(s[i], k.first)] }
    else if is_word_start(s, i) { k.sep + seq![cased(s[i], k.word)] }
    else { seq![cased(s[i], k.rest)] }
}
pub open spec fn styled(k: Rule, s: Seq<char>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else { styled(k, s, n - 1) + piece(k, s, n - 1) }
}
pub open spec fn rule(st: DisplayStyle) -> Rule {
    match st {
        DisplayStyle::LowerCase => Rule { first: false, word: false, rest: false, sep: ""@ },
        DisplayStyle::UpperCase => Rule { first: true, word: true, rest: true, sep: ""@ },
        DisplayStyle::LowerSnakeCase => Rule { first: false, word: false, rest: false, sep: "_"@ },
        DisplayStyle::UpperSnakeCase => Rule { first: true, word: true, rest: true, sep: "_"@ },
        DisplayStyle::LowerCamelCase => Rule { first: false, word: true, rest: false, sep: ""@ },
        DisplayStyle::UpperCamelCase => Rule { first: true, word: true, rest: false, sep: ""@ },
        DisplayStyle::LowerKebabCase => Rule { first: false, word: false, rest: false, sep: "-"@ },
        DisplayStyle::UpperKebabCase => Rule { first: true, word: true, rest: true, sep: "-"@ },
        DisplayStyle::TitleCase => Rule { first: true, word: true, rest: false, sep: " "@ },
        DisplayStyle::TitleCaseHead => Rule { first: true, word: false, rest: false, sep: " "@ },
        DisplayStyle::TitleCaseLower => Rule { first: false, word: false, rest: false, sep: " "@ },
        DisplayStyle::TitleCaseUpper => Rule { first: true, word: true, rest: true, sep: " "@ },
        DisplayStyle::None => arbitrary(),
    }
}
pub open spec fn named(s: Seq<char>) -> Option<DisplayStyle> {
    if s == "none"@ { Some(DisplayStyle::None) }
    else if s == "lowercase"@ { Some(DisplayStyle::LowerCase) }
    else if s == "UPPERCASE"@ { Some(DisplayStyle::UpperCase) }
    else if s == "snake_case"@ { Some(DisplayStyle::LowerSnakeCase) }
    else if s == "SNAKE_CASE"@ { Some(DisplayStyle::UpperSnakeCase) }
    else if s == "camelCase"@ { Some(DisplayStyle::LowerCamelCase) }
    else if s == "CamelCase"@ { Some(DisplayStyle::UpperCamelCase) }
    else if s == "kebab-case"@ { Some(DisplayStyle::LowerKebabCase) }
    else if s == "KEBAB-CASE"@ { Some(DisplayStyle::UpperKebabCase) }
    else if s == "Title Case"@ { Some(DisplayStyle::TitleCase) }
    else if s == "Title case"@ { Some(DisplayStyle::TitleCaseHead) }
    else if s == "title case"@ { Some(DisplayStyle::TitleCaseLower) }
    else if s == "TITLE CASE"@ { Some(DisplayStyle::TitleCaseUpper) }
    else { Option::None }
}
'''
NAMES = ['none', 'lowercase', 'UPPERCASE', 'snake_case', 'SNAKE_CASE', 'camelCase', 'CamelCase', 'kebab-case', 'KEBAB-CASE', 'Title Case', 'Title case', 'title case', 'TITLE CASE']

UNIT = Unit('style', PRE, [
    Ty('DisplayStyle', head='#[derive(Copy, Clone)]'),
    Ty('ParseDisplayStyleError'),
    Ty('HelperAttributes', keep=['style']),
    Fn('DisplayStyle', 'parse',
       spec='    ensures match r { Ok(st) => named(s@) == Some(st), Err(_) => named(s@) is None },',
       start='    broadcast use axiom_str_ext;\n    proof { ' + ' '.join('reveal_strlit("%s");' % n for n in NAMES) + ' }\n'),
    Fn('DisplayStyle', 'parse_lit_str', sig=[(r'-> Result<Self>', '-> Result<Self, SynError>')], subs=[(r'const ERROR_MESSAGE: &str = "(?:[^"\\]|\\.|\\\n)*";', ''), (r'bail!\(\s*([\w.()]+)\s*,[^;]*?\)(,|\s*\})', r'return Err(SynError { span: \1 })\2')],
       spec='    ensures match r { Ok(st) => named(lit_text(*s)) == Some(st), Err(_) => named(lit_text(*s)) == Option::<DisplayStyle>::None },'),
    Fn('DisplayStyle', 'from_helper_attributes',
       spec='''    ensures r == (match hattrs_variant.style { Some(st) => st, Option::None => match hattrs_enum.style { Some(st) => st, Option::None => DisplayStyle::None } }),'''),
    Fn('DisplayStyle', 'apply', head='    #[verifier::loop_isolation(false)]',
       spec='''    ensures ({ let t = unraw_text(id_text(ident));
        r@ == (if self is None { t } else { styled(rule(self), t, t.len() as int) }) }),''',
       start='    proof { reveal_strlit(""); reveal_strlit("_"); reveal_strlit("-"); reveal_strlit(" "); assert(""@ =~= Seq::<char>::empty()); }\n',
       subs=[(r'fn convert_case\(c: char, to_upper: bool\) -> char \{', r'fn convert_case(c: char, to_upper: bool) -> (r: char) ensures r == cased(c, to_upper) {')],
       loops=['''            invariant
                it0.obeys_prophetic_iter_laws(), it0.decrease() is Some, seq0 == s@, it0.remaining().len() <= s@.len(), it0.remaining() == s@.skip(s@.len() - it0.remaining().len()),
                !(self is None),
                line_head == rule(self).first, word_head == rule(self).word, normal == rule(self).rest, sep@ == rule(self).sep,
                r@ == styled(rule(self), s@, (s@.len() - it0.remaining().len())),
                is_line_head == is_first(s@, (s@.len() - it0.remaining().len())),
                (s@.len() - it0.remaining().len()) == 0 ==> is_word_head && last == '\\0',
                (s@.len() - it0.remaining().len()) > 0 && !alnum(s@[(s@.len() - it0.remaining().len()) - 1]) ==> is_word_head,
                (s@.len() - it0.remaining().len()) > 0 && alnum(s@[(s@.len() - it0.remaining().len()) - 1]) ==> !is_word_head && last == s@[(s@.len() - it0.remaining().len()) - 1],
            decreases it0.decrease()->0,'''],
       l_start={0: '''
                let ghost i = s@.len() - it0.remaining().len() - 1;
                let ghost r_old = r@;
                let ghost sep0 = sep@;
                proof {
                    assert(c == s@[i]);
                    assert(styled(rule(self), s@, i + 1) == styled(rule(self), s@, i) + piece(rule(self), s@, i));
                    assert(is_first(s@, i + 1) == (is_first(s@, i) && !alnum(s@[i])));
                    assert(r_old + Seq::<char>::empty() =~= r_old);
                }
'''},
       l_end={0: '''
                proof { assert(r@ =~= r_old + piece(rule(self), s@, i)); }
'''}),
], assumed=['syn::Ident::{unraw, to_string} (assumed contracts; the unraw text is uninterpreted)', 'char::{is_alphanumeric, is_ascii_digit, is_ascii_uppercase, to_ascii_uppercase, to_ascii_lowercase}, Option::or (assumed contracts)',
            'HelperAttributes is reduced to its field `style`'])
