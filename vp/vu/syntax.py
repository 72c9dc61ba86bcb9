"""How the arguments of the attributes are read: items, strings with items in them, bounds, and names of fields."""
from vx import *
from vu.common import *

PRE = STR_EXT + '''
pub struct SynError { pub x: u8 }
pub type Result<T, E = SynError> = std::result::Result<T, E>;
// ---- the input: a place in the tokens of an attribute; what stands there, and where it ends
#[verifier::external_body] pub struct Pos { x: u8 }
pub uninterp spec fn at<T>(p: Pos) -> Option<(T, Pos)>;
pub uninterp spec fn name_ahead(p: Pos) -> bool;
#[verifier::external_body] pub struct ParseBuffer { x: u8 }
impl ParseBuffer {
    pub uninterp spec fn pos(&self) -> Pos;
    #[verifier::external_body] pub fn fork(&self) -> (r: ParseBuffer) ensures r.pos() == self.pos() { unimplemented!() }
    #[verifier::external_body] pub fn advance_to(&mut self, f: &ParseBuffer) ensures final(self).pos() == f.pos() { unimplemented!() }
    #[verifier::external_body] pub fn vx_peek_dots(&self) -> (r: bool) ensures r == (at::<DotDot>(self.pos()) is Some) { unimplemented!() }
    #[verifier::external_body] pub fn vx_peek_name(&self) -> (r: bool) ensures r == name_ahead(self.pos()) { unimplemented!() }
    // a failed attempt leaves the place open
    #[verifier::external_body] pub fn parse<T>(&mut self) -> (r: Result<T>) ensures match at::<T>(old(self).pos()) { Some(x) => r == Ok::<T, SynError>(x.0) && final(self).pos() == x.1, None => r is Err } { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct DotDot { pub x: u8 } #[verifier::external_body] pub struct Type { x: u8 } #[verifier::external_body] pub struct WherePredicate { x: u8 }
#[verifier::external_body] pub struct Ident { x: u8 } #[verifier::external_body] pub struct Index { x: u8 }
pub enum Member { Named(Ident), Unnamed(Index) }
// any name, keywords too
pub struct AnyName { pub i: Ident }
impl Ident { #[verifier::external_body] pub fn parse_any(b: &mut ParseBuffer) -> (r: Result<Ident>) ensures match at::<AnyName>(old(b).pos()) { Some(x) => r == Ok::<Ident, SynError>(x.0.i) && final(b).pos() == x.1, None => r is Err } { unimplemented!() } }
#[derive(Clone, Copy)] pub struct Span { pub x: u8 }
#[verifier::external_body] pub struct LitStr { x: u8 }
pub uninterp spec fn lit_text(l: LitStr) -> Seq<char>;
pub uninterp spec fn lit_span(l: LitStr) -> Span;
impl LitStr { #[verifier::external_body] pub fn value(&self) -> (r: String) ensures r@ == lit_text(*self) { unimplemented!() } #[verifier::external_body] pub fn span(&self) -> (r: Span) ensures r == lit_span(*self) { unimplemented!() } }
// the tokens of a text (with the place they are shown at, which nothing depends on), and what they read as
#[verifier::external_body] pub struct TokenStream { x: u8 }
pub uninterp spec fn tokens_of(s: Seq<char>) -> Option<TokenStream>;
pub uninterp spec fn reads<T>(t: TokenStream) -> Option<T>;
pub uninterp spec fn spanned(t: TokenStream) -> TokenStream;
#[verifier::external_body] pub broadcast proof fn axiom_spans<T>(t: TokenStream) ensures #[trigger] reads::<T>(spanned(t)) == reads::<T>(t) { }
#[verifier::external_body] pub fn parse_str(s: &String) -> (r: Result<TokenStream>) ensures match r { Ok(t) => tokens_of(s@) == Some(t), Err(_) => tokens_of(s@) is None } { unimplemented!() }
#[verifier::external_body] pub fn vx_spanned(s: Span, t: TokenStream) -> (r: TokenStream) ensures r == spanned(t) { unimplemented!() }
#[verifier::external_body] pub fn parse2<T>(t: TokenStream) -> (r: Result<T>) ensures match r { Ok(x) => reads::<T>(t) == Some(x), Err(_) => reads::<T>(t) is None } { unimplemented!() }
// items separated by commas
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Punctuated<T> { x: Vec<T> }
impl<T> View for Punctuated<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Punctuated<T> {
    #[verifier::external_body] pub fn into_iter(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn parse_terminated(b: &mut ParseBuffer) -> (r: Result<Punctuated<T>>) ensures match at::<Punctuated<T>>(old(b).pos()) { Some(x) => r == Ok::<Punctuated<T>, SynError>(x.0) && final(b).pos() == x.1, None => r is Err } { unimplemented!() }
}
#[verifier::external_body] pub fn vx_one<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { vec![x] }
impl<T> Quotable<T> { pub open spec fn items(&self) -> Seq<T> { match self { Quotable::Direct(x) => seq![*x], Quotable::Quoted { s, args } => args.0@ } } }
// ---- a result and the place behind it
pub open spec fn got<T>(r: Result<T>, e: Pos, want: Option<(T, Pos)>) -> bool { match want { Some(x) => r == Ok::<T, SynError>(x.0) && e == x.1, None => r is Err } }
// `..`; else a predicate; else a type
pub open spec fn bound_at(p: Pos) -> Option<(Bound, Pos)> {
    if let Some(x) = at::<DotDot>(p) { Some((Bound::Default(x.0), x.1)) } else if let Some(x) = at::<WherePredicate>(p) { Some((Bound::Pred(x.0), x.1)) } else if let Some(x) = at::<Type>(p) { Some((Bound::Type(x.0), x.1)) } else { None }
}
// any name, else a member
spec fn field_at(p: Pos) -> Option<(DefaultField, Pos)> {
    if name_ahead(p) { match at::<AnyName>(p) { Some(x) => Some((DefaultField(Member::Named(x.0.i)), x.1)), None => None } } else { match at::<Member>(p) { Some(x) => Some((DefaultField(x.0), x.1)), None => None } }
}
// a string stands for the items written in it
pub open spec fn quotable_at<T>(p: Pos) -> Option<(Quotable<T>, Pos)> {
    match at::<LitStr>(p) {
        Some(l) => match tokens_of(lit_text(l.0)) { Some(t) => match reads::<ArgsOf<T>>(t) { Some(a) => Some((Quotable::Quoted { s: l.0, args: a }, l.1)), None => None }, None => None },
        None => match at::<T>(p) { Some(x) => Some((Quotable::Direct(x.0), x.1)), None => None } }
}
'''
SIG = [(r'input: ParseStream', 'input: &mut ParseBuffer'), (r'\bfn parse\b', 'fn vx_parse')]
SUBS = [(r'\binput\.peek\(\s*Token!\[\.\.\]\s*\)', 'input.vx_peek_dots()'), (r'\binput\.peek\(\s*Ident::peek_any\s*\)', 'input.vx_peek_name()'),
        (r'let fork = ', 'let mut fork = '), (r'quote_spanned!\(\s*([\w.()]+?)\s*=>\s*#\s*(\w+)\s*\)', r'vx_spanned(\1, \2)')]
G = 'impl<T> %s<T>'
UNIT = Unit('syntax', PRE, [
    Ty('Bound', subs=[(r'Token!\[\.\.\]', 'DotDot')]),
    Ty('ArgsOf', subs=[(r'Punctuated<T, Token!\[,\]>', 'pub Punctuated<T>')], head='#[verifier::reject_recursive_types(T)]'),
    Ty('Quotable', head='#[verifier::reject_recursive_types(T)]'), Ty('DefaultField'),
    Fn('Parse for Bound', 'parse', emit_owner='impl Bound', sig=SIG, subs=SUBS, spec='    ensures got(r, final(input).pos(), bound_at(old(input).pos())),'),
    Fn('Parse for DefaultField', 'parse', emit_owner='impl DefaultField', sig=SIG, subs=SUBS, spec='    ensures got(r, final(input).pos(), field_at(old(input).pos())),'),
    Fn('Parse for ArgsOf<T>', 'parse', emit_owner=G % 'ArgsOf', sig=SIG, subs=SUBS, spec='    ensures got(r, final(input).pos(), match at::<Punctuated<T>>(old(input).pos()) { Some(x) => Some((ArgsOf(x.0), x.1)), None => None }),'),
    Fn('Parse for Quotable<T>', 'parse', emit_owner=G % 'Quotable', sig=SIG, subs=SUBS, start='    broadcast use axiom_spans;\n', spec='    ensures got(r, final(input).pos(), quotable_at::<T>(old(input).pos())),'),
    Fn('ArgsOf<T>', 'into_iter', emit_owner=G % 'ArgsOf', sig=[(r'impl Iterator<Item = T>', 'Vec<T>')], spec='    ensures r@ == self.0@,'),
    Fn('Quotable<T>', 'into_iter', emit_owner=G % 'Quotable', sig=[(r'impl IntoIterator<Item = T>', 'Vec<T>')],
       subs=[(r'vec!\[(\w+)\]', r'vx_one(\1)'), (r'\.into_iter\(\)\s*\.collect\(\)', '.into_iter()'), (r'\}\s*\.into_iter\(\)\s*\}\s*$', '} }')], spec='    ensures r@ == self.items(),'),
], assumed=['syn parses types, predicates, names, members, literals and comma-separated items (taken as given at each place); a failed attempt leaves the place of the input open', 'spans given to tokens do not change what they read as'])
