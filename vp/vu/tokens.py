"""The vocabulary for generated code: the tokens quote! writes, kept literally."""
import re
from vx import *


def q(s):
    """spec sequence for a quote-like text with {{expr}} holes"""
    parts = re.split(r'(\{\{.*?\}\}(?!\}))', s)
    out = []
    for p in parts:
        if p.startswith('{{'):
            out.append(p[2:-2])
        elif p.strip():
            out.append('t(%s@)' % rs(lex(p)))
    r = 'Seq::<Tok>::empty()'
    for x in out:
        r = '(%s + %s)' % (r, x)
    return r


TOK = '''
// ---- tokens
pub enum Tok { T(Seq<char>), Str(Seq<char>), Num(usize), Msg, Key(FK), Var(FK), Arg(FK), Ty(Type), Ex(Expr), Path(Path), Id(Ident) }
pub open spec fn t(s: Seq<char>) -> Seq<Tok> { seq![Tok::T(s)] }
pub open spec fn str_(s: Seq<char>) -> Seq<Tok> { seq![Tok::Str(s)] }
pub open spec fn num(n: usize) -> Seq<Tok> { seq![Tok::Num(n)] }
pub open spec fn path(p: Path) -> Seq<Tok> { seq![Tok::Path(p)] }
pub open spec fn ty_(p: Type) -> Seq<Tok> { seq![Tok::Ty(p)] }
pub open spec fn ex(p: Expr) -> Seq<Tok> { seq![Tok::Ex(p)] }
pub open spec fn key_(p: FK) -> Seq<Tok> { seq![Tok::Key(p)] }
#[verifier::external_body] pub struct TokenStream { x: u8 }
pub trait VxTok { spec fn tk(&self) -> Seq<Tok>; }
impl VxTok for TokenStream { uninterp spec fn tk(&self) -> Seq<Tok>; }
impl VxTok for Ident { uninterp spec fn tk(&self) -> Seq<Tok>; }
impl VxTok for LitStr { uninterp spec fn tk(&self) -> Seq<Tok>; }
impl VxTok for String { open spec fn tk(&self) -> Seq<Tok> { seq![Tok::Str(self@)] } }
impl VxTok for usize { open spec fn tk(&self) -> Seq<Tok> { seq![Tok::Num(*self)] } }
// the wording of messages is left open
pub struct VxMsg { pub x: u8 }
impl VxTok for VxMsg { open spec fn tk(&self) -> Seq<Tok> { seq![Tok::Msg] } }
impl VxTok for FieldKey { open spec fn tk(&self) -> Seq<Tok> { seq![Tok::Key(fk(*self))] } }
impl VxTok for Type { open spec fn tk(&self) -> Seq<Tok> { seq![Tok::Ty(*self)] } }
impl VxTok for Expr { open spec fn tk(&self) -> Seq<Tok> { seq![Tok::Ex(*self)] } }
impl VxTok for Path { open spec fn tk(&self) -> Seq<Tok> { seq![Tok::Path(*self)] } }
impl<'b, T: VxTok> VxTok for &'b T { open spec fn tk(&self) -> Seq<Tok> { (**self).tk() } }
pub open spec fn toks_of(v: Seq<TokenStream>) -> Seq<Seq<Tok>> { v.map_values(|x: TokenStream| x.tk()) }
pub trait VxList { spec fn list(&self) -> Seq<Seq<Tok>>; }
impl VxList for Vec<TokenStream> { open spec fn list(&self) -> Seq<Seq<Tok>> { toks_of(self@) } }
pub open spec fn idents(v: Seq<Ident>) -> Seq<Seq<Tok>> { v.map_values(|x: Ident| x.tk()) }
impl VxList for Vec<Ident> { open spec fn list(&self) -> Seq<Seq<Tok>> { idents(self@) } }
impl<'b, L: VxList> VxList for &'b L { open spec fn list(&self) -> Seq<Seq<Tok>> { (**self).list() } }
pub open spec fn rep(pre: Seq<char>, v: Seq<Seq<Tok>>, post: Seq<char>, sep: Seq<char>) -> Seq<Tok> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else {
        let h = (if pre.len() > 0 { t(pre) } else { Seq::empty() }) + v.last() + (if post.len() > 0 { t(post) } else { Seq::empty() });
        if v.len() == 1 { h } else { rep(pre, v.drop_last(), post, sep) + (if sep.len() > 0 { t(sep) } else { Seq::empty() }) + h } }
}
pub open spec fn reps(v: Seq<Seq<Tok>>, post: Seq<char>) -> Seq<Tok> { rep(""@, v, post, ""@) }
#[verifier::external_body] pub fn vx_q() -> (r: TokenStream) ensures r.tk() == Seq::<Tok>::empty() { unimplemented!() }
impl TokenStream {
    #[verifier::external_body] pub fn new() -> (r: TokenStream) ensures r.tk() == Seq::<Tok>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vx_t(self, s: &str) -> (r: TokenStream) ensures r.tk() == self.tk() + t(s@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_i<T: VxTok>(self, x: &T) -> (r: TokenStream) ensures r.tk() == self.tk() + x.tk() { unimplemented!() }
    #[verifier::external_body] pub fn vx_rep<L: VxList>(self, pre: &str, v: &L, post: &str, sep: &str) -> (r: TokenStream) ensures r.tk() == self.tk() + rep(pre@, v.list(), post@, sep@) { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, x: TokenStream) ensures final(self).tk() == old(self).tk() + x.tk() { unimplemented!() }
}
impl LitStr { #[verifier::external_body] pub fn new(s: &String, sp: Span) -> (r: LitStr) ensures r.tk() == seq![Tok::Str(s@)] { unimplemented!() } }
// spans are not part of what the tokens mean
#[verifier::external_body] pub fn set_location(x: TokenStream, s: Span) -> (r: TokenStream) ensures r.tk() == x.tk() { unimplemented!() }
#[verifier::external_body] pub fn set_span(x: TokenStream, s: Span) -> (r: TokenStream) ensures r.tk() == x.tk() { unimplemented!() }
'''


def fill(pre, d):
    for k, v in d.items():
        pre = re.sub(r'\b%s\b' % k, lambda m: v, pre)
    return pre
