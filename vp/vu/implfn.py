"""The impl around the generated methods."""
import re
from vx import *
from vu.tokens import TOK, q

PRE = '''
pub enum FK { Named(Seq<char>), Unnamed(usize) }
#[verifier::external_body] pub struct FieldKey { x: u8 } pub uninterp spec fn fk(k: FieldKey) -> FK;
#[verifier::external_body] pub struct Type { x: u8 } #[verifier::external_body] pub struct Expr { x: u8 } #[verifier::external_body] pub struct Path { x: u8 }
#[verifier::external_body] pub struct Ident { x: u8 } #[verifier::external_body] pub struct LitStr { x: u8 } #[derive(Clone, Copy)] pub struct Span { pub x: u8 }
pub struct Error { pub x: u8 }
pub type Result<T, E = Error> = std::result::Result<T, E>;
#[verifier::external_body] pub struct WherePredicate { x: u8 }
''' + TOK + '''
impl VxTok for WherePredicate { uninterp spec fn tk(&self) -> Seq<Tok>; }
pub open spec fn wtoks(v: Seq<WherePredicate>) -> Seq<Seq<Tok>> { v.map_values(|x: WherePredicate| x.tk()) }
impl VxList for Vec<WherePredicate> { open spec fn list(&self) -> Seq<Seq<Tok>> { wtoks(self@) } }
// the generics of a type, split for an impl
pub struct WhereClause { pub predicates: Vec<WherePredicate> }
#[verifier::external_body] pub struct ImplG { x: u8 } #[verifier::external_body] pub struct TyG { x: u8 }
impl VxTok for ImplG { uninterp spec fn tk(&self) -> Seq<Tok>; }
impl VxTok for TyG { uninterp spec fn tk(&self) -> Seq<Tok>; }
pub struct Generics { pub i: ImplG, pub t: TyG, pub w: Option<WhereClause> }
impl Generics { pub fn split_for_impl(&self) -> (r: (&ImplG, &TyG, Option<&WhereClause>)) ensures *r.0 == self.i, *r.1 == self.t, (match r.2 { Some(w) => self.w == Some(*w), None => self.w is None }) {
    (&self.i, &self.t, match &self.w { Some(w) => Some(w), None => None }) } }
#[verifier::external_body] pub struct DataStruct { x: u8 } #[verifier::external_body] pub struct DataEnum { x: u8 } #[verifier::external_body] pub struct DataUnion { x: u8 }
pub enum Data { Struct(DataStruct), Enum(DataEnum), Union(DataUnion) }
pub struct DeriveInput { pub ident: Ident, pub generics: Generics, pub data: Data }
// the item the derive is written on, and what the compiler is given for it: code, or the message of an error
#[verifier::external_body] pub struct MacroIn { x: u8 } #[verifier::external_body] pub struct MacroOut { x: u8 }
pub uninterp spec fn item_of(i: MacroIn) -> std::result::Result<DeriveInput, Error>;
pub uninterp spec fn out(m: MacroOut) -> Seq<Tok>;
pub uninterp spec fn message(e: Error) -> Seq<Tok>;
#[verifier::external_body] pub fn vx_item(i: MacroIn) -> (r: Result<DeriveInput>) ensures r == item_of(i) { unimplemented!() }
impl Error {
    #[verifier::external_body] pub fn to_compile_error(&self) -> (r: TokenStream) ensures r.tk() == message(*self) { unimplemented!() }
    #[verifier::external_body] pub fn into_compile_error(self) -> (r: TokenStream) ensures r.tk() == message(self) { unimplemented!() }
}
impl TokenStream { #[verifier::external_body] pub fn vx_out(self) -> (r: MacroOut) ensures out(r) == self.tk() { unimplemented!() } }
pub open spec fn said(r: Result<TokenStream>) -> Seq<Tok> { match r { Ok(t) => t.tk(), Err(e) => message(e) } }
// what is generated for each kind of item (units dimpl, fimpl)
pub uninterp spec fn display_struct(i: DeriveInput, d: DataStruct) -> Result<TokenStream>;
pub uninterp spec fn display_enum(i: DeriveInput, d: DataEnum) -> Result<TokenStream>;
pub uninterp spec fn from_str_struct(i: DeriveInput, d: DataStruct) -> Result<TokenStream>;
pub uninterp spec fn from_str_enum(i: DeriveInput, d: DataEnum) -> Result<TokenStream>;
#[verifier::external_body] fn derive_display_for_struct(i: &DeriveInput, d: &DataStruct) -> (r: Result<TokenStream>) ensures r == display_struct(*i, *d) { unimplemented!() }
#[verifier::external_body] fn derive_display_for_enum(i: &DeriveInput, d: &DataEnum) -> (r: Result<TokenStream>) ensures r == display_enum(*i, *d) { unimplemented!() }
#[verifier::external_body] fn derive_from_str_for_struct(i: &DeriveInput, d: &DataStruct) -> (r: Result<TokenStream>) ensures r == from_str_struct(*i, *d) { unimplemented!() }
#[verifier::external_body] fn derive_from_str_for_enum(i: &DeriveInput, d: &DataEnum) -> (r: Result<TokenStream>) ensures r == from_str_enum(*i, *d) { unimplemented!() }
#[verifier::external_body] pub fn vx_to_vec(v: &[WherePredicate]) -> (r: Vec<WherePredicate>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn vx_extend(v: &mut Vec<WherePredicate>, w: &Vec<WherePredicate>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
// a derive with `dump` panics with its output instead of giving it
#[verifier::external_body] pub fn vx_panicked<T>() -> (r: T) ensures false { panic!() }
#[verifier::external_body] pub fn vx_panic() ensures false { panic!() }
// ---- the impl has exactly the given predicates and the ones the type is declared with, in any order
pub open spec fn declared(g: Generics) -> Seq<WherePredicate> { match g.w { Some(w) => w.predicates@, None => Seq::empty() } }
pub open spec fn same(a: Seq<WherePredicate>, b: Seq<WherePredicate>) -> bool { a.to_multiset() == b.to_multiset() }
pub open spec fn impl_code(i: DeriveInput, p: Path, w: Seq<WherePredicate>, c: Seq<Tok>) -> Seq<Tok> { let wc = if w.len() == 0 { Seq::<Tok>::empty() } else { Q_WHERE }; Q_IMPL }
pub open spec fn is_impl(x: Seq<Tok>, i: DeriveInput, p: Path, w: Seq<WherePredicate>, c: Seq<Tok>) -> bool {
    exists|v: Seq<WherePredicate>| same(v, w + declared(i.generics)) && x == #[trigger] impl_code(i, p, v, c)
}
'''
for k, v in dict(Q_WHERE=q('where {{rep(""@, wtoks(w), ","@, ""@)}}'), Q_IMPL=q('impl {{i.generics.i.tk()}} {{path(p)}} for {{i.ident.tk()}} {{i.generics.t.tk()}} {{wc}} @{ {{c}} }').replace('@ {', '{')).items():
    PRE = re.sub(r'\b%s\b' % k, lambda m: v, PRE)
SUBS = [(r'(\w+)\.to_vec\(\)', r'vx_to_vec(\1)'), (r'(\w+)\.extend\(\s*([\w.]+)\.iter\(\)\.cloned\(\)\s*\)', r'vx_extend(&mut \1, &\2)'), (r'panic!\([^;]*\);', 'vx_panic();')]
EXT = '    proof { assert forall|a: Seq<Tok>| #[trigger] (Seq::<Tok>::empty() + a) == a by { assert(Seq::<Tok>::empty() + a =~= a); } assert forall|a: Seq<Tok>| #[trigger] (a + Seq::<Tok>::empty()) == a by { assert(a + Seq::<Tok>::empty() =~= a); } assert forall|a: Seq<WherePredicate>| #[trigger] (a + Seq::<WherePredicate>::empty()) == a by { assert(a + Seq::<WherePredicate>::empty() =~= a); } }\n'
MSIG = [(r'input: proc_macro::TokenStream', 'input: MacroIn'), (r'-> proc_macro::TokenStream', '-> MacroOut')]
MSUBS = [(r'parse_macro_input!\(\s*(\w+) as DeriveInput\s*\)', r'match vx_item(\1) { Ok(i) => i, Err(e) => return e.to_compile_error().vx_out() }'), (r'panic!\([^;]*?\),?(\s*\})', r'vx_panicked()\1')]
# a union ends with the panic that rustc reports as an error
DISPATCH = '''    ensures match item_of(input) { Err(e) => out(r) == message(e), Ok(i) => match i.data { Data::Struct(d) => out(r) == said(%(n)s_struct(i, d)), Data::Enum(d) => out(r) == said(%(n)s_enum(i, d)), Data::Union(_) => false } },'''
UNIT = Unit('implfn', PRE, [
    Fn('', 'impl_trait', quotes=True, subs=SUBS, start=EXT + '    let ghost w0 = wheres@;\n',
       tail='\n    proof { let v = wheres@; assert(v =~= w0 + declared(input.generics)); assert(vx_r.tk() =~= impl_code(*input, *trait_path, v, contents.tk())); assert(same(v, w0 + declared(input.generics))); }\n',
       spec='    ensures is_impl(r.tk(), *input, *trait_path, wheres@, contents.tk()),'),
    Fn('', 'into_macro_output', sig=[(r'-> proc_macro::TokenStream', '-> MacroOut')], subs=[(r'\.into\(\)', '.vx_out()')], spec='    ensures out(r) == said(input),'),
    Fn('', 'derive_display', sig=MSIG, subs=MSUBS, spec=DISPATCH % dict(n='display')),
    Fn('', 'derive_from_str', sig=MSIG, subs=MSUBS, spec=DISPATCH % dict(n='from_str')),
    Fn('', 'dump_if', subs=SUBS, spec='    ensures !dump,'),
    Fn('', 'impl_trait_result', spec='    ensures r is Ok, is_impl(r->Ok_0.tk(), *input, *trait_path, wheres@, contents.tk()),'),
], assumed=['Generics::split_for_impl, <[T]>::to_vec, Vec::extend with clones (assumed contracts)', 'a panic does not return', 'parse_macro_input! reads the item or gives its error; Error::to_compile_error (assumed contract)', 'quote! writes the tokens it is given; `#[automatically_derived]` is dropped'])
