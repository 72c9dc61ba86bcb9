"""What the derive sees of a type: the inner type of an Option, the type behind references, the parameters it mentions."""
from vx import *
from vu.common import *

PRE = STR_EXT + '''
// ---- syn's types, as far as the code looks at them
#[verifier::external_body] pub struct Ident { x: u8 }
pub uninterp spec fn name(i: Ident) -> Seq<char>;
pub uninterp spec fn plain(i: Ident) -> Seq<char>;          // without r#
#[verifier::external_body] pub fn vx_is(i: &Ident, s: &str) -> (r: bool) ensures r == (name(*i) == s@) { unimplemented!() }
impl Ident { #[verifier::external_body] pub fn unraw(&self) -> (r: Plain) ensures r.s() == plain(*self) { unimplemented!() } }
#[verifier::external_body] pub struct Plain { x: u8 }
impl Plain { pub uninterp spec fn s(&self) -> Seq<char>; }
pub struct QSelf { pub x: u8 } pub struct Other { pub x: u8 } pub struct Colon { pub x: u8 }
pub struct AngleArgs { pub args: Vec<GenericArgument> }
pub enum GenericArgument { Type(Type), Other(Other) }
pub enum PathArguments { None, AngleBracketed(AngleArgs), Parenthesized(Other) }
impl PathArguments {
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == empty(*self) { unimplemented!() } }
pub open spec fn empty(a: PathArguments) -> bool { match a { PathArguments::None => true, PathArguments::AngleBracketed(b) => b.args@.len() == 0, PathArguments::Parenthesized(_) => false } }
pub struct PathSegment { pub ident: Ident, pub arguments: PathArguments }
pub struct Path { pub leading_colon: Option<Colon>, pub segments: Vec<PathSegment> }
pub struct TypePath { pub qself: Option<QSelf>, pub path: Path }
pub struct TypeReference { pub elem: Box<Type> }
pub enum Type { Path(TypePath), Reference(TypeReference), Other(Other) }
impl Type { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn vx_last(v: &Vec<PathSegment>) -> (r: Option<&PathSegment>) ensures match r { Some(s) => v@.len() > 0 && *s == v@.last(), None => v@.len() == 0 } { unimplemented!() }
#[verifier::external_body] pub fn vx_first(v: &Vec<PathSegment>) -> (r: Option<&PathSegment>) ensures match r { Some(s) => v@.len() > 0 && *s == v@[0], None => v@.len() == 0 } { unimplemented!() }
// Iterator::any (assumed)
#[verifier::external_body] pub fn vx_any<A, F: Fn(&A) -> bool>(v: &Vec<A>, f: F) -> (r: bool) requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],)),
    ensures r ==> exists|i: int| 0 <= i < v@.len() && call_ensures(f, (&#[trigger] v@[i],), true), !r ==> forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (&#[trigger] v@[i],), false) { unimplemented!() }
// the namespaces a type is known under
#[verifier::external_body] pub fn vx_ns(a: &'static str, b: &'static str, c: &'static str, d: &'static str) -> (r: Vec<Vec<&'static str>>)
    ensures nss(r@) == seq![seq![a@, b@], seq![c@, d@]] { unimplemented!() }
pub open spec fn ns_of(v: Seq<&'static str>) -> Seq<Seq<char>> { v.map_values(|s: &'static str| s@) }
pub open spec fn nss(v: Seq<Vec<&'static str>>) -> Seq<Seq<Seq<char>>> { v.map_values(|s: Vec<&'static str>| ns_of(s@)) }
// ---- a path with a last name: in front of it stands an end of the namespace, without arguments
pub open spec fn in_ns(ss: Seq<PathSegment>, ns: Seq<Seq<char>>) -> bool {
    let n = ss.len() - 1;
    n <= ns.len() && forall|i: int| 0 <= i < n ==> name((#[trigger] ss[i]).ident) == ns[ns.len() - n + i] && empty(ss[i].arguments)
}
pub open spec fn args_of(t: Type, ns: Seq<Seq<Seq<char>>>, nm: Seq<char>) -> Option<PathArguments> {
    match t { Type::Path(p) => if p.qself is None && p.path.segments@.len() > 0 && name(p.path.segments@.last().ident) == nm && exists|i: int| 0 <= i < ns.len() && in_ns(p.path.segments@, #[trigger] ns[i]) { Some(p.path.segments@.last().arguments) } else { None }, _ => None }
}
pub open spec fn element(t: Type, ns: Seq<Seq<Seq<char>>>, nm: Seq<char>) -> Option<Type> {
    match args_of(t, ns, nm) { Some(PathArguments::AngleBracketed(a)) => if a.args@.len() == 1 && a.args@[0] is Type { Some(a.args@[0]->Type_0) } else { None }, _ => None }
}
pub open spec fn option_element(t: Type) -> Option<Type> { element(t, seq![seq!["std"@, "option"@], seq!["core"@, "option"@]], "Option"@) }
pub open spec fn unref(t: Type) -> Type decreases t { match t { Type::Reference(r) => unref(*r.elem), _ => t } }
// ---- the parameters of the derived type
pub struct TypeParam { pub ident: Ident } pub struct ConstParam { pub ident: Ident }
pub enum GenericParam { Type(TypeParam), Const(ConstParam), Lifetime(Other) }
pub struct Generics { pub params: Vec<GenericParam> }
#[verifier::external_body] pub struct IdentSet { x: u8 }
impl IdentSet {
    pub uninterp spec fn m(&self) -> Set<Seq<char>>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.m() == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, i: Plain) ensures final(self).m() == old(self).m().insert(i.s()) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, i: &Plain) -> (r: bool) ensures r == self.m().contains(i.s()) { unimplemented!() }
}
// type and const parameters, not lifetimes
pub open spec fn params(v: Seq<GenericParam>) -> Set<Seq<char>> decreases v.len() {
    if v.len() == 0 { Set::empty() } else { match v.last() { GenericParam::Type(t) => params(v.drop_last()).insert(plain(t.ident)), GenericParam::Const(t) => params(v.drop_last()).insert(plain(t.ident)), GenericParam::Lifetime(_) => params(v.drop_last()) } }
}
// a path starts with a parameter
pub open spec fn starts(p: Path, g: Set<Seq<char>>) -> bool { p.leading_colon is None && p.segments@.len() > 0 && g.contains(plain(p.segments@[0].ident)) }
// .. or does so inside (its arguments); syn's visitor reaches every path of a type (assumed)
pub uninterp spec fn inside(p: Path, g: Set<Seq<char>>) -> bool;
pub uninterp spec fn mentions(t: Type, g: Set<Seq<char>>) -> bool;
#[verifier::external_body] pub fn visit_path<'a>(v: &mut Visitor<'a>, p: &Path) ensures final(v).result == (old(v).result || inside(*p, old(v).generics.idents.m())), final(v).generics == old(v).generics { unimplemented!() }
impl<'a> Visitor<'a> { #[verifier::external_body] pub fn visit_type(&mut self, t: &Type) ensures final(self).result == (old(self).result || mentions(*t, old(self).generics.idents.m())), final(self).generics == old(self).generics { unimplemented!() } }
'''
NS = [(r'&\[&\[&str\]\]', "&Vec<Vec<&'static str>>"), (r'&\[&str\]', "&Vec<&'static str>"), (r'&Punctuated<PathSegment, Token!\[::\]>', '&Vec<PathSegment>')]
UNIT = Unit('types', PRE, [
    Fn('', 'is_match_ns', sig=NS, subs=[(r'([\w.]+)\.ident != ([\w\[\]]+)', r'!vx_is(&\1.ident, \2)')],
       spec='    requires ss@.len() > 0,\n    ensures r == in_ns(ss@, ns_of(ns@)),',
       loops=['''            invariant i_ss < ss@.len(), i_ns <= ns@.len(), ss@.len() - 1 - i_ss == ns@.len() - i_ns,
                forall|i: int| i_ss <= i < ss@.len() - 1 ==> name((#[trigger] ss@[i]).ident) == ns_of(ns@)[ns@.len() - (ss@.len() - 1) + i] && empty(ss@[i].arguments),
            decreases i_ss,''']),
    Fn('', 'get_arguments_of', sig=NS, subs=[(r'([\w.]+)\.last\(\)', r'vx_last(&\1)'), (r'([\w.]+)\.ident != (\w+)', r'!vx_is(&\1.ident, \2)'),
       (r'(?s)(\w+)\.iter\(\)\.any\(\|(\w+)\| is_match_ns\((\w+), (\w+)\)\)', r"vx_any(\1, |\2: &Vec<&'static str>| -> (q: bool) requires \3@.len() > 0, ensures q == in_ns(\3@, ns_of(\4@)) { is_match_ns(\3, \4) })")],
       start='    proof { assert forall|i: int| 0 <= i < ns@.len() implies nss(ns@)[i] == ns_of((#[trigger] ns@[i])@) by { } }\n',
       spec='    ensures match r { Some(a) => args_of(*ty, nss(ns@), name@) == Some(*a), None => args_of(*ty, nss(ns@), name@) is None },'),
    Fn('', 'get_element', sig=NS, spec='    ensures match r { Some(t) => element(*ty, nss(ns@), name@) == Some(*t), None => element(*ty, nss(ns@), name@) is None },'),
    Fn('', 'get_option_element', subs=[(r'&\[&\["(\w+)", "(\w+)"\], &\["(\w+)", "(\w+)"\]\]', r'&vx_ns("\1", "\2", "\3", "\4")')],
       spec='    ensures match r { Some(t) => option_element(*ty) == Some(*t), None => option_element(*ty) is None },'),
    Fn('', 'unref_ty', spec='    ensures r == unref(*ty),\n    decreases *ty,'),
    Ty('GenericParamSet', subs=[(r'idents: HashSet<Ident>', 'pub idents: IdentSet')]),
    Ty('Visitor', subs=[(r'\b(generics|result):', r'pub \1:')]),
    Fn('GenericParamSet', 'new', subs=[(r'HashSet::new\(\)', 'IdentSet::new()')], head='    #[verifier::loop_isolation(false)]',
       loops=['            invariant it0.seq().len() == generics.params@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == generics.params@[i], idents.m() == params(generics.params@.take(it0.index() as int)),'],
       start='    proof { assert(generics.params@.take(0) =~= Seq::<GenericParam>::empty()); }\n',
       l_start={0: ' proof { let i = it0.index() as int; assert(generics.params@.take(i + 1).drop_last() =~= generics.params@.take(i)); assert(generics.params@.take(i + 1).last() == generics.params@[i]); }\n'},
       l_after={0: ' proof { assert(generics.params@.take(generics.params@.len() as int) =~= generics.params@); }\n'},
       spec='    ensures r.idents.m() == params(generics.params@),'),
    Fn('GenericParamSet', 'contains', spec='    ensures r == self.idents.m().contains(plain(*ident)),'),
    Fn("Visit<'ast> for Visitor<'_>", 'visit_path', emit_owner="impl<'a> Visitor<'a>", sig=[(r"&'ast syn::Path", '&Path')], subs=[(r'([\w.]+)\.iter\(\)\.next\(\)', r'vx_first(&\1)')],
       spec='    ensures final(self).generics == old(self).generics, final(self).result == (old(self).result || starts(*i, old(self).generics.idents.m()) || inside(*i, old(self).generics.idents.m())),'),
    Fn('GenericParamSet', 'contains_in_type', no_inner=True, spec='    ensures r == mentions(*ty, self.idents.m()),'),
], assumed=['syn\'s types are transcribed, with the parts the code looks at', 'Iterator::any (assumed contract)', 'syn::visit reaches every path of a type, each through visit_path (assumed: mentions, inside)', 'HashSet<Ident> is taken as the set of the names'])
