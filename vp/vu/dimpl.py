"""derive(Display): which format is used and the impl that is written."""
import re
from vx import *
from vu import display
from vu.display import q

DONE = {'get_newtype_field', 'from_newtype_struct', 'from_unit_variant', 'build_write', 'format_args', 'format_arg', 'field_expr'}
PRE = display.PRE + '''
pub struct Generics { pub x: u8 }
impl GenericParamSet { #[verifier::external_body] pub fn new(g: &Generics) -> (r: GenericParamSet) { unimplemented!() } }
pub struct DeriveInput { pub attrs: Vec<Attribute>, pub generics: Generics, pub x: u8 }
impl DeriveInput { #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } }
pub struct DataEnum { pub variants: Vec<Variant> }
#[verifier::external_body] pub fn vx_path(s: &str) -> (r: Path) ensures r == path_of(s@) { unimplemented!() }
pub uninterp spec fn path_of(s: Seq<char>) -> Path;
impl Bounds {
    #[verifier::external_body] pub fn from_data(b: Option<Vec<Bound>>) -> (r: Bounds) { unimplemented!() }
    #[verifier::external_body] pub fn build_wheres(self, p: &Path) -> (r: Vec<WherePredicate>) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body] pub fn vx_clone_from<T>(a: &mut Option<T>, b: &Option<T>) ensures *final(a) == *b { unimplemented!() }
// `impl <generics> PATH for TYPE where .. { CONTENTS }`
pub uninterp spec fn impl_of(x: TokenStream) -> (DeriveInput, Path, Seq<Tok>);
#[verifier::external_body] pub fn impl_trait_result(i: &DeriveInput, p: &Path, w: &Vec<WherePredicate>, c: TokenStream, dump: bool) -> (r: Result<TokenStream>)
    ensures r is Ok, impl_of(r->Ok_0) == (*i, *p, c.tk()) { unimplemented!() }
// what a format writes
pub open spec fn body_of(b: B, v: Seq<Part>, cp: Path) -> Option<Seq<Tok>> {
    match args(b, v, None, cp) { None => None, Some((s, a)) => written(t("__f"@), s, a) }
}
pub open spec fn method(c: Seq<Tok>) -> Seq<Tok> { Q_METHOD }
pub open spec fn struct_code(a: Seq<Attribute>, f: Fields) -> Option<Seq<Tok>> {
    match attrs_of(a, false) { None => None, Some(h) => {
        let v = if h.format is Some { fparts(h.format) } else { match newtype(f) { Some(n) => Some(seq![Part::Var(n, Seq::empty())]), None => None } };
        match v { None => None, Some(v) => match body_of(B::Struct(f), v, h.crate_path) { None => None, Some(w) => Some(method(w)) } } } }
}
// ---- the fields of a variant are bound to their variables
pub uninterp spec fn keys_named(f: FieldsNamed) -> Seq<FK>;
pub uninterp spec fn count_unnamed(f: FieldsUnnamed) -> nat;
impl FieldKey {
    #[verifier::external_body] pub fn from_fields_named<'b>(f: &'b FieldsNamed) -> (r: Vec<(FieldKey, &'b Field)>) ensures r@.len() == keys_named(*f).len(), forall|i: int| 0 <= i < r@.len() ==> fk((#[trigger] r@[i]).0) == keys_named(*f)[i] { unimplemented!() }
    #[verifier::external_body] pub fn from_fields_unnamed<'b>(f: &'b FieldsUnnamed) -> (r: Vec<(FieldKey, &'b Field)>) ensures r@.len() == count_unnamed(*f), forall|i: int| 0 <= i < r@.len() ==> fk((#[trigger] r@[i]).0) == FK::Unnamed(i as usize) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_map<'b, F: Fn((FieldKey, &'b Field)) -> TokenStream>(v: Vec<(FieldKey, &'b Field)>, f: F) -> (r: Vec<TokenStream>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],))
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (v@[i],), #[trigger] r@[i]) { unimplemented!() }
pub open spec fn pat_named(k: FK) -> Seq<Tok> { Q_PATN }
pub open spec fn pat_unnamed(k: FK) -> Seq<Tok> { Q_PATU }
pub open spec fn pats_named(f: FieldsNamed) -> Seq<Seq<Tok>> { keys_named(f).map_values(|k: FK| pat_named(k)) }
pub open spec fn pats_unnamed(f: FieldsUnnamed) -> Seq<Seq<Tok>> { Seq::new(count_unnamed(f), |i: int| pat_unnamed(FK::Unnamed(i as usize))) }
pub open spec fn bindings(f: Fields) -> Seq<Tok> {
    match f { Fields::Named(n) => Q_NAMED, Fields::Unnamed(u) => Q_UNNAMED, Fields::Unit => Seq::empty() }
}
// the format of a variant: its own, else the one of the enum, else its name when it has no fields
pub open spec fn variant_format(e: HelperAttributes, h: HelperAttributes, f: Fields) -> Option<Seq<Part>> {
    if h.format is Some { fparts(h.format) } else if e.format is Some { fparts(e.format) } else if f is Unit { Some(seq![Part::Var(Seq::empty(), Seq::empty())]) } else { None }
}
pub open spec fn arm(e: HelperAttributes, v: Variant, cp: Path) -> Option<Seq<Tok>> {
    match attrs_of(v.attrs@, false) { None => None, Some(h) => match variant_format(e, h, v.fields) { None => None,
        Some(f) => match body_of(B::Variant(v.fields, cased(style_for(e, h), v.ident)), f, cp) { None => None, Some(w) => Some(Q_ARM) } } }
}
pub open spec fn arms_of(e: HelperAttributes, v: Seq<Variant>, cp: Path) -> Option<Seq<Seq<Tok>>> decreases v.len() {
    if v.len() == 0 { Some(Seq::empty()) } else { match (arms_of(e, v.drop_last(), cp), arm(e, v.last(), cp)) { (Some(a), Some(x)) => Some(a.push(x)), _ => None } }
}
proof fn lemma_bad_arm(e: HelperAttributes, v: Seq<Variant>, n: int, cp: Path) requires 0 <= n <= v.len(), arms_of(e, v.take(n), cp) is None ensures arms_of(e, v, cp) is None decreases v.len() - n
{
    if n < v.len() { assert(v.take(n + 1).drop_last() =~= v.take(n)); lemma_bad_arm(e, v, n + 1, cp); } else { assert(v.take(n) =~= v); }
}
pub open spec fn enum_code(a: Seq<Attribute>, v: Seq<Variant>) -> Option<Seq<Tok>> {
    match attrs_of(a, false) { None => None, Some(h) => match arms_of(h, v, h.crate_path) { None => None,
        Some(x) => { let value = if v.len() == 0 { t("* self"@) } else { t("self"@) }; Some(Q_MATCH) } } }
}
'''
for k, v in dict(
        Q_METHOD=q('fn fmt(&self, __f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { {{c}} }'),
        Q_PATN=q('{{seq![Tok::Key(k)]}} : ref {{seq![Tok::Var(k)]}}'), Q_PATU=q('ref {{seq![Tok::Var(k)]}}'),
        Q_NAMED=q('@{ {{rep(""@, pats_named(n), ","@, ""@)}} }').replace('@ {', '{'), Q_UNNAMED=q('( {{rep(""@, pats_unnamed(u), ","@, ""@)}} )'),
        Q_ARM=q('& Self:: {{v.ident.tk()}} {{bindings(v.fields)}} => { {{w}} },'),
        Q_MATCH=q('fn fmt(&self, __f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { match {{value}} { {{rep(""@, x, ""@, ""@)}} } }')).items():
    PRE = re.sub(r'\b%s\b' % k, lambda m: v, PRE)

BAIL = [(r'bail!\(\s*([\w.]+(?:\(\))?),\s*(?:r#".*?"#|"(?:\\.|[^"\\])*"),?\s*\);?', r'return Err(vx_error(\1));')]
PATHS = [(r'parse_quote!\(([\w:]+)\)', r'vx_path("\1")')]
P = "PATH"
CODE = lambda c: """    ensures match r { Ok(x) => %s is Some && impl_of(x) == (*input, path_of("::core::fmt::Display"@), %s->0), Err(_) => %s is None },""" % (c, c, c)
MAP = lambda which, spec: (r'FieldKey::%s\((\w+)\)\.map\(\|\((\w+), \.\.\)\| \{' % which,
                           r"vx_map(FieldKey::%s(\1), |vx_p: (FieldKey, &Field)| -> (vx_c: TokenStream) ensures vx_c.tk() == %s(fk(vx_p.0)), { proof { assert forall|a: Seq<Tok>| #[trigger] (Seq::<Tok>::empty() + a) == a by { assert(Seq::<Tok>::empty() + a =~= a); } } let \2 = vx_p.0;" % (which, spec))
ITEMS = [i if not isinstance(i, Fn) else Stub(i) for i in display.ITEMS if not isinstance(i, Fn) or i.name in DONE]
for i, it in enumerate(ITEMS):
    if isinstance(it, Ty) and it.name == 'HelperAttributes':
        ITEMS[i] = Ty('HelperAttributes', keep=it.keep + ['dump_display'])
ITEMS += [
    Fn('', 'derive_display_for_struct', quotes=True, subs=BAIL + PATHS, start=display.EXT, spec=CODE('struct_code(input.attrs@, data.fields)')),
    Fn('fn derive_display_for_enum', 'make_arm', emit_owner='', quotes=True, head='    #[verifier::loop_isolation(false)]',
       subs=BAIL + [(r'(\w+)\.clone_from\(', r'vx_clone_from(&mut \1, '), MAP('from_fields_named', 'pat_named'), MAP('from_fields_unnamed', 'pat_unnamed')],
       start=display.EXT + '''    proof {
        assert forall|x: Seq<TokenStream>, f: FieldsNamed| x.len() == keys_named(f).len() && (forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]).tk() == pat_named(keys_named(f)[i])) implies #[trigger] toks_of(x) == #[trigger] pats_named(f) by { assert(toks_of(x) =~= pats_named(f)); }
        assert forall|x: Seq<TokenStream>, f: FieldsUnnamed| x.len() == count_unnamed(f) && (forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]).tk() == pat_unnamed(FK::Unnamed(i as usize))) implies #[trigger] toks_of(x) == #[trigger] pats_unnamed(f) by { assert(toks_of(x) =~= pats_unnamed(f)); }
    }
''',
       spec="    ensures match r { Ok(x) => arm(*hattrs_enum, *variant, *cx.crate_path) == Some(x.tk()), Err(_) => arm(*hattrs_enum, *variant, *cx.crate_path) is None },"),
    Fn('', 'derive_display_for_enum', quotes=True, no_inner=True, head=display.NODEC + '\n    #[verifier::loop_isolation(false)]', subs=BAIL + PATHS + [(r'in it0:\s+&([\w.]+)', r'in it0: vx_iter(&\1)'), (r'hattrs\.bound_display\.clone\(\)', 'vx_clone(&hattrs.bound_display)')],
       start=display.EXT + '    let ghost vs = data.variants@;\n    proof { assert(vs.take(0) =~= Seq::<Variant>::empty()); assert(toks_of(Seq::empty()) =~= Seq::<Seq<Tok>>::empty()); }\n',
       loops=["""            invariant it0.seq().len() == vs.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == vs[i], 0 <= it0.index() <= it0.seq().len(),
                arms_of(hattrs, vs.take(it0.index() as int), hattrs.crate_path) == Some(toks_of(arms@)), arms@.len() == it0.index(),"""],
       l_start={0: '''
            let ghost i = it0.index() as int; let ghost a1 = arms@;
            proof {
                assert(vs.take(i + 1).drop_last() =~= vs.take(i)); assert(vs.take(i + 1).last() == vs[i]);
                if arms_of(hattrs, vs.take(i + 1), hattrs.crate_path) is None { lemma_bad_arm(hattrs, vs, i + 1, hattrs.crate_path); }
                assert forall|x: TokenStream| #[trigger] toks_of(a1.push(x)) == toks_of(a1).push(x.tk()) by { assert(toks_of(a1.push(x)) =~= toks_of(a1).push(x.tk())); }
            }
'''},
       l_after={0: '\n        proof { assert(vs.take(vs.len() as int) =~= vs); }\n'},
       spec=CODE('enum_code(input.attrs@, data.variants@)')),
]
UNIT = Unit('dimpl', PRE, ITEMS, rename=display.RENAME, assumed=[
    'the contracts of unit display, and what it assumes', 'impl_trait_result (assumed here, proved in unit implfn)', 'Bounds::{from_data, build_wheres} (units bounds, dbounds)',
    'FieldKey::from_fields_{named, unnamed} (assumed here, proved in unit keys)', 'an iterator `.map(closure)` that is only written out is taken as the mapped vector'])
