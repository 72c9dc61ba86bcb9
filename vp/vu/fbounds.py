"""The where clauses of the derived FromStr and FromStrRegex."""
from vx import *
from vu import fromcode, fimpl
from vu.dbounds import LEVEL, EXT, fn, swap

PRE = fimpl.PRE
PRE = swap(PRE, '#[verifier::external_body] pub struct Bounds { x: u8 }', 'pub struct Bounds { pub ty: Vec<Type>, pub pred: Vec<WherePredicate>, pub can_extend: bool }')
PRE = swap(PRE, '    #[verifier::external_body] pub fn child(&mut self, b: Option<Vec<Bound>>) -> (r: Bounds) { unimplemented!() }\n', '')
PRE = swap(PRE, 'pub fn from_data(b: Option<Vec<Bound>>) -> (r: Bounds) { unimplemented!() }', 'pub fn from_data(b: Option<Vec<Bound>>) -> (r: Bounds) ensures now(r) == own(b), r.can_extend == is_open(b) { unimplemented!() }')
PRE = swap(PRE, 'pub fn build_wheres(self, p: &Path) -> (r: Vec<WherePredicate>) { unimplemented!() }', 'pub fn build_wheres(self, p: &Path) -> (r: Vec<WherePredicate>) ensures r@ == wheres(now(self), *p) { unimplemented!() }')
PRE = swap(PRE, 'pub fn new(g: &Generics) -> (r: GenericParamSet) { unimplemented!() }', 'pub fn new(g: &Generics) -> (r: GenericParamSet) ensures r == params(*g) { unimplemented!() }')
PRE = swap(PRE, 'pub fn bound_from_str_resolved(&self) -> (r: Option<Vec<Bound>>) { unimplemented!() }', 'pub fn bound_from_str_resolved(&self) -> (r: Option<Vec<Bound>>) ensures r == resolved(*self) { unimplemented!() }')
PRE = swap(PRE, 'pub fn build_bounds(&self, g: &GenericParamSet, b: &mut Bounds) -> (r: Result<()>) { unimplemented!() }', 'pub fn build_bounds(&self, g: &GenericParamSet, b: &mut Bounds) -> (r: Result<()>) ensures r is Ok ==> grew(*old(b), *final(b), asked(*self, *g)) { unimplemented!() }')
PRE = swap(PRE, 'ensures r.tk() == impl_tk(*i, *p, c.tk()) { unimplemented!() }', 'ensures r.tk() == impl_where(*p, w@) { unimplemented!() }')
PRE += 'impl Clone for Bound { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\n' + LEVEL + '''
pub uninterp spec fn impl_where(p: Path, w: Seq<WherePredicate>) -> Seq<Tok>;
pub uninterp spec fn params(g: Generics) -> GenericParamSet;
pub uninterp spec fn resolved(h: HelperAttributes) -> Option<Vec<Bound>>;
pub open spec fn wheres(n: N, p: Path) -> Seq<WherePredicate> { n.pred + n.ty.map_values(|t: Type| ty_pred(t, p)) }
pub uninterp spec fn ty_pred(t: Type, p: Path) -> WherePredicate;
// what the fields of a struct or variant ask (proved in unit bounds: build_bounds)
pub uninterp spec fn asked<'a>(b: ParserBuilder<'a>, g: GenericParamSet) -> N;
pub open spec fn asked_variants<'a>(e: HelperAttributes, v: Seq<Variant>, g: GenericParamSet) -> N decreases v.len() {
    if v.len() == 0 { none() } else { plus(asked_variants(e, v.drop_last(), g), asked_variant(e, v.last(), g)) }
}
pub open spec fn asked_variant<'a>(e: HelperAttributes, v: Variant, g: GenericParamSet) -> N {
    match attrs_of(v.attrs@, true) { None => none(), Some(h) => if h.ignore.span is Some { none() } else { match variant_builder(h, e, v) { None => none(), Some(b) => level(resolved(h), asked(b, g)) } } }
}
// both impls of a type have the same where clause: FromStr for the types asked, and the predicates
pub open spec fn both(cp: Path, n: N) -> Seq<Tok> { let p = path_of("::core::str::FromStr"@); let w = wheres(n, p); if std_on() { impl_where(p, w) + impl_where(path_in(cp, "FromStrRegex"@), w) } else { impl_where(p, w) } }
'''
NOT = ('derive_from_str_for_struct', 'derive_from_str_for_enum')
ITEMS = [Ty('HelperAttributes', keep=i.keep + ['bound_display', 'bound_from_str']) if isinstance(i, Ty) and i.name == 'HelperAttributes' else i for i in fimpl.ITEMS if not (isinstance(i, Fn) and i.name in NOT)]
ITEMS += [
    fn(fimpl.ITEMS, 'derive_from_str_for_struct', '''    ensures r is Ok ==> ({ let h = attrs_of(input.attrs@, true)->0; attrs_of(input.attrs@, true) is Some && struct_builder(h, *data) is Some
        && r->Ok_0.tk() == both(h.crate_path, level(resolved(h), asked(struct_builder(h, *data)->0, params(input.generics)))) }),''', start=fromcode.EXT),
    fn(fimpl.ITEMS, 'derive_from_str_for_enum', '''    ensures r is Ok ==> ({ let h = attrs_of(input.attrs@, true)->0; attrs_of(input.attrs@, true) is Some
        && r->Ok_0.tk() == both(h.crate_path, level(resolved(h), asked_variants(h, data.variants@, params(input.generics)))) }),''',
       start=fromcode.EXT + '    let ghost vs = data.variants@; let ghost gs = params(input.generics);\n    proof { assert(vs.take(0) =~= Seq::<Variant>::empty()); }\n',
       subs=[(r'let mut bodys\b', 'let ghost o = bounds; let mut bodys')],
       loops=['''            invariant seq0.len() == vs.len(), forall|i: int| 0 <= i < seq0.len() ==> *(#[trigger] seq0[i]) == vs[i],
                it0.remaining().len() <= seq0.len(), it0.remaining() == seq0.skip(seq0.len() - it0.remaining().len()), it0.obeys_prophetic_iter_laws(), it0.will_return_none(),
                grew(o, bounds, asked_variants(hattrs_enum, vs.take(seq0.len() - it0.remaining().len()), gs)), regex_args@.len() == 0 ==> all_plain(opt_strs(regex_fmts@)),'''],
       l_start={0: '''
            let ghost f0 = opt_strs(regex_fmts@); let ghost a0 = toks_of(regex_args@); proof { assert(a0.len() == regex_args@.len()); }
            proof { let i = seq0.len() - it0.remaining().len() - 1; assert(vs.take(i + 1).drop_last() =~= vs.take(i)); assert(vs.take(i + 1).last() == vs[i]); }
'''},
       l_end={0: '''
            proof { assert(all_plain(opt_strs(regex_fmts@)) || regex_args@.len() > 0) by { if regex_args@.len() == 0 { assert(toks_of(regex_args@).len() == 0); let f1 = opt_strs(regex_fmts@); assert forall|j: int| 0 <= j < f1.len() implies (#[trigger] f1[j]) is Some by { if j < f0.len() { assert(f0[j] is Some); } } } } }
'''},
       l_after={0: '''
        proof { assert(vs.take(vs.len() as int) =~= vs); assert forall|i: int| regex_args@.len() == 0 && 0 <= i < regex_fmts@.len() implies (#[trigger] regex_fmts@[i]) is Some by { assert(opt_strs(regex_fmts@)[i] is Some); } }
'''}),
]
UNIT = Unit('fbounds', PRE, ITEMS, assumed=[
    'what unit fimpl assumes', 'Bounds::{child, from_data, build_wheres}, ParserBuilder::build_bounds (proved in unit bounds; the child of a level is assumed as a reborrow)',
    'bound_from_str_resolved (unit attrs), GenericParamSet::new (unit types)', 'only what an accepted derive asks is specified'])
