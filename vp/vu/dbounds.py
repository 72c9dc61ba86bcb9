"""The where clause of a derived Display: what every placeholder asks of the types of the fields, level by level."""
import copy, re
from vx import *
from vu import display, dimpl


def swap(s, a, b):
    assert a in s, a
    return s.replace(a, b)


LEVEL = '''// a level: what it says by itself, and whether the inner ones are asked (proved in unit bounds: Bounds::child, BoundsChild::drop; here the child is a reborrow of its parent)
pub ghost struct N { pub ty: Seq<Type>, pub pred: Seq<WherePredicate> }
pub open spec fn none() -> N { N { ty: Seq::empty(), pred: Seq::empty() } }
pub open spec fn plus(a: N, b: N) -> N { N { ty: a.ty + b.ty, pred: a.pred + b.pred } }
pub uninterp spec fn own(o: Option<Vec<Bound>>) -> N;
pub uninterp spec fn is_open(o: Option<Vec<Bound>>) -> bool;
pub open spec fn now(b: Bounds) -> N { N { ty: b.ty@, pred: b.pred@ } }
pub open spec fn grew(o: Bounds, n: Bounds, a: N) -> bool { n.can_extend == o.can_extend && now(n) == (if o.can_extend { plus(now(o), a) } else { now(o) }) }
pub open spec fn level(o: Option<Vec<Bound>>, inner: N) -> N { if is_open(o) { plus(own(o), inner) } else { own(o) } }
impl Bounds { #[verifier::external_body] pub fn child<'c>(&'c mut self, b: Option<Vec<Bound>>) -> (r: &'c mut Bounds)
    ensures old(self).can_extend ==> now(*r) == own(b) && (*r).can_extend == is_open(b), !old(self).can_extend ==> now(*r) == none() && !(*r).can_extend, grew(*old(self), *final(self), now(*final(r))) { unimplemented!() } }proof fn lemma_none(n: N) ensures plus(n, none()) == n, plus(none(), n) == n { assert(n.ty + Seq::<Type>::empty() =~= n.ty); assert(n.pred + Seq::<WherePredicate>::empty() =~= n.pred); assert(Seq::<Type>::empty() + n.ty =~= n.ty); assert(Seq::<WherePredicate>::empty() + n.pred =~= n.pred); }
proof fn lemma_assoc(a: N, b: N, c: N) ensures plus(plus(a, b), c) == plus(a, plus(b, c)) { assert((a.ty + b.ty) + c.ty =~= a.ty + (b.ty + c.ty)); assert((a.pred + b.pred) + c.pred =~= a.pred + (b.pred + c.pred)); }
proof fn lemma_push(n: N, p: WherePredicate) ensures (N { ty: n.ty, pred: n.pred.push(p) }) == plus(n, N { ty: Seq::empty(), pred: seq![p] }) { assert(n.pred.push(p) =~= n.pred + seq![p]); assert(n.ty + Seq::<Type>::empty() =~= n.ty); }
'''
PRE = dimpl.PRE
PRE = swap(PRE, '''impl Bounds { #[verifier::external_body] pub fn child(&mut self, b: Option<Vec<Bound>>) -> (r: Bounds) { unimplemented!() } }''',
           LEVEL)
PRE = swap(PRE, '''pub fn new(g: &Generics) -> (r: GenericParamSet) { unimplemented!() }''', '''pub fn new(g: &Generics) -> (r: GenericParamSet) ensures r == params(*g) { unimplemented!() }''')
PRE = swap(PRE, '''pub fn from_data(b: Option<Vec<Bound>>) -> (r: Bounds) { unimplemented!() }''', '''pub fn from_data(b: Option<Vec<Bound>>) -> (r: Bounds) ensures now(r) == own(b), r.can_extend == is_open(b) { unimplemented!() }''')
PRE = swap(PRE, '''pub fn build_wheres(self, p: &Path) -> (r: Vec<WherePredicate>) { unimplemented!() }''', '''pub fn build_wheres(self, p: &Path) -> (r: Vec<WherePredicate>) ensures r@ == wheres(now(self), *p) { unimplemented!() }''')
PRE = swap(PRE, '''ensures r is Ok, impl_of(r->Ok_0) == (*i, *p, c.tk()) { unimplemented!() }''', '''ensures r is Ok, impl_wheres(r->Ok_0) == (*p, w@) { unimplemented!() }''')
PRE += '''
pub uninterp spec fn params(g: Generics) -> GenericParamSet;
pub open spec fn wheres(n: N, p: Path) -> Seq<WherePredicate> { n.pred + n.ty.map_values(|t: Type| ty_pred(t, p)) }
pub uninterp spec fn ty_pred(t: Type, p: Path) -> WherePredicate;
pub uninterp spec fn impl_wheres(x: TokenStream) -> (Path, Seq<WherePredicate>);
// ---- what is asked: a value that is written itself, without `with`, asks its type for the trait of its placeholder if a parameter occurs in it
pub open spec fn asks(ty: Type, ft: FormatType, with: Option<Expr>, g: GenericParamSet) -> N {
    if with is None && mentions(g, ty) { N { ty: Seq::empty(), pred: seq![pred_of(ty, t(trait_of(ft)))] } } else { none() }
}
pub open spec fn need_arg(b: B, a: Seq<char>, ft: FormatType, with: Option<Expr>, g: GenericParamSet) -> N decreases (if top(b) { 1int } else { 0int }), 1int, 0int {
    let ks = deep(a);
    if ks.len() == 0 { match b { B::Field(_, f, _) => asks(f.ty, ft, with, g), B::Some_(_, ty) => asks(ty, ft, with, g), _ => none() } }
    else if ks.len() == 1 && top(b) && fields_of(top_fields(b)).dom().contains(ks[0]) { need_field(b, ks[0], fields_of(top_fields(b))[ks[0]], ft, g) }
    else { none() }
}
pub open spec fn need_field(b: B, k: FK, f: Field, ft: FormatType, g: GenericParamSet) -> N decreases (if top(b) { 1int } else { 0int }), 0int, 0int {
    match attrs_of(f.attrs@, false) { None => none(), Some(h) =>
        if !top(b) { none() }
        else if h.opt.span is Some { match option_element(f.ty) { None => none(), Some(inner) => level(h.bound_display, need_some(B::Some_(k, inner), fparts(h.format), ft, h.with, g)) } }
        else { level(h.bound_display, need_some(B::Field(Box::new(b), f, k), fparts(h.format), ft, h.with, g)) } }
}
pub open spec fn need_some(b: B, f: Option<Seq<Part>>, ft: FormatType, with: Option<Expr>, g: GenericParamSet) -> N decreases (if top(b) { 1int } else { 0int }), 3int, 0int {
    match f { None => need_arg(b, Seq::empty(), ft, with, g), Some(v) => need(b, v, with, g) }
}
// a format asks what its placeholders ask, a field that is not in it nothing
pub open spec fn need(b: B, v: Seq<Part>, with: Option<Expr>, g: GenericParamSet) -> N decreases (if top(b) { 1int } else { 0int }), 2int, v.len() {
    if v.len() == 0 { none() } else { plus(need(b, v.drop_last(), with, g), match v.last() { Part::Var(x, f) => match spec_type(f) { Some(ft) => need_arg(b, x, ft, with, g), None => none() }, _ => none() }) }
}
pub open spec fn need_variant(e: HelperAttributes, v: Variant, g: GenericParamSet) -> N {
    match attrs_of(v.attrs@, false) { None => none(), Some(h) => level(h.bound_display, match variant_format(e, h, v.fields) { None => none(), Some(f) => need(B::Variant(v.fields, cased(style_for(e, h), v.ident)), f, None, g) }) }
}
pub open spec fn need_variants(e: HelperAttributes, v: Seq<Variant>, g: GenericParamSet) -> N decreases v.len() { if v.len() == 0 { none() } else { plus(need_variants(e, v.drop_last(), g), need_variant(e, v.last(), g)) } }
pub open spec fn need_struct(f: Fields, h: HelperAttributes, g: GenericParamSet) -> N {
    match (if h.format is Some { fparts(h.format) } else { match newtype(f) { Some(n) => Some(seq![Part::Var(n, Seq::empty())]), None => None } }) { None => none(), Some(v) => need(B::Struct(f), v, None, g) }
}
'''
EXT = '''    proof {
        assert forall|n: N| #[trigger] plus(n, none()) == n by { lemma_none(n); } assert forall|n: N| #[trigger] plus(none(), n) == n by { lemma_none(n); }
        assert forall|a: N, b: N, c: N| #[trigger] plus(plus(a, b), c) == plus(a, plus(b, c)) by { lemma_assoc(a, b, c); }
        assert forall|n: N, p: WherePredicate| #[trigger] plus(n, N { ty: Seq::empty(), pred: seq![p] }) == (N { ty: n.ty, pred: n.pred.push(p) }) by { lemma_push(n, p); }
    }
'''
G = lambda n, q='*final(bounds)': '    ensures r is Ok ==> grew(*old(bounds), %s, %s),' % (q, n)


def fn(items, name, spec, **k):
    f = copy.copy(next(i for i in items if isinstance(i, Fn) and i.name == name))
    f.spec, f.tail = spec, ''
    f.start, f.loops, f.l_start, f.l_end, f.l_after = EXT + k.get('start', ''), k.get('loops', ()), k.get('l_start', {}), k.get('l_end', {}), k.get('l_after', {})
    f.subs = list(k.get('subs', ())) + list(f.subs)
    return f


ITEMS = [i for i in dimpl.ITEMS if isinstance(i, Ty)]
for i, it in enumerate(ITEMS):
    if it.name == 'Bounds':
        ITEMS[i] = Ty('Bounds', keep=['ty', 'pred', 'can_extend'])
D = display.ITEMS
ITEMS += [Stub(f) for f in D if isinstance(f, Fn) and f.name in ('get_newtype_field', 'from_newtype_struct', 'from_unit_variant', 'fields', 'field_expr', 'build_write', 'to_tokens')]
ITEMS += [
    fn(D, 'format_arg', '', ) ,
]
free = next(i for i in D if isinstance(i, Fn) and i.name == 'format_arg' and i.owner == '')
meth = next(i for i in D if isinstance(i, Fn) and i.name == 'format_arg' and i.owner == 'VarBase')
ITEMS.pop()
ITEMS += [
    fn([free], 'format_arg', G('asks(*ty, format_spec.format_type, *with, *cx.generics)')),
    fn([meth], 'format_arg', G('need_arg(bv(*self), arg@, format_spec.format_type, *with, *cx.generics)'), loops=['            invariant true,'],
       start='    let ghost ks = deep(arg@);\n    proof { assert(fks(Seq::<FieldKey>::empty()) =~= Seq::<FK>::empty()); }\n'),
    fn(D, 'format_arg_of_field', '    requires top(bv(*self)),\n' + G('need_field(bv(*self), fk(*key), *field, format_spec.format_type, *cx.generics)')),
    fn(D, 'format_arg_from_some_format', G('need_some(bv(*self), fparts(format), format_spec.format_type, *with, *cx.generics)'), start='    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }\n'),
    fn(D, 'format_args', G('need(bv(*vb), parts_of(self.parts@), *with, *cx.generics)'),
       start='''    let ghost v = parts_of(self.parts@); let ghost b = bv(*vb); let ghost o = *bounds;
    proof { assert(v.take(0) =~= Seq::<Part>::empty()); }
''',
       loops=["""            invariant it0.seq().len() == self.parts@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.parts@[i], 0 <= it0.index() <= it0.seq().len(),
                grew(o, *bounds, need(b, v.take(it0.index() as int), *with, *cx.generics)),"""],
       l_start={0: '''
            proof { let i = it0.index() as int; assert(v.take(i + 1).drop_last() =~= v.take(i)); assert(v.take(i + 1).last() == v[i]); assert(v[i] == part(*p)); }
'''},
       l_after={0: '\n        proof { assert(v.take(v.len() as int) =~= v); }\n'}),
    fn(dimpl.ITEMS, 'derive_display_for_struct', '''    ensures r is Ok ==> ({ let h = attrs_of(input.attrs@, false)->0; attrs_of(input.attrs@, false) is Some && ({ let p = path_of("::core::fmt::Display"@);
        impl_wheres(r->Ok_0) == (p, wheres(level(h.bound_display, need_struct(data.fields, h, params(input.generics))), p)) }) }),'''),
    fn(dimpl.ITEMS, 'make_arm', G('need_variant(*hattrs_enum, *variant, *cx.generics)')),
    fn(dimpl.ITEMS, 'derive_display_for_enum', '''    ensures r is Ok ==> ({ let h = attrs_of(input.attrs@, false)->0; attrs_of(input.attrs@, false) is Some && ({ let p = path_of("::core::fmt::Display"@);
        impl_wheres(r->Ok_0) == (p, wheres(level(h.bound_display, need_variants(h, data.variants@, params(input.generics))), p)) }) }),''',
       start='    let ghost vs = data.variants@; let ghost gs = params(input.generics);\n    proof { assert(vs.take(0) =~= Seq::<Variant>::empty()); }\n',
       subs=[(r'let mut arms\b', 'let ghost o = bounds; let mut arms')],
       loops=["""            invariant it0.seq().len() == vs.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == vs[i], 0 <= it0.index() <= it0.seq().len(),
                grew(o, bounds, need_variants(hattrs, vs.take(it0.index() as int), gs)),"""],
       l_start={0: '\n            proof { let i = it0.index() as int; assert(vs.take(i + 1).drop_last() =~= vs.take(i)); assert(vs.take(i + 1).last() == vs[i]); }\n'},
       l_after={0: '\n        proof { assert(vs.take(vs.len() as int) =~= vs); }\n'}),
]
UNIT = Unit('dbounds', PRE, ITEMS, rename=display.RENAME, assumed=[
    'what the units display and dimpl assume', 'Bounds::{child, from_data, build_wheres} and the drop of a child (proved in unit bounds on an owned parent; assumed here with the child as a reborrow)',
    'GenericParamSet (unit types), HelperAttributes::from (unit attrs)', 'only what an accepted derive asks is specified'])
