import re
from vx import *
from vu.common import *

PRE = '''
#[derive(Clone, Copy)] pub struct Type { pub id: u64 }
pub struct WherePredicate { pub id: u64 }
pub struct DotDot { pub x: u8 }
pub struct Path { pub id: u64 }
// the predicate `T: Trait` (assumed: parse_quote! builds what it spells)
pub uninterp spec fn ty_pred(t: Type, p: Path) -> WherePredicate;
#[verifier::external_body] pub fn vx_ty_pred(t: Type, p: &Path) -> (r: WherePredicate) ensures r == ty_pred(t, *p) { unimplemented!() }
// ---- what a `bound(...)` list stands for: the types, the predicates, and whether the inner levels are asked too
pub open spec fn tys(v: Seq<Bound>) -> Seq<Type> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { match v.last() { Bound::Type(t) => tys(v.drop_last()).push(t), _ => tys(v.drop_last()) } }
}
pub open spec fn preds(v: Seq<Bound>) -> Seq<WherePredicate> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { match v.last() { Bound::Pred(t) => preds(v.drop_last()).push(t), _ => preds(v.drop_last()) } }
}
pub open spec fn has_dots(v: Seq<Bound>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Default }
pub open spec fn represents(b: Bounds, v: Option<Seq<Bound>>) -> bool {
    match v {
        None => b.ty@.len() == 0 && b.pred@.len() == 0 && b.can_extend,
        Some(l) => b.ty@ == tys(l) && b.pred@ == preds(l) && b.can_extend == has_dots(l),
    }
}
pub open spec fn optv(o: Option<Vec<Bound>>) -> Option<Seq<Bound>> { match o { Some(v) => Some(v@), None => None } }
// ---- what the fields of a struct or variant add for FromStr
pub struct Error { pub x: u8 }
pub fn vx_error(s: Span) -> Error { Error { x: 0 } }
pub type Result<T, E = Error> = std::result::Result<T, E>;
#[derive(Clone, Copy)] pub struct Span { pub x: u8 }
#[derive(Clone, Copy)] pub struct Flag { pub span: Option<Span> }
impl Flag { pub fn value(&self) -> (r: bool) ensures r == (self.span is Some) { self.span.is_some() } }
pub struct Expr { pub x: u8 } pub struct Field { pub ty: Type }
impl Type { #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct FieldKey { x: u8 }
impl FieldKey { #[verifier::external_body] pub fn from_field(i: usize, f: &Field) -> FieldKey { unimplemented!() } }
// proved in unit types
pub uninterp spec fn option_element(t: Type) -> Option<Type>;
#[verifier::external_body] pub fn get_option_element(t: &Type) -> (r: Option<&Type>) ensures match r { Some(e) => option_element(*t) == Some(*e), None => option_element(*t) is None } { unimplemented!() }
#[verifier::external_body] pub struct GenericParamSet { x: u8 }
pub uninterp spec fn mentions(t: Type, g: GenericParamSet) -> bool;
impl GenericParamSet { #[verifier::external_body] pub fn contains_in_type(&self, t: &Type) -> (r: bool) ensures r == mentions(*t, *self) { unimplemented!() } }
// proved in unit attrs: its own bounds for FromStr, else those of Display
pub open spec fn resolved(h: HelperAttributes) -> Option<Seq<Bound>> { if h.bound_from_str is Some { optv(h.bound_from_str) } else { optv(h.bound_display) } }
impl HelperAttributes { #[verifier::external_body] pub fn bound_from_str_resolved(&self) -> (r: Option<Vec<Bound>>) ensures optv(r) == resolved(*self) { unimplemented!() } }
// the fields, in the order of their names
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct FieldMap<V> { x: Vec<V> }
impl<V> FieldMap<V> { pub uninterp spec fn seq(&self) -> Seq<V>; }
#[verifier::external_body] pub fn vx_entries<'c, V>(m: &'c FieldMap<V>) -> (r: Vec<(usize, &'c V)>) ensures r@.len() == m.seq().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).1 == m.seq()[i] { unimplemented!() }
#[verifier::external_body] pub fn vx_take(b: &mut Bounds) -> (r: Bounds) ensures r == *old(b) { unimplemented!() }
// a field asks for something of itself where it is read from the text directly, without a format of its own, and its level is open
pub open spec fn open_level(e: FieldEntry) -> bool { match resolved(e.hattrs) { None => true, Some(l) => has_dots(l) } }
pub open spec fn asks(e: FieldEntry) -> bool { open_level(e) && e.capture is Some && e.hattrs.with is None }
pub open spec fn asked_type(e: FieldEntry) -> Type { if e.hattrs.opt.span is Some && option_element(e.source.ty) is Some { option_element(e.source.ty)->0 } else { e.source.ty } }
pub open spec fn fine(e: FieldEntry) -> bool { asks(e) && e.hattrs.opt.span is Some ==> option_element(e.source.ty) is Some }
pub open spec fn field_tys(e: FieldEntry, g: GenericParamSet) -> Seq<Type> {
    (match resolved(e.hattrs) { None => Seq::empty(), Some(l) => tys(l) }) + (if asks(e) && mentions(asked_type(e), g) { seq![asked_type(e)] } else { Seq::empty() })
}
pub open spec fn field_preds(e: FieldEntry) -> Seq<WherePredicate> { match resolved(e.hattrs) { None => Seq::empty(), Some(l) => preds(l) } }
pub open spec fn all_tys(v: Seq<FieldEntry>, g: GenericParamSet) -> Seq<Type> decreases v.len() { if v.len() == 0 { Seq::empty() } else { all_tys(v.drop_last(), g) + field_tys(v.last(), g) } }
pub open spec fn all_preds(v: Seq<FieldEntry>) -> Seq<WherePredicate> decreases v.len() { if v.len() == 0 { Seq::empty() } else { all_preds(v.drop_last()) + field_preds(v.last()) } }
pub open spec fn ty_preds(v: Seq<Type>, p: Path) -> Seq<WherePredicate> { v.map_values(|t: Type| ty_pred(t, p)) }
'''
POST = '''
// ---- a level without `bound` asks the inner levels; `bound()` without `..` asks nobody
proof fn lemma_levels(b: Bounds, v: Option<Seq<Bound>>)
    requires represents(b, v)
    ensures v is None ==> b.can_extend, v is Some && !has_dots(v->0) ==> !b.can_extend, v is Some && v->0.len() == 0 ==> b.ty@.len() == 0 && b.pred@.len() == 0 && !b.can_extend
{ }
'''
FOR = '''            invariant it0.seq().len() == %s, '''
UNIT = Unit('bounds', PRE, [
    Ty('Bound', subs=[(r'Token!\[\.\.\]', 'DotDot')]),
    Ty('Bounds'),
    Ty('BoundsChild', subs=[(r"<'a>", ''), (r"&'a mut ", '')]),
    Fn('Bounds', 'new', spec='    ensures r.ty@.len() == 0, r.pred@.len() == 0, r.can_extend == can_extend,'),
    Fn('Bounds', 'push', spec='''    ensures final(self).ty@ == (match bound { Bound::Type(t) => old(self).ty@.push(t), _ => old(self).ty@ }),
        final(self).pred@ == (match bound { Bound::Pred(t) => old(self).pred@.push(t), _ => old(self).pred@ }),
        final(self).can_extend == (old(self).can_extend || bound is Default),'''),
    Fn('Bounds', 'from_data', head='    #[verifier::loop_isolation(false)]', spec='    ensures represents(r, optv(bound)),',
       start='    let ghost whole = optv(bound);\n',
       loops=['''            invariant whole is Some, it0.seq() == whole->0, bs.ty@ == tys(whole->0.take(it0.index() as int)), bs.pred@ == preds(whole->0.take(it0.index() as int)),
                bs.can_extend == has_dots(whole->0.take(it0.index() as int)),'''],
       l_start={0: '''
            proof {
                let v = whole->0; let i = it0.index() as int;
                assert(v.take(i + 1).drop_last() =~= v.take(i));
                assert(v.take(i + 1).last() == v[i]);
                assert(has_dots(v.take(i + 1)) == (has_dots(v.take(i)) || v[i] is Default)) by {
                    if v[i] is Default { assert(v.take(i + 1)[i] is Default); }
                    if has_dots(v.take(i)) { let k = choose|k: int| 0 <= k < i && (#[trigger] v.take(i)[k]) is Default; assert(v.take(i + 1)[k] is Default); }
                    if has_dots(v.take(i + 1)) { let k = choose|k: int| 0 <= k < i + 1 && (#[trigger] v.take(i + 1)[k]) is Default; if k < i { assert(v.take(i)[k] is Default); } }
                }
            }
'''}, l_after={0: '''
            proof { assert(whole->0.take(whole->0.len() as int) =~= whole->0); }
'''}),
    # the mutable borrow of the parent, which lasts as long as the child, is taken as ownership
    Fn('Bounds', 'child', sig=[(r"&mut self", 'self'), (r"BoundsChild<'_>", 'BoundsChild')],
       spec='''    ensures r.owner == self, self.can_extend ==> represents(r.bounds, optv(bounds)),
        !self.can_extend ==> r.bounds.ty@.len() == 0 && r.bounds.pred@.len() == 0 && !r.bounds.can_extend,'''),
    Fn("Drop for BoundsChild", 'drop', emit_owner='impl BoundsChild', sig=[(r'fn drop', 'fn vx_drop')],
       spec='''    ensures final(self).owner.can_extend == old(self).owner.can_extend,
        old(self).owner.can_extend ==> final(self).owner.ty@ == old(self).owner.ty@ + old(self).bounds.ty@ && final(self).owner.pred@ == old(self).owner.pred@ + old(self).bounds.pred@,
        !old(self).owner.can_extend ==> final(self).owner == old(self).owner,'''),
    Fn('Bounds', 'build_wheres', head='    #[verifier::loop_isolation(false)]', subs=[(r'parse_quote!\(#(\w+) ?: ?#trait_path\)', r'vx_ty_pred(\1, trait_path)')],
       start='    let ghost me = self;\n',
       spec='    ensures r@ == self.pred@ + ty_preds(self.ty@, *trait_path),',
       loops=['''            invariant it0.seq() == me.ty@, pred@ == me.pred@ + ty_preds(me.ty@.take(it0.index() as int), *trait_path),'''],
       l_start={0: '''
            proof {
                let i = it0.index() as int;
                assert(me.ty@.take(i + 1) =~= me.ty@.take(i).push(me.ty@[i]));
                assert(me.pred@ + ty_preds(me.ty@.take(i + 1), *trait_path) =~= (me.pred@ + ty_preds(me.ty@.take(i), *trait_path)).push(ty_pred(me.ty@[i], *trait_path)));
            }
'''}, l_after={0: '''
        proof { assert(me.ty@.take(me.ty@.len() as int) =~= me.ty@); }
'''}),
    # a whole level: what the parent has after a child went out of scope
    '''
pub fn level(parent: Bounds, own: Option<Vec<Bound>>) -> (r: Bounds)
    ensures r.can_extend == parent.can_extend,
        parent.can_extend ==> r.ty@ == parent.ty@ + (match own { Some(v) => tys(v@), None => Seq::empty() }) && r.pred@ == parent.pred@ + (match own { Some(v) => preds(v@), None => Seq::empty() }),
        !parent.can_extend ==> r == parent,
{
    let ghost o = optv(own);
    let ghost pt = parent.ty@;
    let ghost pp = parent.pred@;
    let ghost ext = parent.can_extend;
    let mut c = parent.child(own);
    let ghost before = c;
    c.vx_drop();
    proof { if ext && o is None { assert(before.bounds.ty@ =~= Seq::<Type>::empty()); assert(before.bounds.pred@ =~= Seq::<WherePredicate>::empty()); } }
    proof { if ext && o is None { assert(pt + Seq::<Type>::empty() =~= pt); assert(pp + Seq::<WherePredicate>::empty() =~= pp); } }
    c.owner
}
''',
    Ty('HelperAttributes', keep=['with', 'opt', 'bound_display', 'bound_from_str']),
    Ty('FieldEntry', keep=['hattrs', 'source', 'capture']),
    Ty('ParserBuilder', keep=['fields'], subs=[(r"pub\(crate\) ", ''), (r"BTreeMap<FieldKey, FieldEntry<'a>>", "FieldMap<FieldEntry<'a>>")]),
    # the level of a field lives in one turn of the loop: its drop is written out at the end of the turn
    Fn('ParserBuilder', 'build_bounds', emit_owner="impl<'a> ParserBuilder<'a>", head='    #[verifier::loop_isolation(false)]',
       subs=[(r'self\.fields\.values\(\)\.enumerate\(\)', 'vx_entries(&self.fields)'), (r'(?s)let mut bounds = bounds\.child\((.*?)\);(.*)$', lambda m: 'let mut vx_c = vx_take(bounds).child(%s); let ghost vx_b = vx_c;%s' % (m.group(1), re.sub(r'(?<!\.)\bbounds\.', 'vx_c.bounds.', m.group(2)))),
             (r'bail!\(([\w.()]+), "(?:\\.|[^"\\])*"\);?', r'return Err(vx_error(\1));')],
       start='    let ghost b0 = *bounds; let ghost v = self.fields.seq(); proof { assert(v.take(0) =~= Seq::<FieldEntry>::empty()); assert(b0.ty@ + Seq::<Type>::empty() =~= b0.ty@); assert(b0.pred@ + Seq::<WherePredicate>::empty() =~= b0.pred@); }\n',
       loops=['''            invariant b0.can_extend, it0.seq().len() == v.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]).1 == v[i], (*bounds).can_extend,
                (*bounds).ty@ == b0.ty@ + all_tys(v.take(it0.index() as int), *generics), (*bounds).pred@ == b0.pred@ + all_preds(v.take(it0.index() as int)),
                forall|i: int| 0 <= i < it0.index() ==> fine(#[trigger] v[i]),'''],
       l_start={0: '''
            let ghost t0 = (*bounds).ty@; let ghost p0 = (*bounds).pred@; let ghost ix = it0.index() as int;
            proof { assert(v.take(ix + 1).drop_last() =~= v.take(ix)); assert(v.take(ix + 1).last() == v[ix]); assert(*field == v[ix]); }
'''},
       l_end={0: '''
            proof { let l = resolved(v[ix].hattrs); assert(vx_b.bounds.ty@ =~= (match l { None => Seq::empty(), Some(l) => tys(l) })); assert(vx_b.bounds.pred@ =~= field_preds(v[ix])); assert(vx_b.bounds.can_extend == open_level(v[ix])); assert(vx_c.bounds.pred@ == vx_b.bounds.pred@);
                assert(vx_c.bounds.ty@ =~= field_tys(v[ix], *generics)); }
            vx_c.vx_drop(); *bounds = vx_c.owner;
            proof { assert((*bounds).ty@ =~= b0.ty@ + all_tys(v.take(ix + 1), *generics)); assert((*bounds).pred@ =~= b0.pred@ + all_preds(v.take(ix + 1))); }
'''},
       l_after={0: ' proof { assert(v.take(v.len() as int) =~= v); }\n'},
       spec='''    ensures !old(bounds).can_extend ==> r is Ok && *final(bounds) == *old(bounds),
        old(bounds).can_extend ==> (r is Ok) == (forall|i: int| 0 <= i < self.fields.seq().len() ==> fine(#[trigger] self.fields.seq()[i])),
        old(bounds).can_extend && r is Ok ==> final(bounds).can_extend && final(bounds).ty@ == old(bounds).ty@ + all_tys(self.fields.seq(), *generics) && final(bounds).pred@ == old(bounds).pred@ + all_preds(self.fields.seq()),'''),
], post=POST, assumed=['get_option_element, GenericParamSet::contains_in_type, bound_from_str_resolved (assumed here, proved in units types and attrs)', 'parse_quote!(#ty : #trait_path) builds that predicate', 'BoundsChild borrows its parent for as long as it lives: taken as ownership (rewritten `&mut self`, `&\'a mut`)'])
