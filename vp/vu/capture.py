from vx import *
from vu.common import *

PRE = STR_EXT + '''
pub struct Error { pub x: u8 }
#[derive(Clone, Copy)] pub struct Span { pub x: u8 }
pub struct DataStruct { pub x: u8 } pub struct Variant { pub x: u8 } pub struct Field { pub x: u8 } pub struct Type { pub x: u8 } pub struct DisplayStyle { pub x: u8 }
// usize::to_string
pub uninterp spec fn dec(n: usize) -> Seq<char>;
#[verifier::external_body] pub broadcast proof fn axiom_dec(a: usize, b: usize) ensures #[trigger] dec(a) == #[trigger] dec(b) ==> a == b { }
#[verifier::external_body] pub fn vx_fmt1(pre: &str, n: usize) -> (r: String) ensures r@ == pre@ + dec(n) { unimplemented!() }
pub open spec fn name_of(n: usize) -> Seq<char> { "value_"@ + dec(n) }
proof fn lemma_names(a: usize, b: usize) requires name_of(a) == name_of(b) ensures a == b
{
    broadcast use axiom_dec;
    reveal_strlit("value_");
    assert(name_of(a).skip(6) =~= dec(a)); assert(name_of(b).skip(6) =~= dec(b));
}
pub open spec fn fks(v: Seq<FieldKey>) -> Seq<FK> { v.map_values(|k: FieldKey| fk(k)) }
pub enum FK { Named(Seq<char>), Unnamed(usize) }
pub open spec fn fk(k: FieldKey) -> FK { match k { FieldKey::Named(s) => FK::Named(s@), FieldKey::Unnamed(n) => FK::Unnamed(n) } }
// ---- stand-ins for the two BTreeMaps: functions of the key as a value
#[verifier::external_body] pub struct DeepMap { x: u8 }
impl DeepMap {
    pub uninterp spec fn m(&self) -> Map<Seq<FK>, usize>;
    #[verifier::external_body] pub fn get(&self, k: &[FieldKey]) -> (r: Option<&usize>)
        ensures match r { Some(i) => self.m().dom().contains(fks(k@)) && *i == self.m()[fks(k@)], None => !self.m().dom().contains(fks(k@)) } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Vec<FieldKey>, v: usize) ensures final(self).m() == old(self).m().insert(fks(k@), v) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_to_vec(k: &[FieldKey]) -> (r: Vec<FieldKey>) ensures fks(r@) == fks(k@) { unimplemented!() }
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct FieldMap<V> { x: Vec<V> }
impl<V> FieldMap<V> {
    pub uninterp spec fn m(&self) -> Map<FK, V>;
    #[verifier::external_body] pub fn get_mut(&mut self, k: &FieldKey) -> (r: Option<&mut V>)
        ensures match r { Some(v) => old(self).m().dom().contains(fk(*k)) && *v == old(self).m()[fk(*k)] && final(self).m() == old(self).m().insert(fk(*k), *final(v)),
            None => !old(self).m().dom().contains(fk(*k)) && *final(self) == *old(self) } { unimplemented!() }
}
// ---- the numbering of the placeholders
pub struct Slot { pub field: FK, pub path: Seq<FK> }
// the number of a placeholder (field, path below it)
pub open spec fn slot(fs: Map<FK, FieldEntry>, s: Slot) -> Option<usize> {
    if !fs.dom().contains(s.field) { None } else if s.path.len() == 0 { fs[s.field].capture }
    else if fs[s.field].deep_captures.m().dom().contains(s.path) { Some(fs[s.field].deep_captures.m()[s.path]) } else { None }
}
// every number is below the next one and no two placeholders share one
pub open spec fn numbered(fs: Map<FK, FieldEntry>, next: usize) -> bool {
    (forall|a: Slot| (#[trigger] slot(fs, a)) is Some ==> slot(fs, a)->0 < next)
    && (forall|a: Slot, b: Slot| (#[trigger] slot(fs, a)) is Some && slot(fs, a) == #[trigger] slot(fs, b) ==> a == b)
}
pub open spec fn own_slot(f: FieldEntry, p: Seq<FK>) -> Option<usize> {
    if p.len() == 0 { f.capture } else if f.deep_captures.m().dom().contains(p) { Some(f.deep_captures.m()[p]) } else { None }
}
// the field has p numbered n and everything else as before
pub open spec fn set_to(old_: FieldEntry, new: FieldEntry, p: Seq<FK>, n: usize) -> bool {
    own_slot(new, p) == Some(n) && forall|q: Seq<FK>| !(q =~= p) ==> #[trigger] own_slot(new, q) == own_slot(old_, q)
}
'''
POST = '''
proof fn lemma_numbering(fs: Map<FK, FieldEntry>, gs: Map<FK, FieldEntry>, k: FK, p: Seq<FK>, n: usize, next: usize, next2: usize)
    requires numbered(fs, next), fs.dom().contains(k), gs.dom() == fs.dom(), set_to(fs[k], gs[k], p, n), forall|j: FK| j != k ==> gs[j] == fs[j],
        own_slot(fs[k], p) is Some ==> n == own_slot(fs[k], p)->0 && next2 == next, own_slot(fs[k], p) is None ==> n == next && next2 == next + 1,
    ensures numbered(gs, next2), slot(gs, Slot { field: k, path: p }) == Some(n)
{
    let t = Slot { field: k, path: p };
    assert forall|a: Slot| a != t implies #[trigger] slot(gs, a) == slot(fs, a) by { if a.field == k { assert(!(a.path =~= p)); assert(own_slot(gs[k], a.path) == own_slot(fs[k], a.path)); } }
    assert(slot(gs, t) == Some(n));
    assert(slot(fs, t) == own_slot(fs[k], p));
}
'''
UNIT = Unit('capture', PRE, [
    Ty('FieldKey'),
    Ty('FieldEntry', keep=['deep_captures', 'capture', 'use_default'], subs=[(r"<'a>", ''), (r'BTreeMap<Vec<FieldKey>, usize>', 'DeepMap')]),
    Ty('VarBase'),
    Ty('ParserBuilder', keep=['capture_next', 'fields'], subs=[(r"pub\(crate\) ", ''), (r"<'a>", ''), (r'BTreeMap<FieldKey, FieldEntry>', 'FieldMap<FieldEntry>')]),
    Const('CAPTURE_NAME_EMPTY', subs=[(r'&str', "&'static str")]),
    'pub fn vx_error(s: Span) -> Error { Error { x: 0 } }\n#[verifier::external_body] pub fn vx_into(s: &str) -> (r: String) ensures r@ == s@ { s.into() }',
    Fn('', 'capture_name', subs=[(r'format!\("([\w ]*)\{(\w+)\}"\)', r'vx_fmt1("\1", \2)')], spec='    ensures r@ == name_of(idx),'),
    Fn("FieldEntry", 'set_capture', emit_owner='impl FieldEntry', subs=[(r'Some\(&(\w+)\) = ([^{]*?) \{', r'Some(vx_\1) = \2 { let \1 = *vx_\1;'), (r'(\w+)\.to_vec\(\)', r'vx_to_vec(\1)')],
       spec='''    requires *old(capture_next) < usize::MAX,
    ensures ({ let p = fks(keys@); match own_slot(*old(self), p) {
        Some(n) => r@ == name_of(n) && *final(capture_next) == *old(capture_next) && *final(self) == *old(self),
        None => r@ == name_of(*old(capture_next)) && *final(capture_next) == *old(capture_next) + 1 && set_to(*old(self), *final(self), p, *old(capture_next)) } }),'''),
    Fn('', 'field_of', sig=[(r"<'a, 'b>", "<'a>"), (r"BTreeMap<FieldKey, FieldEntry<'b>>", 'FieldMap<FieldEntry>'), (r"FieldEntry<'b>", 'FieldEntry'), (r'-> Result<(.*)>$', r'-> Result<\1, Error>')],
       subs=[(r'bail!\(span, [^;]*\);', 'return Err(vx_error(span));')],
       spec='''    ensures match r { Ok(v) => old(fields).m().dom().contains(fk(*key)) && *v == old(fields).m()[fk(*key)] && final(fields).m() == old(fields).m().insert(fk(*key), *final(v)),
        Err(_) => !old(fields).m().dom().contains(fk(*key)) && *final(fields) == *old(fields) },'''),
    Fn("ParserBuilder", 'set_capture', emit_owner='impl ParserBuilder', tail='''
        proof {
            let ks = fks(keys@);
            let s = match *vb { VarBase::Field { key, .. } => Slot { field: fk(*key), path: ks }, _ => Slot { field: ks[0], path: ks.skip(1) } };
            let a = old(self).fields.m(); let b = self.fields.m();
            assert(fks(sub_keys@) =~= s.path);
            assert(b.dom() =~= a.dom());
            assert(s == Slot { field: s.field, path: fks(sub_keys@) });
            lemma_numbering(a, b, s.field, s.path, match own_slot(a[s.field], s.path) { Some(n) => n, None => old(self).capture_next }, old(self).capture_next, self.capture_next);
        }
''', sig=[(r'-> Result<(.*)>$', r'-> Result<\1, Error>')], subs=[(r'CAPTURE_NAME_EMPTY\.into\(\)', 'vx_into(CAPTURE_NAME_EMPTY)')],
       spec='''    requires numbered(old(self).fields.m(), old(self).capture_next), old(self).capture_next < usize::MAX,
    ensures numbered(final(self).fields.m(), final(self).capture_next), final(self).fields.m().dom() == old(self).fields.m().dom(),
        r is Err ==> *final(self) == *old(self),
        ({ let ks = fks(keys@); let s = match *vb { VarBase::Field { key, .. } => Slot { field: fk(*key), path: ks }, _ => Slot { field: ks[0], path: ks.skip(1) } };
           if !(*vb is Field) && ks.len() == 0 { r is Ok && r->Ok_0@ == "empty"@ && *final(self) == *old(self) }
           else { (r is Ok) == old(self).fields.m().dom().contains(s.field) && (r is Ok ==> slot(final(self).fields.m(), s) is Some && r->Ok_0@ == name_of(slot(final(self).fields.m(), s)->0)) } }),'''),
], post=POST, assumed=['BTreeMap is taken as a map on the values of its keys (assumed contracts on get, get_mut, insert)', 'decimal texts of two numbers differ (axiom)', '`bail!` is taken as returning an error',
                       'machine arithmetic: fewer than usize::MAX captures (precondition)'])
