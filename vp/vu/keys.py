from vx import *
from vu.common import *

PRE = STR_EXT + STR_X + '''
pub trait StringX {
    fn vx_drain(&mut self, r: std::ops::Range<usize>)
        requires r.start == 0, r.end <= old(self).sv().len(), forall|i: int| 0 <= i < r.end ==> (#[trigger] old(self).sv()[i]) < '\\u{80}',
        ensures final(self).sv() == old(self).sv().skip(r.end as int);
    spec fn sv(&self) -> Seq<char>;
}
impl StringX for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_drain(&mut self, r: std::ops::Range<usize>) { self.drain(r); }
}
// ---- the specification: a key is an index if it reads as a number, otherwise the name without its `r#`
pub enum Key { Named(Seq<char>), Unnamed(usize) }
pub open spec fn view(k: FieldKey) -> Key { match k { FieldKey::Named(s) => Key::Named(s@), FieldKey::Unnamed(i) => Key::Unnamed(i) } }
pub open spec fn unraw(s: Seq<char>) -> Seq<char> { if s.len() >= 2 && s[0] == 'r' && s[1] == '#' { s.skip(2) } else { s } }
pub open spec fn key_of(s: Seq<char>) -> Key { match usize_of(s) { Some(i) => Key::Unnamed(i), None => Key::Named(unraw(s)) } }
proof fn lemma_raw(s: Seq<char>)
    ensures starts(s, "r#"@) == (s.len() >= 2 && s[0] == 'r' && s[1] == '#'), "r#"@.len() == 2
{
    reveal_strlit("r#");
    if s.len() >= 2 && s[0] == 'r' && s[1] == '#' { assert(s.take(2) =~= "r#"@); }
    if starts(s, "r#"@) { assert(s.take(2)[0] == 'r' && s.take(2)[1] == '#'); }
}
// stand-ins for syn
#[verifier::external_body] pub struct Ident { s: String }
pub uninterp spec fn id_text(i: &Ident) -> Seq<char>;
impl Ident {
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == id_text(self) { unimplemented!() }
}
pub struct Index { pub index: u32 }
pub enum Member { Named(Ident), Unnamed(Index) }
pub struct Field { pub ident: Option<Ident>, pub rest: FieldRest }
#[verifier::external_body] pub struct FieldRest { x: u8 }
pub enum Fields { Named(FieldsNamed), Unnamed(FieldsUnnamed), Unit }
pub struct FieldsNamed { pub named: Punctuated } pub struct FieldsUnnamed { pub unnamed: Punctuated }
#[verifier::external_body] pub struct Punctuated { x: Vec<Field> }
impl View for Punctuated { type V = Seq<Field>; uninterp spec fn view(&self) -> Seq<Field>; }
impl Punctuated { #[verifier::external_body] pub fn iter<'a>(&'a self) -> (r: Iter<'a>) ensures r.s() == self@ { unimplemented!() } }
#[verifier::external_body] pub struct Iter<'a> { x: &'a Field }
#[verifier::external_body] pub struct Numbered<'a> { x: &'a Field }
impl<'a> Iter<'a> {
    pub uninterp spec fn s(&self) -> Seq<Field>;
    #[verifier::external_body] pub fn enumerate(self) -> (r: Numbered<'a>) ensures r.s() == self.s() { unimplemented!() }
    #[verifier::external_body] pub fn map<R, F: Fn(&'a Field) -> R>(self, f: F) -> (r: Vec<R>) requires forall|x: &Field| self.s().contains(*x) ==> f.requires((x,))
        ensures r@.len() == self.s().len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((&self.s()[i],), #[trigger] r@[i]) { unimplemented!() }
}
impl<'a> Numbered<'a> {
    pub uninterp spec fn s(&self) -> Seq<Field>;
    #[verifier::external_body] pub fn map<R, F: Fn((usize, &'a Field)) -> R>(self, f: F) -> (r: Vec<R>) requires forall|i: usize, x: &Field| f.requires(((i, x),))
        ensures r@.len() == self.s().len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures(((i as usize, &self.s()[i]),), #[trigger] r@[i]) { unimplemented!() }
}
impl Fields {
    pub open spec fn list(&self) -> Seq<Field> { match self { Fields::Named(f) => f.named@, Fields::Unnamed(f) => f.unnamed@, Fields::Unit => Seq::empty() } }
    #[verifier::external_body] pub fn iter<'a>(&'a self) -> (r: std::vec::IntoIter<&'a Field>)
        ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.remaining().len() == self.list().len(), forall|i: int| 0 <= i < r.remaining().len() ==> *#[trigger] r.remaining()[i] == self.list()[i] { unimplemented!() }
}
// .iter().enumerate(), collected
#[verifier::external_body] pub fn vx_enumerate<'a>(v: std::vec::IntoIter<&'a Field>) -> (r: Vec<(usize, &'a Field)>)
    requires v.obeys_prophetic_iter_laws(), v.will_return_none()
    ensures r@.len() == v.remaining().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == v.remaining()[i] { unimplemented!() }
// the decimal text of a number; of a written value
pub uninterp spec fn dec(n: usize) -> Seq<char>;
#[verifier::external_body] pub broadcast proof fn axiom_dec(n: usize) ensures usize_of(#[trigger] dec(n)) == Some(n), digits(dec(n)) { }
pub trait Show { spec fn text(&self) -> Seq<char>; }
impl Show for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl Show for usize { open spec fn text(&self) -> Seq<char> { dec(*self) } }
impl<T: Show + ?Sized> Show for &T { open spec fn text(&self) -> Seq<char> { (*self).text() } }
impl Show for FieldKey { open spec fn text(&self) -> Seq<char> { shown(view(*self)) } }
pub open spec fn shown(k: Key) -> Seq<char> { match k { Key::Named(s) => s, Key::Unnamed(i) => dec(i) } }
#[verifier::external_body] pub fn vx_cat<T: Show>(p: &str, t: T) -> (r: String) ensures r@ == p@ + t.text() { unimplemented!() }
#[verifier::external_body] pub struct Formatter { s: String }
impl Formatter { pub uninterp spec fn out(&self) -> Seq<char>; }
pub struct FmtError { pub x: u8 }
#[verifier::external_body] pub fn vx_write<T: Show>(f: &mut Formatter, t: T) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(f).out() == old(f).out() + t.text() { unimplemented!() }
// names a field can have (without `r#`), and identifiers
pub uninterp spec fn field_name(s: Seq<char>) -> bool;
pub uninterp spec fn identifier(s: Seq<char>) -> bool;
#[verifier::external_body] pub broadcast proof fn axiom_name_raw(s: Seq<char>) requires field_name(s) ensures #[trigger] identifier("r#"@ + s) { }
#[verifier::external_body] pub broadcast proof fn axiom_name_value(s: Seq<char>) requires field_name(s) || digits(s) ensures #[trigger] identifier("_value_"@ + s) { }
#[verifier::external_body] pub broadcast proof fn axiom_name_under(s: Seq<char>) requires digits(s) ensures #[trigger] identifier("_"@ + s) { }
pub trait Parsed: Sized { spec fn parses(s: Seq<char>) -> bool; spec fn as_parsed(&self, s: Seq<char>) -> bool; }
impl Parsed for Ident { open spec fn parses(s: Seq<char>) -> bool { identifier(s) } open spec fn as_parsed(&self, s: Seq<char>) -> bool { id_text(self) == s } }
impl Parsed for Index { open spec fn parses(s: Seq<char>) -> bool { usize_of(s) is Some && usize_of(s)->0 <= u32::MAX && digits(s) } open spec fn as_parsed(&self, s: Seq<char>) -> bool { usize_of(s) == Some(self.index as usize) } }
pub struct SynError { pub x: u8 }
impl std::fmt::Debug for SynError { #[verifier::external_body] fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
#[verifier::external_body] pub fn vx_parse_str<T: Parsed>(s: &String) -> (r: Result<T, SynError>) ensures T::parses(s@) ==> r is Ok, r is Ok ==> r->Ok_0.as_parsed(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_format_ident<T: Show>(p: &str, t: T) -> (r: Ident) requires identifier(p@ + t.text()) ensures id_text(&r) == p@ + t.text() { unimplemented!() }
// the map of the fields by their keys: an entry replaces the one of an equal key
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct BTreeMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<'b> BTreeMap<FieldKey, &'b Field> {
    pub uninterp spec fn m(&self) -> Map<Key, Field>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.m() == Map::<Key, Field>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: FieldKey, v: &'b Field) ensures final(self).m() == old(self).m().insert(view(k), *v) { unimplemented!() }
}
pub open spec fn key_at(f: Seq<Field>, i: int) -> Key { match f[i].ident { Some(id) => key_of(id_text(&id)), None => Key::Unnamed(i as usize) } }
pub open spec fn mapped(f: Seq<Field>, n: int) -> Map<Key, Field> decreases n { if n <= 0 { Map::empty() } else { mapped(f, n - 1).insert(key_at(f, n - 1), f[n - 1]) } }
// a key of a field: the plain text of an identifier, or an index that syn can hold
pub open spec fn key_ok(k: Key) -> bool { match k { Key::Named(s) => field_name(s), Key::Unnamed(i) => i <= u32::MAX } }
// what Rust reads behind `value.`: a raw identifier is its name
pub open spec fn member_names(m: Member, k: Key) -> bool { match m { Member::Named(i) => k is Named && id_text(&i) == "r#"@ + k->Named_0, Member::Unnamed(n) => k is Unnamed && n.index == k->Unnamed_0 } }
// texts with a separator between them
pub open spec fn texts<T: Show>(v: Seq<T>) -> Seq<Seq<char>> { v.map_values(|x: T| x.text()) }
pub open spec fn joined(v: Seq<Seq<char>>, n: int, sep: Seq<char>) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else if n == 1 { v[0] } else { joined(v, n - 1, sep) + sep + v[n - 1] }
}
#[verifier::external_body] pub fn vx_append<A: Show, B: Show>(b: &mut String, x: A, y: B) -> (r: Result<(), FmtError>) ensures r is Ok, final(b)@ == old(b)@ + x.text() + y.text() { unimplemented!() }
impl Show for str { open spec fn text(&self) -> Seq<char> { self@ } }
impl std::fmt::Debug for FmtError { #[verifier::external_body] fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
pub broadcast group group_keys { axiom_dec, axiom_name_raw, axiom_name_value, axiom_name_under }
'''
WRITE = [(r'write!\(\s*(\w+)\s*,\s*"\{(\w+)\}"\s*\)', r'vx_write(\1, \2)')]
IDENT = [(r'format_ident!\(\s*"([^"{}]*)\{(\w+)\}"\s*\)', r'vx_format_ident("\1", \2)'), (r'format!\(\s*"([^"{}]*)\{(\w+)\}"\s*\)', r'vx_cat("\1", \2)'), (r'\bparse_str\(', 'vx_parse_str(')]
STEP = '\n                proof { assert(mapped(fields.list(), it0.index() as int + 1) == mapped(fields.list(), it0.index() as int).insert(key_at(fields.list(), it0.index() as int), fields.list()[it0.index() as int])); }\n'
ITER = [(r'impl Iterator<Item = (\(FieldKey, &Field\))>', r'Vec<\1>')]
UNIT = Unit('keys', PRE, [
    Ty('FieldKey'),
    Fn('', 'trim_raw', spec='    ensures r@ == unraw(s@),', start='    proof { lemma_raw(s@); }\n'),
    Fn('FieldKey', 'from_str', spec='    ensures view(r) == key_of(s@),'),
    Fn('FieldKey', 'from_string', spec='    ensures view(r) == key_of(s@),', start='    proof { lemma_raw(s@); }\n'),
    Fn('FieldKey', 'from_str_deep', spec='''    ensures s@.len() == 0 ==> r@.len() == 0,
        s@.len() > 0 ==> r@.len() == pieces(s@, '.').len() && forall|i: int| 0 <= i < r@.len() ==> view(#[trigger] r@[i]) == key_of(pieces(s@, '.')[i]),'''),
    Fn('FieldKey', 'from_ident', spec='    ensures view(r) == key_of(id_text(ident)),'),
    Fn('FieldKey', 'from_member', spec='    ensures view(r) == (match member { Member::Named(i) => key_of(id_text(i)), Member::Unnamed(n) => Key::Unnamed(n.index as usize) }),'),
    Fn('FieldKey', 'from_field', spec='    ensures view(r) == (match field.ident { Some(i) => key_of(id_text(&i)), None => Key::Unnamed(index) }),'),
    Fn('std::fmt::Display for FieldKey', 'fmt', emit_owner='impl FieldKey', subs=WRITE, sig=[(r'&mut std::fmt::Formatter', '&mut Formatter'), (r'std::fmt::Result', 'Result<(), FmtError>')],
       spec='    ensures r is Ok ==> final(f).out() == old(f).out() + shown(view(*self)),'),
    Fn('FieldKey', 'to_member', subs=IDENT, start='    proof { broadcast use group_keys; reveal_strlit(""); assert(forall|s: Seq<char>| (#[trigger] (""@ + s)) =~= s); }\n', spec='    requires key_ok(view(*self)) ensures member_names(r, view(*self)),'),
    Fn('FieldKey', 'binding_var', subs=IDENT, start='    proof { broadcast use group_keys; }\n', spec='    requires key_ok(view(*self)) ensures id_text(&r) == "_value_"@ + shown(view(*self)),'),
    Fn('FieldKey', 'new_arg_var', subs=IDENT, start='    proof { broadcast use group_keys; }\n',
       spec='    requires key_ok(view(*self)) ensures id_text(&r) == (match view(*self) { Key::Named(s) => "r#"@ + s, Key::Unnamed(i) => "_"@ + dec(i) }),'),
    # an iterator that is only iterated is taken as the vector of its items
    Fn('FieldKey', 'from_fields_named', sig=ITER, subs=[(r'\|(\w+)\|\s*(\(.*\))\s*\)', r'|\1: &Field| -> (q: (FieldKey, &Field)) requires \1.ident is Some ensures view(q.0) == key_of(id_text(&\1.ident->0)), *q.1 == *\1 { \2 })')],
       spec='    requires forall|i: int| 0 <= i < fields.named@.len() ==> (#[trigger] fields.named@[i]).ident is Some ensures r@.len() == fields.named@.len(), forall|i: int| 0 <= i < r@.len() ==> view((#[trigger] r@[i]).0) == key_at(fields.named@, i) && *r@[i].1 == fields.named@[i],'),
    Fn('FieldKey', 'from_fields_unnamed', sig=ITER, subs=[(r'\|(\(\w+,\s*\w+\))\|\s*(\(.*\))\s*\)', r'|z: (usize, &Field)| -> (q: (FieldKey, &Field)) ensures view(q.0) == Key::Unnamed(z.0), *q.1 == *z.1 { let \1 = z; \2 })')],
       spec='    ensures r@.len() == fields.unnamed@.len(), forall|i: int| 0 <= i < r@.len() ==> view((#[trigger] r@[i]).0) == Key::Unnamed(i as usize) && *r@[i].1 == fields.unnamed@[i],'),
    Fn('', 'join', sig=[(r'<T: std::fmt::Display>', '<T: Show>'), (r'impl IntoIterator<Item = T>', 'Vec<T>')], head='#[verifier::loop_isolation(false)]',
       subs=[(r'use std::fmt::Write as _;', ''), (r'write!\(\s*&mut\s+(\w+)\s*,\s*"\{(\w+)\}\{(\w+)\}"\s*\)', r'vx_append(&mut \1, \2, \3)'), (r'write!\(\s*(\w+)\s*,\s*"\{(\w+)\}\{(\w+)\}"\s*\)', r'vx_append(&mut \1, \2, \3)')],
       start='    let ghost s0 = s@;\n    proof { reveal_strlit(""); }\n',
       loops=['        invariant it0.seq() == s0, buf@ == joined(texts(s0), it0.index() as int, sep@), sep_current@ == (if it0.index() == 0 { Seq::<char>::empty() } else { sep@ }),'],
       l_end={0: '\n            proof { let i = it0.index() as int; assert(texts(s0)[i] == s0[i].text()); assert(buf@ =~= joined(texts(s0), i + 1, sep@)); }\n'},
       spec='    ensures r@ == joined(texts(s@), s@.len() as int, sep@),'),
    Fn('', 'field_map', subs=[(r'(\w+)\.iter\(\)\.enumerate\(\)', r'vx_enumerate(\1.iter())')], head='#[verifier::loop_isolation(false)]',
       loops=['        invariant it0.seq().len() == fields.list().len(), forall|i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i]).0 == i && *it0.seq()[i].1 == fields.list()[i], m.m() == mapped(fields.list(), it0.index() as int),'],
       l_end={0: STEP}, spec='    ensures r.m() == mapped(fields.list(), fields.list().len() as int),'),
], rename=RENAME, post='''
// a key never names two fields: the raw spelling and the plain one are the same field, and different names are different keys
proof fn lemma_raw_same(s: Seq<char>)
    requires s.len() > 0, usize_of(s) is None, !(s.len() >= 2 && s[0] == 'r' && s[1] == '#'),
    ensures key_of("r#"@ + s) == key_of(s)
{
    reveal_strlit("r#");
    let t = "r#"@ + s;
    assert(t[0] == 'r' && t[1] == '#');
    assert(t.skip(2) =~= s);
    assert(!digits(t)) by { assert(!('0' <= t[0] <= '9')); }
}
proof fn lemma_distinct(a: Seq<char>, b: Seq<char>)
    requires usize_of(a) is None, usize_of(b) is None, unraw(a) != unraw(b)
    ensures key_of(a) != key_of(b)
{
}
// two fields of one struct or variant (all named or all unnamed) have different variables
proof fn lemma_variables(a: Key, b: Key)
    requires a != b, a is Named == b is Named
    ensures "_value_"@ + shown(a) != "_value_"@ + shown(b), "r#"@ + shown(a) != "r#"@ + shown(b), "_"@ + shown(a) != "_"@ + shown(b)
{
    broadcast use axiom_dec;
    assert(shown(a) != shown(b)) by { if let Key::Unnamed(i) = a { if let Key::Unnamed(j) = b { assert(usize_of(dec(i)) == Some(i) && usize_of(dec(j)) == Some(j)); } } }
    lemma_prefix("_value_"@, shown(a), shown(b)); lemma_prefix("r#"@, shown(a), shown(b)); lemma_prefix("_"@, shown(a), shown(b));
}
proof fn lemma_prefix(p: Seq<char>, a: Seq<char>, b: Seq<char>) requires a != b ensures p + a != p + b {
    if p + a == p + b { assert((p + a).skip(p.len() as int) =~= a); assert((p + b).skip(p.len() as int) =~= b); }
}
// the map of the fields has the field of every key: keys of different fields differ
proof fn lemma_mapped(f: Seq<Field>, n: int, i: int)
    requires 0 <= i < n <= f.len(), forall|j: int, k: int| 0 <= j < k < f.len() ==> key_at(f, j) != key_at(f, k)
    ensures mapped(f, n).contains_key(key_at(f, i)), mapped(f, n)[key_at(f, i)] == f[i]
    decreases n
{
    if i < n - 1 { lemma_mapped(f, n - 1, i); assert(key_at(f, i) != key_at(f, n - 1)); }
}
proof fn lemma_only(f: Seq<Field>, n: int, k: Key)
    requires 0 <= n <= f.len(), mapped(f, n).contains_key(k)
    ensures exists|i: int| 0 <= i < n && #[trigger] key_at(f, i) == k
    decreases n
{
    if n > 0 { if k != key_at(f, n - 1) { lemma_only(f, n - 1, k); let i = choose|i: int| 0 <= i < n - 1 && #[trigger] key_at(f, i) == k; assert(key_at(f, i) == k); } else { assert(key_at(f, n - 1) == k); } }
    else { assert(false) by { assert(!Map::<Key, Field>::empty().contains_key(k)); } }
}
''', assumed=ASSUMED + ['syn::{Ident, Index, Member, Field} reduced to what the functions read', 'String::drain (assumed contract)', 'field names and their texts behind `_value_`, `r#`, `_` are identifiers (axioms); parse_str, format_ident!, format!, write! of one text (assumed contracts)', 'BTreeMap is taken as a map on the values of its keys'])
