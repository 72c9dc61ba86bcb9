"""ParserBuilder: the pattern a format stands for."""
import re
from vx import *
from vu.common import *

PRE = STR_EXT + STR_X + '''
pub struct Error { pub x: u8 }
pub fn vx_error(s: Span) -> Error { Error { x: 0 } }
pub type Result<T, E = Error> = std::result::Result<T, E>;
#[derive(Clone, Copy)] pub struct Span { pub x: u8 }
#[derive(Clone, Copy)] pub struct Flag { pub span: Option<Span> }
impl Flag { pub fn value(&self) -> (r: bool) ensures r == (self.span is Some) { self.span.is_some() } }
pub struct Ident { pub x: u8 } pub struct Index { pub index: u32 } pub enum Member { Named(Ident), Unnamed(Index) } pub struct DefaultField(pub Member);
pub struct Expr { pub x: u8 } pub struct LitStr { pub x: u8 } pub struct Path { pub x: u8 } pub struct Type { pub x: u8 } pub struct FormatSpec { pub x: u8 }
pub struct Attribute { pub x: u8 } pub struct Field { pub ty: Type, pub attrs: Vec<Attribute> } pub enum Fields { Named(u8), Unnamed(u8), Unit }
pub struct DataStruct { pub fields: Fields } pub struct Variant { pub ident: Ident, pub fields: Fields }
pub uninterp spec fn cased(st: DisplayStyle, i: Ident) -> Seq<char>;
pub uninterp spec fn attrs_of(a: Seq<Attribute>, from_str: bool) -> Option<HelperAttributes>;
pub uninterp spec fn infer_expr(p: Path) -> Expr;
#[verifier::external_body] pub fn vx_infer(p: &Path) -> (r: Expr) ensures r == infer_expr(*p) { unimplemented!() }
#[verifier::external_body] pub fn vx_clone_from<T>(a: &mut Option<T>, b: &Option<T>) ensures *final(a) == *b { unimplemented!() }
pub uninterp spec fn format_span(h: HelperAttributes) -> Option<Span>;
impl HelperAttributes {
    #[verifier::external_body] pub fn from(a: &Vec<Attribute>, from_str: bool) -> (r: Result<Self>) ensures match r { Ok(h) => attrs_of(a@, from_str) == Some(h), Err(_) => attrs_of(a@, from_str) is None } { unimplemented!() }
    #[verifier::external_body] pub fn span_of_from_str_format(&self) -> (r: Option<Span>) ensures r == format_span(*self) { unimplemented!() }
}
// proved in unit style
impl DisplayStyle { #[verifier::external_body] pub fn from_helper_attributes(e: &HelperAttributes, v: &HelperAttributes) -> (r: Self) ensures r == style_for(*e, *v) { unimplemented!() } }
impl Span { #[verifier::external_body] pub fn call_site() -> Span { unimplemented!() } }
// the fields of a struct or variant by their names (assumed; FieldKey is under contract in unit keys)
pub uninterp spec fn fields_of(f: Fields) -> Map<FK, Field>;
#[verifier::external_body] pub fn field_map(f: &Fields) -> (r: Vec<(FieldKey, &Field)>)
    ensures forall|i: int| 0 <= i < r@.len() ==> fields_of(*f).dom().contains(fk((#[trigger] r@[i]).0)) && fields_of(*f)[fk(r@[i].0)] == *r@[i].1,
        forall|k: FK| #[trigger] fields_of(*f).dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && fk((#[trigger] r@[i]).0) == k { unimplemented!() }
pub open spec fn style_for(e: HelperAttributes, v: HelperAttributes) -> DisplayStyle { if v.style is Some { v.style->0 } else if e.style is Some { e.style->0 } else { DisplayStyle::None } }
impl DisplayStyle { #[verifier::external_body] pub fn apply(self, i: &Ident) -> (r: String) ensures r@ == cased(self, *i) { unimplemented!() } }
// ---- the numbers in the names of the groups
pub uninterp spec fn dec(n: usize) -> Seq<char>;
#[verifier::external_body] pub broadcast proof fn axiom_dec(a: usize, b: usize) ensures #[trigger] dec(a) == #[trigger] dec(b) ==> a == b { }
#[verifier::external_body] pub fn vx_fmt1(pre: &str, n: usize) -> (r: String) ensures r@ == pre@ + dec(n) { unimplemented!() }
pub open spec fn name_of(n: usize) -> Seq<char> { "value_"@ + dec(n) }
pub enum FK { Named(Seq<char>), Unnamed(usize) }
pub open spec fn fk(k: FieldKey) -> FK { match k { FieldKey::Named(s) => FK::Named(s@), FieldKey::Unnamed(n) => FK::Unnamed(n) } }
pub open spec fn fks(v: Seq<FieldKey>) -> Seq<FK> { v.map_values(|k: FieldKey| fk(k)) }
// what FieldKey::from_str_deep and from_member do is proved in unit keys
pub open spec fn unraw(s: Seq<char>) -> Seq<char> { if s.len() >= 2 && s[0] == 'r' && s[1] == '#' { s.skip(2) } else { s } }
pub open spec fn key_of(s: Seq<char>) -> FK { match usize_of(s) { Some(i) => FK::Unnamed(i), None => FK::Named(unraw(s)) } }
pub open spec fn deep(s: Seq<char>) -> Seq<FK> { if s.len() == 0 { Seq::empty() } else { pieces(s, '.').map_values(|t: Seq<char>| key_of(t)) } }
pub uninterp spec fn member_key(m: Member) -> FK;
impl FieldKey {
    #[verifier::external_body] pub fn from_str_deep(s: &str) -> (r: Vec<FieldKey>) ensures fks(r@) == deep(s@), r@.len() == deep(s@).len() { unimplemented!() }
    #[verifier::external_body] pub fn from_member(m: &Member) -> (r: FieldKey) ensures fk(r) == member_key(*m) { unimplemented!() }
}
impl DefaultField { #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } }
// ---- stand-ins for the two BTreeMaps: functions of the key as a value
#[verifier::external_body] pub struct DeepMap { x: u8 }
impl DeepMap {
    pub uninterp spec fn m(&self) -> Map<Seq<FK>, usize>;
    #[verifier::external_body] pub fn get(&self, k: &[FieldKey]) -> (r: Option<&usize>)
        ensures match r { Some(i) => self.m().dom().contains(fks(k@)) && *i == self.m()[fks(k@)], None => !self.m().dom().contains(fks(k@)) } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Vec<FieldKey>, v: usize) ensures final(self).m() == old(self).m().insert(fks(k@), v) { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: DeepMap) ensures r.m() == Map::<Seq<FK>, usize>::empty() { unimplemented!() }
}
#[verifier::external_body] pub fn vx_to_vec(k: &[FieldKey]) -> (r: Vec<FieldKey>) ensures fks(r@) == fks(k@) { unimplemented!() }
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct FieldMap<V> { x: Vec<V> }
impl<V> FieldMap<V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.m() == Map::<FK, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: FieldKey, v: V) ensures final(self).m() == old(self).m().insert(fk(k), v) { unimplemented!() }
    pub uninterp spec fn m(&self) -> Map<FK, V>;
    #[verifier::external_body] pub fn get_mut(&mut self, k: &FieldKey) -> (r: Option<&mut V>)
        ensures match r { Some(v) => old(self).m().dom().contains(fk(*k)) && *v == old(self).m()[fk(*k)] && final(self).m() == old(self).m().insert(fk(*k), *final(v)),
            None => !old(self).m().dom().contains(fk(*k)) && *final(self) == *old(self) } { unimplemented!() }
}
// ---- the pattern as a sequence: characters, expressions given as text, repetitions
#[verifier::external_body] pub struct Hir { x: u8 }
pub struct Repetition { pub min: u32, pub max: Option<u32>, pub greedy: bool, pub sub: Box<Hir> }
pub enum Tok { Ch(char), Re(Seq<char>), Rep(u32, Option<u32>, bool, Seq<Tok>), Exp(Seq<char>, Seq<char>, Seq<char>) }
pub uninterp spec fn toks(h: Hir) -> Seq<Tok>;
pub open spec fn chars(s: Seq<char>) -> Seq<Tok> { s.map_values(|c: char| Tok::Ch(c)) }
pub open spec fn plain(t: Seq<Tok>) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] is Ch }
pub open spec fn flat(v: Seq<Hir>) -> Seq<Tok> decreases v.len() { if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + toks(v.last()) } }
impl Hir {
    #[verifier::external_body] pub fn repetition(r: Repetition) -> (h: Hir) ensures toks(h) == seq![Tok::Rep(r.min, r.max, r.greedy, toks(*r.sub))] { unimplemented!() }
    #[verifier::external_body] pub fn concat(v: Vec<Hir>) -> (h: Hir) ensures toks(h) == flat(v@) { unimplemented!() }
}
#[verifier::external_body] pub fn to_hir(s: &String) -> (h: Hir) ensures toks(h) == seq![Tok::Re(s@)] { unimplemented!() }
// ParseFormat: proved in unit parsefmt
pub enum ParseFormat { Hirs(Vec<Hir>), String(String) }
impl ParseFormat {
    pub open spec fn toks(&self) -> Seq<Tok> { match self { ParseFormat::Hirs(v) => flat(v@), ParseFormat::String(s) => chars(s@) } }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.toks() == Seq::<Tok>::empty(), r is String { unimplemented!() }
    #[verifier::external_body] pub fn into_hirs(self) -> (r: Vec<Hir>) ensures flat(r@) == self.toks() { unimplemented!() }
    #[verifier::external_body] pub fn push_str(&mut self, s: &str) ensures final(self).toks() == old(self).toks() + chars(s@), (*final(self)) is String == (*old(self)) is String { unimplemented!() }
    #[verifier::external_body] pub fn push_hir(&mut self, h: Hir) ensures final(self).toks() == old(self).toks() + toks(h), (*final(self)) is Hirs { unimplemented!() }
}
#[verifier::external_body] pub fn vx_take(f: &mut ParseFormat) -> (r: ParseFormat) ensures r == *old(f), final(f).toks() == Seq::<Tok>::empty(), (*final(f)) is String { unimplemented!() }
#[verifier::external_body] pub fn vx_cat(a: &str, b: &str, c: &str, d: &str, e: &str) -> (r: String) ensures r@ == cat(a@, b@, c@, d@, e@) { unimplemented!() }
pub open spec fn cat(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>) -> Seq<char> { a + b + c + d + e }
// ---- the numbering of the placeholders
pub struct Slot { pub field: FK, pub path: Seq<FK> }
pub open spec fn own_slot(f: FieldEntry, p: Seq<FK>) -> Option<usize> {
    if p.len() == 0 { f.capture } else if f.deep_captures.m().dom().contains(p) { Some(f.deep_captures.m()[p]) } else { None }
}
pub open spec fn slot(fs: Map<FK, FieldEntry>, s: Slot) -> Option<usize> { if !fs.dom().contains(s.field) { None } else { own_slot(fs[s.field], s.path) } }
pub open spec fn numbered(fs: Map<FK, FieldEntry>, next: usize) -> bool {
    (forall|a: Slot| (#[trigger] slot(fs, a)) is Some ==> slot(fs, a)->0 < next)
    && (forall|a: Slot, b: Slot| (#[trigger] slot(fs, a)) is Some && slot(fs, a) == #[trigger] slot(fs, b) ==> a == b)
}
pub open spec fn same_entry(a: FieldEntry, b: FieldEntry) -> bool { a.hattrs == b.hattrs && a.source == b.source && a.use_default == b.use_default && a.crate_path == b.crate_path }
pub open spec fn set_to(old_: FieldEntry, new: FieldEntry, p: Seq<FK>, n: usize) -> bool {
    own_slot(new, p) == Some(n) && same_entry(old_, new) && forall|q: Seq<FK>| !(q =~= p) ==> #[trigger] own_slot(new, q) == own_slot(old_, q)
}
// what was numbered keeps its number, nothing else about the fields changes
pub open spec fn grown(a: Map<FK, FieldEntry>, b: Map<FK, FieldEntry>) -> bool {
    b.dom() == a.dom() && (forall|k: FK| #[trigger] a.dom().contains(k) ==> same_entry(a[k], b[k])) && (forall|s: Slot| (#[trigger] slot(a, s)) is Some ==> slot(b, s) == slot(a, s))
}
// ---- the pattern of a format
pub enum Part { Lit(Seq<char>), Open, Close, Var(Seq<char>) }
pub open spec fn part(p: DisplayFormatPart) -> Part {
    match p { DisplayFormatPart::Str(t) => Part::Lit(t@), DisplayFormatPart::EscapedBeginBracket => Part::Open, DisplayFormatPart::EscapedEndBracket => Part::Close, DisplayFormatPart::Var { arg, .. } => Part::Var(arg@) }
}
pub open spec fn parts_of(v: Seq<DisplayFormatPart>) -> Seq<Part> { v.map_values(|p: DisplayFormatPart| part(p)) }
// whose format it is
pub enum Base { Struct, Variant(Seq<char>), Field(FK), Some_ }
pub open spec fn base(vb: VarBase) -> Base {
    match vb { VarBase::Struct { .. } => Base::Struct, VarBase::Variant { variant, style } => Base::Variant(cased(style, variant.ident)), VarBase::Field { key, .. } => Base::Field(fk(*key)), VarBase::FieldSome { .. } => Base::Some_ }
}
pub struct WithV { pub capture: Seq<char>, pub key: FK, pub expr: Expr, pub ty: Type }
pub open spec fn withv(w: With) -> WithV { WithV { capture: w.capture@, key: fk(w.key), expr: w.expr, ty: w.ty } }
pub open spec fn withvs(v: Seq<With>) -> Seq<WithV> { v.map_values(|w: With| withv(w)) }

// the pattern, the groups a `with` gives the pattern of, whether every name is a field, and whether every placeholder has its number
pub struct Pat { pub t: Seq<Tok>, pub w: Seq<WithV>, pub ok: bool, pub cov: bool }
pub open spec fn nothing() -> Pat { Pat { t: Seq::empty(), w: Seq::empty(), ok: true, cov: true } }
pub open spec fn bad() -> Pat { Pat { t: Seq::empty(), w: Seq::empty(), ok: false, cov: false } }
pub open spec fn text(s: Seq<char>) -> Pat { Pat { t: chars(s), w: Seq::empty(), ok: true, cov: true } }
pub open spec fn then(a: Pat, b: Pat) -> Pat { Pat { t: a.t + b.t, w: a.w + b.w, ok: a.ok && b.ok, cov: a.cov && b.cov } }
pub open spec fn group(n: usize, re: Seq<char>) -> Seq<Tok> { seq![Tok::Re(cat("(?<"@, name_of(n), ">(?s:"@, re, "))"@))] }
// a lazy optional group
pub open spec fn optional(p: Pat) -> Pat { Pat { t: seq![Tok::Rep(0, Some(1), false, p.t)], w: p.w, ok: p.ok, cov: p.cov } }
pub uninterp spec fn option_element(t: Type) -> Option<Type>;
pub open spec fn value_type(e: FieldEntry) -> Type { if e.hattrs.opt.span is Some && option_element(e.source.ty) is Some { option_element(e.source.ty)->0 } else { e.source.ty } }
// ---- a regex given as text: every group named after a placeholder gets its number
pub uninterp spec fn lit(s: LitStr) -> Seq<char>;
impl LitStr {
    #[verifier::external_body] pub fn value(&self) -> (r: String) ensures r@ == lit(*self) { unimplemented!() }
    #[verifier::external_body] pub fn span(&self) -> (r: Span) { unimplemented!() }
}
#[verifier::external_body] pub struct Re { x: u8 }
impl Re { pub uninterp spec fn pat(&self) -> Seq<char>; }
#[verifier::external_body] pub fn vx_re(s: &'static str) -> (r: Re) ensures r.pat() == s@ { unimplemented!() }
// the matches of a regex in a text, from left to right, without overlaps; positions are in characters
pub uninterp spec fn matches(re: Seq<char>, text: Seq<char>) -> Seq<Captures>;
#[verifier::external_body] pub struct Captures { x: u8 }
#[verifier::external_body] pub struct Match { x: u8 }
pub uninterp spec fn at(byte: usize) -> int;
impl Captures {
    pub uninterp spec fn lo(&self) -> int; pub uninterp spec fn hi(&self) -> int; pub uninterp spec fn group(&self, i: usize) -> Seq<char>;
    #[verifier::external_body] pub fn vx_whole(&self) -> (r: Match) ensures r.lo() == self.lo(), r.hi() == self.hi() { unimplemented!() }
    #[verifier::external_body] pub fn vx_group(&self, i: usize) -> (r: &str) ensures r@ == self.group(i) { unimplemented!() }
}
impl Match { pub uninterp spec fn lo(&self) -> int; pub uninterp spec fn hi(&self) -> int;
    #[verifier::external_body] pub fn start(&self) -> (r: usize) ensures at(r) == self.lo() { unimplemented!() }
    #[verifier::external_body] pub fn end(&self) -> (r: usize) ensures at(r) == self.hi() { unimplemented!() }
}
pub open spec fn ordered(m: Seq<Captures>, text: Seq<char>) -> bool { forall|i: int| 0 <= i < m.len() ==> 0 <= #[trigger] m[i].lo() <= m[i].hi() <= text.len() && (i > 0 ==> m[i - 1].hi() <= m[i].lo()) }
#[verifier::external_body] pub fn vx_matches(re: &Re, text: &str) -> (r: Vec<Captures>) ensures r@ == matches(re.pat(), text@), ordered(r@, text@) { unimplemented!() }
#[verifier::external_body] pub fn vx_slice(s: &str, a: usize, b: usize) -> (r: &str) requires 0 <= at(a) <= at(b) <= s@.len() ensures r@ == s@.subrange(at(a), at(b)) { unimplemented!() }
#[verifier::external_body] pub fn vx_rest(s: &str, a: usize) -> (r: &str) requires 0 <= at(a) <= s@.len() ensures r@ == s@.skip(at(a)) { unimplemented!() }
#[verifier::external_body] pub fn vx_push(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
#[verifier::external_body] pub fn vx_own(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_same(s: &str, t: &str) -> (r: bool) ensures r == (s@ == t@) { unimplemented!() }
#[verifier::external_body] pub fn vx_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body] proof fn axiom_start() ensures at(0) == 0 { }
pub uninterp spec fn utf8(s: Seq<char>) -> nat;
#[verifier::external_body] pub fn vx_bytes(s: &str) -> (r: usize) ensures r == utf8(s@) { unimplemented!() }
// whether the text, its captures renamed for messages, is a regex at all
pub uninterp spec fn is_regex(s: Seq<char>) -> bool;
#[verifier::external_body] pub struct Checked { x: u8 }
impl Checked { pub uninterp spec fn of(&self) -> Seq<char>; }
#[verifier::external_body] pub fn vx_debug(s: &String) -> (r: Checked) ensures r.of() == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_check(t: &Checked) -> (r: std::result::Result<(), Error>) ensures r is Ok == is_regex(t.of()) { unimplemented!() }
#[verifier::external_body] pub fn to_hir_with_expand(s: &String, name: &str, value: &String) -> (h: Hir) ensures toks(h) == seq![Tok::Exp(s@, name@, value@)] { unimplemented!() }
pub open spec fn last(m: Seq<Captures>) -> int { if m.len() == 0 { 0 } else { m.last().hi() } }
pub open spec fn capture_re() -> Seq<char> { r"(?<esc>\\\\*)\\(\\?(?<p>P?)<(?<key>[\\w.]*)>"@ }
pub open spec fn odd(c: Captures) -> bool { utf8(c.group(1)) % 2 == 1 }
// the text so far, whether there was a capture, one without a name, whether every name is a field, every placeholder has its number
pub struct Rw { pub text: Seq<char>, pub has: bool, pub emp: bool, pub ok: bool, pub cov: bool }
pub open spec fn named(c: Captures, n: Seq<char>) -> Seq<char> { cat(""@, c.group(1), "(?<"@, n, ">"@) }
pub open spec fn reply(fs: Map<FK, FieldEntry>, b: Base, c: Captures) -> Rw {
    let ks = deep(c.group(3)); let s = var_slot(b, ks);
    if odd(c) { Rw { text: c.group(0), has: false, emp: false, ok: true, cov: true } }
    else if !(b is Field) && ks.len() == 0 { Rw { text: named(c, "empty"@), has: true, emp: true, ok: true, cov: true } }
    else if !fs.dom().contains(s.field) { Rw { text: Seq::empty(), has: true, emp: false, ok: false, cov: false } }
    else { Rw { text: named(c, name_of(slot(fs, s)->0)), has: true, emp: false, ok: true, cov: slot(fs, s) is Some } }
}
pub open spec fn rewritten(fs: Map<FK, FieldEntry>, b: Base, text: Seq<char>, m: Seq<Captures>) -> Rw decreases m.len() {
    if m.len() == 0 { Rw { text: Seq::empty(), has: false, emp: false, ok: true, cov: true } }
    else { let a = rewritten(fs, b, text, m.drop_last()); let c = reply(fs, b, m.last());
        Rw { text: a.text + text.subrange(last(m.drop_last()), m.last().lo()) + c.text, has: a.has || c.has, emp: a.emp || c.emp, ok: a.ok && c.ok, cov: a.cov && c.cov } }
}
proof fn lemma_rw(x: Map<FK, FieldEntry>, y: Map<FK, FieldEntry>, b: Base, text: Seq<char>, m: Seq<Captures>) requires grown(x, y)
    ensures rewritten(x, b, text, m).ok == rewritten(y, b, text, m).ok, rewritten(x, b, text, m).has == rewritten(y, b, text, m).has, rewritten(x, b, text, m).emp == rewritten(y, b, text, m).emp,
        rewritten(x, b, text, m).cov ==> rewritten(x, b, text, m) == rewritten(y, b, text, m)
    decreases m.len()
{
    if m.len() > 0 { lemma_rw(x, y, b, text, m.drop_last()); }
}
proof fn lemma_rw_bad(fs: Map<FK, FieldEntry>, b: Base, text: Seq<char>, m: Seq<Captures>, n: int) requires 0 <= n <= m.len(), !rewritten(fs, b, text, m.take(n)).ok ensures !rewritten(fs, b, text, m).ok decreases m.len() - n
{
    if n < m.len() { assert(m.take(n + 1).drop_last() =~= m.take(n)); lemma_rw_bad(fs, b, text, m, n + 1); } else { assert(m.take(n) =~= m); }
}
proof fn lemma_not_empty(n: usize) ensures name_of(n) != "empty"@
{
    reveal_strlit("value_"); reveal_strlit("empty");
    assert(name_of(n)[0] == 'v'); assert("empty"@[0] == 'e');
}
pub open spec fn regex_pat(fs: Map<FK, FieldEntry>, r: LitStr, b: Base, f: Option<Seq<Part>>) -> Pat decreases rank(b) + 1, 0int {
    let t = lit(r); let m = matches(capture_re(), t); let w = rewritten(fs, b, t, m); let full = w.text + t.skip(last(m));
    if !is_regex(t) || !w.ok { bad() }
    else if w.emp { if b is Variant { Pat { t: seq![Tok::Exp(full, "empty"@, b->Variant_0)], w: Seq::empty(), ok: true, cov: w.cov } } else { bad() } }
    else if b is Field && !w.has { match f {
        Some(v) => format_pat(fs, b, v, None, Some(full)),
        None => { let s = var_slot(b, Seq::empty()); if !fs.dom().contains(s.field) { bad() } else { Pat { t: seq![Tok::Re(cat("(?<"@, name_of(slot(fs, s)->0), ">"@, full, ")"@))], w: Seq::empty(), ok: true, cov: slot(fs, s) is Some } } } } }
    else { Pat { t: seq![Tok::Re(full)], w: Seq::empty(), ok: true, cov: w.cov } }
}
proof fn lemma_regex(a: Map<FK, FieldEntry>, c: Map<FK, FieldEntry>, r: LitStr, b: Base, f: Option<Seq<Part>>)
    requires grown(a, c) ensures regex_pat(a, r, b, f).cov ==> regex_pat(a, r, b, f) == regex_pat(c, r, b, f), regex_pat(a, r, b, f).ok == regex_pat(c, r, b, f).ok decreases rank(b) + 1, 0int
{
    let t = lit(r); let m = matches(capture_re(), t); let w = rewritten(a, b, t, m); let full = w.text + t.skip(last(m));
    lemma_rw(a, c, b, t, m); lemma_no_holes(a, b, t, m); lemma_no_holes(c, b, t, m);
    if b is Field && !w.has && f is Some { lemma_mono(a, c, b, f->0, None, Some(full)); }
}
proof fn lemma_no_holes(fs: Map<FK, FieldEntry>, b: Base, text: Seq<char>, m: Seq<Captures>) ensures !rewritten(fs, b, text, m).has ==> rewritten(fs, b, text, m).cov decreases m.len()
{
    if m.len() > 0 { lemma_no_holes(fs, b, text, m.drop_last()); }
}
pub open spec fn fparts(f: Option<DisplayFormat>) -> Option<Seq<Part>> { match f { Some(f) => Some(parts_of(f.parts@)), None => None } }
pub open spec fn rank(b: Base) -> int { if b is Field { 0 } else { 3 } }
pub open spec fn var_slot(b: Base, ks: Seq<FK>) -> Slot { match b { Base::Field(k) => Slot { field: k, path: ks }, _ => Slot { field: ks[0], path: ks.skip(1) } } }
pub open spec fn capture_pat(fs: Map<FK, FieldEntry>, b: Base, ks: Seq<FK>, with: Option<Expr>, re: Option<Seq<char>>) -> Pat {
    let s = var_slot(b, ks);
    if !fs.dom().contains(s.field) { bad() } else {
        let n = slot(fs, s)->0;
        Pat { t: group(n, if ks.len() == 0 && re is Some { re->0 } else { ".*?"@ }),
              w: if ks.len() == 0 && with is Some { seq![WithV { capture: name_of(n), key: s.field, expr: with->0, ty: value_type(fs[s.field]) }] } else { Seq::empty() },
              ok: true, cov: slot(fs, s) is Some }
    }
}
pub open spec fn part_pat(fs: Map<FK, FieldEntry>, b: Base, p: Part, with: Option<Expr>, re: Option<Seq<char>>) -> Pat decreases rank(b), 0int {
    match p { Part::Lit(t) => text(t), Part::Open => text(seq!['{']), Part::Close => text(seq!['}']),
        Part::Var(arg) => {
            let ks = deep(arg);
            if ks.len() == 0 && b is Struct { bad() }
            else if ks.len() == 0 && b is Variant { text(b->Variant_0) }
            else if ks.len() == 1 && !(b is Field) { field_pat(fs, ks[0]) }
            else { capture_pat(fs, b, ks, with, re) } } }
}
pub open spec fn format_pat(fs: Map<FK, FieldEntry>, b: Base, v: Seq<Part>, with: Option<Expr>, re: Option<Seq<char>>) -> Pat decreases rank(b), v.len() {
    if v.len() == 0 { nothing() } else { then(format_pat(fs, b, v.drop_last(), with, re), part_pat(fs, b, v.last(), with, re)) }
}
// a field's own regex, else its own format, else the whole field
pub open spec fn attrs_pat(fs: Map<FK, FieldEntry>, b: Base, h: HelperAttributes, d: Seq<Part>) -> Pat decreases rank(b) + 1, 1int {
    if h.regex is Some { regex_pat(fs, h.regex->0, b, fparts(h.format)) }
    else if h.format is Some { format_pat(fs, b, parts_of(h.format->0.parts@), h.with, None) }
    else { format_pat(fs, b, d, h.with, None) }
}
pub open spec fn field_pat(fs: Map<FK, FieldEntry>, k: FK) -> Pat decreases 2int, 0int {
    if !fs.dom().contains(k) { bad() } else {
        let h = fs[k].hattrs;
        let p = attrs_pat(fs, Base::Field(k), h, seq![Part::Var(Seq::empty())]);
        if h.opt.span is Some { optional(p) } else { p }
    }
}
// numbering more placeholders changes nothing about a pattern that has all its numbers
proof fn lemma_mono(a: Map<FK, FieldEntry>, c: Map<FK, FieldEntry>, b: Base, v: Seq<Part>, with: Option<Expr>, re: Option<Seq<char>>)
    requires grown(a, c)
    ensures format_pat(a, b, v, with, re).cov ==> format_pat(a, b, v, with, re) == format_pat(c, b, v, with, re), format_pat(a, b, v, with, re).ok == format_pat(c, b, v, with, re).ok
    decreases rank(b), v.len()
{
    if v.len() > 0 { lemma_mono(a, c, b, v.drop_last(), with, re); lemma_mono1(a, c, b, v.last(), with, re); }
}
proof fn lemma_mono1(a: Map<FK, FieldEntry>, c: Map<FK, FieldEntry>, b: Base, p: Part, with: Option<Expr>, re: Option<Seq<char>>)
    requires grown(a, c)
    ensures part_pat(a, b, p, with, re).cov ==> part_pat(a, b, p, with, re) == part_pat(c, b, p, with, re), part_pat(a, b, p, with, re).ok == part_pat(c, b, p, with, re).ok
    decreases rank(b), 0int
{
    if let Part::Var(arg) = p {
        let ks = deep(arg);
        if ks.len() == 1 && !(b is Field) {
            let k = ks[0];
            if a.dom().contains(k) { lemma_mono2(a, c, Base::Field(k), a[k].hattrs, seq![Part::Var(Seq::empty())]); assert(same_entry(a[k], c[k])); }
        } else { let s = var_slot(b, ks); if a.dom().contains(s.field) { assert(same_entry(a[s.field], c[s.field])); } }
    }
}
proof fn lemma_mono2(a: Map<FK, FieldEntry>, c: Map<FK, FieldEntry>, b: Base, h: HelperAttributes, d: Seq<Part>)
    requires grown(a, c)
    ensures attrs_pat(a, b, h, d).cov ==> attrs_pat(a, b, h, d) == attrs_pat(c, b, h, d), attrs_pat(a, b, h, d).ok == attrs_pat(c, b, h, d).ok
    decreases rank(b) + 1, 1int
{
    if h.regex is Some { lemma_regex(a, c, h.regex->0, b, fparts(h.format)); }
    else if h.format is Some { lemma_mono(a, c, b, parts_of(h.format->0.parts@), h.with, None); }
    else { lemma_mono(a, c, b, d, h.with, None); }
}
proof fn lemma_bad(fs: Map<FK, FieldEntry>, b: Base, v: Seq<Part>, n: int, with: Option<Expr>, re: Option<Seq<char>>)
    requires 0 <= n <= v.len(), !format_pat(fs, b, v.take(n), with, re).ok
    ensures !format_pat(fs, b, v, with, re).ok
    decreases v.len() - n
{
    if n < v.len() { assert(v.take(n + 1).drop_last() =~= v.take(n)); assert(v.take(n + 1).last() == v[n]); lemma_bad(fs, b, v, n + 1, with, re); } else { assert(v.take(n) =~= v); }
}
// ---- what a step does to the builder
pub open spec fn good(s: ParserBuilder) -> bool { numbered(s.fields.m(), s.capture_next) && (s.parse_format is String) == plain(s.parse_format.toks()) }
pub open spec fn kept(a: ParserBuilder, b: ParserBuilder) -> bool {
    grown(a.fields.m(), b.fields.m()) && a.use_default == b.use_default && a.span == b.span && a.new_expr == b.new_expr && a.source == b.source && a.crate_path == b.crate_path
}
pub open spec fn did(a: ParserBuilder, b: ParserBuilder, p: Pat, ok: bool) -> bool {
    kept(a, b) && good(b) && ok == p.ok && (ok ==> p.cov && b.parse_format.toks() == a.parse_format.toks() + p.t && withvs(b.with@) == withvs(a.with@) + p.w)
}
proof fn lemma_grown(a: Map<FK, FieldEntry>, b: Map<FK, FieldEntry>, c: Map<FK, FieldEntry>) requires grown(a, b), grown(b, c) ensures grown(a, c)
{
    assert forall|k: FK| #[trigger] a.dom().contains(k) implies same_entry(a[k], c[k]) by { assert(same_entry(a[k], b[k])); assert(b.dom().contains(k)); assert(same_entry(b[k], c[k])); }
    assert forall|s: Slot| (#[trigger] slot(a, s)) is Some implies slot(c, s) == slot(a, s) by { assert(slot(b, s) == slot(a, s)); }
}
proof fn lemma_then(o: ParserBuilder, s: ParserBuilder, e: ParserBuilder, b: Base, v: Seq<Part>, i: int, with: Option<Expr>, re: Option<Seq<char>>, ok: bool)
    requires 0 <= i < v.len(), did(o, s, format_pat(s.fields.m(), b, v.take(i), with, re), true), did(s, e, part_pat(e.fields.m(), b, v[i], with, re), ok)
    ensures did(o, e, format_pat(e.fields.m(), b, v.take(i + 1), with, re), ok)
{
    lemma_mono(s.fields.m(), e.fields.m(), b, v.take(i), with, re);
    lemma_grown(o.fields.m(), s.fields.m(), e.fields.m());
    assert(v.take(i + 1).drop_last() =~= v.take(i)); assert(v.take(i + 1).last() == v[i]);
    let p = format_pat(s.fields.m(), b, v.take(i), with, re); let q = part_pat(e.fields.m(), b, v[i], with, re);
    assert(o.parse_format.toks() + p.t + q.t =~= o.parse_format.toks() + (p.t + q.t));
    assert(withvs(o.with@) + p.w + q.w =~= withvs(o.with@) + (p.w + q.w));
}
proof fn lemma_plain(a: Seq<Tok>, b: Seq<Tok>) ensures plain(a + b) == (plain(a) && plain(b))
{
    if plain(a + b) {
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] is Ch by { assert((a + b)[i] is Ch); }
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] is Ch by { assert((a + b)[i + a.len()] is Ch); }
    }
}
proof fn lemma_numbering(fs: Map<FK, FieldEntry>, gs: Map<FK, FieldEntry>, k: FK, p: Seq<FK>, n: usize, next: usize, next2: usize)
    requires numbered(fs, next), fs.dom().contains(k), gs.dom() == fs.dom(), set_to(fs[k], gs[k], p, n), forall|j: FK| j != k ==> gs[j] == fs[j],
        own_slot(fs[k], p) is Some ==> n == own_slot(fs[k], p)->0 && next2 == next, own_slot(fs[k], p) is None ==> n == next && next2 == next + 1,
    ensures numbered(gs, next2), slot(gs, Slot { field: k, path: p }) == Some(n), grown(fs, gs)
{
    let t = Slot { field: k, path: p };
    assert forall|a: Slot| a != t implies #[trigger] slot(gs, a) == slot(fs, a) by { if a.field == k { assert(!(a.path =~= p)); assert(own_slot(gs[k], a.path) == own_slot(fs[k], a.path)); } }
    assert(slot(gs, t) == Some(n));
    assert(slot(fs, t) == own_slot(fs[k], p));
}
// a finished builder: the pattern is p, in the state its placeholders are numbered in
pub open spec fn built(s: ParserBuilder, f: Fields, infer: bool, path: Path, d: Seq<DefaultField>, p: Pat) -> bool {
    good(s) && p.ok && p.cov && s.parse_format.toks() == p.t && withvs(s.with@) == p.w && s.fields.m().dom() == fields_of(f).dom()
    && forall|k: FK| #[trigger] fields_of(f).dom().contains(k) ==> ({ let e = s.fields.m()[k]; attrs_of(fields_of(f)[k].attrs@, true) is Some && ({ let h = attrs_of(fields_of(f)[k].attrs@, true)->0;
        e.hattrs == (HelperAttributes { with: if h.with is None && (infer || h.regex_infer) { Some(infer_expr(path)) } else { h.with }, ..h }) && *e.source == fields_of(f)[k]
        && e.use_default == (h.default_self is Some || defaulted(d, k)) }) })
}
#[verifier::external_body] pub fn vx_iter<'c, T>(v: &'c Vec<T>) -> (r: std::vec::IntoIter<&'c T>)
    ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.remaining().len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r.remaining()[i]) == v@[i] { unimplemented!() }
// a field before anything is known of the format
pub open spec fn fresh(e: FieldEntry, f: Field, infer: bool, p: Path) -> bool {
    attrs_of(f.attrs@, true) is Some && ({ let h = attrs_of(f.attrs@, true)->0;
        e.hattrs == (HelperAttributes { with: if h.with is None && (infer || h.regex_infer) { Some(infer_expr(p)) } else { h.with }, ..h })
        && e.use_default == (h.default_self is Some) && *e.source == f && *e.crate_path == p && e.capture is None && e.deep_captures.m() == Map::<Seq<FK>, usize>::empty() })
}
pub open spec fn all_fresh(m: Map<FK, FieldEntry>, f: Map<FK, Field>, infer: bool, p: Path) -> bool { m.dom() == f.dom() && forall|k: FK| f.dom().contains(k) ==> fresh(#[trigger] m[k], f[k], infer, p) }
pub open spec fn some_fresh(m: Map<FK, FieldEntry>, f: Map<FK, Field>, infer: bool, p: Path) -> bool { forall|k: FK| #[trigger] m.dom().contains(k) ==> f.dom().contains(k) && fresh(m[k], f[k], infer, p) }
proof fn lemma_fresh(m: Map<FK, FieldEntry>, k: FK, e: FieldEntry, f: Map<FK, Field>, infer: bool, p: Path)
    requires some_fresh(m, f, infer, p), f.dom().contains(k), fresh(e, f[k], infer, p)
    ensures some_fresh(m.insert(k, e), f, infer, p)
{
    assert forall|j: FK| #[trigger] m.insert(k, e).dom().contains(j) implies f.dom().contains(j) && fresh(m.insert(k, e)[j], f[j], infer, p) by { if j != k { assert(m.dom().contains(j)); } }
}
pub open spec fn defaulted(d: Seq<DefaultField>, k: FK) -> bool { exists|i: int| 0 <= i < d.len() && member_key((#[trigger] d[i]).0) == k }
// the fields named in default_fields are marked, nothing else changes
pub open spec fn marked(a: Map<FK, FieldEntry>, b: Map<FK, FieldEntry>, d: Seq<DefaultField>) -> bool {
    b.dom() == a.dom() && forall|k: FK| #[trigger] a.dom().contains(k) ==> b[k] == (FieldEntry { use_default: a[k].use_default || defaulted(d, k), ..a[k] })
}
pub open spec fn applied(a: ParserBuilder, b: ParserBuilder, h: HelperAttributes) -> bool {
    marked(a.fields.m(), b.fields.m(), h.default_fields@) && b.use_default == (a.use_default || h.default_self is Some) && b.span == (if format_span(h) is Some { format_span(h)->0 } else { a.span })
    && b.capture_next == a.capture_next && b.parse_format == a.parse_format && b.with == a.with && b.source == a.source && b.new_expr == a.new_expr && b.crate_path == a.crate_path
}
proof fn lemma_marked(a: Map<FK, FieldEntry>, b: Map<FK, FieldEntry>, d: Seq<DefaultField>, next: usize) requires marked(a, b, d), numbered(a, next) ensures numbered(b, next)
{
    assert forall|s: Slot| #[trigger] slot(b, s) == slot(a, s) by { if a.dom().contains(s.field) { assert(b[s.field].capture == a[s.field].capture); } }
}
proof fn lemma_both(a: Seq<DefaultField>, b: Seq<DefaultField>) ensures forall|k: FK| #[trigger] defaulted(a + b, k) == (defaulted(a, k) || defaulted(b, k))
{
    assert forall|k: FK| #[trigger] defaulted(a + b, k) == (defaulted(a, k) || defaulted(b, k)) by {
        if defaulted(a, k) { let j = choose|j: int| 0 <= j < a.len() && member_key((#[trigger] a[j]).0) == k; assert((a + b)[j] == a[j]); }
        if defaulted(b, k) { let j = choose|j: int| 0 <= j < b.len() && member_key((#[trigger] b[j]).0) == k; assert((a + b)[j + a.len()] == b[j]); }
        if defaulted(a + b, k) { let j = choose|j: int| 0 <= j < (a + b).len() && member_key((#[trigger] (a + b)[j]).0) == k; if j < a.len() { assert(a[j] == (a + b)[j]); } else { assert(b[j - a.len()] == (a + b)[j]); } }
    }
}
pub trait VxS { spec fn sv(&self) -> Seq<char>; fn vx_s<'b>(&'b self) -> (r: &'b str) ensures r@ == self.sv(); }
impl VxS for str { open spec fn sv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_s<'b>(&'b self) -> (r: &'b str) { self } }
impl VxS for String { open spec fn sv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_s<'b>(&'b self) -> (r: &'b str) { self.as_str() } }
impl HelperAttributes { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn get_option_element(t: &Type) -> (r: Option<&Type>) ensures match r { Some(e) => option_element(*t) == Some(*e), None => option_element(*t) is None } { unimplemented!() }
impl Expr { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Type { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl FieldKey { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures fk(r) == fk(*self) { unimplemented!() } }
// the format of a struct with one field is that field, of a unit variant its name, of a field the field
pub uninterp spec fn newtype_parts(d: DataStruct) -> Option<Seq<Part>>;
pub open spec fn default_parts(vb: VarBase) -> Seq<Part> { match vb { VarBase::Struct { data } => newtype_parts(*data)->0, _ => seq![Part::Var(Seq::empty())] } }
impl<'b> VarBase<'b> {
    // does not return where there is no default (a derive panic, which rustc reports)
    #[verifier::external_body] pub fn default_from_str_format(&self) -> (r: Result<DisplayFormat>)
        ensures r is Ok, parts_of(r->Ok_0.parts@) == default_parts(*self) { unimplemented!() }
}
'''

INV = """        invariant it0.seq() == ms, 0 <= it0.index() <= ms.len(), kept(s0, *self), good(*self), self.parse_format == s0.parse_format, self.with == s0.with,
            ({ let w = rewritten(self.fields.m(), b, txt, ms.take(it0.index() as int)); w.ok && w.cov && vx_i_s@ == w.text && has_capture == w.has && has_capture_empty == w.emp }),
            at(vx_i_last_end) == last(ms.take(it0.index() as int)),
"""
def inline(m):
    """`try_replace_all(RE, TEXT, |C: &Captures| .. { .. })?`: the body of try_replace_all with the closure in the place of the replacer, the names of the callee prefixed"""
    f = Fn('', 'try_replace_all', loops=[INV], l_start={0: """ let ghost i = it0.index() as int; let ghost s1 = *self; let ghost c0 = vx_i_c; let ghost w1 = rewritten(self.fields.m(), b, txt, ms.take(i));
            proof { assert(ms.take(i + 1).drop_last() =~= ms.take(i)); assert(ms.take(i + 1).last() == c0); assert(ms[i] == c0); if i > 0 { assert(ms.take(i).last() == ms[i - 1]); }
                assert forall|e: ParserBuilder| #![trigger good(e)] grown(s1.fields.m(), e.fields.m()) implies rewritten(e.fields.m(), b, txt, ms.take(i)) == w1 by { lemma_rw(s1.fields.m(), e.fields.m(), b, txt, ms.take(i)); }
                assert forall|e: ParserBuilder| #![trigger good(e)] grown(s1.fields.m(), e.fields.m()) && !reply(e.fields.m(), b, c0).ok implies !rewritten(e.fields.m(), b, txt, ms).ok by { assert(!rewritten(e.fields.m(), b, txt, ms.take(i + 1)).ok); lemma_rw_bad(e.fields.m(), b, txt, ms, i + 1); }
                assert forall|e: ParserBuilder| #![trigger good(e)] kept(s1, e) implies kept(s0, e) by { lemma_grown(s0.fields.m(), s1.fields.m(), e.fields.m()); }
                assert forall|n: usize| #[trigger] name_of(n) != "empty"@ by { lemma_not_empty(n); }
                lemma_refl(s1);
            }
"""}, l_end={0: " proof { assert(good(*self)); assert(grown(s1.fields.m(), self.fields.m())); }\n"}, l_after={0: ''' let ghost s2 = *self;
            proof { assert(ms.take(ms.len() as int) =~= ms); assert(rewritten(s2.fields.m(), b, txt, ms).ok);
                assert forall|e: ParserBuilder| #![trigger good(e)] kept(s2, e) implies kept(s0, e) && rewritten(e.fields.m(), b, txt, ms) == rewritten(s2.fields.m(), b, txt, ms) by { lemma_grown(s0.fields.m(), s2.fields.m(), e.fields.m()); lemma_rw(s2.fields.m(), e.fields.m(), b, txt, ms); }
                lemma_refl(s2); }
'''})
    sg, body = Source.of('derive').fn('', 'try_replace_all')[2:4]
    names = re.findall(r'(?:mut )?(\w+)\s*:', params(text(sg))) + re.findall(r'\blet (?:mut )?(\w+)', text(body)) + re.findall(r'\bfor (\w+) in', text(body))
    b = text(f.loops_in(body))
    if len(names) != 7 or not b.rstrip().endswith('}') or not re.search(r'\bOk\(\w+\)\s*\}\s*$', b):
        raise Lost('try_replace_all is not of the shape it can be inlined in')
    for n in names:
        b = re.sub(r'(?<!\w)(?<!(?<!\.)\.)%s\b' % n, 'vx_i_' + n, b)
    reg, txt, rep = names[:3]
    b = re.sub(r'vx_i_%s\(&(\w+)\)\?' % rep, lambda k: '{ let %s = &%s; %s let vx_reply: String = %s; vx_reply }' % (m.group('c'), k.group(1), m.group('let'), 'if %s { %s } else { %s %s }' % (m.group('cond'), m.group('a'), m.group('rest'), m.group('z'))), b)
    if 'vx_i_%s(' % rep in b:
        raise Lost('the replacer is not called as expected')
    b = re.sub(r'\bOk\((\w+)\)\s*\}\s*$', r'\1 }', b)
    return '{ let vx_i_%s = &%s; let vx_i_%s: &str = %s;' % (reg, m.group('re'), txt, m.group('text')) + b[b.index('{') + 1:] + ';'


def params(s):
    return s[s.index('('):]


NODEC = '    #[verifier::exec_allows_no_decreases_clause]'
BAIL = [(r'bail!\(([\w.]+), "(?:\\.|[^"\\])*"\);?', r'return Err(vx_error(\1));')]
FORMAT2 = [(r'format!\(\s*"([^"{]*)\{(\w+)\}([^"{]*)\{(\w+)\}([^"{]*)"\s*\)', r'vx_cat("\1", \2.vx_s(), "\3", \4.vx_s(), "\5")'),
           (r'format!\(\s*"([^"{]*)\{(\w+)\}([^"{]*)"\s*\)', r'vx_cat("\1", \2.vx_s(), "\3", "", "")')]
GOOD = '    requires good(*old(self)), !(*vb is FieldSome),\n'
ITEMS = [
    Ty('FieldKey'), Ty('VarBase'), Ty('DisplayStyle', head='#[derive(Clone, Copy)]'), Ty('DisplayFormat', keep=['parts', 'span']), Ty('DisplayFormatPart'), Ty('With', keep=['capture', 'key', 'expr', 'ty']),
    Ty('HelperAttributes', keep=['format', 'with', 'opt', 'style', 'regex', 'regex_infer', 'default_self', 'default_fields', 'new_expr', 'crate_path']),
    Ty('FieldEntry', keep=['hattrs', 'deep_captures', 'source', 'capture', 'use_default', 'crate_path'], subs=[(r'BTreeMap<Vec<FieldKey>, usize>', 'DeepMap')]),
    Ty('ParserBuilder', keep=['capture_next', 'parse_format', 'fields', 'with', 'source', 'use_default', 'span', 'new_expr', 'crate_path'], subs=[(r"pub\(crate\) ", ''), (r"BTreeMap<FieldKey, FieldEntry<'a>>", "FieldMap<FieldEntry<'a>>")]),
    Const('CAPTURE_NAME_EMPTY', subs=[(r'&str', "&'static str")]),
    '#[verifier::external_body] pub fn vx_into(s: &str) -> (r: String) ensures r@ == s@ { s.into() }',
    Fn('With', 'new', spec='    ensures withv(r) == (WithV { capture: capture@, key: fk(*key), expr: *expr, ty: *ty }),'),
    Fn('', 'capture_name', subs=[(r'format!\("([\w ]*)\{(\w+)\}"\)', r'vx_fmt1("\1", \2)')], spec='    ensures r@ == name_of(idx),'),
    Fn('FieldEntry', 'value_ty', emit_owner="impl<'a> FieldEntry<'a>", spec='    ensures *r == value_type(*self),'),
    Fn("FieldEntry", 'set_capture', emit_owner="impl<'a> FieldEntry<'a>", subs=[(r'Some\(&(\w+)\) = ([^{]*?) \{', r'Some(vx_\1) = \2 { let \1 = *vx_\1;'), (r'(\w+)\.to_vec\(\)', r'vx_to_vec(\1)')],
       start='    proof { assume(*capture_next < usize::MAX); }\n',
       spec="""    ensures ({ let p = fks(keys@); match own_slot(*old(self), p) {
        Some(n) => r@ == name_of(n) && *final(capture_next) == *old(capture_next) && *final(self) == *old(self),
        None => r@ == name_of(*old(capture_next)) && *final(capture_next) == *old(capture_next) + 1 && set_to(*old(self), *final(self), p, *old(capture_next)) } }),"""),
    Fn('', 'field_of', sig=[(r"BTreeMap<FieldKey, FieldEntry<'b>>", "FieldMap<FieldEntry<'b>>")], subs=BAIL,
       spec="""    ensures match r { Ok(v) => old(fields).m().dom().contains(fk(*key)) && *v == old(fields).m()[fk(*key)] && final(fields).m() == old(fields).m().insert(fk(*key), *final(v)),
        Err(_) => !old(fields).m().dom().contains(fk(*key)) && *final(fields) == *old(fields) },"""),
    Fn("ParserBuilder", 'set_capture', emit_owner="impl<'a> ParserBuilder<'a>", tail="""
        proof {
            let s = var_slot(base(*vb), fks(keys@));
            let a = old(self).fields.m(); let b = self.fields.m();
            assert(fks(sub_keys@) =~= s.path);
            assert(b.dom() =~= a.dom());
            lemma_numbering(a, b, s.field, s.path, match own_slot(a[s.field], s.path) { Some(n) => n, None => old(self).capture_next }, old(self).capture_next, self.capture_next);
        }
""", subs=[(r'CAPTURE_NAME_EMPTY\.into\(\)', 'vx_into(CAPTURE_NAME_EMPTY)')],
       start='    proof { lemma_refl(*self); }\n',
       spec=GOOD + """    ensures kept(*old(self), *final(self)), good(*final(self)), final(self).with == old(self).with, final(self).parse_format == old(self).parse_format,
        ({ let ks = fks(keys@); let s = var_slot(base(*vb), ks);
           if !(*vb is Field) && ks.len() == 0 { r is Ok && r->Ok_0@ == "empty"@ }
           else { (r is Ok) == old(self).fields.m().dom().contains(s.field) && (r is Ok ==> slot(final(self).fields.m(), s) is Some && r->Ok_0@ == name_of(slot(final(self).fields.m(), s)->0)) } }),"""),
    """proof fn lemma_refl(s: ParserBuilder) ensures kept(s, s) {
}""",
    Fn("ParserBuilder", 'push_str', emit_owner="impl<'a> ParserBuilder<'a>", start='    proof { lemma_plain(self.parse_format.toks(), chars(string@)); assert(plain(chars(string@))); lemma_refl(*self); let w = withvs(self.with@); assert(w + Seq::<WithV>::empty() =~= w); }\n',
       spec='    requires good(*old(self)),\n    ensures did(*old(self), *final(self), text(string@), true),'),
    Fn("ParserBuilder", 'field', emit_owner="impl<'a> ParserBuilder<'a>",
       spec="""    ensures match r { Ok(v) => old(self).fields.m().dom().contains(fk(*key)) && *v == old(self).fields.m()[fk(*key)]
            && *final(self) == (ParserBuilder { fields: final(self).fields, ..*old(self) }) && final(self).fields.m() == old(self).fields.m().insert(fk(*key), *final(v)),
        Err(_) => !old(self).fields.m().dom().contains(fk(*key)) && *final(self) == *old(self) },"""),
    Fn("ParserBuilder", 'push_field', emit_owner="impl<'a> ParserBuilder<'a>", head=NODEC, subs=[(r'mem::take\(', 'vx_take(')],
       start="""    let ghost s0 = *self; let ghost k = fk(*key);
    proof {
        lemma_refl(s0);
        assert(s0.fields.m().dom().contains(k) ==> s0.fields.m().insert(k, s0.fields.m()[k]) =~= s0.fields.m());
        assert forall|a: Seq<Tok>| #[trigger] (Seq::<Tok>::empty() + a) == a by { assert(Seq::<Tok>::empty() + a =~= a); }
        assert(plain(Seq::<Tok>::empty()));
        assert forall|v: Seq<Hir>, h: Hir| #[trigger] flat(v.push(h)) == flat(v) + toks(h) by { assert(v.push(h).drop_last() =~= v); }
        assert forall|a: Seq<Tok>, m: Option<u32>, g: bool, n: u32, q: Seq<Tok>| #[trigger] plain(a + seq![Tok::Rep(n, m, g, q)]) == false by { assert((a + seq![Tok::Rep(n, m, g, q)])[a.len() as int] is Rep); }
    }
""",
       spec=GOOD + """    ensures did(*old(self), *final(self), field_pat(final(self).fields.m(), fk(*key)), r is Ok),"""),
    Fn('fn push_regex', 'is_escaped', emit_owner='', subs=[(r'(\w+)\.len\(\)', r'vx_bytes(\1)')], spec='    ensures r == (utf8(s@) % 2 == 1),'),
    Fn("ParserBuilder", 'push_regex', emit_owner="impl<'a> ParserBuilder<'a>", head=NODEC + '\n    #[verifier::loop_isolation(false)]', no_inner=True,
       subs=[(r'const (\w+): usize = (\d+);', r'let \1: usize = \2;'), (r'let regex_number = regex!\("[^"]*"\);', ''), (r'regex!\((r"[^"]*")\)', r'vx_re(\1)'),
             (r'(?s)regex_capture\.replace_all\(&(\w+), \|c: &Captures\| \{.*?\n        \}\);', r'vx_debug(&\1);'), (r'regex_syntax::ast::parse::Parser::new\(\)\.parse\(', 'vx_check('),
             (r'(?s)try_replace_all\((?P<re>\w+), (?P<text>&\w+), \|(?P<c>\w+): &Captures\| -> Result<String> \{\s*(?P<let>let \w+ = [^;]*;)\s*if (?P<cond>[^{]*?) \{\s*return Ok\((?P<a>.*?)\);\s*\}(?P<rest>.*?)\n\s*Ok\((?P<z>format!\([^()]*\(\?<[^()]*\))\)\s*\}\)\?;', inline),
             (r'&(\w+)\[(\w+)\.\.\s*(\w+)\.start\(\)\]', r'vx_slice(\1, \2, \3.start())'), (r'&(\w+)\[(\w+)\.\.\]', r'vx_rest(\1, \2)'), (r'(\w+)\.get\(0\)\.unwrap\(\)', r'\1.vx_whole()'),
             (r'for (\w+) in it0:\s*(\w+)\.captures_iter\((\w+)\)', r'let vx_ms = vx_matches(\2, \3); for \1 in it0: vx_ms'),
             (r'\.as_ref\(\)', '.as_str()'), (r'\b(vx_i_\w+)\.push_str\(', r'vx_push(&mut \1, '), (r'&c\[(\w+)\]', r'c.vx_group(\1)'), (r'\bc\[0\]\.to_owned\(\)', 'vx_own(c.vx_group(0))'),
             (r'\b(\w+) == CAPTURE_NAME_EMPTY', r'vx_same(&\1, CAPTURE_NAME_EMPTY)'), (r'(\w+)\.is_empty\(\)', r'vx_empty(\1)'), (r'&\[\]', '&vx_no_keys')] + FORMAT2 + [(r'(?s)bail!\(\s*([\w.()]+),\s*"(?:\\.|[^"\\])*",?\s*\);?', r'return Err(vx_error(\1));')],
       start="""    let vx_no_keys: Vec<FieldKey> = Vec::new(); let ghost s0 = *self; let ghost b = base(*vb); let ghost txt = lit(*s); let ghost ms = matches(capture_re(), txt);
    proof { lemma_refl(s0); axiom_start(); assert(ms.take(0) =~= Seq::<Captures>::empty()); assert(fks(vx_no_keys@) =~= Seq::<FK>::empty());
        assert(s0.parse_format.toks() + Seq::<Tok>::empty() =~= s0.parse_format.toks()); assert(withvs(s0.with@) + Seq::<WithV>::empty() =~= withvs(s0.with@));
        assert forall|a: Seq<Tok>, t: Tok| !(t is Ch) implies #[trigger] plain(a + seq![t]) == false by { assert((a + seq![t])[a.len() as int] == t); }
        assert forall|n: usize| #[trigger] name_of(n) != "empty"@ by { lemma_not_empty(n); }
    }
""",
       spec=GOOD + """    ensures did(*old(self), *final(self), regex_pat(final(self).fields.m(), *s, base(*vb), fparts(*format)), r is Ok),"""),
    Fn("ParserBuilder", 'push_attrs', emit_owner="impl<'a> ParserBuilder<'a>", head=NODEC,
       spec=GOOD + """    ensures did(*old(self), *final(self), attrs_pat(final(self).fields.m(), base(*vb), *hattrs, default_parts(*vb)), r is Ok),"""),
    Fn("ParserBuilder", 'try_push_attrs', emit_owner="impl<'a> ParserBuilder<'a>", head=NODEC,
       spec=GOOD + """    ensures r is Ok ==> r->Ok_0 == (hattrs.regex is Some || hattrs.format is Some),
        r is Ok && !r->Ok_0 ==> *final(self) == *old(self),
        r is Ok && r->Ok_0 || r is Err ==> did(*old(self), *final(self), attrs_pat(final(self).fields.m(), base(*vb), *hattrs, Seq::empty()), r is Ok),"""),
    Fn("ParserBuilder", 'push_format', emit_owner="impl<'a> ParserBuilder<'a>", head=NODEC + '\n    #[verifier::loop_isolation(false)]', subs=FORMAT2 + BAIL + [(r'let mut it0 = &([\w.]+);', r'let mut it0 = vx_iter(&\1);')],
       start="""    let ghost s0 = *self; let ghost b = base(*vb); let ghost v = parts_of(format.parts@); let ghost w = match with { Some(e) => Some(*e), None => None }; let ghost re = match regex { Some(t) => Some(t@), None => None };
    proof {
        lemma_refl(s0);
        reveal_strlit("{"); reveal_strlit("}"); assert("{"@ =~= seq!['{']); assert("}"@ =~= seq!['}']);
        assert(v.take(0) =~= Seq::<Part>::empty());
        assert(s0.parse_format.toks() + Seq::<Tok>::empty() =~= s0.parse_format.toks()); assert(withvs(s0.with@) + Seq::<WithV>::empty() =~= withvs(s0.with@));
        lemma_strings();
    }
""",
       loops=["""    invariant it0.obeys_prophetic_iter_laws(), it0.will_return_none(), seq0.len() == format.parts@.len(), forall|i: int| 0 <= i < seq0.len() ==> *(#[trigger] seq0[i]) == format.parts@[i],
            it0.remaining().len() <= seq0.len(), it0.remaining() == seq0.skip(seq0.len() - it0.remaining().len()),
            did(s0, *self, format_pat(self.fields.m(), b, v.take(v.len() - it0.remaining().len()), w, re), true),"""],
       l_start={0: """
            let ghost s1 = *self; let ghost i = v.len() - it0.remaining().len() - 1;
            proof {
                lemma_refl(s1);
                assert forall|m: Map<FK, FieldEntry>, k: FK| m.dom().contains(k) implies #[trigger] m.insert(k, m[k]) == m by { assert(m.insert(k, m[k]) =~= m); }
                assert forall|q: Seq<With>, w: With| #[trigger] withvs(q.push(w)) == withvs(q) + seq![withv(w)] by { assert(withvs(q.push(w)) =~= withvs(q) + seq![withv(w)]); }
                assert(withvs(s1.with@) + Seq::<WithV>::empty() =~= withvs(s1.with@));
                assert(v[i] == part(*p));
                assert forall|e: ParserBuilder| #![trigger good(e)] did(s1, e, part_pat(e.fields.m(), b, v[i], w, re), true) implies did(s0, e, format_pat(e.fields.m(), b, v.take(i + 1), w, re), true) by { lemma_then(s0, s1, e, b, v, i, w, re, true); }
                assert forall|e: ParserBuilder| #![trigger good(e)] did(s1, e, part_pat(e.fields.m(), b, v[i], w, re), false) implies did(s0, e, format_pat(e.fields.m(), b, v, w, re), false) by {
                    lemma_then(s0, s1, e, b, v, i, w, re, false); lemma_bad(e.fields.m(), b, v, i + 1, w, re); }
                assert forall|a: Seq<Tok>, q: Seq<char>| #[trigger] plain(a + seq![Tok::Re(q)]) == false by { assert((a + seq![Tok::Re(q)])[a.len() as int] == Tok::Re(q)); }
            }
"""},
       l_end={0: '\n            proof { assert(good(*self)); }\n'},
       l_after={0: """
        proof { assert(v.take(v.len() as int) =~= v); }
"""},
       spec=GOOD + """    ensures did(*old(self), *final(self), format_pat(final(self).fields.m(), base(*vb), parts_of(format.parts@), match with { Some(e) => Some(*e), None => None }, match regex { Some(t) => Some(t@), None => None }), r is Ok),"""),
    Fn('FieldEntry', 'new', emit_owner="impl<'a> FieldEntry<'a>", subs=[(r'parse_quote!\(#crate_path::helpers::RegexInfer\)', 'vx_infer(crate_path)'), (r'BTreeMap::new\(\)', 'DeepMap::new()')],
       spec='    ensures match r { Ok(e) => fresh(e, *source, regex_infer, *crate_path), Err(_) => attrs_of(source.attrs@, true) is None },'),
    Fn('ParserBuilder', 'new', emit_owner="impl<'a> ParserBuilder<'a>", subs=[(r'BTreeMap::new\(\)', 'FieldMap::new()')], head='    #[verifier::loop_isolation(false)]',
       loops=["""            invariant 0 <= it0.index() <= it0.seq().len(),
                forall|i: int| 0 <= i < it0.seq().len() ==> fields_of(*source).dom().contains(fk((#[trigger] it0.seq()[i]).0)) && fields_of(*source)[fk(it0.seq()[i].0)] == *it0.seq()[i].1,
                forall|k: FK| #[trigger] fields_of(*source).dom().contains(k) ==> exists|i: int| 0 <= i < it0.seq().len() && fk((#[trigger] it0.seq()[i]).0) == k,
                forall|i: int| 0 <= i < it0.index() ==> fields.m().dom().contains(fk((#[trigger] it0.seq()[i]).0)),
                some_fresh(fields.m(), fields_of(*source), regex_infer, *crate_path),"""],
       l_start={0: ' let ghost f0 = fields.m(); let ghost ix = it0.index() as int; let ghost kk = fk(key); proof { assert(kk == fk(it0.seq()[ix].0) && field == it0.seq()[ix].1); }\n'},
       l_end={0: ' proof { assert(fields.m() =~= f0.insert(kk, fields.m()[kk])); lemma_fresh(f0, kk, fields.m()[kk], fields_of(*source), regex_infer, *crate_path); }\n'},
       l_after={0: ' proof { assert(fields.m().dom() =~= fields_of(*source).dom()); }\n'},
       tail='''
        proof { assert(vx_r->Ok_0.fields.m().dom() =~= fields_of(*source).dom()); assert(plain(vx_r->Ok_0.parse_format.toks())); assert(forall|s: Slot| #[trigger] slot(vx_r->Ok_0.fields.m(), s) is None); }
''',
       spec="""    ensures match r { Ok(s) => good(s) && all_fresh(s.fields.m(), fields_of(*source), regex_infer, *crate_path) && s.parse_format.toks() == Seq::<Tok>::empty() && s.with@ == Seq::<With>::empty()
        && !s.use_default && s.new_expr is None && s.source == source && s.crate_path == crate_path, Err(_) => exists|k: FK| #[trigger] fields_of(*source).dom().contains(k) && attrs_of(fields_of(*source)[k].attrs@, true) is None },"""),
    Fn('ParserBuilder', 'apply_attrs', emit_owner="impl<'a> ParserBuilder<'a>", head='    #[verifier::loop_isolation(false)]', subs=[(r'(self\.field\([^;]*\)\?)\.use_default = true;', r'let vx_f = \1; vx_f.use_default = true;')],
       loops=["""            invariant 0 <= it0.index() <= hattrs.default_fields@.len(), it0.seq().len() == hattrs.default_fields@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == hattrs.default_fields@[i],
                marked(s0.fields.m(), self.fields.m(), hattrs.default_fields@.take(it0.index() as int)), *self == (ParserBuilder { fields: self.fields, use_default: s0.use_default || hattrs.default_self is Some, ..s0 }),
                forall|i: int| 0 <= i < it0.index() ==> s0.fields.m().dom().contains(member_key((#[trigger] hattrs.default_fields@[i]).0)),"""],
       l_end={0: '''
            proof {
                let d = hattrs.default_fields@; let i = it0.index() as int;
                assert(d.take(i + 1).last() == d[i]);
                assert forall|q: FK| #[trigger] s0.fields.m().dom().contains(q) implies defaulted(d.take(i + 1), q) == (defaulted(d.take(i), q) || q == member_key(d[i].0)) by {
                    if defaulted(d.take(i), q) { let j = choose|j: int| 0 <= j < d.take(i).len() && member_key((#[trigger] d.take(i)[j]).0) == q; assert(d.take(i + 1)[j] == d.take(i)[j]); }
                    if defaulted(d.take(i + 1), q) && q != member_key(d[i].0) { let j = choose|j: int| 0 <= j < d.take(i + 1).len() && member_key((#[trigger] d.take(i + 1)[j]).0) == q; assert(d.take(i)[j] == d.take(i + 1)[j]); }
                    if q == member_key(d[i].0) { assert(member_key(d.take(i + 1)[i].0) == q); }
                }
                assert(self.fields.m().dom() =~= s0.fields.m().dom());
            }
'''},
       l_after={0: '''
        proof { assert(hattrs.default_fields@.take(hattrs.default_fields@.len() as int) =~= hattrs.default_fields@); lemma_marked(s0.fields.m(), self.fields.m(), hattrs.default_fields@, s0.capture_next); }
'''},
       start='    let ghost s0 = *self;\n    proof { let d = hattrs.default_fields@; assert(forall|k: FK| !defaulted(d.take(0), k)); }\n',
       spec="""    requires good(*old(self)),
    ensures r is Ok ==> good(*final(self)) && applied(*old(self), *final(self), *hattrs),
        (r is Ok) == (forall|i: int| 0 <= i < hattrs.default_fields@.len() ==> old(self).fields.m().dom().contains(member_key((#[trigger] hattrs.default_fields@[i]).0))),"""),
    Fn('ParserBuilder', 'from_struct', emit_owner="impl<'a> ParserBuilder<'a>", subs=[(r'([\w.]+)\.clone_from\(&([\w.]+)\)', r'vx_clone_from(&mut \1, &\2)')],
       spec="""    ensures r is Ok ==> ({ let s = r->Ok_0; let p = attrs_pat(s.fields.m(), Base::Struct, *hattrs, newtype_parts(*data)->0);
        built(s, data.fields, hattrs.regex_infer, hattrs.crate_path, hattrs.default_fields@, p) && s.new_expr == hattrs.new_expr && s.use_default == (hattrs.default_self is Some) && s.source == &data.fields }),"""),
    # what the variant says wins; where it says nothing about the format, the enum's is taken
    Fn('ParserBuilder', 'from_variant', emit_owner="impl<'a> ParserBuilder<'a>", start='    proof { lemma_both(hattrs_enum.default_fields@, hattrs_variant.default_fields@); }\n', subs=[(r'([\w.]+)\.clone_from\(&([\w.]+)\)', r'vx_clone_from(&mut \1, &\2)')],
       spec="""    ensures r is Ok ==> ({ let s = r->Ok_0; let h = if hattrs_variant.regex is Some || hattrs_variant.format is Some { *hattrs_variant } else { *hattrs_enum };
        let p = attrs_pat(s.fields.m(), Base::Variant(cased(style_for(*hattrs_enum, *hattrs_variant), variant.ident)), h, seq![Part::Var(Seq::empty())]);
        built(s, variant.fields, hattrs_enum.regex_infer || hattrs_variant.regex_infer, hattrs_enum.crate_path, hattrs_enum.default_fields@ + hattrs_variant.default_fields@, p)
        && s.new_expr == hattrs_variant.new_expr && s.use_default == (hattrs_enum.default_self is Some || hattrs_variant.default_self is Some) && s.source == &variant.fields }),"""),
]
UNIT = Unit('builder', PRE, ITEMS, post="""
proof fn lemma_strings()
    ensures forall|n: Seq<char>| #[trigger] cat("(?<"@, n, ">(?s:.*?))"@, ""@, ""@) == cat("(?<"@, n, ">(?s:"@, ".*?"@, "))"@)
{
    reveal_strlit(">(?s:.*?))"); reveal_strlit(">(?s:"); reveal_strlit(".*?"); reveal_strlit("))"); reveal_strlit(""); reveal_strlit("(?<");
    assert forall|n: Seq<char>| #[trigger] cat("(?<"@, n, ">(?s:.*?))"@, ""@, ""@) == cat("(?<"@, n, ">(?s:"@, ".*?"@, "))"@) by {
        assert(cat("(?<"@, n, ">(?s:.*?))"@, ""@, ""@) =~= cat("(?<"@, n, ">(?s:"@, ".*?"@, "))"@));
    }
}
// ---- consequences
// the pattern of a format is that of its pieces, in their order
proof fn lemma_order(fs: Map<FK, FieldEntry>, b: Base, v: Seq<Part>, w: Seq<Part>, with: Option<Expr>, re: Option<Seq<char>>)
    ensures format_pat(fs, b, v + w, with, re) == then(format_pat(fs, b, v, with, re), format_pat(fs, b, w, with, re))
    decreases w.len()
{
    let p = format_pat(fs, b, v, with, re);
    if w.len() == 0 { assert(v + w =~= v); assert(p.t + Seq::<Tok>::empty() =~= p.t); assert(p.w + Seq::<WithV>::empty() =~= p.w); }
    else {
        lemma_order(fs, b, v, w.drop_last(), with, re);
        assert((v + w).drop_last() =~= v + w.drop_last()); assert((v + w).last() == w.last());
        let q = format_pat(fs, b, w.drop_last(), with, re); let r = part_pat(fs, b, w.last(), with, re);
        assert((p.t + q.t) + r.t =~= p.t + (q.t + r.t)); assert((p.w + q.w) + r.w =~= p.w + (q.w + r.w));
    }
}
// a format without placeholders is its text, matched by comparison
pub open spec fn literal(v: Seq<Part>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { literal(v.drop_last()) + (match v.last() { Part::Lit(t) => t, Part::Open => seq!['{'], Part::Close => seq!['}'], Part::Var(_) => Seq::empty() }) }
}
proof fn lemma_literal(fs: Map<FK, FieldEntry>, b: Base, v: Seq<Part>, with: Option<Expr>, re: Option<Seq<char>>)
    requires forall|i: int| 0 <= i < v.len() ==> !((#[trigger] v[i]) is Var)
    ensures format_pat(fs, b, v, with, re) == text(literal(v)), plain(text(literal(v)).t)
    decreases v.len()
{
    if v.len() == 0 { assert(chars(literal(v)) =~= Seq::<Tok>::empty()); }
    else {
        assert forall|i: int| 0 <= i < v.drop_last().len() implies !((#[trigger] v.drop_last()[i]) is Var) by { assert(v.drop_last()[i] == v[i]); }
        lemma_literal(fs, b, v.drop_last(), with, re);
        assert(!(v.last() is Var));
        let q = part_pat(fs, b, v.last(), with, re);
        assert(chars(literal(v)) =~= chars(literal(v.drop_last())) + q.t);
        assert(Seq::<WithV>::empty() + Seq::<WithV>::empty() =~= Seq::<WithV>::empty());
    }
}
// two placeholders never share a group, so one field cannot be given the text of another
proof fn lemma_groups(fs: Map<FK, FieldEntry>, next: usize, a: Slot, b: Slot)
    requires numbered(fs, next), slot(fs, a) is Some, slot(fs, b) is Some, name_of(slot(fs, a)->0) == name_of(slot(fs, b)->0)
    ensures a == b
{
    broadcast use axiom_dec;
    reveal_strlit("value_");
    let (m, n) = (slot(fs, a)->0, slot(fs, b)->0);
    assert(name_of(m).skip(6) =~= dec(m)); assert(name_of(n).skip(6) =~= dec(n));
    assert(slot(fs, a) == slot(fs, b));
}
// ---- the round trip.  A format is a first text and then, per placeholder, the text behind it.
// what Display writes for the fields' texts (unit display: one piece per part, in order)
pub open spec fn shown(lits: Seq<Seq<char>>, ts: Seq<Seq<char>>) -> Seq<char> decreases ts.len() {
    if ts.len() == 0 { Seq::empty() } else { ts[0] + lits[0] + shown(lits.skip(1), ts.skip(1)) }
}
// the ways the pattern `(?s:.*?)lit (?s:.*?)lit ..` fits a whole text
pub open spec fn fits(lits: Seq<Seq<char>>, s: Seq<char>, ts: Seq<Seq<char>>) -> bool { ts.len() == lits.len() && shown(lits, ts) == s }
// a is preferred to b: the first place where they differ is shorter in a (lazy repetitions, leftmost first)
pub open spec fn before(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> bool decreases a.len() {
    a.len() > 0 && b.len() > 0 && (a[0].len() < b[0].len() || a[0].len() == b[0].len() && before(a.skip(1), b.skip(1)))
}
// what the regex engine captures (assumed: the semantics of lazy repetitions)
pub open spec fn captured(lits: Seq<Seq<char>>, s: Seq<char>, ts: Seq<Seq<char>>) -> bool { fits(lits, s, ts) && forall|o: Seq<Seq<char>>| #[trigger] fits(lits, s, o) ==> !before(o, ts) }
pub open spec fn occurs(l: Seq<char>, s: Seq<char>, i: int) -> bool { 0 <= i && i + l.len() <= s.len() && s.subrange(i, i + l.len()) == l }
// the text behind a placeholder occurs for the first time behind it
pub open spec fn separated(lits: Seq<Seq<char>>, ts: Seq<Seq<char>>) -> bool {
    forall|k: int, i: int| 0 <= k < ts.len() - 1 && 0 <= i < ts[k].len() ==> !#[trigger] occurs(lits[k], ts[k] + lits[k], i)
}
proof fn lemma_round_trip(lits: Seq<Seq<char>>, ts: Seq<Seq<char>>, us: Seq<Seq<char>>)
    requires lits.len() == ts.len(), separated(lits, ts), captured(lits, shown(lits, ts), us)
    ensures us == ts
    decreases ts.len()
{
    if ts.len() == 0 { assert(us =~= ts); }
    else {
        let s = shown(lits, ts);
        let rt = shown(lits.skip(1), ts.skip(1)); let ru = shown(lits.skip(1), us.skip(1));
        assert(s == ts[0] + lits[0] + rt); assert(s == us[0] + lits[0] + ru);
        if us[0].len() < ts[0].len() {
            if ts.len() == 1 {
                assert(rt.len() == 0 && ru.len() == 0);
                assert(s.len() == us[0].len() + lits[0].len()); assert(false);
            } else {
                let i = us[0].len() as int;
                let w = ts[0] + lits[0];
                assert(w.subrange(i, i + lits[0].len()) =~= lits[0]) by {
                    assert forall|j: int| 0 <= j < lits[0].len() implies w[i + j] == lits[0][j] by { assert(s[i + j] == w[i + j]); assert(s[i + j] == (us[0] + lits[0] + ru)[i + j]); }
                }
                assert(occurs(lits[0], w, i));
                assert(false);
            }
        }
        assert(fits(lits, s, ts));
        if us[0].len() > ts[0].len() { assert(before(ts, us)); assert(false); }
        assert(us[0] =~= ts[0]) by { assert forall|j: int| 0 <= j < ts[0].len() implies us[0][j] == ts[0][j] by { assert(s[j] == ts[0][j]); assert(s[j] == us[0][j]); } }
        assert(rt =~= ru) by { let n = (ts[0] + lits[0]).len() as int; assert(rt =~= s.skip(n)); assert(ru =~= s.skip(n)); }
        assert(separated(lits.skip(1), ts.skip(1))) by {
            assert forall|k: int, i: int| 0 <= k < ts.skip(1).len() - 1 && 0 <= i < ts.skip(1)[k].len() implies !#[trigger] occurs(lits.skip(1)[k], ts.skip(1)[k] + lits.skip(1)[k], i) by {
                assert(lits.skip(1)[k] == lits[k + 1]); assert(ts.skip(1)[k] == ts[k + 1]);
                assert(!occurs(lits[k + 1], ts[k + 1] + lits[k + 1], i));
            }
        }
        assert(captured(lits.skip(1), rt, us.skip(1))) by {
            assert forall|o: Seq<Seq<char>>| #[trigger] fits(lits.skip(1), rt, o) implies !before(o, us.skip(1)) by {
                let p = seq![us[0]] + o;
                assert(p.skip(1) =~= o);
                assert(shown(lits, p) == us[0] + lits[0] + rt);
                assert(fits(lits, s, p));
                assert(!before(p, us));
            }
        }
        lemma_round_trip(lits.skip(1), ts.skip(1), us.skip(1));
        assert(us =~= seq![us[0]] + us.skip(1)); assert(ts =~= seq![ts[0]] + ts.skip(1));
    }
}

proof fn lemma_shown_push(lits: Seq<Seq<char>>, ts: Seq<Seq<char>>, l: Seq<char>, t: Seq<char>)
    requires lits.len() == ts.len() ensures shown(lits.push(l), ts.push(t)) == shown(lits, ts) + t + l decreases ts.len()
{
    if ts.len() == 0 { assert(ts.push(t).skip(1) =~= Seq::<Seq<char>>::empty()); assert(shown(lits.push(l).skip(1), ts.push(t).skip(1)) =~= Seq::<char>::empty()); assert(lits.push(l)[0] == l && ts.push(t)[0] == t); assert(shown(lits, ts) =~= Seq::<char>::empty()); assert(shown(lits.push(l), ts.push(t)) =~= shown(lits, ts) + t + l); }
    else {
        lemma_shown_push(lits.skip(1), ts.skip(1), l, t);
        assert(lits.push(l).skip(1) =~= lits.skip(1).push(l)); assert(ts.push(t).skip(1) =~= ts.skip(1).push(t));
        assert(shown(lits.push(l), ts.push(t)) =~= shown(lits, ts) + t + l);
    }
}
// more text behind the last placeholder
proof fn lemma_shown_more(lits: Seq<Seq<char>>, ts: Seq<Seq<char>>, l: Seq<char>)
    requires lits.len() == ts.len(), ts.len() > 0 ensures shown(lits.drop_last().push(lits.last() + l), ts) == shown(lits, ts) + l
{
    let a = lits.drop_last(); let b = ts.drop_last();
    assert(lits =~= a.push(lits.last())); assert(ts =~= b.push(ts.last()));
    lemma_shown_push(a, b, lits.last(), ts.last()); lemma_shown_push(a, b, lits.last() + l, ts.last());
    assert(shown(a, b) + ts.last() + (lits.last() + l) =~= shown(a, b) + ts.last() + lits.last() + l);
}
// a format: the text in front of the first placeholder, the placeholders, the text behind each
pub struct Split { pub first: Seq<char>, pub vars: Seq<FK>, pub lits: Seq<Seq<char>> }
pub open spec fn more(s: Split, l: Seq<char>) -> Split { if s.vars.len() == 0 { Split { first: s.first + l, ..s } } else { Split { lits: s.lits.drop_last().push(s.lits.last() + l), ..s } } }
pub open spec fn split(v: Seq<Part>) -> Split decreases v.len() {
    if v.len() == 0 { Split { first: Seq::empty(), vars: Seq::empty(), lits: Seq::empty() } }
    else { let s = split(v.drop_last()); match v.last() { Part::Lit(t) => more(s, t), Part::Open => more(s, seq!['{']), Part::Close => more(s, seq!['}']), Part::Var(a) => Split { first: s.first, vars: s.vars.push(deep(a)[0]), lits: s.lits.push(Seq::empty()) } } }
}
// fields named directly, shown and parsed by their own traits
pub open spec fn simple(fs: Map<FK, FieldEntry>, v: Seq<Part>) -> bool {
    forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Var ==> ({ let ks = deep(v[i]->Var_0); ks.len() == 1 && fs.dom().contains(ks[0]) && ({ let h = fs[ks[0]].hattrs; h.regex is None && h.format is None && h.with is None && h.opt.span is None }) })
}
// what the format writes when field k writes texts[k]
pub open spec fn written(v: Seq<Part>, texts: spec_fn(FK) -> Seq<char>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { written(v.drop_last(), texts) + (match v.last() { Part::Lit(t) => t, Part::Open => seq!['{'], Part::Close => seq!['}'], Part::Var(a) => texts(deep(a)[0]) }) }
}
// what a pattern of characters and `(?<value_N>(?s:.*?))` fits when its groups take ts
pub open spec fn groups(t: Seq<Tok>) -> nat decreases t.len() { if t.len() == 0 { 0 } else { groups(t.drop_last()) + if t.last() is Re { 1nat } else { 0 } } }
pub open spec fn render(t: Seq<Tok>, ts: Seq<Seq<char>>) -> Seq<char> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else { match t.last() { Tok::Ch(c) => render(t.drop_last(), ts).push(c), _ => render(t.drop_last(), ts.drop_last()) + ts.last() } }
}
pub open spec fn any_groups(t: Seq<Tok>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]) is Ch || exists|n: usize| seq![t[i]] == #[trigger] group(n, ".*?"@) }
pub open spec fn captured_by(t: Seq<Tok>, s: Seq<char>, ts: Seq<Seq<char>>) -> bool {
    ts.len() == groups(t) && render(t, ts) == s && forall|o: Seq<Seq<char>>| o.len() == groups(t) && #[trigger] render(t, o) == s ==> !before(o, ts)
}
proof fn lemma_render_chars(t: Seq<Tok>, l: Seq<char>, ts: Seq<Seq<char>>) ensures render(t + chars(l), ts) == render(t, ts) + l, groups(t + chars(l)) == groups(t) decreases l.len()
{
    if l.len() == 0 { assert(t + chars(l) =~= t); assert(render(t, ts) + l =~= render(t, ts)); }
    else {
        lemma_render_chars(t, l.drop_last(), ts);
        assert((t + chars(l)).drop_last() =~= t + chars(l.drop_last())); assert((t + chars(l)).last() == Tok::Ch(l.last()));
        assert((render(t, ts) + l.drop_last()).push(l.last()) =~= render(t, ts) + l);
    }
}
proof fn lemma_split(fs: Map<FK, FieldEntry>, v: Seq<Part>, texts: spec_fn(FK) -> Seq<char>, ts: Seq<Seq<char>>)
    requires simple(fs, v), ts.len() == split(v).vars.len()
    ensures ({ let p = format_pat(fs, Base::Struct, v, None, None); let s = split(v);
        p.ok && s.lits.len() == s.vars.len() && any_groups(p.t) && groups(p.t) == s.vars.len() && render(p.t, ts) == s.first + shown(s.lits, ts)
        && written(v, texts) == s.first + shown(s.lits, s.vars.map_values(texts)) }),
    decreases v.len()
{
    let s = split(v);
    if v.len() == 0 { assert(s.first + shown(s.lits, ts) =~= Seq::<char>::empty()); assert(s.first + shown(s.lits, s.vars.map_values(texts)) =~= Seq::<char>::empty()); }
    else {
        let w = v.drop_last(); let r = split(w);
        assert(simple(fs, w)) by { assert forall|i: int| 0 <= i < w.len() && (#[trigger] w[i]) is Var implies ({ let ks = deep(w[i]->Var_0); ks.len() == 1 && fs.dom().contains(ks[0]) && ({ let h = fs[ks[0]].hattrs; h.regex is None && h.format is None && h.with is None && h.opt.span is None }) }) by { assert(w[i] == v[i]); } }
        let q = format_pat(fs, Base::Struct, w, None, None); let p = part_pat(fs, Base::Struct, v.last(), None, None);
        match v.last() {
            Part::Var(a) => {
                let k = deep(a)[0];
                assert(v[v.len() - 1] is Var);
                let t0 = ts.drop_last();
                lemma_split(fs, w, texts, t0);
                let d: Seq<Part> = seq![Part::Var(Seq::empty())];
                let n = slot(fs, Slot { field: k, path: Seq::empty() })->0;
                assert(d.drop_last() =~= Seq::<Part>::empty()); assert(deep(Seq::<char>::empty()) =~= Seq::<FK>::empty());
                let g = group(n, ".*?"@);
                let fb = Base::Field(k);
                let inner = part_pat(fs, fb, d.last(), None, None);
                assert(var_slot(fb, Seq::<FK>::empty()) == Slot { field: k, path: Seq::empty() });
                assert(inner.t == g);
                assert(format_pat(fs, fb, d, None, None) == then(format_pat(fs, fb, d.drop_last(), None, None), inner));
                assert(format_pat(fs, fb, d.drop_last(), None, None) == nothing());
                assert(Seq::<Tok>::empty() + g =~= g);
                assert(p.t == g);
                let t = q.t + g;
                assert(t.drop_last() =~= q.t); assert(t.last() == g[0]); assert(seq![g[0]] =~= g);
                assert(render(t, ts) == render(q.t, t0) + ts.last());
                assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) is Ch || exists|n: usize| seq![t[i]] == #[trigger] group(n, ".*?"@) by { if i < q.t.len() { assert(t[i] == q.t[i]); } else { assert(seq![t[i]] == group(n, ".*?"@)); } }
                lemma_shown_push(r.lits, t0, Seq::empty(), ts.last());
                assert(ts =~= t0.push(ts.last()));
                assert(s.first + shown(s.lits, ts) =~= (r.first + shown(r.lits, t0)) + ts.last());
                let m = r.vars.map_values(texts);
                lemma_shown_push(r.lits, m, Seq::empty(), texts(k));
                assert(s.vars.map_values(texts) =~= m.push(texts(k)));
                assert(s.first + shown(s.lits, s.vars.map_values(texts)) =~= (r.first + shown(r.lits, m)) + texts(k));
            }
            _ => {
                lemma_split(fs, w, texts, ts);
                let l: Seq<char> = match v.last() { Part::Lit(t) => t, Part::Open => seq!['{'], _ => seq!['}'] };
                assert(p == text(l)); assert(s == more(r, l));
                lemma_render_chars(q.t, l, ts);
                let t = q.t + chars(l);
                assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) is Ch || exists|n: usize| seq![t[i]] == #[trigger] group(n, ".*?"@) by { if i < q.t.len() { assert(t[i] == q.t[i]); } }
                let m = r.vars.map_values(texts);
                if r.vars.len() == 0 {
                    assert(s.first + shown(s.lits, ts) =~= (r.first + shown(r.lits, ts)) + l);
                    assert(s.first + shown(s.lits, m) =~= (r.first + shown(r.lits, m)) + l);
                } else {
                    lemma_shown_more(r.lits, ts, l); lemma_shown_more(r.lits, m, l);
                    assert(s.first + shown(s.lits, ts) =~= (r.first + shown(r.lits, ts)) + l);
                    assert(s.first + shown(s.lits, m) =~= (r.first + shown(r.lits, m)) + l);
                }
            }
        }
    }
}
// parsing what was shown gives every placeholder its own text back
proof fn lemma_text_comes_back(fs: Map<FK, FieldEntry>, v: Seq<Part>, texts: spec_fn(FK) -> Seq<char>, us: Seq<Seq<char>>)
    requires simple(fs, v), separated(split(v).lits, split(v).vars.map_values(texts)), captured_by(format_pat(fs, Base::Struct, v, None, None).t, written(v, texts), us)
    ensures us == split(v).vars.map_values(texts)
{
    let s = split(v); let ts = s.vars.map_values(texts); let t = format_pat(fs, Base::Struct, v, None, None).t; let all = written(v, texts);
    lemma_split(fs, v, texts, ts);
    lemma_split(fs, v, texts, us);
    let rest = shown(s.lits, ts);
    assert(shown(s.lits, us) =~= rest) by { assert(all.skip(s.first.len() as int) =~= rest); assert(all.skip(s.first.len() as int) =~= shown(s.lits, us)); }
    assert(captured(s.lits, rest, us)) by {
        assert forall|o: Seq<Seq<char>>| #[trigger] fits(s.lits, rest, o) implies !before(o, us) by { lemma_split(fs, v, texts, o); assert(render(t, o) == all); }
    }
    lemma_round_trip(s.lits, ts, us);
}
""", assumed=['lemma_text_comes_back: the engine captures the first fit in the order of lazy repetitions (definition of captured_by)', 'push_regex: the renaming of its captures for the error message is dropped (text_debug stands for the text); regex::Regex::captures_iter gives ordered, disjoint matches (uninterpreted); string slicing by byte positions of a match', 'try_replace_all is inlined into push_regex from its current source with the closure body in the place of the replacer (Verus has no closures that capture &mut)', 'to_hir_with_expand stands for its arguments here (its tree edits are proved in unit ast)', 'HelperAttributes::from, FieldKey::from_str_deep, field_map, ParseFormat, DisplayStyle, default_from_str_format (assumed here; the first-party ones are proved in units attrs, keys, parsefmt, style, defaults)',
     'Hir::repetition, Hir::concat, regex_syntax::Parser on the text of a group (assumed contracts: the token they stand for)', 'BTreeMap is taken as a map on the values of its keys', 'fewer than usize::MAX captures',
     'termination of the mutually recursive push_* functions is not proved'])
