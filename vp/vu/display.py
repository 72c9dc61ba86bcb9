"""The code of derived Display: what every placeholder of a format is replaced by, over quote! kept literally."""
import re
from vx import *
from vu.common import *
from vu.format import SPLIT
from vu.tokens import TOK, q



PRE = STR_EXT + STR_X + SPLIT + '''
pub struct Error { pub x: u8 }
pub fn vx_error(s: Span) -> Error { Error { x: 0 } }
pub type Result<T, E = Error> = std::result::Result<T, E>;
#[derive(Clone, Copy)] pub struct Span { pub x: u8 }
impl Span { #[verifier::external_body] pub fn call_site() -> Span { unimplemented!() } }
#[derive(Clone, Copy)] pub struct Flag { pub span: Option<Span> }
impl Flag { pub fn value(&self) -> (r: bool) ensures r == (self.span is Some) { self.span.is_some() } }
pub struct Ident { pub x: u8 } pub struct Expr { pub x: u8 } pub struct Path { pub x: u8 } pub struct Type { pub x: u8 } pub struct LitStr { pub x: u8 }
pub struct Attribute { pub x: u8 } pub struct Field { pub ident: Option<Ident>, pub ty: Type, pub attrs: Vec<Attribute> }
#[verifier::external_body] pub struct FieldsNamed { x: u8 } #[verifier::external_body] pub struct FieldsUnnamed { x: u8 }
pub enum Fields { Named(FieldsNamed), Unnamed(FieldsUnnamed), Unit }
pub struct DataStruct { pub fields: Fields } pub struct Variant { pub ident: Ident, pub fields: Fields, pub attrs: Vec<Attribute> }
impl Variant { #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } }
impl Type { #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } }
impl Field { #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } }
pub struct GenericParamSet { pub x: u8 }
pub uninterp spec fn mentions(g: GenericParamSet, t: Type) -> bool;
impl GenericParamSet { #[verifier::external_body] pub fn contains_in_type(&self, t: &Type) -> (r: bool) ensures r == mentions(*self, *t) { unimplemented!() } }
// ---- fields by their names
pub enum FK { Named(Seq<char>), Unnamed(usize) }
pub open spec fn fk(k: FieldKey) -> FK { match k { FieldKey::Named(s) => FK::Named(s@), FieldKey::Unnamed(n) => FK::Unnamed(n) } }
pub open spec fn fks(v: Seq<FieldKey>) -> Seq<FK> { v.map_values(|k: FieldKey| fk(k)) }
// proved in unit keys
pub open spec fn unraw(s: Seq<char>) -> Seq<char> { if s.len() >= 2 && s[0] == 'r' && s[1] == '#' { s.skip(2) } else { s } }
pub open spec fn key_of(s: Seq<char>) -> FK { match usize_of(s) { Some(i) => FK::Unnamed(i), None => FK::Named(unraw(s)) } }
pub open spec fn deep(s: Seq<char>) -> Seq<FK> { if s.len() == 0 { Seq::empty() } else { pieces(s, '.').map_values(|t: Seq<char>| key_of(t)) } }
impl FieldKey {
    #[verifier::external_body] pub fn from_str_deep(s: &str) -> (r: Vec<FieldKey>) ensures fks(r@) == deep(s@), r@.len() == deep(s@).len() { unimplemented!() }
    #[verifier::external_body] pub fn binding_var(&self) -> (r: Ident) ensures r.tk() == seq![Tok::Var(fk(*self))] { unimplemented!() }
}
pub uninterp spec fn fields_of(f: Fields) -> Map<FK, Field>;
#[verifier::external_body] pub struct VxFields<'b> { x: &'b u8 }
impl<'b> VxFields<'b> {
    pub uninterp spec fn m(&self) -> Map<FK, Field>;
    #[verifier::external_body] pub fn get(&self, k: &FieldKey) -> (r: Option<&'b Field>) ensures match r { Some(f) => self.m().dom().contains(fk(*k)) && self.m()[fk(*k)] == *f, None => !self.m().dom().contains(fk(*k)) } { unimplemented!() }
}
#[verifier::external_body] pub fn field_map<'b>(f: &'b Fields) -> (r: VxFields<'b>) ensures r.m() == fields_of(*f) { unimplemented!() }
// the only field, if there is one only (the fields of a struct in order; assumed to be what `iter` gives)
pub uninterp spec fn listed(f: Fields) -> Seq<Field>;
pub uninterp spec fn ident_text(i: Ident) -> Seq<char>;
impl Fields { #[verifier::external_body] pub fn iter(&self) -> (r: VxIter<'_>) ensures r.v() == listed(*self) { unimplemented!() } }
#[verifier::external_body] pub struct VxIter<'b> { x: &'b u8 }
impl<'b> VxIter<'b> { pub uninterp spec fn v(&self) -> Seq<Field>;
    #[verifier::external_body] pub fn collect(self) -> (r: Vec<&'b Field>) ensures r@.len() == self.v().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.v()[i] { unimplemented!() } }
impl Ident {
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == ident_text(*self) { unimplemented!() }
    #[verifier::external_body] pub fn new(s: &str, sp: Span) -> (r: Ident) ensures r.tk() == t(s@) { unimplemented!() }
}
pub uninterp spec fn option_element(t: Type) -> Option<Type>;
#[verifier::external_body] pub fn get_option_element(t: &Type) -> (r: Option<&Type>) ensures match r { Some(e) => option_element(*t) == Some(*e), None => option_element(*t) is None } { unimplemented!() }
pub uninterp spec fn unref(t: Type) -> Type;
#[verifier::external_body] pub fn unref_ty(t: &Type) -> (r: Type) ensures r == unref(*t) { unimplemented!() }
pub uninterp spec fn cased(st: DisplayStyle, i: Ident) -> Seq<char>;
pub open spec fn style_for(e: HelperAttributes, v: HelperAttributes) -> DisplayStyle { if v.style is Some { v.style->0 } else if e.style is Some { e.style->0 } else { DisplayStyle::None } }
impl DisplayStyle {
    #[verifier::external_body] pub fn apply(self, i: &Ident) -> (r: String) ensures r@ == cased(self, *i) { unimplemented!() }
    #[verifier::external_body] pub fn from_helper_attributes(e: &HelperAttributes, v: &HelperAttributes) -> (r: Self) ensures r == style_for(*e, *v) { unimplemented!() }
}
// ---- attributes
pub uninterp spec fn attrs_of(a: Seq<Attribute>, from_str: bool) -> Option<HelperAttributes>;
impl HelperAttributes {
    #[verifier::external_body] pub fn from(a: &Vec<Attribute>, from_str: bool) -> (r: Result<Self>) ensures match r { Ok(h) => attrs_of(a@, from_str) == Some(h), Err(_) => attrs_of(a@, from_str) is None } { unimplemented!() }
}
#[verifier::external_body] pub struct Bound { x: u8 }
''' + TOK + '''impl VxTok for FormatArgs { open spec fn tk(&self) -> Seq<Tok> { fa_toks(self.format_str@, toks_of(self.format_args@)) } }
// ---- bounds
pub uninterp spec fn trait_pred(ty: Type, trait_name: Seq<char>) -> WherePredicate;
#[verifier::external_body] pub struct WherePredicate { x: u8 }
#[verifier::external_body] pub struct BoundsChild { x: u8 }
impl BoundsChild { pub uninterp spec fn own(&self) -> Option<Vec<Bound>>; }
pub fn vx_pred(ty: &Type, tr: &Ident) -> (r: WherePredicate) ensures r == pred_of(*ty, tr.tk()) { vx_pred0(ty, tr) }
pub uninterp spec fn pred_of(ty: Type, tr: Seq<Tok>) -> WherePredicate;
#[verifier::external_body] pub fn vx_pred0(ty: &Type, tr: &Ident) -> (r: WherePredicate) ensures r == pred_of(*ty, tr.tk()) { unimplemented!() }
// an identifier read from a text that is one
#[verifier::external_body] pub fn vx_ident(s: &str) -> (r: Ident) ensures r.tk() == t(s@) { unimplemented!() }
// what goes to a child is decided in unit bounds
impl Bounds { #[verifier::external_body] pub fn child(&mut self, b: Option<Vec<Bound>>) -> (r: Bounds) { unimplemented!() } }
// ---- formats (parsing: units format and spec)
pub open spec fn part(p: DisplayFormatPart) -> Part {
    match p { DisplayFormatPart::Str(t) => Part::Lit(t@), DisplayFormatPart::EscapedBeginBracket => Part::Open, DisplayFormatPart::EscapedEndBracket => Part::Close, DisplayFormatPart::Var { arg, format_spec } => Part::Var(arg@, format_spec@) }
}
pub open spec fn parts_of(v: Seq<DisplayFormatPart>) -> Seq<Part> { v.map_values(|p: DisplayFormatPart| part(p)) }
pub open spec fn fparts(f: Option<DisplayFormat>) -> Option<Seq<Part>> { match f { Some(f) => Some(parts_of(f.parts@)), None => None } }
proof fn lemma_empty_var() ensures split("{}"@) == Some(seq![Part::Var(Seq::empty(), Seq::empty())])
{
    reveal_strlit("{}");
    let s = "{}"@;
    assert(s =~= seq!['{', '}']);
    let u = s.skip(1);
    assert(u =~= seq!['}']);
    assert(path_len(u) == 0 && run_len(s) == 0);
    assert(u.take(0) =~= Seq::<char>::empty());
    assert(placeholder(s) == Some(Ph { path: Seq::<char>::empty(), spec: None, n: 2 }));
    assert(s.skip(2) =~= Seq::<char>::empty());
    assert(split(s.skip(2)) == Some(Seq::<Part>::empty()));
    assert(seq![Part::Var(Seq::empty(), Seq::empty())] + Seq::<Part>::empty() =~= seq![Part::Var(Seq::empty(), Seq::empty())]);
}
impl DisplayFormat {
    #[verifier::external_body] pub fn parse(s: &str, span: Span) -> (r: Result<DisplayFormat>) ensures match r { Ok(f) => split(s@) == Some(parts_of(f.parts@)), Err(_) => split(s@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn try_unescape(&self) -> (r: Option<String>) ensures match r { Some(s) => unesc(parts_of(self.parts@)) == Some(s@), None => unesc(parts_of(self.parts@)) is None } { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub uninterp spec fn spec_type(s: Seq<char>) -> Option<FormatType>;
pub uninterp spec fn trait_of(f: FormatType) -> Seq<char>;
#[verifier::external_body] pub struct FormatParseError { x: u8 }
impl FormatType { #[verifier::external_body] pub fn trait_name(&self) -> (r: &str) ensures r@ == trait_of(*self) { unimplemented!() } }
impl<'b> FormatSpec<'b> { #[verifier::external_body] pub fn parse_with_span(s: &'b str, span: Span) -> (r: Result<FormatSpec<'b>>) ensures match r { Ok(f) => spec_type(s@) == Some(f.format_type), Err(_) => spec_type(s@) is None } { unimplemented!() } }
// ---- what a placeholder is replaced by
pub ghost enum B { Struct(Fields), Variant(Fields, Seq<char>), Field(Box<B>, Field, FK), Some_(FK, Type) }
pub open spec fn bv(vb: VarBase) -> B decreases vb {
    match vb { VarBase::Struct { data } => B::Struct(data.fields), VarBase::Variant { variant, style } => B::Variant(variant.fields, cased(style, variant.ident)),
        VarBase::Field { parent, field, key } => B::Field(Box::new(bv(*parent)), *field, fk(*key)), VarBase::FieldSome { key, ty } => B::Some_(fk(*key), *ty) }
}
pub open spec fn top(b: B) -> bool { b is Struct || b is Variant }
pub open spec fn top_fields(b: B) -> Fields { match b { B::Struct(f) => f, B::Variant(f, _) => f, _ => arbitrary() } }
// the place a field is read from
pub open spec fn place(b: B, k: FK) -> Seq<Tok> decreases b {
    match b { B::Struct(_) => Q_SELF, B::Variant(..) => Q_VAR, B::Field(p, _, pk) => Q_SUB, B::Some_(bk, _) => Q_SOME }
}
pub open spec fn dots(e: Seq<Tok>, ks: Seq<FK>) -> Seq<Tok> decreases ks.len() { if ks.len() == 0 { e } else { dots(e, ks.drop_last()) + Q_DOT } }
pub open spec fn wrapped(e: Seq<Tok>, ty: Type, ft: FormatType, with: Option<Expr>, cp: Path) -> Option<Seq<Tok>> {
    match with { None => Some(e), Some(w) => if !(ft is Display) { None } else { Some(Q_WITH) } }
}
pub open spec fn optional(e: Seq<Tok>, inner: Type, k: FK, out: Seq<Tok>, cp: Path) -> Seq<Tok> { Q_OPT }
pub open spec fn fa_toks(s: Seq<char>, a: Seq<Seq<Tok>>) -> Seq<Tok> { seq![Tok::Str(s)] + rep(","@, a, ""@, ""@) }
pub open spec fn arg_of(b: B, a: Seq<char>, ft: FormatType, with: Option<Expr>, cp: Path) -> Option<Seq<Tok>> decreases (if top(b) { 1int } else { 0int }), 1int, 0int {
    let ks = deep(a);
    if ks.len() == 0 {
        match b {
            B::Struct(_) => if !(ft is Display) { Some(t("self"@)) } else { None },
            B::Variant(_, name) => if !(ft is Display) { Some(t("self"@)) } else { Some(seq![Tok::Str(name)]) },
            B::Field(p, f, k) => wrapped(place(*p, k), f.ty, ft, with, cp),
            B::Some_(k, ty) => wrapped(t("*"@) + seq![Tok::Var(k)], ty, ft, with, cp),
        }
    } else if ks.len() == 1 && top(b) {
        if fields_of(top_fields(b)).dom().contains(ks[0]) { of_field(b, ks[0], fields_of(top_fields(b))[ks[0]], ft, cp) } else { None }
    } else { Some(dots(place(b, ks[0]), ks.skip(1))) }
}
pub open spec fn of_field(b: B, k: FK, f: Field, ft: FormatType, cp: Path) -> Option<Seq<Tok>> decreases (if top(b) { 1int } else { 0int }), 0int, 0int {
    match attrs_of(f.attrs@, false) { None => None, Some(h) =>
        if !top(b) { None }
        else if h.opt.span is Some {
            match option_element(f.ty) { None => None, Some(inner) => match from_some(B::Some_(k, inner), fparts(h.format), ft, h.with, cp) { None => None, Some(out) => Some(optional(place(b, k), inner, k, out, cp)) } }
        } else { from_some(B::Field(Box::new(b), f, k), fparts(h.format), ft, h.with, cp) } }
}
pub open spec fn from_some(b: B, f: Option<Seq<Part>>, ft: FormatType, with: Option<Expr>, cp: Path) -> Option<Seq<Tok>> decreases (if top(b) { 1int } else { 0int }), 3int, 0int {
    match f { None => arg_of(b, Seq::empty(), ft, with, cp),
        Some(v) => match args(b, v, with, cp) { None => None, Some((s, a)) => Some(Q_FA) } }
}
// the format string and the arguments of a whole format: one argument for every placeholder, in order, everything else verbatim
pub open spec fn args(b: B, v: Seq<Part>, with: Option<Expr>, cp: Path) -> Option<(Seq<char>, Seq<Seq<Tok>>)> decreases (if top(b) { 1int } else { 0int }), 2int, v.len() {
    if v.len() == 0 { Some((Seq::empty(), Seq::empty())) } else {
        match args(b, v.drop_last(), with, cp) { None => None, Some((s, a)) => match v.last() {
            Part::Lit(x) => Some((s + x, a)), Part::Open => Some((s + seq!['{', '{'], a)), Part::Close => Some((s + seq!['}', '}'], a)),
            Part::Var(x, f) => match spec_type(f) { None => None, Some(ft) => match arg_of(b, x, ft, with, cp) { None => None, Some(e) => Some((s + hole(f), a.push(if ft is Pointer { Q_PTR } else { t("&"@) + e }))) } } } }
    }
}
pub open spec fn hole(f: Seq<char>) -> Seq<char> { if f.len() == 0 { seq!['{', '}'] } else { seq!['{', ':'] + f + seq!['}'] } }
proof fn lemma_bad(b: B, v: Seq<Part>, n: int, with: Option<Expr>, cp: Path) requires 0 <= n <= v.len(), args(b, v.take(n), with, cp) is None ensures args(b, v, with, cp) is None decreases v.len() - n
{
    if n < v.len() { assert(v.take(n + 1).drop_last() =~= v.take(n)); lemma_bad(b, v, n + 1, with, cp); } else { assert(v.take(n) =~= v); }
}
// ---- a format without placeholders: its text is written as it is
pub open spec fn prep(c: char, r: Option<Seq<char>>) -> Option<Seq<char>> { match r { Some(x) => Some(seq![c] + x), None => None } }
pub open spec fn ut(s: Seq<char>) -> Option<Seq<char>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) } else if dbl(s, '{') { prep('{', ut(s.skip(2))) } else if dbl(s, '}') { prep('}', ut(s.skip(2))) }
    else if brace(s[0]) { None } else { prep(s[0], ut(s.skip(1))) }
}
proof fn lemma_ut_cat(a: Seq<char>, b: Seq<char>) requires ut(a) is Some, ut(b) is Some ensures ut(a + b) == Some(ut(a)->0 + ut(b)->0) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(ut(a)->0 + ut(b)->0 =~= ut(b)->0); }
    else {
        let n = if dbl(a, '{') || dbl(a, '}') { 2int } else { 1int };
        assert(dbl(a + b, '{') == dbl(a, '{') && dbl(a + b, '}') == dbl(a, '}'));
        assert((a + b).skip(n) =~= a.skip(n) + b);
        lemma_ut_cat(a.skip(n), b);
        assert(seq![a[0]] + (ut(a.skip(n))->0 + ut(b)->0) =~= (seq![a[0]] + ut(a.skip(n))->0) + ut(b)->0);
    }
}
proof fn lemma_ut_run(s: Seq<char>) requires run_len(s) > 0
    ensures ut(s) == (match ut(s.skip(run_len(s))) { Some(x) => Some(s.take(run_len(s)) + x), None => None }) decreases s.len()
{
    let u = s.skip(1);
    lemma_len(s); lemma_len(u);
    assert(s.skip(run_len(s)) =~= u.skip(run_len(u)));
    if run_len(u) > 0 { lemma_ut_run(u); if let Some(x) = ut(u.skip(run_len(u))) { assert(seq![s[0]] + (u.take(run_len(u)) + x) =~= s.take(run_len(s)) + x); } }
    else { assert(u.skip(0) =~= u); if let Some(x) = ut(u) { assert(seq![s[0]] + x =~= s.take(1) + x); } }
}
proof fn lemma_unesc_front(p: Part, v: Seq<Part>)
    ensures unesc(seq![p] + v) == (match (unesc1(p), unesc(v)) { (Some(a), Some(b)) => Some(a + b), _ => None }) decreases v.len()
{
    let w = seq![p] + v;
    if v.len() == 0 {
        assert(w =~= seq![p]); assert(w.drop_last() =~= Seq::<Part>::empty()); assert(unesc(w.drop_last()) == Some(Seq::<char>::empty()));
        if let Some(a) = unesc1(p) { assert(Seq::<char>::empty() + a =~= a + Seq::<char>::empty()); }
    } else {
        assert(w.drop_last() =~= seq![p] + v.drop_last()); assert(w.last() == v.last());
        lemma_unesc_front(p, v.drop_last());
        if let (Some(a), Some(b), Some(c)) = (unesc1(p), unesc(v.drop_last()), unesc1(v.last())) { assert((a + b) + c =~= a + (b + c)); }
    }
}
proof fn lemma_ut_split(s: Seq<char>) ensures ut(s) == (match split(s) { Some(v) => unesc(v), None => None }) decreases s.len()
{
    lemma_len(s);
    if s.len() == 0 { assert(split(s) == Some(Seq::<Part>::empty())); }
    else if dbl(s, '{') { lemma_ut_split(s.skip(2)); if let Some(v) = split(s.skip(2)) { lemma_unesc_front(Part::Open, v); } }
    else if dbl(s, '}') { lemma_ut_split(s.skip(2)); if let Some(v) = split(s.skip(2)) { lemma_unesc_front(Part::Close, v); } }
    else if run_len(s) > 0 { lemma_ut_run(s); lemma_ut_split(s.skip(run_len(s))); if let Some(v) = split(s.skip(run_len(s))) { lemma_unesc_front(Part::Lit(s.take(run_len(s))), v); } }
    else {
        lemma_len(s.skip(1)); assert(brace(s[0])); assert(ut(s) is None);
        if let Some(ph) = placeholder(s) {
            lemma_ut_split(s.skip(ph.n));
            if let Some(v) = split(s.skip(ph.n)) { let p = Part::Var(ph.path, match ph.spec { Some(t) => t, None => Seq::empty() }); lemma_unesc_front(p, v); assert(split(s) == Some(seq![p] + v)); assert(unesc1(p) is None); }
        } else { assert(split(s) is None); }
    }
}
proof fn lemma_ut_text(x: Seq<char>) requires no_brace(x) ensures ut(x) == Some(x) decreases x.len()
{
    if x.len() > 0 { assert forall|i: int| 0 <= i < x.skip(1).len() implies !brace(#[trigger] x.skip(1)[i]) by { assert(x.skip(1)[i] == x[i + 1]); } lemma_ut_text(x.skip(1)); assert(!brace(x[0])); assert(seq![x[0]] + x.skip(1) =~= x); }
}
pub open spec fn no_brace(x: Seq<char>) -> bool { forall|i: int| 0 <= i < x.len() ==> !brace(#[trigger] x[i]) }
pub open spec fn literal(v: Seq<Part>) -> bool { forall|i: int| 0 <= i < v.len() ==> !((#[trigger] v[i]) is Var) && (v[i] is Lit ==> no_brace(v[i]->Lit_0)) }
proof fn lemma_literal_format(b: B, v: Seq<Part>, with: Option<Expr>, cp: Path)
    requires literal(v)
    ensures args(b, v, with, cp) is Some, (args(b, v, with, cp)->0).1 == Seq::<Seq<Tok>>::empty(), ut((args(b, v, with, cp)->0).0) == unesc(v), unesc(v) is Some
    decreases v.len()
{
    if v.len() > 0 {
        let w = v.drop_last();
        assert forall|i: int| 0 <= i < w.len() implies !((#[trigger] w[i]) is Var) && (w[i] is Lit ==> no_brace(w[i]->Lit_0)) by { assert(w[i] == v[i]); }
        lemma_literal_format(b, w, with, cp);
        let s = (args(b, w, with, cp)->0).0;
        assert(!(v.last() is Var));
        match v.last() {
            Part::Lit(x) => { lemma_ut_text(x); lemma_ut_cat(s, x); }
            Part::Open => { let o = seq!['{', '{']; assert(o.skip(2) =~= Seq::<char>::empty()); assert(ut(o.skip(2)) == Some(Seq::<char>::empty())); assert(dbl(o, '{')); assert(seq!['{'] + Seq::<char>::empty() =~= seq!['{']); lemma_ut_cat(s, o); }
            Part::Close => { let o = seq!['}', '}']; assert(o.skip(2) =~= Seq::<char>::empty()); assert(ut(o.skip(2)) == Some(Seq::<char>::empty())); assert(dbl(o, '}')); assert(seq!['}'] + Seq::<char>::empty() =~= seq!['}']); lemma_ut_cat(s, o); }
            _ => {}
        }
    }
}
proof fn theorem_literal(b: B, v: Seq<Part>, with: Option<Expr>, cp: Path, f: Seq<Tok>)
    requires literal(v)
    ensures ({ let (s, a) = args(b, v, with, cp)->0; let x = unesc(v)->0; args(b, v, with, cp) is Some && written(f, s, a) == Some(Q_WRITESTR) })
{
    lemma_literal_format(b, v, with, cp);
    lemma_ut_split((args(b, v, with, cp)->0).0);
}
// the statement written for a format
pub open spec fn written(f: Seq<Tok>, s: Seq<char>, a: Seq<Seq<Tok>>) -> Option<Seq<Tok>> {
    if a.len() > 0 { Some(Q_WRITE) } else { match split(s) { None => None, Some(v) => match unesc(v) { Some(x) => Some(Q_WRITESTR), None => Some(Q_WRITE) } } }
}
'''
for k, v in dict(
        Q_SELF=q('self . {{seq![Tok::Key(k)]}}'),
        Q_VAR=q('(*{{seq![Tok::Var(k)]}})'),
        Q_SUB=q('{{place(*p, pk)}} . {{seq![Tok::Key(k)]}}'),
        Q_SOME=q('{{seq![Tok::Var(bk)]}} . {{seq![Tok::Key(k)]}}'),
        Q_DOT='(%s)' % q('. {{seq![Tok::Key(ks.last())]}}'),
        Q_WITH=q('{{seq![Tok::Path(cp)]}} ::helpers::Formatted::<\'_, {{seq![Tok::Ty(unref(ty))]}}, _> { value : &{{e}}, format : {{seq![Tok::Ex(w)]}}, }'),
        Q_OPT=q('( {{seq![Tok::Path(cp)]}}::helpers::OptionFormatHelper::<{{seq![Tok::Ty(inner)]}}, _> { value: &{{e}}, f: |{{seq![Tok::Var(k)]}} : &{{seq![Tok::Ty(inner)]}}, {{t("_formatter"@)}} : &mut ::core::fmt::Formatter| { '
                '::core::fmt::Display::fmt(&{{out}}, {{t("_formatter"@)}}) }, none_value: "", } )'),
        Q_FA=q('::core::format_args!({{fa_toks(s, a)}})'),
        Q_PTR=q('{{seq![Tok::Path(cp)]}}::helpers::fmt_pointer({{(t("&"@) + e)}})'),
        Q_WRITESTR=q('{{f}}.write_str({{seq![Tok::Str(x)]}})'),
        Q_WRITE=q('::core::write!({{f}}, {{fa_toks(s, a)}})')).items():
    PRE = re.sub(r'\b%s\b' % k, lambda m: v, PRE)

BAIL = [(r'bail!\(\s*([\w.]+),\s*"(?:\\.|[^"\\])*"(?:,\s*[\w.]+)?,?\s*\);?', r'return Err(vx_error(\1));')]
EXT = '    proof { assert forall|a: Seq<Tok>| #[trigger] (Seq::<Tok>::empty() + a) == a by { assert(Seq::<Tok>::empty() + a =~= a); } }\n'
VB = "impl<'b> VarBase<'b>"
NODEC = '    #[verifier::exec_allows_no_decreases_clause]'
W = 'match *with { Some(e) => Some(e), None => None }'
SIGB = []
ITEMS = [
    Ty('FieldKey'), Ty('VarBase'), Ty('DisplayStyle', head='#[derive(Clone, Copy)]'), Ty('DisplayFormat', keep=['parts', 'span']), Ty('DisplayFormatPart'), Ty('CodeContext'), Ty('FormatArgs', keep=['format_str', 'format_args', 'span']),
    Ty('HelperAttributes', keep=['format', 'with', 'opt', 'style', 'bound_display', 'crate_path']), Ty('Bounds', keep=['pred', 'can_extend']),
    Ty('FormatType', head='#[derive(PartialEq, Eq, Structural, Clone, Copy)]'), Ty('FormatSpec', keep=['format_type'], subs=[(r"<'a>", "<'a>"), (r'pub format_type: FormatType', "pub format_type: FormatType, pub vx: &'a u8")]),
    Fn('', 'get_newtype_field', subs=[(r'let fields: Vec<_> =', 'let fields =')],
       start='    proof { reveal_strlit("0"); assert("0"@ =~= seq![\'0\']); }\n',
       rename='get_newtype_field',
       spec="    ensures opt_view(r) == newtype(data.fields),"),
    Fn('DisplayFormat', 'from_newtype_struct', subs=[(r'vec!\[(\w+)\]', r'vx_vec1(\1)')], tail='''
        proof { if vx_r is Some { assert(parts_of(vx_r->0.parts@) =~= seq![Part::Var(newtype(data.fields)->0, Seq::empty())]); } }
''', spec="    ensures fparts(r) == (match newtype(data.fields) { Some(s) => Some(seq![Part::Var(s, Seq::empty())]), None => None }),"),
    Fn('DisplayFormat', 'from_unit_variant', start='    proof { lemma_empty_var(); }\n',
       spec="    ensures r is Ok, fparts(r->Ok_0) == (if variant.fields is Unit { Some(seq![Part::Var(Seq::empty(), Seq::empty())]) } else { None }),"),
    Fn('VarBase', 'fields', emit_owner=VB, spec="    ensures match r { Some(f) => top(bv(*self)) && *f == top_fields(bv(*self)), None => !top(bv(*self)) },"),
    Fn('VarBase', 'field_expr', emit_owner=VB, head=NODEC, quotes=True, start=EXT, spec="    ensures r.tk() == place(bv(*self), fk(*key)),"),
    Fn('', 'format_arg', quotes=True, subs=BAIL + [(r'parse_str\((\w+)\)\.unwrap\(\)', r'vx_ident(\1)'), (r'parse_quote!\(#ty : ::core::fmt::#tr\)', r'vx_pred(ty, &tr)')], start=EXT,
       spec="""    ensures match r { Ok(e) => wrapped(expr.tk(), *ty, format_spec.format_type, *with, *cx.crate_path) == Some(e.tk()), Err(_) => wrapped(expr.tk(), *ty, format_spec.format_type, *with, *cx.crate_path) is None },
        final(bounds).can_extend == old(bounds).can_extend,
        final(bounds).pred@ == (if *with is None && mentions(*cx.generics, *ty) && old(bounds).can_extend { old(bounds).pred@.push(pred_of(*ty, t(trait_of(format_spec.format_type)))) } else { old(bounds).pred@ }),"""),
    Fn('VarBase', 'format_arg', emit_owner=VB, head=NODEC + '\n    #[verifier::loop_isolation(false)]', quotes=True, subs=BAIL + [(r'for key in it0: &(\w+)\[1\.\.\]', r'for key in it0: vx_tail(&\1)'), (r'in it0: &keys\[1\.\.\]', 'in it0: vx_tail(&keys)')],
       start=EXT + '    let ghost ks = deep(arg@);\n    proof { assert(fks(Seq::<FieldKey>::empty()) =~= Seq::<FK>::empty()); }\n',
       loops=["""            invariant it0.seq().len() == keys@.len() - 1, forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == keys@[i + 1], 0 <= it0.index() <= it0.seq().len(),
                expr.tk() == dots(place(bv(*self), ks[0]), ks.skip(1).take(it0.index() as int)),"""],
       l_start={0: '\n            proof { let i = it0.index() as int; assert(ks.skip(1).take(i + 1).drop_last() =~= ks.skip(1).take(i)); assert(ks.skip(1).take(i + 1).last() == ks[i + 1]); assert(ks[i + 1] == fk(keys@[i + 1])); }\n'},
       l_after={0: '\n        proof { assert(ks.skip(1).take(ks.skip(1).len() as int) =~= ks.skip(1)); }\n'},
       spec="""    ensures match r { Ok(e) => arg_of(bv(*self), arg@, format_spec.format_type, *with, *cx.crate_path) == Some(e.tk()), Err(_) => arg_of(bv(*self), arg@, format_spec.format_type, *with, *cx.crate_path) is None },""",
       sig=[(r'arg: &str', 'arg: &str')]),
    Fn('VarBase', 'format_arg_of_field', emit_owner=VB, head=NODEC, quotes=True, subs=BAIL, start=EXT,
       spec="""    requires top(bv(*self)),
    ensures match r { Ok(e) => of_field(bv(*self), fk(*key), *field, format_spec.format_type, *cx.crate_path) == Some(e.tk()), Err(_) => of_field(bv(*self), fk(*key), *field, format_spec.format_type, *cx.crate_path) is None },"""),
    Fn('VarBase', 'format_arg_from_some_format', emit_owner=VB, head=NODEC, quotes=True, start=EXT + '    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }\n',
       spec="""    ensures match r { Ok(e) => from_some(bv(*self), fparts(format), format_spec.format_type, *with, *cx.crate_path) == Some(e.tk()), Err(_) => from_some(bv(*self), fparts(format), format_spec.format_type, *with, *cx.crate_path) is None },"""),
    Fn('DisplayFormat', 'format_args', head=NODEC + '\n    #[verifier::loop_isolation(false)]', quotes=True, subs=[(r'use DisplayFormatPart::\*;', ''), (r'\b(Str|EscapedBeginBracket|EscapedEndBracket|Var)\b(?=\(s\) =>| =>| \{ arg)', r'DisplayFormatPart::\1'), (r'in it0: &([\w.]+)', r'in it0: vx_iter(&\1)'), (r'format_spec\.is_empty\(\)', 'vx_is_empty(format_spec)') ],
       start=EXT + '''    let ghost v = parts_of(self.parts@); let ghost b = bv(*vb);
    proof { reveal_strlit("{{"); reveal_strlit("}}"); assert("{{"@ =~= seq!['{', '{']); assert("}}"@ =~= seq!['}', '}']); assert(v.take(0) =~= Seq::<Part>::empty()); }
''',
       loops=["""            invariant it0.seq().len() == self.parts@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.parts@[i], 0 <= it0.index() <= it0.seq().len(),
                args(b, v.take(it0.index() as int), *with, *cx.crate_path) == Some((format_str@, toks_of(format_args@))),"""],
       l_start={0: '''
            let ghost i = it0.index() as int; let ghost s1 = format_str@; let ghost a1 = format_args@;
            proof {
                assert(v.take(i + 1).drop_last() =~= v.take(i)); assert(v.take(i + 1).last() == v[i]); assert(v[i] == part(*p));
                if args(b, v.take(i + 1), *with, *cx.crate_path) is None { lemma_bad(b, v, i + 1, *with, *cx.crate_path); }
                assert forall|x: TokenStream| #[trigger] toks_of(a1.push(x)) == toks_of(a1).push(x.tk()) by { assert(toks_of(a1.push(x)) =~= toks_of(a1).push(x.tk())); }
            }
'''},
       l_end={0: '''
            proof {
                if let Part::Var(x, f) = v[i] {
                    assert(s1.push('{').push('}') =~= s1 + hole(f) || f.len() > 0);
                    assert(s1.push('{').push(':') + f =~= s1 + seq!['{', ':'] + f);
                    assert(f.len() > 0 ==> (s1.push('{').push(':') + f).push('}') =~= s1 + hole(f));
                }
            }
'''},
       l_after={0: '\n        proof { assert(v.take(v.len() as int) =~= v); }\n'},
       spec="""    ensures match r { Ok(x) => args(bv(*vb), parts_of(self.parts@), *with, *cx.crate_path) == Some((x.format_str@, toks_of(x.format_args@))), Err(_) => args(bv(*vb), parts_of(self.parts@), *with, *cx.crate_path) is None },"""),
    Fn('FormatArgs', 'build_write', quotes=True, start=EXT + '    proof { assert(toks_of(self.format_args@).len() == self.format_args@.len()); }\n',
       spec="""    ensures match r { Ok(e) => written(f.tk(), self.format_str@, toks_of(self.format_args@)) == Some(e.tk()), Err(_) => written(f.tk(), self.format_str@, toks_of(self.format_args@)) is None },"""),
    Fn('ToTokens for FormatArgs', 'to_tokens', emit_owner='impl FormatArgs', quotes=True, start=EXT,
       spec="    ensures final(tokens).tk() == old(tokens).tk() + fa_toks(self.format_str@, toks_of(self.format_args@)),"),
]
PRE += '''
pub open spec fn opt_view(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
pub open spec fn newtype(f: Fields) -> Option<Seq<char>> {
    if listed(f).len() != 1 { None } else { match listed(f)[0].ident { Some(i) => Some(ident_text(i)), None => Some(seq!['0']) } }
}
#[verifier::external_body] pub fn vx_is_empty(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] pub fn vx_into(s: &str) -> (r: String) ensures r@ == s@ { s.into() }
pub fn vx_vec1(x: DisplayFormatPart) -> (r: Vec<DisplayFormatPart>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); v }
#[verifier::external_body] pub fn vx_iter<'c, T>(v: &'c Vec<T>) -> (r: std::vec::IntoIter<&'c T>)
    ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.remaining().len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r.remaining()[i]) == v@[i] { unimplemented!() }
#[verifier::external_body] pub fn vx_tail<'c>(v: &'c Vec<FieldKey>) -> (r: std::vec::IntoIter<&'c FieldKey>)
    requires v@.len() > 0
    ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.remaining().len() == v@.len() - 1, forall|i: int| 0 <= i < v@.len() - 1 ==> *(#[trigger] r.remaining()[i]) == v@[i + 1] { unimplemented!() }
'''
RENAME = [(r'("\w*")\.(into|to_string|to_owned)\(\)', r'vx_into(\1)')]
UNIT = Unit('display', PRE, ITEMS, rename=RENAME, assumed=[
    'quote! writes the tokens it is given (rewritten into appends of the same literal tokens and interpolated values)',
    'FieldKey::{from_str_deep, binding_var}, field_map, get_option_element, unref_ty, HelperAttributes::from, DisplayStyle::apply, DisplayFormat::{parse, try_unescape}, '
    'FormatSpec::parse, FormatType::trait_name, GenericParamSet::contains_in_type (assumed here, proved in units keys, types, attrs, style, format, spec); Fields::iter (assumed)',
    'set_location changes spans only', 'what Bounds::child does to the parent is left open here (unit bounds)'])
