"""derive(FromStr): the impls that are written."""
import re
from vx import *
from vu import fromcode
from vu.tokens import q, fill

DONE = {'build_from_str_body', 'build_from_str_regex_body', 'build_parse_variant_code', 'build_regex_fmts_args'}
PRE = fromcode.PRE.replace('pub struct Field {', 'pub struct Attribute { pub x: u8 } pub struct Field {') + fill('''
pub struct Generics { pub x: u8 }
pub struct GenericParamSet { pub x: u8 }
impl GenericParamSet { #[verifier::external_body] pub fn new(g: &Generics) -> (r: GenericParamSet) { unimplemented!() } }
pub struct DeriveInput { pub attrs: Vec<Attribute>, pub generics: Generics, pub x: u8 }
pub struct DataStruct { pub fields: Fields } pub struct Variant { pub ident: Ident, pub fields: Fields, pub attrs: Vec<Attribute> }
pub struct DataEnum { pub variants: Vec<Variant> }
pub uninterp spec fn path_of(s: Seq<char>) -> Path;
pub uninterp spec fn path_in(p: Path, s: Seq<char>) -> Path;
pub uninterp spec fn variant_path(i: Ident) -> Path;
#[verifier::external_body] pub fn vx_path(s: &str) -> (r: Path) ensures r == path_of(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_path_in(p: &Path, s: &str) -> (r: Path) ensures r == path_in(*p, s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_variant_path(i: &Ident) -> (r: Path) ensures r == variant_path(*i) { unimplemented!() }
#[verifier::external_body] pub struct Bound { x: u8 } #[verifier::external_body] pub struct WherePredicate { x: u8 } #[verifier::external_body] pub struct Bounds { x: u8 }
impl Bounds {
    #[verifier::external_body] pub fn from_data(b: Option<Vec<Bound>>) -> (r: Bounds) { unimplemented!() }
    #[verifier::external_body] pub fn child(&mut self, b: Option<Vec<Bound>>) -> (r: Bounds) { unimplemented!() }
    #[verifier::external_body] pub fn build_wheres(self, p: &Path) -> (r: Vec<WherePredicate>) { unimplemented!() }
}
pub uninterp spec fn attrs_of(a: Seq<Attribute>, from_str: bool) -> Option<HelperAttributes>;
impl HelperAttributes {
    #[verifier::external_body] pub fn from(a: &Vec<Attribute>, from_str: bool) -> (r: Result<Self>) ensures match r { Ok(h) => attrs_of(a@, from_str) == Some(h), Err(_) => attrs_of(a@, from_str) is None } { unimplemented!() }
    #[verifier::external_body] pub fn bound_from_str_resolved(&self) -> (r: Option<Vec<Bound>>) { unimplemented!() }
    // warnings do nothing
    #[verifier::external_body] pub fn deprecated_default_fields_warnings(&self) -> (r: TokenStream) ensures r.tk() == seq![Tok::Msg] { unimplemented!() }
}
#[verifier::external_body] pub fn deprecated_default_fields_warnings(p: &Path, s: &Vec<Span>) -> (r: TokenStream) ensures r.tk() == seq![Tok::Msg] { unimplemented!() }
#[verifier::external_body] pub fn vx_extend(a: &mut Vec<Span>, b: &Vec<Span>) { unimplemented!() }
#[verifier::external_body] pub fn vx_spans(a: &Vec<Span>) -> (r: Vec<Span>) { unimplemented!() }
#[verifier::external_body] pub fn dump_if(b: bool, t: &TokenStream) { unimplemented!() }
// the builder of a struct or a variant: unit builder says what it is
pub uninterp spec fn struct_builder<'a>(h: HelperAttributes, f: DataStruct) -> Option<ParserBuilder<'a>>;
pub uninterp spec fn variant_builder<'a>(h: HelperAttributes, e: HelperAttributes, v: Variant) -> Option<ParserBuilder<'a>>;
impl<'a> ParserBuilder<'a> {
    #[verifier::external_body] pub fn from_struct(h: &'a HelperAttributes, d: &'a DataStruct) -> (r: Result<Self>) ensures match r { Ok(b) => struct_builder(*h, *d) == Some(b), Err(_) => struct_builder(*h, *d) is None } { unimplemented!() }
    #[verifier::external_body] pub fn from_variant(h: &'a HelperAttributes, e: &'a HelperAttributes, v: &'a Variant) -> (r: Result<Self>) ensures match r { Ok(b) => variant_builder(*h, *e, *v) == Some(b), Err(_) => variant_builder(*h, *e, *v) is None } { unimplemented!() }
    #[verifier::external_body] pub fn build_bounds(&self, g: &GenericParamSet, b: &mut Bounds) -> (r: Result<()>) { unimplemented!() }
}
// `impl <generics> PATH for TYPE where .. { CONTENTS }`; the where clauses are the matter of unit bounds and left out here
pub uninterp spec fn impl_tk(i: DeriveInput, p: Path, c: Seq<Tok>) -> Seq<Tok>;
#[verifier::external_body] pub fn impl_trait(i: &DeriveInput, p: &Path, w: &Vec<WherePredicate>, c: TokenStream) -> (r: TokenStream) ensures r.tk() == impl_tk(*i, *p, c.tk()) { unimplemented!() }
// the feature `std`
pub uninterp spec fn std_on() -> bool;
#[verifier::external_body] pub fn vx_std() -> (r: bool) ensures r == std_on() { unimplemented!() }
pub open spec fn from_str_impl(i: DeriveInput, cp: Path, b: Seq<Tok>) -> Seq<Tok> { impl_tk(i, path_of("::core::str::FromStr"@), b) }
pub open spec fn regex_impl(i: DeriveInput, cp: Path, b: Seq<Tok>) -> Seq<Tok> { if std_on() { impl_tk(i, path_in(cp, "FromStrRegex"@), Q_REGEXFN) } else { Seq::empty() } }
pub open spec fn struct_code<'a>(i: DeriveInput, d: DataStruct) -> Option<Seq<Tok>> {
    match attrs_of(i.attrs@, true) { None => None, Some(h) => match struct_builder(h, d) { None => None, Some(b) => match body(b, path_of("Self"@)) { None => None,
        Some(c) => { let cp = h.crate_path; Some(from_str_impl(i, cp, Q_STRUCT) + regex_impl(i, cp, regex_body(b))) } } } }
}
// ---- the variants
pub struct Acc { pub arms: Seq<Seq<Tok>>, pub stmts: Seq<Seq<Tok>>, pub fmts: Seq<Option<Seq<char>>>, pub args: Seq<Seq<Tok>> }
pub open spec fn with_variant<'a>(a: Acc, b: ParserBuilder<'a>, c: VCode) -> Acc {
    Acc { arms: match c { VCode::Arm(x) => a.arms.push(x), _ => a.arms }, stmts: match c { VCode::Stmt(x) => a.stmts.push(x), _ => a.stmts },
        fmts: a.fmts.push(match b.parse_format { ParseFormat::Hirs(_) => None, ParseFormat::String(s) => Some(s@) }), args: match b.parse_format { ParseFormat::Hirs(_) => a.args.push(regex_body(b)), ParseFormat::String(_) => a.args } }
}
pub open spec fn collected<'a>(e: HelperAttributes, v: Seq<Variant>) -> Option<Acc> decreases v.len() {
    if v.len() == 0 { Some(Acc { arms: Seq::empty(), stmts: Seq::empty(), fmts: Seq::empty(), args: Seq::empty() }) } else {
        match (collected(e, v.drop_last()), attrs_of(v.last().attrs@, true)) {
            (Some(a), Some(h)) => if h.ignore.span is Some { Some(a) } else {
                match variant_builder(h, e, v.last()) { None => None, Some(b) => match variant_code(b, variant_path(v.last().ident)) { None => None, Some(c) => Some(with_variant(a, b, c)) } } },
            _ => None } }
}
pub open spec fn joined(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { joined(v.drop_last(), sep) + sep + v.last() } }
#[verifier::external_body] pub fn vx_join(v: &Vec<String>, sep: &str) -> (r: String) ensures r@ == joined(views(v@), sep@) { unimplemented!() }
pub open spec fn views(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub uninterp spec fn fmt_escaped(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn escape_fmt(s: &String) -> (r: String) ensures r@ == fmt_escaped(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_paren(s: String) -> (r: String) ensures r@ == "("@ + s@ + ")"@ { unimplemented!() }
#[verifier::external_body] pub fn vx_to_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_mapv<F: Fn(Option<String>) -> String>(v: Vec<Option<String>>, f: F) -> (r: Vec<String>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],))
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (v@[i],), #[trigger] r@[i]) { unimplemented!() }
// the regexes of the variants as alternatives
pub open spec fn plain_alts(v: Seq<Option<Seq<char>>>) -> Seq<Seq<char>> { v.map_values(|s: Option<Seq<char>>| plain_alt(s)) }
pub open spec fn plain_alt(s: Option<Seq<char>>) -> Seq<char> { escaped(s->0) }
pub open spec fn alt(s: Option<Seq<char>>) -> Seq<char> { match s { Some(s) => "("@ + fmt_escaped(escaped(s)) + ")"@, None => "{}"@ } }
pub open spec fn alts(v: Seq<Option<Seq<char>>>) -> Seq<Seq<char>> { v.map_values(|s: Option<Seq<char>>| alt(s)) }
pub open spec fn all_plain(v: Seq<Option<Seq<char>>>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Some }
pub open spec fn alternatives(a: Acc) -> Seq<Tok> {
    if a.fmts.len() == 0 { Q_NOTHING } else if a.args.len() == 0 { Q_PLAIN } else { Q_FORMAT }
}
pub open spec fn enum_code<'a>(i: DeriveInput, v: Seq<Variant>) -> Option<Seq<Tok>> {
    match attrs_of(i.attrs@, true) { None => None, Some(h) => if h.default_self is Some { None } else { match collected(h, v) { None => None,
        Some(a) => { let cp = h.crate_path; let m = if a.arms.len() == 0 { Seq::<Tok>::empty() } else { Q_ARMS };
            Some(from_str_impl(i, cp, Q_ENUM) + regex_impl(i, cp, alternatives(a))) } } } }
}
// every variant without arguments has a text
proof fn lemma_texts<'a>(e: HelperAttributes, v: Seq<Variant>) requires collected(e, v) is Some, collected(e, v)->0.args.len() == 0 ensures all_plain(collected(e, v)->0.fmts) decreases v.len()
{
    if v.len() > 0 { lemma_texts(e, v.drop_last()); }
}
''', dict(
    Q_REGEXFN=q('fn from_str_regex() -> ::std::string::String { {{b}} }'),
    Q_STRUCT=q('type Err = {{path(cp)}}::ParseError; fn from_str(__s: &str) -> ::core::result::Result<Self, {{path(cp)}}::ParseError> { {{seq![Tok::Msg]}} {{c}} }'),
    Q_NOTHING=q('::core::convert::From::from(r"[^\\s\\S]")'),
    Q_PLAIN=q('::core::convert::From::from({{str_(joined(plain_alts(a.fmts), "|"@))}})'),
    Q_FORMAT=q('::std::format!({{str_(joined(alts(a.fmts), "|"@))}}, {{reps(a.args, ","@)}})'),
    Q_ARMS=q('match __s { {{reps(a.arms, ","@)}} _ => { } }'),
    Q_ENUM=q('type Err = {{path(cp)}}::ParseError; fn from_str(__s: &str) -> ::core::result::Result<Self, {{path(cp)}}::ParseError> { {{seq![Tok::Msg]}} {{m}} {{rep("{"@, a.stmts, "}"@, ""@)}} ::core::result::Result::Err({{path(cp)}}::ParseError::new()) }')))

PATHS = [(r'parse_quote!\(#(\w+)::(\w+)\)', r'vx_path_in(\1, "\2")'), (r'parse_quote!\(Self::#(\w+)\)', r'vx_variant_path(\1)'), (r'parse_quote!\(([\w:]+)\)', r'vx_path("\1")'), (r'cfg!\(feature = "std"\)', 'vx_std()')]
ITEMS = []
for it in fromcode.ITEMS:
    if isinstance(it, Fn):
        if it.name in DONE:
            ITEMS.append(Stub(it))
    elif isinstance(it, Ty) and it.name == 'HelperAttributes':
        ITEMS.append(Ty('HelperAttributes', keep=it.keep + ['ignore', 'dump_from_str', 'deprecated_default_fields_warning_spans']))
    else:
        ITEMS.append(it)
STATE = 'collected(hattrs_enum, %s) == Some(Acc { arms: toks_of(arms@), stmts: toks_of(bodys@), fmts: opt_strs(regex_fmts@), args: toks_of(regex_args@) })'
ITEMS += [
    Fn('', 'derive_from_str_for_struct', quotes=True, subs=fromcode.BAIL + PATHS, start=fromcode.EXT,
       spec='    ensures r is Ok ==> struct_code(*input, *data) == Some(r->Ok_0.tk()),'),
    Fn('', 'derive_from_str_for_enum', quotes=True, head=fromcode.NODEC + '\n' + fromcode.ISO,
       subs=fromcode.BAIL + PATHS + [
           (r'&data\.variants', 'vx_iter(&data.variants)'),
           (r'(\w+)\s*\.extend\(\s*(\w+)\s*\.deprecated_default_fields_warning_spans\s*\.iter\(\),?\s*\)', r'vx_extend(&mut \1, &\2.deprecated_default_fields_warning_spans)'),
           (r'(\w+)\.deprecated_default_fields_warning_spans\.clone\(\)', r'vx_spans(&\1.deprecated_default_fields_warning_spans)'),
           (r'(\w+)\s*\.into_iter\(\)\s*\.map\(\|s\| escape', r'vx_mapv(\1, |s: Option<String>| -> (vx_r: String) requires s is Some, ensures vx_r@ == plain_alt(opt_str(s)), { escape'),
           (r'(\w+)\s*\.into_iter\(\)\s*\.map\(\|s\| match', r'vx_mapv(\1, |s: Option<String>| -> (vx_r: String) ensures vx_r@ == alt(opt_str(s)), { match'),
           (r'\)\s*\.collect::<Vec<_>>\(\)', '})'),
           (r'format!\("\(\{\}\)", (escape_fmt\(.*?\))\)', r'vx_paren(\1)'), (r'("\{\}")\.to_string\(\)', r'vx_to_string(\1)'), (r'(\w+)\.join\("\|"\)', r'vx_join(&\1, "|")')],
       start=fromcode.EXT + '''    let ghost vs = data.variants@;
    proof { assert(vs.take(0) =~= Seq::<Variant>::empty()); %s assert(opt_strs(Seq::empty()) =~= Seq::<Option<Seq<char>>>::empty()); }
''' % fromcode.NIL,
       loops=['''            invariant seq0.len() == vs.len(), forall|i: int| 0 <= i < seq0.len() ==> *(#[trigger] seq0[i]) == vs[i],
                it0.remaining().len() <= seq0.len(), it0.remaining() == seq0.skip(seq0.len() - it0.remaining().len()), it0.obeys_prophetic_iter_laws(), it0.will_return_none(),
                %s,''' % (STATE % 'vs.take(seq0.len() - it0.remaining().len())')],
       l_start={0: '''
            let ghost i = seq0.len() - it0.remaining().len() - 1; let ghost a1 = arms@; let ghost a2 = bodys@;
            proof {
                assert(vs.take(i + 1).drop_last() =~= vs.take(i)); assert(vs.take(i + 1).last() == vs[i]);
                %s %s
            }
''' % (fromcode.PUSH('a1'), fromcode.PUSH('a2'))},
       l_after={0: '''
        proof {
            assert(vs.take(vs.len() as int) =~= vs);
            if regex_args@.len() == 0 { lemma_texts(hattrs_enum, vs); assert(all_plain(opt_strs(regex_fmts@))); assert forall|i: int| 0 <= i < regex_fmts@.len() implies (#[trigger] regex_fmts@[i]) is Some by { assert(opt_strs(regex_fmts@)[i] is Some); } }
            assert forall|x: Seq<String>, f: Seq<Option<String>>| x.len() == f.len() && (forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i])@ == alt(opt_str(f[i]))) implies #[trigger] views(x) == #[trigger] alts(opt_strs(f)) by { assert(views(x) =~= alts(opt_strs(f))); }
            assert forall|x: Seq<String>, f: Seq<Option<String>>| x.len() == f.len() && (forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i])@ == plain_alt(opt_str(f[i]))) implies #[trigger] views(x) == #[trigger] plain_alts(opt_strs(f)) by { assert(views(x) =~= plain_alts(opt_strs(f))); }
        }
'''},
       spec='    ensures r is Ok ==> enum_code(*input, data.variants@) == Some(r->Ok_0.tk()),'),
]
UNIT = Unit('fimpl', PRE, ITEMS, assumed=fromcode.UNIT.assumed + [
    'the contracts of unit fromcode', 'ParserBuilder::{from_struct, from_variant} are functions of their arguments (unit builder says which)',
    'impl_trait (proved in unit implfn); its where clauses (unit fbounds) and warnings are left out of the tokens here',
    'FieldKey, HelperAttributes::from, Bounds (proved in units keys, attrs, bounds, fbounds)'])
