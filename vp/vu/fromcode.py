"""The code of derived FromStr: what is written for the fields of a built pattern."""
from vx import *
from vu.common import *
from vu.tokens import TOK, q, fill

PRE = STR_EXT + '''
pub struct Error { pub x: u8 }
pub fn vx_error(s: Span) -> Error { Error { x: 0 } }
pub type Result<T, E = Error> = std::result::Result<T, E>;
#[derive(Clone, Copy)] pub struct Span { pub x: u8 }
#[derive(Clone, Copy)] pub struct Flag { pub span: Option<Span> }
impl Flag { pub fn value(&self) -> (r: bool) ensures r == (self.span is Some) { self.span.is_some() } }
pub struct Ident { pub x: u8 } pub struct Expr { pub x: u8 } pub struct LitStr { pub x: u8 } pub struct Path { pub x: u8 } pub struct Type { pub x: u8 }
impl Expr { #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } }
pub struct Field { pub ty: Type, pub x: u8 } pub struct FieldsNamed { pub x: u8 } pub struct FieldsUnnamed { pub x: u8 } pub enum Fields { Named(FieldsNamed), Unnamed(FieldsUnnamed), Unit }
#[verifier::external_body] pub struct DisplayFormat { x: u8 }
pub uninterp spec fn option_element(t: Type) -> Option<Type>;
#[verifier::external_body] pub fn get_option_element(t: &Type) -> (r: Option<&Type>) ensures match r { Some(e) => option_element(*t) == Some(*e), None => option_element(*t) is None } { unimplemented!() }
pub enum FK { Named(Seq<char>), Unnamed(usize) }
pub open spec fn fk(k: FieldKey) -> FK { match k { FieldKey::Named(s) => FK::Named(s@), FieldKey::Unnamed(n) => FK::Unnamed(n) } }
impl FieldKey {
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] pub fn new_arg_var(&self) -> (r: Ident) ensures r.tk() == seq![Tok::Arg(fk(*self))] { unimplemented!() }
}
// ---- the two BTreeMaps, as what is iterated over
#[verifier::external_body] pub struct DeepMap { x: u8 }
impl DeepMap { pub uninterp spec fn v(&self) -> Seq<(Vec<FieldKey>, usize)>;
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.v().len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn vx_iter<'c>(&'c self) -> (r: std::vec::IntoIter<(&'c Vec<FieldKey>, &'c usize)>)
        ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.remaining().len() == self.v().len(), forall|i: int| 0 <= i < self.v().len() ==> *(#[trigger] r.remaining()[i]).0 == self.v()[i].0 && *r.remaining()[i].1 == self.v()[i].1 { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct FieldMap<V> { x: Vec<V> }
impl<V> FieldMap<V> { pub uninterp spec fn v(&self) -> Seq<(FieldKey, V)>;
    #[verifier::external_body] pub fn vx_iter<'c>(&'c self) -> (r: std::vec::IntoIter<(&'c FieldKey, &'c V)>)
        ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.remaining().len() == self.v().len(), forall|i: int| 0 <= i < self.v().len() ==> *(#[trigger] r.remaining()[i]).0 == self.v()[i].0 && *r.remaining()[i].1 == self.v()[i].1 { unimplemented!() } }
// ---- the numbers of the groups
pub uninterp spec fn dec(n: usize) -> Seq<char>;
#[verifier::external_body] pub fn vx_fmt1(pre: &str, n: usize) -> (r: String) ensures r@ == pre@ + dec(n) { unimplemented!() }
pub open spec fn name_of(n: usize) -> Seq<char> { "value_"@ + dec(n) }
#[verifier::external_body] pub struct NameMap { x: u8 }
impl NameMap {
    pub uninterp spec fn m(&self) -> Map<Seq<char>, usize>;
    #[verifier::external_body] pub fn new() -> (r: NameMap) ensures r.m() == Map::<Seq<char>, usize>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: &str, v: usize) ensures final(self).m() == old(self).m().insert(k@, v) { unimplemented!() }
    // `names[..]`; the panic for a name that is not there is not modelled
    #[verifier::external_body] pub fn vx_index(&self, k: &String) -> (r: usize) ensures r == self.m()[k@] { unimplemented!() }
}
// ---- the regular expression of a pattern
#[verifier::external_body] pub struct Hir { x: u8 }
pub enum ParseFormat { Hirs(Vec<Hir>), String(String) }
pub uninterp spec fn regex_of(v: Seq<Hir>) -> Seq<char>;
pub uninterp spec fn groups(re: Seq<char>) -> Seq<Option<Seq<char>>>;
pub uninterp spec fn enclosed(v: Seq<Hir>) -> Seq<Hir>;
#[verifier::external_body] pub fn to_regex_string(v: &Vec<Hir>) -> (r: String) ensures r@ == regex_of(v@) { unimplemented!() }
#[verifier::external_body] pub fn hirs_with_start_end(v: &Vec<Hir>) -> (r: Vec<Hir>) ensures r@ == enclosed(v@) { unimplemented!() }
pub uninterp spec fn escaped(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn escape(s: &String) -> (r: String) ensures r@ == escaped(s@) { unimplemented!() }
#[verifier::external_body] pub struct Regex { x: u8 }
#[verifier::external_body] pub struct CapNames { x: u8 }
impl Regex {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn vx_new(s: &String) -> (r: Regex) ensures r.text() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn capture_names(&self) -> (r: CapNames) ensures r.v() == groups(self.text()) { unimplemented!() }
}
impl CapNames { pub uninterp spec fn v(&self) -> Seq<Option<Seq<char>>>;
    #[verifier::external_body] pub fn enumerate<'c>(self) -> (r: std::vec::IntoIter<(usize, Option<&'c str>)>)
        ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.remaining().len() == self.v().len(),
            forall|i: int| 0 <= i < self.v().len() ==> (#[trigger] r.remaining()[i]).0 == i && (match r.remaining()[i].1 { Some(s) => self.v()[i] == Some(s@), None => self.v()[i] is None }) { unimplemented!() } }
pub open spec fn names_of(g: Seq<Option<Seq<char>>>) -> Map<Seq<char>, usize> decreases g.len() {
    if g.len() == 0 { Map::empty() } else { let m = names_of(g.drop_last()); match g.last() { Some(s) => m.insert(s, (g.len() - 1) as usize), None => m } }
}
pub open spec fn glist(f: ParseFormat) -> Seq<Option<Seq<char>>> { match f { ParseFormat::Hirs(v) => groups(regex_of(v@)), ParseFormat::String(_) => Seq::empty() } }
pub open spec fn numbers(f: ParseFormat) -> Map<Seq<char>, usize> { names_of(glist(f)) }
#[verifier::external_body] pub fn vx_iter<'c, T>(v: &'c Vec<T>) -> (r: std::vec::IntoIter<&'c T>)
    ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.remaining().len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r.remaining()[i]) == v@[i] { unimplemented!() }
#[verifier::external_body] pub fn vx_enum<'c, T>(v: &'c Vec<T>) -> (r: std::vec::IntoIter<(usize, &'c T)>)
    ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.remaining().len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] r.remaining()[i]).0 == i && *r.remaining()[i].1 == v@[i] { unimplemented!() }
#[verifier::external_body] pub fn vx_msg() -> (r: VxMsg) { unimplemented!() }
''' + TOK + '''
impl VxList for Vec<FieldKey> { open spec fn list(&self) -> Seq<Seq<Tok>> { keys(self@) } }
pub open spec fn keys(v: Seq<FieldKey>) -> Seq<Seq<Tok>> { v.map_values(|k: FieldKey| seq![Tok::Key(fk(k))]) }
// ---- what is written for a field
pub open spec fn value_type(f: FieldEntry) -> Type { if f.hattrs.opt.span is Some && option_element(f.source.ty) is Some { option_element(f.source.ty)->0 } else { f.source.ty } }
// the text of a group; empty when the group took no part
pub open spec fn group(i: usize) -> Seq<Tok> { Q_GROUP }
pub open spec fn parsed(s: Seq<Tok>, f: FieldEntry, cp: Path) -> Seq<Tok> {
    match f.hattrs.with { Some(w) => Q_WITH, None => Q_PARSE }
}
pub open spec fn taken(i: usize, f: Option<FieldEntry>, cp: Path) -> Seq<Tok> {
    match f { Some(f) => if f.hattrs.opt.span is Some { Q_OPT } else { parsed(group(i), f, cp) }, None => Q_DEEP }
}
// .. or the whole fails
pub open spec fn capture(i: usize, f: Option<FieldEntry>, cp: Path) -> Seq<Tok> { Q_CAPTURE }
pub open spec fn at(names: Map<Seq<char>, usize>, n: usize) -> usize { names[name_of(n)] }
pub open spec fn value_of(f: FieldEntry, names: Map<Seq<char>, usize>) -> Option<Seq<Tok>> {
    match f.capture { Some(n) => Some(capture(at(names, n), Some(f), *f.crate_path)), None => if f.use_default { Some(t(":: core :: default :: Default :: default ( )"@)) } else { None } }
}
pub open spec fn deep_set(d: (Vec<FieldKey>, usize), names: Map<Seq<char>, usize>, left: Seq<Tok>, cp: Path) -> Seq<Tok> { Q_DEEPSET }
pub open spec fn deep_sets(v: Seq<(Vec<FieldKey>, usize)>, names: Map<Seq<char>, usize>, left: Seq<Tok>, cp: Path) -> Seq<Seq<Tok>> { v.map_values(|d: (Vec<FieldKey>, usize)| deep_set(d, names, left, cp)) }
pub open spec fn sets(f: FieldEntry, names: Map<Seq<char>, usize>, left: Seq<Tok>, own: bool) -> Seq<Seq<Tok>> {
    (if own && value_of(f, names) is Some { let e = value_of(f, names)->0; seq![Q_SET] } else { Seq::empty() }) + deep_sets(f.deep_captures.v(), names, left, *f.crate_path)
}
pub open spec fn setters(f: FieldEntry, names: Map<Seq<char>, usize>, left: Seq<Tok>, own: bool) -> Seq<Tok> { Seq::<Tok>::empty() + reps(sets(f, names, left, own), ""@) }
pub open spec fn init(f: FieldEntry, names: Map<Seq<char>, usize>) -> Option<Seq<Tok>> {
    match value_of(f, names) { None => None, Some(e) => if f.deep_captures.v().len() == 0 { Some(e) } else { Some(Q_DEEPINIT) } }
}
// ---- what is written for the fields together
pub open spec fn inits<'a>(v: Seq<(FieldKey, FieldEntry<'a>)>, names: Map<Seq<char>, usize>, named: bool) -> Option<Seq<Seq<Tok>>> decreases v.len() {
    if v.len() == 0 { Some(Seq::empty()) } else { match (inits(v.drop_last(), names, named), init(v.last().1, names)) {
        (Some(a), Some(e)) => Some(a.push(if named { let k = fk(v.last().0); Q_NAMED } else { e })), _ => None } }
}
proof fn lemma_bad<'a>(v: Seq<(FieldKey, FieldEntry<'a>)>, n: int, names: Map<Seq<char>, usize>, named: bool) requires 0 <= n <= v.len(), inits(v.take(n), names, named) is None ensures inits(v, names, named) is None decreases v.len() - n
{
    if n < v.len() { assert(v.take(n + 1).drop_last() =~= v.take(n)); lemma_bad(v, n + 1, names, named); } else { assert(v.take(n) =~= v); }
}
pub open spec fn args_of<'a>(v: Seq<(FieldKey, FieldEntry<'a>)>) -> Seq<Seq<Tok>> { v.map_values(|x: (FieldKey, FieldEntry<'a>)| seq![Tok::Arg(fk(x.0))]) }
pub open spec fn self_sets<'a>(v: Seq<(FieldKey, FieldEntry<'a>)>, names: Map<Seq<char>, usize>) -> Seq<Seq<Tok>> { v.map_values(|x: (FieldKey, FieldEntry<'a>)| { let k = fk(x.0); setters(x.1, names, Q_LEFT, true) }) }
pub open spec fn construct(b: ParserBuilder, ctor: Path) -> Option<Seq<Tok>> {
    let v = b.fields.v(); let names = numbers(b.parse_format); let cp = *b.crate_path;
    match b.new_expr {
        Some(n) => match inits(v, names, false) { None => None, Some(x) => Some(Q_NEW) },
        None => if b.use_default { Some(Q_DEFAULT) } else {
            match b.source {
                Fields::Named(_) => match inits(v, names, true) { None => None, Some(x) => { let ps = Q_BRACES; Some(Q_CTOR) } },
                Fields::Unnamed(_) => match inits(v, names, false) { None => None, Some(x) => { let ps = Q_PARENS; Some(Q_CTOR) } },
                Fields::Unit => { let ps = Seq::<Tok>::empty(); Some(Q_CTOR) },
            } } }
}
// ---- the parser
pub open spec fn vx_helpers(cp: Path) -> Seq<Tok> { Q_HELPERS }
pub open spec fn with_arg(w: With, cp: Path) -> Seq<Tok> { Q_WITHARG }
pub open spec fn with_args(v: Seq<With>, cp: Path) -> Seq<Seq<Tok>> { v.map_values(|w: With| with_arg(w, cp)) }
pub open spec fn guard(w: With, i: usize, cp: Path) -> Seq<Tok> { Q_GUARD }
pub open spec fn guards(v: Seq<With>, cp: Path) -> Seq<Seq<Tok>> { v.map(|i: int, w: With| guard(w, i as usize, cp)) }
pub open spec fn parser(v: Seq<Hir>, w: Seq<With>, cp: Path) -> Seq<Tok> { Q_PARSER }
// the pattern has to match all of the input; then the value is made of what the groups hold
pub open spec fn attempt(b: ParserBuilder, ctor: Path) -> Option<Seq<Tok>> {
    match construct(b, ctor) { None => None, Some(c) => { let cp = *b.crate_path; match b.parse_format {
        ParseFormat::Hirs(v) => Some(Q_MATCH), ParseFormat::String(s) => Some(Q_EQUAL) } } }
}
pub open spec fn body(b: ParserBuilder, ctor: Path) -> Option<Seq<Tok>> { match attempt(b, ctor) { None => None, Some(c) => { let cp = *b.crate_path; Some(Q_BODY) } } }
pub open spec fn regex_body(b: ParserBuilder) -> Seq<Tok> {
    match b.parse_format { ParseFormat::Hirs(v) => { let e = parser(v@, b.with@, *b.crate_path); Q_RESTR }, ParseFormat::String(s) => Q_FROM }
}
pub ghost enum VCode { Arm(Seq<Tok>), Stmt(Seq<Tok>) }
pub open spec fn vcode(c: ParseVariantCode) -> VCode { match c { ParseVariantCode::MatchArm(x) => VCode::Arm(x.tk()), ParseVariantCode::Statement(x) => VCode::Stmt(x.tk()) } }
pub open spec fn variant_code(b: ParserBuilder, ctor: Path) -> Option<VCode> {
    match b.parse_format {
        ParseFormat::Hirs(_) => match body(b, ctor) { None => None, Some(c) => { let cp = *b.crate_path; Some(VCode::Stmt(Q_TRY)) } },
        ParseFormat::String(s) => match construct(b, ctor) { None => None, Some(c) => Some(VCode::Arm(Q_ARM)) } }
}
pub open spec fn opt_str(s: Option<String>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
pub open spec fn opt_strs(v: Seq<Option<String>>) -> Seq<Option<Seq<char>>> { v.map_values(|s: Option<String>| opt_str(s)) }
#[verifier::external_body] pub fn vx_dup(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_ident(s: &str) -> (r: Ident) ensures r.tk() == t(s@) { unimplemented!() }
'''
FN = '"__parse_variant"@'
PRE = fill(PRE, dict(
    Q_GROUP=q('__c.get({{num(i)}}).map_or("", |__m| __m.as_str())'),
    Q_WITH=q('{{path(cp)}}::helpers::parse_with::<{{ty_(value_type(f))}}, _>({{ex(w)}}, {{s}})'),
    Q_PARSE=q('{{s}}.parse()'),
    Q_OPT=q('__c.get({{num(i)}}).map(|__m| __m.as_str()).map(|__s| {{parsed(OPT_S, f, cp)}}).transpose()'),
    Q_DEEP=q('__c.get({{num(i)}}).map_or("", |__m| __m.as_str()).parse()'),
    Q_CAPTURE=q('{{taken(i, f, cp)}}.map_err(|_| {{path(cp)}}::ParseError::with_message({{seq![Tok::Msg]}}))?'),
    Q_DEEPSET=q('{{left}} {{rep("."@, keys(d.0@), ""@, ""@)}} = {{capture(at(names, d.1), None, cp)}};'),
    Q_SET=q('{{left}} = {{e}};'),
    Q_DEEPINIT=q('{ let mut __field_value : {{ty_(f.source.ty)}} = {{e}}; {{setters(f, names, FV, false)}} __field_value }'),
    Q_NAMED=q('{{key_(k)}}: {{e}}'),
    Q_LEFT=q('__value . {{key_(k)}}'),
    Q_NEW=q('let ({{reps(args_of(v), ","@)}}) = ({{reps(x, ","@)}}); if let ::core::result::Result::Ok(__value) = {{path(cp)}}::IntoResult::into_result({{ex(n)}}) { return ::core::result::Result::Ok(__value); }'),
    Q_DEFAULT=q('let mut __value = <Self as ::core::default::Default>::default(); {{reps(self_sets(v, names), ""@)}} return ::core::result::Result::Ok(__value);'),
    Q_BRACES=q('{ {{reps(x, ","@)}} }'), Q_PARENS=q('( {{reps(x, ","@)}} )'),
    Q_CTOR=q('return ::core::result::Result::Ok({{path(ctor)}} {{ps}});'),
    Q_HELPERS=q('{{path(cp)}}::helpers'),
    Q_WITHARG=q('({{str_(w.capture@)}}, {{vx_helpers(cp)}}::to_ast::<{{ty_(w.ty)}}, _>(&{{ex(w.expr)}}))'),
    Q_GUARD=q('::core::debug_assert_eq!(&__p.ss[{{num(i)}}], &{{vx_helpers(cp)}}::to_regex::<{{ty_(w.ty)}}, _>(&{{ex(w.expr)}}), {{seq![Tok::Msg]}});'),
    Q_PARSER=q('{{vx_helpers(cp)}}::Parser::new({{str_(regex_of(v))}}, &mut [{{reps(with_args(w, cp), ","@)}}])'),
    Q_MATCH=q('static __PARSER: ::std::sync::OnceLock<{{path(cp)}}::helpers::Parser> = ::std::sync::OnceLock::new(); let __p = __PARSER.get_or_init(|| {{parser(enclosed(v@), b.with@, cp)}}); '
              '{{reps(guards(b.with@, cp), ""@)}} if let ::core::option::Option::Some(__c) = __p.re.captures(&__s) { {{c}} }'),
    Q_EQUAL=q('if __s == {{str_(s@)}} { {{c}} }'),
    Q_BODY=q('{{c}} ::core::result::Result::Err({{path(cp)}}::ParseError::new())'),
    Q_RESTR=q('({{e}}).re_str'), Q_FROM=q('::core::convert::From::from({{str_(escaped(s@))}})'),
    Q_TRY=q('let {{t(FN)}} = |__s: &str| -> ::core::result::Result<Self, {{path(cp)}}::ParseError> { {{c}} }; if let ::core::result::Result::Ok(__value) = {{t(FN)}}(__s) { return ::core::result::Result::Ok(__value); }').replace('FN', FN),
    Q_ARM=q('{{str_(s@)}} => { {{c}} }'),
)).replace('OPT_S', q('__s')).replace('FV', q('__field_value'))

EXT = '    proof { assert forall|a: Seq<Tok>| #[trigger] (Seq::<Tok>::empty() + a) == a by { assert(Seq::<Tok>::empty() + a =~= a); } }\n'
BAIL = [(r'bail!\(\s*([\w.]+(?:\(\))?),\s*(?:r#".*?"#|"(?:\\.|[^"\\])*"),?\s*\);?', r'return Err(vx_error(\1));')]
NAMES = [(r'&HashMap<&str, usize>', '&NameMap')]
MSG = [(r'=\s*format!\("(?:\\.|[^"\\])*"\)', '= vx_msg()')]
IMPL = "impl<'a> FieldEntry<'a>"
PB = "impl<'a> ParserBuilder<'a>"
ISO = '    #[verifier::loop_isolation(false)]'
NODEC = '    #[verifier::exec_allows_no_decreases_clause]'
OK = lambda v, s, r='x.tk()': '    ensures match r { Ok(x) => %s == Some(%s), Err(_) => %s is None },' % (s, r, s)
PUSH = lambda a: 'assert forall|x: TokenStream| #[trigger] toks_of(%s.push(x)) == toks_of(%s).push(x.tk()) by { assert(toks_of(%s.push(x)) =~= toks_of(%s).push(x.tk())); }' % (a, a, a, a)
NIL = 'assert(toks_of(Seq::empty()) =~= Seq::<Seq<Tok>>::empty());'
ENT = 'it%d.seq().len() == vs.len(), forall|i: int| 0 <= i < it%d.seq().len() ==> *(#[trigger] it%d.seq()[i]).0 == vs[i].0 && *it%d.seq()[i].1 == vs[i].1, 0 <= it%d.index() <= it%d.seq().len(),'


CTX = {1: 'self.new_expr is Some,', 3: 'self.new_expr is None, !self.use_default, self.source is Named,', 4: 'self.new_expr is None, !self.use_default, self.source is Unnamed,'}


def field_loop(n, named, acc):
    return ["            invariant " + ENT.replace('%d', str(n)) + """
                %s@.len() == it%d.index(), names.m() == nm, vs == self.fields.v(), nm == numbers(self.parse_format),
                %s
                inits(vs.take(it%d.index() as int), names.m(), %s) == Some(toks_of(%s@)),%s""" % (acc, n, CTX[n], n, named, acc,
                ' args_of(vs.take(it%d.index() as int)) =~= idents(vars@),' % n if acc == 'exprs' else '')]


def field_start(n, named, acc):
    return '''
            let ghost i = it%d.index() as int; let ghost a1 = %s@;
            proof {
                assert(vs.take(i + 1).drop_last() =~= vs.take(i)); assert(vs.take(i + 1).last() == vs[i]);
                if inits(vs.take(i + 1), names.m(), %s) is None { lemma_bad(vs, i + 1, names.m(), %s); }
                %s
            }
''' % (n, acc, named, named, PUSH('a1'))


AFTER = '\n        proof { assert(vs.take(vs.len() as int) =~= vs); }\n'
ITEMS = [
    Ty('FieldKey'), Ty('With', keep=['capture', 'key', 'expr', 'ty']),
    Ty('HelperAttributes', keep=['format', 'with', 'opt', 'default_self', 'new_expr', 'crate_path']),
    Ty('FieldEntry', keep=['hattrs', 'deep_captures', 'source', 'capture', 'use_default', 'crate_path'], subs=[(r'BTreeMap<Vec<FieldKey>, usize>', 'DeepMap')]),
    Ty('ParserBuilder', keep=['parse_format', 'fields', 'with', 'source', 'use_default', 'span', 'new_expr', 'crate_path'], subs=[(r"pub\(crate\) ", ''), (r"BTreeMap<FieldKey, FieldEntry<'a>>", "FieldMap<FieldEntry<'a>>")]),
    Ty('ParserInit', keep=['expr', 'debug_asserts']), Ty('ParseVariantCode'),
    Fn('', 'capture_name', subs=[(r'format!\("([\w ]*)\{(\w+)\}"\)', r'vx_fmt1("\1", \2)')], spec='    ensures r@ == name_of(idx),'),
    Fn('', 'capture_index', sig=NAMES, subs=[(r'(\w+)\[(.*)\.as_str\(\)\]', r'\1.vx_index(&\2)')], spec='    ensures r == at(names.m(), idx),'),
    Fn('FieldEntry', 'value_ty', emit_owner=IMPL, spec='    ensures *r == value_type(*self),'),
    Fn('', 'str_expr_to_parse_capture_expr', quotes=True, start=EXT, spec='    ensures r.tk() == parsed(str_expr.tk(), *field, *crate_path),'),
    Fn('', 'build_parse_capture_expr', quotes=True, subs=MSG, start=EXT, spec='    ensures r is Ok, r->Ok_0.tk() == capture(capture_index, match field { Some(f) => Some(*f), None => None }, *crate_path),'),
    Fn('FieldEntry', 'capture_index', emit_owner=IMPL, sig=NAMES, spec='    ensures r == (match self.capture { Some(n) => Some(at(names.m(), n)), None => None }),'),
    Fn('FieldEntry', 'build_expr', emit_owner=IMPL, sig=NAMES, quotes=True, start=EXT, spec='    ensures r is Ok, (match r->Ok_0 { Some(x) => Some(x.tk()), None => None }) == value_of(*self, names.m()),'),
    Fn('FieldEntry', 'build_setters', emit_owner=IMPL, sig=NAMES, quotes=True, head=NODEC + '\n' + ISO,
       subs=[(r'in it0:\s*&([\w.]+)', r'in it0: \1.vx_iter()'), (r'=\s*key\.to_string\(\)[^;]*;', '= key.to_string();')],
       start=EXT + '    let ghost ds = self.deep_captures.v(); let ghost base = sets(*self, names.m(), left_expr.tk(), include_self).take(if include_self && value_of(*self, names.m()) is Some { 1 } else { 0 });\n'
             '    proof { assert(base =~= (if include_self && value_of(*self, names.m()) is Some { let e = value_of(*self, names.m())->0; let left = left_expr.tk(); seq![%s] } else { Seq::empty() })); %s\n %s }\n' % (q('{{left}} = {{e}};'), NIL, PUSH('Seq::<TokenStream>::empty()')),
       loops=['            invariant ' + ENT.replace('%d', '0').replace('vs', 'ds') + ' toks_of(setters@) =~= base + deep_sets(ds.take(it0.index() as int), names.m(), left_expr.tk(), *self.crate_path),'],
       l_start={0: '''
            let ghost i = it0.index() as int; let ghost a1 = setters@;
            proof { assert(ds.take(i + 1) =~= ds.take(i).push(ds[i])); %s }
''' % PUSH('a1')},
       l_after={0: '\n        proof { assert(ds.take(ds.len() as int) =~= ds); assert(toks_of(setters@) =~= sets(*self, names.m(), left_expr.tk(), include_self)); }\n'},
       spec='    ensures r is Ok, r->Ok_0.tk() == setters(*self, names.m(), left_expr.tk(), include_self),'),
    Fn('FieldEntry', 'build_field_init_expr', emit_owner=IMPL, sig=NAMES, quotes=True, subs=BAIL, start=EXT, spec=OK('', 'init(*self, names.m())')),
    Fn('ParserBuilder', 'build_construct_code', emit_owner=PB, quotes=True, head=NODEC,
       subs=[(r'HashMap::new\(\)', 'NameMap::new()'), (r'Regex::new\((.*?)\)\.unwrap\(\)', r'Regex::vx_new(\1)'), (r'in it(\d):\s*&([\w.]*fields)', r'in it\1: \2.vx_iter()')],
       start=EXT + '''    let ghost vs = self.fields.v(); let ghost nm = numbers(self.parse_format); let ghost gs = glist(self.parse_format);
    proof { assert(vs.take(0) =~= Seq::<(FieldKey, FieldEntry)>::empty()); %s }
''' % NIL,
       loops=['''            invariant it0.seq().len() == gs.len(), forall|i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i]).0 == i && (match it0.seq()[i].1 { Some(s) => gs[i] == Some(s@), None => gs[i] is None }), 0 <= it0.index() <= it0.seq().len(), gs == glist(self.parse_format),
                names.m() == names_of(gs.take(it0.index() as int)),'''] +
             field_loop(1, 'false', 'exprs') +
             ["            invariant " + ENT.replace('%d', '2') + ' names.m() == nm, vs == self.fields.v(), nm == numbers(self.parse_format), toks_of(setters@) =~= self_sets(vs.take(it2.index() as int), nm),'] +
             field_loop(3, 'true', 'fields_code') + field_loop(4, 'false', 'fields_code'),
       l_start={0: '\n            let ghost i = it0.index() as int; proof { assert(gs.take(i + 1).drop_last() =~= gs.take(i)); assert(gs.take(i + 1).last() == gs[i]); }\n',
                1: field_start(1, 'false', 'exprs').rstrip() + '\n            let ghost v1 = vars@; proof { assert(vs.take(i + 1) =~= vs.take(i).push(vs[i])); }\n',
                2: '\n            let ghost i = it2.index() as int; let ghost a1 = setters@; proof { assert(vs.take(i + 1) =~= vs.take(i).push(vs[i])); %s }\n' % PUSH('a1'),
                3: field_start(3, 'true', 'fields_code'), 4: field_start(4, 'false', 'fields_code')},
       l_end={1: '\n            proof { assert(args_of(vs.take(i + 1)) =~= args_of(vs.take(i)).push(seq![Tok::Arg(fk(vs[i].0))])); assert(idents(vars@) =~= idents(v1).push(vars@.last().tk())); }\n'},
       l_after={0: '\n        proof { assert(gs.take(gs.len() as int) =~= gs); }\n', 1: AFTER, 2: AFTER, 3: AFTER, 4: AFTER},
       spec=OK('', 'construct(*self, constructor)')),
    Fn('ParserBuilder', 'build_parser_init', emit_owner=PB, quotes=True, head=NODEC + '\n' + ISO,
       subs=[(r'in it0:\s*self\.with\.iter\(\)\.enumerate\(\)', 'in it0: vx_enum(&self.with)'), (r'=\s*format!\("(?:\\.|[^"\\])*"\)', '= vx_msg()')],
       start=EXT + '    let ghost ws = self.with@;\n    proof { %s }\n' % NIL,
       loops=['            invariant it0.seq().len() == ws.len(), forall|i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i]).0 == i && *it0.seq()[i].1 == ws[i], 0 <= it0.index() <= it0.seq().len(),\n'
              '                toks_of(with@) =~= with_args(ws.take(it0.index() as int), *crate_path), toks_of(debug_asserts@) =~= guards(ws.take(it0.index() as int), *crate_path), helpers.tk() == vx_helpers(*crate_path),'],
       l_start={0: '\n            let ghost i = it0.index() as int; let ghost a1 = with@; let ghost a2 = debug_asserts@; proof { assert(ws.take(i + 1) =~= ws.take(i).push(ws[i])); %s %s }\n' % (PUSH('a1'), PUSH('a2'))},
       l_after={0: '\n        proof { assert(ws.take(ws.len() as int) =~= ws); }\n'},
       spec='    ensures r is Ok, r->Ok_0.expr.tk() == parser(hirs@, self.with@, *self.crate_path), toks_of(r->Ok_0.debug_asserts@) == guards(self.with@, *self.crate_path),', sig=[(r'&\[Hir\]', '&Vec<Hir>')]),
    Fn('ParserBuilder', 'build_parse_code', emit_owner=PB, quotes=True, start=EXT, spec=OK('', 'attempt(*self, constructor)')),
    Fn('ParserBuilder', 'build_from_str_body', emit_owner=PB, quotes=True, start=EXT, spec=OK('', 'body(*self, constructor)')),
    Fn('ParserBuilder', 'build_from_str_regex_body', emit_owner=PB, quotes=True, start=EXT, spec='    ensures r is Ok, r->Ok_0.tk() == regex_body(*self),'),
    Fn('ParserBuilder', 'build_parse_variant_code', emit_owner=PB, quotes=True, subs=[(r'format_ident!\("(\w+)"\)', r'vx_ident("\1")')], start=EXT, spec=OK('', 'variant_code(*self, constructor)', 'vcode(x)').replace('vcode(x) ==', 'Some(vcode(x)) ==') if False else
       '    ensures match r { Ok(x) => variant_code(*self, constructor) == Some(vcode(x)), Err(_) => variant_code(*self, constructor) is None },'),
    Fn('ParserBuilder', 'build_regex_fmts_args', emit_owner=PB, quotes=True, subs=[(r'Some\((\w+)\.clone\(\)\)', r'Some(vx_dup(\1))')],
       start=EXT + '    let ghost a1 = args@; let ghost f1 = fmts@; proof { %s assert forall|x: Option<String>| #[trigger] opt_strs(f1.push(x)) == opt_strs(f1).push(opt_str(x)) by { assert(opt_strs(f1.push(x)) =~= opt_strs(f1).push(opt_str(x))); } }\n' % PUSH('a1'),
       spec='''    ensures r is Ok, match self.parse_format {
        ParseFormat::Hirs(_) => opt_strs(final(fmts)@) == opt_strs(old(fmts)@).push(None) && toks_of(final(args)@) == toks_of(old(args)@).push(regex_body(*self)),
        ParseFormat::String(s) => opt_strs(final(fmts)@) == opt_strs(old(fmts)@).push(Some(s@)) && toks_of(final(args)@) == toks_of(old(args)@) },'''),
]
UNIT = Unit('fromcode', PRE, ITEMS, assumed=[
    'quote! writes the tokens it is given (rewritten into appends of the same literal tokens and interpolated values); the wording of messages is left open',
    'Regex::new accepts the pattern and capture_names gives the names of its groups in order; names[..] finds the name (its panic is not modelled)',
    'BTreeMap iteration gives its entries in one order', 'to_regex_string, hirs_with_start_end, regex_syntax::escape: functions of their argument (parsefmt and esc prove theirs)',
    'FieldKey::new_arg_var, get_option_element (assumed here, proved in units keys, types)', 'set_span and the span of quote_spanned! change spans only'])
