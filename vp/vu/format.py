from vx import *
from vu.common import *

RE_STR = r'r"^[^{}]+"'
RE_VAR = r'r"^\{([^:{}]*)(?::([^}]*))?\}"'

# the specification of the split of a format string
SPLIT = '''
pub open spec fn brace(c: char) -> bool { c == '{' || c == '}' }
pub open spec fn run_len(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || brace(s[0]) { 0 } else { 1 + run_len(s.skip(1)) } }
pub open spec fn path_len(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || brace(s[0]) || s[0] == ':' { 0 } else { 1 + path_len(s.skip(1)) } }
pub open spec fn close_at(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || s[0] == '}' { 0 } else { 1 + close_at(s.skip(1)) } }
// a placeholder at the start of s: its path, its spec, its length
pub struct Ph { pub path: Seq<char>, pub spec: Option<Seq<char>>, pub n: int }
pub open spec fn placeholder(s: Seq<char>) -> Option<Ph> {
    if s.len() == 0 || s[0] != '{' { None } else {
        let t = s.skip(1);
        let p = path_len(t);
        if p >= t.len() { None }
        else if t[p] == '}' { Some(Ph { path: t.take(p), spec: None, n: p + 2 }) }
        else if t[p] == ':' {
            let u = t.skip(p + 1);
            let q = close_at(u);
            if q >= u.len() { None } else { Some(Ph { path: t.take(p), spec: Some(u.take(q)), n: p + q + 3 }) }
        } else { None }
    }
}
// ---- the specification of the split
pub enum Part { Lit(Seq<char>), Open, Close, Var(Seq<char>, Seq<char>) }
pub open spec fn dbl(s: Seq<char>, c: char) -> bool { s.len() >= 2 && s[0] == c && s[1] == c }
pub open spec fn cons(p: Part, r: Option<Seq<Part>>) -> Option<Seq<Part>> { match r { Some(t) => Some(seq![p] + t), None => None } }
pub open spec fn split(s: Seq<char>) -> Option<Seq<Part>> decreases s.len() via split_dec {
    if s.len() == 0 { Some(Seq::empty()) }
    else if dbl(s, '{') { cons(Part::Open, split(s.skip(2))) }
    else if dbl(s, '}') { cons(Part::Close, split(s.skip(2))) }
    else if run_len(s) > 0 { cons(Part::Lit(s.take(run_len(s))), split(s.skip(run_len(s)))) }
    else { match placeholder(s) {
        Some(Ph { path, spec, n }) => cons(Part::Var(path, match spec { Some(t) => t, None => Seq::empty() }), split(s.skip(n))),
        None => None } }
}
#[via_fn] proof fn split_dec(s: Seq<char>) {
    lemma_len(s);
}
proof fn lemma_len(s: Seq<char>)
    ensures 0 <= run_len(s) <= s.len(), 0 <= path_len(s) <= s.len(), 0 <= close_at(s) <= s.len(), placeholder(s) is Some ==> 2 <= placeholder(s)->0.n <= s.len()
    decreases s.len()
{
    if s.len() > 0 { lemma_len(s.skip(1)); if path_len(s.skip(1)) + 1 <= s.skip(1).len() { lemma_len(s.skip(1).skip(path_len(s.skip(1)) + 1)); } }
}
pub open spec fn unesc1(p: Part) -> Option<Seq<char>> { match p { Part::Lit(t) => Some(t), Part::Open => Some(seq!['{']), Part::Close => Some(seq!['}']), Part::Var(..) => None } }
pub open spec fn unesc(v: Seq<Part>) -> Option<Seq<char>> decreases v.len() {
    if v.len() == 0 { Some(Seq::empty()) } else { match (unesc(v.drop_last()), unesc1(v.last())) { (Some(a), Some(b)) => Some(a + b), _ => None } }
}
proof fn lemma_unesc_none(v: Seq<Part>, n: int)
    requires 0 <= n <= v.len(), unesc(v.take(n)) is None
    ensures unesc(v) is None
    decreases v.len() - n
{
    if n < v.len() {
        assert(v.take(n + 1).drop_last() =~= v.take(n));
        lemma_unesc_none(v, n + 1);
    } else { assert(v.take(n) =~= v); }
}
'''

PRE = STR_EXT + STR_X + '''
#[derive(Clone, Copy)] pub struct Span { pub x: u8 }
pub struct Error { pub x: u8 }
#[verifier::external_body] pub struct LitStr { x: u8 }
pub uninterp spec fn lit_text(l: LitStr) -> Seq<char>;
impl LitStr { #[verifier::external_body] pub fn value(&self) -> (r: String) ensures r@ == lit_text(*self) { unimplemented!() } #[verifier::external_body] pub fn span(&self) -> (r: Span) { unimplemented!() } }
pub fn vx_error(s: Span) -> Error { Error { x: 0 } }
// ---- byte offsets
pub open spec fn width(c: char) -> nat { if c < '\\u{80}' { 1 } else if c < '\\u{800}' { 2 } else if c < '\\u{10000}' { 3 } else { 4 } }
pub open spec fn boff(s: Seq<char>, k: int) -> nat decreases k { if k <= 0 { 0 } else { boff(s, k - 1) + width(s[k - 1]) } }
#[verifier::external_body] pub fn vx_from<'a>(s: &'a str, n: usize) -> (r: &'a str)
    requires exists|k: int| 0 <= k <= s@.len() && #[trigger] boff(s@, k) == n,
    ensures forall|k: int| 0 <= k <= s@.len() && #[trigger] boff(s@, k) == n ==> r@ == s@.skip(k),
{ &s[n..] }
// ---- what the two patterns match (assumed; the contract is tied to the text of the pattern)
pub struct Rx { pub lit: Ghost<Seq<char>>, pub x: u8 }
#[verifier::external_body] pub fn vx_regex(s: &'static str) -> (r: Rx) ensures r.lit@ == s@ { unimplemented!() }
pub struct Mat<'t> { pub txt: Ghost<Seq<char>>, pub end_: Ghost<nat>, pub x: &'t str }
impl<'t> Mat<'t> {
    #[verifier::external_body] pub fn as_str(&self) -> (r: &'t str) ensures r@ == self.txt@ { unimplemented!() }
    #[verifier::external_body] pub fn end(&self) -> (r: usize) ensures r == self.end_@ { unimplemented!() }
}
pub struct Caps<'t> { pub g: Ghost<Seq<Option<Seq<char>>>>, pub end_: Ghost<nat>, pub x: &'t str }
impl<'t> Caps<'t> {
    #[verifier::external_body] pub fn get(&self, i: usize) -> (r: Option<Mat<'t>>)
        ensures i < self.g@.len() ==> match self.g@[i as int] { Some(t) => r is Some && r->0.txt@ == t && (i == 0 ==> r->0.end_@ == self.end_@), None => r is None } { unimplemented!() }
}
pub assume_specification<T, U, F> [Option::<T>::map_or] (o: Option<T>, d: U, f: F) -> (r: U)
    where F: std::ops::FnOnce(T,) -> U + std::marker::Destruct, U: std::marker::Destruct
    requires o is Some ==> call_requires(f, (o->0,)),
    ensures match o { Some(t) => call_ensures(f, (t,), r), None => r == d };
impl Rx {
    #[verifier::external_body] pub fn find<'t>(&self, s: &'t str) -> (r: Option<Mat<'t>>)
        ensures self.lit@ == RE_STR@ ==> match r {
            Some(m) => run_len(s@) > 0 && m.txt@ == s@.take(run_len(s@)) && m.end_@ == boff(s@, run_len(s@)),
            None => run_len(s@) == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn captures<'t>(&self, s: &'t str) -> (r: Option<Caps<'t>>)
        ensures self.lit@ == RE_VAR@ ==> match r {
            Some(c) => placeholder(s@) is Some && c.g@ == seq![Some(s@.take(placeholder(s@)->0.n)), Some(placeholder(s@)->0.path), placeholder(s@)->0.spec] && c.end_@ == boff(s@, placeholder(s@)->0.n),
            None => placeholder(s@) is None } { unimplemented!() }
}
'''.replace('RE_STR@', RE_STR + '@').replace('RE_VAR@', RE_VAR + '@') + SPLIT + '''
pub open spec fn part(p: DisplayFormatPart) -> Part {
    match p {
        DisplayFormatPart::Str(t) => Part::Lit(t@),
        DisplayFormatPart::EscapedBeginBracket => Part::Open,
        DisplayFormatPart::EscapedEndBracket => Part::Close,
        DisplayFormatPart::Var { arg, format_spec } => Part::Var(arg@, format_spec@),
    }
}
pub open spec fn parts_of(v: Seq<DisplayFormatPart>) -> Seq<Part> { v.map_values(|p: DisplayFormatPart| part(p)) }
pub open spec fn append(a: Seq<Part>, r: Option<Seq<Part>>) -> Option<Seq<Part>> { match r { Some(t) => Some(a + t), None => None } }
proof fn lemma_step(a: Seq<Part>, p: Part, r: Option<Seq<Part>>)
    ensures append(a, cons(p, r)) == append(a.push(p), r)
{
    if let Some(t) = r { assert(a + (seq![p] + t) =~= a.push(p) + t); }
}
proof fn lemma_boff(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> #[trigger] s[i] < '\\u{80}'
    ensures boff(s, k) == k
    decreases k
{
    if k > 0 { lemma_boff(s, k - 1); }
}
'''

POST = '''
// ---- consequences: the split is lossless and admits no unmatched brace
pub open spec fn form(p: Part, colon: bool) -> Seq<char> {
    match p { Part::Lit(t) => t, Part::Open => seq!['{', '{'], Part::Close => seq!['}', '}'],
        Part::Var(a, f) => if f.len() == 0 && !colon { seq!['{'] + a + seq!['}'] } else { seq!['{'] + a + seq![':'] + f + seq!['}'] } }
}
// the parts, spelled out one after the other, are exactly s (an empty spec may be written `{a}` or `{a:}`)
pub open spec fn written(v: Seq<Part>, s: Seq<char>) -> bool decreases v.len() {
    if v.len() == 0 { s.len() == 0 } else {
        exists|colon: bool| starts(s, #[trigger] form(v[0], colon)) && written(v.skip(1), s.skip(form(v[0], colon).len() as int))
    }
}
pub open spec fn none_of(s: Seq<char>, a: char, b: char, c: char) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != a && s[i] != b && s[i] != c }
pub open spec fn clean(p: Part) -> bool {
    match p { Part::Lit(t) => t.len() > 0 && none_of(t, '{', '}', '}'), Part::Var(a, f) => none_of(a, '{', '}', ':') && none_of(f, '}', '}', '}'), _ => true }
}
proof fn lemma_run(s: Seq<char>)
    ensures none_of(s.take(run_len(s)), '{', '}', '}'), none_of(s.take(path_len(s)), '{', '}', ':'), none_of(s.take(close_at(s)), '}', '}', '}'),
        close_at(s) < s.len() ==> s[close_at(s)] == '}', 0 <= run_len(s) <= s.len(), 0 <= path_len(s) <= s.len(), 0 <= close_at(s) <= s.len()
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.skip(1);
        lemma_run(t);
        assert forall|i: int| 0 <= i < run_len(s) implies !brace(#[trigger] s.take(run_len(s))[i]) by { if i > 0 { assert(s.take(run_len(s))[i] == t.take(run_len(t))[i - 1]); } }
        assert forall|i: int| 0 <= i < path_len(s) implies !brace(#[trigger] s.take(path_len(s))[i]) && s.take(path_len(s))[i] != ':' by { if i > 0 { assert(s.take(path_len(s))[i] == t.take(path_len(t))[i - 1]); } }
        assert forall|i: int| 0 <= i < close_at(s) implies #[trigger] s.take(close_at(s))[i] != '}' by { if i > 0 { assert(s.take(close_at(s))[i] == t.take(close_at(t))[i - 1]); } }
    }
}
proof fn lemma_lossless(s: Seq<char>)
    ensures match split(s) { Some(v) => written(v, s) && forall|i: int| 0 <= i < v.len() ==> clean(#[trigger] v[i]), None => true }
    decreases s.len()
{
    lemma_len(s);
    lemma_run(s);
    if s.len() == 0 || split(s) is None {
    } else {
        let v = split(s)->0;
        let (n, colon): (int, bool) = if dbl(s, '{') || dbl(s, '}') { (2, false) } else if run_len(s) > 0 { (run_len(s), false) } else { (placeholder(s)->0.n, placeholder(s)->0.spec is Some) };
        if dbl(s, '{') || dbl(s, '}') || run_len(s) > 0 { } else {
            let t = s.skip(1);
            lemma_run(t); lemma_len(t);
            let p = path_len(t);
            if t[p] == ':' { lemma_run(t.skip(p + 1)); lemma_len(t.skip(p + 1)); }
        }
        lemma_lossless(s.skip(n));
        let rest = split(s.skip(n))->0;
        assert(v.skip(1) =~= rest);
        assert(v[0] == (seq![v[0]] + rest)[0]);
        assert(s.take(n) =~= form(v[0], colon));
        assert(form(v[0], colon).len() == n);
        assert(starts(s, form(v[0], colon)));
        assert forall|i: int| 0 <= i < v.len() implies clean(#[trigger] v[i]) by { if i > 0 { assert(v[i] == rest[i - 1]); } }
    }
}
// a literal-only format without braces is its own text
proof fn lemma_plain(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> !brace(#[trigger] s[i]), s.len() > 0
    ensures split(s) == Some(seq![Part::Lit(s)])
{
    lemma_all(s);
    lemma_len(s);
    assert(s.take(s.len() as int) =~= s);
    assert(split(s.skip(s.len() as int)) == Some(Seq::<Part>::empty()));
    assert(seq![Part::Lit(s)] + Seq::<Part>::empty() =~= seq![Part::Lit(s)]);
}
proof fn lemma_all(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> !brace(#[trigger] s[i])
    ensures run_len(s) == s.len()
    decreases s.len()
{
    if s.len() > 0 { assert forall|i: int| 0 <= i < s.skip(1).len() implies !brace(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); } lemma_all(s.skip(1)); }
}
'''
UNIT = Unit('format', PRE, [
    Ty('DisplayFormatPart'),
    Ty('DisplayFormat', keep=['parts', 'span']),
    Fn('DisplayFormat', 'parse', sig=[(r'-> Result<DisplayFormat>', '-> Result<DisplayFormat, Error>')], head='    #[verifier::loop_isolation(false)]',
       want=[re.escape('vx_regex(%s)' % RE_STR), re.escape('vx_regex(%s)' % RE_VAR)],
       subs=[(r'\bregex!\(', 'vx_regex('), (r'&s\[([^;]*?)\.\.\];', r'vx_from(s, \1);'), (r'bail!\(span, [^;]*\);', 'return Err(vx_error(span));'),
             (r'\|(\w+)\| (\1\.as_str\(\))', r'|\1: Mat| -> (q: &str) ensures q@ == \1.txt@ { \2 }')],
       spec='''    ensures match r { Ok(f) => split(s@) == Some(parts_of(f.parts@)), Err(_) => split(s@) is None },''',
       start='''    let ghost orig = s@;
    proof { reveal_strlit("{{"); reveal_strlit("}}"); reveal_strlit(""); }
''',
       loops=['''    invariant split(orig) == append(parts_of(parts@), split(s@)),
            regex_str.lit@ == %s@, regex_var.lit@ == %s@,
        decreases s@.len(),''' % (RE_STR, RE_VAR)],
       l_start={0: '''
            let ghost s0 = s@;
            let ghost p0 = parts@;
            proof {
                lemma_len(s0);
                assert(starts(s0, "{{"@) == dbl(s0, '{')) by { if dbl(s0, '{') { assert(s0.take(2) =~= "{{"@); } else if starts(s0, "{{"@) { assert(s0.take(2)[0] == '{' && s0.take(2)[1] == '{'); } }
                assert(starts(s0, "}}"@) == dbl(s0, '}')) by { if dbl(s0, '}') { assert(s0.take(2) =~= "}}"@); } else if starts(s0, "}}"@) { assert(s0.take(2)[0] == '}' && s0.take(2)[1] == '}'); } }
                if dbl(s0, '{') || dbl(s0, '}') { lemma_boff(s0, 2); }
                assert forall|q: DisplayFormatPart| #[trigger] parts_of(p0.push(q)) == parts_of(p0).push(part(q)) by { assert(parts_of(p0.push(q)) =~= parts_of(p0).push(part(q))); }
                assert forall|p: Part, r: Option<Seq<Part>>| #[trigger] append(parts_of(p0), cons(p, r)) == append(parts_of(p0).push(p), r) by { lemma_step(parts_of(p0), p, r); }
                assert(""@ =~= Seq::<char>::empty());
            }
'''},
       l_after={0: '''
        proof { assert(s@ =~= Seq::<char>::empty()); assert(parts_of(parts@) + Seq::<Part>::empty() =~= parts_of(parts@)); }
'''}),
    Fn('DisplayFormat', 'parse_lit_str', sig=[(r'-> Result<DisplayFormat>', '-> Result<DisplayFormat, Error>')],
       spec='''    ensures match r { Ok(f) => split(lit_text(*s)) == Some(parts_of(f.parts@)), Err(_) => split(lit_text(*s)) is None },'''),
    Fn('DisplayFormatPart', 'try_unescape', spec='    ensures match r { Some(t) => unesc1(part(*self)) == Some(t@), None => unesc1(part(*self)) is None },',
       start='    proof { reveal_strlit("{"); reveal_strlit("}"); assert("{"@ =~= seq![\'{\']); assert("}"@ =~= seq![\'}\']); }\n'),
    Fn('DisplayFormat', 'try_unescape', head='    #[verifier::loop_isolation(false)]',
       spec='    ensures match r { Some(t) => unesc(parts_of(self.parts@)) == Some(t@), None => unesc(parts_of(self.parts@)) is None },',
       loops=['''            invariant it0.seq().len() == self.parts@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.parts@[i],
                unesc(parts_of(self.parts@).take(it0.index() as int)) == Some(s@),'''],
       l_start={0: '''
            proof {
                let v = parts_of(self.parts@); let i = it0.index() as int;
                assert(v.take(i + 1).drop_last() =~= v.take(i));
                assert(v[i] == part(*p));
                if unesc1(v[i]) is None { lemma_unesc_none(v, i + 1); }
            }
'''},
       l_after={0: '''
        proof { assert(parts_of(self.parts@).take(self.parts@.len() as int) =~= parts_of(self.parts@)); }
'''}),
], rename=RENAME, post=POST, assumed=ASSUMED + ['what the two regex literals of DisplayFormat::parse match (assumed contracts, tied to the literals: another literal leaves the function undecided)',
                                                'str slicing at a byte offset (assumed contract, over a defined UTF-8 width)', '`bail!` is taken as returning an error'])
