import re
from vx import *
from vu.common import *

PRE = '''
pub struct Error { pub x: u8 }
#[derive(Clone, Copy)] pub struct Span { pub x: u64 }
#[verifier::external_body] pub struct LitStr { x: u8 } #[verifier::external_body] pub struct Expr { x: u8 } #[verifier::external_body] pub struct Path { x: u8 }
#[verifier::external_body] pub struct DisplayFormat0 { x: u8 } #[verifier::external_body] pub struct Bound { x: u8 } #[verifier::external_body] pub struct DefaultField { x: u8 }
#[derive(Clone, Copy)] #[verifier::external_body] pub struct DisplayStyle { x: u8 }
pub struct DisplayFormat { pub span: Span, pub f: DisplayFormat0 }
pub uninterp spec fn lit_span(l: LitStr) -> Span;
impl LitStr { #[verifier::external_body] pub fn span(&self) -> (r: Span) ensures r == lit_span(*self) { unimplemented!() } }
impl Path { #[verifier::external_body] pub fn clone(&self) -> (r: Path) ensures r == *self { unimplemented!() } }
#[derive(Clone, Copy)] pub struct Flag { pub span: Option<Span> }
impl Flag { pub fn value(&self) -> (r: bool) ensures r == (self.span is Some) { self.span.is_some() } }
// parsing of a format and of a style (their own contracts are in the units format and style)
pub uninterp spec fn format_of(l: LitStr) -> Option<DisplayFormat>;
pub uninterp spec fn style_of(l: LitStr) -> Option<DisplayStyle>;
impl DisplayFormat { #[verifier::external_body] pub fn parse_lit_str(l: &LitStr) -> (r: Result<DisplayFormat, Error>) ensures match r { Ok(f) => format_of(*l) == Some(f), Err(_) => format_of(*l) is None } { unimplemented!() } }
impl DisplayStyle { #[verifier::external_body] pub fn parse_lit_str(l: &LitStr) -> (r: Result<DisplayStyle, Error>) ensures match r { Ok(f) => style_of(*l) == Some(f), Err(_) => style_of(*l) is None } { unimplemented!() } }
// an item, or a string with items in it
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Quotable<T> { x: T }
impl<T> Quotable<T> {
    pub uninterp spec fn items(&self) -> Seq<T>;
    #[verifier::external_body] pub fn into_iter(self) -> (r: Vec<T>) ensures r@ == self.items() { unimplemented!() }
}
// ---- the meaning of an attribute: what is given replaces what was given before, lists grow
#[verifier::opaque] pub open spec fn all<T>(v: Seq<Quotable<T>>) -> Seq<T> decreases v.len() { if v.len() == 0 { Seq::empty() } else { all(v.drop_last()) + v.last().items() } }
pub open spec fn over<T>(new: Option<T>, old_: Option<T>) -> Option<T> { if new is Some { new } else { old_ } }
pub open spec fn view<T>(o: Option<Vec<T>>) -> Option<Seq<T>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn grown<T>(new: Option<Vec<Quotable<T>>>, old_: Option<Seq<T>>) -> Option<Seq<T>> {
    match new { None => old_, Some(q) => Some((match old_ { Some(v) => v, None => Seq::empty() }) + all(q@)) }
}
pub struct HA { pub format: Option<DisplayFormat>, pub with: Option<Expr>, pub opt: bool, pub style: Option<DisplayStyle>, pub bd: Option<Seq<Bound>>, pub bf: Option<Seq<Bound>>,
    pub regex: Option<LitStr>, pub infer: bool, pub default_self: bool, pub default_fields: Seq<DefaultField>, pub new_expr: Option<Expr>, pub ignore: bool, pub crate_path: Path }
impl HelperAttributes {
    spec fn vw(&self) -> HA {
        HA { format: self.format, with: self.with, opt: self.opt.span is Some, style: self.style, bd: view(self.bound_display), bf: view(self.bound_from_str), regex: self.regex, infer: self.regex_infer,
            default_self: self.default_self is Some, default_fields: self.default_fields@, new_expr: self.new_expr, ignore: self.ignore.span is Some, crate_path: self.crate_path }
    }
}
pub open spec fn parsed<L, T>(l: Option<L>, f: spec_fn(L) -> Option<T>) -> Option<T> { match l { Some(x) => f(x), None => None } }
spec fn display_ok(a: DisplayArgs) -> bool { (a.format is Some ==> format_of(a.format->0) is Some) && (a.style is Some ==> style_of(a.style->0) is Some) }
spec fn with_display(h: HA, a: DisplayArgs, n: HA) -> bool {
    &&& n.format == over(parsed(a.format, |l: LitStr| format_of(l)), h.format) &&& n.with == over(a.with, h.with) &&& n.opt == (a.opt.span is Some || h.opt)
    &&& n.style == over(parsed(a.style, |l: LitStr| style_of(l)), h.style) &&& n.bd == grown(a.bound, h.bd) &&& n.crate_path == (if a.crate_path is Some { a.crate_path->0 } else { h.crate_path })
    &&& n.bf == h.bf &&& n.regex == h.regex &&& n.infer == h.infer &&& n.default_self == h.default_self &&& n.default_fields == h.default_fields &&& n.new_expr == h.new_expr &&& n.ignore == h.ignore
}
spec fn with_from_str(h: HA, a: FromStrArgs, n: HA) -> bool {
    &&& n.regex == over(a.regex, h.regex) &&& n.infer == (a.regex_infer.span is Some || h.infer) &&& n.with == over(a.with, h.with) &&& n.new_expr == over(a.new, h.new_expr) &&& n.bf == grown(a.bound, h.bf)
    &&& n.default_self == (a.default.span is Some || h.default_self)
    &&& n.default_fields == h.default_fields + (match a.default_fields { Some(q) => all(q@), None => Seq::empty() }) &&& n.ignore == (a.ignore.span is Some || h.ignore)
    &&& n.format == h.format &&& n.opt == h.opt &&& n.style == h.style &&& n.bd == h.bd &&& n.crate_path == h.crate_path
}
#[verifier::external_body] pub fn vx_clone_bounds(o: &Option<Vec<Bound>>) -> (r: Option<Vec<Bound>>) ensures view(r) == view(*o) { unimplemented!() }
#[verifier::external_body] pub fn vx_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> (r: Option<T>) requires f.requires(()), ensures o is Some ==> r == o, o is None ==> f.ensures((), r) { unimplemented!() }
#[verifier::opaque] pub open spec fn within<T>(b: Seq<T>, q: Seq<Quotable<T>>, i: int, j: int) -> Seq<T> { b + all(q.take(i)) + q[i].items().take(j) }
#[verifier::opaque] pub open spec fn upto<T>(b: Seq<T>, q: Seq<Quotable<T>>, i: int) -> Seq<T> { b + all(q.take(i)) }
proof fn lemma_start<T>(b: Seq<T>, q: Seq<Quotable<T>>) ensures upto(b, q, 0) == b { reveal(all); reveal(upto); assert(upto(b, q, 0) =~= b); }
proof fn lemma_end<T>(b: Seq<T>, q: Seq<Quotable<T>>) ensures upto(b, q, q.len() as int) == b + all(q) { reveal(upto); assert(q.take(q.len() as int) =~= q); }
proof fn lemma_enter<T>(b: Seq<T>, q: Seq<Quotable<T>>, i: int) requires 0 <= i < q.len() ensures within(b, q, i, 0) == upto(b, q, i) { reveal(upto); reveal(within); assert(within(b, q, i, 0) =~= upto(b, q, i)); }
proof fn lemma_leave<T>(b: Seq<T>, q: Seq<Quotable<T>>, i: int) requires 0 <= i < q.len() ensures within(b, q, i, q[i].items().len() as int) == upto(b, q, i + 1) {
    reveal(all); reveal(upto); reveal(within); let v = q[i].items(); assert(v.take(v.len() as int) =~= v); assert(q.take(i + 1).drop_last() =~= q.take(i)); assert(all(q.take(i + 1)) =~= all(q.take(i)) + v);
    assert(within(b, q, i, v.len() as int) =~= upto(b, q, i + 1));
}
proof fn lemma_step<T>(b: Seq<T>, q: Seq<Quotable<T>>, i: int, j: int) requires 0 <= i < q.len(), 0 <= j < q[i].items().len() ensures within(b, q, i, j).push(q[i].items()[j]) == within(b, q, i, j + 1) {
    reveal(within); assert(within(b, q, i, j).push(q[i].items()[j]) =~= within(b, q, i, j + 1)); }
// ---- all attributes of an item, in order; `#[from_str]` counts only where FromStr is derived
#[verifier::external_body] pub struct Attribute { x: u8 }
#[verifier::external_body] pub struct AttrPath { x: u8 }
pub uninterp spec fn path_text(a: Attribute) -> Seq<char>;
pub uninterp spec fn path_of(p: AttrPath) -> Seq<char>;
pub uninterp spec fn nested_ok(a: Attribute) -> bool;
impl AttrPath { #[verifier::external_body] pub fn is_ident(&self, s: &str) -> (r: bool) ensures r == (path_of(*self) == s@) { unimplemented!() } }
pub trait Args: Sized { spec fn of(a: Attribute) -> Option<Self>; }
pub uninterp spec fn display_of(a: Attribute) -> Option<DisplayArgs>;
pub uninterp spec fn from_str_of(a: Attribute) -> Option<FromStrArgs>;
impl Args for DisplayArgs { open spec fn of(a: Attribute) -> Option<Self> { display_of(a) } }
impl Args for FromStrArgs { open spec fn of(a: Attribute) -> Option<Self> { from_str_of(a) } }
impl Attribute {
    #[verifier::external_body] pub fn path(&self) -> (r: &AttrPath) ensures path_of(*r) == path_text(*self) { unimplemented!() }
    #[verifier::external_body] pub fn parse_args<T: Args>(&self) -> (r: Result<T, Error>) ensures match r { Ok(x) => T::of(*self) == Some(x), Err(_) => T::of(*self) is None } { unimplemented!() }
}
pub uninterp spec fn parse_display_path() -> Path;
#[verifier::external_body] pub fn vx_parse_display() -> (r: Path) ensures r == parse_display_path() { unimplemented!() }
impl Flag { pub const NONE: Flag = Flag { span: None }; }
spec fn disp(h: HA, a: DisplayArgs) -> HA { HA { format: over(parsed(a.format, |l: LitStr| format_of(l)), h.format), with: over(a.with, h.with), opt: a.opt.span is Some || h.opt,
    style: over(parsed(a.style, |l: LitStr| style_of(l)), h.style), bd: grown(a.bound, h.bd), crate_path: (if a.crate_path is Some { a.crate_path->0 } else { h.crate_path }), ..h } }
spec fn fs(h: HA, a: FromStrArgs) -> HA { HA { regex: over(a.regex, h.regex), infer: a.regex_infer.span is Some || h.infer, with: over(a.with, h.with), new_expr: over(a.new, h.new_expr), bf: grown(a.bound, h.bf),
    default_self: a.default.span is Some || h.default_self, default_fields: h.default_fields + (match a.default_fields { Some(q) => all(q@), None => Seq::empty() }), ignore: a.ignore.span is Some || h.ignore, ..h } }
spec fn ha_none() -> HA { HA { format: None, with: None, opt: false, style: None, bd: None, bf: None, regex: None, infer: false, default_self: false, default_fields: Seq::empty(), new_expr: None, ignore: false, crate_path: parse_display_path() } }
// Display's attributes first, then FromStr's over them, whatever the order they are written in
spec fn with_d(h: HA, a: Attribute) -> Option<HA> {
    if path_text(a) == "display"@ { match display_of(a) { Some(d) => if display_ok(d) { Some(disp(h, d)) } else { None }, None => None } } else { Some(h) }
}
spec fn with_f(h: HA, a: Attribute) -> Option<HA> {
    if path_text(a) == "from_str"@ { match from_str_of(a) { Some(d) => if nested_ok(a) { Some(fs(h, d)) } else { None }, None => None } } else { Some(h) }
}
spec fn meaning_d(v: Seq<Attribute>, n: int) -> Option<HA> decreases n { if n <= 0 { Some(ha_none()) } else { match meaning_d(v, n - 1) { None => None, Some(h) => with_d(h, v[n - 1]) } } }
spec fn meaning_f(v: Seq<Attribute>, n: int) -> Option<HA> decreases n { if n <= 0 { meaning_d(v, v.len() as int) } else { match meaning_f(v, n - 1) { None => None, Some(h) => with_f(h, v[n - 1]) } } }
spec fn meaning(v: Seq<Attribute>, use_from_str: bool) -> Option<HA> { if use_from_str { meaning_f(v, v.len() as int) } else { meaning_d(v, v.len() as int) } }
proof fn lemma_disp(h: HA, a: DisplayArgs, n: HA) requires with_display(h, a, n) ensures n == disp(h, a) { }
proof fn lemma_fs(h: HA, a: FromStrArgs, n: HA) requires with_from_str(h, a, n) ensures n == fs(h, a) { }
proof fn lemma_dead_d(v: Seq<Attribute>, i: int, n: int) requires 0 <= i <= n, meaning_d(v, i) is None ensures meaning_d(v, n) is None decreases n { if i < n { lemma_dead_d(v, i, n - 1); } }
proof fn lemma_dead_f(v: Seq<Attribute>, i: int, n: int) requires 0 <= i <= n, meaning_f(v, i) is None ensures meaning_f(v, n) is None decreases n { if i < n { lemma_dead_f(v, i, n - 1); } }
proof fn lemma_none<T>(b: Seq<T>) ensures b + all(Seq::<Quotable<T>>::empty()) == b, b + Seq::<T>::empty() == b { reveal(all); assert(b + Seq::<T>::empty() =~= b); }
'''


def lists(n, acc, src, base):
    """loops n and n+1: acc grows by the items of src"""
    k = dict(n=n, m=n + 1, acc=acc, q=src, b=base)
    f = lambda t: re.sub(r'<(\w+)>', lambda m: str(k[m.group(1)]), t).replace('[[', '{').replace(']]', '}')
    return ([f("            invariant it<n>.seq() == <q>, <acc> == upto(<b>, <q>, it<n>.index() as int),"),
             f("                invariant it<m>.seq() == <q>[it<n>.index() as int].items(), it<n>.seq() == <q>, 0 <= it<n>.index() < <q>.len(), <acc> == within(<b>, <q>, it<n>.index() as int, it<m>.index() as int),")],
            {n: f('\nproof [[ lemma_enter(<b>, <q>, it<n>.index() as int); ]]\n'),
             n + 1: f('\nproof [[ lemma_step(<b>, <q>, it<n>.index() as int, it<m>.index() as int); ]]\n')},
            {n + 1: f('\nproof [[ lemma_leave(<b>, <q>, it<n>.index() as int); ]]\n'),
             n: f('\nproof [[ lemma_end(<b>, <q>); ]]\n')})


def merge(*ls):
    r = {}
    for l in ls:
        r.update(l)
    return r


D = lists(0, 'list@', 'bq', 'bb')
F1 = lists(0, 'list@', 'bq', 'bb')
F2 = lists(2, 'self.default_fields@', 'dq', 'h0.default_fields')
DSTART = '''    let ghost h0 = self.vw(); let ghost bb = match h0.bd { Some(v) => v, None => Seq::empty() }; let ghost bq = args.bound->0@;
    proof { lemma_start(bb, bq); }
'''
FSTART = '''    let ghost h0 = self.vw(); let ghost bb = match h0.bf { Some(v) => v, None => Seq::empty() }; let ghost bq = args.bound->0@; let ghost dq = args.default_fields->0@;
    proof { lemma_start(bb, bq); lemma_start(h0.default_fields, dq); lemma_none(h0.default_fields); }
'''
DEAD = '''
                proof { if IF { let i = it%(n)s.index() as int; assert(meaning_x(attrs@, i + 1) == with_x(hattrs.vw(), attrs@[i]));
                    assert(meaning_x(attrs@, i + 1) is None ==> meaning_x(attrs@, attrs@.len() as int) is None) by { if meaning_x(attrs@, i + 1) is None { lemma_dead_x(attrs@, i + 1, attrs@.len() as int); } }
                    DDD
                } }
'''
ORS = [(r'([\w.]+) \|= ([^;]+);', r'\1 = \1 || \2;')]
UNIT = Unit('attrs', PRE, [
    Ty('DisplayArgs'), Ty('FromStrArgs'), Ty('HelperAttributes'),
    Fn('HelperAttributes', 'set_display_args', subs=ORS, sig=[(r'Result<\(\)>', 'Result<(), Error>')], start=DSTART, loops=D[0], l_start=D[1], l_after=D[2],
       spec='    ensures r is Ok ==> display_ok(args) && with_display(old(self).vw(), args, final(self).vw()), r is Err ==> !display_ok(args),'),
    Fn('HelperAttributes', 'set_from_str_args', subs=ORS, start=FSTART, loops=F1[0] + F2[0], l_start=merge(F1[1], F2[1]), l_after=merge(F1[2], F2[2]),
       spec='    ensures with_from_str(old(self).vw(), args, final(self).vw()),'),
    Stub(Fn('HelperAttributes', 'push_from_str_warning_spans', sig=[(r'Result<\(\)>', 'Result<(), Error>')], spec='    ensures r is Ok == nested_ok(*attr), final(self).vw() == old(self).vw(),')),
    Fn('HelperAttributes', 'from', head='#[verifier::loop_isolation(false)]', sig=[(r'Result<Self>', 'Result<Self, Error>')],
       subs=[(r'parse_quote!\(\s*::parse_display\s*\)', 'vx_parse_display()'), (r'\.is_ident\(("\w+")\)', r'.is_ident({ proof { reveal_strlit(\1); } \1 })'),
             (r'(\w+)\.set_display_args\(([^;]*)\)\?;', r'let vx_a: DisplayArgs = \2; let ghost h0 = \1.vw(); \1.set_display_args(vx_a)?; proof { lemma_disp(h0, vx_a, \1.vw()); }'),
             (r'(\w+)\.set_from_str_args\(([^;]*)\);', r'let vx_a: FromStrArgs = \2; let ghost h0 = \1.vw(); \1.set_from_str_args(vx_a); proof { lemma_fs(h0, vx_a, \1.vw()); }')],
       loops=['        invariant it%d.seq().len() == attrs@.len(), forall|i: int| 0 <= i < it%d.seq().len() ==> *(#[trigger] it%d.seq()[i]) == attrs@[i], %s,' % (n, n, n, m) for n, m in
              ((0, 'meaning_d(attrs@, it0.index() as int) == Some(hattrs.vw())'), (1, 'if use_from_str { meaning_f(attrs@, it1.index() as int) == Some(hattrs.vw()) } else { meaning_d(attrs@, attrs@.len() as int) == Some(hattrs.vw()) }'))],
       l_start={n: (DEAD % dict(n=n)).replace('meaning_x', 'meaning_' + x).replace('with_x', 'with_' + x).replace('dead_x', 'dead_' + x).replace('IF', c).replace('DDD', d) for n, x, c, d in
                ((0, 'd', 'true', 'if use_from_str && meaning_d(attrs@, attrs@.len() as int) is None { lemma_dead_f(attrs@, 0, attrs@.len() as int); }'), (1, 'f', 'use_from_str', ''))},
       spec='    ensures match r { Ok(h) => meaning(attrs@, use_from_str) == Some(h.vw()), Err(_) => meaning(attrs@, use_from_str) is None },'),
    Fn('HelperAttributes', 'span_of_from_str_format', spec='    ensures r == (if self.regex is Some { Some(lit_span(self.regex->0)) } else if self.format is Some { Some(self.format->0.span) } else { None }),'),
    # the bounds of FromStr: its own, else those of Display
    Fn('HelperAttributes', 'bound_from_str_resolved', subs=[(r'(self\s*\.\w+)\s*\.clone\(\)\s*\.or_else\(', r'vx_or_else(vx_clone_bounds(&\1), '), (r'(self\s*\.\w+)\s*\.clone\(\)', r'vx_clone_bounds(&\1)'), (r'\|\| (vx_clone_bounds\(&self\.bound_\w+\))', r'|| -> (q: Option<Vec<Bound>>) ensures view(q) == view(self.bound_display) { \1 }')],
       spec='    ensures view(r) == (if self.bound_from_str is Some { view(self.bound_from_str) } else { view(self.bound_display) }),'),
], assumed=['structmeta parses the arguments (DisplayArgs, FromStrArgs are taken as given)', 'Quotable::into_iter yields its items (proved in unit syntax); Option::get_or_insert; clones are equal (assumed contracts)'])
