from vx import *
from vu.common import *

PRE = '''
// ---- what a piece of the expression matches, as a sequence: characters and other expressions
pub enum Look { Start, End, StartLF, EndLF, StartCRLF, EndCRLF, WordAscii, WordAsciiNegate, WordUnicode, WordUnicodeNegate }
#[verifier::external_body] pub struct Hir { x: u8 }
pub enum Tok { Ch(char), Other(Hir), Look(Look) }
pub uninterp spec fn toks(h: Hir) -> Seq<Tok>;
pub open spec fn chars(s: Seq<char>) -> Seq<Tok> { s.map_values(|c: char| Tok::Ch(c)) }
pub open spec fn flat(v: Seq<Hir>) -> Seq<Tok> decreases v.len() { if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + toks(v.last()) } }
#[verifier::external_body] pub fn vx_literal(s: &str) -> (r: Hir) ensures toks(r) == chars(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_look(l: Look) -> (r: Hir) ensures toks(r) == seq![Tok::Look(l)] { unimplemented!() }
#[verifier::external_body] pub fn vx_extend(v: &mut Vec<Hir>, w: &[Hir]) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
// what a regex of the user means, and how an expression is written
pub uninterp spec fn meaning(re: Seq<char>) -> Hir;
pub uninterp spec fn written(t: Seq<Tok>) -> Seq<char>;
#[verifier::external_body] pub fn vx_parse_hir(s: &str) -> (r: Hir) ensures r == meaning(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_to_vec(v: &[Hir]) -> (r: Vec<Hir>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn vx_concat(v: Vec<Hir>) -> (r: Hir) ensures toks(r) == flat(v@) { unimplemented!() }
impl Hir { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == written(toks(*self)) { unimplemented!() } }
proof fn lemma_flat_push(v: Seq<Hir>, h: Hir) ensures flat(v.push(h)) == flat(v) + toks(h) { assert(v.push(h).drop_last() =~= v); }
proof fn lemma_flat_add(v: Seq<Hir>, w: Seq<Hir>) ensures flat(v + w) == flat(v) + flat(w) decreases w.len()
{
    if w.len() == 0 { assert(v + w =~= v); assert(flat(v) + flat(w) =~= flat(v)); }
    else { lemma_flat_add(v, w.drop_last()); assert((v + w).drop_last() =~= v + w.drop_last()); assert(flat(v + w) =~= flat(v) + flat(w)); }
}
pub open spec fn anchored(r: Seq<Hir>, v: Seq<Hir>) -> bool {
    r.len() == v.len() + 2 && toks(r[0]) == seq![Tok::Look(Look::Start)] && toks(r.last()) == seq![Tok::Look(Look::End)] && r.subrange(1, (v.len() + 1) as int) =~= v
}
// from the start of the text to its end
proof fn lemma_anchored(r: Seq<Hir>, v: Seq<Hir>) requires anchored(r, v) ensures flat(r) == seq![Tok::Look(Look::Start)] + flat(v) + seq![Tok::Look(Look::End)]
{
    let a = seq![r[0]];
    assert(a.drop_last() =~= Seq::<Hir>::empty());
    assert(flat(a.drop_last()) =~= Seq::<Tok>::empty());
    assert(flat(a) =~= toks(r[0]));
    assert(r.drop_last() =~= a + v);
    lemma_flat_add(a, v);
}
impl ParseFormat {
    pub open spec fn toks(&self) -> Seq<Tok> { match self { ParseFormat::Hirs(v) => flat(v@), ParseFormat::String(s) => chars(s@) } }
}
'''
UNIT = Unit('parsefmt', PRE, [
    Ty('ParseFormat'),
    Fn('', 'push_str', rename='vx_push_lit', subs=[(r'Hir::literal\((\w+)\.as_bytes\(\)\)', r'vx_literal(\1)')],
       spec='    ensures flat(final(hirs)@) == flat(old(hirs)@) + chars(s@),', tail='', start='    let ghost h0 = hirs@;\n    proof { assert forall|h: Hir| #[trigger] flat(h0.push(h)) == flat(h0) + toks(h) by { lemma_flat_push(h0, h); } }\n'),
    Fn('', 'hirs_with_start_end', subs=[(r'vec!\[([^;\]]*)\]', r'vx_vec1(\1)'), (r'Hir::look\((?:regex_syntax::hir::)?([\w:]+)\)', r'vx_look(\1)'), (r'(\w+)\.extend\((\w+)\.iter\(\)\.cloned\(\)\)', r'vx_extend(&mut \1, \2)')],
       spec='    ensures anchored(r@, hirs@),'),
    Fn('', 'to_hir', subs=[(r'(?:regex_syntax::)?Parser::new\(\)\s*\.parse\((\w+)\)\s*\.unwrap\(\)', r'vx_parse_hir(\1)')], spec='    ensures r == meaning(s@),'),
    Fn('', 'to_regex_string', subs=[(r'Hir::concat\(', 'vx_concat('), (r'(\w+)\.to_vec\(\)', r'vx_to_vec(\1)')], spec='    ensures r@ == written(flat(hirs@)),'),
    '#[verifier::external_body] pub fn vx_vec1(h: Hir) -> (r: Vec<Hir>) ensures r@ == seq![h] { vec![h] }',
    Fn('ParseFormat', 'new', spec='    ensures r.toks() == Seq::<Tok>::empty(), r is String,', start='    proof { reveal_strlit(""); assert(chars(Seq::<char>::empty()) =~= Seq::<Tok>::empty()); }\n'),
    Fn('Default for ParseFormat', 'default', emit_owner='impl ParseFormat', spec='    ensures r.toks() == Seq::<Tok>::empty(), r is String,'),
    Fn('ParseFormat', 'as_hirs', subs=[(r'vec!\[\]', 'Vec::new()'), (r'\bpush_str\(', 'vx_push_lit('), (r'unreachable!\(\)', 'vstd::pervasive::unreached()')],
       spec='    ensures flat(r@) == old(self).toks(), *final(self) == ParseFormat::Hirs(*final(r)),',
       start='    proof { assert forall|q: Seq<Tok>| #[trigger] (Seq::<Tok>::empty() + q) == q by { assert(Seq::<Tok>::empty() + q =~= q); } }\n'),
    Fn('ParseFormat', 'into_hirs', sig=[(r'mut self', 'self')], start='    let mut vx_self = self;\n', subs=[(r'\bself\b', 'vx_self'), (r'unreachable!\(\)', 'vstd::pervasive::unreached()')], spec='    ensures flat(r@) == self.toks(),'),
    Fn('ParseFormat', 'push_str', subs=[(r'(?<!\.)\bpush_str\(', 'vx_push_lit(')], spec='    ensures final(self).toks() == old(self).toks() + chars(string@),',
       start='    proof { assert forall|a: Seq<char>, b: Seq<char>| #[trigger] chars(a + b) == chars(a) + chars(b) by { assert(chars(a + b) =~= chars(a) + chars(b)); } }\n'),
    Fn('ParseFormat', 'push_hir', spec='    ensures final(self).toks() == old(self).toks() + toks(hir), (*final(self)) is Hirs,',
       start='    proof { assert forall|v: Seq<Hir>, h: Hir| #[trigger] flat(v.push(h)) == flat(v) + toks(h) by { lemma_flat_push(v, h); } }\n'),
], assumed=['Hir::literal, Hir::look, Hir::concat and Vec::extend (assumed contracts: what they match)', 'regex_syntax::Parser::parse, Hir::to_string (functions of their argument)'])
