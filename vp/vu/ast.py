"""Edits of regex syntax trees: the captures that are expanded, replaced and dropped."""
from vx import *
from vu.common import *

PRE = '''
// ---- regex_syntax::ast, as far as the code looks into it
#[derive(Clone, Copy)] pub struct Span { pub x: u8 }
pub struct FlagsItem { pub x: u8 }
pub struct Flags { pub span: Span, pub items: Vec<FlagsItem> }
pub struct CaptureName { pub span: Span, pub name: String, pub index: u32 }
pub enum GroupKind { CaptureIndex(u32), CaptureName { starts_with_p: bool, name: CaptureName }, NonCapturing(Flags) }
pub struct Group { pub span: Span, pub kind: GroupKind, pub ast: Box<Ast> }
pub struct RepetitionOp { pub x: u8 }
pub struct Repetition { pub span: Span, pub op: RepetitionOp, pub greedy: bool, pub ast: Box<Ast> }
pub struct Alternation { pub span: Span, pub asts: Vec<Ast> }
pub struct Concat { pub span: Span, pub asts: Vec<Ast> }
pub struct Leaf { pub x: u8 }
pub enum Ast {
    Empty(Box<Leaf>), Flags(Box<Leaf>), Literal(Box<Leaf>), Dot(Box<Leaf>), Assertion(Box<Leaf>), ClassUnicode(Box<Leaf>), ClassPerl(Box<Leaf>), ClassBracketed(Box<Leaf>),
    Repetition(Box<Repetition>), Group(Box<Group>), Alternation(Box<Alternation>), Concat(Box<Concat>),
}
// ---- what such a tree means
pub enum Kind { Index, Name(Seq<char>), Plain(Seq<FlagsItem>) }
pub enum Tree { Leaf(Ast), Rep(RepetitionOp, bool, Box<Tree>), Group(Kind, Box<Tree>), Alt(Seq<Tree>), Concat(Seq<Tree>) }
pub open spec fn kind(k: GroupKind) -> Kind { match k { GroupKind::CaptureIndex(_) => Kind::Index, GroupKind::CaptureName { name, .. } => Kind::Name(name.name@), GroupKind::NonCapturing(f) => Kind::Plain(f.items@) } }
pub open spec fn tree(a: Ast) -> Tree decreases a { match a {
    Ast::Repetition(r) => Tree::Rep(r.op, r.greedy, Box::new(tree(*r.ast))), Ast::Group(g) => Tree::Group(kind(g.kind), Box::new(tree(*g.ast))),
    Ast::Alternation(c) => Tree::Alt(trees(c.asts@)), Ast::Concat(c) => Tree::Concat(trees(c.asts@)), _ => Tree::Leaf(a) } }
pub open spec fn trees(s: Seq<Ast>) -> Seq<Tree> decreases s { if s.len() == 0 { Seq::empty() } else { trees(s.drop_last()).push(tree(s.last())) } }
proof fn lemma_trees(s: Seq<Ast>) ensures trees(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] trees(s)[i] == tree(s[i]) decreases s.len()
{
    if s.len() > 0 { lemma_trees(s.drop_last()); assert forall|i: int| 0 <= i < s.len() implies #[trigger] trees(s)[i] == tree(s[i]) by { if i < s.len() - 1 { assert(trees(s.drop_last())[i] == tree(s.drop_last()[i])); } } }
}
pub open spec fn ht(t: Tree) -> nat decreases t { match t { Tree::Leaf(_) => 0, Tree::Rep(_, _, b) => 1 + ht(*b), Tree::Group(_, b) => 1 + ht(*b), Tree::Alt(c) => 1 + hts(c), Tree::Concat(c) => 1 + hts(c) } }
pub open spec fn hts(s: Seq<Tree>) -> nat decreases s { if s.len() == 0 { 0 } else { let x = ht(s.last()); let y = hts(s.drop_last()); if x < y { y } else { x } } }
proof fn lemma_hts(s: Seq<Tree>) ensures forall|i: int| 0 <= i < s.len() ==> ht(#[trigger] s[i]) <= hts(s) decreases s.len()
{
    if s.len() > 0 { lemma_hts(s.drop_last()); assert forall|i: int| 0 <= i < s.len() implies ht(#[trigger] s[i]) <= hts(s) by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } } }
}
// ---- an edit: what becomes of one node, and whether to go on with its children
pub type Step = spec_fn(Tree) -> (Tree, bool);
pub open spec fn flat(g: Step) -> bool { forall|t: Tree| (#[trigger] g(t)).1 ==> ht(g(t).0) <= ht(t) }
pub open spec fn edited(g: Step, t: Tree) -> Tree decreases ht(t), 1int, 0nat {
    let (b, go) = g(t);
    if !go || ht(b) > ht(t) { b } else { match b {
        Tree::Rep(op, greedy, c) => Tree::Rep(op, greedy, Box::new(edited(g, *c))), Tree::Group(k, c) => Tree::Group(k, Box::new(edited(g, *c))),
        Tree::Alt(c) => Tree::Alt(edited_all(g, c, ht(t))), Tree::Concat(c) => Tree::Concat(edited_all(g, c, ht(t))), Tree::Leaf(_) => b } }
}
// (h only bounds the height)
pub open spec fn edited_all(g: Step, s: Seq<Tree>, h: nat) -> Seq<Tree> decreases h, 0int, s.len() {
    if s.len() == 0 { Seq::empty() } else { edited_all(g, s.drop_last(), h).push(if ht(s.last()) < h { edited(g, s.last()) } else { s.last() }) }
}
proof fn lemma_all(g: Step, s: Seq<Tree>, h: nat) requires h > hts(s) ensures edited_all(g, s, h).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] edited_all(g, s, h)[i] == edited(g, s[i]) decreases s.len()
{
    if s.len() > 0 { lemma_hts(s); lemma_all(g, s.drop_last(), h); assert forall|i: int| 0 <= i < s.len() implies #[trigger] edited_all(g, s, h)[i] == edited(g, s[i]) by { if i < s.len() - 1 { assert(edited_all(g, s.drop_last(), h)[i] == edited(g, s.drop_last()[i])); } } }
}
#[verifier::prophetic] pub open spec fn does<F: FnMut(&mut Ast) -> bool>(f: F, g: Step) -> bool { (forall|a: &mut Ast| call_requires(f, (a,))) && (forall|a: &mut Ast, r: bool| call_ensures(f, (a,), r) ==> (tree(*final(a)), r) == g(tree(*a))) }
// ---- an edit that may refuse a node
pub type ReplaceAstResult<T> = Result<T, String>;
#[verifier::prophetic] pub open spec fn does_or<F: FnMut(&mut Ast) -> Result<bool, String>>(f: F, g: Step, bad: spec_fn(Tree) -> bool) -> bool { (forall|a: &mut Ast| call_requires(f, (a,)))
    && (forall|a: &mut Ast, r: Result<bool, String>| call_ensures(f, (a,), r) ==> match r { Ok(go) => !bad(tree(*a)) && (tree(*final(a)), go) == g(tree(*a)), Err(_) => bad(tree(*a)) }) }
// no node is refused
pub open spec fn fine(g: Step, bad: spec_fn(Tree) -> bool, t: Tree) -> bool decreases ht(t), 1int, 0nat {
    let (b, go) = g(t);
    !bad(t) && (!go || ht(b) > ht(t) || match b { Tree::Rep(_, _, c) => fine(g, bad, *c), Tree::Group(_, c) => fine(g, bad, *c), Tree::Alt(c) => all_fine(g, bad, c, ht(t)), Tree::Concat(c) => all_fine(g, bad, c, ht(t)), Tree::Leaf(_) => true })
}
pub open spec fn all_fine(g: Step, bad: spec_fn(Tree) -> bool, s: Seq<Tree>, h: nat) -> bool decreases h, 0int, s.len() {
    s.len() == 0 || all_fine(g, bad, s.drop_last(), h) && (ht(s.last()) < h ==> fine(g, bad, s.last()))
}
proof fn lemma_all_fine(g: Step, bad: spec_fn(Tree) -> bool, s: Seq<Tree>, h: nat) requires h > hts(s) ensures all_fine(g, bad, s, h) == (forall|i: int| 0 <= i < s.len() ==> fine(g, bad, #[trigger] s[i])) decreases s.len()
{
    if s.len() > 0 { lemma_hts(s); lemma_all_fine(g, bad, s.drop_last(), h); assert(fine(g, bad, s.last()) == fine(g, bad, s[s.len() - 1]));
        assert forall|i: int| 0 <= i < s.len() - 1 implies s.drop_last()[i] == #[trigger] s[i] by { } 
        if all_fine(g, bad, s, h) { assert forall|i: int| 0 <= i < s.len() implies fine(g, bad, #[trigger] s[i]) by { if i < s.len() - 1 { assert(fine(g, bad, s.drop_last()[i])); } } }
        if forall|i: int| 0 <= i < s.len() ==> fine(g, bad, #[trigger] s[i]) { assert forall|i: int| 0 <= i < s.len() - 1 implies fine(g, bad, #[trigger] s.drop_last()[i]) by { assert(fine(g, bad, s[i])); } } }
}
proof fn lemma_each_fine(g: Step, bad: spec_fn(Tree) -> bool, s: Seq<Ast>, h: nat) requires h > hts(trees(s)) ensures all_fine(g, bad, trees(s), h) == (forall|i: int| 0 <= i < s.len() ==> fine(g, bad, tree(#[trigger] s[i])))
{
    lemma_trees(s); lemma_all_fine(g, bad, trees(s), h);
    if all_fine(g, bad, trees(s), h) { assert forall|i: int| 0 <= i < s.len() implies fine(g, bad, tree(#[trigger] s[i])) by { assert(fine(g, bad, trees(s)[i])); } }
    else { let i = choose|i: int| 0 <= i < trees(s).len() && !fine(g, bad, #[trigger] trees(s)[i]); assert(!fine(g, bad, tree(s[i]))); }
}
// ---- what regex_syntax does
pub uninterp spec fn parsed(s: Seq<char>) -> Tree;
pub uninterp spec fn escaped(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn hir_of(t: Tree) -> Hir;
pub uninterp spec fn printed(t: Tree) -> Seq<char>;
#[verifier::external_body] pub struct Hir { x: u8 }
// fails (panics) on what is no regex
#[verifier::external_body] pub fn vx_parse(s: &str) -> (r: Ast) ensures tree(r) == parsed(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_escape(s: &str) -> (r: String) ensures r@ == escaped(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_print(a: &Ast) -> (r: String) ensures r@ == printed(tree(*a)) { unimplemented!() }
// the text is only for its errors
#[verifier::external_body] pub fn vx_translate(s: &str, a: &Ast) -> (r: Hir) ensures r == hir_of(tree(*a)) { unimplemented!() }
#[verifier::external_body] pub fn vx_same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
// ---- the group of a name is replaced by a tree
pub type Names = spec_fn(Seq<char>) -> Option<Tree>;
pub open spec fn opt_tree(a: Option<Ast>) -> Option<Tree> { match a { Some(a) => Some(tree(a)), None => None } }
pub open spec fn finds<F: Fn(&str) -> Option<Ast>>(f: F, m: Names) -> bool { (forall|s: &str| call_requires(f, (s,))) && (forall|s: &str, r: Option<Ast>| call_ensures(f, (s,), r) ==> opt_tree(r) == m(s@)) }
pub open spec fn expand(m: Names) -> Step { |t: Tree| match t { Tree::Group(Kind::Name(n), _) => match m(n) { Some(x) => (x, false), None => (t, true) }, _ => (t, true) } }
pub open spec fn only(n: Seq<char>, t: Tree) -> Names { |x: Seq<char>| if x == n { Some(t) } else { None } }
// ---- the patterns of formats and captures
#[verifier::external_body] pub struct Regex { x: u8 }
pub uninterp spec fn regex_of(s: Seq<char>) -> Regex;
// fails (panics) on what is no regex
#[verifier::external_body] pub fn vx_regex(s: &String) -> (r: Regex) ensures r == regex_of(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_msg() -> (r: String) { unimplemented!() }
#[verifier::external_body] pub fn vx_panic() ensures false { unimplemented!() }
pub fn vx_unwrap(r: Result<(), String>) requires r is Ok { }
#[verifier::external_body] pub fn vx_take(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_clone(a: &Ast) -> (r: Ast) ensures tree(r) == tree(*a) { unimplemented!() }
pub open spec fn is_named() -> spec_fn(Tree) -> bool { |t: Tree| t matches Tree::Group(Kind::Name(_), _) }
pub open spec fn never() -> spec_fn(Tree) -> bool { |t: Tree| false }
pub open spec fn uncapture() -> Step { |t: Tree| match t { Tree::Group(Kind::Index, c) => (Tree::Group(Kind::Plain(Seq::empty()), c), true), _ => (t, true) } }
pub open spec fn unname() -> Step { |t: Tree| match t { Tree::Group(Kind::Name(_), c) => (Tree::Group(Kind::Plain(Seq::empty()), c), true), _ => (t, true) } }
pub open spec fn fill(m: Map<Seq<char>, Tree>) -> Step { |t: Tree| match t { Tree::Group(Kind::Name(n), _) => if m.dom().contains(n) { (Tree::Group(Kind::Name(n), Box::new(m[n])), false) } else { (t, true) }, _ => (t, true) } }
#[verifier::external_body] pub struct AstMap<'a> { x: &'a u8 }
impl<'a> AstMap<'a> {
    pub uninterp spec fn m(&self) -> Map<Seq<char>, Tree>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.m() == Map::<Seq<char>, Tree>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: &str, a: &'a Ast) ensures final(self).m() == old(self).m().insert(k@, tree(*a)) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &String) -> (r: Option<&'a Ast>) ensures match r { Some(a) => self.m().dom().contains(k@) && tree(*a) == self.m()[k@], None => !self.m().dom().contains(k@) } { unimplemented!() }
}
pub type Item<'a> = (&'a str, Option<(String, Ast)>);
// the pattern a capture is given, the last one if there are several
pub open spec fn given(w: Seq<Item>) -> Map<Seq<char>, Tree> decreases w.len() { if w.len() == 0 { Map::empty() } else { match w.last().1 { Some(p) => given(w.drop_last()).insert(w.last().0@, tree(p.1)), None => given(w.drop_last()) } } }
pub open spec fn pat_of(w: Item) -> Option<Seq<char>> { match w.1 { Some(p) => Some(p.0@), None => None } }
pub open spec fn pats(w: Seq<Item>) -> Seq<Option<Seq<char>>> { w.map_values(|x: Item| pat_of(x)) }
pub open spec fn strs(w: Seq<Option<String>>) -> Seq<Option<Seq<char>>> { w.map_values(|x: Option<String>| match x { Some(s) => Some(s@), None => None }) }
pub open spec fn filled(w: Seq<Item>, s: Seq<char>) -> Tree { edited(fill(given(w)), parsed(s)) }
proof fn lemma_never(g: Step, t: Tree) ensures fine(g, never(), t) decreases ht(t), 1int, 0nat
{
    let (b, go) = g(t);
    if go && ht(b) <= ht(t) { match b { Tree::Rep(_, _, c) => lemma_never(g, *c), Tree::Group(_, c) => lemma_never(g, *c), Tree::Alt(c) => lemma_all_never(g, c, ht(t)), Tree::Concat(c) => lemma_all_never(g, c, ht(t)), Tree::Leaf(_) => {} } }
}
proof fn lemma_all_never(g: Step, s: Seq<Tree>, h: nat) ensures all_fine(g, never(), s, h) decreases h, 0int, s.len()
{
    if s.len() > 0 { lemma_all_never(g, s.drop_last(), h); if ht(s.last()) < h { lemma_never(g, s.last()); } }
}
'''
SIG = [(r'f: &mut impl FnMut\(&mut Ast\) -> (bool|ReplaceAstResult<bool>),?\s*\)', r'f: &mut F, Ghost(vx_g): Ghost<Step>)'), (r'(fn \w+)\(', r'\1<F: FnMut(&mut Ast) -> bool>(')]
MID = [(r'match (\w+) \{\s*Ast::Empty', r'let ghost vx_0 = *\1; let ghost vx_1 = tree(vx_0); match \1 { Ast::Empty')]
TAIL = '''proof { let h = ht(tree(*old(ast)));
        assert(vx_g(tree(*old(ast))) == (vx_1, true)); assert(ht(vx_1) <= h);
        match vx_0 { Ast::Alternation(b) => { assert(tree(*ast) == Tree::Alt(edited_all(vx_g, trees(b.asts@), h))); }, Ast::Concat(b) => { assert(tree(*ast) == Tree::Concat(edited_all(vx_g, trees(b.asts@), h))); }, _ => {} }
        assert(tree(*ast) == edited(vx_g, tree(*old(ast)))); }'''
PASS = MID + [(r'(replace_asts?\([^;,]*?), f\)', r'\1, f, Ghost(vx_g))'), (r'for (\w+) in it0:\s*(\w+)\s*(\n[^{]*)\{', r'let vx_n = \2.len(); for vx_k in it0: 0..vx_n \3{ let \1 = &mut \2[vx_k];')]
LEAVES = '''    proof {
        assert forall|s: Seq<Ast>, s2: Seq<Ast>, h: nat| s.len() == s2.len() && h > hts(trees(s)) && (forall|i: int| 0 <= i < s2.len() ==> tree(#[trigger] s2[i]) == edited(vx_g, tree(s[i]))) implies #[trigger] trees(s2) == #[trigger] edited_all(vx_g, trees(s), h) by {
            lemma_trees(s); lemma_trees(s2); lemma_all(vx_g, trees(s), h); assert(trees(s2) =~= edited_all(vx_g, trees(s), h)); }
    }
'''
PARSE = (r'regex_syntax::ast::parse::Parser::new\(\)\s*\.parse\((.*?)\)\s*\.unwrap\(\)', r'vx_parse(\1)')
CLOSURE = r'&mut |\1: &mut Ast| -> (vx_b: bool) ensures (tree(*final(\1)), vx_b) == %s(tree(*old(\1))) {'
CSIG = [(r'f: &mut impl FnMut\(&mut Ast\) -> ReplaceAstResult<bool>,?\s*\)', r'f: &mut F, Ghost(vx_g): Ghost<Step>, Ghost(vx_bad): Ghost<spec_fn(Tree) -> bool>)'), (r'(fn \w+)\(', r'\1<F: FnMut(&mut Ast) -> ReplaceAstResult<bool>>('), (r'-> ReplaceAstResult$', '-> ReplaceAstResult<()>')]
CALL = [(r'\breplace_(asts?)\(([^;,]*?), f\)', r'core_replace_\1(\2, f, Ghost(vx_g), Ghost(vx_bad))')]
CLEAVES = LEAVES.replace('    proof {', '''    proof {
        assert forall|s: Seq<Ast>, h: nat| h > hts(trees(s)) implies #[trigger] all_fine(vx_g, vx_bad, trees(s), h) == (forall|i: int| 0 <= i < s.len() ==> fine(vx_g, vx_bad, tree(#[trigger] s[i]))) by { lemma_each_fine(vx_g, vx_bad, s, h); }''')
CTAIL = '''proof { let h = ht(tree(*old(ast)));
        assert(vx_g(tree(*old(ast))) == (vx_1, true)); assert(ht(vx_1) <= h);
        match vx_0 {
            Ast::Alternation(b) => { assert(vx_r is Ok ==> tree(*ast) == Tree::Alt(edited_all(vx_g, trees(b.asts@), h))); assert(all_fine(vx_g, vx_bad, trees(b.asts@), h) == (vx_r is Ok)); },
            Ast::Concat(b) => { assert(vx_r is Ok ==> tree(*ast) == Tree::Concat(edited_all(vx_g, trees(b.asts@), h))); assert(all_fine(vx_g, vx_bad, trees(b.asts@), h) == (vx_r is Ok)); }, _ => {} }
        assert(vx_r is Ok ==> tree(*ast) == edited(vx_g, tree(*old(ast)))); }'''
COR = r'&mut |\1: &mut Ast| -> (vx_b: ReplaceAstResult<bool>) ensures match vx_b { Ok(vx_go) => (tree(*final(\1)), vx_go) == %s(tree(*old(\1))) && !%s(tree(*old(\1))), Err(_) => %s(tree(*old(\1))) } {'
def cor(step, bad):
    return COR % (step, bad, bad)


NODEC = '#[verifier::exec_allows_no_decreases_clause]'
ITEMS = [
    Fn('', 'replace_asts', crate='derive', sig=SIG, subs=PASS, head=NODEC, start=LEAVES + '    let ghost s0 = asts@;',
       loops=["""        invariant asts@.len() == s0.len(), vx_n == s0.len(), flat(vx_g), does(*f, vx_g), forall|i: int| vx_k <= i < s0.len() ==> #[trigger] asts@[i] == s0[i],
            forall|i: int| 0 <= i < vx_k ==> tree(#[trigger] asts@[i]) == edited(vx_g, tree(s0[i])),
"""],
       spec="""    requires flat(vx_g), does(*old(f), vx_g),
    ensures does(*final(f), vx_g), final(asts)@.len() == old(asts)@.len(), forall|i: int| 0 <= i < final(asts)@.len() ==> tree(#[trigger] final(asts)@[i]) == edited(vx_g, tree(old(asts)@[i])),
        forall|h: nat| h > hts(trees(old(asts)@)) ==> #[trigger] edited_all(vx_g, trees(old(asts)@), h) == trees(final(asts)@),"""),
    Fn('', 'replace_ast', crate='derive', sig=SIG, subs=PASS, head=NODEC, start=LEAVES, tail=TAIL,
       spec="""    requires flat(vx_g), does(*old(f), vx_g),
    ensures does(*final(f), vx_g), tree(*final(ast)) == edited(vx_g, tree(*old(ast))),"""),
    Fn('', 'to_ast', crate='derive', subs=[PARSE], spec='    ensures tree(r) == parsed(s@),'),
    Fn('', 'expand_capture', crate='derive', head=NODEC, sig=[(r'\bast: &mut Ast, mut (\w+): impl FnMut\(&str\) -> Option<Ast>\)', r'ast: &mut Ast, \1: F, Ghost(vx_m): Ghost<Names>)'), (r'(fn \w+)\(', r'\1<F: Fn(&str) -> Option<Ast>>(')],
       subs=[(r'let (\w+) = &mut \1;', ''), (r'use regex_syntax::ast::GroupKind;', ''), (r'&mut \|(\w+)\| \{', CLOSURE % 'expand(vx_m)'), (r'\}\s*\);\s*\}$', '}, Ghost(expand(vx_m)));\n}')],
       spec="""    requires finds(f, vx_m),
    ensures tree(*final(ast)) == edited(expand(vx_m), tree(*old(ast))),"""),
    Fn('', 'to_hir_with_expand', crate='derive', head=NODEC,
       subs=[(r'(?s)expand_capture\((.*?), \|(\w+)\| \{(.*?)\n    \}\);', r'expand_capture(\1, |\2: &str| -> (vx_o: Option<Ast>) ensures opt_tree(vx_o) == only(name@, parsed(escaped(value@)))(\2@) {\3\n    }, Ghost(only(name@, parsed(escaped(value@)))));'),
             (r'&regex_syntax::escape\((\w+)\)', r'vx_escape(\1).as_str()'), (r'\b(\w+) == name\b', r'vx_same(\1, name)'), (r'format!\("\{ast\}"\)', 'vx_print(&ast)'),
             (r'regex_syntax::hir::translate::Translator::new\(\)\s*\.translate\((.*?)\)\s*\.unwrap\(\)', r'vx_translate(\1)')],
       spec='    ensures r == hir_of(edited(expand(only(name@, parsed(escaped(value@)))), parsed(s@))),'),
    Fn('', 'replace_asts', crate='core', rename='core_replace_asts', sig=CSIG, subs=CALL + PASS, head=NODEC, start=CLEAVES + '    let ghost s0 = asts@;',
       loops=["""        invariant asts@.len() == s0.len(), vx_n == s0.len(), s0 == old(asts)@, flat(vx_g), does_or(*f, vx_g, vx_bad), forall|i: int| vx_k <= i < s0.len() ==> #[trigger] asts@[i] == s0[i],
            forall|i: int| 0 <= i < vx_k ==> tree(#[trigger] asts@[i]) == edited(vx_g, tree(s0[i])),
            forall|i: int| 0 <= i < vx_k ==> fine(vx_g, vx_bad, tree(#[trigger] s0[i])),
"""],
       spec="""    requires flat(vx_g), does_or(*old(f), vx_g, vx_bad),
    ensures does_or(*final(f), vx_g, vx_bad), r is Ok ==> final(asts)@.len() == old(asts)@.len() && (forall|i: int| 0 <= i < final(asts)@.len() ==> tree(#[trigger] final(asts)@[i]) == edited(vx_g, tree(old(asts)@[i])))
            && (forall|i: int| 0 <= i < old(asts)@.len() ==> fine(vx_g, vx_bad, tree(#[trigger] old(asts)@[i]))),
        r is Err ==> exists|i: int| 0 <= i < old(asts)@.len() && !fine(vx_g, vx_bad, tree(#[trigger] old(asts)@[i])),
        r is Ok ==> forall|h: nat| h > hts(trees(old(asts)@)) ==> #[trigger] edited_all(vx_g, trees(old(asts)@), h) == trees(final(asts)@),"""),
    Fn('', 'replace_ast', crate='core', rename='core_replace_ast', sig=CSIG, subs=CALL + PASS, head=NODEC, start=CLEAVES, tail=CTAIL,
       spec="""    requires flat(vx_g), does_or(*old(f), vx_g, vx_bad),
    ensures does_or(*final(f), vx_g, vx_bad), r is Ok ==> tree(*final(ast)) == edited(vx_g, tree(*old(ast))), r is Ok <==> fine(vx_g, vx_bad, tree(*old(ast))),"""),
    Fn('', 'ast_from_str', crate='core', head=NODEC,
       subs=[(r'let Ok\(mut (\w+)\) = regex_syntax::ast::parse::Parser::new\(\)\.parse\((\w+)\) else \{\s*panic!\(.*?\)\s*\};', r'let mut \1 = vx_parse(\2);'),
             (r'&mut \|(\w+)\| \{', cor('uncapture()', 'is_named()')), (r'(?s)replace_ast\((.*)\n    \}\);', r'core_replace_ast(\1\n    }, Ghost(uncapture()), Ghost(is_named()));'),
             (r'format!\([^()]*\)', 'vx_msg()'), (r'vec!\[\]', 'Vec::new()'), (r'panic!\("\{e\}"\)', 'vx_panic()')],
       spec="""    ensures tree(r) == edited(uncapture(), parsed(s@)), fine(uncapture(), is_named(), parsed(s@)),"""),
    Ty('Parser', crate='core'),
    Fn('Parser', 'new', crate='core', head=NODEC, sig=[(r'with: &mut \[', 'with: &['), (r'Option<\(String, Ast\)>\)\]', 'Option<(String, Ast)>)]')],
       subs=[(r'HashMap::new\(\)', 'AstMap::new()'), (r'HashMap<&str, &Ast>', 'AstMap'), (r'mem::take\((\w+)\)', r'vx_take(\1)'),
             (r'for \((\w+), (\w+)\) in it0:\s*(\w+)\s*(\n[^{]*)\{', r'let vx_n = \3.len(); for vx_k in it0: 0..vx_n \4{ let \1 = &\3[vx_k].0; let \2 = &\3[vx_k].1;'),
             PARSE, (r'regex_syntax::ast::parse::Parser::new\(\)\.parse\((\w+)\)\.unwrap\(\)', r'vx_parse(\1)'), (r'Regex::new\(&(\w+)\.to_string\(\)\)\.unwrap\(\)', r'vx_regex(&vx_print(&\1))'), (r'(\w+)\.to_string\(\)', r'vx_print(&\1)'),
             (r'(\w+)\.get\((\w+)\.name\.as_str\(\)\)', r'\1.get(&\2.name)'), (r'\(\*(\w+)\)\.clone\(\)', r'vx_clone(\1)'), (r'vec!\[\]', 'Vec::new()'),
             (r'&mut \|(\w+)\| \{', cor('VXSTEP', 'never()')), (r'(?s)replace_ast\((.*?)\n        \}\)\s*\.unwrap\(\);', r'vx_unwrap(core_replace_ast(\1\n        }, Ghost(VXSTEP), Ghost(never())));'),
             (r'(?s)^(.*?)VXSTEP(.*?)VXSTEP', r'\1fill(asts.m())\2fill(asts.m())'), (r'VXSTEP', 'unname()')],
       start='    proof { assert(with@.take(0) =~= Seq::<Item>::empty()); assert(forall|g: Step, t: Tree| #[trigger] fine(g, never(), t)) by { assert forall|g: Step, t: Tree| #[trigger] fine(g, never(), t) by { lemma_never(g, t); } } assert(strs(Seq::empty()) =~= pats(Seq::empty())); }\n',
       loops=["""        invariant vx_n == with@.len(), asts.m() == given(with@.take(vx_k as int)), strs(ss@) == pats(with@.take(vx_k as int)),
"""],
       l_start={0: '''
            let ghost ss0 = ss@;
            proof {
                let w = with@.take(vx_k + 1); assert(w.drop_last() =~= with@.take(vx_k as int)); assert(w.last() == with@[vx_k as int]);
                assert(pats(w) =~= pats(with@.take(vx_k as int)).push(pat_of(with@[vx_k as int])));
                assert forall|x: Option<String>| #[trigger] strs(ss0.push(x)) == strs(ss0).push(match x { Some(s) => Some(s@), None => None }) by { assert(strs(ss0.push(x)) =~= strs(ss0).push(match x { Some(s) => Some(s@), None => None })); }
            }
'''}, l_after={0: ' proof { assert(with@.take(with@.len() as int) =~= with@); }\n'},
       spec="""    ensures r.re == regex_of(printed(filled(with@, s@))), r.re_str@ == printed(edited(unname(), filled(with@, s@))), strs(r.ss@) == pats(with@),"""),
]
POST = '''
// ---- what is left has no capture (of a name): it can stand inside another pattern
pub open spec fn holds(p: spec_fn(Kind) -> bool, t: Tree) -> bool decreases t { match t { Tree::Rep(_, _, c) => holds(p, *c), Tree::Group(k, c) => p(k) || holds(p, *c), Tree::Alt(c) => holds_any(p, c), Tree::Concat(c) => holds_any(p, c), Tree::Leaf(_) => false } }
pub open spec fn holds_any(p: spec_fn(Kind) -> bool, s: Seq<Tree>) -> bool decreases s { s.len() > 0 && (holds(p, s.last()) || holds_any(p, s.drop_last())) }
proof fn lemma_has_any(p: spec_fn(Kind) -> bool, s: Seq<Tree>) ensures holds_any(p, s) == exists|i: int| 0 <= i < s.len() && holds(p, #[trigger] s[i]) decreases s.len()
{
    if s.len() > 0 { lemma_has_any(p, s.drop_last());
        if holds_any(p, s) { if holds(p, s.last()) { assert(holds(p, s[s.len() - 1])); } else { let i = choose|i: int| 0 <= i < s.len() - 1 && holds(p, #[trigger] s.drop_last()[i]); assert(holds(p, s[i])); } }
        if exists|i: int| 0 <= i < s.len() && holds(p, #[trigger] s[i]) { let i = choose|i: int| 0 <= i < s.len() && holds(p, #[trigger] s[i]); if i < s.len() - 1 { assert(holds(p, s.drop_last()[i])); } } }
}
pub open spec fn name_kind() -> spec_fn(Kind) -> bool { |k: Kind| k is Name }
pub open spec fn capture_kind() -> spec_fn(Kind) -> bool { |k: Kind| !(k is Plain) }
proof fn lemma_unnamed(t: Tree) ensures !holds(name_kind(), edited(unname(), t)) decreases ht(t)
{
    match t { Tree::Rep(_, _, c) => lemma_unnamed(*c), Tree::Group(_, c) => lemma_unnamed(*c), Tree::Alt(c) => lemma_all_unnamed(c, ht(t)), Tree::Concat(c) => lemma_all_unnamed(c, ht(t)), Tree::Leaf(_) => {} }
}
proof fn lemma_all_unnamed(s: Seq<Tree>, h: nat) requires h > hts(s) ensures !holds_any(name_kind(), edited_all(unname(), s, h)) decreases h, s.len()
{
    lemma_all(unname(), s, h); lemma_has_any(name_kind(), edited_all(unname(), s, h)); lemma_hts(s);
    assert forall|i: int| 0 <= i < s.len() implies !holds(name_kind(), #[trigger] edited_all(unname(), s, h)[i]) by { assert(ht(s[i]) <= hts(s)); lemma_unnamed(s[i]); }
}
proof fn lemma_uncaptured(t: Tree) requires fine(uncapture(), is_named(), t) ensures !holds(capture_kind(), edited(uncapture(), t)) decreases ht(t)
{
    match t { Tree::Rep(_, _, c) => lemma_uncaptured(*c), Tree::Group(_, c) => lemma_uncaptured(*c), Tree::Alt(c) => lemma_all_uncaptured(c, ht(t)), Tree::Concat(c) => lemma_all_uncaptured(c, ht(t)), Tree::Leaf(_) => {} }
}
proof fn lemma_all_uncaptured(s: Seq<Tree>, h: nat) requires h > hts(s), all_fine(uncapture(), is_named(), s, h) ensures !holds_any(capture_kind(), edited_all(uncapture(), s, h)) decreases h, s.len()
{
    lemma_all(uncapture(), s, h); lemma_has_any(capture_kind(), edited_all(uncapture(), s, h)); lemma_hts(s); lemma_all_fine(uncapture(), is_named(), s, h);
    assert forall|i: int| 0 <= i < s.len() implies !holds(capture_kind(), #[trigger] edited_all(uncapture(), s, h)[i]) by { assert(ht(s[i]) <= hts(s)); lemma_uncaptured(s[i]); }
}
'''
UNIT = Unit('ast', PRE, ITEMS, post=POST, assumed=[
    'regex_syntax::ast: its types are transcribed, with the parts the code looks at; a tree means its nodes, kinds of group and names of captures (spans, capture numbers and the P of (?P<..>) left out)',
    'regex_syntax: parser, printer, escape, Translator and Regex::new are functions of their input (assumed); the ones that are unwrapped may panic',
    'an edit passed as closure also gets its meaning as a ghost argument (erased); `expand_capture` takes its closure by value instead of through `&mut` (it is called only, so no difference)',
    'Parser::new reads `with` instead of emptying it: mem::take is a copy', 'HashMap<&str, &Ast> (assumed: a map by text)'])
