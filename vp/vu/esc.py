from vx import *
from vu.common import *
from vu.format import SPLIT

PRE = STR_X + SPLIT + '''
pub open spec fn esc1(c: char) -> Seq<char> { if c == '{' { seq!['{', '{'] } else if c == '}' { seq!['}', '}'] } else { seq![c] } }
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { esc(s.drop_last()) + esc1(s.last()) } }
'''
POST = '''
// ---- what is escaped is a format whose only meaning is the text itself
proof fn lemma_front(s: Seq<char>)
    requires s.len() > 0
    ensures esc(s) == esc1(s[0]) + esc(s.skip(1))
    decreases s.len()
{
    if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); assert(s.skip(1) =~= Seq::empty()); assert(esc(s) =~= esc1(s[0]) + esc(s.skip(1))); }
    else {
        lemma_front(s.drop_last());
        assert(s.drop_last().skip(1) =~= s.skip(1).drop_last());
        assert(esc(s) =~= esc1(s[0]) + esc(s.skip(1)));
    }
}
proof fn lemma_runs(s: Seq<char>)
    ensures run_len(esc(s)) == run_len(s), 0 <= run_len(s) <= s.len(), run_len(s) <= esc(s).len(), esc(s).take(run_len(s)) == s.take(run_len(s)), esc(s).skip(run_len(s)) == esc(s.skip(run_len(s)))
    decreases s.len()
{
    let n = run_len(s);
    if s.len() == 0 { assert(esc(s) =~= s); assert(s.skip(0) =~= s); assert(esc(s).skip(0) =~= esc(s)); assert(esc(s).take(0) =~= s.take(0)); }
    else if brace(s[0]) { lemma_front(s); assert(brace(esc(s)[0])); assert(s.skip(0) =~= s); assert(esc(s).skip(0) =~= esc(s)); assert(esc(s).take(0) =~= s.take(0)); }
    else {
        let t = s.skip(1);
        lemma_front(s); lemma_runs(t);
        assert(esc(s).skip(1) =~= esc(t));
        assert(esc(s)[0] == s[0]);
        assert forall|i: int| 0 <= i < n implies #[trigger] esc(s).take(n)[i] == s.take(n)[i] by { if i > 0 { assert(esc(t).take(n - 1)[i - 1] == t.take(n - 1)[i - 1]); } }
        assert(esc(s).take(n) =~= s.take(n));
        assert(esc(s).skip(n) =~= esc(t).skip(n - 1));
        assert(s.skip(n) =~= t.skip(n - 1));
    }
}
proof fn lemma_unesc_front(p: Part, v: Seq<Part>)
    ensures unesc(seq![p] + v) == (match (unesc1(p), unesc(v)) { (Some(a), Some(b)) => Some(a + b), _ => None })
    decreases v.len()
{
    let w = seq![p] + v;
    if v.len() == 0 {
        assert(w.drop_last() =~= Seq::<Part>::empty()); assert(w.last() == p); assert(unesc(w.drop_last()) == Some(Seq::<char>::empty())); assert(unesc(v) == Some(Seq::<char>::empty()));
        if let Some(a) = unesc1(p) { assert(Seq::<char>::empty() + a =~= a + Seq::<char>::empty()); }
    } else {
        lemma_unesc_front(p, v.drop_last());
        assert(w.drop_last() =~= seq![p] + v.drop_last()); assert(w.last() == v.last());
        if let (Some(a), Some(b), Some(c)) = (unesc1(p), unesc(v.drop_last()), unesc1(v.last())) { assert((a + b) + c =~= a + (b + c)); }
    }
}
proof fn lemma_text_format(s: Seq<char>)
    ensures split(esc(s)) is Some, unesc(split(esc(s))->0) == Some(s)
    decreases s.len()
{
    let e = esc(s);
    if s.len() == 0 { assert(s =~= Seq::<char>::empty()); }
    else {
        lemma_front(s); lemma_runs(s); lemma_len(s.skip(1)); lemma_len(e);
        let n = if brace(s[0]) { 1 } else { run_len(s) };
        let p = if s[0] == '{' { Part::Open } else if s[0] == '}' { Part::Close } else { Part::Lit(s.take(n)) };
        let m = if brace(s[0]) { 2 } else { n };
        if brace(s[0]) { assert(e.skip(2) =~= esc(s.skip(1))); assert(dbl(e, s[0])); } else { assert(e[0] == s[0]); assert(n > 0); assert(run_len(e) == n); }
        lemma_text_format(s.skip(n));
        let rest = split(esc(s.skip(n)))->0;
        assert(e.skip(m) == esc(s.skip(n)));
        assert(split(e) == Some(seq![p] + rest));
        lemma_unesc_front(p, rest);
        assert(unesc1(p)->0 =~= s.take(n));
        assert(s.take(n) + s.skip(n) =~= s);
    }
}
'''
UNIT = Unit('esc', PRE, [
    Fn('', 'escape_fmt', head='    #[verifier::loop_isolation(false)]', spec='    ensures r@ == esc(s@),',
       start='    proof { reveal_strlit("{{"); reveal_strlit("}}"); assert("{{"@ =~= seq![\'{\', \'{\']); assert("}}"@ =~= seq![\'}\', \'}\']); }\n',
       loops=['        invariant it0.seq() == s@, out@ == esc(s@.take(it0.index() as int)),'],
       l_start={0: '\n        proof { assert(s@.take(it0.index() as int + 1).drop_last() == s@.take(it0.index() as int)); }\n'},
       l_after={0: '\n        proof { assert(s@.take(s@.len() as int) == s@); }\n'}),
], post=POST, assumed=[])
