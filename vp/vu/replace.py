"""The captures of a user's regex, replaced one by one; the text between them stays."""
from vx import *
from vu.common import *

PRE = '''
#[verifier::external_body] pub struct Regex { x: u8 }
#[verifier::external_body] pub struct Captures { x: u8 }
#[verifier::external_body] pub struct Match { x: u8 }
// the matches of a regex in a text, from left to right, without overlaps; positions are in characters
pub uninterp spec fn matches(re: Regex, text: Seq<char>) -> Seq<Captures>;
impl Captures { pub uninterp spec fn lo(&self) -> int; pub uninterp spec fn hi(&self) -> int; #[verifier::external_body] pub fn vx_whole(&self) -> (r: Match) ensures r.lo() == self.lo(), r.hi() == self.hi() { unimplemented!() } }
// the character at a position in bytes
pub uninterp spec fn at(byte: usize) -> int;
impl Match { pub uninterp spec fn lo(&self) -> int; pub uninterp spec fn hi(&self) -> int;
    #[verifier::external_body] pub fn start(&self) -> (r: usize) ensures at(r) == self.lo() { unimplemented!() }
    #[verifier::external_body] pub fn end(&self) -> (r: usize) ensures at(r) == self.hi() { unimplemented!() }
}
pub open spec fn ordered(m: Seq<Captures>, text: Seq<char>) -> bool { forall|i: int| 0 <= i < m.len() ==> 0 <= #[trigger] m[i].lo() <= m[i].hi() <= text.len() && (i > 0 ==> m[i - 1].hi() <= m[i].lo()) }
#[verifier::external_body] pub fn vx_matches(re: &Regex, text: &str) -> (r: Vec<Captures>) ensures r@ == matches(*re, text@), ordered(r@, text@) { unimplemented!() }
#[verifier::external_body] pub fn vx_slice(s: &str, a: usize, b: usize) -> (r: &str) requires 0 <= at(a) <= at(b) <= s@.len() ensures r@ == s@.subrange(at(a), at(b)) { unimplemented!() }
#[verifier::external_body] pub fn vx_rest(s: &str, a: usize) -> (r: &str) requires 0 <= at(a) <= s@.len() ensures r@ == s@.skip(at(a)) { unimplemented!() }
#[verifier::external_body] pub fn vx_push(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
#[verifier::external_body] proof fn axiom_start() ensures at(0) == 0 { }
pub open spec fn last(m: Seq<Captures>) -> int { if m.len() == 0 { 0 } else { m.last().hi() } }
// the text up to the end of the last match, every match replaced
pub open spec fn weave(text: Seq<char>, m: Seq<Captures>, v: Seq<Seq<char>>) -> Seq<char> decreases m.len() { if m.len() == 0 { Seq::empty() } else { weave(text, m.drop_last(), v.drop_last()) + text.subrange(last(m.drop_last()), m.last().lo()) + v.last() } }
pub open spec fn is_reply<E, F: Fn(&Captures) -> Result<String, E>>(f: F, c: Captures, v: Seq<char>) -> bool { exists|x: String| #[trigger] call_ensures(f, (&c,), Ok(x)) && x@ == v }
pub open spec fn replies<E, F: Fn(&Captures) -> Result<String, E>>(f: F, m: Seq<Captures>, v: Seq<Seq<char>>) -> bool { v.len() == m.len() && forall|i: int| 0 <= i < m.len() ==> is_reply(f, #[trigger] m[i], v[i]) }
'''
UNIT = Unit('replace', PRE, [
    Fn('', 'try_replace_all', crate='derive', head='#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)]',
       sig=[(r'<R: AsRef<str>, E>', '<E, F: Fn(&Captures) -> Result<String, E>>'), (r'mut (\w+): impl FnMut\(&Captures\) -> Result<R, E>', r'\1: F')],
       subs=[(r'for (\w+) in it0:\s*(\w+)\.captures_iter\((\w+)\)', r'let vx_ms = vx_matches(\2, \3); for \1 in it0: vx_ms'), (r'(\w+)\.get\(0\)\.unwrap\(\)', r'\1.vx_whole()'),
             (r'&(\w+)\[(\w+)\.\.\s*(\w+)\.start\(\)\]', r'vx_slice(\1, \2, \3.start())'), (r'&(\w+)\[(\w+)\.\.\]', r'vx_rest(\1, \2)'), (r'\.as_ref\(\)', '.as_str()'), (r'\bs\.push_str\(', 'vx_push(&mut s, ')],
       start='    let ghost mut vs = Seq::<Seq<char>>::empty(); let ghost ms = matches(*regex, text@); proof { axiom_start(); assert(ms.take(0) =~= Seq::<Captures>::empty()); }',
       loops=['''        invariant it0.seq() == ms, vs.len() == it0.index(), replies(replacer, ms.take(it0.index() as int), vs), s@ == weave(text@, ms.take(it0.index() as int), vs), at(last_end) == last(ms.take(it0.index() as int)),
'''],
       l_start={0: ''' let ghost i = it0.index() as int; let ghost c0 = c; proof { assert(ms.take(i + 1).drop_last() =~= ms.take(i)); assert(ms.take(i + 1).last() == c0); if i > 0 { assert(ms.take(i).last() == ms[i - 1]); } } let ghost s0 = s@;
'''},
       l_end={0: ''' proof { let t = s@.skip((s0 + text@.subrange(last(ms.take(i)), c0.lo())).len() as int); let v1 = vs.push(t); assert(s@ =~= s0 + text@.subrange(last(ms.take(i)), c0.lo()) + t); assert(v1.drop_last() =~= vs); let a = s0 + text@.subrange(last(ms.take(i)), c0.lo()); assert forall|x: Seq<char>| (#[trigger] (a + x)).skip(a.len() as int) == x by { assert((a + x).skip(a.len() as int) =~= x); } assert(is_reply(replacer, c0, t));
            assert forall|j: int| 0 <= j < i + 1 implies is_reply(replacer, #[trigger] ms.take(i + 1)[j], v1[j]) by { if j < i { assert(ms.take(i)[j] == ms.take(i + 1)[j]); } } vs = v1; }
'''},
       l_after={0: ' proof { assert(ms.take(ms.len() as int) =~= ms); }\n'},
       spec='''    requires forall|c: &Captures| call_requires(replacer, (c,)),
    ensures ({ let ms = matches(*regex, text@); match r {
            Ok(s) => exists|v: Seq<Seq<char>>| #[trigger] replies(replacer, ms, v) && s@ == weave(text@, ms, v) + text@.skip(last(ms)),
            Err(e) => exists|i: int| 0 <= i < ms.len() && #[trigger] call_ensures(replacer, (&ms[i],), Err::<String, E>(e)) } }),'''),
], assumed=['Regex::captures_iter: its matches do not overlap and come from left to right', 'slices of a text by positions of matches (assumed contract)', 'the replacer is called through Fn instead of FnMut, and its text is a String'])
