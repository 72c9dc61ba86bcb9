from vx import *
from vu.common import *

PRE = STR_EXT + '''
use std::marker::PhantomData;
pub struct FmtError { pub x: u8 }
pub struct Formatter { pub out: Ghost<Seq<char>> }
pub open spec fn ext(a: Seq<char>, b: Seq<char>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
// what reaches the formatter when a str is written (assumed: fmt::Write)
#[verifier::external_body] pub fn vx_write_str(f: &mut Formatter, s: &str) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(f).out@ == old(f).out@ + s@ { unimplemented!() }
// the formats of the items: any value of the two traits
pub trait DisplayFormat<T> {
    spec fn text(&self, t: T) -> Seq<char>;
    fn write(&self, f: &mut Formatter, value: &T) -> (r: Result<(), FmtError>)
        ensures r is Ok ==> final(f).out@ == old(f).out@ + self.text(*value);
}
pub trait FromStrFormat<T> {
    type Err;
    spec fn parsed(&self, s: Seq<char>) -> Result<T, Self::Err>;
    fn parse(&self, s: &str) -> (r: Result<T, Self::Err>) ensures r == self.parsed(s@);
}
pub uninterp spec fn parts(s: Seq<char>, d: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_body] pub fn vx_split<'a>(s: &'a str, d: &str) -> (r: std::vec::IntoIter<&'a str>)
    ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.remaining().len() == parts(s@, d@).len(),
        forall|i: int| #![trigger r.remaining()[i]] #![trigger parts(s@, d@)[i]] 0 <= i < r.remaining().len() ==> r.remaining()[i]@ == parts(s@, d@)[i] { unimplemented!() }
// the texts with the delimiter between them
pub open spec fn joined(v: Seq<Seq<char>>, d: Seq<char>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { joined(v.drop_last(), d) + d + v.last() }
}
pub open spec fn texts<I, F: DisplayFormat<I>>(fm: F, v: Seq<I>) -> Seq<Seq<char>> { v.map_values(|i: I| fm.text(i)) }
// the first error, or every value
pub open spec fn all_ok<I, E>(v: Seq<Result<I, E>>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Ok }
#[verifier::external_body] pub fn vx_map_collect<A, I, E, G: Fn(A) -> Result<I, E>>(it: std::vec::IntoIter<A>, f: G) -> (r: Result<Vec<I>, E>)
    requires forall|i: int| 0 <= i < it.remaining().len() ==> call_requires(f, (#[trigger] it.remaining()[i],)),
    ensures match r {
        Ok(v) => v@.len() == it.remaining().len() && forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (it.remaining()[i],), Ok::<I, E>(#[trigger] v@[i])),
        Err(e) => exists|k: int| 0 <= k < it.remaining().len() && call_ensures(f, (#[trigger] it.remaining()[k],), Err::<I, E>(e))
            && forall|i: int| 0 <= i < k ==> exists|x: I| #![auto] call_ensures(f, (#[trigger] it.remaining()[i],), Ok::<I, E>(x)),
    } { unimplemented!() }
'''
OWN = "impl<'b, I, F: %s<I>> Join<'b, I, F>"
UNIT = Unit('join', PRE, [
    Ty('Join', crate='with', subs=[(r'I: \?Sized, F = Fmt', 'I, F')], head='#[verifier::reject_recursive_types(I)]'),
    Fn("DisplayFormat<T> for Join<'_, I, F>", 'write', crate='with', head='    #[verifier::loop_isolation(false)]',
       emit_owner=OWN % 'DisplayFormat', sig=[(r'value: &T', 'value: &Vec<I>'), (r'fmt::Result', 'Result<(), FmtError>')],
       subs=[(r'write!\(f, "\{\}", ([\w.]+)\)', r'vx_write_str(f, \1)')],
       spec='''    ensures r is Ok ==> final(f).out@ == old(f).out@ + joined(texts(self.item_format, value@), self.delimiter@),''',
       start='''    let ghost fm = self.item_format;
    let ghost f0 = f.out@;
    proof {
        assert(f0 + joined(Seq::<Seq<char>>::empty(), self.delimiter@) =~= f0);
        if value@.len() == 0 { assert(texts(fm, value@) =~= Seq::<Seq<char>>::empty()); }
        else { assert(texts(fm, value@.take(1)) =~= seq![fm.text(value@[0])]); }
    }
''', l_after={0: '''
            proof { assert(value@.take(value@.len() as int) =~= value@); }
'''},
       loops=['''            invariant
                f.out@ == f0 + joined(texts(fm, value@.take(1 + it0.index())), self.delimiter@),
                value@.len() == it0.seq().len() + 1, forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == value@[i + 1],'''],
       l_start={0: '''
            proof {
                let i = it0.index() as int;
                let a = texts(fm, value@.take(1 + i)); let b = texts(fm, value@.take(2 + i));
                assert(b.drop_last() =~= a);
                assert(b.last() == fm.text(value@[i + 1]));
                assert(f0 + joined(b, self.delimiter@) =~= f0 + joined(a, self.delimiter@) + self.delimiter@ + b.last());
            }
'''}),
    Fn("FromStrFormat<T> for Join<'_, I, F>", 'parse', crate='with', emit_owner=OWN % 'FromStrFormat', sig=[(r'Result<T, Self::Err>', 'Result<Vec<I>, F::Err>')],
       subs=[(r's\s*\.split\(([^()]*)\)', r'vx_split(s, \1)'), (r'(?s)(vx_split\([^()]*\))\s*\.map\((.*)\)\s*\.collect\(\)', r'vx_map_collect(\1, \2)'),
             (r'\|(\w+)\| (self\.item_format\.parse\(\1\))', r'|\1: &str| -> (q: Result<I, F::Err>) ensures q == self.item_format.parsed(\1@) { \2 }')],
       spec='''    ensures match r {
        Ok(v) => v@.len() == parts(s@, self.delimiter@).len() && forall|i: int| 0 <= i < v@.len() ==> self.item_format.parsed(parts(s@, self.delimiter@)[i]) == Ok::<I, F::Err>(#[trigger] v@[i]),
        Err(e) => exists|k: int| 0 <= k < parts(s@, self.delimiter@).len() && (#[trigger] self.item_format.parsed(parts(s@, self.delimiter@)[k])) == Err::<I, F::Err>(e)
            && forall|i: int| 0 <= i < k ==> self.item_format.parsed(#[trigger] parts(s@, self.delimiter@)[i]) is Ok,
    },'''),
    # the constructors
    Ty('Fmt', crate='with'),
    Fn('', 'fmt', crate='with', rename='fmt_', spec='    ensures r == Fmt,'),
    Fn('', 'join', crate='with', sig=[(r'I: \?Sized, F', 'I, F')], spec='    ensures r.item_format == item_format, r.delimiter@ == delimiter@,'),
    Fn('', 'delimiter', crate='with', rename='delimiter_', sig=[(r'I: \?Sized', 'I'), (r"Join<'_, I>", "Join<'_, I, Fmt>")], subs=[(r'\bfmt\(\)', 'fmt_()')], spec='    ensures r.item_format == Fmt, r.delimiter@ == delimiter@,'),
    # closures as formats
    Ty('FnFmtDisplay', crate='with'), Ty('FnFmtFromStr', crate='with'),
    # (a closure that takes a formatter is taken as a value with a method: Verus has no closures on `&mut`)
    Fn("DisplayFormat<T> for FnFmtDisplay<F>", 'write', crate='with', emit_owner="impl<F> FnFmtDisplay<F>", sig=[(r'fn write\(', 'fn write<T>('), (r'fmt::Result', 'Result<(), FmtError> where F: DisplayFormat<T>')],
       subs=[(r'\(self\.0\)\((\w+), (\w+)\)', r'self.0.write(\1, \2)')], spec='    ensures r is Ok ==> final(f).out@ == old(f).out@ + self.0.text(*t),'),
    Fn("FromStrFormat<T> for FnFmtFromStr<F>", 'parse', crate='with', emit_owner="impl<F> FnFmtFromStr<F>", sig=[(r'fn parse\(', 'fn parse<T, E>('), (r'Result<T, E>', 'Result<T, E> where F: Fn(&str) -> Result<T, E>')],
       spec='''    requires call_requires(self.0, (s,)), ensures call_ensures(self.0, (s,), r),'''),
], assumed=['what the two traits of an item format promise is uninterpreted (any item format)', 'str::split with a str (uninterpreted pieces), Iterator::map and collect into a Result (one assumed contract)', 'writing a str to a Formatter', 'Join is verified at T = Vec<I>, F any format'])
