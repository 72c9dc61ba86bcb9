"""C07 Display then FromStr gives the value back."""
from model import *
import randprog, check
KINDS = {'display', 'from_str', 'regex', 'roundtrip'}
RULE = ('per program: the Display contract and the FromStr contract (both by Kani for every value / matcher outcome) and the normal form of the pattern; '
        'with them the round trip is the lemma that a leftmost-lazy match of a rendered, separated format returns the rendered texts; '
        'natively every generated value is shown and parsed back')

ANYV = '|_| true'


def programs():
    r = []

    def a(p, ok=ANYV):
        p.roundtrip = ok
        r.append(p)
    # K never contains anything but digits and '-'; S is arbitrary and only used last or with a guard
    for fmt in ['{a},{b}', '<{b}|{a}>', '{{{a}}}{b}', '{a} to {b}.', '{b}\n{a}', '{a}::{b}', 'x{a}x{b}', '{a}\\{b}', '[{a}]({b})', '{a}+{b}*', 'é{a}é{b}é', '{a}.{b}']:
        a(P(V('T', [F('a'), F('b')], fmt=fmt), kani=fmt == '{{{a}}}{b}'))
        a(P(V('T', [F('a'), F('b', 'S')], fmt='{a}; {b}' + fmt[-1:].replace('}', '')), kani=False))
    a(P(V('T', [F('0'), F('1'), F('2', 'S')], fmt='{1}/{0}/{2}')))
    a(P(V('T', [F('a', 'S')], fmt='{a}')))
    a(P(V('T', [F('a', 'S')], fmt='({a})'), kani=False))
    a(P(V('T', [F('0', 'S')])))
    a(P(V('T', [F('a', 'S'), F('b', 'S')], fmt='{a}~{b}'), kani=False), "|t| !t.a.0.contains('~')")
    a(P(V('T', [F('a', 'S'), F('b', 'S')], fmt='{a}ab{b}'), kani=False), '|t| !t.a.0.contains("ab") && !t.a.0.ends_with("a")')
    a(P(V('T', [F('a', 'String'), F('b', 'String')], fmt='"{a}" "{b}"'), kani='never'), "|t| !t.a.contains('\"')")
    a(P(V('T', [F('r#type'), F('r#fn')], fmt='{type}={fn}'), kani=False))
    a(P(V('T', [F('s'), F('value'), F('c'), F('f')], fmt='{f} {c} {value} {s}')))
    a(P(V('T', [F('a', fmt='<{}>'), F('b', fmt='[{}]')], fmt='{b}{a}'), kani=False))
    a(P(V('T', [F('m', 'M')], fmt='{m.x},{m.y}', kind='named'), kani=False)) if False else None
    p = P(V('T', [F('m', 'M', default=True), F('z')], fmt='{m.y},{m.x},{z}'))
    a(p)
    a(P(V('T', [F('m', 'M', fmt='({x}|{y})', default=True), F('z')], fmt='{z}{m}')))
    # white space and line ends next to a placeholder, and many pieces
    for fmt in ['{a}\n{b}\n', '\n{a}\r\n{b}', ' {a} \n {b} ', '\t{a}\t{b}\t', 'x\n{b}y\n{a}z\n']:
        a(P(V('T', [F('a'), F('b')], fmt=fmt), kani=False))
    a(P(V(None), variants=[V('A', [F('0'), F('1')], fmt='a\n{0}\n{1}\n'), V('B', [F('x')], fmt='\nb\n{x}'), V('C', fmt='c\n')], kani=False))
    a(P(V('T', [F('abcdefg'[i]) for i in range(7)], fmt='<{a},{b};{c}/{d}|{e}+{f}={g}>'), kani=False))
    a(P(V('T', [F('abcdefg'[i], 'Option<K>', opt=True, fmt='%s={};' % 'abcdefg'[i]) for i in range(7)], fmt='<{a}{b}{c}\n{d}{e}{f}{g}>\n'), kani=False))
    a(P(V('T', [F('abcdefg'[i], regex='-?[0-9]+') for i in range(7)], fmt='{a}, {b}, {c}\n{d}; {e}\n{f}\n\n{g}\n'), kani=False))
    a(P(V('T', [F(str(i), with_='Wp("w-?[0-9]+")') for i in range(6)], fmt='\n{0}{1}x{2}\n{3}y{4}{5}'), kani=False))
    # std types
    a(P(V('T', [F('a', 'u8'), F('b', 'i64'), F('c', 'bool'), F('d', 'i128'), F('e', 'usize')], fmt='{a} {b} {c} {d} {e}'), kani='never'))
    a(P(V('T', [F('a', 'f64'), F('c', 'char'), F('b', 'f64')], fmt='{a} {c} {b}'), kani='never'))
    # enums with non-overlapping formats
    a(P(V(None), variants=[V('A'), V('B'), V('LongName')], kani=False))
    a(P(V(None, style='kebab-case'), variants=[V('FooBar'), V('FooBarBaz'), V('r#Type'), V('X1')], kani=False))
    a(P(V(None, style='Title Case'), variants=[V('FooBar'), V('FooBarBaz', [F('0')], fmt='{}: {0}')]))
    a(P(V(None), variants=[V('A', fmt='x'), V('B', [F('0')], fmt='{0}'), V('C', [F('x'), F('y')], fmt='{y},{x}'), V('D', [F('0', 'S')], fmt='d{0}')]))
    a(P(V(None, fmt='{}={0}'), variants=[V('A', [F('0')]), V('AB', [F('0', 'S')]), V('C', fmt='C')]))
    a(P(V(None, style='UPPERCASE'), variants=[V('Ab', [F('x')], fmt='{}({x})'), V('Ac', [F('x')], fmt='{}({x})'), V('Ad', style='none')], kani=False))
    a(P(V(None), variants=[V('A', [F('0')], fmt='[{0}]'), V('B', [F('0')], fmt='({0})'), V('C', [F('0')], fmt='{{{0}}}'), V('D', fmt='{{}}')], kani=False))
    a(P(V(None), variants=[V('A', [F('0', fmt='a{}')], fmt='{0}'), V('B', [F('0', fmt='b{}')], fmt='{0}')], kani=False))
    # opt
    a(P(V('T', [F('a', 'Option<K>', opt=True)], fmt='{a}'), kani=False))
    a(P(V('T', [F('a', 'Option<K>', opt=True)], fmt='a{a}b')))
    a(P(V('T', [F('a', 'Option<K>', opt=True, fmt='a={}'), F('b', 'Option<K>', opt=True, fmt='b={}')], fmt='{a},{b}')))
    a(P(V('T', [F('a'), F('b', 'Option<K>', opt=True, fmt=', {}')], fmt='{a}{b}')))
    a(P(V('T', [F('a'), F('b', 'Option<S>', opt=True, fmt=':{}')], fmt='{a}{b}'), kani=False))
    a(P(V('T', [F('a', 'Option<S>', opt=True)]), kani=False), '|t| t.a != Some(S(String::new()))')
    a(P(V('T', [F('a', 'Option<S>', opt=True, fmt='{}.'), F('b')], fmt='<{a}>{b}'), kani=False), "|t| t.a.as_ref().map_or(true, |s| !s.0.contains('>'))")
    a(P(V(None), variants=[V('A', [F('0', 'Option<K>', opt=True, fmt=':{}')], fmt='a{0}'), V('B', fmt='b')]))
    a(P(V('T', [F('a', 'Option<K>', opt=True, with_='Wp("w-?[0-9]+")'), F('b', with_='Wa')], fmt='{a};{b}')))
    # with, regex, default, new
    a(P(V('T', [F('a', with_='Wa'), F('b', with_='Wp("w-?[0-9]+")')], fmt='{a}{b}')))
    a(P(V('T', [F('a', regex='-?[0-9]+'), F('b', 'S')], fmt='{a}{b}'), kani=False), "|t| !t.b.0.starts_with(|c: char| c.is_ascii_digit())")
    a(P(V('T', [F('a', infer=True), F('b', 'S')], fmt='{a}:{b}'), kani=False))
    p = P(V('T', [F('a'), F('b')], fmt='{a}-{b}', new='Self { b: b, a: a }', new_plain=True))
    a(p, '|t| t.a.0 >= 0')
    a(P(V('T', [F('0', 'Vec<i32>', with_='delimiter(",")')]), prelude='use parse_display_with::formats::*;', kani='never',
        values='pub fn gen(r: &mut R) -> T { T((0..1 + r.pick(4)).map(|_| i32::gen(r)).collect()) }')) if False else None
    for i in range(28):
        p = randprog.gen(7000 + i, 'DF', feat=('fmt',), kani=i < 2)
        # only digits can be shown by every field
        if any(f.ty == 'S' for v in p.the_variants() for f in v.fields) or p.is_enum:
            continue
        parts = p.vfmt(p.body)
        if all(not (x[0] == 'var' and y[0] == 'var') for x, y in zip(parts, parts[1:])) and not any(x[0] == 'lit' and set(x[1]) & set('0123456789-') for x in parts) \
                and all(len([1 for q in parts if q[0] == 'var' and q[1].split('.')[0] == f.name]) == 1 for f in p.body.fields):
            a(p)
    return [x for x in r if x]


def run(ck):
    check.verus(ck, ['parsefmt', 'defaults', 'builder'])
    progs = check.number('C07', programs())
    check.standard(ck, 'C07', progs, KINDS, kani_kinds={'display', 'from_str'})
