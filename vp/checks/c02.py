"""C02 Every placeholder resolves to the documented source."""
from model import *
import randprog, reject, run
KINDS = {'display'}
RULE = ('one program per resolution rule (struct, tuple, enum, variant and field formats; nested members; raw names; names the generated code '
        'uses itself; self-formatting with another trait; precedence of formats), every field value and writer failure by Kani, plus '
        'programs naming unknown fields that must not compile')


def programs():
    r = []
    a = r.append
    D = 'D'
    # plain names, in any order, raw, and names that generated code could capture
    for names in [('a', 'b'), ('b', 'a'), ('r#type', 'r#fn'), ('f', 'fmt'), ('s', 'v'), ('value', 'self_'), ('_0', '_1'), ('core', 'std'),
                  ('parse_display', 'display'), ('x', 'r#x1'), ('r#match', 'matches'), ('A', 'a'), ('é', 'e'), ('_a', 'a_'), ('r#in', 'out'),
                  ('value_0', 'value_1'), ('Ok', 'Err'), ('Some', 'write'), ('w', 'ff'), ('r#impl', 'implx')]:
        n0, n1 = names
        u0, u1 = unraw(n0), unraw(n1)
        a(P(V('T', [F(n0), F(n1)], fmt='{%s}:{%s}' % (u1, u0)), derive=D, kani=names[0] in ('b', 'r#type', 'f', '_0', 'value')))
        if n0.startswith('r#'):
            a(P(V('T', [F(n0), F(n1)], fmt='{%s}:{%s}' % (u1, n0)), derive=D, kani=False))
        a(P(V(None), variants=[V('X', [F(n0), F(n1)], fmt='{%s}:{%s}' % (u1, u0)), V('Y', [F(n1), F(n0)], fmt='{%s};{%s}' % (u1, u0))], derive=D,
            kani=names[0] in ('r#type', 'f')))
    a(P(V('T', [F('0'), F('1'), F('2')], fmt='{2}{0}{1}'), derive=D))
    a(P(V('T', [F(str(i), 'S') for i in range(11)], fmt='{10}{1}{0}'), derive=D, kani=False))
    a(P(V(None), variants=[V('X', [F('0'), F('1')], fmt='{1}{0}'), V('Y', [F('0'), F('1')], fmt='{0}')], derive=D))
    # nested members
    a(P(V('T', [F('m', 'M'), F('x'), F('y')], fmt='{m.x} {x} {m.y} {y}'), derive=D))
    a(P(V('T', [F('m', 'MM'), F('n', 'MM')], fmt='{m.m.x}{n.m.y}{m.z}{n.z}{n.m.x}'), derive=D))
    a(P(V('T', [F('0', 'MT'), F('1', 'MT')], fmt='{0.1}{1.0}{0.0}{1.1}'), derive=D))
    a(P(V('T', [F('t', '(K, (K, K))')], fmt='{t.0}-{t.1.0}-{t.1.1}'), derive=D, values='pub fn gen(r: &mut R) -> T { T { t: (Gen::gen(r), (Gen::gen(r), Gen::gen(r))) } }'))
    a(P(V('T', [F('t', '((((K, K), K), K), K)')], fmt='{t.0.0.0.0}{t.0.0.0.1}-{t.0.0.1}{t.0.1}{t.1}'), derive=D, kani=False,
        values='pub fn gen(r: &mut R) -> T { T { t: ((((Gen::gen(r), Gen::gen(r)), Gen::gen(r)), Gen::gen(r)), Gen::gen(r)) } }'))
    a(P(V('T', [F(str(i), 'S') for i in range(24)], fmt='{23}{19}{7}{16}{3}{0}'), derive=D, kani=False))
    a(P(V(None), variants=[V('X', [F(str(i), 'S') for i in range(18)], fmt='{17}{16}{1}{0}')], derive=D, kani=False))
    a(P(V('T', [F('m', 'MR')], fmt='{m.type}/{m.a}'), derive=D, kani=False))
    a(P(V('T', [F('r#m', 'MR')], fmt='{m.a}/{m.a:>3}'), derive=D))
    a(P(V(None), variants=[V('X', [F('m', 'M'), F('x')], fmt='{m.x}{x}{m.y}'), V('Y', [F('0', 'MT')], fmt='{0.0}.{0.1}')], derive=D))
    a(P(V(None, fmt='{}'), variants=[V('X'), V('Y', [F('m', 'M')], fmt='{m.y}{m.x}')], derive=D))
    # field formats: {} is the field, {x} its member
    a(P(V('T', [F('a', fmt='<{}>'), F('b', fmt='{}{}')], fmt='{b}{a}'), derive=D))
    a(P(V('T', [F('m', 'M', fmt='({x},{y})'), F('x'), F('y')], fmt='{m}{x}{y}'), derive=D))
    a(P(V('T', [F('m', 'MM', fmt='({m.x},{z},{m.y})'), F('z')], fmt='{m}{z}'), derive=D))
    a(P(V('T', [F('m', 'MT', fmt='({1},{0})')], fmt='{m}'), derive=D))
    a(P(V('T', [F('0', 'MT', fmt='({1},{0})'), F('1')], fmt='{0}{1}'), derive=D))
    a(P(V('T', [F('m', 'M', fmt='({x})')], fmt='{m}{m.y}'), derive=D))     # a deep placeholder does not use the field format
    a(P(V(None), variants=[V('X', [F('x', fmt='[{}]'), F('y')], fmt='{}{x}{y}'), V('Y', [F('m', 'M', fmt='{y}{x}'), F('x')], fmt='{x}{m}')], derive=D))
    a(P(V('T', [F('m', 'Option<M>', opt=True, fmt='({x},{y})'), F('x')], fmt='{m}{x}'), derive=D))
    # formats without placeholders for a field that has a format
    a(P(V('T', [F('a', fmt='x'), F('b')], fmt='{b}{a}'), derive=D))
    # newtype / unit / no format
    a(P(V('T', [F('0')]), derive=D))
    a(P(V('T', [F('a')]), derive=D))
    a(P(V('T', [F('r#type', fmt='<{}>')]), derive=D))
    a(P(V('T', [F('0', fmt='{}!')]), derive=D))
    a(P(V('T', [F('0', 'M', fmt='{y}')]), derive=D))
    a(P(V('T', [F('0', with_='Wa')]), derive=D))
    a(P(V('T', [F('a', 'Option<K>', opt=True)]), derive=D))
    a(P(V(None), variants=[V('A'), V('BcD'), V('r#Type'), V('r#E', fmt='e{}'), V('F', kind='tuple'), V('G', kind='named')][:4], derive=D))
    # enum format, variant format
    a(P(V(None, fmt='<{}>'), variants=[V('A'), V('B', [F('0')]), V('C', [F('x'), F('y')]), V('D', fmt='d'), V('E', [F('x')], fmt='{x}{}')], derive=D))
    a(P(V(None, fmt='{}={0}'), variants=[V('A', [F('0')]), V('B', [F('0'), F('1')]), V('C', [F('0'), F('1')], fmt='{1}')], derive=D))
    a(P(V(None, fmt='{x}:{}', style='snake_case'), variants=[V('AbC', [F('x'), F('y')]), V('DeF', [F('y'), F('x')], style='UPPERCASE')], derive=D))
    a(P(V(None, fmt='{x}'), variants=[V('A', [F('x', fmt='<{}>')]), V('B', [F('x')]), V('C', [F('x', 'M', fmt='{y}')])], derive=D))
    a(P(V(None), variants=[V('A', fmt='{}{}'), V('B', [F('0')], fmt='{}')], derive=D))
    a(P(V(None, fmt='{:>8}|{:<3}|{:^7}'), variants=[V('A'), V('LongName', [F('0')]), V('C', fmt='{:.2}')], derive=D, kani=False))
    # the value's own other trait
    dbg = 'impl ::core::fmt::Debug for T { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str("dbg") } }'
    hexs = ('impl ::core::fmt::LowerHex for T { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str("hex")?; '
            'if f.alternate() { f.write_str("#")?; } Ok(()) } }')
    a(P(V('T', [F('a')], fmt='{:?}'), derive=D, derive_std='PartialEq, Clone', impls=dbg))
    a(P(V('T', [F('a'), F('b')], fmt='{a}={:?}={b}'), derive=D, derive_std='PartialEq, Clone', impls=dbg))
    a(P(V('T', [F('0')], fmt='{:x}{:#x}{0:x}'), derive=D, impls=hexs))
    a(P(V(None), variants=[V('A', fmt='{:?}'), V('B', [F('0')], fmt='{}{:?}{0:?}'), V('C', [F('x')], fmt='{:x}{x}')], derive=D, derive_std='PartialEq, Clone', impls=dbg + hexs))
    a(P(V(None, fmt='{:?}'), variants=[V('A'), V('B', [F('0')])], derive=D, derive_std='PartialEq, Clone', impls=dbg))
    a(P(V('T', [F('a', fmt='{:?}'), F('b', fmt='{:x}')], fmt='{a}{b}'), derive=D))
    # derived Debug natively
    a(P(V('T', [F('a', 'u8'), F('b', 'S')], fmt='{:?}'), derive=D, kani='never'))
    a(P(V(None), variants=[V('A', fmt='{:?}'), V('B', [F('0', 'u8')], fmt='{}{:?}')], derive=D, kani='never'))
    # several self traits
    for i in range(14):
        a(randprog.gen(2000 + i, 'D', feat=('fmt', 'opt', 'deep', 'with'), kani=i < 6))
    return r


def rejects():
    d = '#[derive(parse_display::Display)] '
    f = '#[derive(parse_display::Display, parse_display::FromStr)] '
    l = [
        ('st', d + '#[display("{b}")] struct T { a: K }'), ('tu', d + '#[display("{1}")] struct T(K);'), ('un', d + '#[display("{a}")] struct T;'),
        ('vn', d + 'enum T { #[display("{b}")] A { a: K } }'), ('vt', d + 'enum T { #[display("{1}")] A(K) }'), ('vu', d + 'enum T { #[display("{0}")] A }'),
        ('en', d + '#[display("{x}")] enum T { A { x: K }, B { y: K } }'), ('nm', d + '#[display("{b.x}")] struct T { a: M }'),
        ('ca', d + '#[display("{A}")] struct T { a: K }'), ('nt', d + '#[display("{a}")] struct T(K);'), ('nu', d + '#[display("{0}")] struct T { a: K }'),
        ('f1', f + '#[display("{b}")] struct T { a: K }'), ('deep', d + '#[display("{a.q}")] struct T { a: M }'),
        ('fdeep', d + 'struct T { #[display("{q}")] a: M }'), ('fself', d + 'struct T { #[display("{a}")] a: M }'),
        ('big', d + '#[display("{18446744073709551616}")] struct T(K);'), ('other', d + 'enum T { #[display("{x}")] A { y: K }, B { x: K } }'),
    ]
    return [('c02r_' + i, s, 'the placeholder names no field') for i, s in l]


def run(ck):
    import check
    check.standard(ck, 'C02', check.number('C02', programs()), KINDS)
    reject.check_reject(ck, rejects())
    check.verus(ck, ['keys', 'display', 'dimpl'])
