"""C01 Derived Display renders exactly its format."""
from model import *
import randprog, check
KINDS = {'display'}
RULE = ('one program per shape of format (struct/tuple/unit/enum, literals of every kind, escapes, repeated, reordered and nested placeholders, '
        'field formats); per program the Kani contract covers every field outcome and every failing point of the writer; '
        'natively 40+ values x all failing points; non-trivial = distinct texts shown')


def programs():
    r = []
    lits = ['', 'a', 'a b', '{{', '}}', '{{}}', '}}{{', 'x{{y}}z', '{{{{', 'é€😀', 'q"q', "q'q", 'b\\n', 'n\nn', 't\tt', 'r\rr', '%d', '#!', '\\{{',
            '{{0}}', '{{a}}', '$x', '/*', '//', '_', ' ', '  a  ', '\u200b', '\u0301', '~' * 300]
    for i, l in enumerate(lits):
        # the literal before, between and after placeholders, and alone
        k = i % 3 == 0 or i < 8
        long = len(l) > 100
        r.append(P(V('T', [F('a'), F('b')], fmt=l + '{a}' + l + '{b}' + l), derive='D', kani=k and not long))
        if i % 2 == 0:
            r.append(P(V('T', [], fmt=l), derive='D', kani=False))
    two = [F('a'), F('b')]
    for fmt in ['{a}{b}', '{b}{a}', '{a}{a}{a}', '{b}', '{a}-{b}-{a}', '{{{a}}}', '{{{{{a}}}}}', '{a}}}', '{{{b}', '{a}{{b}}{b}']:
        r.append(P(V('T', two, fmt=fmt), derive='D'))
    for fmt in ['{0}{1}', '{1}, {0}', '{0}{0}', 'z', '({1})']:
        r.append(P(V('T', [F('0'), F('1')], fmt=fmt), derive='D'))
    many = [F('a%d' % i, 'S') for i in range(12)]
    r.append(P(V('T', many, fmt=''.join('{a%d},' % i for i in (11, 3, 0, 10, 1, 2, 9, 4, 5, 8, 7, 6))), derive='D', kani=False))
    r.append(P(V('T', many[:6], fmt=''.join('{a%d},' % i for i in (4, 0, 5, 1, 2, 3))), derive='D'))
    r.append(P(V('T', [F(str(i), 'S') for i in range(12)], fmt='|'.join('{%d}' % i for i in (10, 1, 11, 0, 2, 9))), derive='D', kani=False))
    # enums
    r.append(P(V(None), variants=[V('A', [F('0')], fmt='a{0}'), V('B', [F('x'), F('y')], fmt='b {y}{{}} {x}'), V('C', fmt='c c'), V('D')], derive='D'))
    r.append(P(V(None, fmt='<{}>'), variants=[V('A'), V('B', [F('0')]), V('C', [F('x')], fmt='{x}!{}')], derive='D'))
    r.append(P(V(None), variants=[V('A', [F('0'), F('1')], fmt='{1}{0}'), V('B', [F('0'), F('1')], fmt='{0}{1}')], derive='D'))
    r.append(P(V(None), variants=[V('A', [F('x'), F('y')], fmt='{x}'), V('B', [F('x'), F('y')], fmt='{y}'), V('E', fmt='')], derive='D'))
    r.append(P(V(None), variants=[], derive='D', kani=False))
    # field formats
    r.append(P(V('T', [F('a', fmt='<{}>'), F('b', fmt='{{{}}}')], fmt='{a}{b}{a}'), derive='D'))
    r.append(P(V('T', [F('a', fmt='{}{}'), F('b', fmt='lit')], fmt='{b}{a}'), derive='D'))
    r.append(P(V(None), variants=[V('A', [F('0', fmt='[{}]')], fmt='{0};{0}'), V('B', [F('x', fmt='{{'), F('y')], fmt='{x}{y}')], derive='D'))
    r.append(P(V('T', [F('m', 'MM')], fmt='{m.m.x}/{m.z}/{m.m.y}'), derive='D'))
    r.append(P(V('T', [F('a'), F('b', 'Option<K>', opt=True, fmt='({})'), F('c')], fmt='{a}{b}{c}'), derive='D'))
    # with placeholders failing in the middle
    r.append(P(V('T', [F('a'), F('b', with_='Wa'), F('c')], fmt='{a}:{b}:{c}'), derive='D'))
    # generics
    r.append(P(V('T', [F('a', 'X'), F('b', 'K')], fmt='{a}-{b}'), generics='<X>', targs='<K>', derive='D', kani=False,
               values='pub fn gen(r: &mut R) -> T<K> { T { a: Gen::gen(r), b: Gen::gen(r) } }', tags=['generic']))
    for i in range(30):
        r.append(randprog.gen(1000 + i, 'D', kani=i < 10))
    return r


def run(ck):
    check.verus(ck, ['helpers', 'display', 'dimpl'])
    check.standard(ck, 'C01', check.number('C01', programs()), set(KINDS))
