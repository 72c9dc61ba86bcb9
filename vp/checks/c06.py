"""C06 Each field is parsed from its own capture; parse never panics."""
from model import *
import randprog, check
KINDS = {'from_str', 'regex'}
RULE = ('per program Kani proves, for every outcome of the matcher and of each conversion: Ok iff all conversions succeed, each field holds the conversion of its own '
        'group, no panic; the patterns (which group is where) by regex normal form; natively the error names the failing field')


def programs():
    r = []
    a = r.append
    K3 = [F('a'), F('b'), F('c')]
    for fmt in ['{a},{b},{c}', '{c},{b},{a}', '{b};{a};{c}', '{c}-{a}-{b}']:
        a(P(V('T', K3, fmt=fmt), derive='F'))
    a(P(V('T', [F('0'), F('1'), F('2')], fmt='{2}/{0}/{1}'), derive='F'))
    a(P(V('T', [F('a%d' % i) for i in range(7)], fmt=','.join('{a%d}' % i for i in (6, 2, 0, 5, 1, 3, 4))), derive='F', kani=False))
    a(P(V('T', [F('f%d' % i, 'S') for i in range(12)], fmt=','.join('{f%d}' % i for i in (11, 2, 10, 5, 1, 3, 4, 0, 6, 9, 7, 8))), derive='F', kani='never'))
    a(P(V('T', [F(str(i), 'S') for i in range(12)], fmt=','.join('{%d}' % i for i in (11, 2, 10, 5, 1, 3, 4, 0, 6, 9, 7, 8))), derive='F', kani='never'))
    # names in an order different from declaration and alphabet; raw names; names of generated locals
    for names in [('z', 'a', 'm'), ('r#type', 'r#fn', 'x'), ('s', 'c', 'p'), ('c', 'e', 'f'), ('value', 'value_1', 'm'), ('self_', 'this', 'r#match'), ('B', 'a', 'C'), ('v0', 'regex', 're'), ('Parser', 'core', 'parser'), ('value_2', 'value_1', 'value_3')]:
        order = [names[1], names[2], names[0]]
        a(P(V('T', [F(n) for n in names], fmt=','.join('{%s}' % unraw(n) for n in order)), derive='F', kani=names[0] in ('z', 'r#type', 's', 'c')))
        a(P(V(None), variants=[V('X', [F(n, 'S') for n in names], fmt='x' + ','.join('{%s}' % unraw(n) for n in order)), V('Y', [F(n) for n in order], fmt=';'.join('{%s}' % unraw(n) for n in names))], derive='F', kani=names[0] in ('z',)))
    # nested members
    a(P(V('T', [F('m', 'M', default=True), F('x')], fmt='{m.y},{x},{m.x}'), derive='F'))
    a(P(V('T', [F('m', 'MQ', default=True)], fmt='{m.p.x},{m.q.x},{m.q.y},{m.p.y}'), derive='F'))
    a(P(V('T', [F('m', 'MM', default=True), F('n', 'M', default=True)], fmt='{n.y},{m.m.x},{m.z},{n.x}'), derive='F'))
    a(P(V('T', [F('0', 'MT', default=True), F('1')], fmt='{0.1},{1},{0.0}'), derive='F'))
    a(P(V('T', [F('m', 'M', fmt='({x}|{y})', default=True)], fmt='{m}'), derive='F'))
    a(P(V('T', [F('m', 'MM', fmt='({m.x}|{z}|{m.y})', default=True), F('z')], fmt='{m}{z}'), derive='F'))
    # field formats, tuple of formats
    a(P(V('T', [F('a', fmt='<{}>'), F('b', fmt='[{}]'), F('c')], fmt='{c}{b}{a}'), derive='F'))
    a(P(V('T', [F('0', fmt='<{}>'), F('1', fmt='{}!')], fmt='{1}{0}'), derive='F'))
    # user groups between fields must not shift the captures
    a(P(V('T', [F('a', regex='(x|y)?[0-9]+(a)?'), F('b'), F('c', regex='(?<>[0-9]+)(u|v)')], fmt='{a},{b},{c}'), derive='F'))
    a(P(V('T', [F('a', with_='Wp("w([0-9]|(-))+")'), F('b'), F('c', with_='Wp("(w)(-?[0-9]+)")')], fmt='{a},{b},{c}'), derive='F'))
    a(P(V('T', [F('a', 'S', regex='((a)|(b))+'), F('b', 'S')], fmt='{b},{a}'), derive='F'))
    # groups that take no part in the match feed the empty text
    for rx in ['(?<a>[0-9])|(?<b>[a-z]+)', '(?<b>[a-z]+)?(?<a>[0-9])?', '((?<a>[0-9])!)*(?<b>[a-z]+)?']:
        a(P(V('T', [F('a', 'S'), F('b', 'S')], regex=rx), derive='F', kani='never', inputs=['1', 'ab', '', 'x1', '1!', '1!2!', '1!x', '1!x1']))
        a(P(V('T', [F('a'), F('b', 'S')], regex=rx), derive='F', kani='never', inputs=['1', 'ab', '', 'x1', '1!', '1!2!', '1!x', '1!x1']))
        a(P(V(None), variants=[V('X', [F('a'), F('b')], regex=rx), V('Y', [F('a', 'S'), F('b', 'S')], regex=rx), V('Z', [F('0', 'S')], fmt='{0}')], derive='F', kani='never', inputs=['1', 'ab', '', 'x1', '1!', '1!2!', '1!x', '1!x1', '?']))
    for rx in ['(?<m.x>[0-9])|(?<m.y>[0-9]!)', '(?<m.x>[0-9])?(?<b>[a-z]*)']:
        a(P(V('T', [F('m', 'M', default=True), F('b', 'S', default=True)], regex=rx), derive='F', kani='never', inputs=['1', '1!', 'ab', '', '1ab', 'x1']))
        a(P(V(None), variants=[V('X', [F('m', 'M', default=True), F('b', 'S', default=True)], regex=rx), V('Y', [F('0', 'S')], fmt='{0}')], derive='F', kani='never', inputs=['1', '1!', 'ab', '', '1ab', 'x1']))
    # conversions failing in every subset
    a(P(V('T', K3, fmt='{a} {b} {c}'), derive='F', inputs=['1 2 3', 'x 2 3', '1 x 3', '1 2 x', 'x y z', '  ', 'x 2 z', '99999999999 1 1']))
    a(P(V(None), variants=[V('A', [F('a'), F('b')], fmt='{a} {b}'), V('B', [F('a', 'S'), F('b')], fmt='{a} {b}'), V('C', [F('b'), F('a', 'S')], fmt='{b} {a}')], derive='F', inputs=['1 2', 'x 2', '1 x', 'x y', '1 2 3']))
    # std types
    a(P(V('T', [F('a', 'u8'), F('b', 'bool'), F('c', 'char'), F('d', 'f64'), F('e', 'String')], fmt='{a} {b} {c} {d} {e}'), derive='F', kani='never',
        inputs=['255 true c 1.5 x', '256 true c 1 x', '1 True c 1 x', '1 true cc 1 x', '1 true c x x', '1 false \n -inf ', '-1 true c 1 x', '+1 true é 1e5 a b c']))
    a(P(V('T', [F('a', 'Option<K>', opt=True, fmt='<{}>'), F('b')], fmt='{a}{b}'), derive='F'))
    a(P(V('T', [F('a', 'S'), F('b', 'S')], fmt='{a}{b}'), derive='F'))
    a(P(V('T', [F('a', 'S'), F('b')], fmt='{b}{a}'), derive='F'))
    for i in range(30):
        a(randprog.gen(6000 + i, 'F', feat=('fmt', 'deep', 'opt', 'with', 'regex', 'infer'), kani=i < 9))
    return r


def run(ck):
    check.verus(ck, ['capture', 'builder', 'fromcode'])
    check.standard(ck, 'C06', check.number('C06', programs()), set(KINDS))
