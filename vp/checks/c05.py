"""C05 Derived FromStr accepts only whole-string matches."""
from model import *
import randprog, check
KINDS = {'from_str', 'regex'}
RULE = ('per program: every pattern the derive builds equals the specified one in regex normal form (so it accepts exactly the format, whole, with '
        'literal text literal, for every string); the acceptance logic around it by Kani; natively accepted/rejected strings near the format; '
        'non-trivial = accepted inputs')
META = ['.', '*', '+', '?', '(', ')', '[', ']', '{{', '}}', '|', '^', '$', '\\', '-', '&&', '~~', '#', ' ', '\n', '\t', '\\d', '\\w', '(?i)', '[a-z]', 'a|b', '^a$', '.*', '(?<x>)',
        '(?:', '\\', '\\n', '\\u{{41}}', '(?s:.*?)', 'é', '😀', '"', "'", '\\z', '\\A', '\\b', '\r\n', '[^', ']]', '{{2}}', '{{2,}}', '(?x) a #c', '\u212a', 'ſ', '\0', '--', '[[:alpha:]]']


def programs():
    r = []
    a = r.append
    for i, m in enumerate(META):
        a(P(V('T', [F('a', 'S')], fmt=m + '{a}'), derive='F', kani=False))
        a(P(V('T', [F('a', 'S'), F('b', 'S')], fmt='x{a}' + m + '{b}' + m), derive='F', kani=False))
        a(P(V(None), variants=[V('A', fmt='l' + m), V('B', [F('0', 'S')], fmt='b' + m + '{0}'), V('C', [F('0', 'S', fmt=m + '{}')], fmt='c{0}'), V('D', fmt=m + m)], derive='F', kani=m in ('.', '{{', 'a|b')))
        if i % 4 == 0:
            a(P(V('T', [F('a', 'S', fmt=m + '{}' + m), F('b', 'Option<S>', opt=True, fmt=m + '{}')], fmt='{a}{b}'), derive='F', kani=False))
            a(P(V('T', [], fmt='s' + m), derive='F', kani=False))
            a(P(V('T', [F('a', 'M')], fmt=m + '{a.x}' + m + '{a.y}', default=False), derive='F', kani=False)) if False else None
    # names used in patterns
    for st in ['Title Case', 'kebab-case', 'snake_case', None, 'TITLE CASE']:
        a(P(V(None, style=st), variants=[V('AbC'), V('DeFg', [F('0', 'S')], fmt='{}:{0}'), V('HiJ', [F('0', 'S')], fmt='{0}.{}'), V('KlM', fmt='<{}>')], derive='F', kani=st == 'Title Case'))
    # whole string only
    for fmt in ['{a}', '{a}{b}', '{a},{b}', 'x{a}y{b}z', '{b}\n{a}', '{a}\n', '\n{a}', '{{{a}}}', '{a}x', 'x{a}', '{a}aa{b}aa']:
        fl = [F('a', 'S'), F('b', 'S')] if '{b}' in fmt else [F('a', 'S')]
        a(P(V('T', fl, fmt=fmt), derive='F', inputs=['', 'x', 'xy', 'xyz', '\n', 'a\nb', '\n\n', 'aa', 'aaaa', 'aaxaa', ',', ',,', '{}', '{a}', '{{}}', 'xx', 'x\n', '\nx'], kani=fmt in ('{a},{b}', '{a}')))
        a(P(V('T', [F(f.name, 'K') for f in fl], fmt=fmt), derive='F', kani=False))
    a(P(V('T', [F('0', 'S')]), derive='F', inputs=['', '\n', 'a\nb', '\\', '(', '[']))
    a(P(V('T', [F('0', 'String')]), derive='F', kani='never'))
    a(P(V('T', [F('0', 'i32'), F('1', 'f64')], fmt='{0} {1}'), derive='F', kani='never'))
    a(P(V(None), variants=[V('A'), V('AB'), V('ABC'), V('abc')], derive='F', inputs=['a', 'A ', ' A', 'A\n', 'ABCD', 'Abc', 'B']))
    a(P(V(None), variants=[V('A', [F('0', 'S')], fmt='a{0}'), V('B', [F('0', 'S')], fmt='a{0}b'), V('C', fmt='ab')], derive='F'))
    a(P(V(None), variants=[V('A.B'.replace('.', 'x'), fmt='A.B'), V('C', fmt='C|D'), V('D', [F('0', 'S')], fmt='(?:{0})')], derive='F', inputs=['AxB', 'C', 'D', 'C|D', '(?:', '(?:)', 'A.B']))
    # leading/trailing anchors with alternation-free patterns inside enums
    a(P(V(None), variants=[V('A', [F('0')], fmt='{0}'), V('B', [F('0')], fmt='x{0}'), V('C', [F('0'), F('1')], fmt='{0}-{1}')], derive='F', inputs=['1', 'x1', '1-2', '1\n', '1 ', 'xx1', '1-2-3']))
    for i in range(20):
        a(randprog.gen(5000 + i, 'F', feat=('fmt', 'opt'), kani=i < 4))
    return [x for x in r if x]


def run(ck):
    check.verus(ck, ['parsefmt', 'defaults', 'fromcode'])
    check.standard(ck, 'C05', check.number('C05', programs()), set(KINDS))
