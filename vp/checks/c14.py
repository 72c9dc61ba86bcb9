"""C14 User regexes bind captures to fields as documented."""
from model import *
import randprog, check, reject
KINDS = {'from_str', 'regex'}
RULE = ('per program with user regexes the pattern built equals the specified one (captures to fields, variant name literal, look-alikes untouched, unnamed groups not shifting) in regex '
        'normal form for every string, the construction by Kani; natively on sampled and mutated matches; ill-formed regexes must not compile')


def programs():
    r = []

    def a(p, inputs=(), kani=False):
        p.inputs = list(p.inputs) + list(inputs)
        p.kani = kani
        r.append(p)
    AB = [F('a'), F('b', 'S')]
    # struct regexes
    for i, rx in enumerate(['(?<a>[0-9]+)__(?<b>.*)', '(?<b>.*)__(?<a>[0-9]+)', '(?P<a>[0-9]+),(?P<b>[a-z]*)', '((?<a>[0-9])|x)(?<b>y)', '(?<a>[0-9])?(?<b>x)?', '(x|y)(?<a>[0-9])(z)(?<b>(p|q)+)', '(?:(?<a>[0-9]+)-)?(?<b>.*)',
                            '(?<a>[0-9])(?<b>\\(\\?<a>)', '\\\\(?<a>[0-9])(?<b>x)', '\\\\\\(\\?<a>(?<a>1)(?<b>2)', '[(](?<a>[0-9])[)](?<b>.)', '(?i)(?<b>abc)(?<a>[0-9])', '(?i:x)(?<b>y)(?<a>[0-9])', '(?s)(?<b>.)(?<a>[0-9])',
                            '(?<a>1|2)|(?<b>3|4)', 'x|(?<a>1)(?<b>2)', '(?<a>[0-9]+?)(?<b>[0-9]*)', '(?<a>[0-9]+)(?<b>[0-9]*)', '(?<b>(?<a>[0-9])x)', '(?<a>(?<b>[0-9]x?))', '^(?<a>[0-9])$|^(?<b>x)$', '(?m)^(?<a>[0-9])$(?<b>\\n?)',
                            '(?x) (?<a> [0-9] ) , (?<b> x ) ', '\\x41(?<a>[0-9])\\u{42}(?<b>\\.)', '(?<a>[0-9]{1,3})\\.(?<b>[^.]*)', '(?<b>)(?<a>1)', '(?U)(?<b>.+)(?<a>[0-9]+)', '\\b(?<b>\\w+)\\b (?<a>\\d)', '[\\[(?<](?<a>1)(?<b>.)']):
        if rx.startswith('[\\['):
            continue     # a group look-alike inside a class is reported as an error (documented leniency)
        a(P(V('T', AB, regex=rx), derive='F'), ['1__x', 'x__1', '1,b', '1y', 'xy', '1x', 'x', '', 'x1zp', 'y1zpq', '1-b', '-b', '1(?<a>', '\\1x', '\\(?<a>12', '(1)x', 'abc1', 'ABC1', 'aBc1', 'Xy1', 'xy1', '\n1', '1', '3', '12', '123', '1x', '1\n', 'A1B.', '255.x', 'ab1', 'ab 1'],
          i in (0, 1, 4, 5, 14, 18))
    # display formats are ignored when a regex is given
    a(P(V('T', AB, fmt='{a}!{b}', regex='(?<a>[0-9]),(?<b>.)'), derive='F'), ['1,x', '1!x'], True)
    a(P(V('T', [F('a', fmt='<{}>'), F('b', 'S', regex='nope')], regex='(?<a>[0-9]),(?<b>.)'), derive='F'), ['1,x', '<1>,x', '1,nope'])
    # names: raw, tuple, unicode, keys that look like generated names
    a(P(V('T', [F('r#type'), F('r#fn', 'S')], regex='(?<fn>.),(?<type>[0-9])'), derive='F'), ['x,1', '1,x'], True)
    a(P(V('T', [F('0'), F('1', 'S')], regex='(?<1>.),(?<0>[0-9])'), derive='F'), ['x,1', '1,x'], True)
    a(P(V('T', [F(str(i), 'S') for i in range(11)], regex=''.join('(?<%d>[a-z])' % i for i in (10, 1, 0, 2, 3, 9, 8, 7, 6, 5, 4))), derive='F'), ['abcdefghijk'], 'never')
    a(P(V('T', [F('é'), F('Straße', 'S')], regex='(?<Straße>.),(?<é>[0-9])'), derive='F'), ['x,1', '1,x'])
    a(P(V('T', [F('value_1'), F('value_2', 'S'), F('self_', 'S')], regex='(?<value_2>.),(?<value_1>[0-9])(?<self_>.*)'), derive='F'), ['x,1', '1,xz'], True)
    a(P(V('T', [F('_0'), F('ca_pture', 'S')], regex='(?<ca_pture>.),(?<_0>[0-9])'), derive='F'), ['x,1'])
    # nested members
    a(P(V('T', [F('m', 'M', default=True), F('x')], regex='(?<m.y>[0-9]),(?<x>[0-9])'), derive='F'), ['1,2'], True)
    a(P(V('T', [F('m', 'MM', default=True)], regex='(?<m.m.y>[0-9]),(?<m.z>[0-9])(?<m.m.x>[0-9])'), derive='F'), ['1,23'], True)
    a(P(V('T', [F('0', 'MT', default=True)], regex='(?<0.1>[0-9]),(?<0.0>[0-9])'), derive='F'), ['1,2'])
    a(P(V('T', [F('m', 'MM', regex='(?<m.x>[0-9]);(?<z>[0-9])', default=True)], fmt='<{m}>'), derive='F'), ['<1;2>'])
    a(P(V('T', [F('m', 'MR', default=True)], regex='(?<m.type>[0-9])'), derive='F'), ['1'], 'never')
    # enum and variant regexes, the variant name
    names = ['1', '2', 'x', '', 'A', 'B', 'a', 'A1', 'B2', 'foo_bar', '_foo_bar_', 'FooBar', '(foo_bar)', 'fooxbar', 'A|B']
    a(P(V(None, regex='___(?<>)___'), variants=[V('VarA'), V('VarB', regex='xxx(?<>)xxx')], derive='F'), ['___VarA___', 'xxxVarBxxx', '___VarB___', 'VarA', '______'], True)
    a(P(V(None, regex='_?(?<>x|y)_?', style='snake_case'), variants=[V('FooBar'), V('Qux', style='none'), V('Zed', fmt='z')], derive='F'), names + ['Qux', '_Qux', 'z', '_x_', 'x'], True)
    a(P(V(None, style='Title Case'), variants=[V('FooBar', regex='(?<>)+'), V('BazQ', regex='(?P<>)|(b)'), V('C', regex='c(?<>)(?<>)')], derive='F') if False else
      P(V(None, style='Title Case'), variants=[V('FooBar', regex='(?<>)+'), V('BazQ', regex='(?P<>)|(b)')], derive='F'), ['Foo Bar', 'Foo BarFoo Bar', 'Baz Q', 'b', 'Foo Bar\n', 'foo bar'], True)
    a(P(V(None), variants=[V('A', [F('0')], regex='(?<>)(?<0>[0-9])'), V('B', [F('x', 'S')], regex='(?<x>.)(?<>)?'), V('C', [F('0', 'S')], fmt='{0}')], derive='F'), names, True)
    a(P(V(None, regex='(?<>):(?<0>[0-9])'), variants=[V('A', [F('0')]), V('B', [F('0'), F('1', default=True)]), V('C', [F('0', 'S')], fmt='{0}')], derive='F'), ['A:1', 'B:2', 'C:3', 'A:'], True)
    a(P(V(None, regex='(?i)(?<>)'), variants=[V('Abc'), V('Def')], derive='F'), ['abc', 'ABC', 'Abc', 'def'])
    a(P(V(None, regex='(?i:(?<>))'), variants=[V('Abc'), V('Def')], derive='F'), ['abc', 'ABC', 'Abc', 'def'])
    a(P(V(None, style='kebab-case', regex='<(?<>)>'), variants=[V('FooBar'), V('BazQux'), V('X1')], derive='F'), ['<foo-bar>', 'foo-bar', '<baz-qux>', '<fooxbar>'])
    # precedence: variant regex > variant format > enum regex?  (only documented: a regex replaces its own display format)
    a(P(V(None, fmt='{}!'), variants=[V('A', regex='a+'), V('B')], derive='F'), ['a', 'aa', 'A!', 'B!'], True)
    a(P(V('T', [], regex='a+|b', kind='unit'), derive='F'), ['a', 'aa', 'b', 'ab', ''], True)
    # field regexes
    for i, rx in enumerate(['[0-9]+', '[0-9]|[a-f]', '[0-9](x)?', '(([0-9]))', '(?i)[a-f]', '(?<>[0-9]+)', 'a = (?<>[0-9]+)', '(a)(?<>[0-9])(b)?', '(?<>[0-9])|x', '\\(?<>', '\\\\(?<>[0-9])', '(?P<>[0-9])', '[0-9]+?', '', '(?s:.*)', '(?s).', '[^,]*', '\\(\\?<>[0-9]', '(?:[0-9]|x)', 'x|']):
        if rx == '\\(?<>':
            rx = '\\(?<?>?[0-9]'
        ins = ['1', '12', 'f', 'F', '1x', 'a = 1', '1', 'a1b', 'x', '\\1', '', '(1', '(?<>1']
        a(P(V('T', [F('a', 'S', regex=rx)], fmt='{a}'), derive='F'), ins)
        a(P(V('T', [F('a', 'S', regex=rx), F('b', 'S')], fmt='{b},{a}'), derive='F'), ['q,' + x for x in ins] + [x + ',1' for x in ins], i in (1, 5, 7))
        a(P(V('T', [F('a', 'S', regex=rx), F('b', 'S')], fmt='{a}{b}'), derive='F'), ins + [x + 'z' for x in ins])
        a(P(V(None), variants=[V('A', [F('0', regex=rx)], fmt='{0}'), V('B', [F('0', 'S')], fmt='{0}')], derive='F'), ins, i in (8,))
        # with a format on the field
        if '.' not in rx and '(?<>' not in rx:
            a(P(V('T', [F('a', 'S', regex=rx, fmt='<{}>'), F('b', 'S')], fmt='{a}{b}'), derive='F'), ['<%s>' % x for x in ins] + ['<%s>z' % x for x in ins], i in (0, 2))
        else:
            a(P(V('T', [F('a', 'S', regex=rx, fmt='<{}>')], fmt='{a}'), derive='F'), ['<%s>' % x for x in ins] + ins) if '(?<>' in rx and '\\(' not in rx else None
    # priority over with and regex_infer
    a(P(V('T', [F('a', regex='w[0-9]{2}', with_='Wp("w[0-9]")'), F('b', 'S')], fmt='{a}{b}'), derive='F'), ['w12', 'w1', 'w123'], True)
    a(P(V('T', [F('a', regex='w[0-9]{2}', with_='Wp("w[0-9]")', fmt='<{}>'), F('b', 'S')], fmt='{a}{b}'), derive='F'), ['w12', 'w1', 'w123', '<w1>', '<w1>z', '<w12>'])
    a(P(V('T', [F('0', regex='w[0-9]{2}', with_='Wp("w[0-9]")', fmt='<{}>')]), derive='F'), ['w12', 'w1', '<w1>', '<w12>'])
    a(P(V('T', [F('a', 'Option<K>', opt=True, regex='w[0-9]{2}', with_='Wp("w[0-9]")', fmt='<{}>'), F('b', 'S')], fmt='{a}|{b}'), derive='F'), ['w12|', 'w1|', '|', '<w1>|z'])
    a(P(V('T', [F('a', regex='[0-9]', infer=True), F('b', 'S')], fmt='{a}{b}'), derive='F'), ['12', '1', 'x'])
    a(P(V('T', [F('a', regex='x(?<>[0-9])', with_='Wp("w[0-9]")', infer=True), F('b', 'S')], fmt='{a}{b}', infer=True), derive='F'), ['xw1', 'x1', 'x12', 'w1'])
    # field regex on newtype without a format
    a(P(V('T', [F('0', regex='a = (?<>[0-9]+)')]), derive='F'), ['a = 1', '1', 'a = '], True)
    a(P(V('T', [F('a', regex='[0-9]{2}')]), derive='F'), ['12', '1', '123'])
    for i in range(20):
        a(randprog.gen(14000 + i, 'F', feat=('regex', 'regex', 'fmt', 'opt')), kani=i < 2)
    return [x for x in r if x]


def rejects():
    f = '#[derive(parse_display::FromStr)] '
    x = []

    def st(rx, why, ty='a: K'):
        x.append((f + '#[from_str(regex = %s)] struct T { %s }' % (rs(rx), ty), why))

    def fl(rx, why, fmt='{a}'):
        x.append((f + '#[display(%s)] struct T { #[from_str(regex = %s)] a: K }' % (rs(fmt), rs(rx)), why))

    def va(rx, why):
        x.append((f + 'enum T { #[from_str(regex = %s)] A { a: K } }' % rs(rx), why))
    for b in ['(', ')', '[', '(?<a>', '(?<a', '(?<a>x', '*', '{1', 'x{2,1}', '[z-a]', '(?<a>.)(?<a>.)', '\\', '(?z)', '(?<a>\\q)', '(?<a>.)\\p{Nope}', '(?=x)', '\\1', '(?<a>.)(?<!x)']:
        st(b, 'invalid regex')
        fl(b, 'invalid regex') if b not in ('(?<a>.)(?<a>.)',) else None
        va(b, 'invalid regex')
    st('(?<b>.)', 'no field b')
    st('(?<a>.)(?<b>.)', 'no field b')
    st('(?<a.q>.)', 'a has no field q', '#[from_str(default)] a: M')
    st('(?<>.)(?<a>.)', 'a struct has no variant name')
    st('(?<0>.)', 'no field 0')
    st('(?<1>.)', 'no field 1', 'a: K, b: K')
    st('.', 'a cannot be filled')
    va('(?<b>.)(?<a>.)', 'no field b')
    va('(?<>)', 'a cannot be filled')
    va('.', 'a cannot be filled')
    fl('(?<b>.)', 'no member b')
    x.append((f + '#[from_str(regex = "(?<x>.)")] enum T { A { x: K }, B { y: K } }', 'B has no field x'))
    return [('c14r_%d' % i, s, w) for i, (s, w) in enumerate(x)]


def run(ck):
    check.verus(ck, ['capture', 'builder', 'ast', 'replace', 'keys'])
    check.standard(ck, 'C14', check.number('C14', programs()), KINDS)
    reject.check_reject(ck, rejects())
