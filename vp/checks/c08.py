"""C08 Enum parsing picks the right variant."""
from model import *
import randprog, check
KINDS = {'from_str', 'regex'}
RULE = ('per enum Kani proves, for every matcher and conversion outcome and the fixed texts (and near misses), that the variant chosen is the specified one; '
        'the patterns by regex normal form; natively with overlapping inputs')


def programs():
    r = []
    a = r.append
    E = lambda *vs, **k: a(P(V(None, **{x: k[x] for x in k if x in ('style', 'fmt', 'regex', 'infer')}), variants=list(vs), derive='F', **{x: k[x] for x in k if x not in ('style', 'fmt', 'regex', 'infer')}))
    E(V('A'), V('B'), V('C'))
    E(V('A', fmt='x'), V('B', fmt='x'), V('C', fmt='y'))
    E(V('A', [F('0', 'S')], fmt='{0}'), V('B', fmt='b'), V('C', [F('0')], fmt='{0}'))           # the fixed text is tried first although declared later
    E(V('A', [F('0')], fmt='{0}'), V('B', [F('0', 'S')], fmt='{0}'), V('C', fmt='7'))
    E(V('A', [F('0')], fmt='{0}'), V('B', [F('0'), F('1')], fmt='{0}{1}'), V('C', [F('0', 'S')], fmt='x{0}'), V('D', fmt='x'))
    E(V('A', [F('0', 'S')], fmt='{0},{0}'.replace(',{0}', ',')), V('B', [F('0')], fmt='{0},'), V('C', fmt=','))
    # ignore
    E(V('A'), V('B', ignore=True), V('C'))
    E(V('A', fmt='x', ignore=True), V('B', fmt='x'), V('C', [F('0', 'S')], fmt='{0}', ignore=True))
    E(V('A', [F('0')], fmt='{0}', ignore=True), V('B', [F('0')], fmt='{0}'), V('C', [F('0', 'S')], fmt='{0}'))
    E(V('A', ignore=True), V('B', [F('x')], ignore=True, fmt='{x}'))
    # constructors that refuse
    mk = ('fn a1(x: K) -> Option<T> { if x.odd() { Some(T::A(x)) } else { None } } fn a2(x: K, y: K) -> Result<T, u8> { if x.odd() { Ok(T::A(x, y)) } else { Err(1) } } '
          'fn b2(x: K, y: K) -> Option<T> { if y.odd() { Some(T::B(x, y)) } else { None } } fn no() -> Option<T> { None } fn bad() -> Result<T, String> { Err(String::new()) } fn plain(x: K) -> T { T::A(x) } ')

    def only(*names):
        return ' '.join('fn ' + f for f in mk.split('fn ') if f.split('(')[0] in names)
    E(V('A', [F('0')], fmt='{0}', new='a1(_0)'), V('B', [F('0')], fmt='{0}'), prelude=only('a1'))
    E(V('A', [F('0'), F('1')], fmt='{0},{1}', new='a2(_0, _1)'), V('B', [F('0'), F('1')], fmt='{0},{1}'), V('C', fmt='2'), prelude=only('a2'))
    E(V('A', fmt='x', new='no()'), V('B', [F('0', 'S')], fmt='{0}'), prelude=only('no'))
    E(V('A', fmt='x', new='no()'), V('B', fmt='x'), V('C', [F('0', 'S')], fmt='{0}'), prelude=only('no'))
    E(V('A', fmt='x', new='bad()'), V('B', fmt='y'), V('C', [F('0')], fmt='{0}'), prelude=only('bad'))
    E(V('A', [F('0'), F('1')], fmt='{0}-{1}', new='a2(_0, _1)'), V('B', [F('0'), F('1')], fmt='{0}-{1}', new='b2(_0, _1)'), V('C', [F('0', 'S')], fmt='{0}'), prelude=only('a2', 'b2'))
    E(V('A', [F('0')], fmt='{0}', new='plain(_0)', new_plain=True), V('B', [F('0', 'S')], fmt='{0}'), prelude=only('plain'))
    # the whole enum
    E(V('A'), V('B', [F('0')]), V('C', [F('x')], fmt='c{x}'), fmt='<{}>')if False else None
    E(V('A', [F('x')]), V('B', [F('x'), F('y')], fmt='{y} {x}'), V('C', [F('x', 'S')]), fmt='{}:{x}')
    E(V('AbC', [F('x')]), V('DeF', [F('x', 'S')]), V('GhI', style='UPPERCASE', kind='unit', fmt='{}'), fmt='{x}={}', style='snake_case')
    E(V('Ab'), V('aB'), V('AB'), V('ab'), style='lowercase')
    E(V('Ab'), V('Cd', style='none'), V('Ef', fmt='{}-{}'), V('Gh', style='Title Case'), style='UPPERCASE')
    # optional texts and default inside variants
    E(V('A', [F('0', 'Option<K>', opt=True, fmt=':{}')], fmt='a{0}'), V('B', fmt='a'), V('C', [F('0', 'S')], fmt='a{0}'))
    E(V('A', [F('0'), F('1', default=True)], fmt='a{0}'), V('B', [F('x', default=True)], fmt='b'), V('C', [F('0', 'S')], fmt='{0}'))
    E(V('A', [F('x'), F('y')], fmt='{x}|{y}'), V('B', [F('y'), F('x')], fmt='{x}|{y}'), V('C', [F('x', 'S'), F('y', 'S')], fmt='{x}|{y}'))
    # prefixes and empty text
    E(V('A', fmt=''), V('B', [F('0', 'S')], fmt='{0}'))
    E(V('A', [F('0', 'S')], fmt='{0}'), V('B', fmt=''))
    E(V('A', [F('0', 'S')], fmt='a{0}'), V('B', [F('0', 'S')], fmt='ab{0}'), V('C', [F('0', 'S')], fmt='{0}b'))
    E(V('A', [F('0')], fmt='ab{0}'), V('B', [F('0')], fmt='a{0}'), V('C', [F('0', 'S')], fmt='a{0}'))
    # user regexes
    E(V('A', regex='[0-9]+', kind='unit'), V('B', [F('0')], regex='(?<0>.*)'), V('C', fmt='12'))
    E(V('A', regex='x|y'), V('B', regex='y|z'), V('C', [F('0', 'S')], fmt='{0}'))
    E(V('One', regex='(?<>)|1'), V('Two', regex='(?<>)|2'), V('Three'), style='lowercase')
    E(V('One'), V('Two'), V('Three', fmt='3'), regex='(?<>)!', style='lowercase')
    for i in range(6):
        vs = [V('V%d' % j, [F('0', 'S' if (i + j) % 3 == 0 else 'K')], fmt=['{0}', 'v{0}', '{0}v', 'v{0}v'][(i + j) % 4]) for j in range(3)] + [V('L', fmt=['v', 'vv', '1', 'v1'][i % 4])]
        E(*vs, kani=i < 2)
    for i in range(24):
        a(randprog.gen(8000 + i, 'F', feat=('fmt', 'opt', 'with'), kani=i < 4, enum=True))
    # the 'Display' part is irrelevant here
    return [x for x in r if x]


def run(ck):
    check.verus(ck, ['parsefmt', 'fromcode', 'fimpl'])
    check.standard(ck, 'C08', check.number('C08', programs()), set(KINDS))
