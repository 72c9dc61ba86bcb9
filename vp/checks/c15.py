"""C15 FromStrRegex of a derived type is the language it parses."""
from model import *
import emit, randprog, check, reject, run as runner
KINDS = {'from_str', 'regex'}
RULE = ('per program the postcondition of from_str_regex(): valid, no named group, and its language equals that of the specified matching of the type (automata equivalence, all strings); '
        'the matcher of types with regex_infer fields equals the specified one with the inner type\'s pattern as one unit (regex normal form); construction by Kani; natively on matched and mutated strings')


def inner(name, body, variants=None, **kw):
    """A derived type to nest: source + Gen."""
    p = P(body, variants=variants, name=name, derive='F', **kw)
    g = emit.gen_fn(p)
    return p.source() + '\nimpl Gen for %s { %s }' % (name, g.replace('pub fn gen', 'fn gen').replace('-> %s ' % name, '-> Self '))


# a hand-written FromStrRegex
HAND = '''#[derive(PartialEq, Debug, Clone)] pub struct In(pub String);
impl core::str::FromStr for In { type Err = KErr; fn from_str(s: &str) -> Result<Self, KErr> { if s == "x" { Err(KErr) } else { Ok(In(s.to_string())) } } }
impl parse_display::FromStrRegex for In { fn from_str_regex() -> String { %s.to_string() } }
impl Gen for In { fn gen(r: &mut R) -> Self { In('p'.to_string()) } }'''


def programs():
    r = []

    def a(p, inputs=(), kani=False):
        p.inputs = list(p.inputs) + list(inputs)
        p.kani = kani
        p.extra_run = ['check_fsr::<%s>(rep, &p);' % (p.name + p.targs)]
        r.append(p)
    LITS = ['a|b', 'a.b', '(x)', '[a-z]', '{{}}', 'a*', 'a+?', '^$', '\\d', '\\', 'a b#c', '(?i)x', '(?<n>x)', 'é\n€', '-', '&&', '~', 'x{{2}}', '{{0}}', '{{:?}}', '', '%', '/']
    # a struct with literals around fields
    for i, l in enumerate(LITS):
        a(P(V('T', [F('a')], fmt=l + '{a}' + l), derive='F'), kani=i in (0,))
        a(P(V('T', [], fmt=l, kind='unit'), derive='F'))
        # as an enum: literal-only, mixed
        if i % 2 or not l:
            a(P(V(None), variants=[V('A', fmt=l), V('B', fmt='b' + l), V('C')], derive='F'))
        a(P(V(None), variants=[V('A', fmt=l), V('B', [F('0')], fmt=l + '{0}'), V('C', fmt='c')], derive='F'), kani=i in (0, 4))
        if i % 3 == 0:
            a(P(V(None), variants=[V('B', [F('0')], fmt=l + '{0}'), V('B2', [F('0', 'S', regex='x|y')], fmt='{0}' + l), V('A', fmt=l)], derive='F'))
    a(P(V(None), variants=[V('B', fmt='b'), V('A', fmt='')], derive='F'), ['', 'b'])
    a(P(V(None), variants=[V('A', fmt='')], derive='F'), ['', 'b'])
    # variant names and styles
    a(P(V(None, style='kebab-case'), variants=[V('FooBar'), V('BazQux'), V('r#Type')], derive='F'), kani=True)
    a(P(V(None, style='Title Case'), variants=[V('FooBar'), V('BazQux', [F('0')], fmt='{}: {0}'), V('X', ignore=True)], derive='F'), kani=True)
    a(P(V(None, fmt='<{}>'), variants=[V('A'), V('B', [F('0')], fmt='{0}'), V('C', ignore=True), V('D', fmt='dd')], derive='F'))
    a(P(V(None, regex='_(?<>)_'), variants=[V('A'), V('B'), V('C', fmt='c')], derive='F'), ['_A_', '_B_', 'A', 'c', '_c_', '_C_'])
    a(P(V(None), variants=[V('A', ignore=True), V('B', ignore=True)], derive='F'), kani=True)
    a(P(V(None), variants=[V('A', ignore=True), V('B', fmt='a|b')], derive='F'))
    a(P(V(None), variants=[V('A', fmt='x', ignore=True), V('B', [F('0')], fmt='{0}')], derive='F'))
    # regexes, options, with
    for i, rx in enumerate(['a|b', '(a|b)c', 'a(?<>b|c)d', '(?i)ab', '(?i:a)b', '(?s).', '.', '(?x) a b # c\n', '(a)(b)?', '[|]', '\\|', 'x{2,3}', '', '(?U)a+', '^a', 'a$', '(?m)^a$', '\\x41', '[[:alpha:]]', '\\p{Greek}', '(?:a|b|)', '[^a]', '(?-s:.)|b']):
        a(P(V('T', [F('a', 'S', regex=rx), F('b')], fmt='{a}{b}'), derive='F'), kani=i == 2)
        a(P(V(None), variants=[V('A', [F('0', 'S', regex=rx)], fmt='{0}'), V('B', fmt='B|'), V('C', [F('0', 'S', regex='C')], fmt='{0}')], derive='F'))
        if '(?<>' not in rx:
            a(P(V('T', [F('a', 'S')], regex='<(?<a>%s)>' % rx if '#' not in rx else '<(?<a>x)>'), derive='F'))
            a(P(V(None), variants=[V('A', [F('0', 'S')], regex='(?<0>x)|%s' % rx if '#' not in rx else '(?<0>x)'), V('Bc', fmt='B|')], derive='F'))
            if '#' not in rx:
                a(P(V('T', [F('a', 'S', with_='Wp(%s)' % rs(rx)), F('b')], fmt='{a}{b}'), derive='F'))
    a(P(V('T', [F('a', 'Option<K>', opt=True, fmt='a={}'), F('b', 'Option<S>', opt=True, regex='b|c')], fmt='{a},{b}'), derive='F'), kani=True)
    a(P(V('T', [F('a', with_='Wa'), F('b', with_='Wp("w[0-9]|x")')], fmt='{a}|{b}'), derive='F'))
    a(P(V('T', [F('a', with_='Wp("w1|w2")', fmt='{}|')], fmt='({a})'), derive='F'))
    # regex_infer at every level
    K2 = [F('a', infer=True), F('b', 'S')]
    a(P(V('T', K2, fmt='{a}{b}'), derive='F'), ['12x', '-1', 'x', '1'], True)
    a(P(V('T', [F('a'), F('b', 'S')], fmt='{a}{b}', infer=True), derive='F'), ['12x', '-1', 'x', '1'], True)
    a(P(V(None, infer=True), variants=[V('A', [F('0'), F('1', 'S')], fmt='{0}{1}'), V('B', [F('0', 'S')], fmt='{0}')], derive='F'), ['1', '1x', 'x'], True)
    a(P(V(None), variants=[V('A', [F('0'), F('1', 'S')], fmt='{0}{1}', infer=True), V('B', [F('0'), F('1', 'S')], fmt='x{0}{1}')], derive='F'), ['1', '1x', 'x', 'x1', 'xx', 'x12'], True)
    a(P(V(None), variants=[V('A', [F('0', infer=True)], fmt='{0}'), V('B', [F('x', infer=True, fmt='<{}>'), F('y', 'S')], fmt='{x}{y}')], derive='F'), ['1', '<1>', '<1>2', '<x>'])
    a(P(V('T', [F('a', infer=True, regex='[0-9]'), F('b', 'S', infer=True)], fmt='{a}{b}'), derive='F'), ['12', '1', 'x'], True)
    a(P(V('T', [F('a', 'Option<K>', opt=True, infer=True), F('b', 'S')], fmt='{a}{b}'), derive='F'), ['1', 'x', '1x', '-1', '-'], True)
    a(P(V('T', [F('a', 'Option<K>', opt=True, fmt='({})'), F('b', 'Option<S>', opt=True)], fmt='{a}{b}', infer=True), derive='F'), ['(1)', '(1)x', '(x)', ''], True)
    a(P(V('T', [F('a'), F('b', 'S')], regex='(?<a>.*),(?<b>.*)', infer=True), derive='F'), ['1,2', 'x,y', '1,x,y'])
    a(P(V('T', [F('a', infer=True), F('b', 'S')], regex='(?<a>.*)(?<b>.*)'), derive='F'), ['1,2', 'x,y', '12'])
    a(P(V('T', [F('m', 'M', default=True), F('b', 'S', infer=True)], fmt='{m.x}:{b}'), derive='F'), ['1:2'])
    # derived types nested in each other: alternations, flags, groups, options of the inner pattern must not leak
    inners = [
        ('alternation', inner('In', V(None), [V('A'), V('B'), V('Cc')]), ['A', 'B', 'Cc', 'AB', 'C', 'x']),
        ('escaped', inner('In', V(None), [V('A', fmt='a|b'), V('B', fmt='(.)'), V('C', fmt='{{}}')]), ['a|b', '(.)', '{}', 'a', 'b', '(x)']),
        ('mixed', inner('In', V(None), [V('A', fmt='x'), V('B', [F('0', infer=True)], fmt='{0}|')]), ['x', '1|', '|', '1']),
        ('regex', inner('In', V('In', [F('a', 'S', regex='p|q')])), ['p', 'q', 'pq']),
        ('flags', inner('In', V('In', [F('a', 'S')], regex='(?i)(?<a>p|qr)')), ['p', 'QR', 'q']),
        ('dotall', inner('In', V('In', [F('a', 'S')], regex='(?s)<(?<a>.)>|(x)')), ['<\n>', 'x', '<a>', '<']),
        ('option', inner('In', V('In', [F('a', 'Option<K>', opt=True, infer=True, fmt='={}')])), ['=1', '', '=', '=x']),
        ('groups', inner('In', V('In', [F('a', 'S')], regex='((?<a>[0-9])|(y))+')), ['1', '12', 'y', '1y2', '']),
        ('unit', inner('In', V('In', [], fmt='u.v', kind='unit')), ['u.v', 'uxv']),
        ('empty', inner('In', V(None), [V('A', ignore=True)]), ['A', '']),
        ('ignored', inner('In', V(None, style='snake_case'), [V('FooBar', ignore=True), V('BazQux'), V('X1')]), ['foo_bar', 'baz_qux', 'x1']),
    ] + [('by hand ' + rx, HAND % rs(rx), ['p', 'q', 'pq', 'P', 'x', '']) for rx in ('p|q', '^p', 'q$', '^p|q$', '(?i)p', '(p)|q', ' p', '')]
    for nm, src, ins in inners:
        for k, (v, f) in enumerate([
                (V('T', [F('i', 'In', infer=True)], fmt='{i}'), lambda s: [s]),
                (V('T', [F('i', 'In', infer=True), F('b', 'S')], fmt='{i}{b}'), lambda s: [s, s + 'z', s + 'B']),
                (V('T', [F('b', 'S'), F('i', 'In', infer=True), F('j', 'In', infer=True)], fmt='{b}<{i}{j}>'), lambda s: ['<' + s + s + '>', 'b<' + s + s + '>', '<' + s + '>']),
                (V('T', [F('i', 'Option<In>', opt=True, infer=True, fmt='[{}]'), F('c')], fmt='{c}{i}'), lambda s: ['1[' + s + ']', '1', '[' + s + ']'])]):
            a(P(v, derive='F', prelude=src, note=nm), [y for s in ins for y in f(s)], 'never')
        a(P(V(None, infer=True), variants=[V('U', [F('0', 'In')], fmt='{0}'), V('L', fmt='L'), V('W', [F('0', 'In'), F('1', 'S')], fmt='{0}.{1}')], derive='F', prelude=src, note=nm),
          [y for s in ins for y in (s, s + '.z', 'L' + s)] + ['L'], 'never')
    # two levels
    src = inner('In0', V(None), [V('A'), V('B', fmt='b|c')]) + '\n' + inner('In', V(None, infer=True), [V('X', [F('0', 'In0')], fmt='{0}'), V('Y', [F('0', 'In0'), F('1')], fmt='({0},{1})'), V('Z', fmt='z')])
    a(P(V('T', [F('i', 'In'), F('b', 'S')], fmt='{i}{b}', infer=True), derive='F', prelude=src), ['A', 'b|c', 'b', '(A,1)', '(b|c,1)x', 'zx', '(A,x)'], 'never')
    # a recursive language is not derivable; std types
    a(P(V('T', [F('a', 'u8'), F('c', 'bool'), F('d', 'char'), F('e', 'i32'), F('f', 'String')], fmt='{a}{c}{d}{e}{f}', infer=True), derive='F'), ['1truex-3', '1truexx', '255false 0rest'], 'never')
    for i in range(14):
        p = randprog.gen(15000 + i, 'F', feat=('regex', 'infer', 'infer', 'with', 'opt', 'fmt'))
        a(p, kani=i < 1)
    return r


def run(ck):
    check.verus(ck, ['esc', 'helpers', 'fromcode', 'fimpl', 'ast'])
    progs = check.number('C15', programs())
    nat = check.standard(ck, 'C15', progs, KINDS)
    st = {m['prog']: m for m in nat['extra'] if m.get('t') == 'fsr'}
    seen = {v['key'].split(':')[0] for v in ck.viols}
    for p in progs:
        n = 'from_str_regex(%s)' % p.id
        m = st.get(p.id)
        if m and m['status'] == 'ok':
            ck.obligation(n, 'automata equivalence', 'discharged')
        elif m:
            ck.obligation(n, 'automata equivalence', 'undecided', detail='the automaton is too large or uses a look-around: ' + m['src'])
            ck.bounded.append(n + ': not decided by automata')
        elif p.id not in nat['broken']:
            ck.obligation(n, 'automata equivalence', 'failed')
