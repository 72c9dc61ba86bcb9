"""C11 with formats are used in both directions, with their regex."""
from model import *
import randprog, check, lines, reject
KINDS = {'display', 'from_str', 'regex'}
RULE = ('per program with `with` fields: shown through write and parsed through parse of the right format (marked values) for every value and outcome by Kani; '
        'the pattern with each format\'s regex embedded as one unit by regex normal form; natively on accepted and rejected strings')
# alternations, flags, groups (numbered and named), anchors of their own, classes, lazy and greedy, empty, comments
PATS = ['w[0-9]+', 'w-?[0-9]+', 'w1|w2', 'w(1|2)', 'w(?:1|2)|w34', '(w)([0-9])', '((w)([0-9]))', '(w[0-9]+)', 'w[0-9]*?', '(?i)W1', '(?i:W)1', '(?s)w.', 'w.', '(?x) w 1 ', '(?U)w[0-9]+',
        'w(1)|w(2)', '.*', '.*?', '(?s).*', '', 'w[^,]*', '(?s:.*)', 'w1?', 'w[|]|w[(]', r'w\|', r'w\(?<x>', '(?i)w1|w2', 'w1|(?i)w2', '(((w)))1', '|w1', 'w1|', '(?m)w1$', '[w][0-9]{2,}', '(?-u:w)[0-9]', r'w\d', r'\x77[0-9]']


def programs():
    r = []

    def a(p, inputs=(), kani=False):
        p.inputs = list(p.inputs) + list(inputs)
        p.kani = kani
        r.append(p)
    ins = ['w1', 'w2', 'w12', 'w34', 'w', 'W1', 'W2', '1', 'w1w2', '', 'w|', 'w(', 'w(?<x>', 'x', 'w\n', 'w-1']

    def vary(f):
        return [g for s in ins for g in f(s)]
    for i, p in enumerate(PATS):
        w = 'Wp(%s)' % rs(p)
        a(P(V('T', [F('a', with_=w)], fmt='{a}')), ins)
        a(P(V('T', [F('a', with_=w), F('b')], fmt='{a},{b}')), vary(lambda s: [s + ',1', s + ',' + s]), kani=i in (5,))
        a(P(V('T', [F('b', 'S'), F('a', with_=w), F('c', 'S')], fmt='{b}{a}{c}')), vary(lambda s: ['b' + s + 'c', s + s]), kani=i in (6,))
        a(P(V('T', [F('a', with_=w, fmt='<{}>'), F('c', 'S')], fmt='{a}{c}')), vary(lambda s: ['<' + s + '>c', '<' + s + '>']))
        if i % 3 == 0:
            a(P(V(None), variants=[V('A', [F('0', with_=w)], fmt='{0}'), V('B', [F('0', 'S')], fmt='{0}')]), ins, kani=False)
            a(P(V('T', [F('a', 'S'), F('b', 'S', fs_with='Wq(%s)' % rs(p.replace('w', 'q')))], fmt='{a}{b}'), derive='F'), vary(lambda s: ['a' + s.replace('w', 'q')]))
        if i % 4 == 0:
            a(P(V('T', [F('a', with_=w), F('b', with_='Wp(%s)' % rs(PATS[(i + 3) % len(PATS)])), F('c', with_='Wa')], fmt='{a} {b}{c}')), vary(lambda s: [s + ' w2<3>', s + ' ' + s + '<3>']), kani=False)
    # both directions; each side's own format
    for _ in range(5):  # every way of writing the two attributes (model.attr_lines)
        a(P(V('T', [F('a', with_='Wp("w[0-9]+")', fs_with='Wq("q[0-9]+")'), F('b')], fmt='{b}:{a}')), ['1:q2', '1:w2', '1:2'], kani=_ == 0)
        a(P(V(None), variants=[V('A', [F('0', with_='Wa', fs_with='Wq("q[0-9]+")', fmt='({})')], fmt='{0}'), V('B')]), ['(q2)', '(<2>)', 'q2', 'B'])
    a(P(V('T', [F('a', with_='Wa')])), ['<1>', '1', '<x>', '<1', ''], kani=True)
    a(P(V('T', [F('a', with_='Wp("w[0-9]+")', fs_with='Wq("q[0-9]+")'), F('b')], fmt='{a}:{b}')), ['q1:2', 'w1:2', 'q:1'], kani=True)
    a(P(V('T', [F('a', with_='Wa', fs_with='Wq("q[0-9]+|qx")'), F('b', 'S')], fmt='{a}{b}')), ['q1b', 'w1b', '<1>b', 'qxb', 'qx'], kani=False)
    a(P(V('T', [F('a', with_='Wp("w[0-9]+")', fs_with='Wa'), F('b')], fmt='{b}{a}')), ['1<2>', '1w2', '12'], kani=True)
    a(P(V('T', [F('0', fs_with='Wq("q[0-9]+")'), F('1', with_='Wa')], fmt='{1},{0}')), ['<1>,q2', '<1>,2'], kani=True)
    a(P(V('T', [F('a', with_='Wa', fmt='[{}]'), F('b', with_='Wp("w[0-9]")', fmt='{}{}'.replace('{}{}', '{}~'))], fmt='{b}{a}')), ['w1~[<2>]', 'w1~<2>'], kani=False)
    a(P(V('T', [F('a', with_='Wa', fmt='{}{}'), F('b')], fmt='{a}{b}'), derive='D'), kani=True)
    a(P(V(None), variants=[V('A', [F('0', with_='Wa')], fmt='a{0}'), V('B', [F('x', with_='Wp("w[0-9]+")'), F('y', with_='Wa')], fmt='{x}{y}'), V('C', [F('0', with_='Wq("q1|q2")', )], fmt='{0}')], derive='F'), ['a<1>', 'w1<2>', 'q1', 'q2', 'q3', 'a1'], kani=True)
    a(P(V(None, fmt='{0}'), variants=[V('A', [F('0', with_='Wp("w[0-9]")')]), V('B', [F('0', with_='Wa')]), V('C', [F('0', 'S')])]), ['w1', 'w12', '<1>', 'x'], kani=False)
    # precedence: regex over with over regex_infer
    a(P(V('T', [F('a', with_='Wp("w[0-9]")', infer=True), F('b', 'S')], fmt='{a}{b}')), ['w1', '1', 'w12', '12'], kani=True)
    a(P(V('T', [F('a', with_='Wp("w[0-9]")', regex='w[0-9]{2}'), F('b', 'S')], fmt='{a}{b}')), ['w12', 'w1', 'w123'], kani=False)
    a(P(V('T', [F('a', with_='Wp("w[0-9]")', regex='w(?<>w[0-9]{2})'), F('b', 'S')], fmt='{a}{b}')), ['ww12', 'w12', 'ww1'], kani=True)
    a(P(V('T', [F('a', with_='Wa', infer=True), F('b', 'S')], fmt='{a}{b}'), derive='F'), ['1b', '<1>b', '-5'], kani=False)
    a(P(V('T', [F('a', with_='Wp("w[0-9]")'), F('b', 'S', infer=True)], fmt='{b}{a}', infer=True)), ['w1', 'xw1', 'xw12'], kani=False)
    # width on a with field, with and opt
    a(P(V('T', [F('a', with_='Wa'), F('b', 'S', with_='Wa')], fmt='{a:>4}{b:<5}'), derive='D'), kani=True)
    a(P(V('T', [F('a', 'Option<K>', opt=True, with_='Wp("w[0-9]+|wx")'), F('b')], fmt='{a}:{b}')), ['w1:1', 'wx:1', ':1', 'w:1'], kani=True)
    a(P(V('T', [F('a', 'Option<K>', opt=True, with_='Wa', fs_with='Wq("q[0-9]")', fmt='<{}>'), F('b')], fmt='{b}{a}')), ['1', '1<q2>', '1<2>', '1q2'], kani=True)
    # several fields with the same format and its groups
    a(P(V('T', [F('a', with_='Wp("w(1|2)")'), F('b', with_='Wp("w(1|2)")'), F('c', with_='Wp("(w)(1|(2))")')], fmt='{c}{b}{a}')), ['w1w2w1', 'w1w1w1', 'w1w2'], kani=True)
    # user regex on the struct: the with format parses the captured text and its regex is not used there
    a(P(V('T', [F('a', with_='Wp("w[0-9]")'), F('b', with_='Wa')], regex='(?<b>.*)/(?<a>.*)'), derive='F'), ['<1>/w1', '<1>/w12', '1/w1', '<1>/1'], kani=False)
    # library formats
    a(P(V('T', [F('v', 'Vec<i32>', with_='delimiter(", ")'), F('n', 'i32')], fmt='[{v}] {n}'), derive='F', prelude='use parse_display_with::formats::*;'), ['[1, 2] 3', '[1] 3', '[x] 3', '[1,2] 3', '[1, 2, 3] -4'], kani='never') if False else None
    for i in range(20):
        a(randprog.gen(11000 + i, 'DF', feat=('with', 'with', 'opt')), kani=i < 2)
    return r


def rejects():
    x = []
    d = '#[derive(parse_display::Display)] '
    f = '#[derive(parse_display::FromStr)] '
    for t in ['?', 'x', 'X', 'o', 'b', 'e', 'E', 'p', '#?', '04x']:
        x.append(('c11r_a%d' % len(x), d + '#[display("{a:%s}")] struct T { #[display(with = Wa)] a: K }' % t, '`with` combined with another trait'))
        x.append(('c11r_b%d' % len(x), d + 'struct T { #[display("<{:%s}>", with = Wa)] a: K }' % t, '`with` combined with another trait'))
        x.append(('c11r_c%d' % len(x), d + 'enum T { #[display("{0:%s}")] A(#[display(with = Wa)] K) }' % t, '`with` combined with another trait'))
    nt = 'pub struct Only8; impl parse_display::DisplayFormat<u8> for Only8 { fn write(&self, f: &mut core::fmt::Formatter, v: &u8) -> core::fmt::Result { Ok(()) } } '
    x.append(('c11r_ty', nt + d + 'struct T { #[display(with = Only8)] a: K }', 'the format does not apply to the field type'))
    x.append(('c11r_fs', nt + f + 'struct T { #[display(with = Only8)] a: u8 }', 'the format cannot parse'))
    return x


def references():
    """a format of T on fields that reach a T through references"""
    w = 'pub struct W1; impl parse_display::DisplayFormat<u8> for W1 { fn write(&self, f: &mut std::fmt::Formatter, v: &u8) -> std::fmt::Result { write!(f, "<{v}>") } } impl parse_display::DisplayFormat<str> for W1 { fn write(&self, f: &mut std::fmt::Formatter, v: &str) -> std::fmt::Result { write!(f, "[{v}]") } } '
    r = []
    for i, (ty, val, shown) in enumerate([('u8', '5', '<5>'), ("&'static u8", '&5', '<5>'), ("&'static &'static u8", '&&5', '<5>'), ("&'static &'static &'static u8", '&&&5', '<5>'), ("&'static str", '"x"', '[x]'), ("&'static &'static str", '&"x"', '[x]')]):
        d = '#[derive(parse_display::Display)] '
        for j, (src, v, e) in enumerate([('#[display("{a}.")] pub struct T { #[display(with = W1)] a: %s }' % ty, 'T { a: %s }' % val, shown + '.'),
                                         ('pub enum T { #[display("{0}.")] A(#[display(with = W1)] %s), B }' % ty, 'T::A(%s)' % val, shown + '.'),
                                         ('#[display("{a:>7}")] pub struct T { #[display("({})", with = W1)] a: %s }' % ty, 'T { a: %s }' % val, '(%s)' % shown),
                                         ('pub struct T(#[display(with = W1, opt)] Option<%s>);' % ty, 'T(Some(%s))' % val, shown)]):
            r.append(('c11r_%d_%d' % (i, j), w + d + src, 'ok(rep, id, %s, %s.to_string(), cat(|| %s.to_string()));' % (rs(v), rs(e), v), d + src))
    return r


def run(ck):
    check.verus(ck, ['helpers', 'attrs', 'syntax', 'builder', 'fromcode', 'ast'])
    check.standard(ck, 'C11', check.number('C11', [p for p in programs() if p]), KINDS)
    reject.check_reject(ck, rejects())
    lines.run_lines(ck, references(), 'refs', 'formats on fields behind references')
