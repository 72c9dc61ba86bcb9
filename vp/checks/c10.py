"""C10 opt fields: None is absent text, Some is the inner value."""
from model import *
import randprog, check, reject
KINDS = {'display', 'from_str', 'regex'}
RULE = ('per program with opt fields: the text shown for None and Some for every inner value and writer failure, and the value built for every outcome of matcher '
        '(absent/present) and inner conversion, by Kani; the pattern (lazy optional around the whole field text) by regex normal form; natively with and without the text')
O = 'Option<K>'


def programs():
    r = []

    def a(p, inputs=(), kani=None):
        p.inputs = list(p.inputs) + list(inputs)
        if kani is not None:
            p.kani = kani
        r.append(p)
    for fmt in [None, '{}', '<{}>', 'a={}', '{}=a', '{{{}}}', '', 'x', '{}{{', ' {}', '\n{}', '.*{}']:
        k = fmt in (None, 'a={}', '{{{}}}')
        if fmt in ('', 'x'):
            continue
        a(P(V('T', [F('a', O, opt=True, fmt=fmt)], fmt='[{a}]')), kani=fmt == '{{{}}}')
        a(P(V('T', [F('x'), F('a', O, opt=True, fmt=fmt), F('y', 'S')], fmt='{x},{a},{y}')), kani=fmt == 'a={}')
        a(P(V(None), variants=[V('A', [F('0', O, opt=True, fmt=fmt)], fmt='A{0}'), V('B', [F('b', 'Option<S>', opt=True, fmt=fmt), F('c')], fmt='{c}:{b}')]), kani=fmt == '<{}>')
        a(P(V('T', [F('a', O, opt=True, fmt=fmt)])), kani=False)
    # literal-only field formats show the literal only for Some (parsing them yields no capture: Display only)
    for fmt in ['', 'x', '{{}}']:
        a(P(V('T', [F('a', O, opt=True, fmt=fmt), F('b')], fmt='{b}{a}'), derive='D'), kani=fmt == 'x')
    # several, adjacent, at the ends
    a(P(V('T', [F('a', O, opt=True, fmt='a={}'), F('b', O, opt=True, fmt='b={}')], fmt='{a}{b}')), ['', 'a=1', 'b=1', 'a=1b=2', 'b=1a=2', 'a=x', 'b=x', 'a=1b=x'])
    a(P(V('T', [F('a', O, opt=True), F('b', O, opt=True)], fmt='{a},{b}'), kani=False), ['', ',', '1,', ',1', '1,2', 'x,', ',x'])
    a(P(V('T', [F('a', O, opt=True), F('b', O, opt=True)], fmt='{a}{b}'), kani=False), ['', '1', '12', 'x'])
    a(P(V('T', [F('a', 'Option<S>', opt=True, fmt=':{}'), F('b', 'S')], fmt='{b}{a}')), ['', ':', 'x', 'x:y', ':y', 'x:y:z', '::'])
    a(P(V('T', [F('a', 'Option<S>', opt=True)], fmt='{a}')), ['', 'x', '\n'])
    a(P(V('T', [F('a', 'Option<S>', opt=True)], fmt='<{a}>'), kani=False), ['', '<>', '<x>', '<<>>', '<\n>'])
    # failing inner conversion is an error
    a(P(V('T', [F('a', O, opt=True, fmt='={}')], fmt='a{a}')), ['a', 'a=', 'a=1', 'a=x', 'a=1=', 'a= 1'])
    a(P(V('T', [F('a', O, opt=True, fmt='={}'), F('b', O, opt=True, fmt='={}')], fmt='a{a}b{b}'), kani=False), ['ab', 'a=1b', 'ab=1', 'a=xb', 'ab=x', 'a=1b=2'])
    a(P(V(None), variants=[V('A', [F('0', O, opt=True, fmt='={}')], fmt='a{0}'), V('B', [F('0', 'S')], fmt='a{0}')]), ['a', 'a=1', 'a=x', 'ax'])
    # written as paths
    for t in ['std::option::Option<K>', 'core::option::Option<K>', '::std::option::Option<K>', '::core::option::Option<K>']:
        a(P(V('T', [F('a', t, opt=True, fmt='<{}>')], fmt='{a}.'), kani=False))
    # nested options: the inner Option is the value
    p = P(V('T', [F('a', 'Option<OO>', opt=True, fmt='<{}>'), F('b')], fmt='{b}{a}'), kani=False)
    p.prelude = ('#[derive(Clone, PartialEq, Debug)] pub struct OO(pub Option<K>); impl Gen for OO { fn gen(r: &mut R) -> Self { OO(Gen::gen(r)) } } '
                 'impl core::fmt::Display for OO { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match &self.0 { Some(k) => write!(f, "{}", k), None => f.write_str("none") } } } '
                 'impl core::str::FromStr for OO { type Err = KErr; fn from_str(s: &str) -> Result<OO, KErr> { if s == "none" { Ok(OO(None)) } else { s.parse().map(|k| OO(Some(k))) } } }')
    a(p, ['1', '1<none>', '1<2>', '1<x>', '1<>'])
    # width and precision apply to Some, nothing to None
    for sp in [':>4', ':<6', ':^5', ':03', ':+', ':.1', ':*^7']:
        a(P(V('T', [F('a', O, opt=True), F('b', 'Option<S>', opt=True)], fmt='[{a%s}|{b%s}]' % (sp, sp if sp not in (':+', ':03') else '')), derive='D'), kani=sp == ":>4")
    a(P(V('T', [F('a', O, opt=True, fmt='<{:>3}>'), F('b', O, opt=True, fmt='({:03})')], fmt='{a}{b}'), derive='D'))
    # other traits inside the field's own format
    a(P(V('T', [F('a', O, opt=True, fmt='0x{:x}'), F('b', O, opt=True, fmt='{:?}')], fmt='{a} {b}'), derive='D'))
    a(P(V('T', [F('a', 'Option<M>', opt=True, fmt='({x};{y})'), F('b')], fmt='{b}{a}'), derive='D'))
    # with and regexes on opt fields
    a(P(V('T', [F('a', O, opt=True, with_='Wa'), F('b')], fmt='{b}{a}')), ['1', '1<2>', '1<x>', '1<>'])
    a(P(V('T', [F('a', O, opt=True, with_='Wp("w-?[0-9]+")', fmt=':{}'), F('b', 'S')], fmt='{a}{b}')), ['', 'x', ':w1', ':w1x', ':wx', ':w', ':w-2'])
    a(P(V('T', [F('a', O, opt=True, with_='Wp("wx|w[0-9]+")'), F('b')], fmt='{a},{b}')), [',1', 'w1,1', 'wx,1', 'w,1'])
    a(P(V('T', [F('a', O, opt=True, regex='[0-9]+'), F('b', 'S')], fmt='{a}{b}')), ['', '1', 'x', '1x', 'x1'])
    a(P(V('T', [F('a', O, opt=True, regex='=(?<>[0-9]+|x)'), F('b', 'S')], fmt='{a}.{b}')), ['.', '=1.', '=x.', '=.', 'x.', '.=1.'])
    a(P(V('T', [F('a', O, opt=True, regex='[0-9]|x', fmt='<{}>'), F('b')], fmt='{a}{b}'), kani=False), ['1', '<1>2', '<x>2', '<>2'])
    a(P(V('T', [F('a', O, opt=True, infer=True, fmt='#{}'), F('b', 'S')], fmt='{a}{b}')), ['', '#', '#1', '#1x', '#x'])
    a(P(V('T', [F('a', O, opt=True, infer=True), F('b', 'Option<S>', opt=True, fmt='!{}')], fmt='{a}{b}'), kani=False), ['', '1', '!', '1!x', 'x'])
    # std inner types
    a(P(V('T', [F('a', 'Option<u32>', opt=True, fmt='a={}'), F('b', 'Option<String>', opt=True, fmt=', b={}')], fmt='({a}{b})'), kani='never'), ['()', '(a=1)', '(a=1, b=x)', '(, b=)', '(a=x)', '(a=-1)'])
    a(P(V('T', [F('a', 'Option<bool>', opt=True), F('b', 'Option<char>', opt=True)], fmt='{a}/{b}'), kani='never'), ['/', 'true/', '/c', 'true/c', 'x/', '/cc'])
    a(P(V('T', [F('a', O, opt=True), F('b', O, opt=True, default=True)], fmt='{a}'), derive='DF'), ['', '1', 'x'])
    for i in range(24):
        a(randprog.gen(10000 + i, 'DF', feat=('opt', 'opt', 'fmt')), kani=i < 1)
    return r


def rejects():
    d = '#[derive(parse_display::Display)] '
    f = '#[derive(parse_display::FromStr)] '
    x = []
    for i, t in enumerate(['K', 'Vec<K>', 'Result<K, K>', '&\'static Option<K>', 'Box<Option<K>>', 'MyOption<K>', '(Option<K>,)']):
        for j, m in enumerate([d, f]):
            x.append(('c10r_%d_%d' % (i, j), 'pub struct MyOption<T>(T); ' + m + '#[display("{a}")] struct T { #[display(opt)] a: %s }' % t, 'opt on a field that is not an Option'))
    x.append(('c10r_s', d + '#[display("{a}", opt)] struct T { a: Option<K> }', 'opt on a struct'))
    x.append(('c10r_v', d + 'enum T { #[display("{0}", opt)] A(Option<K>) }', 'opt on a variant'))
    x.append(('c10r_e', d + '#[display("{0}", opt)] enum T { A(Option<K>) }', 'opt on an enum'))
    x.append(('c10r_n', d + '#[display("{a}")] struct T { a: Option<K> }', 'an Option shown without opt'))
    x.append(('c10r_m', f + '#[display("{a}")] struct T { a: Option<K> }', 'an Option parsed without opt'))
    return x


def run(ck):
    check.verus(ck, ['helpers', 'types', 'builder', 'fromcode'])
    check.standard(ck, 'C10', check.number('C10', programs()), KINDS)
    reject.check_reject(ck, rejects())
