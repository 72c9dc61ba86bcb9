"""C12 default supplies exactly the fields the input does not."""
import re
from model import *
import randprog, check, reject
KINDS = {'from_str', 'regex'}
RULE = ('per program with default on the struct, on fields, or for nested members, Kani proves for every default value, matcher and conversion outcome that each field comes '
        'from the specified source; natively every subset of fields over the formats; non-trivial = accepted inputs')


def dflt(v, tweak=True):
    """A Default impl whose values differ from the field types' own defaults."""
    def val(f):
        return {'K': 'K::odd_default()', 'S': 'S::odd_default()', 'M': 'M { x: K::odd_default(), y: K::default() }', 'MM': 'MM { m: M { x: K::odd_default(), y: K::odd_default() }, z: K::odd_default() }',
                'MQ': 'MQ { p: M { x: K::odd_default(), y: K::odd_default() }, q: M { x: K::odd_default(), y: K::odd_default() } }', 'MT': 'MT(K::odd_default(), K::default())', 'Option<K>': 'Some(K::odd_default())'}[f.ty]
    if v.kind == 'named':
        b = 'T { %s }' % ', '.join('%s: %s' % (f.name, val(f)) for f in v.fields)
    else:
        b = 'T(%s)' % ', '.join(val(f) for f in v.fields)
    return 'impl Default for T { fn default() -> T { %s } }' % b


def programs():
    r = []

    def a(p, inputs=(), kani=False):
        p.inputs = list(p.inputs) + list(inputs)
        p.kani = kani
        r.append(p)

    def st(fields, fmt, inputs=(), kani=False, derive='F', **kw):
        v = V('T', fields, fmt=fmt, default=True, **kw)
        a(P(v, derive=derive, impls=dflt(v)), inputs, kani)
    # every subset of three fields in the format
    names = ['a', 'b', 'c']
    for m in range(8):
        sub = [n for i, n in enumerate(names) if m >> i & 1]
        fl = [F('a'), F('b', 'S'), F('c')]
        st(fl, '<' + ','.join('{%s}' % n for n in sub) + '>', kani=m in (0, 2, 5, 7))
        # the same with default on the fields
        fl2 = [F(f.name, f.ty, default=f.name not in sub) for f in fl]
        a(P(V('T', fl2, fmt='<' + ','.join('{%s}' % n for n in sub) + '>'), derive='F'), kani=m in (2, 4))
        a(P(V(None), variants=[V('A', fl2, fmt='<' + ','.join('{%s}' % n for n in sub) + '>'), V('B', [F('0', default=True), F('1', 'S')], fmt='{1}')], derive='F'), kani=m in (2,))
    # tuple structs, raw names
    st([F('0'), F('1'), F('2', 'S')], '{2}:{0}', kani=True)
    st([F('r#type'), F('r#fn', 'S'), F('x')], '{fn};{type}', kani=True)
    # default on a field wins over the struct's default
    st([F('a'), F('b', default=True), F('c')], '{a}', kani=True)
    st([F('a', default=True), F('b')], '{a}', kani=True)
    st([F('0'), F('1', 'S', default=True)], '{0}', kani=True)
    # nested members: only those named are overwritten
    st([F('m', 'M'), F('x')], '{m.x}', kani=True)
    st([F('m', 'M'), F('x')], '{m.y},{x}', kani=True)
    st([F('m', 'MM'), F('n', 'MM')], '{m.m.y},{n.z}', kani=True)
    st([F('0', 'MT'), F('1')], '{0.1}', kani=True)
    st([F('m', 'MQ'), F('n', 'MQ')], '{m.p.x},{n.q.x},{m.q.x}', kani=True)
    a(P(V('T', [F('m', 'MQ', default=True)], fmt='{m.q.y},{m.p.y}'), derive='F'))
    a(P(V('T', [F('m', 'M', default=True), F('x')], fmt='{m.x},{x}'), derive='F'), kani=True)
    a(P(V('T', [F('m', 'MM', default=True), F('n', 'M', default=True)], fmt='{m.m.x},{n.y},{m.z}'), derive='F'), kani=True)
    a(P(V('T', [F('0', 'MT', default=True), F('1', 'M', default=True)], fmt='{1.y},{0.0}'), derive='F'))
    a(P(V(None), variants=[V('A', [F('m', 'M', default=True), F('x')], fmt='{x}/{m.y}'), V('B', [F('0', 'MM', default=True)], fmt='{0.m.x}')], derive='F'), kani=True)
    # default and nested in one struct: field default over struct default
    st([F('m', 'M', default=True), F('n', 'M'), F('x')], '{m.x},{n.x}', kani=True)
    st([F('m', 'M', default=True), F('n', 'M'), F('x')], '{m.y},{n.x}', kani=True)
    st([F('m', 'MM', default=True), F('n', 'MQ', default=True)], '{m.m.y},{n.q.x}')
    st([F('0', 'MT', default=True), F('1', 'MT')], '{0.1},{1.1}')
    # default together with opt and with
    for fmt in ('{x}', '{x}{o}'):
        a(P(V('T', [F('o', 'Option<K>', opt=True, default=True), F('x')], fmt=fmt), derive='F'), inputs=['1', '11', 'x'], kani=True)
        a(P(V('T', [F('o', 'Option<K>', opt=True, default=True, fmt='o={}'), F('x')], fmt=fmt), derive='F'), inputs=['1', '1o=1', '1o=', 'x'])
        a(P(V(None), variants=[V('A', [F('0', 'Option<K>', opt=True, default=True), F('1')], fmt=fmt.replace('x', '1').replace('o', '0')), V('B')], derive='F'), inputs=['1', '11', 'x'])
        a(P(V('T', [F('o', with_='Wa', default=True), F('x')], fmt=fmt), derive='F'), inputs=['1', '1<1>', 'x'])
        st([F('o', 'Option<K>', opt=True, default=True), F('x')], fmt, inputs=['1', '11', 'x'])
    # default_fields(...), the older spelling: names, raw names and positions, bare and quoted, several in one string; on the type, on a variant, with the other defaults
    for i, (df, text) in enumerate([(('b', 'c'), 'b, c'), (('b', 'c'), '"b", c'), (('a', 'b', 'c'), '"a, b, c"'), (('b', 'c'), 'b, "c"'), (('c', 'b'), None), (('b', 'c'), 'b ;; "c"'), (('c', 'b', 'a'), '"c, b", "a"')]):
        sub = [n for n in 'abc' if n not in df]
        fl = [F('a'), F('b', 'S'), F('c')]
        fm = '<' + ','.join('{%s}' % n for n in sub) + '>'
        a(P(V('T', fl, fmt=fm, default_fields=df, df_text=text), derive='F'), kani=i in (0, 2))
        st(fl + [F('d')], fm, default_fields=df, df_text=text)
        a(P(V(None), variants=[V('A', fl, fmt=fm, default_fields=df, df_text=text), V('B', [F('a', default=True), F('1', 'S')][:1], fmt='b')], derive='F'))
        a(P(V(None, default_fields=df, df_text=text), variants=[V('A', fl, fmt=fm), V('B', [F('x')] + fl, fmt=fm + '{x}'), V('C', fl, fmt=fm + '{b}.')], derive='F'), kani=i in (1,))
        fl = [F('0'), F('1', 'S'), F('2')]
        k = dict(zip('abc', '012'))
        num = lambda t: None if t is None else re.sub('[abc]', lambda m: k[m.group()], t)
        a(P(V('T', fl, fmt='<' + ','.join('{%s}' % k[n] for n in sub) + '>', default_fields=tuple(k[n] for n in df), df_text=num(text)), derive='F'))
        a(P(V(None, default_fields=('1',), df_text='"1"' if i % 2 else '1'), variants=[V('A', fl[:2], fmt='{0}'), V('B', fl, fmt='{0},{2}', default_fields=('2',), df_text='2')], derive='F'))
    a(P(V('T', [F('r#type'), F('r#fn', 'S'), F('x')], fmt='{x}', default_fields=('type', 'fn'), df_text='type, "fn"'), derive='F'))
    a(P(V('T', [F('r#type'), F('r#fn', 'S'), F('x')], fmt='{x}', default_fields=('type', 'fn'), df_text='"r#fn", r#type'), derive='F'))
    a(P(V('T', [F('m', 'MM'), F('n', 'M'), F('x')], fmt='{m.m.y},{x}', default_fields=('m', 'n'), df_text='"m, n"'), derive='F'))
    a(P(V('T', [F('a'), F('b', default=True), F('c', 'S')], fmt='{a}', default_fields=('c', 'b'), df_text='c'), derive='F'))
    # nested members through the field's own format
    st([F('m', 'M', fmt='({x})'), F('x')], '{m}', kani=True)
    a(P(V('T', [F('m', 'MM', fmt='({m.y})', default=True), F('x', default=True)], fmt='{m}'), derive='F'))
    # through regexes
    st([F('a'), F('b')], None, regex='x(?<b>[0-9]+)', inputs=['x1', 'x', 'y1'], kani=True)
    st([F('m', 'M'), F('b')], None, regex='(?<m.y>[0-9]+)!', inputs=['1!', '!'], kani=True)
    st([F('a', regex='[0-9]+'), F('b')], '{a}.', inputs=['1.', 'x.'])
    # conversions still fail
    st([F('a'), F('b')], '{a}', inputs=['x', '', '1'])
    # opt and with
    st([F('o', 'Option<K>', opt=True, fmt='o={}'), F('x')], 'x{o}', inputs=['x', 'xo=1', 'xo=x'], kani=True)
    st([F('o', 'Option<K>', opt=True), F('x')], '{x}', inputs=['1'], kani=True)
    st([F('w', with_='Wa'), F('x')], '{w}', inputs=['<1>', '1'])
    st([F('w', with_='Wa'), F('x')], '{x}', inputs=['<1>', '1'])
    # several levels: a struct inside with its own defaulted parse
    a(P(V('T', [F('i', 'u8', default=True), F('s', 'String', default=True), F('b', 'bool')], fmt='{b}'), derive='F'), ['true', 'x'], kani='never')
    p = P(V('T', [F('v', 'Vec<u8>', default=True), F('o', 'Option<u8>', default=True), F('b', 'u8')], fmt='{b}'), derive='F', kani='never', values='pub fn gen(r: &mut R) -> T { T { v: vec![], o: None, b: 1 } }')
    a(p, ['1'], kani='never')
    # literal-only format: everything is the default
    st([F('a'), F('b', 'S')], 'nothing', inputs=['nothing', 'nothin', ''], kani=True)
    a(P(V('T', [F('a', default=True)], fmt='unit'), derive='F'), ['unit', 'x'])
    # both derives
    st([F('a'), F('b')], '{b}', derive='DF')
    return r


def rejects():
    f = '#[derive(parse_display::FromStr)] '
    x = [('e1', f + '#[from_str(default)] enum T { A }', 'default on an enum'),
         ('e2', f + '#[from_str(default)] enum T { A, #[display("{0}")] B(K) }', 'default on an enum'),
         ('m1', f + '#[display("{a}")] struct T { a: K, b: K }', 'field b cannot be filled'),
         ('m2', f + '#[display("{0}")] struct T(K, K);', 'field 1 cannot be filled'),
         ('m3', f + 'enum T { #[display("{a}")] A { a: K, b: K } }', 'field b cannot be filled'),
         ('m4', f + '#[display("{a.x}")] struct T { a: M }', 'the rest of field a cannot be filled'),
         ('m5', f + '#[from_str(default)] #[display("{a}")] struct T { a: K, b: K }', 'T is not Default'),
         ('m6', 'struct N; ' + f + '#[display("{a}")] struct T { a: K, #[from_str(default)] b: N }', 'N is not Default'),
         ('m7', f + '#[display("x")] struct T { a: K }', 'field a cannot be filled'),
         ('m8', f + 'enum T { #[display("x")] A(K) }', 'field 0 cannot be filled'),
         ('m9', f + '#[from_str(regex = "(?<a>.)")] struct T { a: K, b: K }', 'field b cannot be filled'),
         ('m10', f + '#[display("{a.x}")] struct T { #[from_str(default)] b: K, a: M }', 'the rest of field a cannot be filled'),
         ]
    return [('c12r_' + i, s, w) for i, s, w in x]


def run(ck):
    check.verus(ck, ['capture', 'builder', 'fromcode'])
    check.standard(ck, 'C12', check.number('C12', programs()), KINDS)
    reject.check_reject(ck, rejects())
