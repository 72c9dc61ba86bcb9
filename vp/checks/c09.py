"""C09 Variant-name styles convert every identifier as documented."""
import random, os
from model import *
import check, reject
KINDS = {'display', 'from_str', 'regex'}
RULE = ('DisplayStyle::apply, parse and from_helper_attributes under Verus contract, for every identifier; beside it enums of identifiers x styles compiled with '
        'the real derive: the name shown and parsed is the specified one (Kani on some, natively on all); unknown style names must not compile')
IDENTS = ['A', 'a', 'AbCd', 'abCd', 'ABC', 'ABCd', 'AbCD', 'Ab_Cd', 'ab_cd', 'AB_CD', 'Ab__Cd', '_Ab', '__ab', 'Ab_', 'Ab__', 'A1', 'A1B', 'A1b', 'a1B2c3', 'X11Server', 'HTTPServer', 'HttpServer',
          'HTTP2Server', 'r#Type', 'r#type', 'r#fn', 'rType', 'r_type', '_1', '_1A', 'A_1', 'A_B', 'a_B', 'A_b', 'a_b', 'AaBbCcDd', 'AB', 'aB', 'Ab', 'abc', 'XYZ', 'xYZ', 'XyZ', 'XYz',
          'Éa', 'éA', 'aÉ', 'Aé', 'ÉA', 'É_A', 'ßA', 'Straße', 'ñandú', 'AñB', 'Añ_B', 'Δx', 'xΔX', '日本', 'A日B', '日A', 'LongVariantNameWithManyWords', 'ALLCAPS', 'Mixed_snake_Case', 'S3Bucket', 'I18n', 'Utf8', 'U8', 'u8_T', 'Zz9_zZ', 'Z9', '_A_B_', 'A__1__b']
# identifiers rustc accepts as distinct variant names in one enum


def rand_ident(r):
    while True:
        s = ''.join(r.choice('abXYZq_019éÉ') for _ in range(r.randint(1, 9)))
        if not s[0].isdigit() and s.strip('_'):
            if s in KEYWORDS or s in ('Self', 'self', 'super', 'crate'):
                continue
            return s


def programs():
    r = []
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1) * 7 + 9)
    ids = IDENTS + [rand_ident(rnd) for _ in range(40)]
    ids = list(dict.fromkeys(ids))
    seen = set()
    ids = [i for i in ids if not (unraw(i) in seen or seen.add(unraw(i)))]
    for st in [None, 'none'] + list(STYLES):
        # groups without two identifiers of one spelling after conversion, so that the parse is determined by the name
        groups = []
        for i in ids:
            nm = apply_style(st, i)
            for g in groups:
                if nm not in g and len(g) < 38:
                    g[nm] = i
                    break
            else:
                groups.append({nm: i})
        for g in groups:
            p = P(V(None, style=st), variants=[V(i) for i in g.values()], kani='never')
            p.all_values = True
            p.inputs = [unraw(i) for i in g.values()] + list(g)
            r.append(p)
        r.append(P(V(None, style=st), variants=[V('FooBar1x'), V('Ab', [F('0')], fmt='{}={0}'), V('XyZ', [F('x')], fmt='<{}|{x}>')], kani=st in (None, 'none', 'snake_case', 'Title case', 'KEBAB-CASE')))
        # the variant's style wins
        r.append(P(V(None, style=st), variants=[V('FooBar', style='UPPERCASE'), V('FoBa'), V('FBaZ', [F('0')], fmt='{}:{0}', style='kebab-case'), V('QuUx', style='none')], kani=st in ('camelCase', 'TITLE CASE')))
        # collisions: the earliest variant is parsed
        r.append(P(V(None, style=st), variants=[V('FooBar'), V('foo_bar'), V('Foo_Bar'), V('FOO_BAR'), V('foobar'), V('FOOBAR')], kani=False))
        # names with regex metacharacters next to a placeholder
        r.append(P(V(None, style=st, fmt='{}.{0}'), variants=[V('FooBar', [F('0')]), V('BarFoo', [F('0', 'S')])], kani=False))
    for st in STYLES:
        r.append(P(V(None), variants=[V('FooBar1Baz_q', style=st), V('FooBar1Baz_r', [F('0')], style=st, fmt='{}{0}')], kani=False))
    for p in r:
        if getattr(p, 'all_values', False):
            p.values = 'thread_local! { static NEXT: core::cell::Cell<usize> = core::cell::Cell::new(0); } pub fn gen(r: &mut R) -> T { match NEXT.with(|n| { n.set(n.get() + 1); n.get() }) %% %d { %s } }' % (
                len(p.variants), ', '.join('%s => T::%s' % (k if k + 1 < len(p.variants) else '_', v.name) for k, v in enumerate(p.variants)))
    return r


def rejects():
    bad = ['snakecase', 'Snake_Case', 'SCREAMING_SNAKE_CASE', 'pascalCase', 'PascalCase', 'Lowercase', 'LOWERCASE', 'uppercase', 'camel_case', 'None', 'NONE', '', ' none', 'none ', 'kebab_case', 'Kebab-case',
           'Title-Case', 'TITLE Case', 'TITLECASE', 'titlecase', 'Camelcase', 'snake-case', 'lower case', 'snake_Case', 'KEBAB_CASE', 'title Case', 'Train-Case']
    r = []
    for i, b in enumerate(bad):
        tgt = ['#[display(style = %s)] enum T { A }', 'enum T { #[display(style = %s)] A }'][i % 2] % rs(b)
        r.append(('c09r_%d' % i, '#[derive(parse_display::Display)] ' + tgt, 'style %r is not documented' % b))
        if i < 6:
            r.append(('c09q_%d' % i, '#[derive(parse_display::FromStr)] ' + tgt, 'style %r is not documented' % b))
    return r


def run(ck):
    check.verus(ck, ['style'])
    check.standard(ck, 'C09', check.number('C09', programs()), KINDS)
    reject.check_reject(ck, rejects())
