"""C03 Format strings are split uniquely or rejected."""
import itertools, os, re
from model import *
import reject, lines, check, run as R
KINDS = {'display', 'from_str', 'regex'}
RULE = ('DisplayFormat::parse and try_unescape by Verus for every string; beside it every format string of length <= 4 over {,},a,:,x and a sample of '
        'longer ones over a wider alphabet is compiled with the real derive (accepted: text shown and parsed compared; not accepted: must be rejected)')


def strings(thorough):
    al = '{}a:x'
    res = []
    for n in range(0, 5 if not thorough else 6):
        res += [''.join(t) for t in itertools.product(al, repeat=n)]
    import random
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1) + 3)
    toks = ['{', '}', '{{', '}}', '{a}', '{a:x}', '{x}', '{a:>4}', 'lit', 'é', '\n', '"', '\\', ':', '{{a}}', '{}', '(', '.', '$', '{x:?}']
    for _ in range(250 if not thorough else 3000):
        res.append(''.join(rnd.choice(toks) for _ in range(rnd.randint(2, 9))))
    res += ['{{{', '{{{{{', '}}}', '{a}}', '{{a}', '{a', 'a}', '{a:x', '{a{', '{a{x}}', '{{{a}', '{a}}}', 'a{', '}{', '{a}{', '{a}}{x}', '{a:x}}', '{:a', '{a:}', '{:}',
            '{a::x}', '{a:x:}', '{{:x}}', '{a }', '{a:x}{', 'x{{}}}', '{{}', '{}}', '{ {a}', '{a}\n', '\n{a}', '{\n}', '{a:\n}', '{a\n}', '😀{a}😀', '{😀}', '{{😀}}', '{a:{<5}', '{a:{>4}}}', '{{{a:{^5}{x}']
    return list(dict.fromkeys(res))


def classify(s):
    """('ok', parts) / ('bad', why) / None when the documentation does not say"""
    try:
        parts = split_format(s)
    except SpecError as e:
        return ('bad', str(e))
    for p in parts:
        if p[0] == 'var':
            if '{' in p[2] and not re.match(r'\{[<^>]', p[2]):
                return None
            if p[1] == '' and True:
                try:
                    t = spec_trait(p[2])
                except SpecError as e:
                    return ('bad', str(e))
                if t == 'Display':
                    return ('bad', '{} in a struct')
                return None
            if p[1] not in ('a', 'x'):
                return ('bad', 'unknown field')
            try:
                spec_trait(p[2])
            except SpecError as e:
                return ('bad', str(e))
    return ('ok', parts)


def enumerated(ck):
    acc, rej = [], []
    for i, s in enumerate(strings(ck.thorough)):
        c = classify(s)
        if c is None:
            continue
        if c[0] == 'bad':
            rej.append(('c03r_%d' % i, '#[derive(parse_display::Display)] #[display(%s)] pub struct T { a: K, x: K }' % rs(s), 'format %r: %s' % (s, c[1])))
            continue
        parts = c[1]
        names = [p[1] for p in parts if p[0] == 'var']
        fs = len(set(names)) == len(names)
        src = '#[derive(parse_display::Display%s, Default, Debug, PartialEq)] #[display(%s)] %s pub struct T { a: K, x: K }' % (
            ', parse_display::FromStr' if fs else '', rs(s), '#[from_str(default)]' if fs else '')
        # the expected text is put together piece by piece
        exp = ' + '.join(['String::new()'] + ['&%s' % ('%s.to_string()' % rs(p[1]) if p[0] == 'lit' else 'format!("{%s}", v.%s)' % ((':' + p[2]) if p[2] else '', p[1])) for p in parts])
        body = 'let v = T { a: K(31), x: K(4) }; let e = %s; ok(rep, id, "T { a: K(31), x: K(4) }.to_string()", e.clone(), cat(|| v.to_string()));' % exp
        if fs:
            lit = all(p[0] == 'lit' for p in parts)
            d = [p[2] for p in parts if p[0] == 'var']
            simple = all(x == '' for x in d) and all(parts[k][0] != 'var' or parts[k + 1][0] != 'var' for k in range(len(parts) - 1))
            if simple:
                want = 'T { a: %s, x: %s }' % ('K(31)' if 'a' in names else 'K(77)', 'K(4)' if 'x' in names else 'K(77)')
                body += 'ok(rep, id, &format!("parse {e:?}"), "Some(%s)".into(), cat(|| format!("{:?}", T::from_str(&e).ok())));' % want.replace('K(31)', 'K31').replace('K(4)', 'K4').replace('K(77)', 'K77')
                body += 'ok(rep, id, &format!("parse {e:?} + x"), "None".into(), cat(|| format!("{:?}", T::from_str(&(e.clone() + "x")).ok())));'
                if lit:
                    body += 'ok(rep, id, "parse the format string itself", (if e == %s { "ok" } else { "None" }).into(), cat(|| if e == %s { "ok".into() } else { format!("{:?}", T::from_str(%s).ok()) }));' % (rs(s), rs(s), rs(s))
        acc.append(('c03a_%d' % i, src, body, 'format %r\n%s' % (s, src)))
    lines.run_lines(ck, acc, 'fmt', 'format strings accepted')
    reject.check_reject(ck, rej)


def programs():
    r = []
    a = r.append
    K2 = [F('a'), F('b')]
    for s in ['{{', '}}', '{{}}', 'a{{b}}c', '{{{{', 'x', '{{a}}', '', 'a.b', '(?<a>x)', '\\', 'é\n']:
        a(P(V('T', [], fmt=s), kani=s in ('{{a}}', 'x', '')))
        a(P(V(None), variants=[V('A', fmt=s + '1'), V('B', fmt='{{}}' + s)], kani=s in ('{{', 'x')))
    for s in ['{{{a}}}{b}', '{a}}}{{{b}', '{{{{{a}{{{b}', 'x{{a}}{a}}}b{b}', '{a}{{}}{b}', '{{{a}{{', '}}{a}{{{b}']:
        v = V('T', K2, fmt=s, default=True) if '{b}' not in s else V('T', K2, fmt=s)
        p = P(v, kani='{b}' in s)
        if v.default:
            p.impls = 'impl Default for T { fn default() -> T { T { a: K::default(), b: K::default() } } }'
        a(p)
    a(P(V('T', [F('a', fmt='{{{}}}'), F('b', fmt='}}{}{{')], fmt='{a}{{{b}}}')))
    a(P(V(None, fmt='{{{}}}'), variants=[V('A'), V('B', fmt='{{}}{}{{')]))
    return r


def run(ck):
    check.verus(ck, ['format'])
    check.standard(ck, 'C03', check.number('C03', programs()), KINDS)
    enumerated(ck)
