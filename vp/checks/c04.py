"""C04 Format parameters behave as in std::format!."""
import itertools, os, random
from model import *
import reject, lines, check, specre
KINDS = {'display'}
RULE = ('Kani: per spec (fill, alignment, sign, #, 0, width, precision, trait) the derive formats a leaf exactly as write! with the same spec; natively '
        'some hundred specs x values of std types against format!; specs naming no trait must be rejected; FormatSpec::parse by Verus, '
        'its pattern against std\'s grammar by automata, for all specs')

SPECS = ['>5', '<5', '^5', '*>6', '*<6', '*^6', '+', '-', '#', '05', '+05', '#x', '#010x', 'x', 'X', 'o', 'b', 'e', 'E', '?', '#?', 'x?', 'X?', '#x?', '.3', '8.3', '08.3',
         '*^+#012.4', '+.0', '}>4'.replace('}', '0'), '>>4', '<<4', '^^4', '{<4', '{^+7.2', '{>06?', '<>4', '->4', '+>4', '#>4', '.>4', '?>4', 'x>4', '5', '0', '00', '1', '#X', '#o', '#b', '+e', '+.2e', '010.2e',
         'é>4', ' >4', '\n>4', '"^7', '\\<4', ' ^9.1', '>3?', '_^+7?', '#?', '02?', ':>4', '::<3', '$>4', '%^5', '0>4', '00>4', '1>4', 'e>4', 'p>4', '?>4?', 'x>4x', '>+#4x', '<-4', '^01', '.0']


def std(spec):
    """does std's grammar accept this spec (literal width and precision)?"""
    try:
        spec_trait(spec)
        return True
    except SpecError:
        return False


def programs():
    r = []
    for i, s in enumerate(SPECS):
        if not std(s):
            continue
        k = s in ('>5', '*^6', '+', '-', '#', '05', '#010x', 'X', 'o', 'b', 'e', 'E', '?', '#?', 'x?', '8.3', '*^+#012.4', '>>4', 'x>4x', '-', '0>4', '<<4', '^01', '_^+7?', '.0')
        r.append(P(V('T', [F('a')], fmt='a{a:%s}b' % s), derive='D', kani=k))
    for i, s in enumerate(['>5', '*^7', '<4', '.3', '05', '+', '#6', '-^9.2']):
        # on an opt field, a with field, a nested member, a field format, a variant name, a tuple field, repeated with different specs
        r.append(P(V('T', [F('a', 'Option<K>', opt=True), F('b')], fmt='{a:%s}{b}' % s), derive='D', kani=i < 3))
        r.append(P(V('T', [F('a', with_='Wa'), F('b')], fmt='{b}{a:%s}' % s), derive='D', kani=i in (0, 3)))
        r.append(P(V('T', [F('m', 'M'), F('b', fmt='{:%s}' % s)], fmt='{m.y:%s}{b}{m.y}' % s), derive='D', kani=i in (1, 2)))
        r.append(P(V('T', [F('a', 'Option<K>', opt=True, fmt='<{:%s}>' % s)], fmt='{a}'), derive='D', kani=i in (1, 3)))
        r.append(P(V('T', [F('a', with_='Wp("w")', fmt='<{:%s}>' % s)], fmt='{a}'), derive='D', kani=i == 0))
        r.append(P(V('T', [F('0'), F('1', fmt='{:%s}{:<3}' % s)], fmt='{0:%s}{1}{0}{0:>2}' % s), derive='D', kani=i == 1))
        r.append(P(V(None), variants=[V('A', fmt='{:%s}|' % s), V('Bcd', [F('0')], fmt='{:%s}{0:%s}' % (s, s)), V('E', [F('x'), F('y')], fmt='{y:%s}{x}' % s)], derive='D', kani='never'))
    r.append(P(V('T', [F('a'), F('b')], fmt='{a:x}{b:X}{a:?}{b:o}{a:b}{b:e}{a:E}'), derive='D'))
    r.append(P(V('T', [F('m', 'M', fmt='{x:?}{y:#x}')], fmt='{m}'), derive='D'))
    return r


VALUES = {
    'i32': ['0i32', '42', '-7', 'i32::MIN', '123456'], 'u8': ['0u8', '255', '9'], 'f64': ['0.0f64', '-1.5', '1e100', '3.14159', 'f64::NAN', 'f64::INFINITY', '-0.0'],
    "&'static str": ['""', '"ab"', '"é€x"', '"longer text"'], 'String': ['"ab".to_string()', '"".to_string()', '"xyzxyzxyz".to_string()'], 'bool': ['true', 'false'],
    'char': ["'c'", "'é'"], 'i64': ['-1i64', '99'], 'Vec<i32>': ['vec![]', 'vec![1, -20]'], 'Option<&\'static str>': ['None', 'Some("x\\"y")'],
    '(u8, f32)': ['(1, 2.5)'], 'Box<i32>': ['Box::new(5)'], 'Box<str>': ['"q".into()'],
}
TRAIT_TYPES = {'Display': ['i32', 'u8', 'f64', "&'static str", 'String', 'bool', 'char', 'Box<i32>', 'Box<str>'],
               'Debug': ['i32', 'f64', "&'static str", 'String', 'char', 'Vec<i32>', "Option<&'static str>", '(u8, f32)', 'bool'],
               'LowerHex': ['i32', 'u8', 'i64'], 'UpperHex': ['i32', 'u8', 'i64'], 'Octal': ['i32', 'u8', 'i64'], 'Binary': ['i32', 'u8'],
               'LowerExp': ['f64', 'i32'], 'UpperExp': ['f64', 'i32'], 'Pointer': []}


def all_specs(thorough):
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1) + 4)
    fills = ['', '<', '>', '^', '*<', '*^', '0>', '#>', '+^', '->', 'é<', ' ^', 'x>', '?<', '.^', ':>', '<<', '>^', '^>', '1<', '\n>', '$<', 'e^', '\t<', '0<', 'X^', '"<', "'>", '😀^', '{>', '{^']
    out = set()
    for f, sg, al, z, w, p, t in itertools.product(fills, ['', '+', '-'], ['', '#'], ['', '0'], ['', '1', '7', '12'], ['', '.0', '.3', '.10'], ['', '?', 'x?', 'X?', 'x', 'X', 'o', 'b', 'e', 'E', 'p']):
        out.add(f + sg + al + z + w + p + t)
    out = sorted(out)
    n = 700 if not thorough else 6000
    return [s for s in SPECS if std(s)] + rnd.sample(out, n)


def pattern(ck):
    """the pattern of FormatSpec::parse against std's grammar, for specs of every length -> specs it gets wrong"""
    bad = []
    for name, status, detail, spec in specre.decide():
        ck.obligation(name, 'automata (priority threads x grammar)', status, detail=detail)
        ck.log(name, status, detail)
        if status == 'undecided':
            ck.note('%s: undecided (%s); the native enumeration of specs stands in, bounded' % (name, detail))
        if status == 'failed':
            ck.verus_failed.append(('specre', name, detail))
            bad.append(spec)
            bad += [spec + t for t in ('5', '?', 'x', '.1') if std(spec + t)]
    return bad


def enumerated(ck, first=()):
    items = []
    for i, s in enumerate(dict.fromkeys(list(first) + all_specs(ck.thorough))):
        t = spec_trait(s)
        for ty in TRAIT_TYPES[t][i % 3::3] if i >= len(SPECS) + len(first) else TRAIT_TYPES[t]:
            src = '#[derive(parse_display::Display)] #[display(%s)] pub struct T { a: %s }' % (rs('<{a:%s}>' % s), ty)
            body = ' '.join('{ let x: %s = %s; let e = format!(%s, x); ok(rep, id, %s, e, cat(|| T { a: x.clone() }.to_string())); }' % (ty, v, rs('<{:%s}>' % s), rs('a = ' + v)) for v in VALUES[ty])
            items.append(('c04n_%d_%s' % (i, re.sub(r'\W', '', ty)), src, body, src))
        if t == 'Pointer':
            for ty, v in [("&'static u8", '&P'), ('*const u8', '&P as *const u8'), ('Box<u8>', None), ('*mut u8', '&P as *const u8 as *mut u8'), ("&'static str", '"abc"')]:
                if v is None:
                    continue
                src = 'pub static P: u8 = 1; #[derive(parse_display::Display)] #[display(%s)] pub struct T { a: %s }' % (rs('<{a:%s}>' % s), ty)
                body = 'let x: %s = %s; let e = format!(%s, x); ok(rep, id, "a pointer", e, cat(|| T { a: x }.to_string()));' % (ty, v, rs('<{:%s}>' % s))
                items.append(('c04p_%d_%s' % (i, re.sub(r'\W', '', ty)), src, body, src))
    # pointers elsewhere: enum variants, field formats, opt, nested, generic references
    q = 'pub static P: u8 = 1; '
    items += [
        ('c04q_0', q + '#[derive(parse_display::Display)] pub enum T { #[display("{0:p}")] A(&\'static u8), #[display("{x:#p}")] B { x: *const u8 } }',
         'ok(rep, id, "A", format!("{:p}", &P), cat(|| T::A(&P).to_string())); ok(rep, id, "B", format!("{:#p}", &P as *const u8), cat(|| T::B { x: &P }.to_string()));', 'pointers in an enum'),
        ('c04q_1', q + '#[derive(parse_display::Display)] pub struct T(#[display("{:p}")] &\'static u8);', 'ok(rep, id, "T", format!("{:p}", &P), cat(|| T(&P).to_string()));', 'pointer in a field format'),
        ('c04q_2', q + '#[derive(parse_display::Display)] #[display("{t.0:p}")] pub struct T { t: (&\'static u8, u8) }', 'ok(rep, id, "T", format!("{:p}", &P), cat(|| T { t: (&P, 1) }.to_string()));', 'pointer of a nested member'),
        ('c04q_3', q + "#[derive(parse_display::Display)] #[display(\"{a:p}/{b}\")] pub struct T<'a, X> { a: &'a X, b: X }", 'let y = 5u8; ok(rep, id, "T", format!("{:p}/5", &y), cat(|| T { a: &y, b: 5u8 }.to_string()));', 'pointer of a generic reference'),
        ('c04q_4', q + '#[derive(parse_display::Display)] #[display("{a:>20p}|{a:020p}")] pub struct T { a: &\'static u8 }', 'ok(rep, id, "T", format!("{:>20p}|{:020p}", &P, &P), cat(|| T { a: &P }.to_string()));', 'pointer with width'),
    ]
    for e in (True, False):
        pass
    lines.run_lines(ck, items, 'spec', 'format specs against format!')
    bad = ['y', 'xx', '??', '?x', 'x#', '5x5', '>', 'z', 'Display', 'x ', ' x', '#+', '0#', '.x.', '>5>', '**>5', '+-', '##', '.', '5.', '.?5', 'ex', 'pp', 'x?x', '?#', 'E0', 'o8', 'é', 'w$', '1$', '.*', '.1$', '>5!', '--', '*5', 'é5', '_', '0x0', '#?#', '..3', '>.<']
    rej = []
    for i, s in enumerate(bad):
        if std(s):
            continue
        rej.append(('c04r_%d' % i, '#[derive(parse_display::Display)] #[display(%s)] pub struct T { a: u8 }' % rs('{a:%s}' % s), 'spec %r names no formatting trait' % s))
        if i % 3 == 0:
            rej.append(('c04s_%d' % i, '#[derive(parse_display::Display)] pub struct T { #[display(%s)] a: u8 }' % rs('{:%s}' % s), 'spec %r in a field format' % s))
            rej.append(('c04t_%d' % i, '#[derive(parse_display::Display)] pub enum T { #[display(%s)] A }' % rs('{:%s}' % s), 'spec %r on a variant name' % s))
    reject.check_reject(ck, rej)


def run(ck):
    check.verus(ck, ['spec'])
    check.standard(ck, 'C04', check.number('C04', programs()), KINDS)
    enumerated(ck, pattern(ck))
