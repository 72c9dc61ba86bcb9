"""Random programs (deterministic in their number and VERIF_SEED)."""
import os, random
from model import *

LITS = ['', 'a', '-', ', ', 'x=', '{{', '}}', '(', ').', '[', '*', '\n', 'é', '"', '\\', ' ', 'ab|', '^', '$', '+?', '{{}}', '0', '#', 'A', '&&', '--', '~~']
NAMES = ['a', 'b', 'c', 'val', 'r#type', 'f', 's', 'x1', 'value', 'self_', 'r#fn', 'A', 'idx_0', 'core']
VNAMES = ['Foo', 'BarBaz', 'r#Type', 'X1y', 'HTTPServer', 'Qux_quux', 'lower', 'Z', 'É', 'A1B2', 'Last__One']
PATS = ['[0-9]+', '-?[0-9]{1,3}', '[ab]|cd', 'w[0-9]*', '(x|y)+', '[^,]*']
SEP = [',', ';', '=', '|', ' to ', '::', '#', '{{', '}}', '.']


def fields(r, named, n, fs, feat):
    names = r.sample(NAMES, n) if named else [str(i) for i in range(n)]
    # no two names with the same unraw'd spelling
    out = []
    for nm in names:
        kind = r.choice(['plain'] * 4 + feat)
        ty = r.choice(['K', 'K', 'S'])
        f = F(nm, ty)
        if kind == 'fmt':
            f = F(nm, ty, fmt=r.choice(['<{}>', '{}', '{{{}}}', '({})', '"{}"']))
        elif kind == 'opt':
            f = F(nm, 'Option<%s>' % ty, opt=True, fmt=r.choice([None, '<{}>', ':{}', '-{}-']))
        elif kind == 'with':
            f = F(nm, ty, with_=r.choice(['Wa', 'Wp("w-?[0-9]+")', 'Wp("w(a|-?[0-9]{1,2})")']))
        elif kind == 'deep':
            f = F(nm, r.choice(['M', 'MM']))
        elif kind == 'regex' and fs:
            f = F(nm, ty, regex=r.choice(PATS), fmt=r.choice([None, None, '<{}>']))
        elif kind == 'infer' and fs:
            f = F(nm, 'K', infer=True)
        out.append(f)
    return out


def body(r, name, kind, fs, feat, enum):
    n = 0 if kind == 'unit' else r.choice([1, 1, 2, 2, 3])
    fl = fields(r, kind == 'named', n, fs, feat)
    parts = []
    if enum and r.random() < .4:
        parts.append('{}')
    for f in fl:
        if f.ty == 'M':
            parts += ['{%s.x}' % f.key(), '{%s.y}' % f.key()]
        elif f.ty == 'MM':
            parts += ['{%s.z}' % f.key(), '{%s.m.y}' % f.key(), '{%s.m.x}' % f.key()]
        else:
            parts.append('{%s}' % f.name)
    r.shuffle(parts)
    if fs and r.random() < .25 and parts:
        parts.append(r.choice([p for p in parts]))     # repeated placeholder
    if fs:
        # separators keep most inputs unambiguous; not required
        fmt = r.choice(LITS) + ''.join(p + r.choice(SEP) for p in parts[:-1]) + (parts[-1] if parts else '') + r.choice(['', '', r.choice(LITS)])
    else:
        fmt = r.choice(LITS) + ''.join(p + r.choice(LITS) for p in parts)
    return fl, fmt


def gen(num, derive, feat=('fmt', 'opt'), kani=True, enum=None):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    fs = 'F' in derive
    feat = list(feat)
    for attempt in range(50):
        r = random.Random(seed * 1000003 + num * 101 + attempt)
        en = r.random() < .5 if enum is None else enum
        if not en:
            kind = r.choice(['named', 'tuple'])
            fl, fmt = body(r, None, kind, fs, feat, False)
            p = P(V('T', fl, fmt=fmt, kind=kind), derive=derive, kani=kani)
        else:
            vs = []
            names = r.sample(VNAMES, r.choice([2, 3, 4]))
            style = r.choice([None, None, 'snake_case', 'UPPERCASE', 'Title Case', 'kebab-case', 'CamelCase'])
            for nm in names:
                kind = r.choice(['unit', 'unit', 'named', 'tuple'])
                fl, fmt = body(r, nm, kind, fs, feat, True)
                if kind == 'unit' and r.random() < .7:
                    fmt = None
                vs.append(V(nm, fl, fmt=fmt, kind=kind, style=r.choice([None, None, None, 'none', 'camelCase', 'SNAKE_CASE'])))
            p = P(V(None, style=style), variants=vs, derive=derive, kani=kani)
        p.tags.add('random')
        try:
            p.source()
            p.spec_fmt()
            if fs:
                for vp in p.parse_spec():
                    vp.build_src('b')
                    if len(vp.caps) > 7:
                        raise SpecError('too many groups')
                pats = [vp for vp in p.parse_spec() if vp.lit is None]
                if len(pats) > 4:
                    raise SpecError('too many')
                keys = {vp.items_src() for vp in pats}
                if len(keys) != len(pats):
                    raise SpecError('same')
            return p
        except SpecError:
            continue
    raise RuntimeError('no program')
