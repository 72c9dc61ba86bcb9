"""C17 Generated trait bounds are exactly those needed or requested."""
import re
from model import *
import check, lines, reject
RULE = ('per generic program and instantiation, whether the impl holds (decided by rustc\'s trait solver) must equal the conjunction of the specified requirements (also decided by it); '
        'a program whose generated body needs more than its bounds does not compile; the bound bookkeeping itself (Bounds) is under contract')
TECHNIQUE = 'per program, impl existence compared with the specified predicates by rustc\'s trait solver'

HEAD = '''
use core::fmt; use core::marker::PhantomData;
macro_rules! has { ($t:ty : $($tr:tt)+) => {{
    #[allow(unused)] trait Fb { const HH: bool = false; } impl<X: ?Sized> Fb for X {}
    #[allow(unused)] struct Q<X: ?Sized>(PhantomData<X>);
    impl<X: ?Sized + $($tr)+> Q<X> { const HH: bool = true; }
    <Q<$t>>::HH }} }
pub struct QD<X: ?Sized>(PhantomData<X>); impl<X: ?Sized + fmt::Display> QD<X> { pub const H: bool = true; }
pub struct QF<X>(PhantomData<X>); impl<X: core::str::FromStr> QF<X> { pub const H: bool = true; }
pub struct QR<X>(PhantomData<X>); impl<X: parse_display::FromStrRegex> QR<X> { pub const H: bool = true; }
pub trait Fbk { const H: bool = false; } impl<X> Fbk for X {}
macro_rules! shows { ($t:ty: $($tr:ident)*) => { $(impl fmt::$tr for $t { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("v") } })* } }
macro_rules! parses { ($($t:ty)*) => { $(impl FromStr for $t { type Err = KErr; fn from_str(_: &str) -> Result<Self, KErr> { Err(KErr) } })* } }
macro_rules! rx { ($($t:ty)*) => { $(impl parse_display::FromStrRegex for $t { fn from_str_regex() -> String { "x".into() } })* } }
macro_rules! insts { ($($n:ident)*) => { $(pub struct $n;)* } }
insts!(No D De X Pt B Fs Fsr Cl All);
shows!(D: Display); shows!(De: Debug); shows!(X: LowerHex UpperHex); shows!(Pt: Pointer); shows!(B: Binary Octal LowerExp UpperExp);
shows!(All: Display Debug LowerHex UpperHex Pointer Binary Octal LowerExp UpperExp);
parses!(Fs Fsr All); rx!(Fsr All);
impl Clone for Cl { fn clone(&self) -> Cl { Cl } } impl Clone for All { fn clone(&self) -> All { All } }
pub trait Tr { type A; }
impl Tr for No { type A = All; } impl Tr for D { type A = No; } impl Tr for De { type A = D; } impl Tr for X { type A = De; } impl Tr for Pt { type A = X; }
impl Tr for B { type A = Pt; } impl Tr for Fs { type A = B; } impl Tr for Fsr { type A = Fs; } impl Tr for Cl { type A = Fsr; } impl Tr for All { type A = Cl; }
macro_rules! both { ($n:ident, $d:path, $f:path) => {
    pub struct $n<T>(pub PhantomData<T>);
    both!(@ $n, $d, Display Debug LowerHex UpperHex Pointer Binary Octal LowerExp UpperExp);
    impl<T: $f> FromStr for $n<T> { type Err = KErr; fn from_str(_: &str) -> Result<Self, KErr> { Ok($n(PhantomData)) } }
    impl<T: $f> parse_display::FromStrRegex for $n<T> { fn from_str_regex() -> String { "y".into() } } };
    (@ $n:ident, $d:path, $($tr:ident)*) => { $(impl<T: $d> fmt::$tr for $n<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("w") } })* } }
pub trait Any {} impl<T> Any for T {}
both!(Free, Any, Any); both!(Dsp, fmt::Display, FromStr); both!(Dbg, fmt::Debug, parse_display::FromStrRegex); both!(Cln, Clone, Clone);
pub struct Nest<T> { pub x: u8, pub t: PhantomData<T> }
impl<T> Default for Nest<T> { fn default() -> Self { Nest { x: 0, t: PhantomData } } }
pub struct Nst2<T> { pub n: Nest<T>, pub y: T }
pub fn probe(rep: &mut Rep, id: &str, what: &str, want: bool, got: bool) {
    rep.evals += 1;
    if want != got { rep.viol(id, "bounds", what, if want { "the impl holds" } else { "the impl does not hold" }, if got { "the impl holds" } else { "the impl does not hold" }); } else { rep.nontrivial += got as usize; }
}
/// shows and parses anything, whatever the type
pub struct Wany;
impl<T> parse_display::DisplayFormat<T> for Wany { fn write(&self, f: &mut fmt::Formatter, _: &T) -> fmt::Result { f.write_str("w") } }
impl<T> parse_display::FromStrFormat<T> for Wany { type Err = KErr; fn parse(&self, s: &str) -> Result<T, KErr> { Err(KErr) } }
'''.replace('\n', ' \n')
INST = ['No', 'D', 'De', 'X', 'Pt', 'B', 'Fs', 'Fsr', 'Cl', 'All']


def split_items(text):
    out, cur, depth, q = [], '', 0, False
    prev = ''
    for c in text:
        if c == '"':
            q = not q
        elif not q and c in '<([':
            depth += 1
        elif not q and (c in ')]' or (c == '>' and prev != '-')):
            depth -= 1
        if c == ',' and depth == 0 and not q:
            out.append(cur)
            cur = ''
        else:
            cur += c
        prev = c
    out.append(cur)
    res = []
    for x in out:
        x = x.strip()
        if x.startswith('"'):
            res += split_items(x[1:-1])
        elif x:
            res.append(x)
    return res


def level(texts):
    """texts: None or a list of the bound(...) arguments -> (types, preds, extends)"""
    if texts is None:
        return [], [], True
    tys, preds, ext = [], [], False
    for x in split_items(texts.replace(';;', ',')):
        if x == '..':
            ext = True
        elif re.search(r'(?<!:):(?!:)', x):
            preds.append(x)
        else:
            tys.append(x)
    return tys, preds, ext


def mentions(ty, params):
    t = re.sub(r'(?:\w+)::', lambda m: m.group(0), ty)
    return any(re.search(r'(?<![\w:\'])%s(?!\w)' % re.escape(p), t) for p in params)


def requirements(p, params, which):
    """Specification: list of 'type: trait' predicates of the impl; which in 'D', 'F'."""
    tr0 = '::core::fmt::Display' if which == 'D' else 'FromStr'
    req = []

    def own(o):
        return o.bound if which == 'D' else (o.fs_bound if o.fs_bound is not None else o.bound)

    def add(lv):
        req.extend('%s: %s' % (t, tr0) for t in lv[0])
        req.extend(lv[1])

    def body(v, ext):
        if which == 'D':
            fmts = [x for x in p.vfmt(v) if x[0] == 'var']
            for _, arg, spec in fmts:
                keys = path_keys(arg)
                if len(keys) != 1:
                    continue
                f = v.field(keys[0])
                lv = level(own(f)) if ext else ([], [], False)
                add(lv)
                if not lv[2] or f.with_:
                    continue
                ty = f.vty()
                specs = [spec] if f.fmt is None else [s for k, a, s in [x for x in split_format(f.fmt) if x[0] == 'var'] if a == '']
                if mentions(ty, params):
                    req.extend('%s: ::core::fmt::%s' % (ty, spec_trait(s)) for s in specs)
        else:
            vp = [x for x in p.parse_spec() if x.v is v]
            if not vp:
                return
            for f, base, _ in vp[0].sources():
                lv = level(own(f)) if ext else ([], [], False)
                add(lv)
                if lv[2] and base[0] == 'cap' and not f.with_ and not f.fs_with and not f.infer and not vp[0].infer_all and mentions(f.vty(), params):
                    req.append('%s: FromStr' % f.vty())
    top = level(own(p.body))
    add(top)
    if p.is_enum:
        for v in p.variants:
            if which == 'F' and v.ignore:
                continue
            lv = level(own(v)) if top[2] else ([], [], False)
            add(lv)
            body(v, lv[2])
    else:
        body(p.body, top[2])
    return list(dict.fromkeys(req))


def subst(s, env):
    for k, x in env.items():
        s = re.sub(r'(?<![\w:])%s::A\b' % k, '<%s as Tr>::A' % x, s)
        s = re.sub(r'(?<![\w:\'])%s\b' % k, x, s)
    return s


def programs():
    r = []

    def a(p, params=('T',), always=(), name=None):
        p.params, p.always = params, list(always)
        p.derive_std = False
        r.append(p)
    TYPES = ['T', 'Vec<T>', 'Dsp<T>', 'Dbg<T>', '(T, u8)', '[T; 2]', 'Option<T>', 'core::marker::PhantomData<T>', 'fn(T) -> u8', 'Box<T>', '&\'static T', 'Result<u8, T>', 'Box<dyn Fn(T) -> T>', '*const T', 'Box<[T]>', 'Cln<Dsp<T>>', '::std::rc::Rc<T>', '<T as Tr>::A', 'T::A', 'Free<T>', 'u8', 'Free<u8>']
    SPECS = ['', '?', 'x', 'X', 'o', 'b', 'e', 'E', 'p', '>5', '#?', '08.3', '#x']
    for i, ty in enumerate(TYPES):
        g = '<T: Tr + \'static>' if 'Tr>' in ty or '::A' in ty else ('<T: \'static>' if "'static" in ty or 'dyn' in ty else '<T>')
        tail = [] if 'T' in ty else [F('ph', 'PhantomData<T>', default=True)]
        for k in range(5):
            sp = SPECS[(i * 3 + k * 4) % len(SPECS)]
            if ty == 'u8' and sp == 'p':
                continue
            ph = '{a%s}' % (':' + sp if sp else '')
            a(P(V('G', [F('a', ty)] + tail, fmt=ph), generics=g, derive='D', name='G'))
        a(P(V('G', [F('a', ty)] + tail, fmt='{a}'), generics=g, derive='DF' if '\'static T' not in ty else 'D', name='G'))
        a(P(V(None), variants=[V('A', [F('0', ty)] + [F('1', 'PhantomData<T>', default=True)] * bool(tail), fmt='{0}'), V('Bq')], generics=g, derive='DF', name='G'))
    ph = F('ph', 'PhantomData<(T, U)>', default=True)
    for s in ['?', 'x', 'b', 'p']:
        a(P(V('G', [F('a', 'T'), F('b', 'U')], fmt='{a:%s}{b}' % s), generics='<T, U>', derive='D', name='G'), 'TU')
        a(P(V('G', [F('a', 'T'), F('b', 'U')], fmt='{a:%s}{a}{b:?}' % s), generics='<T, U>', derive='D', name='G'), 'TU')
        a(P(V('G', [F('a', 'T', fmt='<{:%s}>' % s), F('b', 'U', fmt='{:?}{}')], fmt='{a}{b}'), generics='<T, U>', derive='D', name='G'), 'TU')
        a(P(V(None, fmt='{0:%s}' % s), variants=[V('A', [F('0', 'T')]), V('B', [F('0', 'U')], fmt='{0}'), V('C', fmt='c')], generics='<T, U>', derive='D', name='G'), 'TU')
        a(P(V('G', [F('a', 'Option<T>', opt=True), F('b', 'Option<U>', opt=True, fmt='{:%s}' % s)], fmt='{a}{b}'), generics='<T, U>', derive='D', name='G'), 'TU')
    # not in the format, with, opt, nested
    for d in ('D', 'F'):
        D = dict(derive=d, generics='<T, U>', name='G')
        a(P(V('G', [F('a', 'T'), F('b', 'Cln<U>' if 0 else 'PhantomData<U>', default=True)], fmt='{a}'), **D), 'TU')
        a(P(V('G', [F('a', 'T'), F('b', 'U', with_='Wany')], fmt='{a}{b}'), **D), 'TU')
        a(P(V('G', [F('a', 'T', with_='Wany'), F('b', 'U', with_='Wany', fmt='<{}>')], fmt='{a}{b}'), **D), 'TU')
        a(P(V('G', [F('a', 'Option<T>', opt=True), F('b', 'Option<U>')], fmt='{a}{b}'), **D), 'TU')
        a(P(V('G', [F('a', 'Option<T>', opt=True, with_='Wany'), F('b', 'core::option::Option<Vec<U>>', opt=True, fmt='[{}]')], fmt='{a}{b}'), **D), 'TU')
        a(P(V('G', [F('n', 'Nest<T>', default=True), F('b', 'U')], fmt='{n.x}{b}'), **D), 'TU')
        a(P(V('G', [F('n', 'Nest<T>', fmt='{x}', default=True), F('b', 'U')], fmt='{n}{b}'), **D), 'TU')
        a(P(V('G', [F('0', 'T'), F('1', 'U'), F('2', 'PhantomData<T>', default=True)], fmt='{1}{0}'), **D), 'TU')
        a(P(V('G', [F('0', 'T'), ], fmt=None), derive=d, generics='<T>', name='G'))
        a(P(V(None), variants=[V('A', [F('0', 'T')], fmt='{0}'), V('B', [F('x', 'U')], fmt='<{x}>'), V('C')], **D), 'TU')
        a(P(V(None, fmt='{0}'), variants=[V('A', [F('0', 'T')]), V('B', [F('0', 'Vec<U>')]), V('C', [F('0', 'U')], fmt='c{0}')], **D), 'TU')
        a(P(V(None), variants=[V('A', [F('0', 'T')], fmt='{0}'), V('B', [F('x', 'U')], fmt='<{x}>', ignore=True)], **D), 'TU')
        a(P(V(None), variants=[V('A', [F('0', 'T', with_='Wany')], fmt='{0}'), V('B', [F('x', 'Option<U>', opt=True)], fmt='<{x}>')], **D), 'TU')
        # existing bounds and where clauses are kept
        a(P(V('G', [F('a', 'T'), F('b', 'U')], fmt='{a}{b}'), derive=d, generics='<T: Clone, U>', name='G'), 'TU', ['T: Clone'])
        a(P(V('G', [F('a', 'T'), F('b', 'U')], fmt='{a}{b}'), derive=d, generics='<T, U>', where='where T: Clone, Vec<U>: Clone', name='G'), 'TU', ['T: Clone', 'Vec<U>: Clone'])
        a(P(V('G', [F('a', '[T; N]'), F('b', 'Arr<N>')], fmt='{a}{b}'), derive=d, generics='<T, const N: usize>', name='G',
            prelude='pub struct Arr<const N: usize>; impl fmt::Display for Arr<1> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } } impl FromStr for Arr<1> { type Err = KErr; fn from_str(s: &str) -> Result<Self, KErr> { Ok(Arr) } }'), 'TN')
        a(P(V('G', [F('a', 'r#type')], fmt='{a}'), derive=d, generics='<r#type>', name='G'), ['r#type'])
    # FromStr: captures by regex, default, regex_infer with explicit bounds
    D = dict(derive='F', generics='<T, U>', name='G')
    a(P(V('G', [F('a', 'T'), F('b', 'U')], regex='(?<a>.*),(?<b>.*)'), **D), 'TU')
    a(P(V('G', [F('a', 'T'), F('b', 'Option<U>', default=True)], regex='(?<a>.*)'), **D), 'TU')
    a(P(V('G', [F('a', 'T', default=True), F('b', 'U')], fmt='{a}{b}'), **D), 'TU')
    a(P(V('G', [F('a', 'T', regex='x'), F('b', 'U', fs_with='Wany')], fmt='{a}{b}'), **D), 'TU')
    a(P(V('G', [F('a', 'T', infer=True), F('b', 'U')], fmt='{a}{b}', fs_bound='T: parse_display::FromStrRegex, ..'), **D), 'TU')
    a(P(V('G', [F('a', 'T', infer=True, fs_bound='T: parse_display::FromStrRegex'), F('b', 'U')], fmt='{a}{b}'), **D), 'TU')
    a(P(V('G', [F('a', 'T'), F('b', 'U')], fmt='{a}{b}', infer=True, fs_bound='"T: parse_display::FromStrRegex, U: parse_display::FromStrRegex"'), **D), 'TU')
    a(P(V('G', [F('a', 'Option<T>', default=True), F('b', 'U')], fmt='{b}', new='Self { a, b }'), **D), 'TU')
    # bound attributes at every level, for both traits; field types compile under them
    OPTS = [None, '', 'T', 'T: Clone', '..', 'T, ..', 'U: Clone, ..', '..,T: Clone', '"T: Clone, U: fmt::Debug"', 'T, U', 'Vec<T>, U: Clone', '"T"', '"T, .."', '"T: Clone", U', 'T: Clone + fmt::Debug, ..', 'Dsp<T>, ..', 'fmt::Error: Clone', '"Vec<T>: Clone", ..',
            '"T: Clone, U: Clone, T: fmt::Debug"', '"T, U: Clone, Vec<U>: Clone, .."', '"T, U", "U: fmt::LowerHex", T: Clone, U: fmt::Debug', '"..", T, U: Clone, Dsp<U>, Vec<T>: Clone',
            'T ;; U: Clone', 'T: Clone ;; .. ;; U: fmt::Debug', '.. ;; "T, U: Clone"', ' ;; T', 'T: Clone, .. ;; U']
    fr = lambda bd=None, fb=None, n='a', ty='Free<T>': F(n, ty, bound=bd, fs_bound=fb)
    for i, o in enumerate(OPTS):
        for j, o2 in enumerate([None, '', 'U: Clone', '..', 'U, ..', 'T: Clone, ..']):
            d = 'DF'[(i + j) % 2] if (i * 5 + j) % 4 else 'DF'
            D = dict(derive=d, generics='<T, U>', name='G')
            if (i + j) % 2:
                a(P(V('G', [fr(o2), fr(n='b', ty='Free<U>')], fmt='{a}{b}', bound=o), **D), 'TU')
            else:
                a(P(V('G', [fr(None, o2), fr(n='b', ty='Free<U>')], fmt='{a}{b}', bound=o), **dict(D, derive='DF')), 'TU')
            a(P(V(None, bound=o), variants=[V('A', [F('0', 'Free<T>', bound=None if j % 2 else o2)], fmt='{0}', bound=o2 if j % 2 else None), V('B', [F('x', 'Free<U>')], fmt='{x}.')], **D), 'TU')
            if (i + j) % 3 == 0:
                a(P(V('G', [fr(), fr(n='b', ty='Free<U>')], fmt='{a}{b}', bound=o, fs_bound=o2), **dict(D, derive='DF')), 'TU')
                a(P(V(None), variants=[V('A', [F('0', 'Free<T>')], fmt='{0}', bound=o, fs_bound=o2), V('B', [F('x', 'Free<U>', bound=o2, fs_bound=o)], fmt='{x}.', ignore=j % 2 == 1)], **dict(D, derive='DF')), 'TU')
        # the default is added back, or not, next to a field that needs it
        if o and '..' in o:
            a(P(V('G', [fr(ty='Dbg<T>'), fr(n='b', ty='U')], fmt='{a}{b}', bound=o), derive='DF', generics='<T, U>', name='G'), 'TU')
            a(P(V('G', [fr(o, ty='Dbg<T>'), fr(n='b', ty='U')], fmt='{a}{b}'), derive='DF', generics='<T, U>', name='G'), 'TU')
            a(P(V(None), variants=[V('A', [fr(ty='T', n='0')], fmt='{0}', bound=o), V('B', [F('x', 'Dbg<U>')], fmt='{x}.')], derive='DF', generics='<T, U>', name='G'), 'TU')
    # explicit bounds that justify the body
    D = dict(derive='D', generics='<T, U>', name='G')
    a(P(V('G', [F('a', 'Dbg<T>'), F('b', 'U')], fmt='{a}{b:?}', bound='T: fmt::Debug, U: fmt::Debug'), **D), 'TU')
    a(P(V('G', [F('n', 'Nst2<T>'), F('b', 'U')], fmt='{n.y}{b}', bound='T, ..'), **D), 'TU')
    a(P(V('G', [F('n', 'Nst2<T>', fmt='{y:?}', bound='T: fmt::Debug'), F('b', 'U')], fmt='{n}{b}'), **D), 'TU')
    a(P(V('G', [F('n', 'Nst2<T>', fmt='{y:?}{n.x}', bound='T: fmt::Debug, ..'), F('b', 'U')], fmt='{n}{b}'), **D), 'TU') if False else None
    a(P(V(None), variants=[V('A', [F('0', 'Dbg<T>')], fmt='{0}', bound='T: fmt::Debug'), V('B', [F('x', 'U')], fmt='{x:x}')], **D), 'TU')
    a(P(V(None, bound='T, U: fmt::LowerHex'), variants=[V('A', [F('0', 'T')], fmt='{0}', bound='U: Clone'), V('B', [F('x', 'U')], fmt='{x:x}')], **D), 'TU')
    return [p for p in r if p]


def environments(params, i):
    one = params[0]
    if len(params) == 1:
        return [{one: x} for x in INST]
    if params[1] == 'N':
        return [{'T': x, 'N': str(n)} for x in INST for n in (1, 2)]
    envs = [dict(zip(params, (x, 'All'))) for x in INST] + [dict(zip(params, ('All', x))) for x in INST]
    envs += [dict(zip(params, (x, INST[(k * 3 + i) % len(INST)]))) for k, x in enumerate(INST)]
    return envs


def run(ck):
    progs = check.number('C17', programs())
    items = []
    for i, p in enumerate(progs):
        body = []
        generics = list(p.params)
        for env in environments(generics, i):
            bad = False
            sub = {k: v for k, v in env.items()}
            args = ', '.join(sub[k] for k in generics)
            if any('Clone' in x for x in p.always):
                # the type itself must be well-formed
                if any(not all(y in ('Cl', 'All') for y in [sub[k] for k in generics if k in ('T', 'U') and re.search(r'\b%s\b' % k, x)]) for x in p.always):
                    continue
            ty = 'G<%s>' % args
            for which, probe in (('D', 'QD'), ('F', 'QF'), ('F', 'QR')):
                if which not in p.derive:
                    continue
                req = [subst(x, sub) for x in requirements(p, generics, which)]
                want = ' && '.join('has!(%s)' % x for x in req) or 'true'
                body.append('probe(rep, id, %s, %s, %s::<%s>::H);' % (rs('%s: %s, specified: %s' % (ty, {'QD': 'Display', 'QF': 'FromStr', 'QR': 'FromStrRegex'}[probe], ' + '.join(req) or 'nothing')), want, probe, ty))
        items.append((p.id, p.source().replace('\n', ' '), ' '.join(body), p.source()))
    lines.run_lines(ck, items, 'probe', 'impl existence on instantiations', head=HEAD)
    bad = {v['key'].split(':')[0] for v in ck.viols}
    for p in progs:
        ck.obligation('impl bounds(%s)' % p.id, 'rustc trait solver', 'failed' if p.id in bad else 'discharged')
    rj = []
    d = '#[derive(parse_display::Display)] '
    for i, (s, w) in enumerate([
            (d + '#[display("{a}", bound())] pub struct T<X> { a: X }', 'nothing allows X to be shown'),
            (d + '#[display("{a}", bound(X: Clone))] pub struct T<X> { a: X }', 'the bound replaces the default'),
            (d + '#[display("{a}")] pub struct T<X> { #[display(bound(X: Clone))] a: X }', 'the bound replaces the default'),
            (d + '#[display("{a.0}")] pub struct T<X> { a: (X, u8) }', 'a nested field is not bounded by default'),
            (d + 'pub enum T<X> { #[display("{0}", bound())] A(X) }', 'the bound replaces the default'),
            (d + '#[display(bound())] pub enum T<X> { #[display("{0}", bound(X))] A(X) }', 'the enum does not extend'),
            ('#[derive(parse_display::FromStr)] #[display("{a}", bound(X))] #[from_str(bound())] pub struct T<X> { a: X }', 'from_str bounds override'),
            ('#[derive(parse_display::FromStr)] #[display("{a}", bound())] pub struct T<X> { a: X }', 'display bounds apply to parsing'),
            (d + '#[display("{a}", bound(X, 5))] pub struct T<X> { a: X }', 'not a bound'),
            (d + '#[display("{a}", bound("X :"))] pub struct T<X> { a: Y }', 'unknown type'),
            (d + '#[display("{a}", bound(= 3))] pub struct T<X> { a: X }', 'not a bound')]):
        rj.append(('c17r_%d' % i, s, w))
    reject.check_reject(ck, rj)
    check.verus(ck, ['bounds', 'attrs', 'syntax', 'types', 'implfn', 'dbounds', 'fbounds'])
