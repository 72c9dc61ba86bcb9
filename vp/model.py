"""Program descriptors and the specification (oracle) of the derives.

A descriptor describes a type and its attributes.  From it this module emits
  * the Rust type with its attributes (input to the real macro of /repo), and
  * the specification functions spec_fmt / spec_build / spec_items, written from the documentation and the
    property texts only - never from the macro's output.
"""
import re, json


def rs(s):
    """Rust string literal."""
    out = '"'
    for c in s:
        if c in '\\"':
            out += '\\' + c
        elif c == '\n':
            out += '\\n'
        elif c == '\r':
            out += '\\r'
        elif c == '\t':
            out += '\\t'
        elif ord(c) < 32 or ord(c) == 127:
            out += '\\u{%x}' % ord(c)
        else:
            out += c
    return out + '"'


class SpecError(Exception):
    """The documentation does not allow this program (a compile error is expected)."""


# ---------------------------------------------------------------- format strings

def split_format(s):
    """-> list of ('lit', text) / ('var', arg, spec).  Raises SpecError."""
    out = []
    i = 0

    def lit(t):
        if out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + t)
        else:
            out.append(('lit', t))
    while i < len(s):
        if s.startswith('{{', i):
            lit('{')
            i += 2
        elif s.startswith('}}', i):
            lit('}')
            i += 2
        elif s[i] == '}':
            raise SpecError('unmatched }')
        elif s[i] == '{':
            j = i + 1
            while j < len(s) and s[j] not in ':{}':
                j += 1
            if j >= len(s) or s[j] == '{':
                raise SpecError('unmatched {')
            arg = s[i + 1:j]
            spec = ''
            if s[j] == ':':
                k = s.find('}', j + 1)
                if k < 0:
                    raise SpecError('unmatched {')
                spec = s[j + 1:k]
                j = k
            out.append(('var', arg, spec))
            i = j + 1
        else:
            lit(s[i])
            i += 1
    return out


SPEC_RE = re.compile(r'^(?:(?P<fill>.)?(?P<align>[<>^]))??(?P<sign>[+-])?(?P<alt>#)?(?P<zero>0)?(?P<width>\d+)?'
                     r'(?:\.(?P<prec>\d+))?(?P<ty>|\?|x\?|X\?|o|x|X|p|b|e|E)\Z', re.S)


def spec_trait(spec):
    m = SPEC_RE.match(spec)
    if not m:
        raise SpecError('unknown format trait')
    return {'': 'Display', '?': 'Debug', 'x?': 'Debug', 'X?': 'Debug', 'o': 'Octal', 'x': 'LowerHex', 'X': 'UpperHex',
            'p': 'Pointer', 'b': 'Binary', 'e': 'LowerExp', 'E': 'UpperExp'}[m.group('ty')]


def unraw(s):
    return s[2:] if s.startswith('r#') else s


KEYWORDS = set('as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen'.split())


def mem(k):
    return 'r#' + k if k in KEYWORDS else k


def path_keys(arg):
    return [unraw(x) for x in arg.split('.')] if arg else []


# ---------------------------------------------------------------- styles

STYLES = {  # first word's first letter, later words' first letter, rest, separator
    'lowercase': ('l', 'l', 'l', ''), 'UPPERCASE': ('U', 'U', 'U', ''),
    'snake_case': ('l', 'l', 'l', '_'), 'SNAKE_CASE': ('U', 'U', 'U', '_'),
    'camelCase': ('l', 'U', 'l', ''), 'CamelCase': ('U', 'U', 'l', ''),
    'kebab-case': ('l', 'l', 'l', '-'), 'KEBAB-CASE': ('U', 'U', 'U', '-'),
    'Title Case': ('U', 'U', 'l', ' '), 'Title case': ('U', 'l', 'l', ' '),
    'title case': ('l', 'l', 'l', ' '), 'TITLE CASE': ('U', 'U', 'U', ' '),
}


def _up(c):
    return c.upper() if c.isascii() else c


def _lo(c):
    return c.lower() if c.isascii() else c


def style_words(name):
    """Words: maximal alphanumeric runs, cut before an ASCII upper-case letter whose predecessor is not one."""
    words = []
    for run in re.findall(r'[^\W_]+', name):
        cur = ''
        for c in run:
            if cur and 'A' <= c <= 'Z' and not ('A' <= cur[-1] <= 'Z'):
                words.append(cur)
                cur = ''
            cur += c
        words.append(cur)
    return words


def apply_style(style, name):
    name = unraw(name)
    if style in (None, 'none'):
        return name
    if style not in STYLES:
        raise SpecError('style')
    h, w, n, sep = STYLES[style]
    out = []
    cut_words = style_words(name)
    # A word starting after a separator char is cut even if its predecessor run ended in upper case (handled by runs).
    for i, word in enumerate(cut_words):
        head = h if i == 0 else w
        out.append((_up if head == 'U' else _lo)(word[0]) + ''.join((_up if n == 'U' else _lo)(c) for c in word[1:]))
    return sep.join(out)


# ---------------------------------------------------------------- descriptors

# types of the members of the support structs (default: K)
MEMBER_TYPES = {('MM', 'm'): 'M', ('MS', 's'): 'S'}


def several(name, text):
    """name(text), the parts separated by ;; in attributes of their own"""
    a = ['%s(%s)' % (name, x.strip()) for x in text.split(';;')]
    return a[:1] + [('own', x) for x in a[1:]]


class F:
    """A field."""

    def __init__(self, name, ty='K', fmt=None, with_=None, fs_with=None, opt=False, regex=None, infer=False,
                 default=False, bound=None, fs_bound=None, raw_attrs=''):
        self.__dict__.update(locals())
        del self.__dict__['self']

    @property
    def inner(self):
        m = re.match(r'^(?:(?:std|core|::std|::core)::option::|option::)?Option<(.*)>$', self.ty)
        return m.group(1) if m else None

    def vty(self):
        return self.inner if self.opt else self.ty

    def key(self):
        return unraw(str(self.name))

    def attrs(self):
        d, s = [], []
        if self.fmt is not None:
            d.append(rs(self.fmt))
        if self.with_:
            d.append('with = ' + self.with_)
        if self.opt:
            d.append('opt')
        if self.bound is not None:
            d += several('bound', self.bound)
        if self.fs_with:
            s.append('with = ' + self.fs_with)
        if self.regex is not None:
            s.append('regex = ' + rs(self.regex))
        if self.infer:
            s.append('regex_infer')
        if self.default:
            s.append('default')
        if self.fs_bound is not None:
            s += several('bound', self.fs_bound)
        return d, s


class V:
    """A struct body or a variant."""

    def __init__(self, name, fields=(), fmt=None, kind=None, style=None, regex=None, infer=False, new=None, default=False,
                 ignore=False, bound=None, fs_bound=None, default_fields=(), new_plain=False, df_text=None):
        fields = list(fields)
        if kind is None:
            kind = 'unit' if not fields else ('tuple' if str(fields[0].name).isdigit() else 'named')
        self.name, self.fields, self.fmt, self.kind, self.style, self.regex = name, fields, fmt, kind, style, regex
        self.infer, self.new, self.default, self.ignore = infer, new, default, ignore
        self.new_plain = new_plain
        self.bound, self.fs_bound, self.default_fields, self.df_text = bound, fs_bound, default_fields, df_text

    def field(self, key):
        for f in self.fields:
            if f.key() == key:
                return f
        raise SpecError('unknown field ' + key)

    def attrs(self):
        d, s = [], []
        if self.fmt is not None:
            d.append(rs(self.fmt))
        if self.style:
            d.append('style = ' + rs(self.style))
        if self.bound is not None:
            d += several('bound', self.bound)
        if self.regex is not None:
            s.append('regex = ' + rs(self.regex))
        if self.infer:
            s.append('regex_infer')
        if self.new:
            s.append('new = ' + self.new)
        if self.default:
            s.append('default')
        if self.ignore:
            s.append('ignore')
        if self.fs_bound is not None:
            s += several('bound', self.fs_bound)
        if self.default_fields:
            s += several('default_fields', self.df_text or ', '.join(rs(x) for x in self.default_fields))
        return d, s


def attr_lines(ds, use_fs=True, split=0):
    """split: 1 every option in an attribute of its own, 2 the same with from_str before display"""
    d, s = ds
    out = []
    for name, xs in (('display', d), ('from_str', s if use_fs else [])):
        if xs and split:
            out.append(['#[%s(%s)]' % (name, x[1] if isinstance(x, tuple) else x) for x in xs])
        elif xs:
            out.append(['#[%s(%s)]' % (name, ', '.join(x for x in xs if not isinstance(x, tuple)))] + ['#[%s(%s)]' % (name, x[1]) for x in xs if isinstance(x, tuple)])
    return sum(out[::-1] if split == 2 else out, [])


class P:
    """A program: one type with derives."""
    split = 0

    def __init__(self, body, variants=None, derive='DF', prelude='', impls='', tags=(), kani=True, name='T',
                 derive_std=True, generics='', targs='', note='', inputs=(), values=None, roundtrip=False, where=''):
        self.body, self.variants = body, variants
        self.derive = derive            # 'D', 'F' or both
        self.prelude, self.impls = prelude, impls
        self.tags, self.kani, self.name, self.derive_std = set(tags), kani, name, derive_std
        self.generics, self.targs, self.note, self.inputs, self.values = generics, targs, note, inputs, values
        self.roundtrip, self.where = roundtrip, where

    @property
    def is_enum(self):
        return self.variants is not None

    # ---- source of the type
    def source(self):
        der = [x for x, c in (('Display', 'D'), ('FromStr', 'F')) if c in self.derive]
        o = []
        if self.prelude:
            o.append(self.prelude)
        std = ''
        if self.derive_std is True:
            std = ', PartialEq, Debug, Clone'
        elif self.derive_std:
            std = ', ' + self.derive_std
        o.append('#[derive(%s%s)]' % (', '.join('parse_display::' + x for x in der), std))
        fs = 'F' in self.derive
        o += attr_lines(self.body.attrs(), fs, self.split)

        def fields(v, pub):
            out = []
            for f in v.fields:
                a = ' '.join(attr_lines(f.attrs(), fs, self.split))
                if f.raw_attrs:
                    a += ' ' + f.raw_attrs
                p = 'pub ' if pub else ''
                out.append((a + ' ' if a else '') + p + (f.ty if v.kind == 'tuple' else '%s: %s' % (f.name, f.ty)))
            return ', '.join(out)
        if self.is_enum:
            o.append('pub enum %s%s {' % (self.name, self.generics))
            for v in self.variants:
                o += attr_lines(v.attrs(), fs, self.split)
                b = {'unit': '', 'tuple': '(%s)' % fields(v, False), 'named': ' { %s }' % fields(v, False)}[v.kind]
                o.append('%s%s,' % (v.name, b))
            o.append('}')
        else:
            v = self.body
            w = (' ' + self.where) if self.where else ''
            if v.kind == 'named':
                o.append('pub struct %s%s%s { %s }' % (self.name, self.generics, w, fields(v, True)))
            elif v.kind == 'tuple':
                o.append('pub struct %s%s(%s)%s;' % (self.name, self.generics, fields(v, True), w))
            else:
                o.append('pub struct %s%s%s;' % (self.name, self.generics, w))
        if self.impls:
            o.append(self.impls)
        return '\n'.join(o)

    # ---- Display specification
    def the_variants(self):
        return self.variants if self.is_enum else [self.body]

    def vstyle(self, v):
        st = v.style or (self.body.style if self.is_enum else None)
        return st

    def vname(self, v):
        return apply_style(self.vstyle(v), v.name)

    def vfmt(self, v):
        """Format used for Display of v (list of parts)."""
        fmt = v.fmt
        if fmt is None and self.is_enum:
            fmt = self.body.fmt
        if fmt is not None:
            return split_format(fmt)
        if self.is_enum:
            if v.kind == 'unit':
                return [('var', '', '')]
            raise SpecError('format required')
        if len(v.fields) == 1:
            return [('var', v.fields[0].key(), '')]
        raise SpecError('format required')

    def spec_fmt(self):
        o = ['#[allow(unused)] pub fn spec_fmt(v: &%s%s, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {'
             % (self.name, self.targs)]
        if not self.is_enum:
            o += self._render(self.vfmt(self.body), dict(kind='struct', v=self.body, get=lambda k: 'v.' + member(self.body, k)))
            o += ['Ok(())', '}']
            return '\n'.join(o)
        if not self.variants:
            return '\n'.join(o + ['match *v {}', '}'])
        o.append('match v {')
        for v in self.variants:
            binds = {f.key(): 'b_' + f.key() for f in v.fields}
            if v.kind == 'unit':
                pat = '%s::%s' % (self.name, v.name)
            elif v.kind == 'tuple':
                pat = '%s::%s(%s)' % (self.name, v.name, ', '.join(binds[f.key()] for f in v.fields))
            else:
                pat = '%s::%s { %s }' % (self.name, v.name, ', '.join('%s: %s' % (f.name, binds[f.key()]) for f in v.fields))
            o.append(pat + ' => {')
            o += self._render(self.vfmt(v), dict(kind='variant', v=v, get=lambda k, b=binds: '(*%s)' % b[k]))
            o.append('}')
        o += ['}', 'Ok(())', '}']
        return '\n'.join(o)

    def _render(self, parts, cx):
        o = []
        for p in parts:
            if p[0] == 'lit':
                o.append('f.write_str(%s)?;' % rs(p[1]))
            else:
                o += self._placeholder(p[1], p[2], cx)
        return o

    def _w(self, spec, expr):
        return ['write!(f, %s, %s)?;' % (rs('{' + ((':' + spec) if spec else '') + '}'), expr)]

    def _leaf(self, expr, spec, with_):
        if with_:
            if spec_trait(spec) != 'Display':
                raise SpecError('with and trait')
            return self._w(spec, 'Wd(|f: &mut ::core::fmt::Formatter| parse_display::DisplayFormat::write(&%s, f, &%s))' % (with_, expr))
        return self._w(spec, '&' + expr if spec_trait(spec) != 'Pointer' else expr)

    def _placeholder(self, arg, spec, cx):
        keys = path_keys(arg)
        spec_trait(spec)
        if not keys:
            if cx['kind'] in ('struct', 'variant') and spec_trait(spec) != 'Display':
                return self._w(spec, 'v')
            if cx['kind'] == 'struct':
                raise SpecError('{} in struct')
            if cx['kind'] == 'variant':
                return self._w(spec, rs(self.vname(cx['v'])))
            return self._leaf(cx['expr'], spec, cx['with'])
        if cx['kind'] in ('struct', 'variant'):
            f = cx['v'].field(keys[0])
            if len(keys) > 1:
                return self._w(spec, '&' + cx['get'](keys[0]) + ''.join('.' + mem(k) for k in keys[1:]))
            return self._field(f, cx['get'](f.key()), spec)
        return self._w(spec, '&' + cx['expr'] + ''.join('.' + mem(k) for k in keys))

    def _field(self, f, expr, spec):
        if f.opt:
            if f.inner is None:
                raise SpecError('opt')
            if spec_trait(spec) != 'Display':
                raise SpecError('opt with trait: undocumented')
            body = self._field_body(f, '(*ov)', spec)
            return ['match &%s { Some(ov) => {' % expr] + body + ['} None => {} }']
        return self._field_body(f, expr, spec)

    def _field_body(self, f, expr, spec):
        cx = dict(kind='field', expr=expr, **{'with': f.with_})
        if f.fmt is not None:
            return self._render(split_format(f.fmt), cx)
        return self._leaf(expr, spec, f.with_)

    # ---- FromStr specification
    def parse_spec(self):
        """-> list of VariantParse in declaration order (ignored variants left out)."""
        out = []
        for i, v in enumerate(self.the_variants()):
            if v.ignore and self.is_enum:
                continue
            out.append(VP(self, v, i))
        return out


def member(v, key):
    for f in v.fields:
        if f.key() == key:
            return str(f.name)
    raise SpecError('unknown field ' + key)


CAP_RE = re.compile(r'(?P<esc>\\*)\(\?(?P<p>P?)<(?P<key>[\w.]*)>')
ANY = None


class VP:
    """What FromStr must do for one struct/variant: items to match, captures, construction."""

    def __init__(self, prog, v, index):
        self.prog, self.v, self.index = prog, v, index
        self.caps = []        # list of key paths, in order of group number (1-based); unnamed user groups are None
        self.items = []
        self.infer_all = v.infer or (prog.is_enum and prog.body.infer) or (not prog.is_enum and prog.body.infer)
        self.cap_index = {}
        if v.regex is not None:
            self._user_regex(v.regex, None)
        elif v.fmt is not None:
            self._fmt(split_format(v.fmt), None, None)
        elif prog.is_enum and prog.body.regex is not None:
            self._user_regex(prog.body.regex, None)
        else:
            self._fmt(prog.vfmt(v), None, None)
        self.lit = None
        if all(i[0] == 'lit' for i in self.items) and not self._has_regex():
            self.lit = ''.join(i[1] for i in self.items)

    def _has_regex(self):
        return any(i[0] != 'lit' for i in self.items)

    def _cap(self, path):
        path = tuple(path)
        if path in self.cap_index:
            raise SpecError('duplicate capture')   # a regex with the same group twice does not compile
        self.caps.append(path)
        self.cap_index[path] = len(self.caps)
        return len(self.caps)

    def _fmt(self, parts, field, regex, out=None):
        out = self.items if out is None else out
        for p in parts:
            if p[0] == 'lit':
                out.append(('lit', p[1]))
                continue
            keys = path_keys(p[1])
            if field is None:
                if not keys:
                    if not self.prog.is_enum:
                        raise SpecError('{} in struct: undefined for FromStr')
                    out.append(('lit', self.prog.vname(self.v)))
                    continue
                if len(keys) == 1:
                    self._field(self.v.field(keys[0]), out)
                    continue
                self.v.field(keys[0])
                out.append(('any', self._cap(keys)))
            else:
                if keys:
                    out.append(('any', self._cap([field.key()] + keys)))
                    continue
                n = self._cap([field.key()])
                if regex is not None:
                    self.caps += [None] * text_unnamed(regex)
                    out.append(('re', n, regex))
                    continue
                pat = self._pattern(field)
                out.append(('any', n) if pat is None else ('with', n, pat))

    def with_of(self, f):
        if f.fs_with:
            return f.fs_with
        if f.with_:
            return f.with_
        return None

    def _pattern(self, f):
        w = self.with_of(f)
        if w:
            return 'pattern_of::<%s>(&%s)' % (f.vty(), w)
        if f.infer or self.infer_all:
            return 'infer_of::<%s>()' % f.vty()
        return None

    def _field(self, f, out):
        target = out
        if f.opt:
            if f.inner is None:
                raise SpecError('opt')
            target = []
        if f.regex is not None:
            self._user_regex(f.regex, f, target)
        elif f.fmt is not None:
            self._fmt(split_format(f.fmt), f, None, target)
        else:
            self._fmt([('var', '', '')], f, None, target)
        if f.opt:
            out.append(('opt', target))

    def _user_regex(self, text, field, out=None):
        out = self.items if out is None else out
        has = False
        res = ''
        i = 0
        # walk the regex: escapes, classes, groups (corpus regexes use no comments/x-mode)
        in_class = False
        while i < len(text):
            c = text[i]
            if c == '\\':
                res += text[i:i + 2]
                i += 2
                continue
            if in_class:
                if c == ']':
                    in_class = False
                res += c
                i += 1
                continue
            if c == '[':
                in_class = True
                res += c
                i += 1
                continue
            if c == '(':
                m = re.match(r'\(\?P?<([\w.]*)>', text[i:])
                if m:
                    has = True
                    key = m.group(1)
                    keys = path_keys(key)
                    if field is None and not keys:
                        if not self.prog.is_enum:
                            raise SpecError('empty capture in struct regex')
                        # the whole group is replaced by the literal name
                        j = self._group_end(text, i)
                        res += '(?:' + rx_escape(self.prog.vname(self.v)) + ')'
                        i = j
                        continue
                    path = ([field.key()] if field is not None else []) + keys
                    if field is None:
                        self.v.field(keys[0])
                    n = self._cap(path)
                    res += '(?<g%d>' % n
                    i += m.end()
                    continue
                if not text.startswith('(?', i):
                    self.caps.append(None)
                res += c
                i += 1
                continue
            res += c
            i += 1
        if field is not None and not has:
            unnamed = text_unnamed(text)
            for _ in range(unnamed):
                self.caps.pop()
            if field.fmt is not None:
                return self._fmt(split_format(field.fmt), field, text, out)
            # the whole regex is the field's text; its group number precedes its own unnamed groups
            n = self._cap([field.key()])
            self.caps += [None] * unnamed
            out.append(('raw', '(?<g%d>%s)' % (n, res)))
            return
        out.append(('raw', res))

    def _group_end(self, text, i):
        depth = 0
        while i < len(text):
            c = text[i]
            if c == '\\':
                i += 2
                continue
            if c == '(':
                depth += 1
            if c == ')':
                depth -= 1
                if depth == 0:
                    return i + 1
            i += 1
        raise SpecError('unbalanced')

    # -- construction
    def sources(self):
        """per field: ('cap', n) | ('default',) | ('self',) | error; plus deep list"""
        res = []
        use_default = self.v.default or (False if self.prog.is_enum else self.prog.body.default)
        for f in self.v.fields:
            key = f.key()
            deep = [(p[1:], n) for p, n in self.cap_index.items() if p[0] == key and len(p) > 1]
            deep.sort(key=lambda d: d[1])
            if (key,) in self.cap_index:
                base = ('cap', self.cap_index[(key,)])
            elif f.default or key in self.v.default_fields or (self.prog.is_enum and key in self.prog.body.default_fields):
                base = ('default',)
            elif use_default and not self.v.new:
                base = ('self',)
            else:
                raise SpecError('field `%s` is not appear in format' % key)
            res.append((f, base, deep))
        return res

    def _conv(self, f, n):
        w = self.with_of(f)
        ty = f.vty()
        e = 'conv_with::<%s, _>(&%s, %%s)' % (ty, w) if w else 'conv::<%s>(%%s)' % ty
        if f.opt:
            return 'match g(%d) { None => None, Some(t) => Some(%s.ok_or(%s)?) }' % (n, e % 't', rs(f.key()))
        return '%s.ok_or(%s)?' % (e % ('g(%d).unwrap_or("")' % n), rs(f.key()))

    def build_src(self, fname):
        p, v = self.prog, self.v
        o = ['#[allow(unused)] pub fn %s(g: &dyn Fn(usize) -> Option<&\'static str>) -> Result<%s%s, &\'static str> {'
             % (fname, p.name, p.targs)]
        src = self.sources()
        selfdef = any(b[0] == 'self' for _, b, _ in src) or (v.default and not p.is_enum and not v.new)
        if selfdef:
            o.append('let d0 = <%s%s as Default>::default();' % (p.name, p.targs))
        for f, base, deep in src:
            var = 'x_' + f.key()
            if base[0] == 'cap':
                e = self._conv(f, base[1])
            elif base[0] == 'default':
                e = 'Default::default()'
            else:
                e = 'd0.%s.clone()' % f.name
            o.append('let mut %s: %s = %s;' % (var, f.ty, e))
            for path, n in deep:
                o.append('%s.%s = conv_any(g(%d).unwrap_or("")).ok_or(%s)?;' % (var, '.'.join(map(mem, path)), n, rs(f.key() + '.' + '.'.join(path))))
        if v.new:
            for f, _, _ in src:
                nm = f.name if v.kind != 'tuple' else '_' + f.key()
                o.append('let %s = x_%s;' % (nm, f.key()))
            e = v.new.replace('Self', p.name)
            if v.new_plain:
                e = 'Plain(%s)' % e
            o.append('spec_into(%s).ok_or("new")' % e)
        else:
            ctor = p.name if not p.is_enum else '%s::%s' % (p.name, v.name)
            if v.kind == 'unit':
                o.append('Ok(%s)' % ctor)
            elif v.kind == 'tuple':
                o.append('Ok(%s(%s))' % (ctor, ', '.join('x_' + f.key() for f, _, _ in src)))
            else:
                o.append('Ok(%s { %s })' % (ctor, ', '.join('%s: x_%s' % (f.name, f.key()) for f, _, _ in src)))
        o.append('}')
        return '\n'.join(o)

    def fails_src(self, fname):
        o = ['#[allow(unused)] pub fn %s(g: &dyn Fn(usize) -> Option<&\'static str>) -> Vec<&\'static str> { let mut r: Vec<&\'static str> = vec![];' % fname]
        for f, base, deep in self.sources():
            if base[0] == 'cap':
                o.append('{ let h = || -> Result<%s, &\'static str> { Ok(%s) }; if h().is_err() { r.push(%s); } }' % (f.ty, self._conv(f, base[1]), rs(f.key())))
            for path, n in deep:
                o.append('if !deep_ok::<%s>(g(%d).unwrap_or("")) { r.push(%s); }' % (self.v_deep_ty(f, path), n, rs(f.key() + '.' + '.'.join(path))))
        o.append('r }')
        return '\n'.join(o)

    def v_deep_ty(self, f, path):
        ty = f.ty
        for k in path:
            ty = MEMBER_TYPES.get((ty, k), 'K')
        return ty

    def items_src(self):
        def it(i):
            if i[0] == 'lit':
                return 'It::Lit(%s)' % rs(i[1])
            if i[0] == 'any':
                return 'It::Any(%d)' % i[1]
            if i[0] == 're':
                return 'It::Pat(%d, %s.to_string(), false)' % (i[1], rs(i[2]))
            if i[0] == 'with':
                return 'It::Pat(%d, %s, true)' % (i[1], i[2])
            if i[0] == 'raw':
                return 'It::Raw(%s.to_string())' % rs(i[1])
            if i[0] == 'opt':
                return 'It::Opt(vec![%s])' % ', '.join(it(x) for x in i[1])
        return 'vec![%s]' % ', '.join(it(x) for x in self.items)


def text_unnamed(text):
    n = 0
    i = 0
    cls = False
    while i < len(text):
        c = text[i]
        if c == '\\':
            i += 2
            continue
        if cls:
            cls = c != ']'
        elif c == '[':
            cls = True
        elif c == '(' and not text.startswith('(?', i):
            n += 1
        i += 1
    return n


def rx_escape(s):
    return re.sub(r'([\\.+*?()|\[\]{}^$#&\-~])', r'\\\1', s)
