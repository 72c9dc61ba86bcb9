"""Layer V: functions of /repo, extracted mechanically from the current sources on every run, with Verus contracts.

What the extraction does to a function (nothing else):
  * comments and attributes are dropped; types become `pub`,
  * the result is given a name (`-> T` becomes `-> (r: T)`), the contract is put behind the signature,
  * `for PAT in EXPR {` becomes `for PAT in itN: EXPR <invariants> {`; where the body has a `continue`, which Verus does not take there,
    `let mut itN = EXPR; loop <invariants> { match itN.next() { None => break, Some(PAT) => {` instead; `while`/`loop` get their invariants,
  * ghost statements (`proof { }` / assertions / `let ghost`) are put at the start of the body, at the start or the end of a loop body or
    behind a loop; these hooks are addressed by the loop's number, never by the text of the code,
  * a method of a foreign type is sent to an assumed contract by renaming (`.strip_prefix(` -> `.vx_strip_prefix(`): the list is per unit,
  * where the unit asks for it, `quote! { .. }` becomes a chain of appends (see `quotes`): the tokens it writes are kept literally,
  * a function of a trait impl is verified as an inherent function of the type where the unit says so.
A missing function, a different number of loops or code outside Verus' reach leaves the obligations of that function undecided."""
from concurrent.futures import ThreadPoolExecutor
import os, re, json, glob
import emit

REPO = emit.REPO
SRC = {'derive': 'parse-display-derive/src', 'core': 'parse-display/src', 'with': 'parse-display-with/src'}


class Lost(Exception):
    pass


TOK = re.compile(r'''(?P<ws>\s+)|(?P<lc>//[^\n]*)|(?P<raw>b?r(?P<h>\#*)".*?"(?P=h))|(?P<str>b?"(?:\\.|[^"\\])*")|(?P<chr>b?'(?:\\(?:x..|u\{[^}]*\}|.)|[^'\\])')|(?P<life>'[A-Za-z_]\w*)|(?P<id>r\#[A-Za-z_]\w*|[^\W\d]\w*)|(?P<num>\d[\w]*)|(?P<op>.)''', re.S)


def lex(src):
    """-> list of (kind, text); comments are dropped."""
    res, i, n = [], 0, len(src)
    while i < n:
        if src.startswith('/*', i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith('/*', j):
                    d += 1; j += 2
                elif src.startswith('*/', j):
                    d -= 1; j += 2
                else:
                    j += 1
            i = j
            res.append(('ws', ' '))
            continue
        m = TOK.match(src, i)
        k = m.lastgroup if m.lastgroup != 'h' else 'raw'
        t = m.group(0)
        if m.group('raw') is not None:
            k = 'raw'
        i = m.end()
        if k == 'lc':
            res.append(('ws', '\n'))
        else:
            res.append((k, t))
    return res


OPEN, CLOSE = {'(': ')', '[': ']', '{': '}'}, {')', ']', '}'}


def close_of(t, i):
    """index of the bracket closing the one at i"""
    d = 0
    for j in range(i, len(t)):
        if t[j][0] == 'op':
            if t[j][1] in OPEN:
                d += 1
            elif t[j][1] in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise Lost('unbalanced source')


def strip_attrs(t):
    """drops #[...] and #![...]"""
    res, i = [], 0
    while i < len(t):
        if t[i][1] == '#' and t[i][0] == 'op':
            j = i + 1
            while j < len(t) and t[j][0] == 'ws':
                j += 1
            if j < len(t) and t[j][1] == '!':
                j += 1
            if j < len(t) and t[j][1] == '[':
                i = close_of(t, j) + 1
                continue
        res.append(t[i])
        i += 1
    return res


def text(t):
    return ''.join(x[1] for x in t)


def norm(s):
    s = re.sub(r'\s+', ' ', s).strip()
    return re.sub(r' ?([<>:,&()\[\]+=]) ?', r'\1', s)


class Source:
    """All items of one crate."""
    cache = {}

    def __init__(self, crate):
        self.fns, self.types, self.consts = [], [], {}
        for f in sorted(glob.glob(os.path.join(REPO, SRC[crate], '**', '*.rs'), recursive=True)):
            if '/tests' in f:
                continue
            t = [x for x in lex(open(f).read())]
            self.scan(strip_cfg_test(t), '', os.path.relpath(f, REPO))

    @staticmethod
    def of(crate):
        k = crate
        if k not in Source.cache:
            Source.cache[k] = Source(crate)
        return Source.cache[k]

    def scan(self, t, owner, f):
        i = 0
        while i < len(t):
            k, x = t[i]
            if k == 'id' and x in ('impl', 'trait', 'mod') and not (x == 'impl' and owner.startswith('?')):
                j = i
                while j < len(t) and t[j][1] not in ('{', ';'):
                    j += 1
                if j < len(t) and t[j][1] == '{':
                    e = close_of(t, j)
                    head = norm(text(t[i:j]))
                    self.scan(t[j + 1:e], owner if x == 'mod' else head, f)
                    i = e + 1
                    continue
            elif k == 'id' and x == 'macro_rules':
                j = i
                while t[j][1] not in ('{', '('):
                    j += 1
                i = close_of(t, j) + 1
                continue
            elif k == 'id' and x in ('struct', 'enum', 'union'):
                j = i
                while t[j][1] not in ('{', ';', '('):
                    j += 1
                if t[j][1] == '(':
                    j = close_of(t, j)
                    while t[j][1] != ';':
                        j += 1
                e = close_of(t, j) if t[j][1] == '{' else j
                nm = next(y[1] for y in t[i + 1:] if y[0] == 'id')
                self.types.append((x, nm, strip_attrs(t[i:e + 1]), f))
                i = e + 1
                continue
            elif k == 'id' and x == 'fn':
                nm = next(y[1] for y in t[i + 1:] if y[0] == 'id')
                j, d = i, 0
                while not (d == 0 and t[j][1] in ('{', ';') and t[j][0] == 'op'):
                    if t[j][0] == 'op':
                        d += t[j][1] in '([' and 1 or 0
                        d -= t[j][1] in ')]' and 1 or 0
                    j += 1
                if t[j][1] == '{':
                    e = close_of(t, j)
                    self.fns.append((owner, nm, strip_attrs(t[i:j]), strip_attrs(t[j:e + 1]), f))
                    if not owner.startswith('fn '):
                        self.scan(t[j + 1:e], 'fn ' + nm, f)        # functions in a function
                    i = e + 1
                    continue
                i = j
            elif k == 'op' and x in OPEN:
                i = close_of(t, i)
            i += 1

    def fn(self, owner, name):
        want = norm(owner)
        r = [x for x in self.fns if x[1] == name and owner_is(x[0], want)]
        if len(r) != 1:
            raise Lost('%d functions `%s` in `%s`' % (len(r), name, owner or 'the crate'))
        return r[0]

    def type(self, name):
        r = [x for x in self.types if x[1] == name]
        if len(r) != 1:
            raise Lost('%d types named %s' % (len(r), name))
        return r[0]


def drop_fns(t):
    """the body of a function without the functions and types it contains (they are taken by themselves)"""
    res, i = [], 0
    while i < len(t):
        if t[i][0] == 'id' and i + 1 < len(t) and t[i + 1][1] == '!':      # what a macro is given is not looked into
            j = i + 2
            while t[j][0] == 'ws':
                j += 1
            if t[j][1] in '([{':
                e = close_of(t, j)
                res += t[i:e + 1]
                i = e + 1
                continue
        prev = next((y[1] for y in reversed(res) if y[0] != 'ws'), '{')
        if t[i] in (('id', 'struct'), ('id', 'enum'), ('id', 'impl')) and prev in ('{', '}', ';'):
            j = i
            while t[j][1] not in ('{', ';'):
                j += 1
            i = close_of(t, j) + 1 if t[j][1] == '{' else j + 1
            continue
        if t[i] == ('id', 'fn') and next((y[0] for y in t[i + 1:] if y[0] != 'ws'), '') == 'id':
            j, d = i, 0
            while not (d == 0 and t[j][1] == '{' and t[j][0] == 'op'):
                if t[j][0] == 'op':
                    d += t[j][1] in '([' and 1 or 0
                    d -= t[j][1] in ')]' and 1 or 0
                j += 1
            i = close_of(t, j) + 1
            continue
        res.append(t[i])
        i += 1
    return res


def owner_is(head, want):
    """`DisplayStyle` / `FromStr for Align` against an impl header, generics of the impl ignored"""
    if not want:
        return head == ''
    h = re.sub(r'^impl', '', head).strip()
    if h.startswith('<'):
        d = 0
        for i, c in enumerate(h):
            d += c == '<'
            d -= c == '>'
            if d == 0:
                h = h[i + 1:].strip()
                break
    h = re.split(r'\bwhere\b', h)[0].strip()
    return h == want or re.sub(r"<[^<>]*>$", '', h) == want


def strip_cfg_test(t):
    res, i = [], 0
    while i < len(t):
        if t[i][1] == '#':
            j = i + 1
            while j < len(t) and t[j][0] == 'ws':
                j += 1
            if j < len(t) and t[j][1] == '[':
                e = close_of(t, j)
                if norm(text(t[j:e + 1])) in ('[cfg(test)]', '[test]'):
                    while t[e][1] not in ('{', ';') or t[e][0] != 'op':
                        e += 1
                    i = (close_of(t, e) if t[e][1] == '{' else e) + 1
                    continue
        res.append(t[i])
        i += 1
    return res


# ---------------------------------------------------------------------- contracts
class Ty:
    """A struct or enum taken over.  keep: fields to keep (None: all); subs: (regex, replacement) on its text; head: attributes put in front."""
    def __init__(self, name, subs=(), keep=None, head='', crate='derive'):
        self.name, self.subs, self.keep, self.head, self.crate = name, subs, keep, head, crate

    def emit(self):
        kind, nm, toks, f = Source.of(self.crate).type(self.name)
        s = text(toks)
        if self.keep is not None:
            # one line per kept field
            body = s[s.index('{') + 1:s.rindex('}')]
            fields = {}
            for part in split_top(body):
                m = re.match(r'\s*(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:(.*)$', part, re.S)
                if m:
                    fields[m.group(1)] = m.group(2).strip()
            for k in self.keep:
                if k not in fields:
                    raise Lost('no field %s in %s' % (k, self.name))
            s = s[:s.index('{')] + '{ ' + ', '.join('pub %s: %s' % (k, fields[k]) for k in self.keep) + ' }'
        for a, b in self.subs:
            s = re.sub(a, b, s)
        return self.head + '\npub ' + s


def split_top(s):
    res, d, cur = [], 0, ''
    for c in s:
        if c in '([{<':
            d += 1
        elif c in ')]}>':
            d -= 1
        if c == ',' and d == 0:
            res.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        res.append(cur)
    return res


class Const:
    """A constant taken over."""
    def __init__(self, name, subs=(), crate='derive'):
        self.name, self.subs, self.crate = name, subs, crate

    def emit(self):
        r = []
        for f in sorted(glob.glob(os.path.join(REPO, SRC[self.crate], '**', '*.rs'), recursive=True)):
            r += re.findall(r'(?m)^\s*(?:pub(?:\([^)]*\))? )?(const %s: [^;]*;)' % self.name, open(f).read())
        if len(r) != 1:
            raise Lost('%d constants %s' % (len(r), self.name))
        s = r[0]
        for a, b in self.subs:
            s = re.sub(a, b, s)
        return 'pub ' + s


def quotes(b):
    """`quote! { A #x B #(P #y Q)S* }` -> a chain that appends what the tokens stand for:
    vx_q().vx_t("A").vx_i(&x).vx_t("B").vx_rep("P", &y, "Q", "S"); the literal tokens keep their text, spaced by one blank."""
    t, out, i = lex(b), [], 0
    while i < len(t):
        if t[i][0] == 'id' and t[i][1] in ('quote', 'quote_spanned') and i + 1 < len(t) and t[i + 1][1] == '!':
            j = i + 2
            while t[j][0] == 'ws':
                j += 1
            e = close_of(t, j)
            if t[i][1] == 'quote_spanned':      # the span goes
                while text(t[j:j + 2]) != '=>' and t[j][1] != '=>':
                    j += 1
                j += t[j][1] != '=>'
            out.append('vx_q()' + quoted(t[j + 1:e]))
            i = e + 1
            continue
        out.append(t[i][1])
        i += 1
    return ''.join(out)


def rs(toks):
    """the text of tokens as a string literal; `::`, `->`, `=>` and the like keep together"""
    s, prev = '', None
    for k, x in toks:
        if k == 'ws':
            prev = None
            continue
        joint = prev is not None and (prev + x in ('::', '->', '=>', '..', '&&', '||', '==', '!=', '<=', '>='))
        s += ('' if not s or joint else ' ') + x
        prev = x if k == 'op' else None
    return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')


def quoted(t):
    res, lit, i = '', [], 0

    def flush():
        nonlocal res
        if any(k != 'ws' for k, _ in lit):
            res += '.vx_t(%s)' % rs(lit)
        lit.clear()
    while i < len(t):
        k, x = t[i]
        if x == '#' and k == 'op' and i + 1 < len(t) and t[i + 1][0] == 'id':
            flush()
            res += '.vx_i(&%s)' % t[i + 1][1]
            i += 2
            continue
        if x == '#' and k == 'op' and i + 1 < len(t) and t[i + 1][1] == '(':
            e = close_of(t, i + 1)
            sep = e + 1
            while t[sep][1] != '*':
                sep += 1
            inner = t[i + 2:e]
            at = [n for n in range(len(inner) - 1) if inner[n][1] == '#' and inner[n + 1][0] == 'id']
            if len(at) != 1:
                raise Lost('a repetition over %d values' % len(at))
            flush()
            n = at[0]
            res += '.vx_rep(%s, &%s, %s, %s)' % (rs(inner[:n]), inner[n + 1][1], rs(inner[n + 2:]), rs(t[e + 1:sep]))
            i = sep + 1
            continue
        lit.append(t[i])
        i += 1
    flush()
    return res


def params_end(s):
    """Where the parameter list of a signature ends."""
    i = re.search(r'\bfn \w+', s).end()
    depth = 0
    while i < len(s):
        c = s[i]
        if c in '(<[' :
            depth += 1
        elif c in ')]' or c == '>' and s[i - 1] != '-':
            depth -= 1
            if depth == 0 and c == ')':
                return i + 1
        i += 1
    return len(s)


class Fn:
    """A function under contract."""
    def __init__(self, owner, name, spec='', ret='r', loops=(), start='', l_start=None, l_end=None, l_after=None, subs=(), sig=(), emit_owner=None, head='', crate='derive', tail='',
                 trusted=False, want=None, rename=None, quotes=False, no_inner=False):
        self.owner, self.name, self.spec, self.ret, self.loops, self.start = owner, name, spec, ret, loops, start
        self.l_start, self.l_end, self.l_after, self.subs, self.sig = l_start or {}, l_end or {}, l_after or {}, subs, sig
        self.emit_owner, self.head, self.crate, self.tail, self.want, self.rename = emit_owner, head, crate, tail, want, rename
        self.quotes, self.no_inner = quotes, no_inner

    @property
    def label(self):
        return (self.owner + '::' if self.owner else '') + self.name

    def emit(self, rename, canary=False, stub=False):
        owner, nm, sg, body, f = Source.of(self.crate).fn(self.owner, self.name)
        self.file = f
        s = re.sub(r'\s+', ' ', text(sg)).strip()
        for a, b in self.sig:
            s2 = re.sub(a, b, s)
            s = s2
        if self.rename:
            s = s.replace('fn ' + self.name, 'fn ' + self.rename, 1)
        spec = self.spec
        if canary:
            # the same function with the postcondition `false`: it must be refused, else the contract is vacuous
            s = re.sub(r'\bfn (\w+)', r'fn \1_vxc', s, count=1)
            spec = re.sub(r'\bensures\b', 'ensures false,', spec, count=1) if re.search(r'\bensures\b', spec) else spec + ' ensures false,'
        # the result gets a name
        m = re.compile(r'\s*->\s*(.*?)(\s*where\b.*)?$', re.S).match(s, params_end(s))
        if self.ret and m:
            s = '%s -> (%s: %s)%s' % (s[:m.start()], self.ret, m.group(1).strip(), m.group(2) or '')
        if self.no_inner:
            body = drop_fns(body)
        toks = self.loops_in(body)
        b = text(toks)
        if self.quotes:
            b = quotes(b)
        for a, rep in rename:
            b = re.sub(a, rep, b)
        for a, rep in self.subs:
            b = re.sub(a, rep, b)
        b = b[b.index('{') + 1:]
        if self.tail:
            b = self.with_tail(b)
        b = '{\n' + self.start + b
        if self.want:
            for w in self.want:
                if not re.search(w, b):
                    raise Lost('the code of %s is not of the shape the contract was written for (%s)' % (self.label, w))
        if stub:
            return '    #[verifier::external_body]\n%s\n%s\n{ unimplemented!() }' % (s, spec)
        return '%s\n%s\n%s\n%s' % (self.head, s, spec, b)

    def with_tail(self, b):
        """`... EXPR }` -> `... let vx_r = EXPR; <ghost> vx_r }`"""
        t = lex(b)
        end = max(i for i, x in enumerate(t) if x[1] == '}')
        cut, d = 0, 0
        for i, (k, x) in enumerate(t[:end]):
            if k == 'op' and x in OPEN:
                d += 1
            elif k == 'op' and x in CLOSE:
                d -= 1
            if d == 0 and x == ';' and k == 'op':
                cut = i + 1
            elif d == 0 and x == '}' and k == 'op':
                n = next((y for y in t[i + 1:end] if y[0] != 'ws'), None)
                if n and (n[0] in ('id', 'num', 'str') and n[1] not in ('else', 'as') or n[1] in ('(', '{')):
                    cut = i + 1
        e = text(t[cut:end]).strip()
        if not e:
            return text(t[:end]) + '\n' + self.tail + '\n}'
        return text(t[:cut]) + '\nlet vx_r = ' + e + ';\n' + self.tail + '\nvx_r\n}'

    into_iter = ''

    def trim(self, t):
        while t and t[0][0] == 'ws':
            t = t[1:]
        while t and t[-1][0] == 'ws':
            t = t[:-1]
        return t

    def loops_in(self, body):
        out, i, n = [], 0, 0
        stack = []
        t = list(body)
        pend = {}
        while i < len(t):
            k, x = t[i]
            if k == 'id' and x in ('quote', 'quote_spanned', 'parse_quote') and i + 1 < len(t) and t[i + 1][1] == '!':     # tokens, not code
                j = i + 2
                while t[j][1] not in OPEN:
                    j += 1
                e = close_of(t, j)
                out += t[i:e + 1]
                i = e + 1
                continue
            if k == 'id' and x in ('for', 'while', 'loop') and not (x == 'for' and next((y[1] for y in t[i + 1:] if y[0] != 'ws'), '') == '<'):
                j, d = i + 1, 0
                while not (d == 0 and t[j][1] == '{' and t[j][0] == 'op'):
                    if t[j][0] == 'op' and t[j][1] in '([':
                        d += 1
                    elif t[j][0] == 'op' and t[j][1] in ')]':
                        d -= 1
                    j += 1
                e = close_of(t, j)
                if n >= len(self.loops):
                    raise Lost('%s has more loops than its contract' % self.label)
                head = t[i:j]
                if x == 'for' and any(y == ('id', 'continue') for y in t[j:e]):
                    # Verus has no `continue` in `for`: the desugaring of the Rust reference
                    m = next(q for q in range(len(head)) if head[q] == ('id', 'in'))
                    out.append(('ws', 'let mut it%d = ' % n))
                    out += self.trim(head[m + 1:])
                    out.append(('ws', self.into_iter + ';\nlet ghost seq%d = it%d.remaining();\nloop\n%s\n{ match it%d.next() { None => { break; }, Some(' % (n, n, self.loops[n], n)))
                    out += self.trim(head[1:m])
                    out.append(('ws', ') => {' + self.l_start.get(n, '')))
                    pend[e] = (n, '}}')
                else:
                    if x == 'for':
                        m = next(q for q in range(len(head)) if head[q] == ('id', 'in'))
                        head = head[:m + 1] + [('ws', ' it%d: ' % n)] + head[m + 1:]
                    out += head
                    out.append(('ws', '\n' + self.loops[n] + '\n'))
                    out.append(t[j])
                    out.append(('ws', self.l_start.get(n, '')))
                    pend[e] = (n, '')
                n += 1
                i = j + 1
                continue
            if i in pend:
                q, more = pend[i]
                out.append(('ws', self.l_end.get(q, '')))
                out.append(t[i])
                out.append(('ws', more))
                out.append(('ws', self.l_after.get(q, '')))
                i += 1
                continue
            out.append(t[i])
            i += 1
        if n != len(self.loops):
            raise Lost('%s has %d loops, its contract %d' % (self.label, n, len(self.loops)))
        return out


class Stub:
    """A function whose contract is used here and proved in another unit."""
    def __init__(self, fn):
        self.fn, self.name = fn, fn.name


class Unit:
    def __init__(self, name, pre, items, rename=(), post='', canary='', assumed=(), features=''):
        self.name, self.pre, self.items, self.rename, self.post = name, pre, items, rename, post
        self.assumed, self.features = assumed, features

    def build(self, canary=False):
        """-> (text, [(first line, last line, label)], lost)"""
        lines = ('#![allow(unused, dead_code, non_camel_case_types)]\n%suse vstd::prelude::*;\nuse vstd::std_specs::iter::IteratorSpec;\nverus! {\n' % self.features).split('\n')[:-1]
        spans, lost, impls = [], [], {}
        self.mark(self.pre, lines, spans)
        for it in self.items:
            try:
                if isinstance(it, str):
                    self.mark(it, lines, spans)
                elif isinstance(it, (Ty, Const)):
                    lines += it.emit().split('\n')
                elif isinstance(it, Stub):
                    f = it.fn
                    o = f.emit_owner if f.emit_owner is not None else ('impl ' + f.owner if f.owner else '')
                    s = f.emit(self.rename, stub=True)
                    lines += (o + ' {\n' + s + '\n}' if o else s).split('\n')
                else:
                    s = it.emit(self.rename)
                    o = it.emit_owner if it.emit_owner is not None else ('impl ' + it.owner if it.owner else '')
                    if o:
                        lines.append(o + ' {')
                    a = len(lines) + 1
                    if canary:
                        s = it.emit(self.rename, stub=True)       # the function itself is checked in the run proper
                    lines += s.split('\n')
                    spans.append((a, len(lines), it.label))
                    if canary:
                        a = len(lines) + 1
                        lines += it.emit(self.rename, True).split('\n')
                        spans.append((a, len(lines), 'canary ' + it.label))
                    if o:
                        lines.append('}')
            except Lost as e:
                lost.append((it.label if isinstance(it, Fn) else it.name, str(e)))
        self.mark(self.post, lines, spans)
        lines += ['}', 'fn main() {}', '']
        return '\n'.join(lines), spans, lost

    def mark(self, txt, lines, spans):
        """appends hand-written text; proof functions in it are obligations of their own"""
        base = len(lines)
        ls = txt.split('\n')
        lines += ls
        for n, l in enumerate(ls):
            m = re.match(r'\s*(?:pub )?(?:broadcast )?proof fn (\w+)', l) or re.match(r'pub fn (?!vx_)(\w+)', l)
            if m and 'external_body' not in l and '#[verifier::external_body]' not in ls[n - 1] and 'axiom' not in m.group(1):
                e = n
                while e + 1 < len(ls) and not ls[e].startswith('}'):
                    e += 1
                spans.append((base + n + 1, base + e + 1, 'lemma ' + m.group(1)))


VERIF_MSG = re.compile(r'postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|possible arithmetic|possible division|decreases not satisfied|'
                       r'could not prove termination|recommendation not met|possible bit shift|index out of bounds|unreachable|assert_by_contradiction|split (assertion|postcondition|precondition) failure|postcondition|fails to satisfy')


def canaries(rc, err, spans):
    """labels of the functions whose contract admits `false`; None when that could not be told"""
    hit, ok = set(), False
    for l in (err or '').splitlines():
        if not l.startswith('{'):
            continue
        x = json.loads(l)
        if x['level'] != 'error' or x['message'].startswith('aborting due'):
            continue
        if not VERIF_MSG.search(x['message']) and not re.search(r'[Rr]esource limit|rlimit', x['message']):
            return None
        for sp in x['spans']:
            for a, b, lab in spans:
                if a <= sp['line_start'] <= b and lab.startswith('canary '):
                    hit.add(lab[7:])
    if rc is None:
        return None
    return {lab[7:] for _, _, lab in spans if lab.startswith('canary ')} - hit


def check_unit(ck, unit, run):
    """Runs Verus.  -> list of failed labels"""
    d = os.path.join(ck.dir, 'verus')
    os.makedirs(d, exist_ok=True)
    txt, spans, lost = unit.build()
    path = os.path.join(d, unit.name + '.rs')
    open(path, 'w').write(txt)
    for l, why in lost:
        ck.obligation('%s/%s' % (unit.name, l), 'verus', 'undecided', detail='not extracted: ' + why)
        ck.bounded.append('%s: decided by the bounded native comparison only (%s)' % (l, why))
    e = run.env()
    e.pop('RUSTUP_TOOLCHAIN', None)
    cpath = os.path.join(d, unit.name + '_canary.rs')
    ctxt, cspans, _ = unit.build(True)
    open(cpath, 'w').write(ctxt)
    cmd = ['--output-json', '--time-expanded', '--error-format=json', '--num-threads', '4', '--multiple-errors']
    left = min(ck.left() - 30, 240 if not ck.thorough else 1200)
    with ThreadPoolExecutor(2) as ex:
        can = ex.submit(run.sh, ['verus', cpath, '--rlimit', '4'] + cmd + ['0'], left, cwd=d, env_=e)
        rc, o, err = run.sh(['verus', path, '--rlimit', '60'] + cmd + ['10'], left, cwd=d, env_=e)
        for seed in (1, 2):
            # a proof that is found once is a proof: the solver is asked again before an obligation counts as failed
            if rc in (None, 0) or not re.search(r'"errors": [1-9]', o or '') or ck.left() < 300:
                break
            again = run.sh(['verus', path, '--rlimit', '60', '--smt-option', 'smt.random_seed=%d' % seed] + cmd + ['10'], min(left, 120), cwd=d, env_=e)
            if again[0] == 0:
                rc, o, err = again
        crc, _, cerr = can.result()
    vacuous = canaries(crc, cerr, cspans)
    ck.cmds.append('verus %s.rs' % unit.name)
    open(os.path.join(d, unit.name + '.log'), 'w').write((o or '') + '\n----\n' + (err or ''))
    labels = [s[2] for s in spans]
    ck.trusted += ['%s: %s' % (unit.name, a) for a in unit.assumed]

    def undecided(why):
        for l in labels:
            ck.obligation('%s/%s' % (unit.name, l), 'verus', 'undecided', detail=why[:600])
        ck.bounded.append('unit %s: decided by the bounded native comparison only (%s)' % (unit.name, why[:300]))
        ck.note('verus %s: %s' % (unit.name, why[:800]))
        return []
    if rc is None:
        return undecided('timeout')
    try:
        j = json.loads(o[o.index('{'):])
    except ValueError:
        j = {}
    diags = []
    for l in err.splitlines():
        if l.startswith('{'):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    vr = j.get('verification-results', {})
    errs = [x for x in diags if x['level'] == 'error' and not x['message'].startswith('aborting due')]
    other = [x for x in errs if not VERIF_MSG.search(x['message'])]
    rl = [x for x in other if re.search(r'[Rr]esource limit|rlimit', x['message'])]
    if [x for x in other if x not in rl] or not vr or vr.get('encountered-vir-error'):
        return undecided('Verus does not accept the extracted code: ' + '; '.join((x.get('rendered') or x['message'])[:300] for x in other[:2]) or err[-300:])
    bad, soft = {}, {}
    for x in errs:
        # the place where it fails (first contract function that any span lies in, the code itself before the contract it refers to)
        lab = None
        for sp in sorted(x['spans'], key=lambda s: not s['is_primary']):
            for a, b, l in spans:
                if a <= sp['line_start'] <= b:
                    lab = lab or l
            # a failed precondition is reported at the call
        if x['message'].startswith('precondition'):
            for sp in x['spans']:
                if sp['is_primary']:
                    for a, b, l in spans:
                        if a <= sp['line_start'] <= b:
                            lab = l
        (soft if x in rl else bad).setdefault(lab or '?', []).append(x.get('rendered') or x['message'])
    times = {}
    for mod in (j.get('times-ms', {}).get('smt', {}) or {}).get('smt-run-module-times', []) or []:
        for fb in mod.get('function-breakdown', []):
            times[fb['function'].split('::')[-1]] = times.get(fb['function'].split('::')[-1], 0) + fb.get('time', 0) / 1000.0
    for a, b, l in spans:
        t = times.get(l.split('::')[-1].replace('lemma ', ''), 0)
        nm = '%s/%s' % (unit.name, l)
        if l in bad:
            ck.obligation(nm, 'verus', 'failed', t, bad[l][0][:400])
        elif vacuous is not None and l in vacuous:
            ck.obligation(nm, 'verus', 'undecided', t, 'the contract is vacuous: the function also satisfies `false`')
            ck.bounded.append('%s: decided by the bounded native comparison only (vacuous contract)' % l)
        elif l in soft:
            ck.obligation(nm, 'verus', 'undecided', t, 'resource limit')
            ck.bounded.append('%s: decided by the bounded native comparison only (resource limit)' % l)
        else:
            ck.obligation(nm, 'verus', 'discharged', t)
            if not l.startswith('lemma') and l not in ck.functions:
                ck.functions.append('%s (%s)' % (l, next((i.file for i in unit.items if isinstance(i, Fn) and i.label == l and hasattr(i, 'file')), '')))
    ck.extra.setdefault('verus', {})[unit.name] = dict(verified=vr.get('verified'), errors=vr.get('errors'), refused_with_postcondition_false=None if vacuous is None else sum(1 for _, _, l in cspans if l.startswith('canary ')) - len(vacuous), vacuous=sorted(vacuous or []), smt_ms=j.get('times-ms', {}).get('smt', {}).get('total'))
    ck.log('verus %s: %s verified, %s errors' % (unit.name, vr.get('verified'), vr.get('errors')))
    return [(unit.name, l, '\n'.join(v)) for l, v in bad.items()]
