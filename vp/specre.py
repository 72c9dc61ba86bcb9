"""The pattern of FormatSpec::parse against std's grammar of format specs, decided for strings of every length.

The pattern is the string literal inside FormatSpec::parse, read from /repo's sources on every run.  Its captures are modelled with the priority (leftmost-first)
semantics of the regex crate: an ordered list of threads, one per state of the pattern's automaton, where the first thread that accepts gives the captures.  Each
thread remembers whether every character so far went to the group the grammar assigns it to.  The list is run in product with the grammar; the product is finite,
so exploring it decides the question for all strings."""
import os, re

import emit

GROUPS = ('fill', 'align', 'sign', 'is_alternate', 'is_zero', 'width_integer', 'precision_integer', 'format_type')


class Unsupported(Exception):
    pass


def literal(text):
    """the pattern of FormatSpec::parse, the Rust escapes undone"""
    m = re.search(r'impl\s*<\'\w+>\s*FormatSpec\s*<\'\w+>\s*\{', text)
    m = m and re.compile(r'\bregex!\s*\(\s*(?:r(#*)"(.*?)"\1|"((?:[^"\\]|\\.)*)")\s*,?\s*\)', re.S).search(text, m.end())
    if not m:
        raise Unsupported('no pattern in FormatSpec::parse')
    if m.group(2) is not None:
        return m.group(2)
    s = re.sub(r'\\\n\s*', '', m.group(3))
    esc = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'"}

    def un(k):
        if k.group(1) not in esc:
            raise Unsupported('escape ' + k.group(0))
        return esc[k.group(1)]
    return re.sub(r'\\(.)', un, s, flags=re.S)


# ---------------------------------------------------------------- the subset of regex syntax
# ast: ('cls', frozenset of (lo, hi)) | ('cat', [..]) | ('alt', [..]) | ('rep', ast, min, max or None, greedy) | ('grp', name or None, ast) | ('bol',) | ('eol',)
MAXC = 0x10FFFF


def neg(r):
    out, p = [], 0
    for a, b in sorted(r):
        if a > p:
            out.append((p, a - 1))
        p = max(p, b + 1)
    if p <= MAXC:
        out.append((p, MAXC))
    return frozenset(out)


class Parser:
    def __init__(self, s):
        self.s, self.i = s, 0

    def peek(self, k=1):
        return self.s[self.i:self.i + k]

    def parse(self):
        a = self.alt(False)
        if self.i != len(self.s):
            raise Unsupported('unbalanced')
        return a

    def alt(self, dotall):
        r = [self.cat(dotall)]
        while self.peek() == '|':
            self.i += 1
            r.append(self.cat(dotall))
        return r[0] if len(r) == 1 else ('alt', r)

    def cat(self, dotall):
        r = []
        while self.i < len(self.s) and self.peek() not in '|)':
            a = self.atom(dotall)
            while self.peek() and self.peek() in '?*+{':
                q = self.peek()
                if q == '{':
                    m = re.match(r'\{(\d+)(,(\d*))?\}', self.s[self.i:])
                    if not m:
                        raise Unsupported('brace')
                    lo = int(m.group(1))
                    hi = lo if m.group(2) is None else int(m.group(3)) if m.group(3) else None
                    if lo > 4 or (hi or 0) > 4:
                        raise Unsupported('large repetition')
                    self.i += len(m.group(0))
                else:
                    lo, hi = {'?': (0, 1), '*': (0, None), '+': (1, None)}[q]
                    self.i += 1
                greedy = True
                if self.peek() == '?':
                    greedy = False
                    self.i += 1
                a = ('rep', a, lo, hi, greedy)
            r.append(a)
        return ('cat', r)

    def atom(self, dotall):
        c = self.peek()
        self.i += 1
        if c == '(':
            m = re.match(r'\?(?:P?<(\w+)>|(s?):)', self.s[self.i:])
            name = None
            if m:
                self.i += len(m.group(0))
                name = m.group(1)
                dotall = dotall or m.group(2) == 's'
            elif self.peek() == '?':
                raise Unsupported('group flags')
            a = self.alt(dotall)
            if self.peek() != ')':
                raise Unsupported('unbalanced')
            self.i += 1
            return ('grp', name, a)
        if c == '[':
            return self.cls()
        if c == '.':
            return ('cls', frozenset([(0, MAXC)]) if dotall else neg([(10, 10)]))
        if c == '^':
            return ('bol',)
        if c == '$':
            return ('eol',)
        if c == '\\':
            d = self.peek()
            self.i += 1
            if d == 'A':
                return ('bol',)
            if d == 'z':
                return ('eol',)
            return ('cls', frozenset([(ord(self.escaped(d)),) * 2]))
        return ('cls', frozenset([(ord(c), ord(c))]))

    def escaped(self, d):
        if d in ('n', 't', 'r'):
            return {'n': '\n', 't': '\t', 'r': '\r'}[d]
        if not d or d.isalnum() or ord(d) > 127:
            raise Unsupported('escape')
        return d

    def one(self):
        c = self.peek()
        self.i += 1
        if c == '\\':
            c = self.escaped(self.peek())
            self.i += 1
        elif not c or c == '[' or (c in '&~-' and self.peek() == c):
            raise Unsupported('class')
        return ord(c)

    def cls(self):
        n = False
        if self.peek() == '^':
            n = True
            self.i += 1
        r = []
        first = True
        while first or self.peek() != ']':
            if first and self.peek() == ']':
                raise Unsupported('class')
            first = False
            a = b = self.one()
            if self.peek() == '-' and self.peek(2) != '-]':
                self.i += 1
                b = self.one()
                if b < a:
                    raise Unsupported('class')
            r.append((a, b))
        self.i += 1
        return ('cls', neg(r) if n else frozenset(r))


def nullable(a):
    k = a[0]
    if k == 'cls':
        return False
    if k == 'cat':
        return all(nullable(x) for x in a[1])
    if k == 'alt':
        return any(nullable(x) for x in a[1])
    if k == 'rep':
        return a[2] == 0 or nullable(a[1])
    if k == 'grp':
        return nullable(a[2])
    return True


def groups(a, path=()):
    """(name, ast of the group, kinds of node above it)"""
    if a[0] == 'grp':
        if a[1]:
            yield a[1], a[2], path
        yield from groups(a[2], path)
    elif a[0] in ('cat', 'alt'):
        for x in a[1]:
            yield from groups(x, path + ((a[0],) if a[0] == 'alt' else ()))
    elif a[0] == 'rep':
        yield from groups(a[1], path + ('many' if a[3] is None or a[3] > 1 else 'opt' if a[2] == 0 else 'one',))


def inside(r, allowed):
    return all(any(lo <= x and y <= hi for lo, hi in allowed) for x, y in r)


def strip(a):
    while a[0] == 'grp' and a[1] is None or a[0] == 'cat' and len(a[1]) == 1:
        a = a[2] if a[0] == 'grp' else a[1][0]
    return a


def sane(ast):
    """What the contract of the pattern says about every match, read off its syntax; -> None, or what cannot be shown."""
    gs = {}
    for n, a, path in groups(ast):
        if n in gs:
            return 'two groups named ' + n
        gs[n] = (strip(a), path)
    chars = dict(align='<>^', sign='+-')
    for n, (a, path) in gs.items():
        if 'many' in path:
            return 'group %s is repeated' % n
        if n == 'format_type':
            if path:
                return 'group format_type does not always take part'
        elif nullable(a):
            return 'group %s may take part with no text' % n
        if n == 'fill' and a[0] != 'cls':
            return 'group fill is not one character'
        if n in chars and not (a[0] == 'cls' and inside(a[1], [(ord(c), ord(c)) for c in chars[n]])):
            return 'group %s is not one of %s' % (n, chars[n])
        if n in ('width_integer', 'precision_integer') and not (a[0] == 'rep' and a[2] >= 1 and strip(a[1])[0] == 'cls' and inside(strip(a[1])[1], [(48, 57)])):
            return 'group %s is not a number' % n
    if 'format_type' not in gs:
        return 'no group format_type'
    return None


# ---------------------------------------------------------------- automata

class Nfa:
    """Thompson construction, edges in order of priority.  node: ('eps', [..]) | ('chr', ranges, label, next) | ('bol', next) | ('eol', next) | ('acc',)"""

    def __init__(self, ast):
        self.n = [('acc',)]
        self.start = self.build(ast, 0, None)

    def add(self, x):
        self.n.append(x)
        return len(self.n) - 1

    def build(self, a, k, label):
        t = a[0]
        if t == 'cls':
            return self.add(('chr', a[1], label, k))
        if t == 'cat':
            for x in reversed(a[1]):
                k = self.build(x, k, label)
            return k
        if t == 'alt':
            return self.add(('eps', [self.build(x, k, label) for x in a[1]]))
        if t == 'grp':
            return self.build(a[2], k, a[1] or label)
        if t in ('bol', 'eol'):
            return self.add((t, k))
        _, x, lo, hi, greedy = a
        if hi is None:
            if nullable(x):
                raise Unsupported('loop over a pattern that matches nothing')
            loop = self.add(None)
            body = self.build(x, loop, label)
            self.n[loop] = ('eps', [body, k] if greedy else [k, body])
            k = loop if lo == 0 else self.build(x, loop, label)
            for _ in range(lo - 1):
                k = self.build(x, k, label)
            return k
        end = k
        for _ in range(hi - lo):
            b = self.build(x, k, label)
            k = self.add(('eps', [b, end] if greedy else [end, b]))
        for _ in range(lo):
            k = self.build(x, k, label)
        return k

    def close(self, seeds, at_start):
        """seeds: (node, bit) in order -> the ordered threads that consume, wait for the end or accept; of two at the same node the first counts"""
        out, seen = [], set()

        def go(q, b):
            if q in seen:
                return
            seen.add(q)
            x = self.n[q]
            if x[0] == 'eps':
                for y in x[1]:
                    go(y, b)
            elif x[0] == 'bol':
                if at_start:
                    go(x[1], b)
            else:
                out.append((q, b))
        for q, b in seeds:
            go(q, b)
            if any(self.n[x][0] == 'acc' for x, _ in out):
                raise Unsupported('a match may end before the text does')
        return tuple(out)

    def accepts_end(self, threads):
        """the bit of the first thread that accepts at the end of the text, or None"""
        for q, b in threads:
            st, seen = [q], set()
            while st:
                y = st.pop()
                if y in seen:
                    continue
                seen.add(y)
                x = self.n[y]
                if x[0] == 'acc':
                    return b
                if x[0] == 'eol':
                    st.append(x[1])
                elif x[0] == 'eps':
                    st += x[1]
        return None


# std's grammar with literal width and precision: [[fill]align][sign]['#']['0'][width]['.' precision][type]
# states of a deterministic reader; the fill is decided by looking one character ahead, as rustc's parser does
TYPE_NEXT = {'': {'?': 'T?', 'x': 'Tx', 'X': 'Tx', 'o': 'T?', 'p': 'T?', 'b': 'T?', 'e': 'T?', 'E': 'T?'}, 'Tx': {'?': 'T?'}, 'T?': {}}


def std_step(st, c):
    """-> [(next state, label)]; st 'S' is the start; the branches of the start exclude each other by the promise on the next character"""
    r = []
    if st == 'S':
        r.append(('F', 'fill'))                                 # the next one is an alignment
        if c in '<>^':
            r.append(('A!', 'align'))                           # the next one is not
        r += [(s + '!', l) for s, l in std_step('A', c)]
        return r
    if st == 'F':
        return [('A', 'align')] if c in '<>^' else []
    if st.endswith('!'):
        return [] if c in '<>^' else std_step(st[:-1], c)
    stages = ['A', 'G', 'H', 'Z', 'W', 'D', 'P', '']
    if st == '.':
        return [('P', 'precision_integer')] if c.isascii() and c.isdigit() else []
    if st.startswith('T'):
        return [(TYPE_NEXT[st][c], 'format_type')] if c in TYPE_NEXT[st] else []
    k = stages.index(st)
    # A: nothing after the alignment yet; G: sign read; H: '#' read; Z: '0' read; W: in the width; P: in the precision
    if k == 0 and c in '+-':
        return [('G', 'sign')]
    if k <= 1 and c == '#':
        return [('H', 'is_alternate')]
    if k <= 2 and c == '0':
        return [('Z', 'is_zero')]
    if k <= 4 and c.isascii() and c.isdigit():
        return [('W', 'width_integer')]
    if k <= 4 and c == '.':
        return [('.', None)]
    if st == 'P' and c.isascii() and c.isdigit():
        return [('P', 'precision_integer')]
    return [(TYPE_NEXT[''][c], 'format_type')] if c in TYPE_NEXT[''] else []


def std_accepts(st):
    st = st.rstrip('!')
    return st not in ('F', '.')


def alphabet(nfa):
    cuts = {0, MAXC + 1, 0xD800, 0xE000}
    for c in range(128):
        cuts |= {c, c + 1}
    for x in nfa.n:
        if x[0] == 'chr':
            for a, b in x[1]:
                cuts |= {a, b + 1}
    cuts = sorted(c for c in cuts if c <= MAXC)
    # a printable representative of every class of characters the pattern and the grammar cannot tell apart
    out = []
    for i, c in enumerate(cuts):
        if 0xD800 <= c < 0xE000:
            continue
        hi = cuts[i + 1] - 1 if i + 1 < len(cuts) else MAXC
        out.append(chr(0xE9 if c <= 0xE9 <= hi else c))
    # those that no class tells apart may share one representative
    sig = {}
    for ch in out:
        k = (tuple(i for i, x in enumerate(nfa.n) if x[0] == 'chr' and any(a <= ord(ch) <= b for a, b in x[1])), tuple(tuple(std_step(s, ch)) for s in ('S', 'F', 'A', 'G', 'H', 'Z', 'W', '.', 'P', 'Tx')))
        if k not in sig or (not sig[k].isprintable() and ch.isprintable()) or (ch.isalpha() and not sig[k].isalpha()):
            sig[k] = ch
    return list(sig.values())


def compare(ast, tracked):
    """-> (states explored, counterexample spec or None, what is wrong): for every spec of std's grammar the pattern matches, and the tracked groups are std's"""
    nfa = Nfa(ast)
    sigma = alphabet(nfa)
    start = ('S', nfa.close([(nfa.start, True)], True))
    seen = {start: None}
    todo = [start]
    for st, th in todo:
        if std_accepts(st):
            b = nfa.accepts_end(th)
            if not b:
                s, k = '', (st, th)
                while seen[k]:
                    k, c = seen[k]
                    s = c + s
                return len(seen), s, 'is not matched' if b is None else 'is split into other groups'
        for c in sigma:
            for st2, lab in std_step(st, c):
                nxt = []
                for q, b in th:
                    x = nfa.n[q]
                    if x[0] == 'chr' and any(lo <= ord(c) <= hi for lo, hi in x[1]):
                        nxt.append((x[3], b and all((x[2] == t) == (lab == t) for t in tracked)))
                n = (st2, nfa.close(nxt, False))
                if n not in seen:
                    seen[n] = ((st, th), c)
                    todo.append(n)
                    if len(seen) > 200000:
                        raise Unsupported('too many states')
    return len(seen), None, None


def source():
    for d, _, fs in os.walk(os.path.join(emit.REPO, 'parse-display-derive/src')):
        for f in sorted(fs):
            if f.endswith('.rs'):
                t = open(os.path.join(d, f), encoding='utf8').read()
                if re.search(r'\bpub struct FormatSpec\b', t):
                    return t
    raise Unsupported('FormatSpec not found')


def decide():
    """-> [(obligation, status, detail, counterexample spec or None)]"""
    names = ['what FormatSpec::parse\'s pattern captures has the shape its contract states', 'FormatSpec::parse\'s pattern matches every spec of std\'s grammar and gives format_type std\'s text',
             'FormatSpec::parse\'s pattern gives every group std\'s text']
    try:
        p = literal(source())
        ast = Parser(p).parse()
        bad = sane(ast)
    except Unsupported as e:
        return [(n, 'undecided', 'outside the subset: %s' % e, None) for n in names]
    out = [(names[0], 'undecided' if bad else 'discharged', bad or '', None)]
    for n, tracked, decisive in ((names[1], ('format_type',), True), (names[2], GROUPS, False)):
        try:
            k, s, what = compare(ast, tracked)
            if s is None:
                out.append((n, 'discharged', '%d product states' % k, None))
            else:
                out.append((n, 'failed' if decisive else 'undecided', 'spec %r %s; pattern %r' % (s, what, p), s if decisive else None))
        except Unsupported as e:
            out.append((n, 'undecided', 'outside the subset: %s' % e, None))
    return out


if __name__ == '__main__':
    import time
    t = time.time()
    for x in decide():
        print(x)
    print(time.time() - t)
