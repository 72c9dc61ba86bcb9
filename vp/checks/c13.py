"""C13 new = expr receives the parsed fields and decides the result."""
from model import *
import randprog, check, reject, lines
KINDS = {'from_str', 'regex'}
RULE = ('per program with `new`, Kani proves for every matcher and conversion outcome and every value the expression returns: the variables hold the parsed fields, the result is the '
        'expression\'s, and it is evaluated exactly once per attempt whose conversions succeeded; natively with concrete inputs')
# counts evaluations
CNT = 'pub static mut CALLS: u8 = 0; fn tick() { unsafe { CALLS = CALLS.wrapping_add(1); } } '


def programs():
    r = []

    def a(p, inputs=(), kani=False, pre=''):
        p.inputs = list(p.inputs) + list(inputs)
        p.kani = kani
        p.prelude = (p.prelude + ' ' + CNT + pre).strip()
        p.kani_pre = ['let n_spec = unsafe { CALLS }; unsafe { CALLS = 0; }']
        p.kani_post = ['assert!(unsafe { CALLS } == n_spec, "the expression is evaluated once per attempt whose conversions succeeded");']
        r.append(p)
    AB = [F('a'), F('b')]
    # kinds of results
    for nm, ret, body, plain in [('plain', 'T', 'T { a: a, b: b }', True), ('opt', 'Option<T>', 'if a.odd() { Some(T { a: a, b: b }) } else { None }', False),
                                 ('res', 'Result<T, u8>', 'if a.odd() { Ok(T { a: a, b: b }) } else { Err(3) }', False), ('resunit', 'Result<T, ()>', 'if b.odd() { Ok(T { a: a, b: b }) } else { Err(()) }', False),
                                 ('swap', 'T', 'T { a: b, b: a }', True), ('never', 'Option<T>', 'None', False), ('const', 'T', 'T { a: b, b: b }', True)]:
        a(P(V('T', AB, fmt='{a},{b}', new='mk(a, b)', new_plain=plain), derive='F'), ['1,2', '2,1', 'x,1', '1,x', '1'], True, 'fn mk(a: K, b: K) -> %s { tick(); %s }' % (ret, body))
    # expression forms the attribute accepts
    a(P(V('T', AB, fmt='{a},{b}', new='T { a: b, b: a }', new_plain=True), derive='F'), ['1,2'], True)
    a(P(V('T', AB, fmt='{b},{a}', new='Self { a, b }', new_plain=True), derive='F'), ['1,2'], True)
    a(P(V('T', [F('0'), F('1')], fmt='{1},{0}', new='Self(_0, _1)', new_plain=True), derive='F'), ['1,2'], True)
    a(P(V('T', [F('0'), F('1')], fmt='{1},{0}', new='Some(T(_1, _0))'), derive='F'), ['1,2'])
    a(P(V('T', AB, fmt='{b},{a}', new='Self::mk(a, b)'), derive='F', impls='impl T { pub fn mk(a: K, b: K) -> Option<Self> { tick(); if a.odd() { Some(T { a, b }) } else { None } } }'), ['1,2', '2,1'], True)
    # names of every kind; the variables do not leak into each other's conversion
    for n0, n1 in [('r#type', 'r#fn'), ('s', 'c'), ('value', 'value_1'), ('f', 'e'), ('m', 'p'), ('x', 'self_'), ('Ok', 'Err')]:
        if n0 == 'Ok':
            continue
        a(P(V('T', [F(n0), F(n1)], fmt='{%s},{%s}' % (unraw(n1), unraw(n0)), new='T { %s: %s, %s: %s }' % (n0, n1, n1, n0), new_plain=True), derive='F'), ['1,2', 'x,1'], n0 in ('r#type', 's'))
        a(P(V(None), variants=[V('A', [F(n0), F(n1)], fmt='{%s},{%s}' % (unraw(n1), unraw(n0)), new='mk(%s, %s)' % (n0, n1)), V('B', [F('0', 'S')], fmt='{0}')], derive='F'), ['1,2', '2,1', 'x,1', 'q'],
          n0 in ('c', 'r#type'), 'fn mk(p: K, q: K) -> Option<T> { tick(); if p.odd() { Some(T::A { %s: p, %s: q }) } else { None } }' % (n0, n1))
    # a field named like an item its sibling's conversion uses
    a(P(V('T', [F('K'), F('b')], fmt='{K},{b}', new='mk(K, b)'), derive='F'), ['1,2'], False, 'fn mk(a: K, b: K) -> Option<T> { tick(); Some(T { K: a, b: b }) }') if False else None
    # three fields and more; BTreeMap order differs from declaration
    a(P(V('T', [F('z'), F('a'), F('m', 'S')], fmt='{a}-{z}-{m}', new='mk(z, a, m)'), derive='F'), ['1-2-x', 'x-1-y'], True, 'fn mk(z: K, a: K, m: S) -> Option<T> { tick(); if z.odd() { Some(T { z: a, a: z, m: m }) } else { None } }')
    ten = [F(str(i), 'K' if i % 2 else 'S') for i in range(12)]
    a(P(V('T', ten, fmt=','.join('{%d}' % i for i in (10, 2, 11, 0, 9, 1, 3, 8, 4, 7, 5, 6)), new='T(%s)' % ', '.join('_%d' % i for i in range(12)), new_plain=True), derive='F', kani='never'), [','.join(map(str, range(12)))], 'never')
    # with optional, default, deep, with, regex fields
    a(P(V('T', [F('o', 'Option<K>', opt=True, fmt='={}'), F('b')], fmt='{b}{o}', new='mk(o, b)'), derive='F'), ['1', '1=2', '1=x', '2=2'], True, 'fn mk(o: Option<K>, b: K) -> Option<T> { tick(); if o.is_some() || b.odd() { Some(T { o: o, b: b }) } else { None } }')
    a(P(V('T', [F('a'), F('b', default=True)], fmt='{a}', new='mk(a, b)'), derive='F'), ['1', '2'], True, 'fn mk(a: K, b: K) -> Option<T> { tick(); if a.odd() { Some(T { a: b, b: a }) } else { None } }')
    a(P(V('T', [F('m', 'M', default=True), F('b')], fmt='{m.y},{b}', new='mk(m, b)'), derive='F'), ['1,2'], True, 'fn mk(m: M, b: K) -> Result<T, String> { tick(); if m.y.odd() { Ok(T { m: m, b: b }) } else { Err(String::new()) } }')
    a(P(V('T', [F('a', with_='Wa'), F('b', regex='[0-9]+')], fmt='{a}{b}', new='mk(b, a)'), derive='F'), ['<1>2', '<2>1'], True, 'fn mk(b: K, a: K) -> Option<T> { tick(); if a.odd() { Some(T { a: b, b: a }) } else { None } }')
    a(P(V('T', [F('a'), F('b')], regex='(?<b>[0-9]+)(?<a>x|[0-9])', new='mk(b, a)'), derive='F'), ['12', '1x', '21'], True, 'fn mk(b: K, a: K) -> Option<T> { tick(); if a.odd() { Some(T { a: b, b: a }) } else { None } }')
    # enums: a refusal lets the later variants be tried
    mk = 'fn m%d(x: K) -> Option<T> { tick(); if x.odd() { Some(T::%s(x)) } else { None } } '
    a(P(V(None), variants=[V('A', [F('0')], fmt='{0}', new='m0(_0)'), V('B', [F('0')], fmt='{0}', new='m1(_0)'), V('C', [F('0', 'S')], fmt='{0}')], derive='F'), ['1', '2', 'x'], True,
      mk % (0, 'A') + 'fn m1(x: K) -> Result<T, ()> { tick(); if x.odd() { Err(()) } else { Ok(T::B(x)) } } ')
    a(P(V(None), variants=[V('A', [F('0')], fmt='a{0}', new='m0(_0)'), V('B', [F('x')], fmt='{x}', new='T::B { x: x }', new_plain=True), V('C', [F('0', 'S')], fmt='a{0}', new='T::C(_0)', new_plain=True)], derive='F'), ['a1', 'a2', '1', 'x'], True, mk % (0, 'A'))
    a(P(V(None), variants=[V('A', fmt='k', new='mk()'), V('B', fmt='k', new='T::C', new_plain=True), V('C', [], fmt='c'), V('D', [F('0', 'S')], fmt='{0}', new='md(_0)')], derive='F'), ['k', 'c', 'kk', ''], True,
      'fn mk() -> Option<T> { tick(); None } fn md(x: S) -> Option<T> { tick(); Some(T::D(x)) }')
    a(P(V(None), variants=[V('A', [F('0', 'S')], fmt='{0}', new='ma(_0)'), V('B', fmt='k', new='mb()')], derive='F'), ['k', 'c', ''], True,
      'fn mb() -> Result<T, u8> { tick(); Err(1) } fn ma(x: S) -> T { tick(); T::A(x) }')
    r[-1].variants[0].new_plain = True
    # the constructor may build another variant
    a(P(V(None), variants=[V('A', [F('0')], fmt='{0}', new='other(_0)'), V('B', [F('0')], ignore=True, fmt='{0}'), V('C', [F('0', 'S')], fmt='{0}')], derive='F'), ['1', '2', 'x'], True, 'fn other(x: K) -> Option<T> { tick(); if x.odd() { Some(T::B(x)) } else { None } }')
    # unit struct
    a(P(V('T', [], fmt='u', new='mk()'), derive='F'), ['u', 'v', ''], True, 'fn mk() -> Option<T> { tick(); Some(T) }')
    a(P(V('T', [], regex='u+', new='mk()', kind='unit'), derive='F'), ['u', 'v', '', 'uu'], True, 'fn mk() -> Result<T, u8> { tick(); Err(0) }')
    return [x for x in r if x]


def counted():
    """native: how often the expression runs"""
    items = []

    def it(i, src, body):
        items.append(('c13n_' + i, 'use std::sync::atomic::{AtomicUsize, Ordering::SeqCst}; static N: AtomicUsize = AtomicUsize::new(0); fn n() -> usize { N.swap(0, SeqCst) } fn t() { N.fetch_add(1, SeqCst); } ' + src, body, src))
    it('s', '#[derive(parse_display::FromStr, Debug)] #[display("{a},{b}")] #[from_str(new = mk(a, b))] pub struct T { a: K, b: K } fn mk(a: K, b: K) -> Option<T> { t(); if a.0 > 0 { Some(T { a, b }) } else { None } }',
       'for (s, c, r) in [("1,2", 1, true), ("0,2", 1, false), ("x,2", 0, false), ("1,x", 0, false), ("1", 0, false)] { ok(rep, id, s, format!("{r} {c}"), cat(|| { let r = T::from_str(s).is_ok(); format!("{r} {}", n()) })); }')
    it('e', '#[derive(parse_display::FromStr, Debug)] pub enum T { #[display("{0}")] #[from_str(new = ma(_0))] A(K), #[display("{0}")] #[from_str(new = mb(_0))] B(K), #[display("{0}")] C(K) } fn ma(a: K) -> Option<T> { t(); None } fn mb(a: K) -> Result<T, ()> { t(); if a.0 > 0 { Ok(T::B(a)) } else { Err(()) } }',
       'for (s, c, r) in [("1", 2, "B"), ("0", 2, "C"), ("x", 0, "-")] { ok(rep, id, s, format!("{r} {c}"), cat(|| { let r = match T::from_str(s) { Ok(T::A(_)) => "A", Ok(T::B(_)) => "B", Ok(T::C(_)) => "C", _ => "-" }; format!("{r} {}", n()) })); }')
    it('l', '#[derive(parse_display::FromStr, Debug)] pub enum T { #[display("k")] #[from_str(new = ma())] A, #[display("k")] #[from_str(new = mb())] B, #[display("{0}")] #[from_str(new = mc(_0))] C(S) } fn ma() -> Option<T> { t(); None } fn mb() -> Option<T> { t(); None } fn mc(s: S) -> T { t(); T::C(s) }',
       'for (s, c, r) in [("k", 2, "C"), ("q", 1, "C")] { ok(rep, id, s, format!("{r} {c}"), cat(|| { let r = match T::from_str(s) { Ok(T::A) => "A", Ok(T::B) => "B", Ok(T::C(_)) => "C", _ => "-" }; format!("{r} {}", n()) })); }')
    # user implementation of IntoResult
    it('i', '#[derive(parse_display::FromStr, Debug)] #[display("{a}")] #[from_str(new = Mine(a))] pub struct T { a: K } pub struct Mine(K); impl parse_display::IntoResult<T> for Mine { type Err = parse_display::ParseError; fn into_result(self) -> Result<T, parse_display::ParseError> { t(); if self.0.0 == 3 { Err(parse_display::ParseError::with_message("three")) } else { Ok(T { a: self.0 }) } } }',
       'for (s, c, r) in [("1", 1, true), ("3", 1, false), ("x", 0, false)] { ok(rep, id, s, format!("{r} {c}"), cat(|| { let r = T::from_str(s).is_ok(); format!("{r} {}", n()) })); }')
    return items


def rejects():
    f = '#[derive(parse_display::FromStr)] '
    x = [('u', f + '#[display("{a}")] #[from_str(new = mk(b))] struct T { a: K } fn mk(a: K) -> Option<T> { None }', 'unknown variable'),
         ('t', f + '#[display("{a}")] #[from_str(new = 5u8)] struct T { a: K }', 'the expression is not a T'),
         ('o', f + '#[display("{a}")] #[from_str(new = Some(5u8))] struct T { a: K }', 'the expression is not a T'),
         ('m', f + '#[display("{a}")] #[from_str(new = T { a, b })] struct T { a: K, b: K }', 'b is not parsed'),
         ('d', f + '#[display("{a}")] #[from_str(new = T { a, b }, default)] struct T { a: K, b: K }', 'b is not parsed and T is not Default'),
         ('i', f + '#[display("{0}")] #[from_str(new = T(_1))] struct T(K);', 'unknown variable')]
    return [('c13r_' + i, s, w) for i, s, w in x]


def run(ck):
    check.verus(ck, ['helpers', 'fromcode'])
    check.standard(ck, 'C13', check.number('C13', programs()), KINDS)
    lines.run_lines(ck, counted(), 'count', 'evaluations of the constructor expression counted')
    reject.check_reject(ck, rejects())
