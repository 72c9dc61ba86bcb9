"""C19 Ill-formed derive input is a compile error, never wrong code."""
import os
import emit, lines, reject, check
import run as R
from model import rs
import random

LEVEL = 'translation_validation'
TECHNIQUE = 'acceptance contract of the derive: one obligation per ill-formed program (must be rejected) and per documented program (must compile and behave), decided by compiling with the real macro'
RULE = ('programs with exactly one documented defect, over positions (struct, tuple, variant, enum), derives and harmless surroundings, must be rejected by the compiler at that type; '
        'documented programs over legal identifiers (raw, non-ASCII, names used by the generated code or the prelude) must compile, show and parse back')

DD = '#[derive(parse_display::Display)] '
FF = '#[derive(parse_display::FromStr)] '
BOTH = '#[derive(parse_display::Display, parse_display::FromStr)] '


def rejects():
    out = []

    def a(src, why):
        out.append((src, why))

    # 1. formats that are no format
    bad = ['{', '}', '{a', 'a}', '{{}', '{}}', '{a}}', '{{a}', '}{', '{a}{', '{a:', '{{{a', '{a}}}}', '{a{a}}', '{a b}', '{a }', '{ a}', '{-}', '{a-b}', '{a+}', '{.}', '{a.}', '{.a}', '{a..b}', '{?}', '{#}', '{"a"}', '{a!}', '{a:?}{']
    for i, s in enumerate(bad):
        for j, t in enumerate(['struct T { a: u8 }', 'enum T { B, #[display(%s)] A { a: u8 } }', 'enum T { A { a: u8 } }', 'enum T { #[display("x")] A { a: u8 } }', 'struct T { #[display(%s)] a: u8 }']):
            if j == 4 and s in ('{a', 'a}') and False:
                continue
            attr = '' if '%s' in t else '#[display(%s)] ' % rs(s)
            if j == 3:
                continue
            # a field format in which the text is legal (`{}` inside) does not apply here: every text above is illegal there too
            if (i + j) % 3 and i > 12:
                continue
            a((DD if (i + j) % 2 else BOTH) + attr + (t % rs(s) if '%s' in t else t), 'the format %r is not a format' % s)
    # 2. specs
    for i, s in enumerate(['q', 'xx', '?x', 'd', '5s', '.', '+-', '05q', '<', '*', '^^^', '#q', '1.2.3', '{}', 'é', '??', 'Debug', 'x??', '.*', '$', '5$', 'w$', '.p$']):
        if s in ('<', '.*', '$', '5$', 'w$', '.p$', '*', '{}', '+-', '^^^', '.'):
            continue
        for t in ('#[display("{a:%s}")] struct T { a: u8 }', '#[display("{0:%s}")] struct T(u8);', 'struct T { #[display("{:%s}")] a: u8 }', 'enum T { #[display("{0:%s}")] A(u8) }',
                  'enum T { A { #[display("x{:%s}")] a: u8 } }', '#[display("{:%s}")] enum T { A }'):
            if '"x{:' in t:
                t = 'enum T { #[display("{a}")] A { #[display("x{:%s}")] a: u8 } }'
            a((DD if i % 2 else DD) + t % s, 'the spec %r is not a spec' % s)
    # 3. styles
    for s in ['Snake_case', 'snakecase', 'SNAKE_CASE ', 'camelcase', 'PASCAL', '', 'none ', 'kebab', 'title', 'lower', 'Upper', 'screaming_snake_case']:
        for m in (DD, FF, BOTH):
            a(m + '#[display(style = %s)] enum T { A, B }' % rs(s), 'unknown style')
            a(m + 'enum T { A, #[display(style = %s)] B }' % rs(s), 'unknown style')
    # 4. missing formats
    for i, t in enumerate(['struct T { a: u8, b: u8 }', 'struct T(u8, u8);', 'struct T;', 'struct T {}', 'struct T();', 'enum T { A(u8) }', 'enum T { A, B { a: u8 } }', 'enum T { A(), B(u8, u8) }',
                           'enum T { #[display("x")] A(u8), B(u8) }', 'struct T<X>(X, X);', 'enum T { #[display(style = "none")] A(u8) }', 'struct T { #[display("x")] a: u8, #[display("y")] b: u8 }']):
        a(DD + t, 'a format is required')
        a(FF + t, 'a format is required')
    # 5. unknown fields
    for m in (DD, FF, BOTH):
        for t in ['#[display("{b}")] struct T { a: u8 }', '#[display("{a}{c}")] struct T { a: u8, b: u8 }', '#[display("{1}")] struct T(u8);', '#[display("{2}")] struct T(u8, u8);', '#[display("{0}")] struct T { a: u8 }',
                  '#[display("{a}")] struct T(u8);', 'enum T { #[display("{a}{x}")] A { a: u8 } }', '#[display("{x}")] enum T { A { x: u8 }, B { y: u8 } }', '#[display("{0}")] enum T { A(u8), B }', '#[display("{A}")] struct T { a: u8 }',
                  '#[display("{self}")] struct T { a: u8 }', '#[display("{a.b}")] struct T { a: (u8, u8) }', '#[display("{a.2}")] struct T { a: (u8, u8) }', 'struct T { #[display("{z}")] a: (u8, u8) }',
                  '#[display("{T}")] struct T(u8);', '#[display("{_0}")] struct T(u8);', '#[display("{-1}")] struct T(u8);', '#[display("{99999999999999999999999}")] struct T(u8);', '#[display("{é}")] struct T { e: u8 }']:
            a(m + t, 'unknown field')
        a(m + 'enum T { A, #[display("{0}{1}")] B(u8), C }', 'unknown field')
    # 6. {} in a struct format (not in a field's or variant's)
    for m in (DD, FF, BOTH):
        for t in ['#[display("{}")] struct T { a: u8 }', '#[display("{}")] struct T(u8);', '#[display("{}")] struct T;', '#[display("{a}{}")] struct T { a: u8 }', '#[display("{:x}{0}")] struct T(u8);', '#[display("{}{}")] struct T(u8);', '#[display("{:?}")] struct T<X>(X);']:
            a(m + t, '{} in a struct format')
    # 7. fields that parsing cannot fill
    for m in (FF, BOTH):
        for t in ['#[display("{a}")] struct T { a: u8, b: u8 }', '#[display("x")] struct T(u8);', '#[display("{0}{2}")] struct T(u8, u8, u8);', '#[display("{0}")] struct T(u8, #[from_str(regex = ".")] u8);', 'enum T { #[display("x")] A(u8) }', 'enum T { A, #[display("{b}")] B { b: u8, c: u8 } }',
                  '#[display("{a}")] struct T { a: u8, b: Option<u8> }', '#[display("{a}")] struct T { a: u8, #[display(opt)] b: Option<u8> }', '#[display("{a}")] struct T { a: u8, b: std::marker::PhantomData<u8> }', '#[display("{a}")] struct T { a: u8, b: () }',
                  '#[display("{a.0}")] struct T { a: (u8, u8) }', '#[from_str(regex = "(?<a>.)")] #[display("{a}{b}")] struct T { a: u8, b: u8 }', 'enum T { #[display("{0}")] #[from_str(regex = "x")] A(u8) }', '#[display("{b}")] struct T { #[from_str(regex = "x")] a: u8, b: u8 }',
                  '#[display("{b}")] struct T { #[display("x")] a: u8, b: u8 }', '#[display("{a}")] struct T { #[display("x")] a: u8 }' if False else '#[display("")] struct T { a: u8 }']:
            a(m + t, 'a field cannot be filled by parsing')
        for ty in ['String', 'bool', 'Vec<u8>', '[u8; 0]', 'Box<str>', "&'static str", 'char', 'Option<String>', '(u8,)', 'f64', 'std::string::String', 'fn()', 'std::collections::HashMap<u8, u8>']:
            a(m + '#[display("{a}")] struct T { a: u8, b: %s }' % ty, 'a field cannot be filled by parsing')
            a(m + 'enum T { A, #[display("{0}")] B(u8, %s) }' % ty, 'a field cannot be filled by parsing')
        a(m + '#[display("{a}")] struct T<X: Default> { a: u8, b: X }', 'a field cannot be filled by parsing')
    # 8. opt
    for m in (DD, FF, BOTH):
        for ty in ['u8', 'Vec<u8>', 'Result<u8, u8>', 'Box<Option<u8>>', 'String', '(Option<u8>,)', '[Option<u8>; 1]', 'Opt<u8>']:
            a('type Opt<X> = Vec<X>; ' + m + '#[display("{a}")] struct T { #[display(opt)] a: %s }' % ty, 'opt on a non-Option')
        a(m + 'enum T { A, #[display("{0}")] B(#[display("<{}>", opt)] u8) }', 'opt on a non-Option')
        a(m + '#[display("{0}{1}")] struct T<X>(#[display(opt)] X, Option<X>);', 'opt on a non-Option')
    # 9. enum-level default
    for t in ['enum T { A }', 'enum T { A, #[display("{0}")] B(u8) }', '#[display("{}")] enum T { A }', '#[derive(Default)] enum T { #[default] A, B }', '#[display(style = "snake_case")] enum T { A }', 'enum T {}', '#[from_str(new = T::A)] enum T { A }']:
        a(FF + '#[from_str(default)] ' + t, 'enum-level default')
        a(BOTH + '#[from_str(default)] ' + t, 'enum-level default')
    a(FF + '#[derive(Default)] #[from_str(default = true)] enum T { #[default] A }', 'enum-level default')
    # 10. bounds and regexes
    for m, w in ((DD, 'display'), (FF, 'display'), (FF, 'from_str')):
        for b in ['bound(5)', 'bound(X:)x', 'bound(X: )y', 'bound(= X)', 'bound(X; Y)', 'bound(.., = 3)', 'bound(X: 5)', 'bound(Y)', 'bound(X: Nope)', 'bound = 5', 'bound(X: Clone Copy)', 'bound(..)..']:
            a(m + '#[display("{0}")] #[%s(%s)] struct T<X>(X);' % (w, b), 'invalid bound')
    for rx in ['(', ')', '[', '*', '(?<a>', 'a{2,1}', '[z-a]', '\\\\', '(?P<a>.)(?P<a>.)', '\\\\p{Nope}', '(?=a)', '(?<1a>x', '+', '(?q)', '[[:nope:]']:
        if rx == '[[:nope:]':
            rx = '[[:alpha:]'
        a(FF + '#[from_str(regex = "%s")] #[display("{a}")] struct T { a: u8 }' % rx, 'invalid regex')
        a(FF + '#[display("{a}")] struct T { #[from_str(regex = "%s")] a: u8 }' % rx, 'invalid regex')
        a(FF + 'enum T { A, #[from_str(regex = "%s")] #[display("{a}")] B { a: u8 } }' % rx, 'invalid regex')
        a(FF + '#[from_str(regex = "%s")] #[display("{a}")] enum T { B { a: u8 } }' % rx, 'invalid regex')
    for rx in ['(?<b>.)', '(?<a>.)(?<b>.)', '(?<>.)(?<a>.)', '.', '(?<a.b>.)', '(?<A>.)', '(?<1>.)']:
        a(FF + '#[from_str(regex = "%s")] struct T { a: u8 }' % rx, 'unknown, empty or missing capture')
        if '<>' not in rx:
            a(FF + 'enum T { #[from_str(regex = "%s")] B { a: u8 } }' % rx, 'unknown or missing capture')
    # 11. with combined with a trait
    for t in ['?', 'x', 'X', 'o', 'b', 'e', 'E', 'p', '#x', '08b']:
        for tmpl in ['#[display("{a:%s}")] struct T { #[display(with = Wa)] a: K }', 'struct T(#[display("{:%s}", with = Wa)] K);', 'enum T { A, #[display("{0:%s}")] B(#[display(with = Wa)] K) }',
                     '#[display("{b}{a:%s}")] struct T { #[display(with = Wa)] a: K, b: K }', '#[display("{a:%s}")] struct T { #[display(with = Wa, opt)] a: Option<K> }', '#[display("{a}")] struct T { #[display("<{:%s}>", with = Wa, opt)] a: Option<K> }', '#[display("{b}")] enum T { A { #[display("{:%s}", with = Wa)] b: K } }']:
            a(DD + tmpl % t, '`with` combined with another trait')
            if t in '?x':
                a(BOTH + tmpl % t, '`with` combined with another trait')
    # 12. attributes that do not exist, duplicates, wrong kinds
    for s in ['#[display("x", nope)]', '#[display(fmt = "x")]', '#[display(5)]', '#[display(style = 5)]', '#[display("x", "y")]', '#[display(bound)]', '#[display(style)]', '#[display("x" "y")]', '#[display(x)]', "#[display('x')]",
              '#[display(style("snake_case"))]', '#[display = 5]', '#[display(with)]', '#[display(opt = true)]', '#[display(b"x")]', '#[display("x",, style = "none")]']:
        if s in ('#[display = 5]',):
            continue
        a(DD + s + ' enum T { A }' if 'with' not in s and 'opt' not in s else DD + '#[display("{a}")] struct T { %s a: Option<K> }' % s, 'not a documented attribute argument')
    for s in ['#[from_str(nope)]', '#[from_str("x")]', '#[from_str(regex)]', '#[from_str(regex = 5)]', '#[from_str(new)]', '#[from_str(regex("x"))]', '#[from_str(style = "none")]', '#[from_str(opt)]', '#[from_str(default = )]', '#[from_str(ignore = 3)]']:
        if s == '#[from_str(ignore = 3)]':
            continue
        a(FF + '#[display("{a}")] ' + s + ' struct T { a: u8 }', 'not a documented attribute argument')
    # 13. unions
    a(DD + '#[display("x")] union T { a: u8 }', 'a union')
    a(FF + '#[display("x")] union T { a: u8 }', 'a union')
    # 14. fields without the trait their placeholder needs
    for s, ty in [('x', 'String'), ('b', 'f32'), ('', '()'), ('e', 'String'), ('p', 'u8'), ('?', 'NoDebug'), ('', 'Vec<u8>'), ('o', 'bool')]:
        a('struct NoDebug; ' + DD + '#[display("{a%s}")] struct T { a: %s }' % (':' + s if s else '', ty), 'the field does not implement the trait')
        a('struct NoDebug; ' + DD + 'enum T { A, #[display("{0%s}")] B(%s) }' % (':' + s if s else '', ty), 'the field does not implement the trait')
    a(FF + '#[display("{a}")] struct T { a: Vec<u8> }', 'the field cannot be parsed')
    a(FF + '#[display("{a}")] struct T<\'a> { a: &\'a str }', 'the field cannot be parsed')
    seen, r = set(), []
    for i, (s, w) in enumerate(out):
        if s not in seen:
            seen.add(s)
            r.append(('c19r_%d' % i, s, w))
    return r


IDS = ['r#type', 'r#fn', 'r#match', 'r#async', 'r#dyn', 'r#try', 'r#abstract', 'r#move', 'r#ref', 'r#struct', 'r#enum', 'r#impl', 'r#in', 'r#let', 'r#mut', 'r#static', 'r#true', 'r#false', 'r#where', 'r#while', 'r#use', 'r#gen', 'r#yield', 'r#box', 'r#macro', 'r#const', 'r#as',
       'r#a', 'r#x1', 's', 'f', 'c', 'm', 'e', 'i', 'x', 'value', 'value_0', 'value_1', 'this', 'core', 'std', 'alloc', 'parse_display', 'helpers', 'fmt', 'str', 'string', 'result', 'option', 'Ok', 'Err', 'Some', 'None', 'PARSER', 'Parser', 'regex', 're', 'caps', 'captures', 'args',
       'formatter', 'write', '_x', '__', '_0', '_self', 'self_', 'T', 'Display', 'FromStr', 'String', 'Option', 'Result', 'default', 'opt', 'with', 'style', 'bound', 'new', 'é', '名前', 'ñandú', 'Δ', 'x\u0301', 'union', 'auto', 'raw', 'safe', 'macro_rules', 'u8', 'bool', 'Default', 'Formatter', 'Write', 'main', 'K0', 'aVeryLongIdentifierNameIndeedXYZ', 'a1b2c3', 'ALL_CAPS', 'ParseError', 'IntoResult', 'match_', 'input', 'text', 'inner', 'item', 'src', 'r', 't', 'p', 'o']


def U(x):
    return x[2:] if x.startswith('r#') else x


def accepts():
    out = []
    D = '#[derive(parse_display::Display, parse_display::FromStr, Debug, PartialEq)] '

    def a(tag, src, cases, ty='T'):
        # cases: (value expression, text)
        body = []
        for v, t in cases:
            body.append('ok(rep, id, %s, %s.into(), cat(|| (%s).to_string()));' % (rs('show ' + v), rs(t), v))
            body.append('ok(rep, id, %s, format!("{:?}", Some(%s)), cat(|| format!("{:?}", %s::from_str(%s).ok())));' % (rs('parse ' + t), v, ty, rs(t)))
        out.append(('c19a_' + tag, src, ' '.join(body), src))
    for n, x in enumerate(IDS):
        u = U(x)
        lower = True
        src = '#[allow(non_camel_case_types, non_snake_case, non_upper_case_globals, uncommon_codepoints, dead_code)] '
        # as field names of a struct, a variant; with a field format, opt, default, new, a regex; nested
        a('f%d' % n, D + '#[display("<{%s}>")] pub struct T { pub %s: u8 }' % (u, x), [('T { %s: 5 }' % x, '<5>')])
        a('v%d' % n, D + 'pub enum T { #[display("{%s}-{other}")] V { %s: u8, other: bool }, W }' % (u, x), [('T::V { %s: 5, other: true }' % x, '5-true'), ('T::W', 'W')])
        if x not in ('Self',):
            a('n%d' % n, D + 'pub enum T { %s, #[display("<{}>")] Other }' % x, [('T::%s' % x, u), ('T::Other', '<Other>')])
            a('s%d' % n, '#[derive(parse_display::Display, parse_display::FromStr, Debug, PartialEq)] #[display("{0}")] pub struct %s(pub u16);' % x, [('self::%s(7)' % x, '7')], ty='self::' + x) if x not in (
                'u8', 'bool', 'str', 'String', 'Option', 'Result', 'Some', 'None', 'Ok', 'Err', 'Display', 'FromStr', 'Default', 'core', 'std', 'alloc', 'parse_display', 'id', 'rep', 'run', 'ok', 'cat') else None
        k = n % 6
        if k == 0:
            a('o%d' % n, D + '#[display("[{%s}]")] pub struct T { #[display("={}", opt)] %s: Option<u8> }' % (u, x), [('T { %s: None }' % x, '[]'), ('T { %s: Some(3) }' % x, '[=3]')])
        elif k == 1:
            a('w%d' % n, D + '#[display("{%s}")] #[from_str(new = T { %s, })] pub struct T { %s: u8 }' % (u, x, x), [('T { %s: 8 }' % x, '8')])
        elif k == 2:
            a('r%d' % n, D + '#[display("{%s}")] #[from_str(regex = "(?<%s>[0-9]+)")] pub struct T { %s: u8 }' % (u, u, x), [('T { %s: 8 }' % x, '8')]) if u.isascii() or True else None
        elif k == 3:
            a('d%d' % n, 'pub mod inner_m { #[derive(Debug, PartialEq, Default)] pub struct M { pub %s: u8 } } ' % x + D + '#[display("<{m.%s}>")] pub struct T { #[from_str(default)] m: inner_m::M }' % u, [('T { m: inner_m::M { %s: 8 } }' % x, '<8>')])
        elif k == 4:
            a('z%d' % n, D + '#[display("{a}")] pub struct T { a: u8, #[from_str(default)] %s: u8 }' % (x if x != 'a' else 'b'), [('T { a: 8, %s: 0 }' % x, '8')])
        else:
            a('g%d' % n, D + '#[display("{%s}.{y}")] pub struct T<X> { %s: X, y: u8 }' % (u, x), [('T::<u8> { %s: 8, y: 2 }' % x, '8.2')], ty='T::<u8>') if x != 'y' else None
    # shapes the documentation allows
    a('e1', D + '#[display("u")] pub struct T;', [('T', 'u')])
    a('e2', D + '#[display("u")] pub struct T();', [('T()', 'u')])
    a('e3', D + '#[display("u")] pub struct T {}', [('T {}', 'u')])
    a('e4', D + 'pub enum T { A(), B {}, #[display("x")] C = 7 }'.replace(' = 7', ''), []) if False else None
    a('e5', D + '#[repr(u8)] pub enum T { A = 1, B = 5 }', [('T::A', 'A'), ('T::B', 'B')])
    a('e6', D + '#[non_exhaustive] /** doc */ pub enum T { /** doc */ A, /** doc */ #[doc(hidden)] B }', [('T::A', 'A'), ('T::B', 'B')])
    a('e7', D + 'pub struct T(#[display("<{}>")] u8);', [('T(3)', '<3>')])
    a('e8', D + 'pub struct T { a: u8 }', [('T { a: 3 }', '3')])
    a('e9', D + 'pub struct T<const N: usize>(Arr<N>); #[derive(Debug, PartialEq)] pub struct Arr<const N: usize>(u8); impl<const N: usize> core::fmt::Display for Arr<N> { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { write!(f, "{}", self.0) } } impl<const N: usize> core::str::FromStr for Arr<N> { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { s.parse().map(Arr).map_err(|_| ()) } }',
      [('T::<3>(Arr(4))', '4')], ty='T::<3>')
    a('e10', D + '#[display("{0}")] pub struct T<\'a, X: \'a>(X, #[from_str(default)] core::marker::PhantomData<&\'a X>) where X: Clone;', [('T::<u8>(5, core::marker::PhantomData)', '5')], ty='T::<u8>')
    a('e11', D + '#[display("{0}")] pub struct T<X = u8>(X) where X: Copy;', [('T::<u8>(5)', '5')], ty='T::<u8>')
    a('e12', 'macro_rules! mk { ($n:ident, $f:ident, $t:ty, $s:literal) => { ' + D + '#[display($s)] pub struct $n { $f: $t } } } mk!(T, fld, u8, "<{fld}>");', [('T { fld: 5 }', '<5>')])
    a('e13', 'macro_rules! mk { ($n:ident { $($v:ident),* }) => { ' + D + '#[display(style = "snake_case")] pub enum $n { $($v),* } } } mk!(T { FooBar, Baz });', [('T::FooBar', 'foo_bar'), ('T::Baz', 'baz')])
    a('e14', D + '#[display("{a}", style = "snake_case")] pub struct T { a: E } ' + D + '#[display(style = "kebab-case")] pub enum E { AbC }', [('T { a: E::AbC }', 'ab-c')]) if False else None
    a('e15', D + '#[display(style = "snake_case")] #[display("<{}>")] pub enum T { FooBar }', [('T::FooBar', '<foo_bar>')]) if False else None
    a('e16', D + '#[display("<{}>", style = "snake_case",)] pub enum T { FooBar }', [('T::FooBar', '<foo_bar>')])
    a('e17', D + 'pub struct T(pub(crate) u8,);', [('T(1)', '1')])
    a('e18', D + '#[display(r#"{0}"{1}"#)] pub struct T(u8, u8);', [('T(1, 2)', '1"2')])
    a('e19', D + '#[display("{0}\\n{1}\\u{e9}")] pub struct T(u8, u8);', [('T(1, 2)', '1\n2é')])
    a('e20', 'pub trait Tr { type A; } impl Tr for u8 { type A = u16; } ' + D + '#[display("{0}")] pub struct T<X: Tr>(X::A) where X::A: core::fmt::Debug + PartialEq;', [('T::<u8>(5)', '5')], ty='T::<u8>') if False else None
    a('e21', 'pub mod other { pub use parse_display as pd; } #[derive(other::pd::Display, other::pd::FromStr, Debug, PartialEq)] #[display("{0}", crate = other::pd)] pub struct T(u8);', [('T(1)', '1')])
    a('e22', D + '#[display("{0}")] pub struct T(Box<u8>);'.replace('Box<u8>', 'u64'), [('T(1)', '1')])
    a('e23', D + '#[allow(non_camel_case_types)] pub enum T { #[display("{0}")] Rec(Bx), #[display("leaf")] Leaf } #[derive(Debug, PartialEq)] pub struct Bx(Box<T>); impl core::fmt::Display for Bx { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { write!(f, "({})", self.0) } } impl core::str::FromStr for Bx { type Err = parse_display::ParseError; fn from_str(s: &str) -> Result<Self, Self::Err> { let s = s.strip_prefix("(").and_then(|s| s.strip_suffix(")")).ok_or(parse_display::ParseError::new())?; Ok(Bx(Box::new(s.parse()?))) } }',
      [('T::Leaf', 'leaf'), ('T::Rec(Bx(Box::new(T::Leaf)))', '(leaf)')])
    # names of the prelude and of the generated code shadowed around the type
    sh = 'pub mod sh { #![no_implicit_prelude] pub struct Ok; pub struct Err; pub struct Some; pub struct None; pub struct Option; pub struct Result; pub struct String; pub struct Box; pub struct Vec; pub struct Default; pub struct ToString; pub struct From; pub struct Into; pub mod core {} pub mod std {} pub mod alloc {} pub mod fmt {} pub mod regex {} '
    for n, (t, cases) in enumerate([
            ('#[display("<{a}>")] pub struct T { pub a: u8 }', [('sh::T { a: 3 }', '<3>')]), ('pub enum T { A, #[display("{0}")] B(u8) }', [('sh::T::A', 'A'), ('sh::T::B(7)', '7')]),
            ('#[display("{a}")] #[from_str(default)] pub struct T { pub a: u8, pub b: u8 } impl ::core::default::Default for T { fn default() -> T { T { a: 0, b: 9 } } }', [('sh::T { a: 3, b: 9 }', '3')]),
            ('#[display("{a}")] pub struct T { #[display("x{}", opt)] pub a: ::core::option::Option<u8> }', [('sh::T { a: None }', ''), ('sh::T { a: Some(2) }', 'x2')]),
            ('#[display("{a}")] pub struct T { #[from_str(regex = "[0-9]")] pub a: u8 }', [('sh::T { a: 3 }', '3')]), ('#[display("{a}")] #[from_str(new = T { a })] pub struct T { pub a: u8 }', [('sh::T { a: 3 }', '3')]),
            ('#[display("{a}")] pub struct T { #[display("{0}:{1}")] #[from_str(default)] pub a: (u8, u8) }', [('sh::T { a: (1, 2) }', '1:2')]),
            ('#[display("lit")] pub struct T;', [('sh::T', 'lit')])]):
        a('p%d' % n, sh + '#[derive(::parse_display::Display, ::parse_display::FromStr, ::core::fmt::Debug, ::core::cmp::PartialEq)] ' + t + ' }', cases, ty='sh::T')
    return out


NOSTD = r'''#![no_std]
#![allow(warnings)]
use core::fmt::{self, Formatter};
use parse_display::{Display, DisplayFormat, FromStr};
pub struct W;
impl DisplayFormat<u8> for W { fn write(&self, f: &mut Formatter, v: &u8) -> fmt::Result { write!(f, "<{v}>") } }
#[derive(Display)]
#[display("{a:>5?}{{{b}}}{c}{d}{e.0}")]
pub struct A<T> { pub a: T, #[display("x{}")] pub b: u8, #[display("y{}", opt)] pub c: Option<u8>, #[display(with = W)] pub d: u8, pub e: (u8,) }
#[derive(Display, FromStr, PartialEq, Debug)]
#[display(style = "snake_case")]
pub enum B { FooBar, #[display("x{{")] Baz, #[display(style = "kebab-case")] KeBab, #[from_str(ignore)] No }
#[derive(Display)]
#[display("{}:{0}")]
pub enum C { P(u8), Q(i8), #[display("z{a}")] R { a: u8 } }
#[derive(Display)]
pub struct N(pub u8);
#[derive(Display)]
#[display("{0:p}", bound(T: Copy))]
pub struct P<T: 'static>(pub &'static T);
#[derive(Display, FromStr, PartialEq, Debug)]
#[display("abc}}")]
pub struct L;
'''
NOSTD_CASES = [('A { a: "é", b: 2, c: Some(3), d: 4, e: (5,) }.to_string()', '"é"{x2}y3<4>5'), ('A { a: 7u8, b: 2, c: None, d: 4, e: (5,) }.to_string()', '    7{x2}<4>5'), ('B::FooBar.to_string()', 'foo_bar'), ('B::Baz.to_string()', 'x{'),
               ('B::KeBab.to_string()', 'ke-bab'), ('format!("{:?}", "x{".parse::<B>())', 'Ok(Baz)'), ('format!("{:?}", "ke-bab".parse::<B>())', 'Ok(KeBab)'), ('format!("{:?}", "no".parse::<B>().is_err())', 'true'),
               ('C::P(1).to_string()', 'P:1'), ('C::Q(-1).to_string()', 'Q:-1'), ('C::R { a: 1 }.to_string()', 'z1'), ('N(3).to_string()', '3'), ('L.to_string()', 'abc}'), ('format!("{:?}", "abc}".parse::<L>())', 'Ok(L)')]


def no_std(ck):
    """The crate without its `std` feature: the derives' output in a `#![no_std]` crate (Display, and FromStr of fixed texts) compiles and behaves."""
    d = os.path.join(ck.dir, 'nostd')
    name = emit.crate_name(d)
    emit.write(os.path.join(d, 'Cargo.toml'), '[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2024"\n[workspace]\n[dependencies]\nparse-display = { path = "%s/parse-display", default-features = false }\n[profile.dev]\ndebug = 0\nincremental = false\n' % (name, emit.REPO))
    emit.cargo_lock(d)
    emit.write(os.path.join(d, 'src/lib.rs'), NOSTD)
    emit.write(os.path.join(d, 'src/main.rs'), '#![allow(warnings)]\nuse %s::*;\nfn main() {\n%s}\n' % (name, ''.join('    println!("{}", %s);\n' % e for e, _ in NOSTD_CASES)))
    target = os.path.join(R.WORK, 'target-nostd')
    rc, msgs, err = R.cargo_json(d, ['build'], ck.left(), target)
    bad = [m['message'] for m in msgs if m['message']['level'] == 'error' and any(f.endswith('src/lib.rs') and m.get('target', {}).get('name') == name for f, _ in R.span_files(m['message']))]
    if bad:
        ck.violation('nostd:does-not-compile', 'documented programs in a #![no_std] crate (feature std off)\n\n' + NOSTD + '\n' + '\n'.join(x.get('rendered') or x['message'] for x in bad)[:4000])
    if rc != 0:
        ck.note('the crate without its std feature was not built') if not bad else None
        return
    rc, out, e = R.sh([os.path.join(target, 'debug', name)], 60, cwd=d, env_=R.env())
    for (x, want), got in zip(NOSTD_CASES, (out or '').split('\n')):
        ck.evals += 1
        ck.nontrivial += 1
        if got != want:
            ck.violation('nostd:behaviour', NOSTD + '\n\nexpression: %s\nexpected: %s\nactual:   %s' % (x, want, got))
        ck.obligation('no_std(%s)' % x, 'rustc', 'discharged' if got == want else 'failed')


def run(ck):
    no_std(ck)
    items = accepts()
    lines.run_lines(ck, items, 'accept', 'documented programs over legal identifiers')
    bad = {v['key'].split(':')[0] for v in ck.viols}
    for i, _, _, _ in items:
        ck.obligation('accept(%s)' % i, 'rustc', 'failed' if i in bad else 'discharged')
    check.verus(ck, ['keys', 'types', 'implfn'])
    reject.check_reject(ck, rejects())
