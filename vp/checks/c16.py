"""C16 Built-in FromStrRegex patterns admit every displayed value."""
import os, json
import emit, run as runner, lines
RULE = ('per built-in from_str_regex(): the postcondition (valid regex, no named group, every string the type shows or its documented grammar allows is in its language, nothing outside the grammar is) '
        'is decided for all strings by automata inclusion on the pattern the real function returns; natively values of each type are shown, matched, and parsed through regex_infer')
TECHNIQUE = 'contract obligations per function, decided by automata inclusion; bounded native replay'

INTS = [(s + b) for s in 'ui' for b in ('8', '16', '32', '64', '128', 'size')]


def bounds(t):
    bits = {'size': 64}.get(t[1:]) or int(t[1:])
    return (0, 2 ** bits - 1) if t[0] == 'u' else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)


def upto(n):
    """regex of the decimal numbers 0..=n without leading zeros"""
    s = str(n)
    alts = ['0'] + ['[1-9][0-9]{%d}' % (k - 1) for k in range(1, len(s))]
    for i, c in enumerate(s):
        lo = 1 if i == 0 else 0
        if int(c) - 1 >= lo:
            alts.append('%s[%d-%d][0-9]{%d}' % (s[:i], lo, int(c) - 1, len(s) - i - 1))
    return '|'.join(alts + [s])


def nonzero_upto(n):
    return '|'.join(upto(n).split('|')[1:])


def types():
    """(name, type, what it shows, what it must admit, what it may admit at most, sample values)"""
    r = []
    for t in INTS:
        lo, hi = bounds(t)
        for nz in (False, True):
            f = nonzero_upto if nz else upto
            shown = '(?:%s)' % f(hi) + ('|-(?:%s)' % nonzero_upto(-lo) if lo else '')
            sign = r'\+?' if not lo else ''
            must = r'\+?0*(?:%s)' % f(hi) + ('|-0*(?:%s)' % f(-lo) if lo else '')
            most = (r'[+-]?' if lo else r'\+?') + '[0-9]+'
            ty = 'core::num::NonZero<%s>' % t if nz else t
            vals = sorted({lo, lo + 1, 1, 2, 9, 10, 42, 99, 100, hi - 1, hi} | ({-1, -9, -10} if lo else set()) | (set() if nz else {0}))
            vals = [v for v in vals if v or not nz]
            e = ['core::num::NonZero::<%s>::new(%d).unwrap()' % (t, v) if nz else '(%d as %s)' % (v, t) if v >= 0 else '(%d%s)' % (v, t) for v in vals]
            r.append((('NonZero<%s>' % t if nz else t), ty, shown, must, most, e, 'x.to_string()'))
    num = r'(?:[0-9]+|[0-9]+\.[0-9]*|[0-9]*\.[0-9]+)(?:e[+-]?[0-9]+)?'
    fl = r'(?i:[+-]?(?:inf|infinity|nan|%s))' % num
    for t in ('f32', 'f64'):
        shown = r'-?[0-9]+(?:\.[0-9]+)?(?:[eE]-?[0-9]+)?|-?inf|NaN|\+[0-9]+(?:\.[0-9]+)?|\+inf'
        vals = ['0.0', '-0.0', '1.0', '-1.5', '0.1', '1e10', '1e-7', '1e300' if t == 'f64' else '1e30', '123456.789', '%s::MAX' % t, '%s::MIN' % t, '%s::MIN_POSITIVE' % t, '%s::INFINITY' % t, '%s::NEG_INFINITY' % t, '%s::EPSILON' % t, '5e-324' if t == 'f64' else '1e-45']
        r.append((t, t, shown, fl, fl, ['(%s) as %s' % (v, t) for v in vals], 'x.to_string()'))
    r.append(('bool', 'bool', 'true|false', 'true|false', 'true|false', ['true', 'false'], 'x.to_string()'))
    r.append(('char', 'char', '(?s:.)', '(?s:.)', '(?s:.)', ["'a'", "'\\n'", "'é'", "'.'", "'\\u{10ffff}'", "'\\0'", "'\\r'", "'\"'"], 'x.to_string()'))
    strs = ['""', '"x"', '"a\\nb"', '"é€𝄞"', '"(?<a>.)"', '"\\n"', '"\\r\\n"', '"\\0"']
    for n, t, c, sh in [('String', 'String', 'String::from(%s)', 'x.clone()'), ('OsString', 'std::ffi::OsString', 'std::ffi::OsString::from(%s)', 'x.to_str().unwrap().to_string()'),
                        ('PathBuf', 'std::path::PathBuf', 'std::path::PathBuf::from(%s)', 'x.to_str().unwrap().to_string()')]:
        r.append((n, t, '(?s:.*)', '(?s:.*)', '(?s:.*)', [c % s for s in strs], sh))
    return r


def rlit(s):
    return 'r##"%s"##' % s


def run(ck):
    d = os.path.join(ck.dir, 'native')
    target = os.path.join(runner.WORK, 'target-native')
    o = ['#![allow(warnings)]', 'use super::rt::*;', 'use parse_display::FromStrRegex;', '''
fn parse(s: &str) -> regex_syntax::hir::Hir { regex_syntax::Parser::new().parse(s).unwrap() }
fn out(f: &str, what: &str, ok: bool, detail: &str) {
    println!("{{\\"t\\":\\"c16\\",\\"f\\":\\"{}\\",\\"what\\":\\"{}\\",\\"ok\\":{},\\"detail\\":\\"{}\\"}}", esc(f), esc(what), ok, esc(detail));
}
fn one<T: FromStrRegex>(rep: &mut Rep, f: &str, shown: &str, must: &str, most: &str) {
    let src = T::from_str_regex();
    let Ok(re) = regex::Regex::new(&src) else { return out(f, "is a valid regex", false, &src) };
    out(f, "is a valid regex", true, "");
    out(f, "has no named group", re.capture_names().flatten().next().is_none(), &src);
    let real = dfa_str(&src);
    for (what, lo, hi) in [("admits what the type shows", Some(shown), None), ("admits the documented grammar", Some(must), None), ("admits nothing the type can never parse", None, Some(most))] {
        let (a, b) = match (lo, hi) { (Some(l), _) => (dfa_str(l), real.clone()), (_, Some(h)) => (real.clone(), dfa_str(h)), _ => unreachable!() };
        let (Some(a), Some(b)) = (a, b) else { println!("{{\\"t\\":\\"c16u\\",\\"f\\":\\"{}\\",\\"what\\":\\"{}\\"}}", esc(f), esc(what)); continue };
        match lang_diff(&a, &b, false) {
            None => out(f, what, true, ""),
            Some((s, _)) => out(f, what, false, &format!("text {s:?}, pattern {src:?}")),
        }
    }
}
fn values<T: FromStrRegex + PartialEq + std::fmt::Debug>(rep: &mut Rep, f: &str, vals: Vec<T>, show: fn(&T) -> String, wrap: fn(&str) -> Result<T, String>) {
    let Ok(re) = regex::Regex::new(&format!("\\\\A(?:{})\\\\z", T::from_str_regex())) else { return };
    for v in &vals {
        let s = show(v);
        rep.evals += 1;
        if !re.is_match(&s) { rep.viol(f, "shown value", &s, "matched by from_str_regex()", &format!("not matched by {:?}", T::from_str_regex())); continue; }
        let got = std::panic::catch_unwind(|| wrap(&format!("<{s}>"))).unwrap_or(Err("panic".into()));
        if got.as_ref() != Ok(v) { rep.viol(f, "shown value through regex_infer", &s, &format!("{v:?}"), &format!("{got:?}")); } else { rep.nontrivial += 1; }
    }
    // samples of texts: what parses must match
    let mut r = R(rep.seed.wrapping_mul(77));
    for _ in 0..2000 {
        let n = r.pick(6);
        let s: String = (0..n).map(|_| ['0', '1', '9', '2', '5', '+', '-', '.', 'e', 'E', 'i', 'n', 'f', 'N', 'a', 't', 'y', 'x', ' ', '_', 'é', '\\n'][r.pick(22)]).collect();
        rep.evals += 1;
        if T::from_str(&s).is_ok() && !re.is_match(&s) { rep.viol(f, "parseable text", &s, "matched by from_str_regex()", &format!("not matched by {:?}", T::from_str_regex())); break; }
    }
}
''']
    body = []
    for i, (n, ty, shown, must, most, vals, show) in enumerate(types()):
        o.append('#[derive(parse_display::FromStr)] #[display("<{0}>")] pub struct W%d(#[from_str(regex_infer)] %s);' % (i, ty))
        body.append('one::<%s>(rep, %s, %s, %s, %s);' % (ty, rlit(n), rlit(shown), rlit(must), rlit(most)))
        body.append('values::<%s>(rep, %s, vec![%s], |x| %s, |s| s.parse::<W%d>().map(|w| w.0).map_err(|e| e.to_string()));' % (ty, rlit(n), ', '.join(vals), show, i))
    o.append('pub fn all(rep: &mut Rep) {\n%s\n}' % '\n'.join(body))
    emit.native_crate(d, [], set(), 'c16::all(&mut rep);', {'c16.rs': '\n'.join(o) + '\n'}, plain=True)
    m = open(os.path.join(d, 'src/main.rs')).read()
    emit.write(os.path.join(d, 'src/main.rs'), m.replace('mod rt;', 'mod rt;\nmod c16;', 1))
    ck.cmds.append('cargo build; run (automata inclusion)')
    rc, msgs, err = runner.cargo_json(d, ['build'], ck.left(), target)
    if rc is None:
        raise runner.Infra('build timed out')
    if rc != 0:
        bad = [x['message'] for x in msgs if x['message']['level'] == 'error']
        here = [x for x in bad if any(f.endswith('src/c16.rs') for f, _ in runner.span_files(x))]
        if not here:
            raise runner.Infra('build failed\n' + err[-3000:])
        ck.violation('c16:does-not-compile', 'FromStrRegex (or regex_infer with it) is not usable for one of the documented types.\n\n' + '\n'.join(x.get('rendered') or x['message'] for x in here)[:4000])
        return
    rc, out, e = runner.sh([os.path.join(target, 'debug', emit.crate_name(d))], min(ck.left(), 600), cwd=d, env_=runner.env(VERIF_SEED=str(ck.seed)))
    ended = False
    failed = {}
    for l in out.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m['t'] == 'c16':
            name = '<%s as FromStrRegex>::from_str_regex %s' % (m['f'], m['what'])
            ck.evals += 1
            ck.nontrivial += 1
            ck.obligation(name, 'automata inclusion', 'discharged' if m['ok'] else 'failed', detail=m['detail'])
            if not m['ok']:
                failed.setdefault(m['f'], []).append((name, m['detail']))
        elif m['t'] == 'c16u':
            ck.obligation('<%s as FromStrRegex>::from_str_regex %s' % (m['f'], m['what']), 'automata inclusion', 'undecided', detail='look-around')
            ck.bounded.append('%s: samples only' % m['f'])
        elif m['t'] == 'viol':
            failed.setdefault(m['prog'], []).append(('%s: %s' % (m['prog'], m['kind']), 'text %r expected %s, actual %s' % (m['input'], m['expected'], m['actual'])))
        elif m['t'] == 'end':
            ended = True
            ck.evals += m['evals']
            ck.nontrivial += m['nontrivial']
    if not ended:
        raise runner.Infra('run ended early: %s %s' % (rc, e[-2000:]))
    ck.programs += len(types())
    for f, l in failed.items():
        ck.violation('c16:%s' % f, '\n\n'.join('obligation: %s\nfails for: %s' % x for x in l))
