"""Emits the native and Kani crates for a list of programs."""
import os, shutil, json
from model import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SUPPORT = os.path.join(VERIF, 'support')


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    old = open(path).read() if os.path.exists(path) else None
    if old != text:
        open(path, 'w').write(text)


def gen_fn(p):
    if p.values:
        return p.values
    vs = p.the_variants()

    def ctor(v):
        n = p.name if not p.is_enum else '%s::%s' % (p.name, v.name)
        if v.kind == 'unit':
            return n
        if v.kind == 'tuple':
            return '%s(%s)' % (n, ', '.join('Gen::gen(r)' for _ in v.fields))
        return '%s { %s }' % (n, ', '.join('%s: Gen::gen(r)' % f.name for f in v.fields))
    if not vs:
        return None
    arms = ', '.join('%s => %s' % (i if i < len(vs) - 1 else '_', ctor(v)) for i, v in enumerate(vs))
    return 'pub fn gen(r: &mut R) -> %s%s { match r.pick(%d) { %s } }' % (p.name, p.targs, len(vs), arms)


def opt_caps(vp):
    """groups inside optional items -> list of lists of group numbers (one list per optional part)"""
    res = []

    def walk(items, cur):
        for i in items:
            if i[0] in ('any', 're', 'with'):
                if cur is not None:
                    cur.append(i[1])
            elif i[0] == 'raw':
                if cur is not None:
                    cur += [int(x) for x in re.findall(r'\(\?<g(\d+)>', i[1])]
            elif i[0] == 'opt':
                c = []
                walk(i[1], c)
                res.append(c)
    walk(vp.items, None)
    return res


HEAD = '#![allow(warnings)]\nuse super::common::*;\nuse core::fmt::Write as _;\n'


def module(p, kinds):
    """Source of the module of program p.  kinds: subset of {'display','from_str','roundtrip','regex'}"""
    o = [HEAD, p.source()]
    g = gen_fn(p)
    if g:
        o.append(g)
    if 'D' in p.derive:
        o.append(p.spec_fmt())
    run = ['#[cfg(not(kani))] pub fn run(rep: &mut Rep) {']
    ty = p.name + p.targs
    if 'D' in p.derive and 'display' in kinds and g:
        run.append('check_display::<%s>(rep, %s, gen, spec_fmt);' % (ty, rs(p.id)))
    if 'F' in p.derive and ('from_str' in kinds or 'regex' in kinds):
        vs = []
        for vp in p.parse_spec():
            i = vp.index
            o.append(vp.build_src('build_%d' % i))
            o.append('#[cfg(not(kani))] ' + vp.fails_src('fails_%d' % i))
            vs.append('VS { name: %s, lit: %s, items: || %s, ncaps: %d, build: build_%d, fails: fails_%d }' % (
                rs(vp.v.name or ''), 'Some(%s)' % rs(vp.lit) if vp.lit is not None else 'None', vp.items_src(), len(vp.caps), i, i))
        o.append('#[cfg(not(kani))] pub fn prog() -> Prog<%s> { Prog { name: %s, is_enum: %s, gen: %s, variants: vec![%s], inputs: vec![%s] } }' % (
            ty, rs(p.id), str(p.is_enum).lower(), 'gen' if g else '|_| panic!()', ', '.join(vs), ', '.join(rs(x) for x in p.inputs)))
        run.append('let p = prog();')
        run.append('let diffs = %s;' % ('check_regex::<%s>(rep, &p)' % ty if 'regex' in kinds else 'vec![]'))
        if 'from_str' in kinds:
            run.append('check_from_str::<%s>(rep, &p, diffs);' % ty)
    if 'roundtrip' in kinds and p.roundtrip and g:
        run.append('check_roundtrip::<%s>(rep, %s, gen, %s);' % (ty, rs(p.id), p.roundtrip if isinstance(p.roundtrip, str) else '|_| true'))
    for e in getattr(p, 'extra_run', ()):
        run.append(e)
    run.append('}')
    o += run
    return '\n'.join(o) + '\n'


LOCK = os.path.join(REPO, 'Cargo.lock')


def cargo_lock(d):
    dst = os.path.join(d, 'Cargo.lock')
    src = LOCK if os.path.exists(LOCK) else os.path.join(SUPPORT, 'Cargo.lock')
    if not os.path.exists(dst):
        shutil.copy(src, dst)


def crate_name(d):
    """Unique per directory: cargo identifies path packages of separate workspaces by name in a shared target directory."""
    return 'corpus_' + '_'.join(d.rstrip('/').split('/')[-2:]).replace('-', '_').lower()


def native_crate(d, programs, kinds, extra_main='', extra_files=None, plain=False):
    pdn = os.path.join(d, 'pdn')
    tag = crate_name(d)[len('corpus'):]
    write(os.path.join(pdn, 'Cargo.toml'), '''[package]
name = "pdn%s"
version = "0.0.0"
edition = "2024"
[dependencies]
real = { package = "parse-display", path = "%s/parse-display" }
regex = "1"
regex-syntax = "0.8"
''' % (tag, REPO))
    src = open(os.path.join(SUPPORT, 'pdn/src/lib.rs')).read()
    if plain:
        src = ('pub use real::*;\npub fn log_regexes<X>(f: impl FnOnce() -> X) -> (Vec<(String, String)>, X) { (vec![], f()) }\n')
    write(os.path.join(pdn, 'src/lib.rs'), src)
    write(os.path.join(d, 'Cargo.toml'), '''[package]
name = "corpus%s"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
parse_display = { package = "pdn%s", path = "pdn" }
parse-display-real = { package = "parse-display", path = "%s/parse-display" }
parse-display-with = { path = "%s/parse-display-with" }
regex = "1"
regex-syntax = "0.8"
regex-automata = { version = "0.4", features = ["dfa-build", "dfa-search", "syntax", "unicode"] }
[profile.dev]
debug = 0
incremental = false
[profile.dev.package.regex-automata]
opt-level = 2
[profile.dev.package.regex-syntax]
opt-level = 2
[profile.dev.package.regex]
opt-level = 2
[profile.dev.package.aho-corasick]
opt-level = 2
[profile.dev.package.memchr]
opt-level = 2
''' % (tag, tag, REPO, REPO))
    cargo_lock(d)
    shutil.copy(os.path.join(SUPPORT, 'common.rs'), os.path.join(d, 'common.rs.tmp'))
    write(os.path.join(d, 'src/common.rs'), open(os.path.join(SUPPORT, 'common.rs')).read())
    os.remove(os.path.join(d, 'common.rs.tmp'))
    write(os.path.join(d, 'src/rt.rs'), open(os.path.join(SUPPORT, 'native_rt.rs')).read())
    for f in os.listdir(os.path.join(d, 'src')):
        if f.startswith('p_'):
            os.remove(os.path.join(d, 'src', f))
    main = ['#![allow(warnings)]', 'mod common;', 'mod rt;']
    for p in programs:
        write(os.path.join(d, 'src/p_%s.rs' % p.id), module(p, kinds))
        main.append('mod p_%s;' % p.id)
    for name, text in (extra_files or {}).items():
        write(os.path.join(d, 'src', name), text)
    main.append('''fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let n: usize = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(40);
    let mut rep = rt::Rep { seed, n, evals: 0, nontrivial: 0, viols: 0, seen: Default::default() };
''')
    for p in programs:
        main.append('    rt::run_prog(&mut rep, "%s", p_%s::run);' % (p.id, p.id))
    main.append('    ' + extra_main)
    main.append('    println!("{{\\"t\\":\\"end\\",\\"evals\\":{},\\"nontrivial\\":{},\\"viols\\":{}}}", rep.evals, rep.nontrivial, rep.viols);\n}')
    write(os.path.join(d, 'src/main.rs'), '\n'.join(main) + '\n')


def kani_harness(p, kinds, dump):
    """dump: list of regex texts per pattern variant (or None)."""
    o = []
    ty = p.name + p.targs
    unw = 24
    longest = max([len(x) for x in re.findall(r'"((?:[^"\\\\]|\\\\.)*)"', p.source())] + [0])
    unw = max(unw, longest + 8)
    if 'D' in p.derive and 'display' in kinds:
        o.append('#[cfg(kani)] #[kani::proof] #[kani::unwind(%d)] fn k_display_%s() { let v: %s = gen(&mut R); contract_display(&v, spec_fmt); }' % (max(64, unw), p.id, ty))
    if 'F' in p.derive and 'from_str' in kinds:
        vps = p.parse_spec()
        pats = [vp for vp in vps if vp.lit is None]
        lits = [vp for vp in vps if vp.lit is not None]
        assert len(pats) <= 4 and all(len(vp.caps) <= 7 for vp in pats), p.id
        b = ['symbolic_world();']
        if len(pats) > 1:
            b.append('unsafe { parse_display::mock::KEYS = &[%s]; }' % ', '.join(key_table(dump)))
        # variants with the same pattern text share the outcome of matching
        ids = []
        for i in range(len(pats)):
            ids.append(dump.index(dump[i]) if dump else i)
        for i, vp in enumerate(pats):
            for grp in opt_caps(vp):
                if grp and ids[i] == i:
                    b.append('{ let absent: bool = kani::any(); unsafe { %s } }' % ' '.join(
                        'parse_display::mock::ABSENT[%d][%d] = absent;' % (i, n) for n in grp))
        cases = list(dict.fromkeys(vp.lit for vp in lits))
        near = []
        for l in cases[:2]:
            near += [l + 'x', l[:-1], l.swapcase() if l.swapcase() not in cases else l + 'y']
        cases += [x for x in dict.fromkeys(near) if x not in cases]
        arms = ' '.join('%d => %s,' % (i, rs(c)) for i, c in enumerate(cases))
        b.append('let s: &\'static str = match kani::any::<u8>() { %s _ => "~" };' % arms)
        w = ['let want: Option<%s> = \'w: {' % ty]
        for k, vp in enumerate(lits):
            w.append('%sif s == %s { if let Ok(x) = build_%d(&|_| None) { break \'w Some(x); } }' % ('else ' if k else '', rs(vp.lit), vp.index))
        for i, vp in enumerate(pats):
            w.append('if unsafe { parse_display::mock::MATCH[%d] } { if let Ok(x) = build_%d(&|n| group(%d, n)) { break \'w Some(x); } }' % (ids[i], vp.index, ids[i]))
        w.append('None };')
        b += w
        for e in getattr(p, 'kani_pre', ()):
            b.append(e)
        b.append('let got = <%s as core::str::FromStr>::from_str(s);' % ty)
        b.append('contract_from_str::<%s>(got, want);' % ty)
        for e in getattr(p, 'kani_post', ()):
            b.append(e)
        o.append('#[cfg(kani)] #[kani::proof] #[kani::unwind(%d)] fn k_from_str_%s() { %s }' % (unw, p.id, '\n'.join(b)))
    return '\n'.join(o) + '\n'


def key_table(dump):
    """distinguish the pattern texts by (length, byte at a position)"""
    out = []
    for i, s in enumerate(dump):
        if s in dump[:i]:
            continue
        b = s.encode()
        others = [d.encode() for j, d in enumerate(dump) if d != s and len(d.encode()) == len(b)]
        pos = 0
        for q in range(len(b)):
            if all(o[q] != b[q] for o in others):
                pos = q
                break
        else:
            if others:
                raise SpecError('patterns not distinguishable')
        out.append('(%d, %d, %d, %d)' % (len(b), pos, b[pos] if b else 0, i))
    return out


def kani_crate(d, programs, kinds, dumps):
    write(os.path.join(d, 'pdmock/Cargo.toml'), '''[package]
name = "pdmock"
version = "0.0.0"
edition = "2021"
[dependencies]
real = { package = "parse-display", path = "%s/parse-display" }
''' % REPO)
    write(os.path.join(d, 'pdmock/src/lib.rs'), open(os.path.join(SUPPORT, 'pdmock/src/lib.rs')).read())
    write(os.path.join(d, 'Cargo.toml'), '''[package]
name = "kcorpus"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
parse_display = { package = "pdmock", path = "pdmock" }
[lints.rust]
unexpected_cfgs = { level = "allow" }
''')
    cargo_lock(d)
    write(os.path.join(d, 'src/common.rs'), open(os.path.join(SUPPORT, 'common.rs')).read())
    write(os.path.join(d, 'src/rt.rs'), open(os.path.join(SUPPORT, 'kani_rt.rs')).read())
    for f in os.listdir(os.path.join(d, 'src')):
        if f.startswith('p_'):
            os.remove(os.path.join(d, 'src', f))
    main = ['#![allow(warnings)]\n#![feature(formatting_options)]', 'mod common;', 'mod rt;']
    names = []
    for p in programs:
        h = kani_harness(p, kinds, dumps.get(p.id))
        import re as _re
        names += _re.findall(r'fn (k_\w+)\(\)', h)
        write(os.path.join(d, 'src/p_%s.rs' % p.id), module(p, kinds - {'roundtrip'}) + h)
        main.append('mod p_%s;' % p.id)
    write(os.path.join(d, 'src/lib.rs'), '\n'.join(main) + '\n')
    return names
