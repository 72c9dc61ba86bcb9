"""Checks with a hand-written native crate file and/or a hand-written Kani crate."""
import os, json, re
import emit, run


def native(ck, name, text, what, sub='native', timeout=300):
    """Builds src/<name>.rs with `pub fn all(rep: &mut Rep)`; violations are recorded by (prog, kind).  Returns the other messages."""
    d = os.path.join(ck.dir, sub)
    target = os.path.join(run.WORK, 'target-native')
    emit.native_crate(d, [], set(), '%s::all(&mut rep);' % name, {name + '.rs': text}, plain=True)
    m = open(os.path.join(d, 'src/main.rs')).read()
    emit.write(os.path.join(d, 'src/main.rs'), m.replace('mod rt;', 'mod rt;\nmod %s;' % name, 1))
    ck.cmds.append('cargo build; run')
    rc, msgs, err = run.cargo_json(d, ['build'], ck.left(), target)
    if rc is None:
        raise run.Infra('build timed out')
    if rc != 0:
        bad = [x['message'] for x in msgs if x['message']['level'] == 'error']
        here = [x for x in bad if any(f.endswith('src/%s.rs' % name) for f, _ in run.span_files(x))]
        if not here:
            raise run.Infra('build failed\n' + err[-3000:])
        ck.violation('%s:does-not-compile' % name, what + '\n\n' + '\n'.join(x.get('rendered') or x['message'] for x in here)[:4000])
        return []
    rc, out, e = run.sh([os.path.join(target, 'debug', emit.crate_name(d)), str(200 if ck.thorough else 40)], min(ck.left(), timeout), cwd=d,
                        env_=run.env(VERIF_SEED=str(ck.seed)))
    rest = []
    ended = False
    for l in out.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m['t'] == 'viol':
            ck.violation('%s:%s' % (m['prog'], m['kind']), '%s: %s\n\ninput:    %s\nexpected: %s\nactual:   %s\n' % (m['prog'], m['kind'], m['input'], m['expected'], m['actual']))
        elif m['t'] == 'end':
            ended = True
            ck.evals += m['evals']
            ck.nontrivial += m['nontrivial']
        else:
            rest.append(m)
    if not ended:
        ck.violation('%s:run' % name, 'the run ended early (rc %s)\n%s' % (rc, e[-2000:]))
    ck.obligation('%s: %d comparisons' % (name, ck.evals), 'native comparison (bounded)', 'discharged' if ended else 'failed')
    return rest


def kani(ck, text, deps, sub='kani', per=150):
    """Runs a Kani crate written by hand.  Returns {harness: result} ({} if it could not be built)."""
    d = os.path.join(ck.dir, sub)
    emit.write(os.path.join(d, 'src/lib.rs'), text)
    emit.write(os.path.join(d, 'Cargo.toml'), '[package]\nname = "kown"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n%s\n[lints.rust]\nunexpected_cfgs = { level = "allow" }\n' % deps)
    emit.cargo_lock(d)
    j = os.path.join(d, 'result.json')
    if os.path.exists(j):
        os.remove(j)
    names = re.findall(r'#\[kani::proof\]\s*(?:#\[[^\]]*\]\s*)*fn (k_\w+)', text)
    names += re.findall(r'^\s+(k_parse_\w+) ', text, re.M)
    cmd = ['cargo', 'kani', '-j', '8', '--output-format', 'terse', '-Z', 'unstable-options', '--export-json', j,
           '--harness-timeout', '%ds' % (per if not ck.thorough else 900), '--target-dir', os.path.join(d, 'target')]
    ck.cmds.append('cargo kani')
    e = run.env()
    e.pop('RUSTUP_TOOLCHAIN', None)
    rc, o, err = run.sh(cmd, min(ck.left() - 30, 600), cwd=d, env_=e)
    open(os.path.join(d, 'log.txt'), 'w').write(o + '\n----\n' + err)
    res = {}
    if os.path.exists(j):
        try:
            res = run.parse_kani_json(json.load(open(j)))
        except ValueError:
            pass
    if not res:
        ck.note('Kani could not build or run: ' + (err or o)[-500:])
        ck.bounded.append('all of %s: native comparison only (Kani could not run)' % ck.prop)
    for n, r in sorted(res.items()):
        st = {'ok': 'discharged', 'failed': 'failed'}.get(r['status'], 'undecided')
        ck.obligation(n, 'kani', st, r['time'], r['why'] or '%d checks' % r['checks'])
        if st == 'undecided':
            ck.bounded.append('%s: native comparison only (%s)' % (n, r['why']))
        if r['uncovered']:
            ck.note('%s: reachability cover not satisfied' % n)
    for n in names:
        if n not in res:
            ck.obligation(n, 'kani', 'undecided', detail='no result')
    ck.extra['kani_checks'] = ck.extra.get('kani_checks', 0) + sum(r['checks'] for r in res.values())
    return res
