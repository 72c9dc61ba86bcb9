"""Runs the layers of a check: N (native programs against the specification, also the replay search), K (Kani contracts)."""
import os, sys, json, time, subprocess, re, shutil, signal

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import emit
from model import SpecError

VERIF = emit.VERIF
REPO = emit.REPO
WORK = os.path.join(VERIF, 'work')
STABLE = 'stable-x86_64-unknown-linux-gnu'


def env(**kw):
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('RUSTFLAGS', None)
    e.update(kw)
    return e


def sh(cmd, timeout, cwd=None, env_=None):
    """-> (rc or None on timeout, stdout, stderr)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env_ or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors='replace', start_new_session=True)
    try:
        o, e = p.communicate(timeout=max(1, timeout))
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, o, e


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.deadline = self.t0 + (820 if not self.thorough else 3 * 3600)
        self.viols = []         # dict(key, found, text)
        self.verus_failed = []  # (unit, function, verifier output)
        self.oblig = []         # dict(name, backend, status, time, detail)
        self.evals = 0
        self.nontrivial = 0
        self.samples = []
        self.programs = 0
        self.notes = []
        self.functions = []
        self.bounded = []
        self.trusted = []
        self.assumptions = []
        self.extra = {}
        self.cmds = []
        self.dir = os.path.join(WORK, prop)
        os.makedirs(self.dir, exist_ok=True)

    def left(self):
        return self.deadline - time.time()

    def log(self, *a):
        print('[%s %5.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    def note(self, s):
        self.notes.append(s)
        self.log('note:', s)

    def obligation(self, name, backend, status, secs=0.0, detail=''):
        self.oblig.append(dict(name=name, backend=backend, status=status, solver_s=round(secs, 3), detail=detail))

    def violation(self, key, text, found=True):
        """key identifies what fails (used by the known-findings file)."""
        if any(v['key'] == key for v in self.viols):
            return
        self.viols.append(dict(key=key, text=text, found=found))
        self.log('violation:', key)

    # ------------------------------------------------------------------ finish
    def finish(self, level, rule, extra_cov=None):
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.prop + '-'):
                os.remove(os.path.join(rdir, f))
        known = load_known()
        new = []
        for v in self.viols:
            k = [x for x in known if x[0] == self.prop and x[1] == v['key']]
            if k:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k[0][2]))
            else:
                new.append(v)
        # the violations with a failing input first
        new.sort(key=lambda v: not v['found'])
        ob = [o for o in self.oblig]
        disch = [o for o in ob if o['status'] == 'discharged']
        by = {}
        for o in ob:
            b = by.setdefault(o['backend'], dict(obligations=0, discharged=0, solver_s=0.0))
            b['obligations'] += 1
            b['discharged'] += o['status'] == 'discharged'
            b['solver_s'] = round(b['solver_s'] + o['solver_s'], 2)
        cov = dict(
            obligations=len(ob), discharged=len(disch), by_backend=by,
            functions_under_contract=self.functions,
            obligation_names=[o['name'] + ' [' + o['backend'] + ']: ' + o['status'] for o in ob][:400],
            undecided=[o for o in ob if o['status'] not in ('discharged', 'failed')],
            checker_cmd='; '.join(self.cmds) or 'none', trusted_base=TRUSTED + self.trusted,
            bounded=self.bounded,
            programs=self.programs, disagreements_checked=self.evals,
            evaluations=self.evals, distinct_nontrivial=self.nontrivial, rule=rule,
            samples=self.samples[:12] or ['(none in this run)'],
            explanation=rule, notes=self.notes)
        cov.update(self.extra)
        cov.update(extra_cov or {})
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions + ASSUME, wall_s=round(time.time() - self.t0, 1), violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        for i, v in enumerate(new[:6]):
            path = os.path.join(rdir, '%s-%d.txt' % (self.prop, i + 1))
            open(path, 'w').write('property %s\nviolation %s\n\n%s\n' % (self.prop, v['key'], v['text']))
            print('VIOLATION property=%s replay=%s%s' % (self.prop, path, '' if v['found'] else ' no-failing-input-found'))
        self.log('%d obligations, %d discharged, %d evaluations, %d violations' % (len(ob), len(disch), self.evals, len(new)))
        return 1 if new else 0


TRUSTED = [
    'rustc (macro expansion, type checking, code generation)',
    'the regex and regex-syntax crates (matching semantics; assumed to implement leftmost-first search)',
    'core::fmt, alloc and std (native runs execute them; Kani executes their MIR)',
]
ASSUME = []


def load_known():
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^open: property=(\S+) key=(\S+) (.*)$', l.strip())
            if m:
                res.append(m.groups())
    return res


# ---------------------------------------------------------------------- layer N
def cargo_json(d, args, timeout, target, toolchain=STABLE):
    rc, o, e = sh(['cargo'] + args + ['--message-format=json'], timeout, cwd=d,
                  env_=env(RUSTUP_TOOLCHAIN=toolchain, CARGO_TARGET_DIR=target))
    msgs = []
    for l in o.splitlines():
        if l.startswith('{'):
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get('reason') == 'compiler-message':
                msgs.append(m)
    return rc, msgs, e


def span_files(msg):
    res = set()

    def go(s):
        while s:
            res.add((s['file_name'], s['line_start']))
            ex = s.get('expansion')
            s = ex.get('span') if ex else None

    def walk(m):
        for s in m.get('spans', []):
            go(s)
        for c in m.get('children', []):
            walk(c)
    walk(msg)
    return res


def blame(msgs):
    """-> (dict program id -> first error text, unattributed errors)"""
    per, rest = {}, []
    for m in msgs:
        x = m['message']
        if x['level'] not in ('error', 'error: internal compiler error'):
            continue
        ids = set()
        for f, _ in span_files(x):
            g = re.search(r'src/p_(\w+)\.rs$', f)
            if g:
                ids.add(g.group(1))
        if ids:
            for i in ids:
                per.setdefault(i, []).append(x.get('rendered') or x['message'])
        elif not re.match(r'(aborting due|could not compile)', x['message']):
            rest.append((m.get('target', {}).get('name'), x.get('rendered') or x['message']))
    return per, rest


def fails_plainly(ck, d, progs, per, kinds):
    """Do the blamed programs fail to compile without the logging wrapper, too?"""
    d = d + '-plain'
    emit.native_crate(d, [p for p in progs if p.id in per], kinds, '', None, True)
    rc, msgs, err = cargo_json(d, ['check'], ck.left(), os.path.join(WORK, 'target-native'))
    if rc is None or rc == 0:
        return False
    return set(blame(msgs)[0]) == set(per)


def native(ck, programs, kinds, n=None, extra_main='', extra_files=None, sub='native', report=True):
    """Builds and runs the native crate.  Returns dict(regex={prog: [...]}, viols=[...], broken={id: text}, good=[programs])."""
    d = os.path.join(ck.dir, sub)
    os.makedirs(d, exist_ok=True)
    target = os.path.join(WORK, 'target-native')
    n = n or (200 if ck.thorough else 40)
    broken = {}
    plain = False
    progs = list(programs)
    res = dict(regex={}, viols=[], broken=broken, good=[], plain=False, extra=[])
    for attempt in range(6):
        emit.native_crate(d, progs, kinds, extra_main, extra_files, plain)
        rc, msgs, err = cargo_json(d, ['build'], ck.left(), target)
        if rc == 0:
            break
        if rc is None:
            ck.note('native build timed out')
            return res
        per, rest = blame(msgs)
        if not plain and (any((t or '').startswith('pdn') for t, _ in rest) or (attempt == 0 and not fails_plainly(ck, d, progs, per, kinds))):
            # the wrapper may not fit a changed helper interface: fall back to the plain re-export before blaming
            plain = True
            continue
        if not per:
            raise Infra('native build failed:\n' + err[-3000:] + '\n'.join(r for _, r in rest)[:3000])
        for i, t in per.items():
            broken[i] = '\n'.join(t)[:6000]
        progs = [p for p in progs if p.id not in per]
        if not progs:
            break
    else:
        raise Infra('native build keeps failing:\n' + err[-3000:])
    res['plain'] = plain
    if plain:
        ck.note('the logging wrapper does not compile against the current helpers; regex obligations fall back to bounded checks')
    res['good'] = progs
    if report:
        for p in programs:
            if p.id in broken:
                ck.violation('%s:does-not-compile' % p.id, 'A program the documentation allows is rejected by the compiler.\n\n--- program\n%s\n\n--- errors\n%s' % (p.source(), broken[p.id]))
    if not progs:
        return res
    exe = os.path.join(target, 'debug', emit.crate_name(d))
    rc, o, e = sh([exe, str(n)], min(ck.left(), 300 if not ck.thorough else 3000), cwd=d, env_=env(VERIF_SEED=str(ck.seed)))
    by = {p.id: p for p in progs}
    ended = False
    for l in o.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        t = m.get('t')
        if t == 'viol':
            res['viols'].append(m)
        elif t == 'stat':
            ck.evals += m['evals']
            ck.nontrivial += m['nontrivial']
            if m['sample'] and len(ck.samples) < 40:
                ck.samples.append('%s: %s' % (m['prog'], m['sample']))
        elif t in ('regex', 'regex_extra'):
            res['regex'].setdefault(m['prog'], []).append(m)
        elif t == 'oracle_error':
            ck.note('oracle error in %s: %s' % (m['prog'], m['msg']))
            res.setdefault('oracle_errors', []).append(m)
        elif t == 'end':
            ended = True
        else:
            res['extra'].append(m)
    if not ended:
        if rc is None:
            ck.note('native run timed out')
        else:
            ck.note('native run ended early rc=%s %s' % (rc, e[-300:]))
            res['crashed'] = (rc, e[-2000:])
    ck.programs += len(progs)
    if report:
        for m in res['viols']:
            p = by.get(m['prog'])
            ck.violation('%s:%s' % (m['prog'], m['kind']), fail_text(p, m))
    return res


def fail_text(p, m):
    return 'Program (type with its attributes):\n%s\n\nkind:     %s\ninput:    %r\nexpected: %s\nactual:   %s\n' % (
        p.source() if p else m['prog'], m['kind'], m['input'], m['expected'], m['actual'])


class Infra(Exception):
    pass


# ---------------------------------------------------------------------- layer K
def kani(ck, programs, kinds, nat, timeout=None, only=None, sub='kani'):
    """Runs the Kani contracts for the programs.  A failed one is replayed natively."""
    progs = [p for p in programs if (p.kani is True or (ck.thorough and p.kani != 'never')) and p.id not in nat['broken']]
    if only:
        progs = [p for p in progs if p.id in only]
    if not progs:
        return
    dumps = {}
    use = []
    for p in progs:
        k = set(kinds)
        if 'from_str' in k and 'F' in p.derive:
            vps = p.parse_spec()
            pats = [vp for vp in vps if vp.lit is None]
            if len(pats) > 1:
                rx = {m['idx']: m['src'] for m in nat['regex'].get(p.id, []) if m['t'] == 'regex' and m['status'] == 'equal'}
                pos = {id(vp): n for n, vp in enumerate(vps)}
                if any(pos[id(vp)] not in rx for vp in pats):
                    ck.obligation('from_str(%s)' % p.id, 'kani', 'undecided', detail='the pattern texts could not be identified')
                    ck.bounded.append('FromStr of %s: native comparison only' % p.id)
                    continue
                dumps[p.id] = [rx[pos[id(vp)]] for vp in pats]
        use.append(p)
    d = os.path.join(ck.dir, sub)
    os.makedirs(d, exist_ok=True)
    names = emit.kani_crate(d, use, set(kinds), dumps)
    target = os.path.join(d, 'target')
    jpath = os.path.join(d, 'result.json')
    if os.path.exists(jpath):
        os.remove(jpath)
    budget = timeout or min(ck.left() - 60, 500 if not ck.thorough else 7200)
    per = 120 if not ck.thorough else 900
    cmd = ['cargo', 'kani', '-j', '8', '--output-format', 'terse', '-Z', 'unstable-options', '--export-json', jpath,
           '--harness-timeout', '%ds' % per, '--target-dir', target]
    if ck.left() < 60:
        ck.note('no time left for Kani')
        return
    ck.cmds.append('cargo kani (%d harnesses)' % len(names))
    e = env()
    e.pop('RUSTUP_TOOLCHAIN', None)
    rc, o, err = sh(cmd, budget, cwd=d, env_=e)
    open(os.path.join(d, 'log.txt'), 'w').write(o + '\n----\n' + err)
    results = {}
    if os.path.exists(jpath):
        try:
            results = parse_kani_json(json.load(open(jpath)))
        except ValueError:
            pass
    if not results:
        what = 'timed out' if rc is None else 'could not build or run the contracts (the mock may not fit a changed helper interface)'
        ck.note('Kani %s: %s' % (what, (err or o)[-600:]))
        for nme in names:
            ck.obligation(nme, 'kani', 'undecided', detail=what)
        ck.bounded.append('all of %s: native comparison only (Kani %s)' % (ck.prop, what))
        return
    by = {p.id: p for p in use}
    failed = []
    for nme in names:
        r = results.get(nme)
        pid = re.sub(r'^k_(display|from_str)_', '', nme)
        if r is None:
            ck.obligation(nme, 'kani', 'undecided', detail='no result')
            ck.bounded.append('%s: native comparison only' % nme)
        elif r['status'] == 'ok':
            ck.obligation(nme, 'kani', 'discharged', r['time'], '%d checks' % r['checks'])
            if r['uncovered']:
                ck.note('%s: reachability cover not satisfied' % nme)
        elif r['status'] == 'undecided':
            ck.obligation(nme, 'kani', 'undecided', r['time'], r['why'])
            ck.bounded.append('%s: native comparison only (%s)' % (nme, r['why']))
        else:
            ck.obligation(nme, 'kani', 'failed', r['time'], r['why'])
            failed.append((nme, by[pid], r))
    ck.extra['kani_checks'] = ck.extra.get('kani_checks', 0) + sum(r['checks'] for r in results.values())
    if not failed:
        return
    # replay: the native run has tried these programs already; search deeper where it found nothing
    seen = {v['key'].split(':')[0] for v in ck.viols}
    todo = [(nme, p, r) for nme, p, r in failed if p.id not in seen]
    if todo:
        deep = native(ck, list({p.id: p for _, p, _ in todo}.values()), set(kinds), n=1500, sub='native-replay')
        seen = {v['key'].split(':')[0] for v in ck.viols}
    for nme, p, r in todo:
        if p.id not in seen:
            ck.violation('%s:%s' % (p.id, nme), 'The verifier rejects the contract obligation %s; no concrete failing input was found by the native search.\n\nfailed checks:\n%s\n\nprogram:\n%s\n' % (nme, r['why'], p.source()), found=False)


def parse_kani_json(j):
    res = {}
    for h in j['verification_results']['results'] if 'verification_results' in j else j.get('results', []):
        name = h.get('harness_id') or h.get('harness') or h.get('name')
        name = name.split('::')[-1]
        checks = h.get('checks', [])
        bad = [c for c in checks if c.get('status', '').upper() in ('FAILURE', 'FAILED')]
        und = [c for c in checks if c.get('status', '').upper() in ('UNDETERMINED', 'UNKNOWN')]
        unc = [c for c in checks if c.get('status', '').upper() in ('UNSATISFIABLE', 'UNREACHABLE') and 'cover' in (c.get('description') or '')]
        ok = h.get('status', '').lower() in ('success', 'successful')
        t = (h.get('duration_ms') or 0) / 1000.0
        desc = '; '.join(sorted({(c.get('description') or '?') + ' (' + str(c.get('function', '')) + ')' for c in bad}))[:1500]
        soft = [c for c in bad if re.search(r'unwinding assertion|unsupported|not currently supported|recursion unwinding', c.get('description') or '')]
        if ok:
            st = dict(status='ok', why='')
        elif bad and len(soft) < len(bad):
            # failures beyond the bound only: everything else is reported relative to it, a failed assertion is a real path
            st = dict(status='failed', why=desc)
        else:
            st = dict(status='undecided', why=desc or 'no verdict (timeout or resource limit)')
        st.update(time=t, checks=len(checks), uncovered=bool(unc))
        res[name] = st
    return res


def regex_obligations(ck, programs, kinds, nat):
    """One obligation per pattern: the regex the real code builds equals the specified one (normal form), or has the same language."""
    if 'regex' not in kinds:
        return
    seen = {v['key'].split(':')[0] for v in ck.viols}
    for p in programs:
        if 'F' not in p.derive or p.id in nat['broken']:
            continue
        ms = {m['idx']: m for m in nat['regex'].get(p.id, [])}
        for n, vp in enumerate(p.parse_spec()):
            if vp.lit is not None:
                continue
            m = ms.get(n)
            name = 'regex(%s/%s)' % (p.id, vp.v.name)
            st = m['status'] if m else None
            if st == 'equal':
                ck.obligation(name, 'regex normal form', 'discharged')
            elif st == 'same_language':
                ck.obligation(name, 'automata equivalence', 'discharged', detail='same language; captures compared on samples only')
                ck.bounded.append(name + ': the pattern is written differently; language decided, captures compared on samples')
            elif st == 'language_differs':
                ck.obligation(name, 'automata equivalence', 'failed', detail=m['diff'])
                if p.id not in seen:
                    ck.violation(p.id + ':regex', 'The pattern built for %s does not have the specified language: %s\nexpected %s\nbuilt    %s\n(the values parsed natively agree with the specification)\n\n%s' % (
                        name, m['diff'], m['expected'], m['built'], p.source()), found=False)
            else:
                ck.obligation(name, 'regex normal form', 'undecided', detail='the pattern built could not be identified')
                ck.bounded.append(name + ': samples only')
