"""Many tiny programs, one per line of a file; errors are attributed by line."""
import os, json, re
import run, emit

HEAD = '''#![allow(warnings)]
use super::common::*;
use std::str::FromStr;
pub fn ok(rep: &mut Rep, id: &str, input: &str, expected: String, actual: Result<String, String>) {
    rep.evals += 1;
    let a = match actual { Ok(a) => a, Err(e) => format!("{e}") };
    if a != expected { rep.viol(id, "lines", input, &expected, &a); } else { rep.nontrivial += 1; }
}
pub fn cat(f: impl FnOnce() -> String) -> Result<String, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| "panic".to_string())
}
'''


def run_lines(ck, items, sub, descr, head=''):
    """items: (id, items-source on one line, body of fn run(rep) on one line, shown source).  Violations are recorded."""
    d = os.path.join(ck.dir, sub)
    target = os.path.join(run.WORK, 'target-native')
    left = list(items)
    for attempt in range(4):
        # several files so that rustc can parallelise code generation
        text = HEAD + head
        base = text.count('\n')
        for k, it in enumerate(left):
            text += 'pub mod l%d { use super::*; %s pub fn run(rep: &mut Rep) { let id = %s; %s } }\n' % (k, it[1], json.dumps(it[0]), it[2])
        text += 'pub fn all(rep: &mut Rep) {' + ''.join('crate::rt::run_prog(rep, %s, l%d::run);\n' % (json.dumps(it[0]), k) for k, it in enumerate(left)) + '}\n'
        emit.native_crate(d, [], set(), 'lines::all(&mut rep);', {'lines.rs': text}, plain=True)
        m = open(os.path.join(d, 'src/main.rs')).read()
        emit.write(os.path.join(d, 'src/main.rs'), m.replace('mod rt;', 'mod rt;\nmod lines;', 1))
        rc, msgs, err = run.cargo_json(d, ['build'], ck.left(), target)
        if rc == 0:
            break
        if rc is None:
            ck.note(sub + ': build timed out')
            return
        bad = {}
        for x in msgs:
            x = x['message']
            if x['level'] != 'error':
                continue
            for f, line in run.span_files(x):
                if f.endswith('src/lines.rs') and base < line <= base + len(left):
                    bad.setdefault(line - base - 1, []).append(x.get('rendered') or x['message'])
        if not bad:
            raise run.Infra(sub + ': build failed\n' + err[-3000:])
        for k, t in bad.items():
            ck.violation(left[k][0] + ':does-not-compile', 'A program the documentation allows is rejected by the compiler.\n\n%s\n\n%s' % (left[k][3], '\n'.join(t)[:3000]))
        left = [x for k, x in enumerate(left) if k not in bad]
    else:
        raise run.Infra(sub + ': build keeps failing')
    rc, o, e = run.sh([os.path.join(target, 'debug', emit.crate_name(d))], min(ck.left(), 200), cwd=d, env_=run.env(VERIF_SEED=str(ck.seed)))
    shown = {x[0]: x[3] for x in left}
    n = 0
    extra = []
    for l in o.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('t') == 'viol':
            ck.violation(m['prog'] + ':' + m['kind'], '%s\n\ninput:    %r\nexpected: %s\nactual:   %s\n' % (shown.get(m['prog'], ''), m['input'], m['expected'], m['actual']))
        elif m.get('t') == 'end':
            ck.evals += m['evals']
            ck.nontrivial += m['nontrivial']
            n = m['evals']
        elif m.get('t') == 'oracle_error':
            ck.violation(m['prog'] + ':panic', '%s\n\nfails: %s' % (shown.get(m['prog'], ''), m['msg']))
        else:
            extra.append(m)
    ck.programs += len(left)
    ck.obligation('%s: %d programs, %d comparisons' % (descr, len(left), n), 'native comparison (bounded)', 'discharged' if n else 'undecided')
    return extra
