"""Programs that must be rejected at compile time: one module each; every one must yield an error attributed to it."""
import os, re
import run, emit

PRE = '#![allow(warnings)]\nuse super::common::*;\n'


def check_reject(ck, items, sub='reject'):
    """items: list of (id, source, why)."""
    d = os.path.join(ck.dir, sub)
    target = os.path.join(run.WORK, 'target-native')
    left = list(items)
    errors = {}
    rounds = 0
    while left and rounds < 6:
        rounds += 1
        emit.native_crate(d, [], set())
        for f in os.listdir(os.path.join(d, 'src')):
            if f.startswith('p_'):
                os.remove(os.path.join(d, 'src', f))
        main = open(os.path.join(d, 'src/main.rs')).read()
        mods = []
        for i, src, why in left:
            emit.write(os.path.join(d, 'src/p_%s.rs' % i), PRE + src + '\n')
            mods.append('mod p_%s;' % i)
        emit.write(os.path.join(d, 'src/main.rs'), main.replace('mod rt;', 'mod rt;\n' + '\n'.join(mods), 1))
        rc, msgs, err = run.cargo_json(d, ['check'], ck.left(), target)
        if rc is None:
            ck.note('reject build timed out')
            return errors
        per, rest = run.blame(msgs)
        if rc == 0:
            break
        if not per:
            raise run.Infra('reject crate fails outside the programs:\n' + err[-2000:] + str(rest)[:2000])
        errors.update(per)
        left = [x for x in left if x[0] not in per]
    bad = {x[0] for x in left}
    for i, src, why in items:
        if i in bad:
            ck.obligation('reject(%s)' % i, 'rustc', 'failed', detail=why)
            ck.violation('%s:accepted' % i, 'A program that must be rejected at compile time compiles.\nwhy it is not allowed: %s\n\n%s' % (why, src))
        else:
            ck.obligation('reject(%s)' % i, 'rustc', 'discharged')
    ck.evals += len(items)
    ck.nontrivial += len(items)
    ck.extra['rejected_programs'] = len(items) - len(bad)
    return errors
