"""python3 check.py <property>"""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run


def number(mod, progs):
    for i, p in enumerate(progs):
        p.id = '%s_%03d' % (mod.lower(), i)
        p.split = (0, 0, 1, 0, 2)[i % 5]
    return progs


def standard(ck, mod, progs, kinds, kani_kinds=None, level_kw=None):
    nat = run.native(ck, progs, kinds)
    run.regex_obligations(ck, progs, kinds, nat)
    run.kani(ck, progs, kani_kinds if kani_kinds is not None else kinds & {'display', 'from_str'}, nat)
    return nat


def verus(ck, units):
    """Runs the Verus units; failed obligations are kept until the native comparison has searched for a failing input."""
    import vx
    from concurrent.futures import ThreadPoolExecutor
    us = [importlib.import_module('vu.' + u).UNIT for u in units]
    with ThreadPoolExecutor(4) as ex:
        for f in ex.map(lambda u: vx.check_unit(ck, u, run), us):
            ck.verus_failed += f


def resolve(ck):
    found = [v for v in ck.viols if v['found']]
    for unit, label, text in ck.verus_failed:
        if found:
            ck.note('failed obligation %s/%s; failing inputs are reported' % (unit, label))
            found[0]['text'] += '\n\nfailed obligation %s/%s\n%s' % (unit, label, text[:4000])
        else:
            ck.violation('%s/%s' % (unit, label), text if unit == 'specre' else 'Verus rejects the obligation %s of unit %s (work/%s/verus/%s.rs, extracted from the current sources); the native comparison found no failing input.\n\n%s' % (
                label, unit, ck.prop, unit, text), found=False)


def main():
    prop = sys.argv[1]
    mod = importlib.import_module('checks.' + prop.lower())
    ck = run.Check(prop)
    if hasattr(mod, 'run'):
        mod.run(ck)
    else:
        standard(ck, mod, number(prop, mod.programs()), set(mod.KINDS))
    resolve(ck)
    return ck.finish(getattr(mod, 'LEVEL', 'translation_validation'), mod.RULE)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except run.Infra as e:
        print('ERROR', e)
        sys.exit(2)
