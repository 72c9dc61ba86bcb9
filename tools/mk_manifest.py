"""Writes MANIFEST.json from the table below and the checks present."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vp'))
import importlib
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {'C20': 'Concurrency: Kani has no thread support and Verus would need its own permission types for std::sync::OnceLock; the '
             'derived code contains no synchronisation of its own (it calls OnceLock::get_or_init), so the property is one of std, '
             'and no contract within reach can express or decide it.'}
checks, na = [], []
def technique(p, m):
    src = open(m.__file__).read()
    us = re.search(r"check\.verus\(ck, \[(.*?)\]", src)
    us = re.sub("'", '', us.group(1)) if us else ''
    v = 'Verus contracts on the extracted functions of the macro and runtime (units %s)' % us if us else ''
    own = getattr(m, 'TECHNIQUE', None) or 'Kani contracts on the macro-generated impls; regular-language equality of the generated patterns; native replay of failed obligations'
    return '; '.join(x for x in (v, own) if x)
for p in props:
    f = os.path.join(V, 'vp/checks/%s.py' % p.lower())
    if p in NA or not os.path.exists(f):
        na.append(dict(property=p, reason=NA.get(p, 'no check yet')))
        continue
    m = importlib.import_module('checks.' + p.lower())
    checks.append(dict(
        property=p, quick_cmd='python3 vp/check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3 vp/check.py %s' % p,
        evidence_file='evidence/%s.json' % p,
        technique=technique(p, m),
        level=getattr(m, 'LEVEL', 'translation_validation'),
        level_note=getattr(m, 'NOTE', m.RULE)))
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the checks work on its unmodified sources.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
