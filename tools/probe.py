"""probe.py FILE: each line `name: source` compiled as a module; prints the errors per module (development aid)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../vp'))
import run, reject
ck = run.Check('PROBE')
items = []
for l in open(sys.argv[1]):
    if ': ' in l:
        n, s = l.rstrip('\n').split(': ', 1)
        items.append((n, s.replace('\\n', '\n'), ''))
e = reject.check_reject(ck, items, sub='probe')
for n, s, _ in items:
    print('==', n, s)
    for x in e.get(n, ['ACCEPTED']):
        print('   ', x.strip().replace('\n', '\n    ')[:600])
