"""python3 tools/mkseed.py SPECS.py [id...]: writes /verif/seeded/<id>/ from the list SEEDS = [(id, property, file, old, new, main.rs, needs, what)].
Each is kept only when the patched tree builds and passes the stable tests and the demo tells the two trees apart.  The check is run on top (reported only)."""
import sys, os, subprocess, json, shutil, runpy, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
DEMO = '''#!/bin/bash
# builds main.rs against the crates of the current directory; 0: the property holds
d="$(cd "$(dirname "$0")" && pwd)"; r="$PWD"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$d/main.rs" "$t/src/main.rs"; cp "$r/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
parse-display = { path = "$r/parse-display" }
parse-display-with = { path = "$r/parse-display-with" }
X
cd "$t" && export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUSTFLAGS="-Awarnings"
'''
RUN = 'cargo run --offline -q\n'
# the program must not compile
REJ = 'if cargo check --offline -q 2> "$t/log"; then echo "accepted"; exit 1; fi\ngrep -q "%s" "$t/log" || { cat "$t/log"; exit 1; }\n'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    only = sys.argv[2:]
    for s in seeds:
        sid, prop, f, old, new, prog, needs, what = s[:8]
        expect = s[8] if len(s) > 8 else None
        if only and sid not in only:
            continue
        assert not sh('git -C %s status --short' % REPO).stdout.strip(), 'dirty'
        p = os.path.join(REPO, f)
        t = open(p).read()
        if t.count(old) < 1:
            print(sid, 'NOMATCH')
            continue
        d = os.path.join(V, 'seeded', sid)
        os.makedirs(d, exist_ok=True)
        open(d + '/main.rs', 'w').write(prog)
        open(d + '/demo.sh', 'w').write(DEMO + (REJ % expect if expect else RUN))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, cwd=REPO)
        ok = a.returncode == 0
        try:
            open(p, 'w').write(t.replace(old, new, 1))
            open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % REPO).stdout)
            b = sh('bash %s/demo.sh' % d, cwd=REPO)
            ok &= b.returncode != 0
            base = sh(os.environ.get('BASELINE', 'bash %s/tools/baseline.sh' % V))
            ok &= base.returncode == 0
            # lines of the original repository
            msg = '' if ok else 'demo %d/%d baseline %s\n%s\n%s' % (a.returncode, b.returncode, base.stdout.strip()[-300:], a.stderr[-1500:] + a.stdout[-300:], b.stderr[-300:])
            c = None
            if ok and os.environ.get('NOCHECK') is None:
                t0 = time.time()
                c = sh('VERIF_SEED=1 VERIF_TIER=quick python3 vp/check.py ' + prop, cwd=os.environ.get('VCLONE', V))
                v = [l for l in c.stdout.split('\n') if 'VIOLATION' in l]
                msg = 'rc=%d %s %ds' % (c.returncode, (v or [''])[0], time.time() - t0)
            print(sid, prop, 'KEPT' if ok else 'DROPPED', msg, flush=True)
        finally:
            open(p, 'w').write(t)
        if not ok:
            shutil.rmtree(d)


main()
