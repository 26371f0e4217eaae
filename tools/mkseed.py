#!/usr/bin/env python3
"""mkseed.py FILE.py [ID ...]: turns the entries of SEEDS in FILE.py into /verif/seeded/<id>/.

An entry is (id, property, needs, breaks, [(file, old, new), ...], demo python source).
It is kept only if, in a scratch copy of /repo, the changed lines belong to the
original repository, the build and the stable tests pass with the change, and the
demonstration passes without and fails with the change."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
cd "$PWD" && PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONPATH="$PWD" HOME="$tmp" timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
rc=$?
rm -rf "$tmp"
exit $rc
'''


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=dict(os.environ, **(env or {})))


def tests(cwd):
    base = set(json.load(open('/opt/vp/BASELINE.json'))['tests']) if 'tests' in json.load(open('/opt/vp/BASELINE.json')) else None
    p = sh('PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONPATH=%s /opt/venv/bin/python -W ignore -m pytest -q -x -p no:cacheprovider doatools/tests 2>&1 | tail -4' % cwd, cwd)
    last = p.stdout.strip().splitlines()[-1]
    return '55 passed' in last and 'failed' not in last, p.stdout


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    for sid, prop, needs, breaks, edits, demo in seeds:
        if len(sys.argv) > 2 and sid not in sys.argv[2:]:
            continue
        dst = os.path.join(V, 'seeded', sid)
        if os.path.exists(os.path.join(dst, 'patch.diff')) and len(sys.argv) <= 2:
            continue
        sc = tempfile.mkdtemp(prefix='seed-')
        try:
            repo = os.path.join(sc, 'repo')
            sh('cp -a /repo %s' % repo, '/')
            d = os.path.join(sc, 'demo')
            os.makedirs(d)
            open(os.path.join(d, 'demo.sh'), 'w').write(HEAD)
            open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
            p0 = sh('sh %s/demo.sh' % d, repo)
            err = ''
            for f, old, new in edits:
                path = os.path.join(repo, 'doatools', f)
                s = open(path).read()
                if s.count(old) != 1:
                    err = 'edit matches %d times: %s' % (s.count(old), old)
                    break
                i = s.index(old)
                # blame
                start = s[:i].count('\n') + 1
                bl = sh('git blame -s -L %d,%d doatools/%s' % (start, start + old.count('\n'), f), repo).stdout
                orig = [x for x in bl.splitlines() if x.startswith('^719a452') or x.startswith('719a452')]
                if not orig:
                    err = 'no original line touched:\n' + bl
                    break
                open(path, 'w').write(s.replace(old, new))
            if err:
                print(sid, 'REJECTED', err)
                continue
            diff = sh('git diff', repo).stdout
            p1 = sh('sh %s/demo.sh' % d, repo)
            ok, out = tests(repo)
            if p0.returncode != 0 or p1.returncode == 0 or not ok:
                print(sid, 'REJECTED demo0=%d demo1=%d tests=%s' % (p0.returncode, p1.returncode, ok))
                print((p0.stdout + p0.stderr)[-600:] if p0.returncode else '', out[-400:] if not ok else '')
                continue
            os.makedirs(dst, exist_ok=True)
            open(os.path.join(dst, 'patch.diff'), 'w').write(diff)
            for n in ('demo.sh', 'demo.py'):
                shutil.copy(os.path.join(d, n), dst)
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
            print(sid, 'kept', (p1.stderr.strip().splitlines() or [''])[-1][:150])
        finally:
            shutil.rmtree(sc, ignore_errors=True)


if __name__ == '__main__':
    main()
