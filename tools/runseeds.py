#!/usr/bin/env python3
"""runseeds.py [-j N] [--all] [ID ...]: runs the check of each planted change against it
(in a scratch copy of /repo), and with --all every other check too."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid, props):
    sc = tempfile.mkdtemp(prefix='runseed-')
    try:
        repo = os.path.join(sc, 'repo')
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        subprocess.run(['git', 'apply', os.path.join(V, 'seeded', sid, 'patch.diff')], cwd=repo, check=True)
        res = []
        for p in props:
            r = subprocess.run(['python3', os.path.join(V, 'harness', 'check.py'), p, '--evidence', os.path.join(sc, 'ev')], capture_output=True, text=True,
                               env=dict(os.environ, DOA_REPO=repo, DOA_JOBS='2', DOA_WORKERS='2'))
            m = re.search(r'history (\S+) step \d+: (.*?)   command', r.stdout)
            n = r.stdout.count('VIOLATION')
            res.append('%s rc=%d n=%d %s' % (p, r.returncode, n, (m.group(2)[:90] if m else r.stdout[-300:] if r.returncode else '')))
        return sid, res
    finally:
        shutil.rmtree(sc, ignore_errors=True)


def main():
    a = sys.argv[1:]
    j = 4
    if '-j' in a:
        j = int(a[a.index('-j') + 1])
        del a[a.index('-j'):a.index('-j') + 2]
    allp = '--all' in a
    a = [x for x in a if x != '--all']
    sys.path.insert(0, os.path.join(V, 'harness'))
    ids = a or sorted(os.listdir(os.path.join(V, 'seeded')))
    jobs = []
    for s in ids:
        p = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))['property']
        jobs.append((s, [p] + (['P%02d' % i for i in range(1, 23) if 'P%02d' % i != p] if allp else [])))
    out = {}
    with ThreadPoolExecutor(j) as ex:
        for sid, res in ex.map(lambda t: one(*t), jobs):
            caught = 'caught' if ' rc=1 ' in res[0] else 'MISSED'
            print(sid, caught, '; '.join(res), flush=True)
            out[sid] = '%s %s %s' % (sid, caught, '; '.join(res))
    f = os.path.join(V, 'tools', 'seed_results.txt')
    old = {x.split()[0]: x.strip() for x in open(f)} if os.path.exists(f) else {}
    old.update({k: v.replace('\n', ' ') for k, v in out.items()})
    open(f, 'w').write(''.join(old[k] + '\n' for k in sorted(old) if os.path.isdir(os.path.join(V, 'seeded', k))))


if __name__ == '__main__':
    main()
