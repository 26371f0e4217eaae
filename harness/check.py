#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--seed N] [--keep]

1. TLC checks the design models of the property exhaustively (invariants of the
   specification) and exports every history / case it visited.
2. The exported histories, and seeded random ones, run on the real library.
3. TLC validates every recorded history against the specification.
Exit 0: held on everything explored; 1: VIOLATION line; 2: machinery failure.
"""
import argparse, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
PY = '/opt/venv/bin/python'
ENV = dict(HOME='/root', DOA_JOBS=os.environ.get('DOA_JOBS', '8'), PATH=os.environ.get('PATH', '/usr/bin:/bin'), MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
           LANG='C.UTF-8', PYTHONPATH=os.environ.get('DOA_REPO', '/repo'))
sys.path.insert(0, os.path.join(V, 'harness'))


class Machinery(Exception):
    pass


def build():
    os.makedirs(os.path.join(V, 'build'), exist_ok=True)
    with open(os.path.join(V, 'build', 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = sorted(os.path.join(V, 'java', 'doanum', f) for f in os.listdir(os.path.join(V, 'java', 'doanum')) if f.endswith('.java'))
        h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()
        stamp = os.path.join(V, 'build', 'stamp')
        cls = os.path.join(V, 'build', 'classes')
        if os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(os.path.join(cls, 'doanum', 'Ops.class')):
            return
        os.makedirs(cls, exist_ok=True)
        p = subprocess.run(['javac', '-nowarn', '-cp', JAR, '-d', cls] + src, capture_output=True, text=True)
        if p.returncode:
            raise Machinery('javac: ' + p.stderr[-2000:])
        open(stamp, 'w').write(h)


def tlc(module, cfg, out, work, env=None, workers='8', timeout=800, extra=(), props=()):
    """runs TLC; returns (stdout, reported lines)"""
    open(out, 'w').close()
    meta = tempfile.mkdtemp(prefix='tlc', dir=work)
    cmd = ['java', '-Xmx12g', '-Xss64m', '-XX:+UseParallelGC', '-Dtlc2.tool.queue.DiskStateQueue.BufSize=1048576', '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:doanum.Overrides', '-Ddoa.out=' + out,
           '-DTLA-Library=' + os.path.join(V, 'specs')] + list(props) + [
           '-cp', os.path.join(V, 'build', 'classes') + ':' + JAR + ':' + CM, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta,
           '-workers', workers if workers == '1' else os.environ.get('DOA_WORKERS', workers), '-deadlock', '-config', cfg, '-fpmem', '0.1'] + list(extra) + [os.path.join(V, 'specs', module + '.tla')]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=dict(ENV, **(env or {})), timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired:
        raise Machinery('TLC timed out on ' + module)
    text = '\n'.join(x for x in (p.stdout + p.stderr).splitlines() if not x.startswith(('Parsing', 'Semantic', 'Linting')))
    return p.returncode, text, open(out).read().splitlines()


def stats(text):
    m = re.findall(r'(\d+) states generated.*?(\d+) distinct states found', text.replace(',', ''))
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def run_model(m, tier, work):
    cfgs = m['thorough'] if tier == 'thorough' and 'thorough' in m else m['quick']
    tot = dict(model=m['module'], states=0, transitions=0, exported=0)
    hists = []
    for consts in cfgs:
        cfg = os.path.join(work, m['module'] + '.cfg')
        with open(cfg, 'w') as f:
            f.write('SPECIFICATION Spec\n')
            if consts:
                f.write('CONSTANTS\n' + ''.join('  %s = %s\n' % kv for kv in consts.items()))
            for i in m.get('invariants', ()):
                f.write('INVARIANT %s\n' % i)
            for i in m.get('properties', ()):
                f.write('PROPERTY %s\n' % i)
            if 'view' in m:
                f.write('VIEW %s\n' % m['view'])
            if 'constraint' in m:
                f.write('CONSTRAINT %s\n' % m['constraint'])
        rc, text, lines = tlc(m['module'], cfg, os.path.join(work, 'mc.out'), work, workers=m.get('workers', '1'))
        if rc != 0 or 'Model checking completed. No error' not in text:
            said = '\n'.join(x for x in text.splitlines() if x.startswith(('Error', '"LAW')))
            raise Machinery('design model %s: TLC rc=%d\n%s\n%s' % (m['module'], rc, said, text[-3000:]))
        g, d = stats(text)
        tot['states'] += d
        tot['transitions'] += g
        for x in lines:
            if x.startswith('@@HIST '):
                hists.append(json.loads(x[7:]))
    if m.get('cap') and len(hists) > m['cap'][tier]:
        import random
        hists = random.Random(7).sample(sorted(hists, key=json.dumps), m['cap'][tier])
    tot['exported'] = len(hists)
    return tot, [{'id': '%s-%d' % (m['module'], i), 'cmds': c} for i, c in enumerate(sorted(hists, key=json.dumps))]


def record(hists, work, tag):
    src, dst = os.path.join(work, tag + '.in'), os.path.join(work, tag + '.out')
    with open(src, 'w') as f:
        for h in hists:
            f.write(json.dumps(h) + '\n')
    p = subprocess.run([PY, os.path.join(V, 'harness', 'record.py'), src, dst], env=ENV, cwd=work, capture_output=True, text=True, timeout=800)
    if p.returncode:
        # an import failure of the library is the library's fault: every history fails
        raise LibraryBroken(p.stderr[-2000:]) if 'doatools' in p.stderr and p.returncode != 3 else Machinery('record: ' + p.stderr[-2000:])
    return dst


class LibraryBroken(Exception):
    pass


def validate(trace, n, work):
    cfg = os.path.join(work, 'Trace.cfg')
    open(cfg, 'w').write('SPECIFICATION Spec\nVIEW View\n')
    rc, text, lines = tlc('Trace', cfg, os.path.join(work, 'trace.verdicts'), work, env={'DOA_TRACE': trace})
    fails, done = {}, {}
    for x in lines:
        p = x.split(' ', 3)
        if p[0] == '@@FAIL':
            fails[int(p[1])] = (int(p[2]), p[3])
        elif p[0] == '@@DONE':
            done[int(p[1])] = int(p[2])
    if rc != 0 or 'Model checking completed. No error' not in text or len(fails) + len(done) != n:
        raise Machinery('trace validation: rc=%d, %d+%d of %d histories judged\n%s' % (rc, len(done), len(fails), n, text[-3000:]))
    return fails, done, stats(text)


def known_findings(prop):
    out = []
    p = os.path.join(V, 'known_findings.txt')
    for x in open(p) if os.path.exists(p) else ():
        m = re.match(r'finding: property=(\S+) key=(\S+) clause=(\S+) (.*)', x.strip())
        if m and m.group(1) == prop:
            out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--build', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--no-models', action='store_true')
    ap.add_argument('--evidence', default=os.path.join(V, 'evidence'))
    a = ap.parse_args()
    if a.build:
        build()
        return
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='doa-%s-' % a.prop)
    try:
        rc = check(a, work, t0)
    except Machinery as e:
        print('MACHINERY FAILURE property=%s: %s' % (a.prop, e))
        rc = 2
    finally:
        if a.keep:
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(a, work, t0):
    import props
    build()
    P = props.PROPS[a.prop]
    models, hists = [], []
    if a.replay:
        hists = [json.load(open(a.replay))]
        hists = [{k: hists[0][k] for k in ('id', 'cmds')}]
    else:
        for m in P.get('models', ()) if not a.no_models else ():
            tot, hs = run_model(m, a.tier, work)
            models.append(tot)
            hists += hs
        n_model = len(hists)
        for g in P.get('gens', ()):
            hists += g(a.seed, a.tier, a.scale)
    t1 = time.time()
    try:
        trace = record(hists, work, 'h')
    except LibraryBroken as e:
        os.makedirs(a.evidence, exist_ok=True)
        path = os.path.join(a.evidence, 'replay-%s.txt' % a.prop)
        open(path, 'w').write(str(e))
        print('the library cannot be imported: %s' % str(e).strip().splitlines()[-1])
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    t2 = time.time()
    fails, done, (gen, dist) = validate(trace, len(hists), work)
    t3 = time.time()
    recs = None
    viol = []
    known = known_findings(a.prop)
    if fails:
        recs = [json.loads(x) for x in open(trace)]
    for hno in sorted(fails):
        step, clause = fails[hno]
        rec = recs[hno - 1]
        key = rec.get('key', rec['id'])
        hit = [k for k in known if k[1] == key and clause.startswith(k[2])]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (a.prop, hit[0][3]))
        else:
            viol.append((rec, step, clause))
    steps = sum(done.values()) + sum(s for s, _ in fails.values())
    opc = {}
    samples = []
    for i, h in enumerate(hists):
        for c in h['cmds']:
            opc[c['op']] = opc.get(c['op'], 0) + 1
    for i in sorted(set([0, len(hists) // 3, 2 * len(hists) // 3, len(hists) - 1])):
        if 0 <= i < len(hists):
            samples.append(json.dumps(hists[i])[:600])
    ev = dict(property=a.prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=a.seed, level='model_checking',
              coverage=dict(states=sum(m['states'] for m in models) + dist, transitions=sum(m['transitions'] for m in models) + gen,
                            traces_validated_against_impl=len(done), samples=samples,
                            design_models=models, histories=len(hists), histories_from_models=0 if a.replay else n_model,
                            steps_validated=steps, commands=opc, rejected=len(viol),
                            seconds=dict(models=round(t1 - t0, 1), implementation=round(t2 - t1, 1), validation=round(t3 - t2, 1))),
              wall_s=round(time.time() - t0, 1))
    if not a.replay:
        os.makedirs(a.evidence, exist_ok=True)
        with open(os.path.join(a.evidence, a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s: %d histories (%d from design models), %d steps validated, %d+%d states, %.1fs (models %.1f, implementation %.1f, validation %.1f)' % (
        a.prop, len(hists), 0 if a.replay else n_model, steps, sum(m['states'] for m in models), dist, time.time() - t0, t1 - t0, t2 - t1, t3 - t2))
    for i, (rec, step, clause) in enumerate(viol[:20]):
        path = os.path.join(a.evidence, 'replay-%s-%d.json' % (a.prop, i))
        if not a.replay:
            json.dump(dict(rec, failed_step=step, clause=clause), open(path, 'w'))
        else:
            path = a.replay
        print('history %s step %d: %s   command %s' % (rec['id'], step, clause, json.dumps(rec['cmds'][step - 1])[:300]))
        print('    observed %s' % json.dumps(rec['evs'][step - 1])[:400])
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
    return 1 if viol else 0


if __name__ == '__main__':
    main()
