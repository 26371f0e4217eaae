"""Mutation sweep: small edits of the library that its own tests do not notice,
run through the checks.  Works on copies; a tool for strengthening the checks,
not a check.   mutate.py OUT.jsonl [--n N] [--seed S] [--files a.py,b.py] [--jobs J]"""
import argparse, ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    'model/arrays.py': 'P01 P02 P04', 'model/array_elements.py': 'P04 P05 P01', 'model/perturbations.py': 'P02 P04 P01',
    'model/coarray.py': 'P03', 'model/sources.py': 'P06 P04 P05', 'model/signals.py': 'P16', 'model/snapshots.py': 'P16',
    'estimation/core.py': 'P08 P09 P12 P10', 'estimation/beamforming.py': 'P10 P09 P12 P08', 'estimation/music.py': 'P11 P10 P09 P08',
    'estimation/min_norm.py': 'P10 P09 P08', 'estimation/esprit.py': 'P11 P09', 'estimation/grid.py': 'P07 P12 P08', 'estimation/ml.py': 'P19',
    'estimation/preprocessing.py': 'P14', 'estimation/source_number.py': 'P15', 'estimation/coarray.py': 'P13', 'estimation/sparse.py': 'P20',
    'optim/l1lsq.py': 'P20', 'performance/crb.py': 'P17', 'performance/mse.py': 'P18', 'performance/utils.py': 'P17 P18',
    'plotting/plot_array.py': 'P22', 'plotting/plot_spectrum.py': 'P22', 'utils/math.py': 'P21', 'utils/conversion.py': 'P21',
}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/', '+'], ast.Div: ['*'], ast.FloorDiv: ['/'], ast.Pow: ['*'], ast.Mod: ['//'], ast.MatMult: ['*']}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()
    pos = lambda l, c: off[l - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    text = lambda n: raw[slice(*span(n))].decode()
    out = []

    def add(kind, a, b, new):
        out.append(dict(kind=kind, a=a, b=b, new=new, old=raw[a:b].decode(), line=raw[:a].count(b'\n') + 1))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0].value)
            doc.add(n.body[0])
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                doc.add(m)
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            for o in CMP.get(type(n.ops[0]), []):
                add('cmp', a, b, ' %s ' % o)
        elif isinstance(n, ast.BinOp):
            a, b = span(n.left)[1], span(n.right)[0]
            gap = raw[a:b].decode()
            sym = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Pow: '**', ast.Mod: '%', ast.MatMult: '@'}.get(type(n.op))
            if sym and gap.count(sym) == 1 and not isinstance(n.left, ast.Constant) or sym and gap.strip() == sym:
                for o in BIN.get(type(n.op), []):
                    add('bin', a, b, gap.replace(sym, o, 1))
                if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                    add('drop', *span(n), text(n.left))
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            gap = raw[a:b].decode()
            add('bool', a, b, gap.replace('and', 'or') if isinstance(n.op, ast.And) else gap.replace('or', 'and'))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add('unary', *span(n), text(n.operand))
        elif isinstance(n, ast.Constant) and n not in doc:
            if isinstance(n.value, bool):
                add('const', *span(n), str(not n.value))
            elif isinstance(n.value, (int, float)):
                for v in ([n.value + 1, n.value - 1] if isinstance(n.value, int) else [n.value * 2, n.value / 2]):
                    add('const', *span(n), repr(v) if v >= 0 else '(%r)' % v)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('conj', 'copy', 'sort', 'flatten', 'real', 'transpose') and not n.args:
            add('call', *span(n), text(n.func.value))
        elif isinstance(n, ast.Attribute) and n.attr in ('T', 'real', 'imag'):
            add('attr', *span(n), text(n.value))
        elif isinstance(n, (ast.If, ast.IfExp)):
            t = span(n.test)
            add('if', *t, 'not (%s)' % raw[slice(*t)].decode())
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple):
            pass
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and n.lineno == n.end_lineno or isinstance(n, ast.Raise):
            add('del', *span(n), 'pass')
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords and len(n.args) == 2:
            a, b = n.args
            add('swap', span(a)[0], span(b)[1], raw[span(b)[0]:span(b)[1]].decode() + ', ' + raw[span(a)[0]:span(a)[1]].decode())
        if isinstance(n, ast.AugAssign):
            pass
    uniq = {}
    for m in out:
        if m['old'] != m['new']:
            uniq[m['a'], m['b'], m['new']] = m
    return raw, list(uniq.values())


def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def work(job):
    i, f, m, base, props = job
    d = tempfile.mkdtemp(prefix='mut%d-' % i, dir=base)
    try:
        shutil.copytree('/repo/doatools', d + '/doatools', ignore=shutil.ignore_patterns('__pycache__'))
        p = os.path.join(d, 'doatools', f)
        raw = open(p, 'rb').read()
        open(p, 'wb').write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])
        env = dict(os.environ, PYTHONPATH=d, MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', DOA_REPO=d, DOA_JOBS='3', DOA_WORKERS='3', PYTHONDONTWRITEBYTECODE='1')
        try:
            t = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', d + '/doatools/tests'], env=env, cwd=d, timeout=60)
        except subprocess.TimeoutExpired:
            return dict(m, file=f, status='tests', by='timeout')
        if t.returncode:
            return dict(m, file=f, status='tests')
        if props == ['-']:
            return dict(m, file=f, status='survives-tests')
        for q in props or MAP[f].split():
            try:
                c = run([sys.executable, V + '/harness/check.py', q, '--tier', 'quick', '--evidence', d + '/ev'] + ([] if os.environ.get('MUT_MODELS') else ['--no-models']), env=env, timeout=1500)
            except subprocess.TimeoutExpired:
                return dict(m, file=f, status='check-timeout', by=q)
            if c.returncode == 1 and 'VIOLATION property=%s ' % q in c.stdout:
                return dict(m, file=f, status='killed', by=q, clause=[x for x in c.stdout.splitlines() if x.startswith('history')][:1])
            if c.returncode:
                return dict(m, file=f, status='machinery', by=q, text=(c.stdout + c.stderr)[-600:])
        return dict(m, file=f, status='SURVIVED')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--n', type=int, default=40)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--files')
    ap.add_argument('--jobs', type=int, default=3)
    ap.add_argument('--props')
    a = ap.parse_args()
    base = tempfile.mkdtemp(prefix='mutants-')
    jobs = []
    for f in sorted(MAP) if not a.files else a.files.split(','):
        raw, ms = mutants('/repo/doatools/' + f)
        r = random.Random('%d/%s' % (a.seed, f))
        if len(ms) > a.n:
            ms = r.sample(ms, a.n)
        jobs += [(f, m) for m in ms]
    random.Random(a.seed).shuffle(jobs)
    done = set()
    if os.path.exists(a.out):
        for x in open(a.out):
            y = json.loads(x)
            done.add((y['file'], y['a'], y['b'], y['new']))
    jobs = [(i, f, m, base, a.props.split() if a.props else None) for i, (f, m) in enumerate(jobs) if (f, m['a'], m['b'], m['new']) not in done]
    print(len(jobs), 'mutants', flush=True)
    with ThreadPoolExecutor(a.jobs) as ex, open(a.out, 'a') as out:
        for r in ex.map(work, jobs):
            out.write(json.dumps(r) + '\n')
            out.flush()
    shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    main()
