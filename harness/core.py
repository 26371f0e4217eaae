"""Executes command histories on the real library and records what it did.

A history is {"id", "cmds": [...]}; the result is the same record with
"evs": one {"r": encoded result or exception, "mut": [variables changed]} per
command.  Only the public API of the library is used.
"""
import json, os, signal, sys, warnings
import numpy as np

warnings.filterwarnings('ignore')


# ---------------------------------------------------------------- encoding
def tok(x):
    if isinstance(x, (complex, np.complexfloating)):
        return '%s,%s' % (tok(x.real), tok(x.imag))
    if isinstance(x, (bool, np.bool_)):
        return '1' if x else '0'
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    return repr(float(x))


def enc_arr(a):
    kind = a.dtype.kind
    dt = {'f': 'f', 'i': 'i', 'u': 'i', 'c': 'c', 'b': 'b'}.get(kind)
    if dt is None:
        return {'t': 'other', 'c': 'ndarray of ' + str(a.dtype)}
    sh = list(a.shape)
    if a.size == 0:
        rows = [''] * (int(np.prod(sh[:-1])) if sh else 0)
    else:
        b = a.reshape((-1, sh[-1])) if sh else a.reshape((1, 1))
        rows = [' '.join(tok(x) for x in row) for row in b.tolist()]
    return {'t': 'arr', 'sh': sh, 'dt': dt, 'v': rows}


def enc(x):
    if x is None:
        return {'t': 'none'}
    if isinstance(x, (bool, np.bool_)):
        return {'t': 'bool', 'v': bool(x)}
    if isinstance(x, (int, np.integer)):
        return {'t': 'int', 'v': int(x)} if abs(int(x)) < 2**31 else {'t': 'num', 'v': str(int(x))}
    if isinstance(x, (float, np.floating, complex, np.complexfloating)):
        return {'t': 'num', 'v': tok(x)}
    if isinstance(x, str):
        return {'t': 'str', 'v': x}
    if isinstance(x, np.ndarray):
        return enc_arr(x)
    if isinstance(x, tuple):
        return {'t': 'tup', 'v': [enc(y) for y in x]}
    if isinstance(x, list):
        return {'t': 'list', 'v': [enc(y) for y in x]}
    if type(x).__name__ == 'Raw':
        return dict(x)
    if isinstance(x, dict):
        return {'t': 'dict', 'k': [enc(y) for y in x], 'v': [enc(y) for y in x.values()]}
    if isinstance(x, BaseException):
        return enc_exc(x)
    import ops
    return ops.view(x)


def enc_exc(e):
    return {'t': 'exc', 'c': [c.__name__ for c in type(e).__mro__ if c is not object], 'm': str(e)[:200].replace('"', "'").replace('\n', ' ')}


def untok(s, dt):
    if dt == 'c':
        a = s.split(',')
        return complex(fl(a[0]), fl(a[1]) if len(a) > 1 else 0.0)
    if dt == 'i':
        return int(s)
    if dt == 'b':
        return s == '1'
    return fl(s)


def fl(s):
    if '/' in s:
        p, q = s.split('/')
        return int(p) / int(q)
    return float(s)


NP = {'f': np.float64, 'i': np.int64, 'c': np.complex128, 'b': np.bool_}


def dec(v, heap=None):
    """python value of an encoded argument (fresh objects every time)"""
    t = v['t']
    if t == 'ref':
        return heap[v['n']]
    if t == 'none':
        return None
    if t in ('bool', 'int', 'str'):
        return v['v']
    if t == 'num':
        return untok(v['v'], 'c') if ',' in v['v'] else fl(v['v'])
    if t == 'arr':
        flat = [untok(s, v['dt']) for row in v['v'] for s in row.split()]
        a = np.array(flat, dtype=NP[v['dt']]).reshape(v['sh'])
        if v.get('np'):
            a = a.astype(v['np'])
        if v.get('fortran'):
            a = np.asfortranarray(a)
        if v.get('strided'):
            big = np.empty([2 * n for n in a.shape], a.dtype)
            big[...] = 77
            big = big[tuple(slice(None, None, 2) for _ in a.shape)]
            big[...] = a
            a = big
        return a.tolist() if v.get('py') == 'list' else a
    if t == 'tup':
        return tuple(dec(y, heap) for y in v['v'])
    if t == 'list':
        return [dec(y, heap) for y in v['v']]
    if t == 'slice':
        return slice(*(dec(v[k]) for k in 'abs'))
    raise ValueError('cannot decode ' + t)


# ---------------------------------------------------------------- snapshots
def snap(x, depth=0):
    """a cheap deep fingerprint of what the caller can observe of a value,
    chosen so that taking it cannot fill caches of the library"""
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return tuple(snap(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return tuple((snap(k), snap(v)) for k, v in x.items())
    if x is None or isinstance(x, (bool, int, float, complex, str, np.generic)):
        return repr(x)
    import ops
    return ops.light(x)


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout('time limit')


def run_history(hist, limit=60):
    import ops
    heap, evs = {}, []
    np.random.seed(12345)
    signal.signal(signal.SIGALRM, _alarm)
    snaps = {}
    for c in hist['cmds']:
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            try:
                res = ops.OPS[c['op']](heap, c)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            r = enc(res)
            failed = False
        except (Exception, Timeout) as e:
            if os.environ.get('DOA_DEBUG'):
                import traceback
                traceback.print_exc()
            r, failed = enc_exc(e), True
        mut = []
        for k, v in heap.items():
            if k == c.get('out'):
                continue
            try:
                s = snap(v)
            except Exception as e:  # the object can no longer be observed
                s = ('broken', repr(e)[:80])
            if k in snaps and snaps[k] != s:
                mut.append(k)
            snaps[k] = s
        if not failed and 'out' in c:
            heap[c['out']] = res
            snaps[c['out']] = snap(res)
        evs.append({'r': r, 'mut': mut})
    import ops as o
    o.end_history()
    return dict(hist, evs=evs)


def _work(hist):
    try:
        return run_history(hist)
    except BaseException as e:
        return dict(hist, error=repr(e))
