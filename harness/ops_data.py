"""Data preparation: commands."""
import numpy as np
from core import dec, enc, snap as snapv
from ops import OPS, op, Raw, VIEWS, LIGHTS
from ops_est import eig
from doatools.estimation.coarray import CoarrayACMBuilder1D
from doatools.estimation.preprocessing import spatial_smooth, l1_svd
from doatools.estimation import source_number as SN
from doatools.model.signals import SignalGenerator, ComplexStochasticSignal, RandomPhaseSignal
from doatools.model.snapshots import get_narrowband_snapshots


# ---------------------------------------------------------------- coarray ACM
@op
def mkacm(h, c): return CoarrayACMBuilder1D(h[c['a']])
@op
def acm(h, c):
    b = h[c['b']]
    f = b if c.get('call') else b.transform
    return f(dec(c['R'], h), *([c['method']] if 'method' in c else []))
@op
def acmview(h, c): return (h[c['b']].input_size, h[c['b']].output_size)
@op
def vula(h, c): return h[c['b']].get_virtual_ula(*([c['name']] if 'name' in c else []))
VIEWS['CoarrayACMBuilder1D'] = lambda x: {'t': 'acm'}


# ---------------------------------------------------------------- preprocessing
@op
def ssmooth(h, c):
    return spatial_smooth(dec(c['R'], h), c['l'], *([c['fb']] if 'fb' in c else []))


@op
def l1svd(h, c):
    Y = dec(c['y'], h)
    Y0 = Y.copy()
    U, sv, Vh = np.linalg.svd(Y0, full_matrices=False)
    return WRes(l1_svd(Y, c['k']), dict(t='l1svd', U=enc(U), s=enc(sv), V=enc(Vh.conj().T), **eig(Y0 @ Y0.conj().T)), 'y')


class WRes:
    """a result with witnesses: the caller keeps the result"""
    def __init__(self, res, rec, field):
        self.res, self.rec = res, dict(rec)
        self.rec[field] = enc(res)
VIEWS['WRes'] = lambda x: x.rec
LIGHTS['WRes'] = lambda x: snapv(x.res)


# ---------------------------------------------------------------- source number
@op
def srcnum(h, c):
    x = dec(c['x'], h)
    w = eig(x.copy()) if x.ndim > 1 else {}
    f = {'aic': SN.aic, 'mdl': SN.mdl, 'sorte': SN.sorte}[c['f']]
    return Raw(t='srcnum', k=enc(f(x, c['n']) if c['f'] != 'sorte' else f(x)), **w)
@op
def ldstat(h, c): return SN.ld_stat(dec(c['l'], h), c['k'], c['n'])


# ---------------------------------------------------------------- signals
class RecSignal(SignalGenerator):
    """a generator of the caller: deterministic, and it may hand out its own buffer"""
    def __init__(self, dim, seed, real, buf):
        self._dim, self.g, self.real, self.buf, self.cache = dim, np.random.RandomState(seed), real, buf, {}

    @property
    def dim(self):
        return self._dim

    def emit(self, n):
        if self.buf and n in self.cache:
            return self.cache[n]
        x = self.g.randn(self._dim, n) + (0 if self.real else 1j * self.g.randn(self._dim, n))
        self.cache[n] = x
        return x


class FixSignal(SignalGenerator):
    """a generator of the caller that reads a matrix, column by column, over and over"""
    def __init__(self, X, buf):
        self.X, self.buf, self.pos, self.cache = X, buf, 0, {}

    @property
    def dim(self):
        return self.X.shape[0]

    def emit(self, n):
        x = self.X[:, [(self.pos + i) % self.X.shape[1] for i in range(n)]]
        self.pos += n
        if self.buf:
            b = self.cache.setdefault(n, x)
            b[:] = x
            return b
        return x


class Tap(SignalGenerator):
    """passes a generator through and notes what it did"""
    def __init__(self, g):
        self.g, self.asked, self.out, self.copies = g, [], [], []

    @property
    def dim(self):
        return self.g.dim

    def emit(self, n):
        x = self.g.emit(n)
        self.asked.append(int(n))
        self.out.append(x)
        self.copies.append(x.copy())
        return x


@op
def mksig(h, c):
    if c['k'] == 'rec':
        return RecSignal(c['dim'], c['seed'], c.get('real', False), c.get('buf', False))
    if c['k'] == 'fix':
        return FixSignal(dec(c['par'], h).copy(), c.get('buf', False))
    if c['k'] == 'randcn':
        import ops_utils
        return ops_utils.RandcnGen(c['dim'])
    cls = ComplexStochasticSignal if c['k'] == 'cn' else RandomPhaseSignal
    return cls(c['dim'], *([dec(c['par'], h)] if 'par' in c else []))


def view_sig(x):
    return {'t': 'sig', 'dim': enc(x.dim)}
for k in ('RecSignal', 'FixSignal', 'RandcnGen', 'ComplexStochasticSignal', 'RandomPhaseSignal'):
    VIEWS[k] = view_sig


@op
def emit(h, c): return h[c['g']].emit(c['n'])


@op
def emitstat(h, c):
    g, n = h[c['g']], c['n']
    S, S2 = g.emit(n), g.emit(n)
    U = S / np.abs(S)
    m = lambda A, B: enc((A @ B.T / A.shape[1]).astype(complex))
    return Raw(t='stat', sh=list(S.shape), mean=enc(S.mean(axis=1).astype(complex)), cov=m(S, S.conj()), pcov=m(S, S), lag=m(S[:, 1:], S[:, :-1].conj()),
               lagp=m(S[:, 1:], S[:, :-1]), rep=m(S, S2.conj()), m4=enc((np.abs(S)**4).mean(axis=1)),
               ph2=enc((U**2).mean(axis=1)), ph3=enc((U**3).mean(axis=1)), amin=enc(np.abs(S).min(axis=1)), amax=enc(np.abs(S).max(axis=1)))


@op
def snap(h, c):
    s = Tap(h[c['src']])
    twice = c.get('noise') == c['src']     # the caller passes the same generator for both
    nz = s if twice else Tap(h[c['noise']]) if 'noise' in c else None
    args = {}
    if nz:
        args['noise_signal'] = nz
    if 'n' in c:
        args['n_snapshots'] = c['n']
    if 'cov' in c:
        args['return_covariance'] = c['cov']
    res = get_narrowband_snapshots(h[c['a']], h[c['s']], dec(c['wl']), s, **args)
    same = all((x == y).all() for t in (s, nz) if t for x, y in zip(t.out, t.copies))
    if twice:
        return WRes(res, dict(t='snap', S=enc(s.copies[0]) if s.copies else enc(None), N=enc(s.copies[1]) if len(s.copies) > 1 else enc(None),
                              sn=s.asked[:1], nn=s.asked[1:], intact=bool(same)), 'res')
    rec = dict(t='snap', S=enc(s.copies[0]) if s.copies else enc(None), sn=s.asked, intact=bool(same))
    rec.update(N=enc(nz.copies[0]) if nz and nz.copies else enc(None), nn=nz.asked if nz else [])
    return WRes(res, rec, 'res')
