"""Maximum-likelihood estimators: commands."""
import copy
import numpy as np
import scipy.optimize as so
from core import dec, enc, snap
from ops import op, VIEWS, LIGHTS
from ops_est import own_steering, eig, Res
from doatools.estimation.ml import AMLEstimator, CMLEstimator, WSFEstimator, f_nll_stouc

MLK = {'aml': AMLEstimator, 'cml': CMLEstimator, 'wsf': WSFEstimator}


class Ml:
    def __init__(self, e, kind, a, wl):
        self.e, self.kind, self.a, self.wl = e, kind, a, wl
        self.a0 = copy.deepcopy(a)

    def fresh(self):
        return MLK[self.kind](copy.deepcopy(self.a0), self.wl)


@op
def mkml(h, c):
    wl = dec(c['wl'])
    return Ml(MLK[c['k']](h[c['a']], wl), c['k'], h[c['a']], wl)


def criterion(kind, a, wl, R, s):
    """the criterion, from its definition, at the locations of s (a scratch placement)"""
    m, k = R.shape[0], s.size
    if kind == 'wsf':
        l, E = np.linalg.eigh(R)
        sg = l[:m - k].mean()
        M = (E[:, m - k:] * ((l[m - k:] - sg)**2 / l[m - k:])) @ E[:, m - k:].conj().T
    def f(x):
        s.locations[...] = x.reshape(s.locations.shape)
        A = own_steering(a, s, wl)
        Q, _ = np.linalg.qr(A)
        P = Q @ Q.conj().T
        N = np.eye(m) - P
        if kind == 'cml':
            return np.trace(N @ R).real
        if kind == 'wsf':
            return np.trace(N @ M).real
        S = P @ R @ P + np.trace(N @ R).real / (m - k) * N
        return np.linalg.slogdet(S)[1]
    return f


def challenge(E, R, est):
    """a point near the estimate that should not be better"""
    s = est[:]
    x0 = est.locations.flatten().astype(float)
    box = 0.5 if est.units[0] == 'deg' else 0.01
    rng = np.array(list(est.valid_ranges) * est.size, dtype=float)
    lo, hi = np.maximum(rng[:, 0], x0 - box), np.minimum(rng[:, 1], x0 + box)
    f = criterion(E.kind, E.a, E.wl, R, s)
    best, bx = f(x0), x0
    for m, o in (('L-BFGS-B', dict(ftol=1e-15, gtol=1e-10)), ('Nelder-Mead', dict(maxiter=150, fatol=1e-12))):
        try:
            r = so.minimize(f, np.clip(x0, lo, hi), method=m, bounds=list(zip(lo, hi)), options=o)
            if r.fun < best:
                best, bx = r.fun, np.clip(r.x, lo, hi)
        except Exception:
            pass
    s.locations[...] = bx.reshape(s.locations.shape)
    return s


@op
def mlest(h, c):
    E, R, s0 = h[c['e']], dec(c['R'], h), h[c['s0']]
    kw = {'options': {'maxiter': c['maxiter']}} if 'maxiter' in c else {}
    R0, s00 = R.copy(), copy.deepcopy(s0)
    res = E.e.estimate(R, s0, **kw)
    w = eig(R0) if E.kind == 'wsf' else {}
    # what fresh estimators say, when they agree to the last bit
    fr = []
    for _ in range(2):
        try:
            fr.append(enc(E.fresh().estimate(R0.copy(), copy.deepcopy(s00), **kw)))
        except Exception:
            pass
    if len(fr) == 2 and fr[0] == fr[1]:
        w['fr'] = fr[0]
    if res[0]:
        w['ch'] = enc(challenge(E, R0, res[1]))
    return Res(res, w)


@op
def mllast(h, c):
    return h[c['e']].e.get_last_estimates()


VIEWS.update(Ml=lambda x: {'t': 'ml'})
LIGHTS.update(Ml=lambda x: 'ml')


@op
def mlany(h, c):
    return None


@op
def nllst(h, c):
    return f_nll_stouc(dec(c['R'], h), h[c['a']], h[c['s']], dec(c['wl']), dec(c['p']), dec(c['sg']))
