"""Estimators: commands, and the witnesses that come with their results."""
import copy
import numpy as np
from core import dec, enc, snap
from ops import VIEWS, LIGHTS, OPS, op, Raw, PCLS, ELEMENTS, el_name
from doatools.estimation.beamforming import BartlettBeamformer, MVDRBeamformer, f_bartlett, f_mvdr
from doatools.estimation.music import MUSIC, RootMUSIC1D, f_music
from doatools.estimation.min_norm import MinNorm
from doatools.estimation.esprit import Esprit1D
from doatools.estimation.core import find_peaks_simple
from doatools.model.sources import SourcePlacement

SPECTRAL = {'bartlett': BartlettBeamformer, 'mvdr': MVDRBeamformer, 'music': MUSIC, 'minnorm': MinNorm}


# ------------------------------------------------- custom peak finders
def _rev(x):
    return tuple(i[::-1].copy() for i in find_peaks_simple(x))
def _even(x):
    return np.unravel_index(np.arange(0, x.size, 2)[::-1], x.shape)
def _none(x):
    return tuple(np.zeros(0, dtype=int) for _ in x.shape)
def _max1(x):
    return tuple(np.array([i]) for i in np.unravel_index(x.argmax(), x.shape))
FINDERS = {'rev': _rev, 'even': _even, 'none': _none, 'max1': _max1}


class Est:
    """an estimator of the caller, with what a fresh one needs"""
    def __init__(self, e, fresh=None, kind=None, wl=None, k0=None):
        self.e, self.fresh, self.kind, self.wl, self.k0 = e, fresh, kind, wl, k0


def view_est(x):
    return {'t': 'est'}


@op
def mkest(h, c):
    wl = dec(c['wl'])
    if c['k'] == 'rootmusic':
        return Est(RootMUSIC1D(wl), kind='rootmusic', wl=wl)
    if c['k'] == 'esprit':
        return Est(Esprit1D(wl), kind='esprit', wl=wl)
    k = {}
    if c.get('finder', 'default') != 'default':
        k['peak_finder'] = FINDERS[c['finder']]
    k0 = dict(k)
    if 'cache' in c:
        k['enable_caching'] = c['cache']
    a, g = h[c['a']], h[c['g']]
    pa, pg = copy.deepcopy(a), copy.deepcopy(g)
    fresh = lambda: SPECTRAL[c['k']](copy.deepcopy(pa), wl, copy.deepcopy(pg), **k0)
    return Est(SPECTRAL[c['k']](a, wl, g, **k), fresh, c['k'], wl)


def eig(R):
    try:
        l, E = np.linalg.eigh(R)
        return {'l': enc(l), 'E': enc(E)}
    except Exception:
        return {}


def spectral_witness(E, c, R):
    w = eig(R)
    k = c['n']
    k1 = {'density': 'refinement_density'}
    try:
        out = E.fresh().estimate(R.copy(), k, return_spectrum=True)
        if len(out) == 3 and isinstance(out[2], np.ndarray):
            w['sp'] = enc(out[2])
        else:
            w['sp'] = enc(None)
        w['est0'] = enc(out[1])
        its = c.get('iters', 3)
        path = []
        if c.get('refine') and out[0] and its > 0:
            for i in range(1, its):
                o = E.fresh().estimate(R.copy(), k, refine_estimates=True, refinement_iters=i,
                                       **({'refinement_density': c['density']} if 'density' in c else {}))
                path.append(enc(o[1]))
        w['path'] = path
    except Exception as e:
        w.setdefault('sp', enc(None))
        w.setdefault('est0', enc(None))
        w.setdefault('path', [])
    return w


def root_witness(R, k):
    w = eig(R)
    _, V = np.linalg.eigh(R)
    m = R.shape[0]
    En = V[:, :m - k]
    C = En @ En.conj().T
    p = np.array([np.trace(C, offset=d) for d in range(m - 1, -m, -1)])
    p[np.abs(p) < 1e-14 * m] = 0
    w['roots'] = enc(np.roots(p).astype(complex))
    return w


def esprit_witness(R, k, c, heap):
    w = eig(R)
    disp = c.get('disp', 1)
    m = R.shape[0]
    _, V = np.linalg.eigh(R)
    Es = V[:, m - k:]
    mr = m - disp
    rw = dec(c['rw'], heap) if 'rw' in c else 'default'
    if isinstance(rw, str):
        rw = np.ones(mr) if rw == 'none' else np.sqrt([min(i, mr + 1 - i) for i in range(1, mr + 1)])
    E1, E2 = rw[:, None] * Es[:mr], rw[:, None] * Es[disp:]
    try:
        w['zls'] = enc(np.linalg.eigvals(np.linalg.lstsq(E1, E2, None)[0]).astype(complex))
        C = np.hstack([E1, E2])
        gl, gE = np.linalg.eigh(C.conj().T @ C)
        w['gl'], w['gE'] = enc(gl), enc(gE)
        w['ztls'] = enc(np.linalg.eigvals(-gE[:k, :k] @ np.linalg.inv(gE[k:, :k])).astype(complex))
    except Exception:
        pass
    return w


@op
def est(h, c):
    E = h[c['e']]
    R = dec(c['R'], h)
    k = c['n']
    kw = {}
    if E.kind in SPECTRAL:
        for a, b in (('refine', 'refine_estimates'), ('density', 'refinement_density'), ('iters', 'refinement_iters'), ('spec', 'return_spectrum')):
            if a in c:
                kw[b] = c[a]
    else:
        if 'd0' in c:
            kw['d0'] = dec(c['d0'])
        if 'unit' in c:
            kw['unit'] = c['unit']
        for a, b in (('disp', 'displacement'), ('form', 'formulation')):
            if a in c:
                kw[b] = c[a]
        if 'rw' in c:
            kw['row_weights'] = dec(c['rw'], h)
    R0 = R.copy()
    res = E.e.estimate(R, k, **kw)
    if E.kind in SPECTRAL:
        w = spectral_witness(E, c, R0)
    elif E.kind == 'rootmusic':
        w = root_witness(R0, k)
    else:
        w = esprit_witness(R0, k, c, h)
    return Res(res, w)


class Res:
    """a result tuple with witnesses; the caller keeps the tuple"""
    def __init__(self, res, wit):
        self.res, self.wit = res, wit


def view_res(x):
    return {'t': 'est', 'res': enc(x.res), 'wit': x.wit}


@op
def rpoke(h, c):
    """the caller overwrites everything it got back"""
    x = h[c['x']]
    x = x.res if isinstance(x, Res) else x
    for y in (x if isinstance(x, (tuple, list)) else [x]):
        if isinstance(y, np.ndarray):
            y[...] = 0.321
        elif isinstance(y, SourcePlacement):
            y.locations[...] = 0.123


# ------------------------------------------------- covariances
def own_steering(a, s, wl):
    """steering matrix under the known perturbations, from the definition"""
    L = np.asarray(a.element_locations, dtype=float)
    P = {type(p): p.params for p in a.perturbations if p.is_known}
    if PCLS['loc'] in P:
        D = np.asarray(P[PCLS['loc']], dtype=float)
        d = max(L.shape[1], D.shape[1])
        L = np.pad(L, ((0, 0), (0, d - L.shape[1]))) + np.pad(D, ((0, 0), (0, d - D.shape[1])))
    L3 = np.pad(L, ((0, 0), (0, 3 - L.shape[1])))
    X = np.asarray(s.locations, dtype=float)
    k = {'FarField1DSourcePlacement': 1, 'FarField2DSourcePlacement': 2}.get(type(s).__name__, 3)
    if k == 1:
        t = {'rad': lambda x: np.sin(x), 'deg': lambda x: np.sin(np.deg2rad(x)), 'sin': lambda x: x}[s.units[0]](X)
        cc = np.sqrt(1 - t * t)
        U = np.stack([t, cc, 0 * t]) if L.shape[1] > 1 else np.stack([t, 0 * t, 0 * t])
        D = L3 @ U
    elif k == 2:
        f = np.deg2rad if s.units[0] == 'deg' else (lambda x: x)
        az, el = f(X[:, 0]), f(X[:, 1])
        D = L3 @ np.stack([np.cos(el) * np.cos(az), np.cos(el) * np.sin(az), np.sin(el)])
    else:
        S3 = np.pad(X, ((0, 0), (0, 1)))
        r = np.linalg.norm(L3[:, None, :] - S3[None], axis=2)
        D = r[:1] - r
    A = np.exp(2j * np.pi / wl * D)
    for t, p in P.items():
        p = np.asarray(p)
        if t is PCLS['gain']:
            A = (1.0 + p)[:, None] * A
        elif t is PCLS['phase']:
            A = np.exp(1j * p)[:, None] * A
        elif t is PCLS['mc']:
            A = p @ A
    return A


def herm(R):
    R = (R + R.conj().T) / 2
    return R


@op
def idealcov(h, c):
    A = own_steering(h[c['a']], h[c['s']], dec(c['wl']))
    R = herm((A * dec(c['p'])) @ A.conj().T + dec(c['sg']) * np.eye(A.shape[0]))
    return R.real.copy() if c.get('real') else R


@op
def wishart(h, c):
    """sample covariance matrix of n Gaussian snapshots with covariance R"""
    R = np.asarray(dec(c['R'], h))
    g = np.random.RandomState(c['seed'])
    m = R.shape[0]
    Z = (g.randn(m, c['n']) + 1j * g.randn(m, c['n'])) / np.sqrt(2)
    Y = np.linalg.cholesky(R) @ Z
    R = herm(Y @ Y.conj().T / c['n'])
    return R.real.copy() if c.get('real') else R


@op
def mkcov(h, c):
    """Hermitian matrix with the given eigenvalues and random eigenvectors"""
    g = np.random.RandomState(c['seed'])
    l = dec(c['l'])
    m = len(l)
    Z = g.randn(m, m) + (0 if c.get('real') else 1j * g.randn(m, m))
    Q, _ = np.linalg.qr(Z)
    return herm((Q * l) @ Q.conj().T)


@op
def fspec(h, c):
    A, R = dec(c['A'], h), dec(c['R'], h)
    return {'bartlett': f_bartlett, 'mvdr': f_mvdr, 'music': f_music}[c['f']](A, R)


@op
def peaks(h, c):
    return find_peaks_simple(dec(c['x'], h))


@op
def refill(h, c):
    """the caller reuses the buffer of a covariance for new data"""
    x, new = h[c['out']], mkcov(h, c)
    x[...] = new
    return x


VIEWS.update(Est=view_est, Res=view_res)
LIGHTS.update(Est=lambda x: 'est', Res=lambda x: snap(x.res))
