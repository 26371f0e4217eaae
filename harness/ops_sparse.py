"""Sparse recovery problems and estimators: commands."""
import copy
import warnings
import numpy as np
import scipy.optimize as so
from core import dec, enc, snap
from ops import op, VIEWS, LIGHTS
from ops_est import FINDERS, Res, own_steering
from doatools.estimation.sparse import SparseCovarianceMatching, GroupSparseEstimator
from doatools.optim.l1lsq import L1RegularizedLeastSquaresProblem, L21RegularizedLeastSquaresProblem


class Prob:
    def __init__(self, p, nn):
        self.p, self.nn = p, nn


class Spe:
    def __init__(self, e, fresh, kind, a, g, wl, known, form):
        self.e, self.fresh, self.kind, self.a, self.g, self.wl, self.known, self.form = e, fresh, kind, a, g, wl, known, form
        self.opts = {}


@op
def mkprob(h, c):
    if c['k'] == 'l1':
        k = {}
        if 'form' in c:
            k['formulation'] = c['form']
        if 'nn' in c:
            k['nonnegative'] = c['nn']
        return Prob(L1RegularizedLeastSquaresProblem(c['m'], c['n'], **k), c.get('nn', False))
    k = {'complex': c['cx']} if 'cx' in c else {}
    return Prob(L21RegularizedLeastSquaresProblem(c['m'], c['n'], c['q'], **k), False)


def separator(A, b, nn):
    """what is left of b after its projection on the range (or cone) of A"""
    try:
        if nn:
            return b - A @ so.nnls(A, b.ravel(), maxiter=1000)[0].reshape(-1, 1)
        return b - A @ np.linalg.lstsq(A, b, None)[0]
    except Exception:
        return b


@op
def solve(h, c):
    P, A, b, l = h[c['p']], dec(c['A'], h), dec(c['b'], h), dec(c['l'])
    k = {'solver': c['solver']} if 'solver' in c else {}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        x = P.p.solve(A, b, l, **k)
    w = {}
    if not np.iscomplexobj(A) and not np.iscomplexobj(b):
        w['sep'] = enc(np.asarray(separator(A, b, P.nn), dtype=float))
    return Res(x, w)


@op
def mksparse(h, c):
    a, g, wl = h[c['a']], h[c['g']], dec(c['wl'])
    k = {}
    if 'finder' in c:
        k['peak_finder'] = FINDERS[c['finder']]
    if 'cache' in c:
        k['enable_caching'] = c['cache']
    pa, pg = copy.deepcopy(a), copy.deepcopy(g)
    if c['k'] == 'gse':
        mk = lambda x, y: GroupSparseEstimator(x, wl, y, c['q'], **k)
    else:
        if 'known' in c:
            k['noise_known'] = c['known']
        if 'form' in c:
            k['formulation'] = c['form']
        mk = lambda x, y: SparseCovarianceMatching(x, wl, y, **k)
    return Spe(mk(a, g), lambda: mk(copy.deepcopy(pa), copy.deepcopy(pg)), c['k'], pa, pg, wl, c.get('known', False), c.get('form', 'penalizedl1'))


def gives_up(A, B, l, form, complex_):
    """does the solver give up on the problem as the documentation writes it?"""
    import cvxpy as cvx
    X = cvx.Variable((A.shape[1], B.shape[1]), complex=complex_)
    D, cons = A @ X - B, [] if complex_ else [X >= 0]
    if complex_:
        f = .5 * cvx.norm(D, 'fro')**2 + l * cvx.sum(cvx.norm(X.T, 2, axis=0))
    elif form == 'penalizedl1':
        f = .5 * cvx.sum_squares(D) + l * cvx.norm1(X)
    elif form == 'constrainedl1':
        f, cons = cvx.sum_squares(D), cons + [cvx.norm1(X) <= l]
    else:
        f, cons = cvx.norm1(X), cons + [cvx.norm(D) <= l]
    try:
        p = cvx.Problem(cvx.Minimize(f), cons)
        p.solve(solver='CLARABEL', warm_start=False)
        return p.status not in ('optimal', 'infeasible')
    except Exception:
        return True


@op
def spest(h, c):
    E, R = h[c['e']], dec(c['R'], h)
    k = {}
    if 'solver' in c:
        # one dictionary of options for all the calls with this solver
        k['solver_options'] = E.opts.setdefault(c['solver'], {'solver': c['solver']})
    if 'sigma' in c:
        k['sigma'] = dec(c['sigma'])
    if 'spec' in c:
        k['return_spectrum'] = c['spec']
    if 'refine' in c:
        k['refine_estimates'] = c['refine']
    R0 = np.array(R)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res = E.e.estimate(R, c['n'], dec(c['l']), **k)
        w = {'sp': enc(None)}
        if 'solver' in c:
            w['kept'] = E.opts[c['solver']] == {'solver': c['solver']}
            k['solver_options'] = {'solver': c['solver']}
        if E.kind == 'scm':
            A = own_steering(E.a, E.g.source_placement, E.wl)
            Phi = np.stack([np.kron(A[:, j].conj(), A[:, j]) for j in range(A.shape[1])], 1)
            m = A.shape[0]
            b = R0.astype(complex)
            if E.known:
                b = b - dec(c.get('sigma', {'t': 'num', 'v': '0'})) * np.eye(m)
            else:
                Phi = np.hstack([Phi, np.eye(m).reshape(-1, 1)])
            b = b.reshape(-1, 1, order='F')
            w['sep'] = enc(separator(np.vstack([Phi.real, Phi.imag]), np.vstack([b.real, b.imag]), True).ravel())
            data = np.vstack([Phi.real, Phi.imag]), np.vstack([b.real, b.imag]), dec(c['l']), E.form, False
        else:
            data = own_steering(E.a, E.g.source_placement, E.wl), R0, dec(c['l']), '', True
        if isinstance(res, tuple) and res[0] is False:
            w['gaveup'] = gives_up(*data)
        try:
            out = E.fresh().estimate(R0.copy(), c['n'], dec(c['l']), **dict(k, return_spectrum=True))
            w['sp'] = enc(out[2])
        except Exception:
            pass
    return Res(res, w)


@op
def mkdata(h, c):
    """snapshots A X + noise of random waveforms"""
    A = own_steering(h[c['a']], h[c['s']], dec(c['wl']))
    g = np.random.RandomState(c['seed'])
    cn = lambda *s: (g.randn(*s) + 1j * g.randn(*s)) / np.sqrt(2)
    return A @ cn(A.shape[1], c['q']) + dec(c['sd']) * cn(A.shape[0], c['q'])


VIEWS.update(Prob=lambda x: {'t': 'prob'}, Spe=lambda x: {'t': 'spe'})
LIGHTS.update(Prob=lambda x: 'prob', Spe=lambda x: 'spe')
