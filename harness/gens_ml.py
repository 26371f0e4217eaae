"""Histories about maximum-likelihood estimators (P19)."""
import math
from gens import G, T, I, ref, vec, mat, pert_spec
from gens_src import src_cmd, LIM
from gens_est import est_array, cov_cmd, bad_cov, freq_sources, wlen

MLS = ['aml', 'cml', 'wsf']


def conv(xs, u):
    return [math.asin(x) if u == 'rad' else math.degrees(math.asin(x)) if u == 'deg' else x for x in xs]


def truth_and_starts(g, k, n, spread=.02):
    """a placement and n initial guesses near it"""
    xs = freq_sources(g, k, .8, .45)
    if xs is None:
        return None
    g.r.shuffle(xs)
    u = g.c(['rad', 'deg', 'sin'])
    v = conv(xs, u)
    w = spread * (57 if u == 'deg' else 1)
    mkc = lambda out, q: {'op': 'ff1', 'v': vec(q), 'unit': u, 'out': out}
    return mkc('s', v), [mkc('z%d' % j, [x + g.r.uniform(-w, w) for x in v]) for j in range(n)]


def gen_p19(seed, tier, scale):
    g = G(seed, 'P19')
    hs = []
    # ideal and sampled covariances of far-field sources, starting near the truth
    for i in range(int((70 if tier == 'quick' else 900) * scale)):
        if g.p(.5):
            m = g.i(4, 7)
            ca = {'op': 'ula', 'n': m, 'd0': T(g.c([.5, .4])), 'out': 'a'}
            if g.p(.3):
                ca['pert'] = pert_spec(g, m)
        else:
            ca, m = est_array(g, 'a', mn=4, mx=7)
        k = g.i(1, min(3, m - 2))
        ts = truth_and_starts(g, k, 4)
        if ts is None:
            continue
        sc, zs = ts
        wl = T(1.0)
        kind = g.c(MLS)
        cmds = [ca, sc] + zs + [
            {'op': 'idealcov', 'a': 'a', 's': 's', 'wl': wl, 'p': vec([g.r.uniform(.8, 4) for _ in range(k)]), 'sg': T(g.c([.1, 1.0, .3])), 'out': 'R'},
            {'op': 'mkml', 'k': kind, 'a': 'a', 'wl': wl, 'out': 'e'}]
        if g.p(.3):
            cmds.append({'op': 'mllast', 'e': 'e'})
        ideal = g.p(.4)
        if not ideal:
            cmds.append({'op': 'wishart', 'R': ref('R'), 'n': g.c([8, 15, 40]), 'seed': g.i(0, 10**6), 'out': 'W'})
        for j in range(4):
            cmds.append({'op': 'mlest', 'e': 'e', 'R': ref('R' if ideal else 'W'), 's0': 'z%d' % j, 'out': 'o%d' % j})
            if g.p(.2):
                cmds.append({'op': 'spoke', 's': 'z%d' % j})
            if g.p(.4):
                cmds.append({'op': 'mllast', 'e': 'e', 'out': 'l%d' % j})
        cmds.append({'op': 'mlany', 'os': ['o%d' % j for j in range(4)]})
        if g.p(.4):
            cmds += [{'op': 'rpoke', 'x': 'o3'}, {'op': 'mllast', 'e': 'e', 'out': 'l'}]
        hs.append({'id': 't%d' % i, 'cmds': cmds + [{'op': 'aview', 'a': 'a'}]})
    # the likelihood function by itself
    for i in range(int((12 if tier == 'quick' else 150) * scale)):
        ca, m = est_array(g, 'a', mn=2, mx=6)
        sc, kind, u, n = src_cmd(g, 's', g.c(['ff1', 'ff1', 'ff2', 'nf2']), n=g.i(1, 3), margin=.9)
        hs.append({'id': 'st%d' % i, 'cmds': [ca, sc, cov_cmd(g, 'R', m, g.i(1, m - 1), real=False)] + [
            {'op': 'nllst', 'a': 'a', 's': 's', 'wl': T(g.c([1.0, .7])), 'R': ref('R'), 'p': vec([g.r.uniform(.05, 3) for _ in range(n)]), 'sg': T(g.c([.02, .2, 1.0, 2.5]))} for _ in range(2)]})
    # one estimator over problems of different kinds and sizes, with rejected calls and writes to what it returned
    for i in range(int((60 if tier == 'quick' else 700) * scale)):
        ca, m = est_array(g, 'a', mn=3, mx=6)
        wl = T(g.c([1.0, 2.0]))
        cmds = [ca]
        es = []
        for s in range(g.i(1, 2)):
            cmds.append({'op': 'mkml', 'k': g.c(MLS), 'a': 'a', 'wl': wl, 'out': 'e%d' % s})
            es.append('e%d' % s)
        kk = []
        for s in range(g.i(1, 3)):
            n = g.i(1, m - 1)
            c, kind, u, n = src_cmd(g, 'z%d' % s, g.c(['ff1', 'ff1', 'ff2', 'nf2']), n=min(n, 2), margin=.9)
            cmds += [c, cov_cmd(g, 'R%d' % s, m, n, real=False)]
            kk.append(n)
        outs = []
        for q in range(g.i(3, 6)):
            e, s = g.c(es), g.i(0, len(kk) - 1)
            r = g.r.random()
            if r < .5:
                c = {'op': 'mlest', 'e': e, 'R': ref('R%d' % s), 's0': 'z%d' % s, 'out': 'o%d' % q}
                if g.p(.3):
                    c['maxiter'] = g.i(1, 3)
                cmds.append(c)
                outs.append(c['out'])
            elif r < .65:
                cmds.append({'op': 'mllast', 'e': e, 'out': 'l%d' % q})
                outs.append(('l%d' % q,))
            elif r < .8 and outs:
                x = g.c(outs)
                cmds.append({'op': 'rpoke', 'x': x} if isinstance(x, str) else {'op': 'mllast', 'e': e})
            elif r < .9:
                cmds.append({'op': 'mlest', 'e': e, 'R': bad_cov(g, m), 's0': 'z%d' % s})
            else:
                cmds += [{'op': 'ff1', 'v': vec([-1 + 2 * j / (m + 1) for j in range(m + g.i(0, 1))]), 'out': 'big'},
                         {'op': 'mlest', 'e': e, 'R': ref('R%d' % s), 's0': 'big'}]
            if g.p(.4):
                cmds.append({'op': 'mllast', 'e': g.c(es)})
        hs.append({'id': 'h%d' % i, 'cmds': cmds + [{'op': 'aview', 'a': 'a'}]})
    # plain problems converge
    for i in range(int((9 if tier == 'quick' else 60) * scale)):
        m = g.i(5, 7)
        ts = truth_and_starts(g, 2, 5)
        if ts is None:
            continue
        sc, zs = ts
        cmds = [{'op': 'ula', 'n': m, 'd0': T(.5), 'out': 'a'}, sc] + zs + [
            {'op': 'idealcov', 'a': 'a', 's': 's', 'wl': T(1), 'p': vec([2.0, 1.0]), 'sg': T(1.0), 'out': 'R'},
            {'op': 'wishart', 'R': ref('R'), 'n': 500, 'seed': g.i(0, 10**6), 'out': 'W'},
            {'op': 'mkml', 'k': MLS[i % 3], 'a': 'a', 'wl': T(1), 'out': 'e'}]
        for j in range(5):
            cmds.append({'op': 'mlest', 'e': 'e', 'R': ref('R' if i % 2 else 'W'), 's0': 'z%d' % j, 'out': 'o%d' % j})
        hs.append({'id': 'p%d' % i, 'cmds': cmds + [{'op': 'mlany', 'os': ['o%d' % j for j in range(5)], 's': 's', 'tol': '0.003' if i % 2 else '0.1'}]})
    return hs
