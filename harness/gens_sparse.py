"""Histories about sparse recovery (P20)."""
import math
from gens import G, T, I, S, ref, vec, mat
from gens_est import est_array, wide_grid, cov_cmd, bad_cov, freq_sources, ff1_from_sines, wlen

FORMS = ['penalizedl1', 'constrainedl1', 'constrainedl2']


def rnd(g, m, n, cx=False):
    cx = cx and g.p(.8)
    z = g.c([0, 0, .4])     # exact zeros
    return mat([[0.0 if g.r.random() < z else g.cx() if cx else g.r.gauss(0, 1) for _ in range(n)] for _ in range(m)], 'c' if cx else 'f')


def lval(g, form, nb):
    if form == 'penalizedl1':
        return g.c([g.r.uniform(.05, 1) * nb, g.r.uniform(.3, 3) * nb, .1, 0.0 if g.p(.2) else .5, 50 * nb])
    if form == 'constrainedl1':
        return g.c([g.r.uniform(.05, 2), g.r.uniform(.1, 1), 50.0, .01])
    return nb * g.c([g.r.uniform(.1, .9), g.r.uniform(.05, .5), .02, 1.5])


def gen_p20(seed, tier, scale):
    g = G(seed, 'P20')
    hs = []
    # reused problem objects
    for i in range(int((36 if tier == 'quick' else 400) * scale)):
        m, n = g.i(1, 6), g.i(1, 7)
        if g.p(.6):
            form = g.c(FORMS + [None])
            pc = {'op': 'mkprob', 'k': 'l1', 'm': m, 'n': n, 'out': 'p'}
            if form:
                pc['form'] = form
            if g.p(.6):
                pc['nn'] = g.p(.6)
            form, q, cx = form or 'penalizedl1', 1, False
        else:
            q = g.i(1, 3)
            pc = {'op': 'mkprob', 'k': 'l21', 'm': m, 'n': n, 'q': q, 'out': 'p'}
            if g.p(.7):
                pc['cx'] = g.p(.6)
            form, cx = 'penalizedl1', pc.get('cx', False)
        cmds = [pc]
        for s in range(g.i(2, 4 if tier == 'quick' else 6)):
            A, b = rnd(g, m, n, cx), rnd(g, m, q, cx)
            nb = math.sqrt(m * q)
            l = lval(g, form, nb)
            cmds += [{'op': 'val', 'out': 'A%d' % s, 'v': A}, {'op': 'val', 'out': 'b%d' % s, 'v': b}]
            c = {'op': 'solve', 'p': 'p', 'A': ref('A%d' % s), 'b': ref('b%d' % s), 'l': T(l), 'solver': 'CLARABEL', 'out': 'x%d' % s}
            r = g.r.random()
            if r < .08:
                c['l'] = T(-abs(l) - .1)
            elif r < .14:
                c['A'] = rnd(g, m + 1, n)
            elif r < .2:
                c['b'] = rnd(g, m, q + 1)
            elif r < .24 and not cx:
                c['A'] = mat([[g.cx() for _ in range(n)] for _ in range(m)], 'c')
            elif r < .35 and s > 0:
                c['A'] = ref('A%d' % (s - 1))
            elif r < .45 and form != 'constrainedl2':
                c.pop('solver')
            cmds.append(c)
        hs.append({'id': 's%d' % i, 'cmds': cmds})
    for i in range(4):
        hs.append({'id': 'f%d' % i, 'cmds': [{'op': 'mkprob', 'k': 'l1', 'm': 2, 'n': 2, 'form': g.c(['', 'l1', 'PenalizedL1', 'constrainedl3']), 'out': 'p'}]})
    # covariance matching
    for i in range(int((34 if tier == 'quick' else 380) * scale)):
        ca, m = est_array(g, 'a', mn=2, mx=4)
        cg, kk, u, sh = wide_grid(g, 'g', g.c(['g1', 'g1', 'g1', 'g2']), lo=4, hi=12)
        form = g.c(FORMS)
        mk = {'op': 'mksparse', 'k': 'scm', 'a': 'a', 'g': 'g', 'wl': wlen(g), 'out': 'e'}
        if form != 'penalizedl1' or g.p(.5):
            mk['form'] = form
        known = g.p(.5)
        if known or g.p(.5):
            mk['known'] = known
        if g.p(.3):
            mk['cache'] = g.p(.5)
        if g.p(.2):
            mk['finder'] = g.c(['even', 'max1', 'rev'])
        cmds = [ca, cg, mk]
        for s in range(g.i(1, 3)):
            k = g.i(1, m - 1)
            cmds.append(cov_cmd(g, 'R%d' % s, m, k))
            nb = 8.0
            c = {'op': 'spest', 'e': 'e', 'R': ref('R%d' % s), 'n': g.i(1, 2), 'l': T(lval(g, form, nb)), 'solver': 'CLARABEL', 'out': 'o%d' % s}
            if form == 'constrainedl1':
                c['l'] = T(g.r.uniform(.2, 12))
            if known:
                c['sigma'] = T(g.r.uniform(.2, 1))
            elif g.p(.2):
                c['sigma'] = T(1.0)
            if g.p(.7):
                c['spec'] = g.p(.8)
            r = g.r.random()
            if r < .06:
                c['refine'] = g.p(.5)
            elif r < .12:
                c['R'] = bad_cov(g, m)
            elif r < .18:
                c.pop('sigma', None)
            cmds.append(c)
            if g.p(.2) and r > .18:
                cmds.append({'op': 'rpoke', 'x': c['out']})
        hs.append({'id': 'c%d' % i, 'cmds': cmds + [{'op': 'aview', 'a': 'a'}, {'op': 'gview', 'g': 'g'}]})
    # group sparsity
    for i in range(int((24 if tier == 'quick' else 260) * scale)):
        ca, m = est_array(g, 'a', mn=2, mx=6)
        cg, kk, u, sh = wide_grid(g, 'g', g.c(['g1', 'g1', 'g1', 'g2']), lo=4, hi=14)
        q = g.i(1, 4)
        wl = wlen(g)
        k = g.i(1, 2)
        xs = freq_sources(g, k, .9, .3)
        mk = {'op': 'mksparse', 'k': 'gse', 'a': 'a', 'g': 'g', 'wl': wl, 'q': q, 'out': 'e'}
        if g.p(.3):
            mk['cache'] = g.p(.5)
        cmds = [ca, cg, ff1_from_sines(g, 's', xs), mk]
        for s in range(g.i(1, 3)):
            cmds.append({'op': 'mkdata', 'a': 'a', 's': 's', 'wl': wl, 'q': q, 'sd': T(g.c([.1, .5, 1.0])), 'seed': g.i(0, 10**6), 'out': 'Y%d' % s})
            c = {'op': 'spest', 'e': 'e', 'R': ref('Y%d' % s), 'n': k, 'l': T(g.c([g.r.uniform(.3, 4), g.r.uniform(1, 8), 100.0])), 'solver': 'CLARABEL', 'out': 'o%d' % s}
            if g.p(.7):
                c['spec'] = g.p(.8)
            r = g.r.random()
            if r < .06:
                c['refine'] = g.p(.5)
            elif r < .12:
                c['R'] = rnd(g, m + 1, q, True)
            elif r < .18:
                c['R'] = rnd(g, m, q + 1, True)
            cmds.append(c)
        hs.append({'id': 'g%d' % i, 'cmds': cmds + [{'op': 'aview', 'a': 'a'}, {'op': 'gview', 'g': 'g'}]})
    # infeasible residual bounds
    for i in range(int((8 if tier == 'quick' else 60) * scale)):
        ca, m = est_array(g, 'a', mn=3, mx=4)
        cg, kk, u, sh = wide_grid(g, 'g', g.c(['g1', 'g2']), lo=4, hi=9)
        cmds = [ca, cg, {'op': 'mksparse', 'k': 'scm', 'a': 'a', 'g': 'g', 'wl': T(1.0), 'form': 'constrainedl2', 'out': 'e'}]
        for s in range(2):
            cmds += [cov_cmd(g, 'R%d' % s, m, 1), {'op': 'spest', 'e': 'e', 'R': ref('R%d' % s), 'n': 1, 'l': T(g.c([1e-3, 30.0])), 'solver': 'CLARABEL', 'spec': g.p(.6), 'out': 'o%d' % s}]
        hs.append({'id': 'x%d' % i, 'cmds': cmds})
    return hs
