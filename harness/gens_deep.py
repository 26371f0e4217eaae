"""Further histories: user-defined perturbation types, unusual spacings, nearly equal values, long axes."""
import math
from gens import G, T, I, S, ref, vec, mat, array_cmd, pert_spec, pert_item
from gens_src import src_cmd, tup, LIM
from gens_est import cov_cmd, EST, mk, wlen, est_array, wide_grid, ff1_from_sines
from gens_big import times
from gens_more import indef_cov
from gens_sparse import rnd, lval, FORMS
from gens_ml import MLS as EML
from gens_data import anymat, coarray_array, sig_cmds, eigs


def user_item(g, n):
    """a perturbation of one of the types the user defined"""
    if g.p(.5):
        par = vec([g.c([1.0, 2.0, -1.0, 0.5, g.f(.1, 3)]), g.c([1.0, -2.0, 0.25, g.f(.1, 3)])])
        return {'ty': 'scale', 'known': g.p(.5), 'par': par}
    return dict(pert_item(g, n, 'gain'), ty='gain2')


def mixed_pert(g, n, types=None):
    items = [pert_item(g, n, t) for t in (g.r.sample(['loc', 'gain', 'phase', 'mc'], g.i(0, 3)) if types is None else types)]
    u = {}
    for _ in range(g.i(1, 2)):
        it = user_item(g, n)
        u[it['ty']] = it
    items += list(u.values())
    g.r.shuffle(items)
    for it in items:
        if g.p(.3):
            it['np'] = True
    return {'form': 'list', 'items': items}


def deep_p01(seed, tier, scale):
    g = G(seed, 'D01')
    hs = []
    for i in range(times(tier, 30, 200, scale)):
        z = lambda: g.c([-1.0, -.5, 0.0, 1.0, 2.5, -g.d0(), g.d0()])
        r = g.i(0, 3)
        if r == 0:
            c = g.c([{'op': 'ula', 'n': g.i(1, 8)}, {'op': 'nested', 'n1': g.i(1, 4), 'n2': g.i(1, 4)}, {'op': 'coprime', 'm': 2, 'n': g.c([3, 5])}, {'op': 'mrla', 'n': g.i(1, 9)}])
            c = dict(c, d0=T(z()))
        elif r == 1:
            c = {'op': 'ura', 'm': g.i(1, 4), 'n': g.i(1, 4), 'd0': T(z()) if g.p(.3) else vec([z(), z()], py=g.c(['list', None]))}
        elif r == 2:
            nd = g.i(1, 3)
            c = {'op': 'gridarr', 'name': g.c(['g', '']), 'idx': mat([[g.i(-6, 6) for _ in range(nd)] for _ in range(g.i(1, 6))], 'i'),
                 'd0': T(z()) if g.p(.3) else vec([z() for _ in range(nd)], py=g.c(['list', None]))}
        else:
            nd = g.i(1, 3)
            c = {'op': 'gridarr', 'name': 'b', 'idx': mat([[g.i(-6, 6) for _ in range(nd)] for _ in range(g.i(1, 6))], 'i'),
                 'bases': mat([[z() for _ in range(g.c([nd, 3]))] for _ in range(nd)] if nd == 3 else [[z() for _ in range(3)] for _ in range(nd)])}
        c['out'] = 'a'
        if r < 2 and g.p(.3):
            c['name'] = g.c(['', 'x', 'ULA 3'])
        n = {'ula': lambda: c['n'], 'mrla': lambda: c['n'], 'gridarr': lambda: c['idx']['sh'][0]}.get(c['op'], lambda: None)()
        if n and g.p(.4):
            c['pert'] = mixed_pert(g, n)
        hs.append({'id': 'd%d' % i, 'cmds': [c, {'op': 'aview', 'a': 'a'}]})
    # rings of any radius
    for i in range(times(tier, 6, 30, scale)):
        hs.append({'id': 'r%d' % i, 'cmds': [{'op': 'uca', 'n': g.i(1, 9), 'r': T(g.c([0.0, -1.0, 1e-3, 1e4, g.f(.1, 3)])), 'out': 'a'}, {'op': 'aview', 'a': 'a'}]})
    return hs


def deep_p02(seed, tier, scale):
    g = G(seed, 'D02')
    hs = []
    for i in range(times(tier, 40, 300, scale)):
        c, n, d = array_cmd(g, 'a0', small=True)
        if g.p(.6):
            c['pert'] = mixed_pert(g, n)
        cmds, arrs, ps = [c], ['a0'], []
        for s in range(g.i(3, 9)):
            r = g.r.random()
            if r < .5:
                out = 'a%d' % (s + 1)
                cc = {'op': 'pcopy', 'a': g.c(arrs), 'out': out, 'pert': mixed_pert(g, n) if g.p(.7) else pert_spec(g, n)}
                q = g.c(ps) if ps and cc['pert']['form'] == 'list' else None
                if q and g.p(.6):
                    cc['pert']['items'] = [x for x in cc['pert']['items'] if x['ty'] != q[1]] + [{'ref': q[0]}]
                if g.p(.4):
                    cc['name'] = g.c(['', 'n%d' % s])
                cmds.append(cc)
                arrs.append(out)
            elif r < .65:
                out = 'a%d' % (s + 1)
                cmds.append({'op': 'fcopy', 'a': g.c(arrs), 'out': out})
                if g.p(.5):
                    cmds[-1]['name'] = g.c(['', 'f%d' % s])
                arrs.append(out)
            elif r < .8:
                it = user_item(g, n)
                cmds.append(dict(it, op='mkpert', out='p%d' % s))
                ps.append(('p%d' % s, it['ty']))
            elif ps and r < .9:
                cmds.append({'op': 'appl', 'p': g.c(ps)[0], 'a': g.c(arrs)})
            else:
                cmds.append({'op': 'getloc', 'a': g.c(arrs), 'q': g.c(['loc', 'actual']), 'out': 'm%d' % s})
                cmds.append({'op': 'poke', 'x': 'm%d' % s})
        hs.append({'id': 'u%d' % i, 'cmds': cmds + [{'op': 'aview', 'a': x} for x in arrs]})
    # arrays are used between the reads: steering never changes one
    for i in range(times(tier, 24, 200, scale)):
        c, n, d = array_cmd(g, 'a0', small=True)
        c['pert'] = mixed_pert(g, n) if g.p(.5) else pert_spec(g, n)
        cmds, arrs = [c, {'op': 'ff1', 'v': vec([g.r.uniform(-1, 1) for _ in range(g.i(1, 3))]), 'unit': 'rad', 'out': 's'}], ['a0']
        for s in range(g.i(3, 6)):
            if g.p(.6):
                cmds.append({'op': 'steer', 'a': g.c(arrs), 's': 's', 'wl': T(g.c([1.0, .5])), 'which': g.c(['all', 'known', 'none'])})
                if g.p(.3):
                    cmds[-1]['deriv'] = True
            else:
                arrs.append('a%d' % (s + 1))
                cmds.append({'op': 'pcopy', 'a': g.c(arrs[:-1]), 'out': arrs[-1], 'pert': mixed_pert(g, n) if g.p(.5) else pert_spec(g, n)} if g.p(.7) else {'op': 'fcopy', 'a': g.c(arrs[:-1]), 'out': arrs[-1]})
        hs.append({'id': 'used%d' % i, 'cmds': cmds + [{'op': 'aview', 'a': x} for x in arrs]})
    return hs


def steer_some(g, deriv=False):
    out = []
    for w in g.r.sample(['all', 'known', 'none'], 2):
        c = {'op': 'steer', 'a': 'a', 's': 's', 'wl': wlen(g), 'which': w}
        if deriv:
            c['deriv'] = True
        out.append(c)
    return out


def deep_p04(seed, tier, scale):
    g = G(seed, 'D04')
    hs = []
    for i in range(times(tier, 30, 250, scale)):
        c, n, d = array_cmd(g, 'a', small=True, name=False)
        c['pert'] = mixed_pert(g, n)
        if g.p(.25):
            c['el'] = g.c(['card', 'nearr', 'vec2'])
            if c['el'] == 'vec2':
                c['pert']['items'] = [x for x in c['pert']['items'] if x['ty'] in ('loc', 'scale')]
        sc = src_cmd(g, 's')[0]
        hs.append({'id': 'u%d' % i, 'cmds': [c, sc] + steer_some(g)})
    # close to the poles
    for i in range(times(tier, 10, 80, scale)):
        n = g.i(2, 4)
        X = [[g.c([0.0, 1.0, 300.0, -2e3, g.f(-9, 9)]) for _ in range(3)] for _ in range(n)]
        rows = []
        for _ in range(g.i(1, 4)):
            e = g.c([0.0, 1e-4, 1e-6, 1e-8, 1e-10])
            rows.append([g.r.uniform(-3, 3), g.c([-1, 1]) * (math.pi / 2 - e)])
        hs.append({'id': 'pole%d' % i, 'cmds': [{'op': 'custom', 'name': 'c', 'loc': mat(X), 'out': 'a'}, {'op': 'ff2', 'v': mat(rows), 'unit': 'rad', 'out': 's'}, {'op': 'steer', 'a': 'a', 's': 's', 'wl': T(1.0)},
                                                {'op': 'pdm', 's': 's', 'loc': mat(X), 'wl': T(.5)}]})
    # array and sources far from the origin, close to each other
    for i in range(times(tier, 10, 80, scale)):
        n = g.i(2, 5)
        o = [g.c([0.0, 1e4, -3e5, 1e6]), g.c([0.0, 1e4, -3e5])]
        X = [[o[0] + g.r.uniform(-2, 2), o[1] + g.r.uniform(-2, 2)] for _ in range(n)]
        S = [[o[0] + g.r.uniform(-10, 10), o[1] + g.r.uniform(3, 10)] for _ in range(g.i(1, 4))]
        hs.append({'id': 'off%d' % i, 'cmds': [{'op': 'custom', 'name': 'c', 'loc': mat(X), 'out': 'a'}, {'op': 'nf2', 'v': mat(S), 'out': 's'}, {'op': 'steer', 'a': 'a', 's': 's', 'wl': T(g.c([1.0, .5]))}]})
    return hs


def deep_p05(seed, tier, scale):
    g = G(seed, 'D05')
    hs = []
    for i in range(times(tier, 24, 200, scale)):
        if g.p(.5):
            n = g.i(13, 20)
            c = g.c([{'op': 'ula', 'n': n, 'd0': T(.5), 'out': 'a'}, {'op': 'nested', 'n1': 7, 'n2': n - 7, 'd0': T(.5), 'out': 'a'}, {'op': 'uca', 'n': n, 'r': T(1.5), 'out': 'a'}])
            if g.p(.4):
                c['pert'] = mixed_pert(g, n, g.r.sample(['loc', 'gain', 'phase'], g.i(0, 2)))
        else:
            c, n, d = array_cmd(g, 'a', small=True, name=False)
            c['pert'] = mixed_pert(g, n)
        sc = src_cmd(g, 's', 'ff1', margin=.97)[0]
        hs.append({'id': 'u%d' % i, 'cmds': [c, sc] + steer_some(g, True)[:1]})
    # towards the ends of the range, where the sine is flat
    for i in range(times(tier, 16, 150, scale)):
        c, n, d = array_cmd(g, 'a', small=True, name=False)
        if g.p(.4):
            c['pert'] = mixed_pert(g, n)
        u = g.c(['sin', 'sin', 'rad', 'deg'])
        sc = {'op': 'ff1', 'v': vec([g.c([-1, 1]) * LIM['ff1', u][0] * (1 - 10**-g.r.uniform(1, 4.5)) for _ in range(g.i(1, 4))]), 'unit': u, 'out': 's'}
        hs.append({'id': 'end%d' % i, 'cmds': [c, sc] + steer_some(g, True)[:1]})
    return hs


def deep_p07(seed, tier, scale):
    g = G(seed, 'D07')
    hs = []
    # many points
    for i, sh in enumerate([(200, 200), (300, 120), (3, 11000), (256, 256)][:2 if tier == 'quick' else 4]):
        kind = g.c(['g2', 'gn'])
        u = g.c(['rad', 'deg'])
        lim = LIM[('ff2', u) if kind == 'g2' else ('nf2', 'm')]
        c = {'op': kind, 'start': tup(*[T(-L * .75) for L in lim]), 'stop': tup(*[T(L * .5) for L in lim]), 'size': tup(*[I(x) for x in sh]), 'out': 'g'}
        if kind == 'g2':
            c['unit'] = u
        hs.append({'id': 'wide%d' % i, 'cmds': [c, {'op': 'gref', 'g': 'g', 'coord': [sh[0] - 1, g.i(0, sh[1] - 1)], 'density': 3, 'span': 2}]})
    # descending axes, used more than once
    for i in range(times(tier, 20, 150, scale)):
        kind = g.c(['g1', 'g1', 'g2', 'gn'])
        u = {'g1': g.c(['rad', 'deg', 'sin']), 'g2': g.c(['rad', 'deg']), 'gn': 'm'}[kind]
        lim = LIM[{'g1': 'ff1', 'g2': 'ff2', 'gn': 'nf2'}[kind], u]
        axs, sh = [], []
        for L in lim:
            n = g.i(2, 6)
            ax = sorted((g.r.uniform(-.95, .95) * L for _ in range(n)), reverse=g.p(.8))
            if g.p(.2):
                g.r.shuffle(ax)
            axs.append(vec(ax))
            sh.append(n)
        c = {'op': kind, 'axes': tup(*axs), 'out': 'g'}
        if kind != 'gn':
            c['unit'] = u
        co = lambda: [g.i(0, x - 1) for x in sh]
        cmds = [c, {'op': 'gview', 'g': 'g'}]
        for q in range(2):
            cmds.append({'op': g.c(['gref', 'grefax']), 'g': 'g', 'coord': co(), 'density': g.i(1, 4), 'span': g.i(1, 3)})
            if cmds[-1]['op'] == 'gref':
                cmds[-1]['out'] = 'r%d' % q
                cmds.append({'op': 'gview', 'g': 'r%d' % q})
        hs.append({'id': 'down%d' % i, 'cmds': cmds + [{'op': 'gview', 'g': 'g'}]})
    return hs


def scaled_cov(g, out, m, k):
    e = g.c([1e8, 1e10, 1e-8, 1e-14, 1e-15, 1e-15, 1e-16, 1e4])
    l = [x * e for x in sorted(g.r.uniform(.4, 1.2) for _ in range(m - k))] + [x * e for x in sorted(g.r.uniform(2, 20) for _ in range(k))]
    return {'op': 'mkcov', 'out': out, 'l': vec(l), 'seed': g.i(0, 10**6), 'real': False}


def deep_p08(seed, tier, scale):
    g = G(seed, 'D08')
    hs = []
    # sources of almost the same power: the better one wins
    for i in range(times(tier, 16, 120, scale)):
        m = g.i(5, 9)
        half = g.i(6, 14)
        j = g.i(2, half - 2)
        xs = [q / (half + 1) for q in range(-half, half + 1)]
        x = xs[half + j]
        e = g.c([1e-8, 1e-9, 1e-10, 1e-7]) * g.c([-1, 1])
        kind = g.c(['bartlett', 'bartlett', 'mvdr'])
        hs.append({'id': 'near%d' % i, 'cmds': [{'op': 'ula', 'n': m, 'd0': T(.5), 'out': 'a'}, {'op': 'g1', 'axes': tup(vec(xs)), 'unit': 'sin', 'out': 'g'},
                   {'op': 'ff1', 'v': vec([-x, x]), 'unit': 'sin', 'out': 's'},
                   {'op': 'idealcov', 'a': 'a', 's': 's', 'wl': T(1.0), 'p': vec([2.0, 2.0 * (1 + e)]), 'sg': T(.5), 'out': 'R'},
                   mk(g, kind, 'e', 'a', 'g', T(1.0), 'default')] + [{'op': 'est', 'e': 'e', 'R': ref('R'), 'n': n, 'spec': True} for n in (1, 2)]})
    # spectra of any magnitude, in one and two dimensions
    for i in range(times(tier, 20, 150, scale)):
        ca, m = est_array(g, 'a', mn=3, mx=5)
        cg, kk, u, sh = wide_grid(g, 'g', g.c(['g1', 'g2', 'g2', 'gn']), hi=20)
        k = g.i(1, m - 1)
        kind = g.c(['bartlett', 'mvdr', 'bartlett', 'music'])
        cmds = [ca, cg, scaled_cov(g, 'R', m, k), mk(g, kind, 'e', 'a', 'g', wlen(g), 'default')]
        for n in ([k] if kind == 'music' else g.r.sample([1, 2, 3], 2)):
            cmds.append({'op': 'est', 'e': 'e', 'R': ref('R'), 'n': n, 'spec': True})
        hs.append({'id': 'mag%d' % i, 'cmds': cmds})
    # long thin grids: maxima on and next to every border
    for i in range(times(tier, 14, 120, scale)):
        ca, m = est_array(g, 'a', mn=3, mx=6)
        n0, n1 = g.c([(g.i(31, 60), g.i(2, 5)), (g.i(2, 5), g.i(31, 60)), (g.i(31, 40), g.i(2, 6))])
        if g.p(.5):
            lo = g.c([0.0, .2, -.4, -1.5])
            cg = {'op': 'g2', 'axes': tup(vec([lo + (q + .5) * g.c([.9]) / n0 for q in range(n0)]), vec([.1 + q * 1.2 / n1 for q in range(n1)])), 'unit': 'rad', 'out': 'g'}
        else:
            cg = {'op': 'gn', 'axes': tup(vec([-3 + q * 5.0 / n0 for q in range(n0)]), vec([1 + q * 4.0 / n1 for q in range(n1)])), 'out': 'g'}
        k = g.i(1, m - 1)
        kind = g.c(['bartlett', 'mvdr', 'bartlett', 'music'])
        cmds = [ca, cg, cov_cmd(g, 'R', m, k, real=False), mk(g, kind, 'e', 'a', 'g', wlen(g), 'default')]
        for n in ([k] if kind == 'music' else g.r.sample([1, 2, 3, 4], 2)):
            cmds.append({'op': 'est', 'e': 'e', 'R': ref('R'), 'n': n, 'spec': True})
        hs.append({'id': 'thin%d' % i, 'cmds': cmds})
    return hs


def deep_p09(seed, tier, scale):
    g = G(seed, 'D09')
    hs = []
    # the same grid, with axes in any order, used by several estimators again and again
    for i in range(times(tier, 14, 120, scale)):
        m = g.i(3, 5)
        kind = g.c(['g1', 'g1', 'gn'])
        if kind == 'g1':
            ax = sorted((g.r.uniform(-.95, .95) for _ in range(g.i(8, 16))), reverse=True)
            cg = {'op': 'g1', 'axes': tup(vec(ax)), 'unit': 'sin', 'out': 'g'}
        else:
            cg = {'op': 'gn', 'axes': tup(vec(sorted((g.r.uniform(-5, 5) for _ in range(5)), reverse=True)), vec(sorted(g.r.uniform(1, 9) for _ in range(5)))), 'out': 'g'}
        cmds = [{'op': 'ula', 'n': m, 'd0': T(.5), 'out': 'a'}, cg]
        for s in range(2):
            cmds.append(mk(g, g.c(EST), 'e%d' % s, 'a', 'g', T(1.0), g.c(['default', 'max1', 'even'])))
            cmds.append(cov_cmd(g, 'R%d' % s, m, 1, real=False))
        for q in range(g.i(4, 6)):
            c = {'op': 'est', 'e': 'e%d' % g.i(0, 1), 'R': ref('R%d' % g.i(0, 1)), 'n': 1, 'spec': True}
            if g.p(.3):
                c.update(refine=True, density=g.i(2, 3), iters=1)
            cmds.append(c)
            if g.p(.4):
                cmds.append({'op': 'gview', 'g': 'g'})
        hs.append({'id': 'down%d' % i, 'cmds': cmds + [{'op': 'gview', 'g': 'g'}]})
    # the array is changed into another one (a copy) between calls: estimators keep theirs
    for i in range(times(tier, 12, 100, scale)):
        n = g.i(3, 5)
        cmds = [{'op': 'ula', 'n': n, 'd0': T(.5), 'out': 'a', 'pert': mixed_pert(g, n)}, {'op': 'g1', 'size': I(g.i(8, 16)), 'unit': 'sin', 'out': 'g'}]
        cmds += [mk(g, g.c(EST), 'e0', 'a', 'g', T(1.0), 'default'), {'op': 'pcopy', 'a': 'a', 'out': 'b', 'pert': mixed_pert(g, n)}, mk(g, g.c(EST), 'e1', 'b', 'g', T(1.0), 'default'),
                 cov_cmd(g, 'R', n, 1, real=False)]
        for q in range(4):
            cmds.append({'op': 'est', 'e': 'e%d' % g.i(0, 1), 'R': ref('R'), 'n': 1, 'spec': True})
        hs.append({'id': 'pc%d' % i, 'cmds': cmds + [{'op': 'aview', 'a': 'a'}, {'op': 'aview', 'a': 'b'}]})
    return hs


def deep_p10(seed, tier, scale):
    g = G(seed, 'D10')
    hs = []
    for i in range(times(tier, 24, 200, scale)):
        n = g.i(2, 5)
        if g.p(.5):
            ca, n = est_array(g, 'a', mn=2, mx=5, pert=False)
            ca['pert'] = mixed_pert(g, n)
        else:
            ca = g.c([{'op': 'ula', 'n': n, 'd0': T(.5)}, {'op': 'uca', 'n': n, 'r': T(.5)}])
            ca = dict(ca, out='a')
        cg, kk, u, sh = wide_grid(g, 'g', lo=1, hi=14)
        k = g.i(1, n - 1)
        cmds = [ca, cg, scaled_cov(g, 'R', n, k)]
        for s, kind in enumerate(g.r.sample(EST, 2)):
            cmds += [mk(g, kind, 'e%d' % s, 'a', 'g', wlen(g), 'default'), {'op': 'est', 'e': 'e%d' % s, 'R': ref('R'), 'n': k, 'spec': True}]
        hs.append({'id': 'u%d' % i, 'cmds': cmds})
    # grids of many points
    for i in range(times(tier, 3, 20, scale)):
        m = g.i(2, 3)
        cg = {'op': 'g1', 'size': I(g.i(520, 1100)), 'unit': g.c(['rad', 'deg', 'sin']), 'out': 'g'} if g.p(.6) else {'op': 'g2', 'size': tup(I(g.i(23, 30)), I(g.i(23, 30))), 'out': 'g'}
        kind = g.c(EST)
        hs.append({'id': 'long%d' % i, 'cmds': [{'op': 'ula', 'n': m, 'd0': T(.5), 'out': 'a'}, cg, cov_cmd(g, 'R', m, 1, real=False),
                   mk(g, kind, 'e', 'a', 'g', T(1.0), 'default'), {'op': 'est', 'e': 'e', 'R': ref('R'), 'n': 1, 'spec': True}]})
    # Hermitian matrices with eigenvalues below zero: the noise subspace belongs to the smallest ones
    for i in range(times(tier, 14, 120, scale)):
        n = g.i(2, 6)
        k = g.i(1, n - 1)
        l = sorted([g.r.uniform(-9, .2) for _ in range(n - k)]) + sorted(g.r.uniform(1, 4) for _ in range(k))
        cg, kk, u, sh = wide_grid(g, 'g', lo=1, hi=12)
        cmds = [{'op': 'ula', 'n': n, 'd0': T(.5), 'out': 'a'}, cg, {'op': 'mkcov', 'out': 'R', 'l': vec(l), 'seed': g.i(0, 10**6), 'real': g.p(.3)}]
        for kind in ('music', 'minnorm'):
            cmds += [mk(g, kind, kind, 'a', 'g', wlen(g), 'default'), {'op': 'est', 'e': kind, 'R': ref('R'), 'n': k, 'spec': True}]
        hs.append({'id': 'below%d' % i, 'cmds': cmds})
    return hs


def deep_p11(seed, tier, scale):
    g = G(seed, 'D11')
    hs = []
    # real covariances: pairs of mirrored sources of equal power, or arbitrary ones
    for i in range(times(tier, 14, 120, scale)):
        kind = g.c(['rootmusic', 'esprit', 'esprit'])
        m = g.i(4, 12)
        np_ = g.i(1, 2 if m > 6 else 1)
        xs = [.15 + .35 * g.r.random(), .62 + .3 * g.r.random()][:np_]
        u = g.c(['rad', 'deg', 'sin'])
        e = {'op': 'est', 'e': 'e', 'R': ref('R'), 'n': 2 * np_, 'unit': u, 'd0': T(.5)}
        if kind == 'esprit':
            e.update(form=g.c(['ls', 'tls']), rw=g.c([S('none'), S('default')]))
        p = [g.r.uniform(.5, 4) for _ in range(np_)]
        hs.append({'id': 'pair%d' % i, 'cmds': [{'op': 'ula', 'n': m, 'd0': T(.5), 'out': 'a'}, {'op': 'ff1', 'v': vec([-x for x in xs] + xs), 'unit': 'sin', 'out': 's'},
                   {'op': 'idealcov', 'a': 'a', 's': 's', 'wl': T(1.0), 'p': vec(p + p), 'sg': T(g.c([.1, 1.0])), 'out': 'R', 'real': True},
                   {'op': 'mkest', 'k': kind, 'wl': T(1.0), 'out': 'e'}, e]})
    for i in range(times(tier, 24, 200, scale)):
        m = g.i(3, 15)
        disp = g.c([1, 1, 2]) if m > 3 else 1
        k = g.i(1, min(m - disp, 5))
        e = {'op': 'est', 'e': 'e', 'R': ref('R'), 'n': k, 'unit': g.c(['rad', 'deg', 'sin']), 'disp': disp, 'form': g.c(['ls', 'tls'])}
        if g.p(.7):
            e['rw'] = g.c([S('none'), S('default'), S('default'), vec([g.c([-1, 1]) * g.r.uniform(.3, 3) for _ in range(m - disp)])])
        hs.append({'id': 'any%d' % i, 'cmds': [cov_cmd(g, 'R', m, k, real=g.p(.5)), {'op': 'mkest', 'k': 'esprit', 'wl': T(1.0), 'out': 'e'}, e]})
    for i in range(times(tier, 8, 60, scale)):
        m = g.i(8, 14)
        k = g.i(1, m - 1)
        hs.append({'id': 'root%d' % i, 'cmds': [cov_cmd(g, 'R', m, k, real=False), {'op': 'mkest', 'k': 'rootmusic', 'wl': T(1.0), 'out': 'e'},
                   {'op': 'est', 'e': 'e', 'R': ref('R'), 'n': k, 'unit': g.c(['rad', 'deg', 'sin']), 'd0': T(.5)}]})
    return hs


def deep_p13(seed, tier, scale):
    g = G(seed, 'D13')
    hs = []
    for i in range(times(tier, 24, 200, scale)):
        ca, m = coarray_array(g, 'a')
        cmds = [ca, {'op': 'mkacm', 'a': 'a', 'out': 'b'}, {'op': 'val', 'out': 'R', 'v': anymat(g, m)} if g.p(.5) else cov_cmd(g, 'R', m, g.i(0, m), real=g.p(.5))]
        for q in range(g.i(2, 4)):
            c = {'op': 'acm', 'b': 'b', 'R': ref('R'), 'call': g.p(.7)}
            me = g.c(['ss', 'da', 'SS', 'Da', 'DA', ' ss', 'dass', None])
            if me:
                c['method'] = me
            if me in ('ss', 'da', None):
                c['out'] = 'o%d' % q
            cmds.append(c)
        hs.append({'id': 'm%d' % i, 'cmds': cmds + [{'op': 'acmview', 'b': 'b'}]})
    return hs


def deep_p14(seed, tier, scale):
    g = G(seed, 'D14')
    hs = []
    # singular values over many magnitudes
    for i in range(times(tier, 24, 200, scale)):
        m, n = g.i(2, 8), g.i(2, 12)
        q = min(m, n)
        r = g.i(1, q)
        e = [10.0**-g.c([0, 0, 1, 3, 5, 7, 8, 9, 11, 20]) for _ in range(r)]
        real = g.p(.4)
        X = lambda: complex(g.r.gauss(0, 1), 0 if real else g.r.gauss(0, 1))
        Y = [[0j] * n for _ in range(m)]
        for s in range(r):
            u, v = [X() for _ in range(m)], [X() for _ in range(n)]
            for a in range(m):
                for b in range(n):
                    Y[a][b] += e[s] * u[a] * v[b]
        Y = [[z.real for z in row] for row in Y] if real else Y
        cmds = [{'op': 'val', 'out': 'Y', 'v': mat(Y, 'f' if real else 'c')}]
        for t in range(2):
            cmds.append({'op': 'l1svd', 'y': ref('Y'), 'k': g.i(1, q), 'out': 'y%d' % t})
        hs.append({'id': 'sv%d' % i, 'cmds': cmds})
    return hs


def aic_of(l, n, f):
    m = len(l)
    out = []
    for i in range(m):
        d = m - i
        t = l[:d]
        ld = n * d * (math.log(sum(t) / d) - sum(map(math.log, t)) / d)
        out.append(ld + (i * (2 * m - i) if f == 'aic' else .5 * (i * (2 * m - i) + 1) * math.log(n)))
    return out


def deep_p15(seed, tier, scale):
    g = G(seed, 'D15')
    hs = []
    # two orders of almost the same value: one signal eigenvalue tuned to the border
    for i in range(times(tier, 40, 300, scale)):
        m, n, f = g.i(3, 12), g.c([20, 100, 1000]), g.c(['aic', 'mdl'])
        k = g.i(1, min(3, m - 2))
        base = sorted(g.r.uniform(.97, 1.03) for _ in range(m - k))
        hi = sorted(g.r.uniform(20, 90) for _ in range(k - 1))
        diff = lambda x: (lambda v: v[k] - v[k - 1])(aic_of(base + [x] + hi, n, f))
        a, b = base[-1], 19.0
        if diff(a) <= 0 or diff(b) >= 0:
            continue
        for _ in range(60):
            c = (a + b) / 2
            a, b = (c, b) if diff(c) > 0 else (a, c)
        v = aic_of(base + [b] + hi, n, f)
        # close to the border: a relative difference of the criteria of 1e-9 .. 1e-7
        slope = abs(diff(b * 1.001) - diff(b)) / (b * .001)
        x = b + g.c([-1, 1]) * g.c([1e-8, 3e-8, 1e-7, 1e-6]) * abs(v[k]) / slope
        l = vec(base + [x] + hi)
        hs.append({'id': 'tie%d' % i, 'cmds': [{'op': 'val', 'out': 'l', 'v': l}, {'op': 'srcnum', 'f': f, 'x': ref('l'), 'n': n}]})
    # almost equally spaced eigenvalues, exactly equally spaced up to rounding, with a tail of them, below zero
    for i in range(times(tier, 60, 500, scale)):
        m = g.i(5, 12)
        r = g.i(0, 3)
        if r == 0:
            e = g.c([1e-7, 1e-7, 3e-8, 1e-6])
            l = [1.0]
            for _ in range(m - 1):
                l.append(l[-1] + 1 + e * g.r.uniform(-1, 1))
            sc = g.c([1.0, 1e-3, 1e5])
            l = [x * sc for x in l]
        elif r == 1:
            st = g.c([.1, .3, 1e-5, 7.7, 1e9])
            o = g.i(0, 6)
            l = [st * (j + o) for j in range(m)]
            if g.p(.5):
                l[-1] += st * g.i(1, 9)
        elif r == 2:
            st = g.c([.1, 1.0, .25, 3e-4])
            t = g.i(3, m - 2)
            l = [st * (j + 1) for j in range(t)]
            for _ in range(m - t):
                l.append(l[-1] + st * g.r.uniform(0, 9))
        else:
            l = sorted(g.r.uniform(-9, 3) for _ in range(m))
        cmds = [{'op': 'val', 'out': 'l', 'v': vec(l)}, {'op': 'srcnum', 'f': 'sorte', 'x': ref('l'), 'n': 1}]
        if r == 3:
            cmds += [{'op': 'mkcov', 'out': 'R', 'l': vec(l), 'seed': g.i(0, 10**6), 'real': g.p(.3)}, {'op': 'srcnum', 'f': 'sorte', 'x': ref('R'), 'n': 1}]
        hs.append({'id': 'eq%d' % i, 'cmds': cmds})
    # eigenvalues over many orders of magnitude
    for i in range(times(tier, 40, 300, scale)):
        m = g.i(4, 9)
        l = sorted(10 ** g.r.uniform(*g.c([(-9, 9), (-3, 14), (-20, 1)])) for _ in range(m - 3))
        a = l[0] * 10 ** -g.c([0, 4, 8])
        l = [a * g.r.uniform(.5, .9) for _ in range(3)] + l
        l.sort()
        hs.append({'id': 'steep%d' % i, 'cmds': [{'op': 'val', 'out': 'l', 'v': vec(l)}] + [{'op': 'srcnum', 'f': f, 'x': ref('l'), 'n': g.c([1, 10, 1000])} for f in ('aic', 'mdl', 'sorte')]})
    return hs


def deep_p16(seed, tier, scale):
    g = G(seed, 'D16')
    hs = []
    # generators of more dimensions, with amplitudes of any sign or phase
    for i in range(times(tier, 12, 80, scale)):
        d = g.i(5, 9)
        r = i % 4
        if r == 0:
            c = {'op': 'mksig', 'k': 'cn', 'dim': d, 'out': 'x', 'par': vec([g.r.uniform(.2, 9) for _ in range(d)])}
        elif r == 1:
            c = {'op': 'mksig', 'k': 'rp', 'dim': d, 'out': 'x', 'par': vec([g.c([-1, 1]) * g.r.uniform(.2, 9) for _ in range(d)])}
        elif r == 2:
            c = {'op': 'mksig', 'k': 'rp', 'dim': d, 'out': 'x', 'par': T(-g.r.uniform(.2, 5)) if g.p(.5) else {'t': 'num', 'v': '%r,%r' % (g.r.uniform(-3, 3), g.r.uniform(.2, 3))}}
        else:
            c = {'op': 'mksig', 'k': 'rp', 'dim': d, 'out': 'x', 'par': vec([complex(g.r.uniform(-3, 3), g.r.uniform(.2, 3)) for _ in range(d)], 'c')}
        hs.append({'id': 'gen%d' % i, 'cmds': [c, {'op': 'emitstat', 'g': 'x', 'n': 40000}, {'op': 'emit', 'g': 'x', 'n': 3}]})
    # one generator for signals and noise
    for i in range(times(tier, 16, 120, scale)):
        m = g.i(2, 5)
        kind = g.c(['rec', 'rec', 'cn', 'fix'])
        c = {'op': 'mksig', 'k': kind, 'dim': m, 'out': 'x'}
        if kind == 'rec':
            c.update(seed=g.i(0, 10**6), real=g.p(.3), buf=g.p(.4))
        elif kind == 'fix':
            c.update(par=anymat(g, m, g.i(2, 9)), buf=False)
        elif g.p(.5):
            c['par'] = vec([g.r.uniform(.2, 9) for _ in range(m)])
        cmds = [{'op': 'ula', 'n': m, 'd0': T(.5), 'out': 'a'}, {'op': 'ff1', 'v': vec([g.r.uniform(-1.5, 1.5) for _ in range(m)]), 'out': 's'}, c]
        for q in range(g.i(1, 3)):
            b = {'op': 'snap', 'a': 'a', 's': 's', 'wl': wlen(g), 'src': 'x', 'n': g.i(1, 6), 'out': 'y%d' % q}
            if g.p(.8):
                b['noise'] = 'x'
            if g.p(.5):
                b['cov'] = True
            cmds.append(b)
        hs.append({'id': 'both%d' % i, 'cmds': cmds})
    return hs


def deep_p12(seed, tier, scale):
    g = G(seed, 'D12')
    hs = []
    # spectra below zero, of any magnitude; axes of any order
    for i in range(times(tier, 24, 200, scale)):
        ca, m = est_array(g, 'a', mn=3, mx=5)
        cg, kk, u, sh = wide_grid(g, 'g', g.c(['g1', 'g1', 'g2', 'gn']), hi=14)
        kind = 'bartlett' if g.p(.6) else 'mvdr'
        cov = indef_cov(g, 'R', m) if g.p(.5) and kind == 'bartlett' else scaled_cov(g, 'R', m, 1)
        cmds = [ca, cg, cov, mk(g, kind, 'e', 'a', 'g', wlen(g), g.c(['default', 'max1', 'even', 'rev']))]
        for q in range(2):
            cmds.append({'op': 'est', 'e': 'e', 'R': ref('R'), 'n': g.i(1, 2), 'refine': True, 'density': g.i(2, 4), 'iters': g.i(1, 7 if len(sh) == 1 else 3)})
        hs.append({'id': 'neg%d' % i, 'cmds': cmds + [{'op': 'gview', 'g': 'g'}]})
    for i in range(times(tier, 12, 100, scale)):
        n = g.i(3, 6)
        ax = sorted((g.r.uniform(-.95, .95) for _ in range(g.i(8, 16))), reverse=True)
        cmds = [{'op': 'ula', 'n': n, 'd0': T(.5), 'out': 'a'}, {'op': 'g1', 'axes': tup(vec(ax)), 'unit': 'sin', 'out': 'g'}, cov_cmd(g, 'R', n, 1, real=False),
                mk(g, g.c(EST), 'e', 'a', 'g', T(1.0), g.c(['default', 'max1'])), {'op': 'est', 'e': 'e', 'R': ref('R'), 'n': 1, 'refine': True, 'density': g.i(2, 5), 'iters': g.i(1, 4)}]
        hs.append({'id': 'down%d' % i, 'cmds': cmds})
    return hs


def deep_p19(seed, tier, scale):
    g = G(seed, 'D19')
    hs = []
    # a source close to the end of the array
    for i in range(times(tier, 6, 60, scale)):
        m = g.i(5, 8)
        x = g.c([-1, 1]) * g.r.uniform(.985, .997)
        xs = [x] + ([g.r.uniform(-.3, .3)] if g.p(.5) else [])
        cmds = [{'op': 'ula', 'n': m, 'd0': T(.4), 'out': 'a'}, {'op': 'ff1', 'v': vec(xs), 'unit': 'sin', 'out': 's'},
                {'op': 'idealcov', 'a': 'a', 's': 's', 'wl': T(1), 'p': vec([g.r.uniform(1, 4) for _ in xs]), 'sg': T(g.c([.1, .3])), 'out': 'R'},
                {'op': 'mkml', 'k': EML[i % 3], 'a': 'a', 'wl': T(1), 'out': 'e'}]
        n = 4
        for j in range(n):
            cmds.append({'op': 'ff1', 'v': vec([math.copysign(g.r.uniform(.95, .979), x)] + [y + g.r.uniform(-.02, .02) for y in xs[1:]]), 'unit': 'sin', 'out': 'z%d' % j})
        for j in range(n):
            cmds.append({'op': 'mlest', 'e': 'e', 'R': ref('R'), 's0': 'z%d' % j, 'out': 'o%d' % j})
        hs.append({'id': 'end%d' % i, 'cmds': cmds + [{'op': 'mlany', 'os': ['o%d' % j for j in range(n)]}]})
    # one estimator, sources in every unit and of every kind in turn
    for i in range(times(tier, 8, 80, scale)):
        m = g.i(4, 6)
        cmds = [{'op': 'ula', 'n': m, 'd0': T(.5), 'out': 'a'} if g.p(.5) else {'op': 'uca', 'n': m, 'r': T(.6), 'out': 'a'}, {'op': 'mkml', 'k': EML[i % 3], 'a': 'a', 'wl': T(1), 'out': 'e'}, cov_cmd(g, 'R', m, 2, real=False)]
        for j in range(5):
            cmds.append(src_cmd(g, 'z%d' % j, g.c(['ff1', 'ff2', 'nf2']), n=g.i(1, 2), margin=.8)[0])
            cmds.append({'op': 'mlest', 'e': 'e', 'R': ref('R'), 's0': 'z%d' % j, 'out': 'o%d' % j})
            if g.p(.4):
                cmds[-1]['maxiter'] = g.i(1, 4)
            if g.p(.4):
                cmds.append({'op': 'rpoke', 'x': 'o%d' % j})
            cmds.append({'op': 'mllast', 'e': 'e', 'out': 'l%d' % j})
        hs.append({'id': 'mix%d' % i, 'cmds': cmds})
    return hs


def deep_p20(seed, tier, scale):
    g = G(seed, 'D20')
    hs = []
    # many columns; columns and rows of different kinds
    for i in range(times(tier, 8, 80, scale)):
        m, n, q, cx = g.i(2, 5), g.i(2, 6), g.i(4, 9), g.p(.6)
        cmds = [{'op': 'mkprob', 'k': 'l21', 'm': m, 'n': n, 'q': q, 'cx': cx, 'out': 'p'}]
        for s in range(3):
            A, b = rnd(g, m, n, cx), rnd(g, m, q, cx)
            cmds.append({'op': 'solve', 'p': 'p', 'A': A, 'b': b, 'l': T(lval(g, 'penalizedl1', math.sqrt(m * q))), 'solver': 'CLARABEL', 'out': 'x%d' % s})
        hs.append({'id': 'col%d' % i, 'cmds': cmds})
    # a known noise variance of zero, and sigma given or missing in turn
    for i in range(times(tier, 8, 80, scale)):
        ca, m = est_array(g, 'a', mn=2, mx=4)
        cg, kk, u, sh = wide_grid(g, 'g', g.c(['g1', 'g1', 'g2', 'gn']), lo=4, hi=10)
        form = g.c(FORMS)
        cmds = [ca, cg, {'op': 'mksparse', 'k': 'scm', 'a': 'a', 'g': 'g', 'wl': wlen(g), 'out': 'e', 'form': form, 'known': True}]
        for s in range(3):
            cmds.append(cov_cmd(g, 'R%d' % s, m, g.i(1, m - 1)))
            c = {'op': 'spest', 'e': 'e', 'R': ref('R%d' % s), 'n': g.i(1, 2), 'l': T(g.r.uniform(.2, 12) if form == 'constrainedl1' else lval(g, form, 8.0)), 'solver': 'CLARABEL', 'spec': True, 'out': 'o%d' % s}
            q = g.c([0.0, 0.0, g.r.uniform(.2, 1), None])
            if q is not None:
                c['sigma'] = T(q)
            cmds.append(c)
        hs.append({'id': 'nil%d' % i, 'cmds': cmds})
    return hs


def deep_p22(seed, tier, scale):
    g = G(seed, 'D22')
    hs = []
    # axes that run downwards
    for i in range(times(tier, 20, 150, scale)):
        two = g.p(.7)
        kind = g.c(['g2', 'gn']) if two else 'g1'
        u = {'g1': g.c(['rad', 'deg', 'sin']), 'g2': g.c(['rad', 'deg']), 'gn': 'm'}[kind]
        kk = {'g1': 'ff1', 'g2': 'ff2', 'gn': 'nf2'}[kind]
        axs, sh = [], []
        for L in LIM[kk, u]:
            n = g.i(2, 6)
            axs.append(vec(sorted((g.r.uniform(-.95, .95) * L for _ in range(n)), reverse=g.p(.6))))
            sh.append(n)
        cg = {'op': kind, 'axes': tup(*axs), 'out': 'g'}
        if kind != 'gn':
            cg['unit'] = u
        cmds = [{'op': 'mkfig', 'dims': [2, 2], 'out': 'f'}, cg]
        for s in range(2):
            e = lambda: g.r.uniform(.01, 30)
            cmds.append({'op': 'val', 'out': 's%d' % s, 'v': vec([e() for _ in range(sh[0])]) if not two else mat([[e() for _ in range(sh[1])] for _ in range(sh[0])])})
            c = {'op': 'pltsp', 'g': 'g', 'form': 'single', 'sp': [ref('s%d' % s)], 'f': 'f', 'i': s}
            if two:
                c['swap'] = g.p(.5)
            elif g.p(.5):
                c['discrete'] = True
            if g.p(.4):
                c['log'] = True
            for f in ('est', 'truth'):
                if g.p(.5):
                    cs = src_cmd(g, '%s%d' % (f, s), kk, u, g.i(1, 3))[0]
                    cmds.append(cs)
                    c[f] = cs['out']
            cmds.append(c)
        hs.append({'id': 'down%d' % i, 'cmds': cmds + [{'op': 'gview', 'g': 'g'}, {'op': 'pltclose', 'f': 'f'}]})
    return hs
