"""Histories about estimators (P08 - P12)."""
import math
from gens import G, T, I, S, ref, vec, mat, array_cmd, pert_spec
from gens_src import grid_cmd, LIM, tup


def eigs(g, m, k, dup=False):
    """eigenvalues with a clear gap above the m-k smallest"""
    lo = sorted(g.r.uniform(.4, 1.2) for _ in range(m - k))
    hi = sorted(g.r.uniform(2, 20) for _ in range(k))
    return lo + hi


def cov_cmd(g, out, m, k, real=None):
    return {'op': 'mkcov', 'out': out, 'l': vec(eigs(g, m, k)), 'seed': g.i(0, 10**6), 'real': g.p(.15) if real is None else real}


def hard_cov(g, out, m, k):
    """strong sources in weak noise (large condition number), or data in small or large physical units"""
    lo, hi, sc = g.c([(1e-6, 1e3, 1.0), (1e-5, 1e5, 1.0), (1e-3, 1e4, 1.0), (1.0, 1.0, 1e-12), (1.0, 1.0, 1e12), (1e-4, 1e2, 1e-9)])
    l = [x * lo * sc for x in sorted(g.r.uniform(.4, 1.2) for _ in range(m - k))] + [x * hi * sc for x in sorted(g.r.uniform(2, 20) for _ in range(k))]
    return {'op': 'mkcov', 'out': out, 'l': vec(l), 'seed': g.i(0, 10**6), 'real': g.p(.15)}


def est_array(g, out, mn=2, mx=7, pert=True):
    """an isotropic array of mn..mx elements"""
    while True:
        c, n, d = array_cmd(g, out, small=True, name=False)
        if mn <= n <= mx:
            break
    if pert and g.p(.5):
        c['pert'] = pert_spec(g, n)
    return c, n


def wide_grid(g, out, kind=None, lo=8, hi=40):
    """a grid with enough points for peaks"""
    while True:
        c, k, u, sh = grid_cmd(g, out, kind, small=False, maxn=hi)
        q = 1
        for x in sh:
            q *= x
        if q >= lo and (len(sh) == 1 or min(sh) > 1):
            return c, k, u, sh


EST = ['bartlett', 'mvdr', 'music', 'minnorm']


def mk(g, kind, out, a, grid, wl, finder=None, cache=None):
    c = {'op': 'mkest', 'k': kind, 'a': a, 'g': grid, 'wl': wl, 'out': out}
    if finder is None:
        finder = g.c(['default'] * 5 + ['rev', 'even', 'none', 'max1'])
    if finder != 'default':
        c['finder'] = finder
    if cache is None and g.p(.5):
        cache = g.p(.5)
    if cache is not None:
        c['cache'] = cache
    return c


def wlen(g):
    return T(g.c([1.0, 0.5, 2.0, 0.3]))


def gen_p08(seed, tier, scale):
    g = G(seed, 'P08')
    hs = []
    for i in range(int((170 if tier == 'quick' else 1500) * scale)):
        ca, m = est_array(g, 'a', mn=3)
        cg, kk, u, sh = wide_grid(g, 'g')
        wl = wlen(g)
        cmds = [ca, cg]
        live = []
        for s in range(g.i(1, 3)):
            kind = g.c(EST)
            fd = g.c(['default', 'default', 'default', 'rev', 'even', 'none', 'max1'])
            cmds.append(mk(g, kind, 'e%d' % s, 'a', 'g', wl, fd))
            live.append((kind, 'e%d' % s))
        k = g.i(1, m - 1)
        cmds.append(cov_cmd(g, 'R', m, k))
        for s, (kind, e) in enumerate(live):
            for q in range(g.i(1, 2)):
                n = k if kind in ('music', 'minnorm') else g.i(1, 6)
                c = {'op': 'est', 'e': e, 'R': ref('R'), 'n': n, 'out': 'o%d%d' % (s, q)}
                if g.p(.6):
                    c['spec'] = g.p(.8)
                cmds.append(c)
                if g.p(.4):
                    cmds.append({'op': 'rpoke', 'x': c['out']})
        cmds += [{'op': 'gview', 'g': 'g'}]
        hs.append({'id': 'r%d' % i, 'cmds': cmds})
    # the peak rule on its own: plateaus, ties, borders
    import itertools
    n = 0
    for L in range(0, 7 if tier == 'quick' else 9):
        for xs in itertools.product([0, 1, 2], repeat=L):
            if L > 4 and not g.p(.12 if tier == 'quick' else .3):
                continue
            n += 1
            hs.append({'id': 'pk%d' % n, 'cmds': [{'op': 'val', 'out': 'x', 'v': vec([float(x) for x in xs])}, {'op': 'peaks', 'x': ref('x')}]})
    for i in range(int((150 if tier == 'quick' else 1000) * scale)):
        a, b = g.i(1, 6), g.i(1, 6)
        top = g.c([1, 2, 5, 40])
        x = mat([[float(g.i(0, top)) for _ in range(b)] for _ in range(a)])
        hs.append({'id': 'pk2-%d' % i, 'cmds': [{'op': 'val', 'out': 'x', 'v': x}, {'op': 'peaks', 'x': ref('x')}]})
        m = g.i(1, 30)
        x = vec([float(g.i(0, top)) for _ in range(m)])
        hs.append({'id': 'pk1-%d' % i, 'cmds': [{'op': 'val', 'out': 'x', 'v': x}, {'op': 'peaks', 'x': ref('x')}]})
    return hs


def bad_cov(g, m):
    r = g.i(0, 6)
    if r == 5 and m > 1:
        return mat([[1.0] * m])
    if r == 6 and m > 1:
        return mat([[1.0]] * m)
    if r == 0:
        return vec([1.0] * m)
    if r == 1:
        return mat([[1.0 if i == j else 0.0 for j in range(m + 1)] for i in range(m + 1)])
    if r == 2:
        return mat([[1.0] * m for _ in range(m - 1)]) if m > 1 else mat([[1.0, 1.0]])
    if r == 3:
        return mat([[1.0] * (m + 1) for _ in range(m)])
    return {'t': 'arr', 'sh': [m, m, 1], 'dt': 'f', 'v': ['1.0'] * (m * m)}


def gen_p09(seed, tier, scale):
    g = G(seed, 'P09')
    hs = []
    for i in range(int((130 if tier == 'quick' else 1100) * scale)):
        ca, m = est_array(g, 'a0', mn=3, mx=6)
        cmds = [ca]
        arrs = ['a0']
        if g.p(.4):
            cmds.append({'op': 'pcopy', 'a': 'a0', 'out': 'a1', 'pert': pert_spec(g, m, g.r.sample(['loc', 'gain', 'phase', 'mc'], g.i(1, 2)))})
            arrs.append('a1')
        grids = []
        for s in range(g.i(1, 2)):
            cg, kk, u, sh = wide_grid(g, 'g%d' % s, g.c(['g1', 'g1', 'g2', 'gn']), hi=24)
            cmds.append(cg)
            grids.append('g%d' % s)
        wls = [wlen(g), wlen(g)]
        ests = []
        for s in range(g.i(1, 3)):
            kind = g.c(EST + ['rootmusic', 'esprit'])
            if kind in EST:
                cmds.append(mk(g, kind, 'e%d' % s, g.c(arrs), g.c(grids), g.c(wls), g.c(['default', 'default', 'even', 'rev'])))
            else:
                cmds.append({'op': 'mkest', 'k': kind, 'wl': g.c(wls), 'out': 'e%d' % s})
            ests.append((kind, 'e%d' % s))
        Rs = []
        for s in range(2):
            k = g.i(1, m - 1)
            cmds.append(cov_cmd(g, 'R%d' % s, m, k))
            Rs.append(['R%d' % s, k])
        outs = []
        for s in range(g.i(3, 8 if tier == 'quick' else 14)):
            kind, e = g.c(ests)
            R = g.c(Rs)
            r = g.r.random()
            if r < .66:
                n = R[1] if kind not in ('bartlett', 'mvdr') else g.i(1, 3)
                c = {'op': 'est', 'e': e, 'R': ref(R[0]), 'n': n, 'out': 'o%d' % s}
                if kind in EST:
                    if g.p(.4):
                        c['spec'] = g.p(.8)
                    if g.p(.3):
                        c.update(refine=True, density=g.i(2, 4), iters=g.i(1, 2))
                elif kind == 'rootmusic':
                    if g.p(.5):
                        c['unit'] = g.c(['rad', 'deg'])
                    if g.p(.3):
                        c['d0'] = T(1.3)
                else:
                    c.update(disp=1, form=g.c(['ls', 'tls']))
                    if n > m - 1:
                        continue
                cmds.append(c)
                outs.append(c['out'])
                if 'spec' in c and g.p(.6) or g.p(.2):
                    cmds.append({'op': 'rpoke', 'x': c['out']})
            elif r < .78:
                n = g.i(1, m - 1)
                b = {'op': 'est', 'e': e, 'R': bad_cov(g, m), 'n': n}
                if kind in ('rootmusic', 'esprit'):
                    b = {'op': 'est', 'e': e, 'R': ref(R[0]), 'n': g.c([m, m + 3, 0])}
                elif kind in ('music', 'minnorm') and g.p(.5):
                    b = {'op': 'est', 'e': e, 'R': ref(R[0]), 'n': g.c([m, m + 1, 0])}
                cmds.append(b)
            elif r < .9:
                R[1] = g.i(1, m - 1)
                cmds.append(dict(cov_cmd(g, R[0], m, R[1], real=False), op='refill'))
            else:
                cmds.append({'op': 'steer', 'a': g.c(arrs), 's': 'z', 'wl': wls[0]} if False else {'op': 'gview', 'g': g.c(grids)})
        for x in arrs:
            cmds.append({'op': 'aview', 'a': x})
        for x in grids:
            cmds.append({'op': 'gview', 'g': x})
        hs.append({'id': 'r%d' % i, 'cmds': [dict(c, real=False) if c['op'] == 'mkcov' else c for c in cmds]})
    return hs


def gen_p10(seed, tier, scale):
    g = G(seed, 'P10')
    hs = []
    for i in range(int((170 if tier == 'quick' else 1500) * scale)):
        ca, m = est_array(g, 'a', mn=2)
        cg, kk, u, sh = wide_grid(g, 'g', lo=1, hi=20)
        wl = wlen(g)
        cmds = [ca, cg]
        for s, kind in enumerate(g.r.sample(EST, g.i(1, 3))):
            k = g.i(1, m - 1)
            cmds.append((hard_cov if g.p(.25) else cov_cmd)(g, 'R%d' % s, m, k))
            cmds.append(mk(g, kind, 'e%d' % s, 'a', 'g', wl, 'default'))
            cmds.append({'op': 'est', 'e': 'e%d' % s, 'R': ref('R%d' % s), 'n': k if kind in ('music', 'minnorm') else 1, 'spec': True})
            if g.p(.15):
                cmds.append({'op': 'est', 'e': 'e%d' % s, 'R': bad_cov(g, m), 'n': k, 'spec': g.p(.5)})
            if g.p(.15) and kind in ('music', 'minnorm'):
                cmds.append({'op': 'est', 'e': 'e%d' % s, 'R': ref('R%d' % s), 'n': g.c([m, m + 1, 2 * m, 0, -1])})
        hs.append({'id': 'r%d' % i, 'cmds': cmds})
    for i in range(int((60 if tier == 'quick' else 400) * scale)):
        m, n = g.i(1, 6), g.i(1, 6)
        A = mat([[g.cx() for _ in range(n)] for _ in range(m)], 'c')
        f = g.c(['bartlett', 'mvdr', 'music'])
        if f == 'music':
            q = g.i(1, m)
            cmds = [{'op': 'val', 'out': 'R', 'v': mat([[g.cx() for _ in range(q)] for _ in range(m)], 'c')}]
        else:
            cmds = [cov_cmd(g, 'R', m, g.i(0, m))]
        hs.append({'id': 'f%d' % i, 'cmds': cmds + [{'op': 'val', 'out': 'A', 'v': A}, {'op': 'fspec', 'f': f, 'A': ref('A'), 'R': ref('R')}]})
    return hs


def freq_sources(g, k, lim, sep):
    """k sines in (-lim, lim), at least sep apart (cyclically in 2*lim)"""
    for _ in range(2000):
        xs = sorted(g.r.uniform(-lim, lim) for _ in range(k))
        if all(b - a >= sep for a, b in zip(xs, xs[1:])) and (k == 1 or xs[0] + 2 * lim - xs[-1] >= sep):
            return xs
    return None


def ff1_from_sines(g, out, xs, unit=None):
    unit = unit or g.c(['rad', 'deg', 'sin'])
    if unit == 'rad':
        v = [math.asin(x) for x in xs]
    elif unit == 'deg':
        v = [math.degrees(math.asin(x)) for x in xs]
    else:
        v = list(xs)
    g.r.shuffle(v)
    return {'op': 'ff1', 'v': vec(v), 'unit': unit, 'out': out}


def gen_p11(seed, tier, scale):
    g = G(seed, 'P11')
    hs = []
    for i in range(int((220 if tier == 'quick' else 2000) * scale)):
        m = g.i(2, 9)
        wl = g.c([1.0, 0.5, 2.0, 0.3])
        d0 = wl * g.c([.5, .5, .25, .4, .75, 1.0, 1.5, g.r.uniform(.1, 2)])
        disp = g.c([1, 1, 1, 2, 3])
        esprit = g.p(.5)
        kind = 'esprit' if esprit else 'rootmusic'
        if not esprit:
            disp = 1
        if disp >= m:
            disp = 1
        k = g.i(1, min(m - disp, 6))
        if g.p(.12):   # dense arrays
            d0 = wl * g.c([.1, .05, .08, .12])
            k = 1 if m < 7 else min(k, 2)
        lim = min(.97, .97 * wl / (2 * d0 * disp))
        per = wl / (d0 * disp)
        # separation in spatial frequency of at least about a third of the resolution of the aperture
        sep = min(.45 / (m - disp + 1) / (d0 / wl), .7 * 2 * lim / k)
        xs = freq_sources(g, k, lim, sep)
        if xs is None:
            continue
        u = g.c(['rad', 'deg', 'sin', None])
        est = {'op': 'est', 'e': 'e', 'R': ref('R'), 'n': k, 'out': 'o'}
        if u:
            est['unit'] = u
        if d0 != wl / 2 or g.p(.5):
            est['d0'] = T(d0)
        if esprit:
            if disp > 1 or g.p(.5):
                est['disp'] = disp
            f = g.c(['ls', 'tls', None])
            if f:
                est['form'] = f
            q = g.r.random()
            if q < .25:
                est['rw'] = vec([g.r.uniform(.3, 3) for _ in range(m - disp)])
            elif q < .6:
                est['rw'] = S(g.c(['none', 'default']))
        ca = {'op': 'ula', 'n': m, 'd0': T(d0), 'out': 'a'}
        cmds = [ca, ff1_from_sines(g, 's', xs),
                {'op': 'idealcov', 'a': 'a', 's': 's', 'wl': T(wl), 'p': vec([g.r.uniform(.5, 4) for _ in range(k)]), 'sg': T(g.c([.1, 1.0, .5, 0.01])), 'out': 'R'},
                {'op': 'mkest', 'k': kind, 'wl': T(wl), 'out': 'e'}, est]
        if g.p(.35):
            cmds += [{'op': 'wishart', 'R': ref('R'), 'n': g.c([50, 200, 1000]), 'seed': g.i(0, 10**6), 'out': 'W'}, dict(est, R=ref('W'), out='ow')]
            if u == 'sin' or u is None:
                cmds[-1].pop('unit', None)
        hs.append({'id': 'u%d' % i, 'cmds': cmds})
    # arbitrary covariances
    for i in range(int((90 if tier == 'quick' else 800) * scale)):
        m = g.i(2, 7)
        disp = g.c([1, 1, 2])
        if disp >= m:
            disp = 1
        k = g.i(1, m - disp)
        kind = g.c(['rootmusic', 'esprit'])
        if kind == 'rootmusic':
            k = g.i(1, m - 1)
        est = {'op': 'est', 'e': 'e', 'R': ref('R'), 'n': k, 'unit': g.c(['rad', 'deg', 'sin'])}
        if kind == 'esprit':
            est['disp'] = disp
            est['form'] = g.c(['ls', 'tls'])
            if g.p(.5):
                est['rw'] = vec([g.r.uniform(.3, 3) for _ in range(m - disp)])
        else:
            est['d0'] = T(.5)
        cmds = [cov_cmd(g, 'R', m, k, real=False), {'op': 'mkest', 'k': kind, 'wl': T(1), 'out': 'e'}, est]
        hs.append({'id': 'c%d' % i, 'cmds': cmds})
    # sources on the grid
    for i in range(int((70 if tier == 'quick' else 600) * scale)):
        m = g.i(3, 8)
        wl = g.c([1.0, .5, 2.0])
        d0 = wl * g.c([.5, .5, .25, .4])
        n = g.i(20, 60)
        u = g.c(['rad', 'deg', 'sin'])
        lim = LIM['ff1', u][0]
        k = g.i(1, min(m - 1, 3))
        if g.p(.5):
            lo, hi = -.95 * lim, .95 * lim
            pts = [lo + j * (hi - lo) / n for j in range(n)]
            cg = {'op': 'g1', 'start': T(lo), 'stop': T(hi), 'size': I(n), 'unit': u, 'out': 'g'}
        else:
            pts = sorted(g.r.uniform(-.95 * lim, .95 * lim) for _ in range(n))
            cg = {'op': 'g1', 'axes': tup(vec(pts)), 'unit': u, 'out': 'g'}
        for _ in range(200):
            q = sorted(g.r.sample(range(1, n - 1), k))
            if all(b - a > n // 10 for a, b in zip(q, q[1:])):
                break
        else:
            continue
        cmds = [{'op': 'ula', 'n': m, 'd0': T(d0), 'out': 'a'}, cg, {'op': 'ff1', 'v': vec([pts[j] for j in q]), 'unit': u, 'out': 's'},
                {'op': 'idealcov', 'a': 'a', 's': 's', 'wl': T(wl), 'p': vec([g.r.uniform(.5, 4) for _ in range(k)]), 'sg': T(g.c([.1, 1.0])), 'out': 'R'}]
        for kind in ('music', 'minnorm'):
            cmds += [mk(g, kind, kind, 'a', 'g', T(wl), 'default'), {'op': 'est', 'e': kind, 'R': ref('R'), 'n': k, 'out': 'o' + kind}]
        hs.append({'id': 'g%d' % i, 'cmds': cmds})
    # inadmissible arguments
    for i in range(int(60 * scale)):
        m = g.i(2, 6)
        kind = g.c(['rootmusic', 'esprit', 'esprit'])
        cmds = [cov_cmd(g, 'R', m, 1, real=False), {'op': 'mkest', 'k': kind, 'wl': T(1), 'out': 'e'}]
        b = {'op': 'est', 'e': 'e', 'R': ref('R'), 'n': 1}
        if kind == 'rootmusic':
            q = g.i(0, 2)
            if q == 0:
                b['n'] = g.c([m, m + 1, 0, -1])
            elif q == 1:
                b['R'] = mat([[1.0] * (m + 1) for _ in range(m)])
            elif q == 2:
                b['R'] = vec([1.0] * m)
        else:
            q = g.i(0, 5)
            if q == 0:
                b['disp'] = g.c([0, -1, -m])
            elif q == 1:
                b['disp'] = g.i(1, m - 1)
                b['n'] = m - b['disp'] + g.i(1, 2)
            elif q == 2:
                b['disp'] = m + g.i(0, 2)
            elif q == 3:
                b['form'] = g.c(['lms', '', 'LS'])
            elif q == 4:
                b['rw'] = g.c([S('x'), S(''), vec([1.0] * m), vec([1.0] * (m + 1)), mat([[1.0]] * (m - 1)), {'t': 'none'}])
            else:
                b['n'] = g.c([0, -1])
        hs.append({'id': 'bad%d' % i, 'cmds': cmds + [b]})
    return hs


def gen_p12(seed, tier, scale):
    g = G(seed, 'P12')
    hs = []
    for i in range(int((110 if tier == 'quick' else 1000) * scale)):
        ca, m = est_array(g, 'a', mn=3, mx=6)
        cg, kk, u, sh = wide_grid(g, 'g', g.c(['g1', 'g1', 'g2', 'gn']), hi=30)
        wl = wlen(g)
        kind = g.c(EST)
        k = g.i(1, m - 1)
        cmds = [ca, cg, cov_cmd(g, 'R', m, k), mk(g, kind, 'e', 'a', 'g', wl, g.c(['default'] * 4 + ['even', 'rev', 'max1']))]
        for q in range(g.i(1, 3)):
            n = k if kind in ('music', 'minnorm') else g.i(1, 3)
            c = {'op': 'est', 'e': 'e', 'R': ref('R'), 'n': n, 'refine': True, 'out': 'o%d' % q}
            if len(sh) == 1:
                if g.p(.8):
                    c['density'] = g.i(1, 12)
                if g.p(.8):
                    c['iters'] = g.i(1, 4)
            else:
                c['density'] = g.i(1, 4)
                c['iters'] = g.i(1, 3)
            if g.p(.4):
                c['spec'] = True
            cmds.append(c)
            if g.p(.3):
                cmds.append({'op': 'rpoke', 'x': c['out']})
        cmds.append({'op': 'gview', 'g': 'g'})
        hs.append({'id': 'r%d' % i, 'cmds': cmds})
    return hs
