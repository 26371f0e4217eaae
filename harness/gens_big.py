"""A few histories per property with large instances: long axes, many elements, many sources, many snapshots."""
import math
from gens import G, T, I, S, B, ref, vec, mat, array_cmd, pert_spec
from gens_src import LIM, tup
from gens_est import cov_cmd, EST, mk, wlen, freq_sources, ff1_from_sines
from gens_data import anymat


def times(tier, q, t, scale):
    return max(1, int((q if tier == 'quick' else t) * scale))


def big_array(g, out, lo, hi, kinds=('ula', 'nested', 'coprime', 'uca', 'ura', 'grid1', 'custom'), pert=None):
    k = g.c(kinds)
    c = {'op': k, 'out': out}
    if k == 'ula':
        n = g.i(lo, hi)
        c.update(n=n, d0=T(g.d0()))
    elif k == 'nested':
        a = g.i(lo // 2, hi // 2)
        b = max(1, g.i(lo, hi) - a)
        n = a + b
        c.update(n1=a, n2=b, d0=T(g.d0()))
    elif k == 'coprime':
        while True:
            a, b = g.i(2, hi // 2), g.i(2, hi)
            mode = g.c(['2m', 'm'])
            n = max(a, b) + min(a, b) * (2 if mode == '2m' else 1) - 1
            if math.gcd(a, b) == 1 and lo <= n <= hi:
                break
        c.update(m=a, n=b, mode=mode, d0=T(g.d0()))
    elif k == 'uca':
        n = g.i(lo, hi)
        c.update(n=n, r=T(g.f(.5, 5)))
    elif k == 'ura':
        while True:
            a, b = g.i(2, hi), g.i(2, hi)
            n = a * b
            if lo <= n <= hi:
                break
        c.update(m=a, n=b, d0=T(g.d0()))
    elif k == 'grid1':
        n = g.i(lo, hi)
        idx = g.r.sample(range(-n, 3 * n), n)
        c = {'op': 'gridarr', 'out': out, 'name': 'big', 'idx': mat([[x] for x in idx], 'i'), 'd0': T(g.d0())}
    else:
        n, d = g.i(lo, hi), g.i(1, 3)
        c.update(name='big', loc=mat([[g.f(-9, 9) for _ in range(d)] for _ in range(n)]))
    if pert is not None and g.p(.6):
        c['pert'] = pert_spec(g, n, pert or None)
    return c, n


def big_p01(seed, tier, scale):
    g = G(seed, 'B01')
    hs = []
    for i in range(times(tier, 12, 60, scale)):
        c, n = big_array(g, 'a', *g.c([(30, 150), (30, 150), (200, 400)]), pert=[])
        if n > 40:
            c.pop('pert', None)
        hs.append({'id': 'big%d' % i, 'cmds': [c, {'op': 'aview', 'a': 'a'}]})
    return hs


def big_p03(seed, tier, scale):
    g = G(seed, 'B03')
    hs = []
    for i in range(times(tier, 14, 60, scale)):
        c, n = big_array(g, 'a', 12, 26 if tier == 'quick' else 40, ('ula', 'nested', 'coprime', 'grid1'))
        if g.p(.4):   # a wide aperture with few elements
            n = g.i(5, 12)
            c = {'op': 'gridarr', 'out': 'a', 'name': 'wide', 'idx': mat([[x] for x in g.r.sample(range(-400, 1200), n)], 'i'), 'd0': T(.5)}
        cmds = [c, {'op': 'wf', 'a': 'a', 'out': 'w'}]
        qs = ['wf_ula', 'wf_sel', 'wf_diffs', 'wf_weights', 'wf_len']
        g.r.shuffle(qs)
        for q in qs:
            cc = {'op': q, 'w': 'w'}
            if q in ('wf_ula', 'wf_sel'):
                cc['excl'] = g.p(.5)
            cmds.append(cc)
        for _ in range(4):
            cmds.append({'op': g.c(['wf_of', 'wf_indices', 'wf_call']), 'w': 'w', 'd': g.i(-40, 40)})
        hs.append({'id': 'big%d' % i, 'cmds': cmds})
    return hs


def some_sources(g, out, k, kind=None):
    kind = kind or g.c(['ff1', 'ff1', 'ff2', 'nf2'])
    if kind == 'ff1':
        u = g.c(['rad', 'deg', 'sin'])
        lim = LIM['ff1', u][0]
        return {'op': 'ff1', 'out': out, 'unit': u, 'v': vec([g.r.uniform(-.98, .98) * lim for _ in range(k)])}
    if kind == 'ff2':
        u = g.c(['rad', 'deg'])
        h = 180.0 if u == 'deg' else math.pi
        return {'op': 'ff2', 'out': out, 'unit': u, 'v': mat([[g.r.uniform(-.99, .99) * h, g.r.uniform(-.49, .49) * h] for _ in range(k)])}
    return {'op': 'nf2', 'out': out, 'v': mat([[g.r.uniform(-30, 30), g.r.uniform(1, 40)] for _ in range(k)])}


def big_p04(seed, tier, scale, deriv=False):
    g = G(seed, 'B05' if deriv else 'B04')
    hs = []
    for i in range(times(tier, 10, 60, scale)):
        # either many elements or many sources
        if g.p(.5):
            c, n = big_array(g, 'a', *g.c([(20, 70), (80, 140)]), pert=g.r.sample(['loc', 'gain', 'phase'], g.i(1, 3)))
            k = g.i(1, 4)
        else:
            c, n = big_array(g, 'a', 4, 9, pert=[])
            k = g.c([g.i(40, 120), g.i(200, 600)])
        st = {'op': 'steer', 'a': 'a', 's': 's', 'wl': wlen(g)}
        if g.p(.5):
            st['which'] = g.c(['all', 'known', 'none'])
        if deriv:
            st['deriv'] = True
        hs.append({'id': 'big%d' % i, 'cmds': [c, some_sources(g, 's', k, 'ff1' if deriv else None), st]})
    return hs


def big_p05(seed, tier, scale):
    return big_p04(seed, tier, scale * .6, True)


def big_p06(seed, tier, scale):
    g = G(seed, 'B06')
    hs = []
    for i in range(times(tier, 10, 80, scale)):
        n = g.c([g.i(60, 200), g.i(60, 200), g.i(300, 600)])
        kind = g.c(['ff1', 'ff2', 'nf2'])
        cmds = [some_sources(g, 's', n, kind)]
        # one element outside the range, far inside a long list
        if kind != 'nf2' and g.p(.7):
            bad = some_sources(g, 'z', n, kind)
            j = g.i(0, n - 1)
            lim = {'rad': math.pi / 2, 'deg': 90.0, 'sin': 1.0}[bad['unit']]
            if kind == 'ff1':
                xs = bad['v']['v'][0].split()
                xs[j] = repr(lim * g.c([1.001, -1.001]))
                bad['v']['v'] = [' '.join(xs)]
            else:
                r = bad['v']['v'][j].split()
                q = g.i(0, 1)
                r[q] = repr(lim * (2 if q == 0 else 1) * g.c([1.001, -1.001]))
                bad['v']['v'][j] = ' '.join(r)
            cmds.append(dict(bad, out='z'))
        units = {'ff1': ['rad', 'deg', 'sin'], 'ff2': ['rad', 'deg'], 'nf2': ['m']}[kind]
        cmds.append({'op': 'as_unit', 's': 's', 'unit': g.c(units), 'out': 't'})
        q = lambda: {'t': 'none'} if g.p(.3) else I(g.i(-n, n))
        cmds.append({'op': 'sget', 's': g.c(['s', 't']), 'key': {'t': 'slice', 'a': q(), 'b': q(), 's': g.c([{'t': 'none'}, I(3), I(-7), I(2)])}, 'out': 'u'})
        cmds.append({'op': 'sget', 's': 's', 'key': vec([g.i(-n, n - 1) for _ in range(g.i(20, 80))], 'i'), 'out': 'v'})
        cmds.append({'op': 'sget', 's': 's', 'key': vec([int(g.p(.5)) for _ in range(n)], 'b'), 'out': 'w'})
        cmds.append({'op': 'ssph', 's': 's', 'ref': mat([[g.f(-4, 4) for _ in range(g.c([2]))] for _ in range(g.i(4, 12))])})
        cmds.append({'op': 'sview', 's': 's'})
        hs.append({'id': 'big%d' % i, 'cmds': cmds})
    return hs


def long_grid(g, out, kind, lo, hi):
    """a grid with lo..hi points"""
    if kind == 'g1':
        u = g.c(['rad', 'deg', 'sin'])
        lim = LIM['ff1', u][0]
        n = g.i(lo, hi)
        if g.p(.3):
            ns = [n // 3, n - 2 * (n // 3), n // 3]
            cuts = sorted(g.r.uniform(-lim, lim) for _ in range(6))
            return {'op': 'g1', 'out': out, 'unit': u, 'start': tup(*[T(cuts[2 * j]) for j in range(3)]), 'stop': tup(*[T(cuts[2 * j + 1]) for j in range(3)]), 'size': tup(*[I(x) for x in ns])}, [n]
        return {'op': 'g1', 'out': out, 'unit': u, 'start': T(g.r.uniform(-lim, -.3 * lim)), 'stop': T(g.r.uniform(.2 * lim, lim)), 'size': I(n)}, [n]
    a = g.i(max(8, lo // 40), max(10, hi // 20))
    b = max(2, g.i(lo, hi) // a)
    sh = [a, b] if g.p(.5) else [b, a]
    lim = LIM['ff2', 'deg'] if kind == 'g2' else LIM['nf2', 'm']
    c = {'op': kind, 'out': out, 'start': tup(*[T(g.r.uniform(-x, -.2 * x)) for x in lim]), 'stop': tup(*[T(g.r.uniform(.1 * x, x)) for x in lim]), 'size': tup(I(sh[0]), I(sh[1]))}
    if kind == 'g2':
        c['unit'] = 'deg'
    return c, sh


def big_p07(seed, tier, scale):
    g = G(seed, 'B07')
    hs = []
    for i in range(times(tier, 8, 50, scale)):
        c, sh = long_grid(g, 'g', g.c(['g1', 'g1', 'g2', 'gn']), *g.c([(200, 900), (1000, 3000)]))
        cmds = [c]
        for q in range(2):
            co = [g.c([0, x - 1, g.i(0, x - 1)]) for x in sh]
            if len(sh) == 1:
                cmds.append({'op': 'gref', 'g': 'g', 'coord': co, 'density': g.i(10, 40), 'span': g.i(1, 8), 'out': 'r%d' % q})
            else:
                cmds.append({'op': 'gref', 'g': 'g', 'coord': co, 'density': g.i(2, 6), 'span': g.i(1, 3), 'out': 'r%d' % q})
        m = g.i(6, 15) if len(sh) == 1 else 4
        cmds.append({'op': 'grefs', 'g': 'g', 'coords': [[g.i(0, x - 1) for _ in range(m)] for x in sh], 'density': g.i(1, 4), 'span': g.i(1, 2), 'nd': g.p(.5)})
        hs.append({'id': 'big%d' % i, 'cmds': cmds + [{'op': 'gview', 'g': 'g'}]})
    return hs


def big_p08(seed, tier, scale):
    g = G(seed, 'B08')
    hs = []
    for i in range(times(tier, 8, 60, scale)):
        c, n = big_array(g, 'a', 9, 16, pert=[])
        cg, sh = long_grid(g, 'g', g.c(['g1', 'g1', 'g2', 'gn']), 200, 700)
        wl = wlen(g)
        cmds = [c, cg]
        k = g.i(3, n - 1)
        cmds.append(cov_cmd(g, 'R', n, k))
        for s in range(2):
            kind = g.c(EST)
            cmds.append(mk(g, kind, 'e%d' % s, 'a', 'g', wl, g.c(['default', 'default', 'rev'])))
            cmds.append({'op': 'est', 'e': 'e%d' % s, 'R': ref('R'), 'n': k if kind in ('music', 'minnorm') else g.i(2, 12), 'spec': True, 'out': 'o%d' % s})
        hs.append({'id': 'big%d' % i, 'cmds': cmds})
    for i in range(times(tier, 20, 200, scale)):
        top = g.c([2, 5, 40, 10**6])
        if g.p(.5):
            x = mat([[float(g.i(-top, top)) for _ in range(g_n)] for g_n in [g.i(8, 20)] for _ in range(g.i(8, 20))])
        else:
            x = vec([float(g.i(-top, top)) for _ in range(g.i(60, 250))])
        hs.append({'id': 'bigpk%d' % i, 'cmds': [{'op': 'val', 'out': 'x', 'v': x}, {'op': 'peaks', 'x': ref('x')}]})
    return hs


def big_p10(seed, tier, scale):
    g = G(seed, 'B10')
    hs = []
    for i in range(times(tier, 8, 60, scale)):
        if g.p(.5):
            c, n = big_array(g, 'a', 4, 7, pert=[])
            cg, sh = long_grid(g, 'g', g.c(['g1', 'g1', 'g2', 'gn']), *g.c([(150, 400), (1000, 1400)]))
        else:
            c, n = big_array(g, 'a', 10, 18, pert=[])
            cg, sh = long_grid(g, 'g', g.c(['g1', 'g2', 'gn']), 16, 50)
        wl = wlen(g)
        kind = g.c(EST)
        k = g.i(1, n - 1)
        hs.append({'id': 'big%d' % i, 'cmds': [c, cg, cov_cmd(g, 'R', n, k), mk(g, kind, 'e', 'a', 'g', wl, 'default'),
                   {'op': 'est', 'e': 'e', 'R': ref('R'), 'n': k if kind in ('music', 'minnorm') else 1, 'spec': True}]})
    return hs


def big_p09(seed, tier, scale):
    """long histories of few estimators"""
    g = G(seed, 'B09')
    hs = []
    for i in range(times(tier, 5, 60, scale)):
        c, m = big_array(g, 'a', 4, 6, pert=[])
        cg, sh = long_grid(g, 'g', g.c(['g1', 'g1', 'g2']), 16, 40)
        wl = wlen(g)
        kinds = g.r.sample(EST, 2)
        cmds = [c, cg] + [mk(g, kd, 'e%d' % j, 'a', 'g', wl, 'default') for j, kd in enumerate(kinds)]
        cmds += [cov_cmd(g, 'R0', m, 1, real=False), cov_cmd(g, 'R1', m, m - 1, real=False)]
        ks = [1, m - 1]
        for q in range(g.i(14, 22)):
            j, r = g.i(0, 1), g.i(0, 1)
            if g.p(.15):
                ks[r] = g.i(1, m - 1)
                cmds.append(dict(cov_cmd(g, 'R%d' % r, m, ks[r], real=False), op='refill'))
                continue
            e = {'op': 'est', 'e': 'e%d' % j, 'R': ref('R%d' % r), 'n': ks[r] if kinds[j] in ('music', 'minnorm') else g.i(1, 3), 'out': 'o%d' % q}
            if g.p(.5):
                e['spec'] = True
            cmds.append(e)
        hs.append({'id': 'big%d' % i, 'cmds': cmds + [{'op': 'gview', 'g': 'g'}, {'op': 'aview', 'a': 'a'}]})
    return hs


def big_p11(seed, tier, scale):
    g = G(seed, 'B11')
    hs = []
    for i in range(times(tier, 14, 120, scale)):
        m = g.i(10, 24)
        wl = g.c([1.0, .5, 2.0, 3.0])
        d0 = wl * g.c([.5, .5, .4, .75])
        kind = g.c(['rootmusic', 'esprit'])
        k = g.i(1, min(8, m - 2))
        disp = g.c([1, 1, 2, 4]) if kind == 'esprit' else 1
        lim = min(.97, .97 * wl / (2 * d0 * disp))
        xs = freq_sources(g, k, lim, min(.9 / (m - disp + 1) / (d0 / wl), .6 * 2 * lim / k))
        if xs is None:
            continue
        e = {'op': 'est', 'e': 'e', 'R': ref('R'), 'n': k, 'out': 'o', 'unit': g.c(['rad', 'deg', 'sin']), 'd0': T(d0)}
        if kind == 'esprit':
            e.update(disp=disp, form=g.c(['ls', 'tls']))
            if g.p(.5):
                e['rw'] = g.c([S('none'), S('default'), vec([g.r.uniform(.3, 3) for _ in range(m - disp)])])
        hs.append({'id': 'big%d' % i, 'cmds': [{'op': 'ula', 'n': m, 'd0': T(d0), 'out': 'a'}, ff1_from_sines(g, 's', xs),
                   {'op': 'idealcov', 'a': 'a', 's': 's', 'wl': T(wl), 'p': vec([g.r.uniform(.5, 4) for _ in range(k)]), 'sg': T(g.c([.1, 1.0, .01])), 'out': 'R'},
                   {'op': 'mkest', 'k': kind, 'wl': T(wl), 'out': 'e'}, e]})
    return hs


def big_p12(seed, tier, scale):
    g = G(seed, 'B12')
    hs = []
    for i in range(times(tier, 5, 40, scale)):
        c, n = big_array(g, 'a', 8, 12, pert=[])
        cg, sh = long_grid(g, 'g', 'g1', 120, 200)
        kind = g.c(EST)
        k = g.i(3, n - 1)
        hs.append({'id': 'big%d' % i, 'cmds': [c, cg, cov_cmd(g, 'R', n, k), mk(g, kind, 'e', 'a', 'g', wlen(g), 'default'),
                   {'op': 'est', 'e': 'e', 'R': ref('R'), 'n': k if kind in ('music', 'minnorm') else 3, 'refine': True, 'density': g.i(2, 12), 'iters': g.i(4, 7), 'spec': True, 'out': 'o'}]})
    return hs


def big_p13(seed, tier, scale):
    g = G(seed, 'B13')
    hs = []
    for i in range(times(tier, 8, 60, scale)):
        if g.p(.5):
            c, n = big_array(g, 'a', 9, 18, ('ula', 'nested', 'coprime'))
        else:
            n = g.i(7, 14)
            c = {'op': 'mrla', 'n': n, 'd0': T(.5), 'out': 'a'}
        cmds = [c, {'op': 'mkacm', 'a': 'a', 'out': 'b'}, {'op': 'val', 'out': 'R', 'v': anymat(g, n)}]
        for me in g.r.sample(['ss', 'da'], 2):
            cmds.append({'op': 'acm', 'b': 'b', 'R': ref('R'), 'method': me, 'out': 'o' + me})
        cmds += [{'op': 'vula', 'b': 'b', 'out': 'v'}, {'op': 'acmview', 'b': 'b'}]
        hs.append({'id': 'big%d' % i, 'cmds': cmds})
    return hs


def big_p14(seed, tier, scale):
    g = G(seed, 'B14')
    hs = []
    for i in range(times(tier, 12, 100, scale)):
        m = g.c([g.i(12, 30), g.i(40, 70)])
        cmds = [{'op': 'val', 'out': 'R', 'v': anymat(g, m)}]
        for q in range(2):
            cmds.append({'op': 'ssmooth', 'R': ref('R'), 'l': g.c([1, 2, m // 2, m, m - 1, g.i(1, m)]), 'fb': g.p(.5), 'out': 'S%d' % q})
        hs.append({'id': 'bigs%d' % i, 'cmds': cmds})
    for i in range(times(tier, 6, 60, scale)):
        m, n = g.c([(g.i(3, 6), g.i(40, 150)), (g.i(10, 16), g.i(3, 8)), (g.i(9, 12), g.i(12, 30))])
        hs.append({'id': 'bigl%d' % i, 'cmds': [{'op': 'val', 'out': 'Y', 'v': anymat(g, m, n)}, {'op': 'l1svd', 'y': ref('Y'), 'k': g.i(1, min(m, n)), 'out': 'y'}]})
    return hs


def big_p15(seed, tier, scale):
    g = G(seed, 'B15')
    hs = []
    for i in range(times(tier, 14, 120, scale)):
        m = g.i(14, 48)
        k = g.i(0, m - 1)
        l = sorted(1 + .2 * g.r.random() for _ in range(m - k)) + sorted(g.r.uniform(1.4, g.c([3, 12])) for _ in range(k))
        n = g.c([10, 100, 1000, 10**6, 30])
        cmds = [{'op': 'val', 'out': 'l', 'v': vec(sorted(l))}]
        for f in ('aic', 'mdl', 'sorte'):
            cmds.append({'op': 'srcnum', 'f': f, 'x': ref('l'), 'n': n})
        if m <= 24:
            cmds.append({'op': 'mkcov', 'out': 'R', 'l': vec(sorted(l)), 'seed': g.i(0, 10**6), 'real': g.p(.2)})
            for f in ('aic', 'mdl', 'sorte'):
                cmds.append({'op': 'srcnum', 'f': f, 'x': ref('R'), 'n': n})
        hs.append({'id': 'big%d' % i, 'cmds': cmds})
    return hs


def big_p16(seed, tier, scale):
    g = G(seed, 'B16')
    hs = []
    for i in range(times(tier, 6, 50, scale)):
        if g.p(.5):
            c, m = big_array(g, 'a', 3, 6, pert=[])
            n = g.c([g.i(150, 600), g.i(1000, 3000)])
        else:
            c, m = big_array(g, 'a', 14, 30, pert=['gain', 'loc'])
            n = g.i(2, 8)
        k = g.i(1, 6)
        cmds = [c, some_sources(g, 's', k)]
        for o, d in (('x', k), ('w', m)):
            cmds.append({'op': 'mksig', 'k': 'rec', 'dim': d, 'out': o, 'seed': g.i(0, 10**6), 'real': g.p(.2), 'buf': g.p(.5)})
        cmds.append({'op': 'snap', 'a': 'a', 's': 's', 'wl': wlen(g), 'src': 'x', 'noise': 'w', 'n': n, 'cov': True, 'out': 'y'})
        hs.append({'id': 'big%d' % i, 'cmds': cmds})
    return hs


def big_p17(seed, tier, scale):
    g = G(seed, 'B17')
    hs = []
    for i in range(times(tier, 4, 40, scale)):
        c, m = big_array(g, 'a', 8, 9, ('ula', 'nested', 'uca', 'ura'), pert=['gain', 'phase'])
        f = g.c(['sto', 'det', 'stouc'])
        k = 3 if f == 'sto' else 4 if f == 'det' else g.i(4, 5)
        xs = freq_sources(g, k, .9, 1.2 / k)
        if xs is None:
            continue
        if f == 'det':
            t = g.i(k, 5)
            p = {'X': mat([[g.cx() for _ in range(t)] for _ in range(k)], 'c')}
        else:
            p = {'p': vec([g.r.uniform(.3, 5) for _ in range(k)])}
        b = {'op': 'bound', 'f': f, 'a': 'a', 's': 's', 'sg': T(g.c([1.0, .1, 2.5])), 'wl': T(g.c([1.0, 2.0])), 'n': g.c([1, 500]), 'mode': g.c(['full', 'diag', 'mean_diag'])}
        b.update(p)
        hs.append({'id': 'big%d' % i, 'cmds': [c, ff1_from_sines(g, 's', xs), b]})
    return hs


def big_p18(seed, tier, scale):
    g = G(seed, 'B18')
    hs = []
    for i in range(times(tier, 4, 40, scale)):
        f = g.c(['music', 'comusic'])
        c, m = big_array(g, 'a', 7, 10, ('ula', 'nested', 'coprime') if f == 'comusic' else ('ula', 'nested', 'uca', 'ura'))
        k = g.i(3, 5)
        xs = freq_sources(g, k, .9, 1.1 / k)
        if xs is None:
            continue
        b = {'op': 'bound', 'f': f, 'a': 'a', 's': 's', 'sg': T(g.c([1.0, .1, 2.5])), 'wl': T(g.c([1.0, 2.0])), 'n': g.c([1, 500]), 'mode': g.c(['full', 'diag', 'mean_diag']),
             'p': vec([g.r.uniform(.3, 5) for _ in range(k)])}
        hs.append({'id': 'big%d' % i, 'cmds': [c, ff1_from_sines(g, 's', xs), b]})
    return hs


def big_p21(seed, tier, scale):
    from gens_utils import rmat, layout
    g = G(seed, 'B21')
    hs = []
    val = lambda n, v: {'op': 'val', 'out': n, 'v': v}
    for i in range(times(tier, 6, 60, scale)):
        dt = g.c(['f', 'c', 'i'])
        add = lambda t, cmds: hs.append({'id': 'big%s%d' % (t, i), 'cmds': cmds})
        add('vec', [val('x', rmat(g, g.i(15, 40), g.i(15, 40), dt)), {'op': 'u_vec', 'x': ref('x'), 'out': 'y'}])
        k = g.i(6, 12)
        add('kr', [val('x', rmat(g, g.i(6, 14), k, g.c(['f', 'c', 'i']))), val('y', rmat(g, g.i(6, 14), k, dt)), {'op': 'u_kr', 'x': ref('x'), 'y': ref('y'), 'out': 'z'}])
        add('abs', [val('x', rmat(g, g.i(15, 30), g.i(15, 30), dt)), {'op': 'u_abs2', 'x': ref('x'), 'out': 'y'}])
        add('cart', [val('x%d' % j, vec([g.f(-3, 3) for _ in range(g.i(5, 14))])) for j in range(3)] + [{'op': 'u_cart', 'xs': [ref('x%d' % j) for j in range(3)], 'out': 'z'}])
        n, m = g.i(40, 90), g.i(1, 3)
        base = [[float(g.i(-3, 3)) for _ in range(m)] for _ in range(n)]
        c = {'op': 'u_uniq', 'x': ref('x'), 'out': 'y', 'sort': g.p(.5), 'index': g.p(.7)}
        if g.p(.5):
            c.update(atol=g.c(['0', '0.5', '1']), rtol='0')
        add('uniq', [val('x', layout(g, mat(base))), c])
        n = g.i(40, 120)
        d = g.i(1, 3)
        add('sph', [val('x', layout(g, mat([[g.f(-9, 9) for _ in range(d)] for _ in range(n)]))), {'op': 'u_sph', 'x': ref('x'), 'out': 'y'}])
        add('ae', [val('x', mat([[g.r.uniform(-math.pi, math.pi), g.r.uniform(-1.5, 1.5)] for _ in range(n)])), {'op': 'u_ae', 'x': ref('x'), 'out': 'y'}])
        add('conv', [val('x', vec([g.r.uniform(-1, 1) for _ in range(n)])), {'op': 'u_conv', 'x': ref('x'), 'frm': g.c(['sin', 'rad', 'deg']), 'to': g.c(['rad', 'deg', 'sin']), 'out': 'y'}])
    return hs


def big_p22(seed, tier, scale):
    from gens_plot import spectrum
    g = G(seed, 'B22')
    hs = []
    for i in range(times(tier, 6, 50, scale)):
        if g.p(.5):
            c, n = big_array(g, 'a', 15, 40 if tier == 'quick' else 60, pert=['loc'])
            co = g.p(.4) and n < 22
            hs.append({'id': 'biga%d' % i, 'cmds': [c, {'op': 'pltarr', 'a': 'a', 'co': co, 'err': g.p(.5)}]})
        else:
            kind = g.c(['g1', 'g1', 'g2'])
            cg, sh = long_grid(g, 'g', kind, 150, 500)
            k2 = 'ff1' if kind == 'g1' else 'ff2'
            s = some_sources(g, 's', g.i(10, 30), k2)
            s['unit'] = cg['unit']
            lim = LIM[k2, cg['unit']]
            if kind == 'g1':
                s['v'] = vec([g.r.uniform(-.98, .98) * lim[0] for _ in range(20)])
            hs.append({'id': 'bigs%d' % i, 'cmds': [cg, s, {'op': 'val', 'out': 'x', 'v': spectrum(g, sh, False)},
                       {'op': 'pltsp', 'g': 'g', 'form': 'single', 'sp': [ref('x')], 'est': 's'}]})
    return hs


def big_p20(seed, tier, scale):
    from gens_sparse import rnd, lval, FORMS
    g = G(seed, 'B20')
    hs = []
    for i in range(times(tier, 6, 60, scale)):
        m, n = g.c([(g.i(8, 14), g.i(15, 40)), (g.i(15, 25), g.i(5, 10))])
        if g.p(.6):
            form, q, cx = g.c(FORMS), 1, False
            pc = {'op': 'mkprob', 'k': 'l1', 'm': m, 'n': n, 'form': form, 'nn': g.p(.5), 'out': 'p'}
        else:
            form, q, cx = 'penalizedl1', g.i(2, 5), g.p(.6)
            pc = {'op': 'mkprob', 'k': 'l21', 'm': m, 'n': n, 'q': q, 'cx': cx, 'out': 'p'}
        cmds = [pc]
        for s in range(3):
            A, b = rnd(g, m, n, cx), rnd(g, m, q, cx)
            cmds.append({'op': 'solve', 'p': 'p', 'A': A, 'b': b, 'l': T(lval(g, form, math.sqrt(m * q))), 'solver': 'CLARABEL', 'out': 'x%d' % s})
        hs.append({'id': 'bigs%d' % i, 'cmds': cmds})
    for i in range(times(tier, 4, 40, scale)):
        c, m = big_array(g, 'a', 5, 6, pert=[])
        cg, sh = long_grid(g, 'g', g.c(['g1', 'g1', 'g2']), 25, 45)
        kind = g.c(['scm', 'gl'])
        if kind == 'scm':
            cmds = [c, cg, {'op': 'mksparse', 'k': 'scm', 'a': 'a', 'g': 'g', 'wl': wlen(g), 'out': 'e', 'known': False}]
            for s in range(2):
                cmds += [cov_cmd(g, 'R%d' % s, m, g.i(1, m - 1)), {'op': 'spest', 'e': 'e', 'R': ref('R%d' % s), 'n': g.i(1, 3), 'l': T(g.r.uniform(.5, 8)), 'solver': 'CLARABEL', 'spec': True, 'out': 'o%d' % s}]
            hs.append({'id': 'bige%d' % i, 'cmds': cmds})
    return hs


def big_p19(seed, tier, scale):
    g = G(seed, 'B19')
    hs = []
    for i in range(times(tier, 3, 40, scale)):
        m = g.i(8, 10)
        k = g.i(4, 5)
        xs = freq_sources(g, k, .85, 1.3 / k)
        if xs is None:
            continue
        ts = ff1_from_sines(g, 's', xs, g.c(['rad', 'deg', 'sin']))
        v = [float(x) for x in ts['v']['v'][0].split()]
        w = .01 * (57 if ts['unit'] == 'deg' else 1)
        zs = [{'op': 'ff1', 'v': vec([x + g.r.uniform(-w, w) for x in v]), 'unit': ts['unit'], 'out': 'z%d' % j} for j in range(2)]
        cmds = [{'op': 'ula', 'n': m, 'd0': T(.5), 'out': 'a'}, ts] + zs + [
            {'op': 'idealcov', 'a': 'a', 's': 's', 'wl': T(1), 'p': vec([g.r.uniform(.8, 4) for _ in range(k)]), 'sg': T(g.c([.1, 1.0])), 'out': 'R'},
            {'op': 'mkml', 'k': g.c(['aml', 'cml', 'wsf']), 'a': 'a', 'wl': T(1), 'out': 'e'}]
        for j in range(2):
            cmds += [{'op': 'mlest', 'e': 'e', 'R': ref('R'), 's0': 'z%d' % j, 'out': 'o%d' % j}, {'op': 'mllast', 'e': 'e', 'out': 'l%d' % j}]
        hs.append({'id': 'big%d' % i, 'cmds': cmds})
    return hs
