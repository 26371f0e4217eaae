"""Special values: borders of the domain of each property that random sampling does not hit."""
import math
from gens import G, T, I, S, ref, vec, mat, array_cmd, pert_spec, pert_item
from gens_src import src_cmd, tup, LIM
from gens_est import cov_cmd, EST, mk, wlen, est_array, wide_grid, ff1_from_sines, eigs
from gens_big import times


def dt(v, np):
    return dict(v, np=np)


def more_p01(seed, tier, scale):
    g = G(seed, 'M01')
    hs = [{'id': 'nested-long', 'cmds': [{'op': 'nested', 'n1': 260, 'n2': 180, 'd0': T(.5), 'out': 'a'}]},
          {'id': 'coprime-long', 'cmds': [{'op': 'coprime', 'm': 2, 'n': 401, 'd0': T(.5), 'out': 'a'}]},
          {'id': 'coprime-long2', 'cmds': [{'op': 'coprime', 'm': 97, 'n': 101, 'mode': 'm', 'd0': T(.5), 'out': 'a'}]}]
    for i, (a, b) in enumerate([(0, 5), (5, 0), (0, 2), (2, 2), (6, 6), (9, 6), (10, 15), (12, 18)]):
        for mode in ('m', '2m'):
            hs.append({'id': 'ncp%d%s' % (i, mode), 'cmds': [{'op': 'coprime', 'm': a, 'n': b, 'mode': mode, 'd0': T(1.0), 'out': 'a'}]})
    for i, mode in enumerate(['2m+', '+m', 'm+', ' m', '2m ', '2', 'mm', 'n', '2n', '22m', 'm2', '1m', 'default', 'none', '2m-1']):
        hs.append({'id': 'mode%d' % i, 'cmds': [{'op': 'coprime', 'm': 2, 'n': 3, 'mode': mode, 'd0': T(1.0), 'out': 'a'}]})
    for i in range(times(tier, 10, 60, scale)):
        nd = g.i(1, 3)
        idx = [[g.i(0, 100) for _ in range(nd)] for _ in range(g.i(1, 6))]
        c = {'op': 'gridarr', 'out': 'a', 'name': 'g', 'idx': dt(mat(idx, 'i'), g.c(['uint8', 'int8', 'uint16', 'int32']))}
        if g.p(.4):
            c['bases'] = mat([[g.f(-2, 2) if i != j else 1.5 for j in range(3)] for i in range(nd)])
        else:
            c['d0'] = T(g.d0()) if g.p(.5) else vec([g.d0() for _ in range(nd)])
        hs.append({'id': 'dt%d' % i, 'cmds': [c, {'op': 'aview', 'a': 'a'}]})
    return hs


def more_p02(seed, tier, scale):
    g = G(seed, 'M02')
    hs = []
    # the same perturbation object named twice
    for i in range(times(tier, 12, 60, scale)):
        n = g.i(2, 4)
        it = pert_item(g, n)
        cmds = [dict(it, op='mkpert', out='p'), {'op': 'ula', 'n': n, 'd0': T(1), 'out': 'a'},
                {'op': 'ula', 'n': n, 'd0': T(1), 'out': 'z', 'pert': {'form': 'list', 'items': [{'ref': 'p'}, {'ref': 'p'}]}},
                {'op': 'pcopy', 'a': 'a', 'out': 'b', 'pert': {'form': 'list', 'items': [{'ref': 'p'}, {'ref': 'p'}]}},
                {'op': 'ula', 'n': n, 'd0': T(1), 'out': 'c', 'pert': {'form': 'list', 'items': [{'ref': 'p'}]}},
                {'op': 'pcopy', 'a': 'c', 'out': 'd', 'pert': {'form': 'list', 'items': [{'ref': 'p'}]}}]
        hs.append({'id': 'same%d' % i, 'cmds': cmds + [{'op': 'aview', 'a': x} for x in ('a', 'b', 'c', 'd')]})
    # long chains of copies, every array looked at again at the end
    for i in range(times(tier, 4, 40, scale)):
        c, n, d = array_cmd(g, 'a0', small=True)
        c['pert'] = pert_spec(g, n)
        cmds, arrs = [c], ['a0']
        for s in range(g.i(25, 60)):
            out = 'a%d' % (s + 1)
            src = g.c([arrs[-1], arrs[-1], g.c(arrs)])
            if g.p(.25):
                cmds.append({'op': 'fcopy', 'a': src, 'out': out})
            else:
                cmds.append({'op': 'pcopy', 'a': src, 'out': out, 'pert': pert_spec(g, n, g.r.sample(['loc', 'gain', 'phase', 'mc'], g.i(0, 2)))})
            if g.p(.3):
                cmds[-1]['name'] = 'n%d' % s
            arrs.append(out)
        hs.append({'id': 'chain%d' % i, 'cmds': cmds + [{'op': 'aview', 'a': x} for x in arrs]})
    return hs


def more_p03(seed, tier, scale):
    g = G(seed, 'M03')
    hs = []
    for i in range(times(tier, 24, 200, scale)):
        r = g.i(0, 3)
        if r == 0:      # long apertures
            n = g.i(2, 6)
            idx = g.r.sample([0, 1, 2, 3, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 100000, 2000000, -70000], n)
            c = {'op': 'gridarr', 'out': 'a', 'name': 'far', 'idx': mat([[x] for x in idx], 'i'), 'd0': T(.5)}
        elif r == 1:    # element types of the indices
            n = g.i(2, 7)
            ty, lo, hi = g.c([('uint8', 0, 255), ('int8', -128, 127), ('int8', -128, 127), ('uint16', 0, 65535), ('int16', -32768, 32767), ('int32', -10**9, 10**9), ('uint32', 0, 10**9), ('uint64', 0, 10**9)])
            idx = g.r.sample(range(0, 120), n) if g.p(.4) else g.r.sample([lo, hi, lo + 1, hi - 1, (lo + hi) // 2, hi // 2, hi // 2 + 1, lo // 2 + 5], n)
            c = {'op': 'gridarr', 'out': 'a', 'name': 'dt', 'idx': dt(mat([[x] for x in idx], 'i'), ty), 'd0': T(.5)}
        elif r == 2:    # perturbed in further dimensions: still a 1D grid
            c, n, d = array_cmd(g, 'a', ['ula', 'nested', 'coprime', 'mrla'], small=True)
            c['pert'] = pert_spec(g, n, g.r.sample(['gain', 'phase', 'mc'], g.i(0, 2)) + ['loc'])
        else:           # one virtual position beyond a hole
            n = g.i(3, 9)
            idx = list(range(n)) + [2 * n + g.i(-2, 2)]
            g.r.shuffle(idx)
            n += 1
            c = {'op': 'gridarr', 'out': 'a', 'name': 'hole', 'idx': mat([[x] for x in idx], 'i'), 'd0': T(.5)}
        cmds = [c, {'op': 'wf', 'a': 'a', 'out': 'w'}, {'op': 'wf_diffs', 'w': 'w', 'out': 'q'}, {'op': 'wf_weights', 'w': 'w'}, {'op': 'wf_len', 'w': 'w'},
                {'op': 'wf_ula', 'w': 'w', 'excl': g.p(.5)}, {'op': 'wf_sel', 'w': 'w', 'excl': g.p(.5)}]
        for d in g.r.sample(range(-9, 10), 3) + g.r.sample([128, 255, 254, 1, -1, 127, -128, -255, 32768, 65535, 100000], 3):
            cmds.append({'op': g.c(['wf_of', 'wf_indices', 'wf_call']), 'w': 'w', 'd': d})
        hs.append({'id': 'm%d' % i, 'cmds': cmds + [{'op': 'aview', 'a': 'a'}]})
    return hs


def strong_pert(g, n):
    """perturbations far from the identity: sign flips, dead sensors, singular couplings, whole turns"""
    items = []
    for t in g.r.sample(['loc', 'gain', 'phase', 'mc'], g.i(1, 3)):
        if t == 'loc':
            d = g.i(1, 3)
            par = mat([[g.r.uniform(-5, 5) for _ in range(d)] for _ in range(n)])
        elif t == 'gain':
            par = vec([g.c([-1.0, -1.5, -2.0, -3.0, 4.0, 0.0, g.r.uniform(-3, 3)]) for _ in range(n)])
        elif t == 'phase':
            par = vec([g.c([math.pi, -math.pi, 2 * math.pi, -7.0, 20.0, 0.0, g.r.uniform(-9, 9)]) for _ in range(n)])
        else:
            par = mat([[g.c([0.0, 1.0, -1.0, g.cx()]) for _ in range(n)] for _ in range(n)], 'c')
        items.append({'ty': t, 'known': g.p(.5), 'par': par})
    return {'form': g.c(['dict', 'list']), 'items': items}


def more_p04(seed, tier, scale):
    g = G(seed, 'M04')
    hs = []
    for i in range(times(tier, 50, 400, scale)):
        c, n, d = array_cmd(g, 'a', small=True, name=False)
        c['pert'] = strong_pert(g, n)
        if g.p(.25):
            c['el'] = g.c(['card', 'nearr'])
        sc, kind, unit, k = src_cmd(g, 's')
        if g.p(.3) and kind == 'nf2':
            sc['v'] = mat([[g.c([0.0, 0.25, 1000.0, -2e3]), g.c([1.0, 1e-3, 5e3])] for _ in range(g.i(1, 3))])
            wl = T(g.c([1.0, 5.0, 50.0]))
        else:
            wl = T(g.c([1.0, .05, 50.0]))
        cmds = [c, sc]
        for w in g.r.sample(['all', 'known', 'none'], 2):
            cmds.append({'op': 'steer', 'a': 'a', 's': 's', 'wl': wl, 'which': w})
        hs.append({'id': 'm%d' % i, 'cmds': cmds + [{'op': 'aview', 'a': 'a'}]})
    return hs


def more_p05(seed, tier, scale):
    g = G(seed, 'M05')
    hs = []
    for i in range(times(tier, 40, 300, scale)):
        c, n, d = array_cmd(g, 'a', small=True, name=False)
        c['pert'] = strong_pert(g, n)
        sc, kind, unit, k = src_cmd(g, 's', 'ff1', margin=.97)
        cmds = [c, sc]
        for w in g.r.sample(['all', 'known', 'none'], 2):
            cmds.append({'op': 'steer', 'a': 'a', 's': 's', 'wl': T(g.c([1.0, .05, 20.0])), 'which': w, 'deriv': True})
        hs.append({'id': 'm%d' % i, 'cmds': cmds + [{'op': 'aview', 'a': 'a'}]})
    return hs


def more_p06(seed, tier, scale):
    g = G(seed, 'M06')
    hs = []
    for i in range(times(tier, 40, 300, scale)):
        c, kind, unit, n = src_cmd(g, 's')
        cmds = [c]
        for q in range(g.i(2, 4)):
            r = g.i(0, 3)
            if r == 0:      # masks as lists, nothing selected
                v = [g.p(.5) for _ in range(n)]
                key = {'t': 'list', 'v': [{'t': 'bool', 'v': x} for x in v]}
            elif r == 1:
                key = g.c([{'t': 'slice', 'a': I(n), 'b': {'t': 'none'}, 's': {'t': 'none'}}, vec([0] * n, 'b')])
            elif r == 2:    # repeated, reversed
                v = [g.i(-n, n - 1) for _ in range(g.i(4, 9))]
                key = g.c([{'t': 'list', 'v': [I(x) for x in v]}, vec(v, 'i'), dt(vec([x % n for x in v], 'i'), 'uint8')])
            else:
                key = {'t': 'slice', 'a': {'t': 'none'}, 'b': {'t': 'none'}, 's': g.c([I(-1), I(1), {'t': 'none'}])}
            cmds += [{'op': 'sget', 's': 's', 'key': key, 'out': 't%d' % q}, {'op': 'sview', 's': 't%d' % q}]
        hs.append({'id': 'k%d' % i, 'cmds': cmds + [{'op': 'sview', 's': 's'}]})
    # roots: repeated ones, on the axes, on and off the unit circle, and roots no direction belongs to
    for i in range(times(tier, 60, 400, scale)):
        wl = g.c([1.0, .5, 2.0])
        inv = g.p(.5)
        d0 = wl * (g.c([.1, .25, .3, .45]) if inv else g.c([.5, .75, 1.0, 2.0]))
        n = g.i(1, 5)
        ph = []
        for _ in range(n):
            x = g.c([0.0, .5, -.5, .25, g.r.uniform(-.99, .99)])
            if not inv and g.p(.2):
                x = g.c([-.999, .999])
            ph.append(x)
        if g.p(.3):
            ph.append(ph[0])
        z = [g.c([1.0, 1.0, 1e-3, 50.0, g.r.uniform(.2, 2)]) * complex(math.cos(math.pi * x), math.sin(math.pi * x)) for x in ph]
        if inv and any(abs(abs(x) / 2 - d0 / wl) < 1e-6 for x in ph):
            continue
        c = {'op': 'from_z', 'z': vec(z, 'c'), 'wl': T(wl), 'd0': T(d0)}
        u = g.c(['rad', 'deg', 'sin', None])
        if u:
            c['unit'] = u
        hs.append({'id': 'z%d' % i, 'cmds': [c]})
    # reference points around, on and far from the sources
    for i in range(times(tier, 30, 200, scale)):
        k = g.i(1, 4)
        X = [[g.c([0.0, 1.0, -2.5, 1e-4, 3e4, g.f(-9, 9)]) for _ in range(2)] for _ in range(k)]
        d = g.i(1, 3)
        P = [[g.c([0.0, 1.0, -2.5, 5e3, g.f(-9, 9)]) for _ in range(d)] for _ in range(g.i(1, 4))]
        if d > 1 and g.p(.4):
            P[0][:2] = X[0]
        hs.append({'id': 'sph%d' % i, 'cmds': [{'op': 'nf2', 'v': mat(X), 'out': 's'}, {'op': 'ssph', 's': 's', 'ref': mat(P)}]})
    return hs


def more_p07(seed, tier, scale):
    g = G(seed, 'M07')
    hs = []
    # almost uniform axes: refinement must keep their points
    for i in range(times(tier, 30, 250, scale)):
        kind = g.c(['g1', 'g1', 'g2', 'gn'])
        u = {'g1': g.c(['rad', 'deg', 'sin']), 'g2': g.c(['rad', 'deg']), 'gn': 'm'}[kind]
        lim = LIM[{'g1': 'ff1', 'g2': 'ff2', 'gn': 'nf2'}[kind], u]
        axs, sh = [], []
        for L in lim:
            n = g.i(3, 9)
            e = g.c([1e-2, 1e-3, 1e-4, 1e-5, 1e-6])
            lo, hi = -L * g.r.uniform(.2, .9), L * g.r.uniform(.2, .9)
            st = (hi - lo) / n
            ax = [lo + st * (j + (e * g.r.uniform(-1, 1) if 0 < j else 0)) for j in range(n)]
            if g.p(.15):
                ax = ax[::-1]
            axs.append(vec(ax))
            sh.append(n)
        c = {'op': kind, 'axes': tup(*axs), 'out': 'g0'}
        if kind != 'gn':
            c['unit'] = u
        cmds = [c]
        for q in range(g.i(1, 3)):
            cmds.append({'op': g.c(['gref', 'grefax']), 'g': 'g0', 'coord': [g.i(0, x - 1) for x in sh], 'density': g.i(1, 5), 'span': g.i(1, 3)})
        hs.append({'id': 'nu%d' % i, 'cmds': cmds + [{'op': 'gview', 'g': 'g0'}]})
    # segments that touch, descend, or are a single point
    for i in range(times(tier, 15, 120, scale)):
        u = g.c(['rad', 'deg', 'sin'])
        L = LIM['ff1', u][0]
        k = g.i(2, 4)
        st, sp, sz = [], [], []
        x = -L
        for _ in range(k):
            y = x + g.r.uniform(.1, .4) * L
            a, b = (x, y) if g.p(.7) else (y, x)
            if g.p(.15):
                b = a
            st.append(a)
            sp.append(b)
            sz.append(g.i(1, 5))
            x = y if g.p(.6) else min(y + .1 * L, .9 * L)
            if x > .5 * L:
                x = -.9 * L
        hs.append({'id': 'seg%d' % i, 'cmds': [{'op': 'g1', 'start': tup(*[T(x) for x in st]), 'stop': tup(*[T(x) for x in sp]), 'size': tup(*[I(x) for x in sz]), 'unit': u, 'out': 'g'},
                                               {'op': 'gview', 'g': 'g'}, {'op': 'gview', 'g': 'g'}]})
    return hs


def indef_cov(g, out, m):
    """a Hermitian matrix that is no covariance (a difference of two)"""
    l = [g.r.uniform(-6, 6) for _ in range(m)] if g.p(.5) else [g.r.uniform(-9, -1) for _ in range(m)]
    return {'op': 'mkcov', 'out': out, 'l': vec(sorted(l)), 'seed': g.i(0, 10**6), 'real': False}


def nonherm(g, m):
    return mat([[g.cx() + (3.0 if i == j else 0.0) for j in range(m)] for i in range(m)], 'c')


def more_p08(seed, tier, scale):
    g = G(seed, 'M08')
    hs = []
    for i in range(times(tier, 40, 300, scale)):
        ca, m = est_array(g, 'a', mn=3)
        cg, kk, u, sh = wide_grid(g, 'g')
        cmds = [ca, cg, mk(g, 'bartlett', 'e', 'a', 'g', wlen(g), g.c(['default', 'default', 'even', 'rev'])), indef_cov(g, 'R', m)]
        for n in g.r.sample(range(0, 6), 3):
            c = {'op': 'est', 'e': 'e', 'R': ref('R'), 'n': n, 'out': 'o%d' % n}
            if g.p(.6):
                c['spec'] = True
            cmds.append(c)
        hs.append({'id': 'neg%d' % i, 'cmds': cmds})
    for i in range(times(tier, 40, 300, scale)):
        a, b = g.i(1, 6), g.i(1, 6)
        lo, hi = g.c([(-5, 0), (-3, 3), (-1, -1), (0, 1)])
        e = g.c([1.0, 1e-9, 1e9])
        hs.append({'id': 'pk%d' % i, 'cmds': [{'op': 'val', 'out': 'x', 'v': mat([[g.i(lo, hi) * e for _ in range(b)] for _ in range(a)])}, {'op': 'peaks', 'x': ref('x')},
                                              {'op': 'val', 'out': 'y', 'v': vec([g.i(lo, hi) * e for _ in range(g.i(1, 20))])}, {'op': 'peaks', 'x': ref('y')}]})
    # differences in the last place
    for i in range(times(tier, 20, 200, scale)):
        a, b = g.i(2, 5), g.i(2, 5)
        f = lambda: g.c([1.0, math.nextafter(1.0, 2), math.nextafter(1.0, 0), 1.0 + 1e-12, 1 - 1e-13])
        hs.append({'id': 'ulp%d' % i, 'cmds': [{'op': 'val', 'out': 'x', 'v': mat([[f() for _ in range(b)] for _ in range(a)])}, {'op': 'peaks', 'x': ref('x')},
                                               {'op': 'val', 'out': 'y', 'v': vec([f() for _ in range(g.i(3, 12))])}, {'op': 'peaks', 'x': ref('y')}]})
    return hs


def more_p09(seed, tier, scale):
    g = G(seed, 'M09')
    hs = []
    # covariances that agree in trace, norm, diagonal, spectrum or first row
    for i in range(times(tier, 22, 200, scale)):
        m = g.i(3, 5)
        ca = {'op': 'ula', 'n': m, 'd0': T(.5), 'out': 'a'}
        cg = {'op': 'g1', 'start': T(-.9), 'stop': T(.9), 'size': I(g.i(15, 25)), 'unit': 'sin', 'out': 'g'}
        l = vec(eigs(g, m, g.i(1, m - 1)))
        cmds = [ca, cg]
        kinds = g.r.sample(EST, 2)
        for s, k in enumerate(kinds):
            cmds.append(mk(g, k, 'e%d' % s, 'a', 'g', T(1.0), 'default'))
        for s in range(3):
            cmds.append({'op': 'mkcov', 'out': 'R%d' % s, 'l': l, 'seed': g.i(0, 10**6), 'real': False})
        for q in range(g.i(5, 8)):
            s = g.i(0, 1)
            cmds.append({'op': 'est', 'e': 'e%d' % s, 'R': ref('R%d' % g.i(0, 2)), 'n': g.i(1, 2), 'spec': True})
            if kinds[s] in ('music', 'minnorm'):
                cmds[-1]['n'] = g.i(1, m - 1)
        hs.append({'id': 'same%d' % i, 'cmds': cmds})
    # refined grids of the size of the search grid
    for i in range(times(tier, 24, 200, scale)):
        m = g.i(3, 5)
        kind = g.c(EST)
        den = g.i(3, 10)
        k = 1
        two = g.p(.25)
        if two:
            den = g.i(1, 3)
            cg = {'op': 'gn', 'start': tup(T(-3.0), T(1.0)), 'stop': tup(T(3.0), T(6.0)), 'size': tup(I(2 * den + 1), I(2 * den + 1)), 'out': 'g'}
        else:
            cg = {'op': 'g1', 'start': T(-.9), 'stop': T(.95), 'size': I(2 * den + 1), 'unit': 'sin', 'out': 'g'}
        cmds = [{'op': 'ula', 'n': m, 'd0': T(.5), 'out': 'a'}, cg, mk(g, kind, 'e', 'a', 'g', T(1.0), 'max1', cache=g.c([True, True, False])),
                cov_cmd(g, 'R', m, k, real=False), cov_cmd(g, 'Q', m, k, real=False)]
        e = lambda R, **x: dict({'op': 'est', 'e': 'e', 'R': ref(R), 'n': k}, **x)
        cmds += [e('R', refine=True, density=den, iters=g.i(1, 3)), e('R', spec=True), e('Q', spec=True), e('Q', refine=True, density=den, iters=2, spec=True), e('R', spec=True)]
        hs.append({'id': 'eqsz%d' % i, 'cmds': cmds + [{'op': 'gview', 'g': 'g'}]})
    # matrices that are not Hermitian stay as they are
    for i in range(times(tier, 14, 100, scale)):
        ca, m = est_array(g, 'a', mn=2, mx=5)
        cg, kk, u, sh = wide_grid(g, 'g', 'g1', hi=20)
        cmds = [ca, cg, {'op': 'val', 'out': 'R', 'v': nonherm(g, m)}]
        for s, kind in enumerate(g.r.sample(['bartlett', 'mvdr'], g.i(1, 2))):
            cmds += [mk(g, kind, 'e%d' % s, 'a', 'g', wlen(g), 'default'), {'op': 'est', 'e': 'e%d' % s, 'R': ref('R'), 'n': 1, 'spec': True}, {'op': 'est', 'e': 'e%d' % s, 'R': ref('R'), 'n': 1, 'spec': True}]
        hs.append({'id': 'nh%d' % i, 'cmds': cmds})
    return hs


def more_p10(seed, tier, scale):
    g = G(seed, 'M10')
    hs = []
    for i in range(times(tier, 40, 300, scale)):
        ca, m = est_array(g, 'a', mn=2)
        cg, kk, u, sh = wide_grid(g, 'g', lo=1, hi=20)
        kind = g.c(['bartlett', 'bartlett', 'mvdr'])
        if kind == 'mvdr':
            cov = {'op': 'mkcov', 'out': 'R', 'l': vec(sorted(g.r.uniform(-9, -1) for _ in range(m))), 'seed': g.i(0, 10**6), 'real': False}
        else:
            cov = indef_cov(g, 'R', m)
        hs.append({'id': 'ind%d' % i, 'cmds': [ca, cg, cov, mk(g, kind, 'e', 'a', 'g', wlen(g), 'default'), {'op': 'est', 'e': 'e', 'R': ref('R'), 'n': 1, 'spec': True}]})
    # the first sensor almost alone in the signal subspace
    for i in range(times(tier, 25, 200, scale)):
        m = g.i(2, 6)
        e = g.c([1e-2, 1e-3, 1e-4])
        rows = [[0.0] * m for _ in range(m)]
        d = sorted([g.r.uniform(.5, 2) for _ in range(m - 1)])
        for j in range(1, m):
            rows[j][j] = d[j - 1] + .3 * j
        rows[0][0] = 20.0
        for j in range(1, m):
            z = e * 10 * g.cx()
            rows[0][j], rows[j][0] = z, z.conjugate()
        hs.append({'id': 'c%d' % i, 'cmds': [{'op': 'ula', 'n': m, 'd0': T(.5), 'out': 'a'}, {'op': 'g1', 'size': I(g.i(5, 20)), 'unit': 'sin', 'out': 'g'},
                   {'op': 'val', 'out': 'R', 'v': mat([[complex(x) for x in r] for r in rows], 'c')}, mk(g, 'minnorm', 'e', 'a', 'g', T(1.0), 'default'),
                   {'op': 'est', 'e': 'e', 'R': ref('R'), 'n': 1, 'spec': True}]})
    return hs


def more_p11(seed, tier, scale):
    g = G(seed, 'M11')
    hs = []
    # weights that would broadcast
    for i in range(times(tier, 8, 40, scale)):
        m = g.i(3, 6)
        w = g.c([vec([1.0]), vec([2.0]), mat([[1.0] * (m - 1)]), mat([[1.0]] * (m - 1)), {'t': 'arr', 'sh': [0], 'dt': 'f', 'v': []}])
        hs.append({'id': 'w%d' % i, 'cmds': [cov_cmd(g, 'R', m, 1, real=False), {'op': 'mkest', 'k': 'esprit', 'wl': T(1), 'out': 'e'},
                                             {'op': 'est', 'e': 'e', 'R': ref('R'), 'n': 1, 'rw': w}]})
    # polynomials with tiny coefficients: lags at which the sources almost cancel
    for i in range(times(tier, 30, 250, scale)):
        m = g.i(3, 7)
        lag = g.i(1, m - 1)
        e = g.c([1e-4, 1e-5, 3e-5, 1e-6])
        wl = g.c([1.0, .5])
        d0 = wl / 2
        dx = 1.0 / lag + e
        x0 = g.r.uniform(-.9, .9 - dx) if dx < 1.7 else -.85
        xs = [x0, x0 + dx]
        if xs[1] > .95 or m - 1 < 2:
            continue
        est = {'op': 'est', 'e': 'e', 'R': ref('R'), 'n': 2, 'unit': g.c(['rad', 'deg', 'sin']), 'd0': T(d0)}
        hs.append({'id': 'lag%d' % i, 'cmds': [{'op': 'ula', 'n': m, 'd0': T(d0), 'out': 'a'}, ff1_from_sines(g, 's', xs),
                   {'op': 'idealcov', 'a': 'a', 's': 's', 'wl': T(wl), 'p': vec([1.0, 1.0]), 'sg': T(1.0), 'out': 'R'},
                   {'op': 'mkest', 'k': g.c(['rootmusic', 'rootmusic', 'esprit']), 'wl': T(wl), 'out': 'e'}, est]})
    return hs


def more_p13(seed, tier, scale):
    g = G(seed, 'M13')
    hs = []
    for i in range(times(tier, 16, 120, scale)):
        c, n, d = array_cmd(g, 'a', ['ula', 'nested', 'coprime', 'mrla'], small=True)
        r = g.i(0, 2)
        if r == 0:
            c['pert'] = pert_spec(g, n, g.r.sample(['gain', 'phase', 'mc'], g.i(0, 2)) + ['loc'])
        elif r == 1:
            n = g.i(2, 6)
            c = {'op': 'gridarr', 'out': 'a', 'name': 'dt', 'idx': dt(mat([[x] for x in g.r.sample(range(0, 12), n)], 'i'), g.c(['uint8', 'int8', 'uint16', 'uint32'])), 'd0': T(.5)}
        R = g.c([mat([[g.cx() for _ in range(n)] for _ in range(n)], 'c'), mat([[g.i(-9, 9) for _ in range(n)] for _ in range(n)], 'i'),
                 dt(mat([[g.i(-99, 99) for _ in range(n)] for _ in range(n)], 'i'), g.c(['int8', 'int16', 'int32']))])
        cmds = [c, {'op': 'mkacm', 'a': 'a', 'out': 'b'}, {'op': 'val', 'out': 'R', 'v': R}]
        for q, me in enumerate(['ss', 'da']):
            cmds.append({'op': 'acm', 'b': 'b', 'R': ref('R'), 'method': me})
        for me in g.r.sample(['', 's', 'a', 'ss,da', ',', 'DA', 'ssda', 'd'], 2):
            cmds.append({'op': 'acm', 'b': 'b', 'R': ref('R'), 'method': me})
        hs.append({'id': 'm%d' % i, 'cmds': cmds + [{'op': 'vula', 'b': 'b'}, {'op': 'acmview', 'b': 'b'}, {'op': 'aview', 'a': 'a'}]})
    return hs


def more_p14(seed, tier, scale):
    g = G(seed, 'M14')
    hs = []
    for i in range(times(tier, 20, 120, scale)):
        m = g.i(2, 6)
        t, lo, hi = g.c([('int8', -128, 127), ('uint8', 0, 255), ('int16', -32768, 32767), ('int32', -2**31, 2**31 - 1)])
        R = dt(mat([[g.c([lo, hi, g.i(lo, hi)]) for _ in range(m)] for _ in range(m)], 'i'), t)
        hs.append({'id': 'n%d' % i, 'cmds': [{'op': 'val', 'out': 'R', 'v': R}] + [{'op': 'ssmooth', 'R': ref('R'), 'l': g.i(1, m), 'fb': g.p(.5)} for _ in range(3)]})
    return hs


def more_p16(seed, tier, scale):
    g = G(seed, 'M16')
    hs = []
    # channels of very different power
    for i in range(times(tier, 12, 100, scale)):
        d = g.i(2, 4)
        D = [g.c([1.0, 1e-2, 1e-4, 1e3]) for _ in range(d)]
        L = [[g.cx() for _ in range(d)] for _ in range(d)]
        M = [[sum(L[a][q] * L[b][q].conjugate() for q in range(d)) + (.3 if a == b else 0) for b in range(d)] for a in range(d)]
        if g.p(.5):
            M = [[M[a][b] if a == b else 1j * M[a][b].imag for b in range(d)] for a in range(d)]
            for a in range(d):
                M[a][a] = complex(sum(abs(M[a][b]) for b in range(d) if b != a) + .1)
        rows = [[0j] * d for _ in range(d)]
        for a in range(d):
            rows[a][a] = complex(M[a][a].real * D[a] * D[a])
            for b in range(a):
                z = M[a][b] * D[a] * D[b]
                rows[a][b], rows[b][a] = z, z.conjugate()
        hs.append({'id': 's%d' % i, 'cmds': [{'op': 'val', 'out': 'C', 'v': mat(rows, 'c')}, {'op': 'mksig', 'k': 'cn', 'dim': d, 'par': ref('C'), 'out': 'x'}, {'op': 'emitstat', 'g': 'x', 'n': 40000}]})
    # covariances that are almost real, almost diagonal, almost singular
    for i in range(times(tier, 25, 200, scale)):
        d = g.i(2, 4)
        e = g.c([1e-2, 1e-3, 1e-5])
        rows = [[complex(0.0) for _ in range(d)] for _ in range(d)]
        for a in range(d):
            rows[a][a] = complex(g.r.uniform(1, 3))
            for b in range(a):
                z = complex(g.c([0.0, .3]), 0) + e * g.cx()
                rows[a][b], rows[b][a] = z, z.conjugate()
        hs.append({'id': 'm%d' % i, 'cmds': [{'op': 'val', 'out': 'C', 'v': mat(rows, 'c')}, {'op': 'mksig', 'k': 'cn', 'dim': d, 'par': ref('C'), 'out': 'x'},
                   {'op': 'emit', 'g': 'x', 'n': 5}, {'op': 'emitstat', 'g': 'x', 'n': 40000}]})
    return hs


def more_p21(seed, tier, scale):
    g = G(seed, 'M21')
    hs = []
    for i in range(times(tier, 25, 200, scale)):
        n, m = g.i(1, 8), g.i(1, 3)
        t, lo, hi = g.c([('int8', -128, 127), ('uint8', 0, 255), ('uint16', 0, 65535), ('int32', -2**31, 2**31 - 1), ('uint32', 0, 2**32 - 1)])
        base = [g.i(lo + 3, hi - 3) for _ in range(m)]
        rows = [[g.c([lo, hi, base[j] + g.i(-3, 3), base[j]]) for j in range(m)] for _ in range(n)]
        c = {'op': 'u_uniq', 'x': ref('x'), 'out': 'y', 'rtol': '0'}
        if g.p(.8):
            c['atol'] = g.c(['0', '1', '2', '5'])
        if g.p(.5):
            c['index'] = g.p(.7)
        if g.p(.5):
            c['sort'] = g.p(.7)
        hs.append({'id': 'n%d' % i, 'cmds': [{'op': 'val', 'out': 'x', 'v': dt(mat(rows, 'i'), t)}, c]})
    # single precision, where nothing is rounded
    for i in range(times(tier, 8, 60, scale)):
        Q = [[1, 1, 1, 1], [1, 1j, -1, -1j], [1, -1, 1, -1], [1, -1j, -1, 1j]]
        cols = g.r.sample(range(4), g.i(1, 3))
        ro = g.r.sample(range(4), 4)
        A = dt(mat([[complex(Q[r][c]) * 2 for c in cols] for r in ro], 'c'), 'complex64')
        B = dt(mat([[complex(g.i(-3, 3), g.i(-3, 3)) for c in cols] for r in range(g.i(1, 3))], 'c'), 'complex64')
        hs.append({'id': 'sp%d' % i, 'cmds': [{'op': 'val', 'out': 'A', 'v': A}, {'op': 'val', 'out': 'B', 'v': B}, {'op': 'u_projm', 'x': ref('A'), 'base': ref('A'), 'pinv': False}, {'op': 'u_kr', 'x': ref('A'), 'y': ref('B')},
                                              {'op': 'u_abs2', 'x': ref('B')}, {'op': 'u_vec', 'x': ref('B')}]})
    return hs


def more_p17(seed, tier, scale):
    """signal to noise ratios far from one"""
    g = G(seed, 'M17')
    hs = []
    for i in range(times(tier, 16, 150, scale)):
        m = g.i(3, 6)
        n, d0 = m, .5
        ca = {'op': 'ula', 'n': m, 'd0': T(.5), 'out': 'a'}
        if g.p(.4):
            ca['pert'] = pert_spec(g, m)
        k = g.i(1, 2)
        xs = [g.r.uniform(-.8, -.1), g.r.uniform(.3, .8)][:k]
        p, sg = g.c([(1.0, 1e-7), (1e6, .1), (1e-3, 10.0), (1e-2, 1e-8), (1e5, 1e-2), (1e-4, 1.0)])
        cmds = [ca, ff1_from_sines(g, 's', xs)]
        for q, f in enumerate(g.r.sample(['sto', 'det', 'stouc'], 2)):
            c = {'op': 'bound', 'f': f, 'a': 'a', 's': 's', 'sg': T(sg), 'wl': T(1.0), 'out': 'o%d' % q, 'n': g.c([1, 2, 10, 10**6])}
            if f == 'det':
                c['X'] = mat([[g.cx() * math.sqrt(p) for _ in range(4)] for _ in range(k)], 'c')
            else:
                c['p'] = T(p) if g.p(.5) else vec([p * g.r.uniform(.5, 2) for _ in range(k)])
            cmds.append(c)
        hs.append({'id': 'snr%d' % i, 'cmds': cmds})
    return hs


def more_p18(seed, tier, scale):
    g = G(seed, 'M18')
    hs = []
    for i in range(times(tier, 8, 100, scale)):
        ca = g.c([{'op': 'nested', 'n1': 2, 'n2': 2}, {'op': 'coprime', 'm': 2, 'n': 3}, {'op': 'mrla', 'n': 4}, {'op': 'ula', 'n': 4}])
        ca = dict(ca, d0=T(.5), out='a')
        k = g.i(1, 2)
        xs = [g.r.uniform(-.8, -.1), g.r.uniform(.3, .8)][:k]
        p, sg = g.c([(1.0, 1e-3), (100.0, .1), (1e-2, 1.0)])
        c = {'op': 'bound', 'f': g.c(['music', 'comusic', 'comusic']), 'a': 'a', 's': 's', 'sg': T(sg), 'p': T(p) if g.p(.5) else vec([p * g.r.uniform(.5, 2) for _ in range(k)]),
             'wl': T(1.0), 'out': 'o', 'n': g.c([1, 10, 10**6])}
        hs.append({'id': 'snr%d' % i, 'cmds': [ca, ff1_from_sines(g, 's', xs), c]})
    return hs


def more_p19(seed, tier, scale):
    """sources with two coordinates, the guess next to the truth, in any order"""
    g = G(seed, 'M19')
    hs = []
    for i in range(times(tier, 10, 100, scale)):
        kind = g.c(['ff2', 'nf2'])
        k = g.i(2, 3)
        if kind == 'nf2':
            m = g.i(6, 8)
            ca = {'op': 'ula', 'n': m, 'd0': T(.5), 'out': 'a'}
            X = [[x + g.r.uniform(-.3, .3), y] for x, y in zip(g.r.sample([-4.0, 0.0, 4.0], k), g.r.sample([2.0, 3.0, 5.0], k))]
            lim = .05
            u = None
        else:
            ca = {'op': 'uca', 'n': 7, 'r': T(.7), 'out': 'a'}
            X = [[x + g.r.uniform(-.1, .1), y] for x, y in zip(g.r.sample([-2.0, 0.1, 2.2], k), g.r.sample([.9, .5, .2], k))]
            u = g.c(['rad', 'deg'])
            lim = .01
            if u == 'deg':
                X, lim = [[math.degrees(t) for t in x] for x in X], .6
        mkc = lambda out, q: dict({'op': kind, 'v': mat(q), 'out': out}, **({'unit': u} if u else {}))
        cmds = [ca, mkc('s', X)] + [mkc('z%d' % j, [[t + g.r.uniform(-lim, lim) for t in x] for x in X]) for j in range(3)]
        cmds += [{'op': 'idealcov', 'a': 'a', 's': 's', 'wl': T(1.0), 'p': vec([g.r.uniform(1, 3) for _ in range(k)]), 'sg': T(.1), 'out': 'R'},
                 {'op': 'mkml', 'k': g.c(['aml', 'cml', 'wsf']), 'a': 'a', 'wl': T(1.0), 'out': 'e'}]
        for j in range(3):
            cmds += [{'op': 'mlest', 'e': 'e', 'R': ref('R'), 's0': 'z%d' % j, 'out': 'o%d' % j}, {'op': 'mllast', 'e': 'e'}]
        hs.append({'id': 'two%d' % i, 'cmds': cmds})
    return hs


def more_p22(seed, tier, scale):
    """arrays that are much longer along one axis, on fresh figures and on given axes"""
    g = G(seed, 'M22')
    hs = []
    for i in range(times(tier, 14, 100, scale)):
        n = g.i(1, 6)
        D = [g.c([0.0, 1.0, 1e-3, 40.0, 1e3]) for _ in range(3)]
        X = [[g.i(-9, 9) * D[q] for q in range(3)] for _ in range(n)]
        cmds = [{'op': 'mkfig', 'dims': [3, 3], 'out': 'f'}, {'op': 'custom', 'name': 't', 'loc': mat(X), 'out': 'a'}]
        if g.p(.5):
            cmds[1]['pert'] = {'form': 'list', 'items': [{'ty': 'loc', 'known': False, 'par': mat([[g.i(-3, 3) * D[q] for q in range(3)] for _ in range(n)])}]}
        for q in range(g.i(1, 3)):
            c = {'op': 'pltarr', 'a': 'a', 'co': g.p(.4), 'err': g.p(.7)}
            if g.p(.6):
                c['f'], c['i'] = 'f', g.i(0, 1)
            cmds.append(c)
        hs.append({'id': 'tall%d' % i, 'cmds': cmds + [{'op': 'pltclose', 'f': 'f'}]})
    return hs
