"""Histories about coarray augmentation, preprocessing, enumeration, signals (P13 - P16)."""
import math
from gens import G, T, I, S, ref, vec, mat, array_cmd, pert_spec
from gens_src import src_cmd
from gens_est import cov_cmd, eigs, freq_sources, ff1_from_sines, bad_cov


def coarray_array(g, out, mx=8):
    k = g.c(['ula', 'nested', 'coprime', 'mrla', 'grid1', 'grid1'])
    if k == 'grid1':
        n = g.i(1, mx)
        pool = g.c([range(0, 8), range(0, 15), range(-6, 12)])
        idx = g.r.sample(list(pool), min(n, len(pool))) if g.p(.8) else [g.c(pool) for _ in range(n)]
        c = {'op': 'gridarr', 'out': out, 'name': 'g%d' % n, 'idx': mat([[x] for x in idx], 'i')}
        if g.p(.2):
            c['bases'] = mat([[g.c([1.0, 0.5, 2.0])]])
        else:
            c['d0'] = T(g.d0())
        return c, len(idx)
    c, n, d = array_cmd(g, out, [k], small=True)
    return c, n


def anymat(g, m, n=None, dt=None):
    """a matrix without any symmetry"""
    n = m if n is None else n
    dt = dt or g.c(['c', 'c', 'f', 'i'])
    f = {'c': lambda: g.cx(), 'f': lambda: g.r.gauss(0, 1), 'i': lambda: g.i(-9, 9)}[dt]
    v = mat([[f() for _ in range(n)] for _ in range(m)], dt)
    if g.p(.2):
        v['fortran'] = True
    return v


def gen_p13(seed, tier, scale):
    g = G(seed, 'P13')
    hs = []
    for i in range(int((230 if tier == 'quick' else 2000) * scale)):
        ca, m = coarray_array(g, 'a')
        if g.p(.15) and m > 1:
            ca['pert'] = pert_spec(g, m, ['gain'])
        cmds = [ca, {'op': 'mkacm', 'a': 'a', 'out': 'b'}]
        for s in range(g.i(1, 4)):
            r = g.r.random()
            R = 'R%d' % s
            if r < .5:
                cmds.append({'op': 'val', 'out': R, 'v': anymat(g, m)} if g.p(.6) else cov_cmd(g, R, m, g.i(0, m)))
            else:
                k = g.i(1, 4)
                cmds += [ff1_from_sines(g, 's%d' % s, [g.r.uniform(-.95, .95) for _ in range(k)]),
                         {'op': 'idealcov', 'a': 'a', 's': 's%d' % s, 'wl': T(g.c([1.0, .5, 2.0])), 'p': vec([g.r.uniform(.5, 4) for _ in range(k)]), 'sg': T(g.c([0.0, .1, 1.0])), 'out': R}]
            for q in range(g.i(1, 2)):
                c = {'op': 'acm', 'b': 'b', 'R': ref(R), 'out': 'o%d%d' % (s, q)}
                if g.p(.85):
                    c['method'] = g.c(['ss', 'da'])
                if g.p(.3):
                    c['call'] = True
                cmds.append(c)
                if g.p(.3):
                    cmds.append({'op': 'poke', 'x': c['out']})
            if g.p(.2):
                bad = {'op': 'acm', 'b': 'b', 'R': ref(R), 'method': g.c(['SS', 'fb', '', 'ds'])} if g.p(.5) else {'op': 'acm', 'b': 'b', 'R': bad_cov(g, m)}
                cmds.append(bad)
            if g.p(.4):
                c = {'op': 'vula', 'b': 'b', 'out': 'v%d' % s}
                if g.p(.4):
                    c['name'] = g.c(['V', 'virtual', ''])
                cmds.append(c)
        cmds += [{'op': 'acmview', 'b': 'b'}, {'op': 'vula', 'b': 'b'}, {'op': 'aview', 'a': 'a'}]
        hs.append({'id': 'r%d' % i, 'cmds': cmds})
    rej = [{'op': 'uca', 'n': 5, 'r': T(1)}, {'op': 'ura', 'm': 2, 'n': 3, 'd0': T(1)}, {'op': 'custom', 'name': 'c', 'loc': vec([0.0, 1.0, 2.0])},
           {'op': 'gridarr', 'name': 'g', 'idx': mat([[0, 0], [1, 2]], 'i'), 'd0': T(1)}, {'op': 'gridarr', 'name': 'g', 'idx': mat([[0], [1]], 'i'), 'bases': mat([[1.0, 1.0]])}]
    for i, c in enumerate(rej):
        hs.append({'id': 'rej%d' % i, 'cmds': [dict(c, out='a'), {'op': 'mkacm', 'a': 'a', 'out': 'b'}]})
    return hs


def gen_p14(seed, tier, scale):
    g = G(seed, 'P14')
    hs = []
    for i in range(int((250 if tier == 'quick' else 2500) * scale)):
        m = g.i(1, 8)
        cmds = [{'op': 'val', 'out': 'R', 'v': anymat(g, m)} if g.p(.7) else cov_cmd(g, 'R', m, g.i(0, m))]
        for q in range(g.i(1, 5)):
            c = {'op': 'ssmooth', 'R': ref('R'), 'l': g.i(1, m) if g.p(.85) else g.c([0, -1, m + 1, m + 5]), 'out': 'S%d' % q}
            if g.p(.7):
                c['fb'] = g.p(.6)
            if not 1 <= c['l'] <= m:
                c.pop('out')
            cmds.append(c)
            if 'out' in c and g.p(.3):
                cmds.append({'op': 'poke', 'x': c['out']})
            elif 'out' in c and g.p(.2) and m - c['l'] + 1 > 1:
                cmds.append({'op': 'ssmooth', 'R': ref(c['out']), 'l': g.i(1, m - c['l'] + 1), 'fb': g.p(.5)})
        hs.append({'id': 's%d' % i, 'cmds': cmds})
    for i in range(int((120 if tier == 'quick' else 1000) * scale)):
        m, n = g.i(1, 7), g.i(1, 12)
        cmds = [{'op': 'val', 'out': 'Y', 'v': anymat(g, m, n)}]
        for q in range(g.i(1, 2)):
            cmds.append({'op': 'l1svd', 'y': ref('Y'), 'k': g.i(1, min(m, n)), 'out': 'y%d' % q})
            if g.p(.3):
                cmds.append({'op': 'poke', 'x': 'y%d' % q} if False else {'op': 'ssmooth', 'R': anymat(g, 2), 'l': 1})
        hs.append({'id': 'l%d' % i, 'cmds': cmds})
    return hs


def gen_p15(seed, tier, scale):
    g = G(seed, 'P15')
    hs = []
    for i in range(int((260 if tier == 'quick' else 2500) * scale)):
        m = g.i(1, 10)
        k = g.i(0, m - 1)
        sc = g.c([1.0, 1.0, 1e-3, 1e6, 1e-60, 1e60, 1e-150])
        r = g.r.random()
        if r < .25:
            l = [x * sc for x in eigs(g, m, k)]
        elif r < .5:
            nz = g.r.uniform(.01, .1)
            l = [x * sc for x in sorted([1 + nz * g.r.random() for _ in range(m - k)] + [1.5 + 10 * g.r.random() for _ in range(k)])]
        elif r < .7:
            l = [x * sc for x in sorted(g.r.expovariate(1) + .01 for _ in range(m))]
        elif r < .85:
            sc = 2.0**g.c([0, 0, 20, -20, 100, -300])
            l = [x * sc for x in sorted(float(g.i(1, g.c([2, 4, 9]))) for _ in range(m))]
        else:
            sc = 2.0**g.c([0, -30, 40])
            a, st = g.i(1, 5), g.i(0, 3)
            l = [(a + st * j) * sc for j in range(m)]
            if g.p(.5):
                l[-1] = l[-1] + sc * g.i(1, 30)
        cmds = [{'op': 'val', 'out': 'l', 'v': vec(l)}]
        n = g.c([2, 5, 10, 50, 100, 1000, 10000])
        for f in ('aic', 'mdl', 'sorte'):
            if g.p(.75):
                cmds.append({'op': 'srcnum', 'f': f, 'x': ref('l'), 'n': n})
        if g.p(.4):
            cmds.append({'op': 'ldstat', 'l': ref('l'), 'k': g.i(0, m - 1), 'n': n})
        if r < .7 and sc > 1e-100 and g.p(.6):
            cmds.append({'op': 'mkcov', 'out': 'R', 'l': vec(l), 'seed': g.i(0, 10**6), 'real': g.p(.2)})
            for f in ('aic', 'mdl', 'sorte'):
                if g.p(.75):
                    cmds.append({'op': 'srcnum', 'f': f, 'x': ref('R'), 'n': n})
            if g.p(.3):
                cmds.append({'op': 'ldstat', 'l': ref('R'), 'k': g.i(0, m - 1), 'n': n})
        hs.append({'id': 'r%d' % i, 'cmds': cmds})
    return hs


def psd(g, out, d):
    """a covariance matrix: full, singular or real"""
    l = eigs(g, d, g.i(0, d))
    if d > 1 and g.p(.2):
        l[0] = 0.0
    return {'op': 'mkcov', 'out': out, 'l': vec(l), 'seed': g.i(0, 10**6), 'real': g.p(.25)}


def sig_cmds(g, out, d, kind=None):
    """commands making a generator of dimension d"""
    kind = kind or g.c(['cn', 'cn', 'rp', 'rec', 'rec'])
    c = {'op': 'mksig', 'k': kind, 'dim': d, 'out': out}
    if kind == 'rec':
        c.update(seed=g.i(0, 10**6), real=g.p(.3), buf=g.p(.5))
        return [c]
    r = g.r.random()
    if r < .1:
        return [c]
    if r < .35:
        c['par'] = T(g.r.uniform(.2, 5)) if g.p(.8) else I(g.i(1, 4))
        return [c]
    if kind == 'rp':
        v = [g.r.uniform(.2, 5) for _ in range(d)]
        c['par'] = g.c([vec(v), vec([float(round(x) + 1) for x in v]), vec([g.i(1, 6) for _ in v], 'i'), mat([[x] for x in v])])
        return [c]
    if r < .6:
        c['par'] = vec([g.r.uniform(.2, 5) for _ in range(d)])
        return [c]
    c['par'] = ref(out + 'C')
    return [psd(g, out + 'C', d), c]


def gen_p16(seed, tier, scale):
    g = G(seed, 'P16')
    hs = []
    for i in range(int((170 if tier == 'quick' else 1500) * scale)):
        ca, m, d = array_cmd(g, 'a', small=True, name=False)
        el = g.c(['iso', 'iso', 'iso', 'card', 'vec2', 'vec3c', 'iso2'])
        if el != 'iso':
            ca['el'] = el
        out = {'vec2': 2, 'iso2': 2, 'vec3c': 3}.get(el, 1)
        if g.p(.6):
            ca['pert'] = pert_spec(g, m, None if out == 1 else ['loc'])
        sc, kind, unit, k = src_cmd(g, 's')
        cmds = [ca, sc] + sig_cmds(g, 'x', k if g.p(.95) else k + 1)
        noise = g.p(.7)
        if noise:
            cmds += sig_cmds(g, 'w', m * out if g.p(.95) else m * out + g.c([-1, 1]) or 2)
        for q in range(g.i(1, 3)):
            c = {'op': 'snap', 'a': 'a', 's': 's', 'wl': T(g.c([1.0, .5, 2.0])), 'src': 'x', 'out': 'y%d' % q}
            if g.p(.85):
                c['n'] = g.i(1, 8)
            if noise and g.p(.8):
                c['noise'] = 'w'
            if g.p(.6):
                c['cov'] = g.p(.8)
            cmds.append(c)
        hs.append({'id': 's%d' % i, 'cmds': cmds})
    for i in range(int((50 if tier == 'quick' else 300) * scale)):
        d = g.i(1, 4)
        kind = g.c(['cn', 'rp'])
        hs.append({'id': 'm%d' % i, 'cmds': sig_cmds(g, 'x', d, kind) + [{'op': 'emit', 'g': 'x', 'n': g.i(1, 6)},
                   {'op': 'emitstat', 'g': 'x', 'n': 40000 if tier == 'quick' else 400000}, {'op': 'emit', 'g': 'x', 'n': g.i(1, 6)}]})
    for i in range(int(40 * scale)):
        d = g.i(1, 4)
        kind = g.c(['cn', 'rp'])
        c = {'op': 'mksig', 'k': kind, 'dim': d, 'out': 'x'}
        if kind == 'rp':
            c['par'] = vec([1.0] * (d + g.c([1, 2, -1]))) if d > 1 else vec([1.0, 2.0])
        else:
            e = d + 1
            c['par'] = g.c([vec([1.0] * e), mat([[1.0] * e] * e), mat([[1.0] * e] * d), mat([[1.0] * d] * e), {'t': 'arr', 'sh': [d, d, 1], 'dt': 'f', 'v': ['1.0'] * (d * d)}])
        hs.append({'id': 'bad%d' % i, 'cmds': [c]})
    return hs
