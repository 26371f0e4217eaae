"""Histories about performance bounds (P17, P18)."""
import math
from gens import G, T, I, S, ref, vec, mat, array_cmd, pert_spec
from gens_src import src_cmd
from gens_est import freq_sources, ff1_from_sines, est_array
from gens_data import coarray_array


def powers(g, k, out, forms=('num', 'vec', 'list', 'mat', 'mat'), coherent=False):
    """commands and argument for the source powers"""
    f = g.c(forms)
    if f == 'num':
        return [], (T(g.r.uniform(.3, 5)) if g.p(.8) else I(g.i(1, 4)))
    v = [g.r.uniform(.3, 5) for _ in range(k)]
    if f == 'vec':
        return [], (vec(v) if g.p(.8) else vec([g.i(1, 5) for _ in range(k)], 'i'))
    if f == 'list':
        return [], {'t': 'list', 'v': [T(x) for x in v]}
    if coherent and k > 1 and g.p(.3):
        v[0] = 0.0
    return [{'op': 'mkcov', 'out': out, 'l': vec(sorted(v)), 'seed': g.i(0, 10**6), 'real': g.p(.2)}], ref(out)


def bound(g, f, p, n=True):
    c = {'op': 'bound', 'f': f, 'a': 'a', 's': 's', 'sg': T(g.c([1.0, .1, 2.5, .01, 10.0, g.r.uniform(.05, 3)]))}
    c.update(p)
    if g.p(.6):
        c['n'] = g.c([1, 2, 10, 100, 1000])
    if g.p(.6):
        c['mode'] = g.c(['full', 'diag', 'mean_diag'])
    return c


def gen_p17(seed, tier, scale):
    g = G(seed, 'P17')
    hs = []
    for i in range(int((150 if tier == 'quick' else 1500) * scale)):
        if g.p(.4):
            ca, m = coarray_array(g, 'a', mx=6)
            while m < 3:
                ca, m = coarray_array(g, 'a', mx=6)
            if len(set(ca['idx']['v'])) < m if ca['op'] == 'gridarr' else False:
                continue
            if g.p(.4):
                ca['pert'] = pert_spec(g, m)
        else:
            ca, m = est_array(g, 'a', mn=3, mx=7)
        k = g.i(1, min(3, m - 1))
        xs = freq_sources(g, k, .9, .3)
        if xs is None:
            continue
        wl = T(g.c([1.0, .5, 2.0]))
        cmds = [ca, ff1_from_sines(g, 's', xs)]
        for q, f in enumerate(g.r.sample(['sto', 'det', 'stouc'], g.i(1, 3))):
            if f == 'det':
                t = k + g.i(0, 2)
                X = mat([[g.cx() for _ in range(t)] for _ in range(k)], 'c')
                c = bound(g, f, {'X': X})
            else:
                pc, p = powers(g, k, 'P%d' % q, coherent=f == 'sto')
                cmds += pc
                c = bound(g, f, {'p': p})
            c.update(wl=wl, out='o%d' % q)
            cmds.append(c)
        cmds.append({'op': 'aview', 'a': 'a'})
        hs.append({'id': 'r%d' % i, 'cmds': cmds})
    # more sources than sensors, uncorrelated
    for i in range(int((25 if tier == 'quick' else 200) * scale)):
        ca = g.c([{'op': 'nested', 'n1': 2, 'n2': 2}, {'op': 'nested', 'n1': 2, 'n2': 3}, {'op': 'coprime', 'm': 2, 'n': 3}, {'op': 'mrla', 'n': 4}])
        ca = dict(ca, d0=T(.5), out='a')
        mv = {('nested', 2): 6, ('nested', 3): 9, ('coprime', 3): 8, ('mrla', 4): 7}[ca['op'], ca.get('n2', ca.get('n'))]
        k = g.i(3, mv - 2)
        xs = freq_sources(g, k, .9, .9 / k)
        if xs is None:
            continue
        pc, p = powers(g, k, 'P', ('num', 'vec', 'list'))
        hs.append({'id': 'many%d' % i, 'cmds': [ca, ff1_from_sines(g, 's', xs)] + pc + [dict(bound(g, 'stouc', {'p': p}), wl=T(1.0))]})
    hs += bad_bounds(g, ['sto', 'det', 'stouc'], int(70 * scale))
    return hs


def bad_bounds(g, fs, n):
    hs = []
    for i in range(n):
        f = g.c(fs)
        ca = {'op': 'ula', 'n': 5, 'd0': T(.5), 'out': 'a'}
        k = 2
        sc = {'op': 'ff1', 'v': vec([-.3, .4]), 'out': 's'}
        P = mat([[2.0, .5], [.5, 1.0]])
        c = dict(bound(g, f, {'p': P}), wl=T(1.0))
        q = g.i(0, 5)
        if q == 0:
            sc, _, _, k = src_cmd(g, 's', g.c(['ff2', 'nf2']), n=2)
        elif q == 1:
            c['mode'] = g.c(['Full', 'mean', '', 'trace'])
        elif q == 2:
            c['p'] = g.c([vec([1.0, 2.0, 3.0]), mat([[1.0] * 3] * 3), mat([[1.0] * 3] * 2), mat([[1.0] * 2] * 3), {'t': 'arr', 'sh': [2, 2, 1], 'dt': 'f', 'v': ['1.0'] * 4},
                          vec([1.0])] + ([{'t': 'list', 'v': [T(1), T(2), T(3)]}] if f != 'det' else []))
        elif q == 3 and f == 'det':
            c['p'] = g.c([vec([1.0, 2.0])])
        elif q == 4:
            ca['el'] = g.c(['card', 'vec2', 'iso2'])
        elif q == 5 and f in ('music', 'comusic'):
            if f == 'music':
                c['which'] = g.c(['some', '', 'unknown'])
            else:
                ca = g.c([dict(ca, pert=pert_spec(g, 5, [g.c(['loc', 'gain', 'phase', 'mc'])])), {'op': 'uca', 'n': 5, 'r': T(1), 'out': 'a'}, {'op': 'ura', 'm': 2, 'n': 3, 'd0': T(.5), 'out': 'a'}])
        hs.append({'id': 'bad%d' % i, 'cmds': [ca, sc, c]})
    return hs


def gen_p18(seed, tier, scale):
    g = G(seed, 'P18')
    hs = []
    for i in range(int((130 if tier == 'quick' else 1300) * scale)):
        ca, m = est_array(g, 'a', mn=3, mx=7)
        k = g.i(1, min(4, m - 1))
        xs = freq_sources(g, k, .9, .25)
        if xs is None:
            continue
        wl = T(g.c([1.0, .5, 2.0]))
        cmds = [ca, ff1_from_sines(g, 's', xs)]
        for q in range(g.i(1, 2)):
            pc, p = powers(g, k, 'P%d' % q)
            cmds += pc
            c = bound(g, 'music', {'p': p})
            w = g.c(['all', 'known', 'none', None])
            if w:
                c['which'] = w
            c.update(wl=wl, out='o%d' % q)
            cmds.append(c)
        cmds.append({'op': 'aview', 'a': 'a'})
        hs.append({'id': 'm%d' % i, 'cmds': cmds})
    for i in range(int((110 if tier == 'quick' else 1000) * scale)):
        ca, m = coarray_array(g, 'a', mx=6)
        if ca['op'] == 'gridarr' and len(set(ca['idx']['v'])) < m:
            continue
        wl = T(g.c([1.0, .5, 2.0]))
        mv = coarray_mv(ca)
        if mv < 2:
            continue
        k = g.i(1, min(4, mv - 1))
        xs = freq_sources(g, k, .9, .25)
        if xs is None:
            continue
        cmds = [ca, ff1_from_sines(g, 's', xs)]
        for q in range(g.i(1, 2)):
            pc, p = powers(g, k, 'P%d' % q)
            cmds += pc
            cmds.append(dict(bound(g, 'comusic', {'p': p}), wl=wl, out='o%d' % q))
        hs.append({'id': 'c%d' % i, 'cmds': cmds})
    hs += bad_bounds(g, ['music', 'comusic'], int(70 * scale))
    for i in range(int(30 * scale)):
        n = g.i(2, 5)
        f = g.c(['music', 'comusic'])
        k = n + g.i(0, 2)
        hs.append({'id': 'too%d' % i, 'cmds': [{'op': 'ula', 'n': n, 'd0': T(.5), 'out': 'a'},
                   {'op': 'ff1', 'v': vec([-1.2 + 2.4 * j / k for j in range(k)]), 'out': 's'}, dict(bound(g, f, {'p': T(1.0)}), wl=T(1))]})
    return hs


def coarray_mv(c):
    from itertools import product
    if c['op'] == 'gridarr':
        x = [int(r) for r in c['idx']['v']]
    elif c['op'] == 'ula':
        return c['n']
    elif c['op'] == 'nested':
        return c['n2'] * (c['n1'] + 1)
    elif c['op'] == 'mrla':
        return [1, 2, 4, 7, 10, 14, 18, 24, 30, 36][c['n'] - 1]
    else:
        a, b = min(c['m'], c['n']), max(c['m'], c['n'])
        x = [a * i for i in range(b)] + [b * j for j in range(1, 2 * a if c.get('mode', '2m').lower() == '2m' else a)]
    D = {a - b for a, b in product(x, x)}
    n = 0
    while n in D:
        n += 1
    return n
