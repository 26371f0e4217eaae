"""Sessions: placements, arrays and grids that are used, copied, converted, selected from, moved and used again."""
from gens import G, T, I, S, ref, vec, mat, array_cmd, pert_spec
from gens_src import src_cmd, key, okkey, keylen, LIM, tup
from gens_est import EST, mk, wlen, freq_sources, ff1_from_sines, cov_cmd
from gens_big import times
from gens_deep import mixed_pert

UNITS = {'ff1': ['rad', 'deg', 'sin'], 'ff2': ['rad', 'deg'], 'nf2': ['m']}


def points(g, kind, unit, n):
    rows = [[g.r.uniform(-.95, .95) * L for L in LIM[kind, unit]] for _ in range(n)]
    return vec([r[0] for r in rows]) if kind == 'ff1' else mat(rows)


def small_grid(g, out, kind, unit):
    axs = tup(*[vec(sorted(g.r.uniform(-.9, .9) * L for _ in range(g.i(2, 4)))) for L in LIM[kind, unit]])
    c = {'op': {'ff1': 'g1', 'ff2': 'g2', 'nf2': 'gn'}[kind], 'axes': axs, 'out': out}
    if kind != 'nf2':
        c['unit'] = unit
    n = 1
    for a in axs['v']:
        n *= a['sh'][0]
    return c, n


def session(g, hid, deriv=False, big=False):
    cmds, arrs, srcs, moved = [], [], [], 0
    d = None
    for j in range(2):
        c, n, d = array_cmd(g, 'a%d' % j, small=True, name=False)
        if g.p(.5):
            c['pert'] = mixed_pert(g, n) if g.p(.4) else pert_spec(g, n)
        cmds.append(c)
        arrs.append(('a%d' % j, n))
    kinds = ['ff1'] if deriv else g.c([['ff1', 'ff2'], ['ff2', 'nf2'], ['nf2'], ['ff1'], ['ff2']])
    for j, kind in enumerate(kinds):
        c, kind, unit, n = src_cmd(g, 's%d' % j, kind, n=g.i(2, 4), margin=.95)
        cmds.append(c)
        srcs.append(('s%d' % j, kind, unit, n, True))
        if g.p(.3):
            cg, ng = small_grid(g, 'g%d' % j, kind, unit)
            cmds += [cg, {'op': 'gsrc', 'g': 'g%d' % j, 'out': 'q%d' % j}]
            srcs.append(('q%d' % j, kind, unit, ng, False))      # the grid's own placement is not ours to move
    use = lambda s: {'op': 'steer', 'a': g.c(arrs)[0], 's': s[0], 'wl': wlen(g), 'which': g.c(['all', 'all', 'known', 'none'])}

    def observe(s):
        k = g.r.random()
        if k < .6:
            c = use(s)
        elif k < .85:
            c = {'op': 'pdm', 's': s[0], 'wl': wlen(g), 'loc': mat([[g.f(-4, 4) for _ in range(q)] for q in [g.i(1, 3)] for _ in range(g.i(1, 3))])}
        elif k < .95 and not deriv:
            return {'op': 'ssph', 's': s[0], 'ref': mat([[g.f(-4, 4) for _ in range(q)] for q in [g.i(1, 3)] for _ in range(2)])}
        else:
            return {'op': 'sview', 's': s[0]}
        if deriv:
            c['deriv'] = True
        return c
    for q in range(g.i(5, 10)):
        s = g.c(srcs)
        k = g.r.random()
        if k < .45:
            cmds.append(observe(s))
            continue
        if g.p(.6):
            cmds.append(observe(s))
        out = 't%d' % q
        if k < .68:
            kk = key(g, s[3])
            if kk['t'] == 'int' or not okkey(kk, s[3]) or keylen(kk, s[3]) == 0:
                continue
            cmds.append({'op': 'sget', 's': s[0], 'key': kk, 'out': out})
            srcs.append((out, s[1], s[2], keylen(kk, s[3]), True))
            cmds.append(observe(srcs[-1]))
        elif k < .78:
            u = g.c(UNITS[s[1]])
            cmds.append({'op': 'as_unit', 's': s[0], 'unit': u, 'out': out})
            srcs.append((out, s[1], u, s[3], True))
            cmds.append(observe(srcs[-1]))
        elif k < .9 and s[4]:
            cmds.append({'op': 'smove', 's': s[0], 'v': points(g, s[1], s[2], s[3])})
            cmds.append(observe(s))
        else:
            a, n = g.c(arrs)
            cmds.append(use(s) if not deriv else dict(use(s), deriv=True))
            cmds[-1]['a'] = a
            cmds.append({'op': 'pcopy', 'a': a, 'out': 'b%d' % q, 'pert': mixed_pert(g, n) if g.p(.4) else pert_spec(g, n)} if g.p(.75) else {'op': 'fcopy', 'a': a, 'out': 'b%d' % q})
            arrs.append(('b%d' % q, n))
            cmds.append(use(s) if not deriv else dict(use(s), deriv=True))
            cmds[-1]['a'] = g.c(['b%d' % q, a])
    cmds += [observe(s) for s in srcs] + [{'op': 'sview', 's': s[0]} for s in srcs[:3]]
    return {'id': hid, 'cmds': cmds}


def reuse_p04(seed, tier, scale):
    g = G(seed, 'R04')
    return [session(g, 'ses%d' % i) for i in range(times(tier, 40, 400, scale))]


def reuse_p05(seed, tier, scale):
    g = G(seed, 'R05')
    return [session(g, 'ses%d' % i, True) for i in range(times(tier, 30, 300, scale))]


def reuse_p06(seed, tier, scale):
    g = G(seed, 'R06')
    return [session(g, 'ses%d' % i) for i in range(times(tier, 60, 600, scale))]


def reuse_p11(seed, tier, scale):
    g = G(seed, 'R11')
    hs = []
    # two estimator objects, asked about arrays of several sizes and spacings with any options
    for i in range(times(tier, 40, 400, scale)):
        wl = g.c([1.0, .5, 2.0])
        cmds = [{'op': 'mkest', 'k': 'rootmusic', 'wl': T(wl), 'out': 'er'}, {'op': 'mkest', 'k': 'esprit', 'wl': T(wl), 'out': 'ee'}]
        calls = []
        for j in range(g.i(2, 4)):
            m = g.i(3, 9)
            half = g.p(.5)
            d0 = wl * (.5 if half else g.c([.25, .4, .3, .45]))
            disp = g.c([1, 1, 2]) if m > 4 else 1
            k = g.i(1, min(m - disp, 3))
            lim = min(.97, .97 * wl / (2 * d0 * disp))
            sep = min(.45 / (m - disp + 1) / (d0 / wl), .7 * 2 * lim / k)
            xs = freq_sources(g, k, lim, sep)
            if xs is None:
                continue
            cmds += [{'op': 'ula', 'n': m, 'd0': T(d0), 'out': 'a%d' % j}, dict(ff1_from_sines(g, 's', xs), out='s%d' % j),
                     {'op': 'idealcov', 'a': 'a%d' % j, 's': 's%d' % j, 'wl': T(wl), 'p': vec([g.r.uniform(.5, 4) for _ in range(k)]), 'sg': T(g.c([.1, 1.0, .5])), 'out': 'R%d' % j}]
            if g.p(.5):      # any covariance, of which every option matters
                cmds[-1] = cov_cmd(g, 'R%d' % j, m, k, real=False)
            for _ in range(g.i(1, 2)):
                c = {'op': 'est', 'e': g.c(['er', 'ee', 'ee']), 'R': ref('R%d' % j), 'n': k}
                u = g.c(['rad', 'deg', 'sin', None])
                if u:
                    c['unit'] = u
                if not half or g.p(.4):
                    c['d0'] = T(d0)
                if c['e'] == 'ee':
                    if disp > 1 or g.p(.3):
                        c['disp'] = disp
                    f = g.c(['ls', 'tls', None])
                    if f:
                        c['form'] = f
                    if g.p(.5):
                        c['rw'] = g.c([S('none'), S('default'), vec([g.r.uniform(.3, 3) for _ in range(m - disp)])])
                elif disp > 1:
                    c['d0'] = T(d0)
                calls.append(c)
        g.r.shuffle(calls)
        calls += [dict(c) for c in calls[:2]]
        for q, c in enumerate(calls):
            c['out'] = 'o%d' % q
            cmds.append(c)
            if g.p(.2):
                cmds.append({'op': 'rpoke', 'x': 'o%d' % q})
        hs.append({'id': 'shared%d' % i, 'cmds': cmds})
    return hs


def reuse_p09(seed, tier, scale):
    """fine grids: thousands of entries in the matrix of the steering vectors, kept by the estimator or not"""
    g = G(seed, 'R09')
    hs = []
    for i in range(times(tier, 3, 30, scale)):
        m = g.i(10, 11)
        kinds = g.r.sample(EST, 2)
        cmds = [{'op': 'ula', 'n': m, 'd0': T(.5), 'out': 'a'} if g.p(.5) else {'op': 'uca', 'n': m, 'r': T(.8), 'out': 'a'}]
        if g.p(.7):
            cmds.append({'op': 'g1', 'size': I(g.i(420, 520)), 'unit': g.c(['rad', 'deg', 'sin']), 'out': 'g'})
        else:
            cmds.append({'op': 'gn', 'axes': tup(vec(sorted(g.r.uniform(-9, 9) for _ in range(g.i(18, 20)))), vec(sorted(g.r.uniform(1, 20) for _ in range(g.i(22, 24))))), 'out': 'g'})
        for s, kd in enumerate(kinds):
            cmds.append(mk(g, kd, 'e%d' % s, 'a', 'g', T(1.0), 'default', cache=s == 0 or g.p(.5)))
            cmds.append(cov_cmd(g, 'R%d' % s, m, 2, real=False))
        for q in range(3):
            cmds.append({'op': 'est', 'e': 'e%d' % g.c([0, 0, 1]), 'R': ref('R%d' % (q % 2)), 'n': 2, 'spec': q != 1, 'out': 'o%d' % q})
        hs.append({'id': 'fine%d' % i, 'cmds': cmds})
    return hs
