"""Histories about sources, steering matrices and search grids (P04 - P07)."""
import math
from gens import G, T, I, ref, vec, mat, array_cmd, pert_spec, pert_item, array_fails

LIM = {('ff1', 'rad'): [math.pi / 2], ('ff1', 'deg'): [90.0], ('ff1', 'sin'): [1.0],
       ('ff2', 'rad'): [math.pi, math.pi / 2], ('ff2', 'deg'): [180.0, 90.0], ('nf2', 'm'): [20.0, 20.0]}


def src_cmd(g, out, kind=None, unit=None, n=None, margin=1.0, sep=None):
    kind = kind or g.c(['ff1', 'ff1', 'ff2', 'nf2'])
    unit = unit or g.c({'ff1': ['rad', 'deg', 'sin'], 'ff2': ['rad', 'deg'], 'nf2': ['m']}[kind])
    n = n if n is not None else g.i(1, 5)
    lim = [x * margin for x in LIM[kind, unit]]
    rows = []
    for _ in range(n):
        row = []
        for x in lim:
            y = g.f(-x, x)
            if margin == 1.0 and g.p(.06):
                y = g.c([-x, x, 0.0])
            row.append(min(max(y, -x), x))
        rows.append(row)
    c = {'op': kind, 'out': out}
    ints = g.p(.1) and not (unit == 'rad')
    if ints:
        rows = [[int(y) for y in r] for r in rows]
    dt = 'i' if ints else 'f'
    py = g.c(['list', None])
    c['v'] = vec([r[0] for r in rows], dt, py) if kind == 'ff1' else mat(rows, dt, py)
    if not (kind == 'nf2' or (unit == 'rad' and g.p(.5))):
        c['unit'] = unit
    return c, kind, unit, n


def key(g, n):
    k = g.r.random()
    if k < .25:
        return I(g.i(-n - 1, n))
    if k < .55:
        q = lambda: {'t': 'none'} if g.p(.4) else I(g.i(-n - 2, n + 2))
        st = {'t': 'none'} if g.p(.5) else I(g.c([1, 2, 3, -1, -2]))
        return {'t': 'slice', 'a': q(), 'b': q(), 's': st}
    if k < .7:
        v = [g.i(-n, n - 1) for _ in range(g.i(0, 4))]
        if g.p(.15):
            v = v + [n]
        return {'t': 'list', 'v': [I(x) for x in v or [0]]}
    if k < .8:
        return vec([g.i(-n, n - 1) for _ in range(g.i(1, 4))], 'i')
    if k < .94:
        return vec([int(g.p(.5)) for _ in range(n + (1 if g.p(.1) else 0))], 'b')
    return g.c([mat([[0]], 'i'), mat([[0, 0], [0, 0]], 'i'), {'t': 'tup', 'v': [I(0)]}, {'t': 'none'}, {'t': 'tup', 'v': [I(0), I(0)]}])


def okkey(k, n):
    """does indexing with this key give a placement?"""
    if k['t'] == 'slice':
        return True
    if k['t'] == 'list':
        return all(-n <= x['v'] < n for x in k['v'])
    if k['t'] == 'arr' and len(k['sh']) == 1:
        xs = k['v'][0].split()
        return len(xs) == n if k['dt'] == 'b' else all(-n <= int(x) < n for x in xs)
    return False


def keylen(k, n):
    if k['t'] == 'slice':
        f = lambda x: None if x['t'] == 'none' else x['v']
        return len(range(n)[slice(f(k['a']), f(k['b']), f(k['s']))])
    if k['t'] == 'list':
        return len(k['v'])
    xs = k['v'][0].split()
    return sum(x == '1' for x in xs) if k['dt'] == 'b' else len(xs)


def nxt(x, up):
    return math.nextafter(x, math.inf if up else -math.inf)


def gen_p06(seed, tier, scale):
    g = G(seed, 'P06')
    hs = []
    for i in range(int((300 if tier == 'quick' else 2500) * scale)):
        c, kind, unit, n = src_cmd(g, 's0')
        cmds = [c]
        live = [('s0', kind, unit, n, False)]
        for s in range(g.i(2, 8 if tier == 'quick' else 14)):
            nm, kind, unit, n, own = g.c(live)
            k = g.r.random()
            out = 's%d' % (s + 1)
            if k < .4:
                kk = key(g, n)
                if kk['t'] == 'int' or not okkey(kk, n):
                    cmds.append({'op': 'sget', 's': nm, 'key': kk})
                else:
                    m = keylen(kk, n)
                    cmds.append({'op': 'sget', 's': nm, 'key': kk, 'out': out})
                    if m > 0:
                        live.append((out, kind, unit, m, True))
            elif k < .65:
                u = g.c({'ff1': ['rad', 'deg', 'sin'], 'ff2': ['rad', 'deg'], 'nf2': ['m']}[kind])
                if g.p(.08):
                    cmds.append({'op': 'as_unit', 's': nm, 'unit': g.c(['grad', 'km', ''] + (['sin'] if kind == 'ff2' else []) + (['rad'] if kind == 'nf2' else []))})
                    if kind == 'ff2' and cmds[-1]['unit'] == 'sin':
                        pass
                else:
                    cmds.append({'op': 'as_unit', 's': nm, 'unit': u, 'out': out})
                    live.append((out, kind, u, n, True))
            elif k < .8:
                d = g.i(1, 3)
                P = [[g.f(-4, 4) for _ in range(d)] for _ in range(g.i(1, 4))]
                cmds.append({'op': 'ssph', 's': nm, 'ref': mat(P), 'out': 't%d' % s} if False else {'op': 'ssph', 's': nm, 'ref': mat(P)})
            elif k < .9 and own:
                cmds.append({'op': 'spoke', 's': nm})
                live = [x for x in live if x[0] != nm]
            else:
                cmds.append({'op': 'sview', 's': nm})
        for x in live:
            cmds.append({'op': 'sview', 's': x[0]})
        hs.append({'id': 'r%d' % i, 'cmds': cmds})
    # the borders of the ranges
    for (kind, unit), lim in LIM.items():
        if kind == 'nf2':
            continue
        for j, x in enumerate(lim):
            for sgn in (1, -1):
                for y in (x * sgn, nxt(x * sgn, sgn > 0), nxt(x * sgn, sgn < 0), sgn * x * 1.5, sgn * 1e9):
                    row = [g.c([0.1, 0.9 * q, -0.9 * q, 0.55 * q, -0.6 * q]) for q in lim]
                    row[j] = y
                    other = [0.2] * len(lim)
                    rows = [other, row] if g.p(.5) else [row, other]
                    v = vec([r[0] for r in rows], py=g.c(['list', None])) if kind == 'ff1' else mat(rows, py=g.c(['list', None]))
                    hs.append({'id': 'border', 'cmds': [{'op': kind, 'v': v, 'unit': unit, 'out': 's'}]})
    for j, c in enumerate([
            {'op': 'ff1', 'v': vec([0.1]), 'unit': 'grad'}, {'op': 'ff1', 'v': vec([0.1], py='list'), 'unit': 'm'}, {'op': 'ff1', 'v': mat([[0.1, 0.2]])},
            {'op': 'ff1', 'v': mat([[0.1], [0.2]], py='list')}, {'op': 'ff2', 'v': vec([0.1, 0.2])}, {'op': 'ff2', 'v': mat([[0.1, 0.2, 0.3]])},
            {'op': 'ff2', 'v': mat([[0.1]]), 'unit': 'deg'}, {'op': 'ff2', 'v': mat([[0.1, 0.2]]), 'unit': 'sin'}, {'op': 'nf2', 'v': vec([0.1, 0.2])},
            {'op': 'nf2', 'v': mat([[1.0, 2.0, 3.0]])}, {'op': 'nf2', 'v': mat([[1.0]], py='list')}]):
        hs.append({'id': 'bad%d' % j, 'cmds': [dict(c, out='s')]})
    for i in range(int((80 if tier == 'quick' else 600) * scale)):
        n = g.i(1, 6)
        wl = g.c([1.0, 0.5, 2.0, g.f(.2, 3)])
        d0 = wl * g.c([0.5, 0.5, 1.0, 0.75, 2.0, g.r.uniform(.5, 3)])
        z = [g.r.uniform(.3, 1.7) * complex(math.cos(t), math.sin(t)) for t in (g.r.uniform(-3.1, 3.1) for _ in range(n))]
        c = {'op': 'from_z', 'z': vec(z, 'c'), 'wl': T(wl), 'd0': T(d0), 'out': 's'}
        u = g.c(['rad', 'deg', 'sin', None])
        if u:
            c['unit'] = u
        hs.append({'id': 'z%d' % i, 'cmds': [c, {'op': 'sview', 's': 's'}, {'op': 'as_unit', 's': 's', 'unit': g.c(['rad', 'deg', 'sin'])}]})
    return hs


def which(g):
    return g.c(['all', 'all', 'known', 'none', None])


def gen_p04(seed, tier, scale):
    g = G(seed, 'P04')
    hs = []
    for i in range(int((220 if tier == 'quick' else 1800) * scale)):
        c, n, d = array_cmd(g, 'a0', small=True, name=False)
        el = g.c(['iso', 'iso', 'iso', 'card', 'nearr', 'vec2', 'vec3c', 'iso2'])
        if el != 'iso':
            c['el'] = el
        scal = el in ('iso', 'card', 'nearr')
        types = g.r.sample(['loc', 'gain', 'phase', 'mc'], g.i(0, 4)) if scal else g.c([[], ['loc']])
        c['pert'] = pert_spec(g, n, types)
        cmds = [c]
        arrs = ['a0']
        if g.p(.3):
            t2 = g.r.sample(['loc', 'gain', 'phase', 'mc'], g.i(1, 2)) if scal else ['loc']
            cmds.append({'op': 'pcopy', 'a': 'a0', 'out': 'a1', 'pert': pert_spec(g, n, t2)})
            arrs.append('a1')
        for s in range(g.i(1, 3)):
            sc, kind, unit, k = src_cmd(g, 's%d' % s)
            cmds.append(sc)
            for q in range(g.i(1, 2)):
                wl = T(g.c([1.0, 0.5, 2.0, g.f(.3, 3) or 1.0]))
                st = {'op': 'steer', 'a': g.c(arrs), 's': 's%d' % s, 'wl': wl}
                w = which(g)
                if w:
                    st['which'] = w
                if g.p(.04):
                    st['which'] = g.c(['some', 'unknown', ''])
                if g.p(.4):
                    st['flatten'] = g.p(.4)
                if g.p(.15):
                    st['deriv'] = False
                if 'which' not in st or st['which'] in ('all', 'known', 'none'):
                    st['out'] = 'r%d%d' % (s, q)
                cmds.append(st)
                if 'out' in st and g.p(.3):
                    cmds.append({'op': 'poke', 'x': st['out']})
                    cmds.append(dict(st, out=st['out'] + 'b'))
            if g.p(.2):
                dd = g.i(1, 3) if g.p(.8) else g.c([4, 5])
                L = mat([[g.f(-3, 3) for _ in range(dd)] for _ in range(g.i(1, 5))])
                cmds.append({'op': 'pdm', 's': 's%d' % s, 'loc': L, 'wl': T(g.f(.3, 2) or 1.0)})
        cmds += [{'op': 'aview', 'a': x} for x in arrs]
        hs.append({'id': 'r%d' % i, 'cmds': cmds})
    for i in range(int(60 * scale)):
        hs.append({'id': 'el%d' % i, 'cmds': [elresp(g) for _ in range(6)] + [{'op': 'elview', 'e': g.c(ELS)}]})
    return hs


ELS = ['iso', 'iso2', 'card', 'nearr', 'vec2', 'vec3c', 'pol1', 'pol2']


def arr_of(g, sh, e):
    if not sh:
        return T(e())
    if len(sh) == 1:
        return vec([e() for _ in range(sh[0])])
    m = mat([[e() for _ in range(sh[-1])] for _ in range(math.prod(sh[:-1]))])
    m['sh'] = list(sh)
    return m


def elresp(g):
    """response of one element, by itself"""
    el = g.c(ELS)
    sh = g.c([[], [g.i(1, 4)], [g.i(1, 3), g.i(1, 3)]])
    c = {'op': 'elresp', 'e': el}
    shs = [sh, sh, sh]
    if g.p(.15):
        j = g.i(0, 2)
        shs[j] = g.c([[2, 5], [5], [1], sh + [1]] + ([sh[:-1] + [sh[-1] + 1]] if sh else []))
        if sh == [1] and shs[j] == [1]:
            shs[j] = [2]
    c['r'] = arr_of(g, shs[0], lambda: g.r.uniform(.1, 9))
    c['az'] = arr_of(g, shs[1], lambda: g.r.uniform(-3, 3))
    c['elv'] = arr_of(g, shs[2], lambda: g.r.uniform(-1.5, 1.5))
    if el == 'pol2' or (el == 'pol1' and g.p(.7)) or g.p(.15):
        ps = sh + [2]
        if g.p(.2):
            ps = g.c([sh + [1, 2], [sh[0] + 1] + sh[1:] + [2] if sh else [1, 2], sh[1:] + [2] if sh else [3, 2]])
        c['pol'] = arr_of(g, ps, lambda: g.r.uniform(-1.5, 1.5))
    return c


def gen_p05(seed, tier, scale):
    g = G(seed, 'P05')
    hs = []
    for i in range(int((200 if tier == 'quick' else 1600) * scale)):
        c, n, d = array_cmd(g, 'a0', small=True, name=False)
        c['pert'] = pert_spec(g, n)
        sc, kind, unit, k = src_cmd(g, 's', 'ff1', margin=g.c([.97, .5]))
        cmds = [c, sc]
        for q in range(g.i(1, 2)):
            wl = T(g.c([1.0, 0.5, 2.0, g.f(.3, 3) or 1.0]))
            st = {'op': 'steer', 'a': 'a0', 's': 's', 'wl': wl, 'deriv': True, 'out': 'd%d' % q}
            w = which(g)
            if w:
                st['which'] = w
            if g.p(.2):
                st['flatten'] = g.p(.5)
            cmds.append(st)
        if g.p(.3):
            dd = g.i(1, 3)
            L = mat([[g.f(-3, 3) for _ in range(dd)] for _ in range(g.i(1, 5))])
            cmds.append({'op': 'pdm', 's': 's', 'loc': L, 'wl': T(g.f(.3, 2) or 1.0), 'deriv': True})
        cmds.append({'op': 'aview', 'a': 'a0'})
        hs.append({'id': 'r%d' % i, 'cmds': cmds})
    for i in range(int(60 * scale)):
        c, n, d = array_cmd(g, 'a0', small=True, name=False)
        if g.p(.6):
            c['el'] = g.c(['card', 'nearr', 'vec2', 'vec3c', 'iso2'])
            kind = None
            if g.p(.4):
                c['pert'] = pert_spec(g, n, ['loc'])
        else:
            kind = g.c(['ff2', 'nf2'])
            c['pert'] = pert_spec(g, n)
        sc, kind, unit, k = src_cmd(g, 's', kind, margin=.95)
        cmds = [c, sc, {'op': 'steer', 'a': 'a0', 's': 's', 'wl': T(1), 'deriv': True, 'which': g.c(['all', 'known', 'none']), 'flatten': g.p(.5)}]
        if kind != 'ff1':
            cmds.append({'op': 'pdm', 's': 's', 'loc': mat([[0.0, 1.0], [1.0, 2.0]]), 'wl': T(1), 'deriv': True})
        hs.append({'id': 'un%d' % i, 'cmds': cmds})
    return hs


def tup(*xs):
    return {'t': 'tup', 'v': list(xs)}


def lst(*xs):
    return {'t': 'list', 'v': list(xs)}


def grid_cmd(g, out, kind=None, small=True, maxn=None):
    """a random valid grid; returns command, kind, unit, shape"""
    kind = kind or g.c(['g1', 'g1', 'g2', 'gn'])
    c = {'op': kind, 'out': out}
    mx = maxn or (12 if small else 40)
    if kind == 'g1':
        u = g.c(['rad', 'deg', 'sin'])
        lim = LIM['ff1', u][0]
        if not (u == 'rad' and g.p(.5)):
            c['unit'] = u
        k = g.r.random()
        if k < .45:
            n = g.i(1, mx)
            if g.p(.7):
                a = g.f(-lim, lim * .5)
                c['start'] = T(a)
                if g.p(.7):
                    c['stop'] = T(g.f(min(a + .1 * lim, lim), lim))
            elif g.p(.5):
                c['stop'] = T(g.f(-.9 * lim, lim))
            c['size'] = I(n)
            sh = [n]
        elif k < .75:
            ns = [g.i(1, max(2, mx // 2)) for _ in range(g.i(1, 3))]
            cuts = sorted(g.r.uniform(-lim, lim) for _ in range(2 * len(ns)))
            mk = g.c([tup, lst])
            c['start'] = mk(*[T(cuts[2 * j]) for j in range(len(ns))])
            c['stop'] = mk(*[T(cuts[2 * j + 1]) for j in range(len(ns))])
            c['size'] = mk(*[I(x) for x in ns])
            sh = [sum(ns)]
        else:
            n = g.i(1, mx)
            c['axes'] = tup(vec(sorted(g.r.uniform(-lim, lim) for _ in range(n))))
            sh = [n]
        return c, 'ff1', u, sh
    k2 = 'ff2' if kind == 'g2' else 'nf2'
    u = 'm' if kind == 'gn' else g.c(['rad', 'deg'])
    if kind == 'g2' and not (u == 'rad' and g.p(.5)):
        c['unit'] = u
    lim = LIM[k2, u]
    mx = min(mx, 7)
    sh = [g.i(1, mx), g.i(1, mx)]
    if g.p(.25):
        c['axes'] = tup(*[vec(sorted(g.r.uniform(-lim[j], lim[j]) for _ in range(sh[j]))) for j in range(2)])
        return c, k2, u, sh
    if kind == 'gn' or g.p(.7):
        st = [g.f(-x, x * .3) for x in lim]
        mk = g.c([tup, lst])
        c['start'] = mk(*[T(x) for x in st])
        c['stop'] = mk(*[T(g.f(min(st[j] + .2 * lim[j], lim[j]), lim[j])) for j in range(2)])
    if g.p(.25):
        sh = [sh[0], sh[0]]
        c['size'] = I(sh[0])
    else:
        c['size'] = g.c([tup, lst])(I(sh[0]), I(sh[1]))
    return c, k2, u, sh


def gen_p07(seed, tier, scale):
    g = G(seed, 'P07')
    hs = []
    for i in range(int((260 if tier == 'quick' else 2000) * scale)):
        c, k, u, sh = grid_cmd(g, 'g0')
        cmds = [c]
        live = [('g0', sh)]
        for s in range(g.i(1, 5 if tier == 'quick' else 9)):
            nm, sh = g.c(live)
            q = g.r.random()
            co = [g.i(0, x - 1) for x in sh]
            den, sp = g.i(1, 5), g.i(1, 3)
            if q < .4:
                cc = {'op': 'gref', 'g': nm, 'coord': co, 'out': 'g%d' % (s + 1)}
                if g.p(.8) or len(sh) > 1:
                    cc['density'] = den
                else:
                    den = 10
                if g.p(.8):
                    cc['span'] = sp
                else:
                    sp = 1
                nsh = [(min(sh[j] - 1, co[j] + sp) - max(0, co[j] - sp)) * den + 1 for j in range(len(sh))]
                cmds.append(cc)
                if max(nsh) < 60 and nsh[0] * nsh[-1] < 900:
                    live.append((cc['out'], nsh))
            elif q < .5:
                cmds.append({'op': 'grefax', 'g': nm, 'coord': co, 'density': den, 'span': sp, 'out': 'x%d' % s} if False else
                            {'op': 'grefax', 'g': nm, 'coord': co, 'density': den, 'span': sp})
            elif q < .65:
                m = g.i(0, 3)
                cmds.append({'op': 'grefs', 'g': nm, 'coords': [[g.i(0, x - 1) for _ in range(m)] for x in sh], 'density': den, 'span': sp, 'nd': g.p(.4)})
            elif q < .75:
                bad = g.i(0, 3)
                cc = {'op': g.c(['gref', 'grefax']), 'g': nm, 'coord': co, 'density': den, 'span': sp}
                if bad == 0:
                    cc['density'] = g.c([0, -1])
                elif bad == 1:
                    cc['span'] = g.c([0, -2])
                elif bad == 2:
                    cc['coord'] = co + [0]
                else:
                    cc['coord'] = co[:-1]
                cmds.append(cc)
            else:
                cmds.append({'op': 'gview', 'g': nm})
        cmds += [{'op': 'gview', 'g': x[0]} for x in live]
        hs.append({'id': 'r%d' % i, 'cmds': cmds})
    for u in ('rad', 'deg', 'sin', None):
        hs.append({'id': 'def1%s' % u, 'cmds': [dict({'op': 'g1', 'out': 'g'}, **({'unit': u} if u else {})), {'op': 'gview', 'g': 'g'}]})
    for u in ('rad', 'deg', None):
        hs.append({'id': 'def2%s' % u, 'cmds': [dict({'op': 'g2', 'out': 'g'}, **({'unit': u} if u else {}))]})
    for k in ('g1', 'g2', 'gn'):
        axs = [vec([0.0, 0.1, 0.3])] * (1 if k == 'g1' else 2)
        hs.append({'id': 'badaxes' + k, 'cmds': [{'op': k, 'out': 'g', 'axes': lst(*axs)}]})
        hs.append({'id': 'badaxes2' + k, 'cmds': [{'op': k, 'out': 'g', 'axes': axs[0]}]})
    return hs
