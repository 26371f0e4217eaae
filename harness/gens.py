"""Seeded random histories per property (python 3, no third-party modules)."""
import random


def T(x):
    return {'t': 'num', 'v': repr(float(x))}


def I(n):
    return {'t': 'int', 'v': n}


def S(s):
    return {'t': 'str', 'v': s}


def B(b):
    return {'t': 'bool', 'v': b}


def ref(n):
    return {'t': 'ref', 'n': n}


def tk(x):
    if isinstance(x, complex):
        return '%r,%r' % (x.real, x.imag)
    if isinstance(x, str):
        return x
    return repr(x)


def vec(xs, dt='f', py=None):
    v = {'t': 'arr', 'sh': [len(xs)], 'dt': dt, 'v': [' '.join(tk(x) for x in xs)]}
    if py:
        v['py'] = py
    return v


def mat(rows, dt='f', py=None, ncol=None):
    v = {'t': 'arr', 'sh': [len(rows), ncol if ncol is not None else len(rows[0])], 'dt': dt,
         'v': [' '.join(tk(x) for x in r) for r in rows]}
    if py:
        v['py'] = py
    return v


class G:
    def __init__(self, seed, tag):
        self.r = random.Random('%s/%s' % (seed, tag))

    def f(self, lo, hi):
        """a double: sometimes a round one"""
        x = self.r.uniform(lo, hi)
        k = self.r.random()
        if k < 0.25:
            x = round(x * 4) / 4
        elif k < 0.5:
            x = round(x, 2)
        return float(min(max(x, lo), hi))

    def d0(self):
        return self.r.choice([0.5, 1.0, 0.25, 2.0, 0.3, self.r.uniform(0.1, 3)])

    def i(self, a, b):
        return self.r.randint(a, b)

    def p(self, q):
        return self.r.random() < q

    def c(self, xs):
        return self.r.choice(list(xs))

    def cx(self, s=1.0):
        return complex(self.r.gauss(0, s), self.r.gauss(0, s))


# ------------------------------------------------------------------ arrays
def coprimes():
    from math import gcd
    return [(a, b) for a in range(1, 8) for b in range(1, 8) if gcd(a, b) == 1]


def array_cmd(g, out, kinds=None, small=False, name=True):
    """a random valid array creation command and its element count, dimension"""
    kinds = kinds or ['ula', 'nested', 'coprime', 'mrla', 'uca', 'ura', 'gridarr', 'custom']
    k = g.c(kinds)
    c = {'op': k, 'out': out}
    mx = 6 if small else 12
    if k == 'ula':
        n = g.i(2 if small else 1, mx)
        c.update(n=n, d0=T(g.d0()))
        d = 1
    elif k == 'nested':
        a, b = g.i(1, mx // 2), g.i(1, mx // 2)
        c.update(n1=a, n2=b, d0=T(g.d0()))
        n, d = a + b, 1
    elif k == 'coprime':
        a, b = g.c([x for x in coprimes() if sum(x) <= (5 if small else 99)])
        mode = g.c(['2m', 'm', '2M', 'M', None])
        c.update(m=a, n=b, d0=T(g.d0()))
        if mode:
            c['mode'] = mode
        lo, hi = min(a, b), max(a, b)
        n, d = hi + (2 * lo if (mode or '2m').lower() == '2m' else lo) - 1, 1
    elif k == 'mrla':
        n, d = g.i(1, 6 if small else 20), 1
        c.update(n=n, d0=T(g.d0()))
    elif k == 'uca':
        n, d = g.i(2, mx), 2
        c.update(n=n, r=T(g.f(0.1, 5) or 1.0))
    elif k == 'ura':
        a, b = g.i(1, 3 if small else 5), g.i(1, 3 if small else 5)
        n, d = a * b, 2
        c.update(m=a, n=b, d0=T(g.d0()) if g.p(.5) else vec([g.d0(), g.d0()], py=g.c(['list', None])))
    elif k == 'gridarr':
        nd = g.i(1, 3)
        n = g.i(1, mx)
        idx = [[g.i(-3, 9) for _ in range(nd)] for _ in range(n)]
        c.update(idx=mat(idx, 'i'), name='G%d' % g.i(0, 9))
        if g.p(.4):
            d = g.i(max(nd, 1), 3)
            c['bases'] = mat([[g.f(-2, 2) if (i != j) else g.f(.5, 2) for j in range(d)] for i in range(nd)])
        else:
            d = nd
            c['d0'] = T(g.d0()) if g.p(.5) else vec([g.d0() for _ in range(nd)], py=g.c(['list', None]))
    else:
        n, d = g.i(1, mx), g.i(1, 3)
        dt = g.c(['f', 'f', 'i'])
        num = (lambda: g.f(-4, 4)) if dt == 'f' else (lambda: g.i(-5, 5))
        py = g.c(['list', None])
        c.update(name='C%d' % g.i(0, 9))
        if d == 1 and g.p(.5):
            c['loc'] = vec([num() for _ in range(n)], dt, py)
        else:
            c['loc'] = mat([[num() for _ in range(d)] for _ in range(n)], dt, py)
    if name and g.p(.3):
        c['name'] = 'N%d' % g.i(0, 99)
    return c, n, d


def pert_item(g, n, ty=None, bad=None, dmax=3):
    ty = ty or g.c(['loc', 'gain', 'phase', 'mc'])
    py = g.c(['list', None, None])
    m = n + (1 if bad == 'size' else 0)
    if ty == 'loc':
        d = g.i(1, dmax)
        if g.p(.15):
            par = mat([[g.i(-1, 1) for _ in range(d)] for _ in range(m)], 'i', py)
        else:
            par = mat([[g.f(-.3, .3) for _ in range(d)] for _ in range(m)], 'f', py)
        if bad == 'shape':
            par = g.c([vec([0.1] * m), mat([[0.1] * 4 for _ in range(m)]), {'t': 'arr', 'sh': [m, 0], 'dt': 'f', 'v': [''] * m}])
    elif ty in ('gain', 'phase'):
        par = vec([g.f(-.4, .9) for _ in range(m)], 'f', py)
        if bad == 'shape':
            par = mat([[0.1] for _ in range(m)])
    else:
        cplx = g.p(.6)
        par = mat([[(1.0 if i == j else 0.0) + (g.cx(.2) if cplx else g.f(-.3, .3)) for j in range(m)] for i in range(m)], 'c' if cplx else 'f', py)
        if bad == 'shape':
            par = g.c([vec([1.0] * m), mat([[0.1] * (m + 1) for _ in range(m)])])
    return {'ty': ty, 'known': g.p(.5), 'par': par}


def pert_spec(g, n, types=None, form=None, dmax=3):
    types = types if types is not None else g.r.sample(['loc', 'gain', 'phase', 'mc'], g.i(0, 4))
    return {'form': form or g.c(['dict', 'list']), 'items': [pert_item(g, n, t, dmax=dmax) for t in types]}


def gen_p01(seed, tier, scale):
    g = G(seed, 'P01')
    hs = []
    # every design size once, deterministically
    for n in list(range(1, 21)):
        hs.append({'id': 'mrla-%d' % n, 'cmds': [{'op': 'mrla', 'out': 'a', 'n': n, 'd0': T(g.d0())}]})
    for n in (0, -1, 21, 22, 40, -20):
        hs.append({'id': 'mrla-%d' % n, 'cmds': [{'op': 'mrla', 'out': 'a', 'n': n, 'd0': T(0.5)}]})
    for j, (a, b) in enumerate((x, y) for x in range(1, 9) for y in range(1, 9)):
        for mode in ('m', '2m'):
            hs.append({'id': 'coprime-%d-%d-%s' % (a, b, mode), 'cmds': [{'op': 'coprime', 'out': 'a', 'm': a, 'n': b, 'mode': mode, 'd0': T(g.d0())}]})
    for i in range(int((250 if tier == 'quick' else 1500) * scale)):
        c, n, d = array_cmd(g, 'a')
        if g.p(.35):
            c['pert'] = pert_spec(g, n)
        if g.p(.2):
            c['el'] = g.c(['card', 'vec2', 'vec3c', 'iso', 'iso2'])
            if c['el'] in ('vec2', 'vec3c', 'iso2'):
                c['pert'] = pert_spec(g, n, g.c([[], ['loc'], ['gain'], ['mc']]))
        cmds = [c]
        if g.p(.3):
            cmds.append({'op': 'getloc', 'a': 'a', 'q': g.c(['loc', 'actual']), 'out': 'x'})
            cmds.append({'op': 'poke', 'x': 'x'})
        cmds.append({'op': 'aview', 'a': 'a'})
        hs.append({'id': 'r%d' % i, 'cmds': cmds if not array_fails(c) else [c]})
    # outside the definition
    bad = [
        {'op': 'coprime', 'm': 4, 'n': 6, 'd0': T(1)}, {'op': 'coprime', 'm': 6, 'n': 3, 'd0': T(1)},
        {'op': 'coprime', 'm': 2, 'n': 3, 'd0': T(1), 'mode': '3m'}, {'op': 'coprime', 'm': 2, 'n': 3, 'd0': T(1), 'mode': ''},
        {'op': 'ura', 'm': 2, 'n': 3, 'd0': vec([1.0, 1.0, 1.0])}, {'op': 'ura', 'm': 2, 'n': 3, 'd0': vec([1.0, 1.0, 1.0], py='list')},
        {'op': 'ura', 'm': 2, 'n': 3, 'd0': mat([[1.0, 1.0]])},
        {'op': 'gridarr', 'name': 'g', 'idx': mat([[0, 0], [1, 2]], 'i'), 'bases': mat([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]])},
        {'op': 'gridarr', 'name': 'g', 'idx': mat([[0, 0], [1, 2]], 'i'), 'bases': mat([[1.0, 0.5]])},
        {'op': 'gridarr', 'name': 'g', 'idx': mat([[0, 0], [1, 2]], 'i'), 'd0': vec([1.0, 2.0, 3.0])},
        {'op': 'gridarr', 'name': 'g', 'idx': mat([[0], [1]], 'i'), 'd0': vec([1.0, 2.0])},
        {'op': 'gridarr', 'name': 'g', 'idx': mat([[0, 0], [1, 2]], 'i'), 'd0': mat([[1.0, 2.0]])},
        {'op': 'gridarr', 'name': 'g', 'idx': mat([[0, 1, 0, 2], [1, 2, 0, 0]], 'i'), 'd0': T(1)},
        {'op': 'custom', 'name': 'x', 'loc': mat([[0.0, 1.0, 2.0, 3.0]])}, {'op': 'custom', 'name': 'x', 'loc': mat([[0.0] * 5] * 3, py='list')},
        {'op': 'custom', 'name': 'x', 'loc': {'t': 'arr', 'sh': [2, 1, 2], 'dt': 'f', 'v': ['0.0 1.0', '2.0 3.0']}},
        {'op': 'custom', 'name': 'x', 'loc': {'t': 'arr', 'sh': [2, 1, 1], 'dt': 'f', 'v': ['0.0', '2.0'], 'py': 'list'}},
    ]
    hs += [{'id': 'bad%d' % i, 'cmds': [dict(c, out='a')]} for i, c in enumerate(bad)]
    return hs


def array_fails(c):
    """does the creation command fail (vector element with scalar-only perturbations)?"""
    return c.get('el') in ('vec2', 'vec3c', 'iso2') and any(x['ty'] != 'loc' for x in c.get('pert', {}).get('items', ()))


def gen_p02(seed, tier, scale):
    g = G(seed, 'P02')
    hs = []
    for i in range(int((220 if tier == 'quick' else 1500) * scale)):
        n = None
        cmds, arrs, mats, ps = [], [], [], []
        c, n, d = array_cmd(g, 'a0', small=True)
        if g.p(.5):
            c['pert'] = pert_spec(g, n)
        cmds.append(c)
        arrs.append('a0')
        for s in range(g.i(3, 10 if tier == 'quick' else 18)):
            k = g.r.random()
            if k < .35:
                out = 'a%d' % (s + 1)
                types = g.r.sample(['loc', 'gain', 'phase', 'mc'], g.i(0, 3))
                cc = {'op': 'pcopy', 'a': g.c(arrs), 'out': out, 'pert': pert_spec(g, n, types)}
                if ps and g.p(.5) and cc['pert']['form'] == 'list':
                    q = g.c(ps)
                    cc['pert']['items'] = [x for x in cc['pert']['items'] if x['ty'] != q[1]] + [{'ref': q[0]}]
                if g.p(.4):
                    cc['name'] = 'copy%d' % s
                cmds.append(cc)
                arrs.append(out)
            elif k < .5:
                out = 'a%d' % (s + 1)
                cc = {'op': 'fcopy', 'a': g.c(arrs), 'out': out}
                if g.p(.4):
                    cc['name'] = 'free%d' % s
                cmds.append(cc)
                arrs.append(out)
            elif k < .62:
                out = 'p%d' % s
                it = pert_item(g, n)
                cmds.append(dict(it, op='mkpert', out=out))
                ps.append((out, it['ty']))
            elif k < .7:
                # rejected
                bad = g.c(['size', 'shape'])
                it = pert_item(g, n, bad=bad)
                good = [pert_item(g, n, t) for t in g.r.sample(['loc', 'gain', 'phase', 'mc'], 2) if t != it['ty']]
                cmds.append({'op': 'pcopy', 'a': g.c(arrs), 'out': 'z', 'pert': {'form': g.c(['dict', 'list']), 'items': good + [it]}})
            elif k < .74:
                t = g.c(['loc', 'gain', 'phase', 'mc'])
                cmds.append({'op': 'custom', 'out': 'z', 'name': 'dup', 'loc': vec([float(x) for x in range(n)]),
                             'pert': {'form': 'list', 'items': [pert_item(g, n, t), pert_item(g, n, t)]}})
            elif k < .9:
                out = 'm%d' % s
                cmds.append({'op': 'getloc', 'a': g.c(arrs), 'q': g.c(['loc', 'actual']), 'out': out})
                cmds.append({'op': 'poke', 'x': out})
            elif ps:
                cmds.append({'op': 'appl', 'p': g.c(ps)[0], 'a': g.c(arrs)})
            else:
                cmds.append({'op': 'aview', 'a': g.c(arrs)})
        for x in arrs:
            cmds.append({'op': 'aview', 'a': x})
        hs.append({'id': 'r%d' % i, 'cmds': cmds})
    # applicability to arrays of other sizes and elements
    for i in range(int(40 * scale)):
        n = g.i(1, 5)
        it = pert_item(g, n)
        cmds = [dict(it, op='mkpert', out='p')]
        for j, el in enumerate(['iso', 'card', g.c(['vec2', 'iso2'])]):
            cmds.append({'op': 'ula', 'n': n, 'd0': T(1), 'out': 'a%d' % j, 'el': el})
            cmds.append({'op': 'appl', 'p': 'p', 'a': 'a%d' % j})
            cmds.append({'op': 'pcopy', 'a': 'a%d' % j, 'out': 'q%d' % j, 'pert': {'form': 'list', 'items': [{'ref': 'p'}]}})
        cmds.append({'op': 'ula', 'n': n + 1, 'd0': T(1), 'out': 'b'})
        cmds.append({'op': 'appl', 'p': 'p', 'a': 'b'})
        cmds.append({'op': 'pcopy', 'a': 'b', 'out': 'z', 'pert': {'form': 'list', 'items': [{'ref': 'p'}]}})
        cmds += [{'op': 'aview', 'a': x} for x in ('a0', 'a1', 'a2', 'b')]
        hs.append({'id': 'appl%d' % i, 'cmds': cmds})
    return hs


def gen_p03(seed, tier, scale):
    g = G(seed, 'P03')
    hs = []
    for i in range(int((200 if tier == 'quick' else 1200) * scale)):
        c, n, d = array_cmd(g, 'a', ['ula', 'nested', 'coprime', 'mrla', 'grid1', 'grid1', 'grid1'][:], small=g.p(.6)) if False else (None, 0, 0)
        k = g.c(['ula', 'nested', 'coprime', 'mrla', 'grid1', 'grid1'])
        if k == 'grid1':
            n = g.i(1, 8)
            pool = g.c([range(0, 8), range(0, 15), range(-6, 12)])
            idx = sorted(g.r.sample(list(pool), min(n, len(pool)))) if g.p(.6) else [g.c(pool) for _ in range(n)]
            if g.p(.3):
                g.r.shuffle(idx)
            c = {'op': 'gridarr', 'out': 'a', 'name': 'g', 'idx': mat([[x] for x in idx], 'i')}
            if g.p(.3):
                c['bases'] = mat([[g.c([1.0, 0.5, -0.5])]])
            else:
                c['d0'] = T(g.d0())
        else:
            c, n, d = array_cmd(g, 'a', [k], small=g.p(.7))
        if g.p(.2):
            c['pert'] = pert_spec(g, n, ['gain']) if k != 'mrla' else c.get('pert', {'form': 'list', 'items': []})
        cmds = [c, {'op': 'wf', 'a': 'a', 'out': 'w'}]
        qs = ['wf_diffs', 'wf_weights', 'wf_len', 'wf_ula', 'wf_ula', 'wf_sel', 'wf_sel', 'wf_of', 'wf_call', 'wf_indices']
        seq = [g.c(qs) for _ in range(g.i(4, 10))]
        for s, q in enumerate(seq):
            cc = {'op': q, 'w': 'w'}
            if q in ('wf_ula', 'wf_sel'):
                cc['excl'] = g.p(.5)
            if q in ('wf_of', 'wf_call', 'wf_indices'):
                cc['d'] = g.i(-12, 12)
            if q in ('wf_diffs', 'wf_weights', 'wf_indices', 'wf_sel'):
                cc['out'] = 'q%d' % s
            cmds.append(cc)
            if 'out' in cc and g.p(.5):
                cmds.append({'op': 'poke', 'x': cc['out']})
        # complete observation at the end
        cmds += [{'op': 'wf_diffs', 'w': 'w'}, {'op': 'wf_weights', 'w': 'w'}, {'op': 'wf_ula', 'w': 'w', 'excl': True},
                 {'op': 'wf_ula', 'w': 'w', 'excl': False}, {'op': 'wf_sel', 'w': 'w', 'excl': False}, {'op': 'wf_sel', 'w': 'w', 'excl': True}]
        cmds += [{'op': 'wf_indices', 'w': 'w', 'd': dd} for dd in g.r.sample(range(-9, 10), 4)]
        cmds.append({'op': 'aview', 'a': 'a'})
        hs.append({'id': 'r%d' % i, 'cmds': cmds})
    rej = [{'op': 'uca', 'n': 5, 'r': T(1)}, {'op': 'ura', 'm': 2, 'n': 3, 'd0': T(1)}, {'op': 'custom', 'name': 'c', 'loc': vec([0.0, 1.0, 2.0])},
           {'op': 'gridarr', 'name': 'g', 'idx': mat([[0, 0], [1, 2]], 'i'), 'd0': T(1)},
           {'op': 'gridarr', 'name': 'g', 'idx': mat([[0], [1]], 'i'), 'bases': mat([[1.0, 1.0]])}]
    for i, c in enumerate(rej):
        hs.append({'id': 'rej%d' % i, 'cmds': [dict(c, out='a'), {'op': 'wf', 'a': 'a', 'out': 'w'}]})
    for i in range(int(40 * scale)):
        m, d = g.i(1, 6), g.i(1, 3)
        X = mat([[g.i(-4, 4) / g.c([1, 2, 10]) for _ in range(d)] for _ in range(m)])
        hs.append({'id': 'loc%d' % i, 'cmds': [{'op': 'val', 'out': 'x', 'v': X}, {'op': 'locdiff', 'x': ref('x')},
                                                {'op': 'ulocdiff', 'x': ref('x')}]})
    return hs
