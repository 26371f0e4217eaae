"""Calls of the utilities (P21)."""
import math
from gens import G, T, ref, vec, mat


def num(g, dt):
    if dt == 'i':
        return g.i(-9, 9)
    if dt == 'c':
        return complex(g.f(-3, 3), g.f(-3, 3)) if g.p(.8) else complex(g.f(-3, 3), 0)
    return g.f(-3, 3) if g.p(.9) else g.c([0.0, 1e-3, 1e5, -2.5e7, 1e-8])


def rmat(g, m, n, dt):
    v = mat([[num(g, dt) for _ in range(n)] for _ in range(m)], dt, ncol=n)
    return layout(g, v)


def layout(g, v):
    r = g.r.random()
    if r < .2:
        v['fortran'] = True
    elif r < .35 and v['sh']:
        v['strided'] = True
    return v


def gen_p21(seed, tier, scale):
    g = G(seed, 'P21')
    N = int((60 if tier == 'quick' else 900) * scale)
    hs = []

    def add(name, cmds):
        hs.append({'id': '%s%d' % (name, len(hs)), 'cmds': cmds})

    def val(n, v):
        return {'op': 'val', 'out': n, 'v': v}

    dts = ['f', 'c', 'i']
    for i in range(N):
        m, n = g.i(0, 5), g.i(0, 5)
        x = rmat(g, m, n, g.c(dts))
        add('vec', [val('x', x), {'op': 'u_vec', 'x': ref('x'), 'out': 'y'}])
        sh = g.c([[], [g.i(0, 4)], [g.i(1, 3), g.i(0, 3)], [g.i(1, 3), 2, g.i(1, 3)]])
        dt = g.c(dts)
        size = math.prod(sh)
        rows = [' '.join(tk1(num(g, dt)) for _ in range(sh[-1] if sh else 1)) for _ in range(size // sh[-1] if sh and sh[-1] else (math.prod(sh[:-1]) if sh else 1))]
        add('abs', [val('x', layout(g, {'t': 'arr', 'sh': sh, 'dt': dt, 'v': rows}) if sh else {'t': 'arr', 'sh': sh, 'dt': dt, 'v': rows}),
                    {'op': 'u_abs2', 'x': ref('x'), 'out': 'y'}, {'op': 'rpoke', 'x': 'y'}] if sh else
            [val('x', vec([num(g, dt)], dt)), {'op': 'u_abs2', 'x': ref('x'), 'out': 'y'}, {'op': 'rpoke', 'x': 'y'}])
        k = g.i(0, 4)
        k2 = k if g.p(.85) else g.i(0, 4)
        add('kr', [val('x', rmat(g, g.i(0, 4), k, g.c(dts))), val('y', rmat(g, g.i(0, 4), k2, g.c(dts))), {'op': 'u_kr', 'x': ref('x'), 'y': ref('y'), 'out': 'z'}, {'op': 'rpoke', 'x': 'z'}])
        add('cart', [val('x%d' % j, vec([num(g, 'f') if d == 'f' else num(g, d) for _ in range(g.c([0, 1, 2, 3, 4] if g.p(.2) else [1, 2, 3, 4]))], d)) for j, d in enumerate(dd(g))])
        nx = len(hs[-1]['cmds'])
        hs[-1]['cmds'] += [{'op': 'u_cart', 'xs': [ref('x%d' % j) for j in range(nx)], 'out': 'z'}, {'op': 'rpoke', 'x': 'z'}]
        add('proj', projcase(g))
        add('uniq', uniqcase(g))
        add('uniq', uniqcase(g))
        add('conv', convcase(g))
        az = lambda: g.c([g.f(-math.pi, math.pi), 0.0, math.pi, -math.pi / 2, math.pi / 2])
        el = lambda: g.c([g.f(-math.pi / 2, math.pi / 2), 0.0, math.pi / 2, -math.pi / 2])
        n = g.i(0, 5)
        add('ae', [val('x', layout(g, mat([[az(), el()] for _ in range(n)], ncol=2))), {'op': 'u_ae', 'x': ref('x'), 'out': 'y'}, {'op': 'rpoke', 'x': 'y'}])
        n, d = g.i(0, 5), g.i(1, 3)
        co = lambda: g.c([g.f(-3, 3), g.f(-3, 3), 0.0, g.f(-1e6, 1e6), -1.0])
        add('sph', [val('x', layout(g, mat([[co() for _ in range(d)] for _ in range(n)], ncol=d) if g.p(.7) else mat([[g.i(-4, 4) for _ in range(d)] for _ in range(n)], 'i', ncol=d))),
                    {'op': 'u_sph', 'x': ref('x'), 'out': 'y'}, {'op': 'rpoke', 'x': 'y'}])
    for i in range(6 if tier == 'quick' else 30):
        add('rnd', [{'op': 'u_randcn', 'sh': [g.i(0, 4) for _ in range(g.i(1, 3))], 'out': 'x'}, {'op': 'u_randcn', 'sh': [g.i(1, 4) for _ in range(g.i(1, 3))], 'out': 'y'}])
    add('rnd', [{'op': 'mksig', 'k': 'randcn', 'dim': 3, 'out': 'x'}, {'op': 'emitstat', 'g': 'x', 'n': 40000 if tier == 'quick' else 400000}])
    return hs


def tk1(x):
    return '%r,%r' % (x.real, x.imag) if isinstance(x, complex) else repr(x)


def dd(g):
    r = g.r.random()
    if r < .5:
        return ['f'] * g.i(1, 4)
    if r < .7:
        return ['i'] * g.i(1, 3)
    return [g.c(['f', 'i', 'c']) for _ in range(g.i(1, 3))]


def projcase(g):
    """x has the column space of b, which has full column rank"""
    dt = g.c(['f', 'c', 'i'])
    q = lambda: g.i(-3, 3)
    e = (lambda: complex(q(), q()) / 2) if dt == 'c' else (lambda: float(q()) / 4) if dt == 'f' else q
    n = g.i(1, 6)
    r = g.i(1, n)
    # unit lower triangular part makes the rank certain
    low = [[e() for _ in range(r)] for _ in range(n)]
    for i in range(r):
        for j in range(r):
            low[i][j] = e() if i > j else (1 if i == j else 0)
    if dt == 'c':
        low = [[complex(v) for v in row] for row in low]
    if dt == 'f':
        low = [[float(v) for v in row] for row in low]
    g.r.shuffle(low)
    if g.p(.5):
        x, pin = [list(row) for row in low], g.c([None, False, True])
    else:
        k = g.i(r, r + 2)
        C = [[(1 if i == j else 0) if j < r else q() for j in range(k)] for i in range(r)]
        perm = list(range(k))
        g.r.shuffle(perm)
        x = [[sum(row[i] * C[i][j] for i in range(r)) for j in perm] for row in low]
        if dt == 'c':
            x = [[complex(v) for v in row] for row in x]
        if dt == 'f':
            x = [[float(v) for v in row] for row in x]
        pin = True
    c = {'op': 'u_projm', 'x': ref('x'), 'base': ref('b'), 'out': 'P'}
    if pin is not None:
        c['pinv'] = pin
    return [{'op': 'val', 'out': 'x', 'v': layout(g, mat(x, dt))}, {'op': 'val', 'out': 'b', 'v': mat(low, dt)}, c, {'op': 'rpoke', 'x': 'P'}]


def uniqcase(g):
    n, m = g.i(0, 9) if g.p(.9) else g.i(0, 30), g.i(1, 4)
    mode = g.c(['exact', 'exact', 'grid', 'grid', 'fuzz', 'chain', 'cplx', 'int', 'nan', 'bad'])
    c = {'op': 'u_uniq', 'x': ref('x'), 'out': 'y'}
    dt = 'f'
    base = [[g.i(-2, 2) for _ in range(m)] for _ in range(max(1, n // 2))]
    if mode == 'exact':
        rows = [list(map(float, g.c(base))) for _ in range(n)]
        if g.p(.5):
            c['rtol'] = g.c(['0', '1e-08', '1e-06'])
    elif mode == 'int':
        rows, dt = [g.c(base) for _ in range(n)], 'i'
        c['atol'] = g.c(['0', '1', '2'])
    elif mode == 'grid':
        # tolerances hit exactly, everything dyadic
        rows = [[v + g.i(-3, 3) / 8 for v in map(float, g.c(base))] for _ in range(n)]
        c['atol'], c['rtol'] = g.c(['0', '0.125', '0.25', '0.375']), g.c(['0', '0', '0.0625', '0.125'])
    elif mode == 'fuzz':
        s = g.c([1.0, 1e3, 1e-5, 1e6])
        rows = [[s * (v + g.r.uniform(-1e-9, 1e-9) * g.i(0, 1)) for v in map(float, g.c(base))] for _ in range(n)]
        c['rtol'] = g.c(['1e-6', '1e-07'])
    elif mode == 'chain':
        rows = [[.1 * g.i(0, 6) + .013 * j for j in range(m)] for _ in range(n)]
        c['atol'], c['rtol'] = g.c(['0.15', '0.05', '0.25']), '0'
    elif mode == 'cplx':
        rows, dt = [[complex(g.i(-1, 1), g.i(-2, 2) if g.p(.5) else 0) + g.c([0, .25, .25j, .5 + 7j if g.p(.4) else 0]) for _ in range(m)] for _ in range(n)], 'c'
        c['atol'], c['rtol'] = g.c(['0', '0.26', '1.1']), g.c(['0', '1e-08', '0.1', '0.3'])
    elif mode == 'nan':
        rows = [[float('nan') if g.p(.15) else float(v) for v in g.c(base)] for _ in range(n)]
        if not any(v == v for r in rows for v in r):
            rows = [[1.0] * m for _ in range(n)]
    else:
        c['x'] = g.c([vec([1.0, 2.0]), {'t': 'arr', 'sh': [1, 2, 1], 'dt': 'f', 'v': ['1.0', '2.0']}])
        rows = []
    if mode != 'int' and 'atol' not in c and g.p(.2):
        c['atol'] = '0'
    if g.p(.5) and mode not in ('nan', 'cplx'):
        c['sort'] = g.p(.8)
    if g.p(.6):
        c['index'] = g.p(.85)
    return [{'op': 'val', 'out': 'x', 'v': layout(g, mat(rows, dt, ncol=m))}, c, {'op': 'rpoke', 'x': 'y'}]


def convcase(g):
    f, t = g.c(['rad', 'deg', 'sin']), g.c(['rad', 'deg', 'sin'])
    if g.p(.06):
        f = g.c(['grad', 'm'])
    elif g.p(.06):
        t = g.c(['turn', ''])
    lim = {'rad': math.pi, 'deg': 180.0, 'sin': 1.0}.get(f, 1.0)
    if t == 'sin' and f != 'sin' and g.p(.5):
        lim /= 2
    e = lambda: g.c([g.r.uniform(-lim, lim), lim, -lim, 0.0, 1e-12, lim / 2, lim / 6])
    sh = g.c([[g.i(0, 5)], [g.i(1, 4), 1], [g.i(1, 3), 2], [2, 1, 2]])
    n = math.prod(sh[:-1])
    v = {'t': 'arr', 'sh': sh, 'dt': 'f', 'v': [' '.join(repr(e()) for _ in range(sh[-1])) for _ in range(n)]}
    return [{'op': 'val', 'out': 'x', 'v': layout(g, v)}, {'op': 'u_conv', 'x': ref('x'), 'frm': f, 'to': t, 'out': 'y'}, {'op': 'rpoke', 'x': 'y'},
            {'op': 'u_conv', 'x': ref('x'), 'frm': f, 'to': t, 'out': 'z'}]
