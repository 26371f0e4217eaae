"""Plots (P22)."""
from gens import G, T, vec, mat, array_cmd, pert_spec
from gens_src import grid_cmd, src_cmd

LABELS = ['MUSIC', 'MVDR', 'a', 'b1', 'x y']


def spectrum(g, sh, pos):
    kind = g.c(['pos', 'pos', 'small', 'mixed', 'neg', 'zero', 'const']) if not pos else g.c(['pos', 'small', 'const'])
    e = {'pos': lambda: g.r.uniform(.01, 30), 'small': lambda: g.r.uniform(1e-9, 1e-7), 'mixed': lambda: g.f(-2, 2),
         'neg': lambda: -g.r.uniform(.1, 5), 'zero': lambda: 0.0, 'const': lambda: 2.5}[kind]
    n = sh[-1]
    if len(sh) == 1:
        return vec([e() for _ in range(n)])
    v = mat([[e() for _ in range(n)] for _ in range(sh[0])])
    if g.p(.2):
        v['fortran'] = True
    return v


def gen_p22(seed, tier, scale):
    g = G(seed, 'P22')
    hs = []
    N = int((90 if tier == 'quick' else 900) * scale)
    # arrays and coarrays: several drawings on the axes of one figure
    for i in range(N):
        dims = [g.c([2, 2, 3]) for _ in range(g.i(1, 3))]
        cmds = [{'op': 'mkfig', 'dims': dims, 'out': 'f'}]
        arrs = []
        for j in range(g.i(1, 2)):
            c, n, d = array_cmd(g, 'a%d' % j, small=True)
            de = 0
            if g.p(.6):
                c['pert'] = pert_spec(g, n, g.c([['loc'], ['loc'], ['loc', 'gain'], ['gain'], ['phase', 'mc']]))
                for it in c['pert']['items']:
                    if it['ty'] == 'loc':
                        de = it['par']['sh'][1] if 'par' in it else 3
            cmds.append(c)
            arrs.append(('a%d' % j, d, de))
        for s in range(g.i(1, 4)):
            a, d, de = g.c(arrs)
            c = {'op': 'pltarr', 'a': a, 'co': g.p(.45)}
            if g.p(.7):
                c['err'] = g.p(.75)
            need = max(d, de) if c.get('err') else d
            ok = [j for j, x in enumerate(dims) if (x == 3) == (need == 3)]
            if ok and g.p(.75):
                c['f'], c['i'] = 'f', g.c(ok)
            cmds.append(c)
        hs.append({'id': 'a%d' % i, 'cmds': cmds + [{'op': 'aview', 'a': a} for a, _, _ in arrs] + [{'op': 'pltclose', 'f': 'f'}]})
    for i in range(N):
        two = g.p(.4)
        n = g.i(1, 3)
        logs = [g.p(.35) for _ in range(n)]
        cmds = [{'op': 'mkfig', 'dims': [2] * n, 'out': 'f'}]
        while True:
            cg, kk, u, sh = grid_cmd(g, 'g', g.c(['g2', 'gn']) if two else 'g1', small=True)
            if min(sh) > 1:
                break
        cmds.append(cg)
        live = list(range(n))
        for s in range(g.i(1, 4)):
            c = {'op': 'pltsp', 'g': 'g', 'form': 'single'}
            own = live and g.p(.8)
            if own:
                c['f'], c['i'] = 'f', g.c(live)
                if two:
                    live.remove(c['i'])
            log = logs[c['i']] if own else g.p(.3)
            if log or g.p(.3):
                c['log'] = log
            m = 1
            if not two:
                c['form'] = g.c(['single', 'list', 'tuple', 'dict'])
                m = 1 if c['form'] == 'single' else g.i(1, 10) if g.p(.2) else g.i(1, 3)
                if c['form'] == 'dict':
                    m = min(m, len(LABELS))
                    c['labels'] = g.r.sample(LABELS, m)
                if g.p(.5):
                    c['discrete'] = g.p(.6)
            else:
                if g.p(.6):
                    c['swap'] = g.p(.6)
                if g.p(.3):
                    c['cmap'] = g.c(['jet', 'viridis', 'gray'])
            for q in range(m):
                cmds.append({'op': 'val', 'out': 's%d_%d' % (s, q), 'v': spectrum(g, sh, log)})
            c['sp'] = [{'t': 'ref', 'n': 's%d_%d' % (s, q)} for q in range(m)]
            for f in ('est', 'truth'):
                if g.p(.45):
                    cs, _, _, _ = src_cmd(g, '%s%d' % (f, s), kk, u, g.i(1, 4))
                    cmds.append(cs)
                    c[f] = cs['out']
            if own and c['form'] in ('single', 'dict') and g.p(.3):
                c['direct'] = True
            if not own and g.p(.5):
                c['size'] = [g.i(2, 9), g.i(2, 9)]
            cmds.append(c)
        # rejected calls
        if g.p(.5):
            c = {'op': 'pltsp', 'g': 'g', 'form': 'single', 'sp': [spectrum(g, sh, True)]}
            r = g.i(0, 4)
            if r == 0:
                bad = list(sh)
                bad[g.i(0, len(bad) - 1)] += g.c([1, -1])
                c['sp'] = [spectrum(g, bad, True)]
                if not two and g.p(.5):
                    c['form'], c['sp'] = 'list', [spectrum(g, sh, True), c['sp'][0]]
            elif r == 1 and two:
                c['sp'] = [spectrum(g, sh[::-1] if sh[0] != sh[1] else [sh[0] + 1, sh[1]], True)]
            elif r == 1:
                c.update(form=g.c(['list', 'tuple', 'dict']), sp=[], labels=[])
            elif r == 2 and not two:
                c['form'] = 'other'
            else:
                k2 = g.c(['ff1', 'ff2', 'nf2'])
                cs, k3, u3, _ = src_cmd(g, 'w', k2, None, 2)
                cmds.append(cs)
                c[g.c(['est', 'truth'])] = 'w'
            cmds.append(c)
        hs.append({'id': 's%d' % i, 'cmds': cmds + [{'op': 'gview', 'g': 'g'}, {'op': 'pltclose', 'f': 'f'}]})
    return hs
