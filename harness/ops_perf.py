"""Performance bounds: commands."""
import numpy as np
from core import dec
from ops import op
from doatools.performance import crb, mse


@op
def bound(h, c):
    if 'X' in c:
        X = dec(c['X'], h)
        p = X @ X.conj().T / X.shape[1]
    else:
        p = dec(c['p'], h)
    k = {}
    if 'n' in c:
        k['n_snapshots'] = c['n']
    if 'mode' in c:
        k['return_mode'] = c['mode']
    if 'which' in c:
        k['perturbations'] = c['which']
    f = {'sto': crb.crb_sto_farfield_1d, 'det': crb.crb_det_farfield_1d, 'stouc': crb.crb_stouc_farfield_1d,
         'music': mse.ecov_music_1d, 'comusic': mse.ecov_coarray_music_1d}[c['f']]
    return f(h[c['a']], h[c['s']], dec(c['wl']), p, dec(c['sg']), **k)
