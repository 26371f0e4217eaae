"""Matrix and angle utilities: commands."""
import numpy as np
from core import dec
from ops import op
from doatools.utils import math as um
from doatools.utils import conversion as uc
from doatools.model.signals import SignalGenerator


@op
def u_vec(h, c): return um.vec(dec(c['x'], h))
@op
def u_abs2(h, c): return um.abs_squared(dec(c['x'], h))
@op
def u_kr(h, c): return um.khatri_rao(dec(c['x'], h), dec(c['y'], h))
@op
def u_projm(h, c): return um.projm(dec(c['x'], h), *([c['pinv']] if 'pinv' in c else []))
@op
def u_cart(h, c): return um.cartesian(*[dec(x, h) for x in c['xs']])
@op
def u_uniq(h, c):
    k = {}
    for a in ('atol', 'rtol'):
        if a in c:
            k[a] = dec({'t': 'num', 'v': c[a]})
    if 'sort' in c:
        k['sort'] = c['sort']
    if 'index' in c:
        k['return_index'] = c['index']
    return um.unique_rows(dec(c['x'], h), **k)
@op
def u_conv(h, c): return uc.convert_angles(dec(c['x'], h), c['frm'], c['to'])
@op
def u_ae(h, c): return uc.ae2broad(dec(c['x'], h))
@op
def u_sph(h, c): return uc.cart2spherical(dec(c['x'], h))
@op
def u_randcn(h, c): return um.randcn(tuple(c['sh']))


class RandcnGen(SignalGenerator):
    def __init__(self, dim):
        self._dim = dim

    @property
    def dim(self):
        return self._dim

    def emit(self, n):
        return um.randcn((self._dim, n))
