"""Commands: one function per operation of the specification."""
import copy
import numpy as np
from core import dec, enc, enc_arr, tok, fl, snap
from doatools.model import arrays as A
from doatools.model import perturbations as P
from doatools.model import array_elements as E
from doatools.model import coarray as C
from doatools.model import sources as SRC
from doatools.estimation import grid as GR

OPS = {}


def op(f):
    OPS[f.__name__.rstrip('_')] = f
    return f


def end_history():
    pass


# ---------------------------------------------------------------- elements
def _card(r, az, el, pol):
    return 1.0 + 0.5 * np.cos(az) * np.cos(el)


def _nearr(r, az, el, pol):
    return 1.0 / (1.0 + 1.0 / r) + 0.25 * np.sin(el)


def _vec2(r, az, el, pol):
    return np.stack([np.cos(az), np.sin(az)])


def _vec3c(r, az, el, pol):
    return np.stack([np.ones_like(az) + 0j, np.cos(az) * np.cos(el) * 1j, np.sin(az) - 0.5j * np.sin(el)])


def _pol2(r, az, el, pol):
    return np.stack([np.cos(az) * np.cos(pol[..., 0]) + 0j, np.sin(el) * np.sin(pol[..., 0]) * np.exp(1j * pol[..., 1])])


def _pol1(r, az, el, pol):
    return 1.0 + np.cos(az) * (0.5 if pol is None else pol[..., 0])


class _IsoPair(E.ArrayElement):
    """an element type of the user: two outputs, the same in every direction"""
    output_size = 2
    is_isotropic = True
    is_polarized = False

    def _calc_spatial_response(self, r, az, el, polarization):
        return np.stack([np.ones(np.shape(r)), np.full(np.shape(r), -0.5)])


ELEMENTS = {
    'iso2': _IsoPair(),
    'iso': E.ISOTROPIC_SCALAR_SENSOR,
    'card': E.CustomNonisotropicSensor(_card),
    'nearr': E.CustomNonisotropicSensor(_nearr),
    'vec2': E.CustomNonisotropicSensor(_vec2, output_size=2),
    'vec3c': E.CustomNonisotropicSensor(_vec3c, output_size=3),
    'pol2': E.CustomNonisotropicSensor(_pol2, output_size=2, polarized=True),
    'pol1': E.CustomNonisotropicSensor(_pol1, polarized=True),
}


@op
def elview(h, c):
    e = ELEMENTS[c['e']]
    return Raw(t='elview', out=e.output_size, scalar=e.is_scalar, iso=e.is_isotropic, pol=e.is_polarized)


@op
def elresp(h, c):
    a = [dec(c['r'], h), dec(c['az'], h), dec(c['elv'], h)]
    if 'pol' in c:
        a.append(dec(c['pol'], h))
    return ELEMENTS[c['e']].calc_spatial_response(*a)


def el_name(e):
    for k, v in ELEMENTS.items():
        if e is v:
            return k
    return 'iso' if type(e) is E.IsotropicScalarSensor else 'unknown'


# ---------------------------------------------------------------- arrays
class _Scaled(P.ArrayPerturbation):
    """a perturbation type of the user: the whole array stretched, all outputs amplified"""
    def perturb_sensor_locations(self, locations):
        return locations * self.params[0]

    def perturb_steering_matrix(self, A, DA):
        return A * self.params[1], [X * self.params[1] for X in DA]


class _LateGain(P.GainErrors):
    """a type of the user derived from a built-in one"""


PCLS = {'loc': P.LocationErrors, 'gain': P.GainErrors, 'phase': P.PhaseErrors, 'mc': P.MutualCoupling, 'scale': _Scaled, 'gain2': _LateGain}
PKEY = {'loc': 'location_errors', 'gain': 'gain_errors', 'phase': 'phase_errors', 'mc': 'mutual_coupling'}


def pert_ty(p):
    for k, v in PCLS.items():
        if type(p) is v:
            return k
    return type(p).__name__


def view_pert(p):
    return {'t': 'pert', 'ty': pert_ty(p), 'known': bool(p.is_known), 'par': enc(p.params)}


def flag(x):
    """truth values as numpy returns them"""
    return np.bool_(x['known']) if x.get('np') else x['known']


def perts(heap, spec):
    if spec['form'] == 'dict':
        return {PKEY.get(x['ty'], x['ty']): (dec(x['par'], heap), flag(x)) for x in spec['items']}
    out = []
    for x in spec['items']:
        out.append(heap[x['ref']] if 'ref' in x else PCLS[x['ty']](dec(x['par'], heap), flag(x)))
    return out


def view_array(a):
    ps = a.perturbations
    v = {'t': 'array', 'name': enc(a.name), 'size': enc(a.size), 'ndim': enc(a.ndim),
         'loc': enc(a.element_locations), 'actual': enc(a.actual_element_locations), 'andim': enc(a.actual_ndim),
         'pert': [view_pert(p) for p in ps], 'perturbed': bool(a.is_perturbed), 'el': el_name(a.element),
         'osize': enc(a.output_size), 'grid': isinstance(a, A.GridBasedArrayDesign), 'has': {}, 'extra': []}
    for k, cls in PCLS.items():
        h = a.has_perturbation(cls)
        v['has'][k] = {'has': bool(h)}
        if h:
            v['has'][k].update(known=bool(a.is_perturbation_known(cls)), par=enc(a.get_perturbation_params(cls)))
    if v['grid']:
        v.update(idx=enc(a.element_indices), bases=enc(a.bases), d0=enc(a.d0))
    for cls, names in ((A.NestedArray, ('n1', 'n2')), (A.CoPrimeArray, ('coprime_pair', 'mode')),
                       (A.UniformCircularArray, ('radius',)), (A.UniformRectangularArray, ('shape',))):
        if isinstance(a, cls):
            v['extra'] = [enc(getattr(a, n)) for n in names]
    return v


def light_array(a):
    return ('array', a.name, snap(a.element_locations), snap(a.actual_element_locations), a.size, a.ndim,
            tuple((pert_ty(p), p.is_known, snap(p.params)) for p in a.perturbations), a.output_size, el_name(a.element),
            snap((a.element_indices, a.bases, a.d0)) if isinstance(a, A.GridBasedArrayDesign) else None)


def kw(heap, c):
    k = {}
    if 'name' in c:
        k['name'] = c['name']
    if 'pert' in c:
        k['perturbations'] = perts(heap, c['pert'])
    if 'el' in c:
        k['element'] = ELEMENTS[c['el']]
    return k


@op
def ula(h, c): return A.UniformLinearArray(c['n'], dec(c['d0']), **kw(h, c))
@op
def nested(h, c): return A.NestedArray(c['n1'], c['n2'], dec(c['d0']), **kw(h, c))
@op
def coprime(h, c): return A.CoPrimeArray(c['m'], c['n'], dec(c['d0']), **(dict(mode=c['mode']) if 'mode' in c else {}), **kw(h, c))
@op
def mrla(h, c): return A.MinimumRedundancyLinearArray(c['n'], dec(c['d0']), **kw(h, c))
@op
def uca(h, c): return A.UniformCircularArray(c['n'], dec(c['r']), **kw(h, c))
@op
def ura(h, c): return A.UniformRectangularArray(c['m'], c['n'], dec(c['d0']), **kw(h, c))
@op
def gridarr(h, c):
    k = kw(h, c)
    if 'bases' in c:
        k['bases'] = dec(c['bases'])
    if 'd0' in c:
        k['d0'] = dec(c['d0'])
    return A.GridBasedArrayDesign(dec(c['idx']), **k)
@op
def custom(h, c): return A.ArrayDesign(dec(c['loc']), **kw(h, c))
@op
def pcopy(h, c):
    args = [perts(h, c['pert'])] + ([c['name']] if 'name' in c else [])
    return h[c['a']].get_perturbed_copy(*args)
@op
def fcopy(h, c): return h[c['a']].get_perturbation_free_copy(*([c['name']] if 'name' in c else []))
@op
def mkpert(h, c): return PCLS[c['ty']](dec(c['par'], h), flag(c))
@op
def appl(h, c): return h[c['p']].is_applicable_to(h[c['a']])
@op
def getloc(h, c):
    a = h[c['a']]
    return {'loc': lambda: a.element_locations, 'actual': lambda: a.actual_element_locations, 'idx': lambda: a.element_indices}[c['q']]()
@op
def aview(h, c): return h[c['a']]


# ---------------------------------------------------------------- plain values
@op
def val(h, c): return dec(c['v'])
@op
def poke(h, c):
    """the caller overwrites a value it owns"""
    x = h[c['x']]
    if isinstance(x, list):
        x.append(991)
    else:
        x[...] = 991
    return None


# ---------------------------------------------------------------- coarrays
@op
def wf(h, c): return C.WeightFunction1D(h[c['a']])
@op
def wf_diffs(h, c): return h[c['w']].differences()
@op
def wf_weights(h, c): return h[c['w']].weights()
@op
def wf_of(h, c): return h[c['w']].weight_of(c['d'])
@op
def wf_call(h, c): return h[c['w']](c['d'])
@op
def wf_len(h, c): return len(h[c['w']])
@op
def wf_indices(h, c): return h[c['w']].indices_of(c['d'])
@op
def wf_ula(h, c): return h[c['w']].get_central_ula_size(c['excl'])
@op
def wf_sel(h, c): return h[c['w']].get_coarray_selection_matrix(c['excl'])
@op
def locdiff(h, c): return C.compute_location_differences(dec(c['x'], h))
@op
def ulocdiff(h, c): return C.compute_unique_location_differences(dec(c['x'], h))


# ---------------------------------------------------------------- sources
SCLS = {'ff1': SRC.FarField1DSourcePlacement, 'ff2': SRC.FarField2DSourcePlacement, 'nf2': SRC.NearField2DSourcePlacement}


def src_kind(s):
    for k, v in SCLS.items():
        if type(s) is v:
            return k
    return type(s).__name__


def view_src(s):
    return {'t': 'src', 'k': src_kind(s), 'units': list(s.units), 'loc': enc(s.locations)}


def _src(h, c):
    args = [dec(c['v'], h)]
    if 'unit' in c:
        args.append(c['unit'])
    return SCLS[c['op']](*args)
OPS.update(ff1=_src, ff2=_src, nf2=_src)
class Raw(dict):
    """an observation that is already encoded"""
@op
def sget(h, c): return h[c['s']][dec(c['key'], h)]
@op
def spoke(h, c):
    h[c['s']].locations[...] = 0.123
@op
def smove(h, c):
    """the caller writes into the array `locations` gives access to"""
    h[c['s']].locations[...] = dec(c['v'], h)
@op
def sview(h, c):
    s = h[c['s']]
    return Raw(t='sview', size=enc(s.size), len=enc(len(s)), far=bool(s.is_far_field), ranges=enc(s.valid_ranges), src=view_src(s))
@op
def as_unit(h, c): return h[c['s']].as_unit(c['unit'])
@op
def ssph(h, c): return h[c['s']].calc_spherical_coords(dec(c['ref'], h))
@op
def from_z(h, c): return SCLS['ff1'].from_z(dec(c['z']), dec(c['wl']), dec(c['d0']), *([c['unit']] if 'unit' in c else []))


# ---------------------------------------------------------------- steering
@op
def steer(h, c):
    k = {}
    if 'deriv' in c:
        k['compute_derivatives'] = c['deriv']
    if 'which' in c:
        k['perturbations'] = c['which']
    if 'flatten' in c:
        k['flatten'] = c['flatten']
    return h[c['a']].steering_matrix(h[c['s']], dec(c['wl']), **k)
@op
def pdm(h, c): return h[c['s']].phase_delay_matrix(dec(c['loc'], h), dec(c['wl']), *([c['deriv']] if 'deriv' in c else []))


# ---------------------------------------------------------------- grids
GCLS = {'ff1': GR.FarField1DSearchGrid, 'ff2': GR.FarField2DSearchGrid, 'nf2': GR.NearField2DSearchGrid}
GOP = {'g1': 'ff1', 'g2': 'ff2', 'gn': 'nf2'}


def grid_kind(g):
    for k, v in GCLS.items():
        if type(g) is v:
            return k
    return type(g).__name__


def view_grid(g):
    """must not fill the lazily created source placement"""
    return {'t': 'grid', 'k': grid_kind(g), 'units': list(g.units), 'names': list(g.axis_names), 'ndim': enc(g.ndim),
            'shape': [int(x) for x in g.shape], 'size': enc(g.size), 'axes': [enc(np.asarray(x)) for x in g.axes]}


def _grid(h, c):
    k = {x: dec(c[x], h) for x in ('start', 'stop', 'size', 'axes') if x in c}
    if 'unit' in c:
        k['unit'] = c['unit']
    return GCLS[GOP[c['op']]](**k)
OPS.update(g1=_grid, g2=_grid, gn=_grid)


def refkw(c):
    return {x: c[x] for x in ('density', 'span') if x in c}
@op
def gref(h, c): return h[c['g']].create_refined_grid_at(tuple(c['coord']), **refkw(c))
@op
def grefax(h, c): return h[c['g']].create_refined_axes_at(tuple(c['coord']), c['density'], c['span'])
@op
def grefs(h, c): return h[c['g']].create_refined_grids_at(*[np.array(x, dtype=int) if c.get('nd') else x for x in c['coords']], **refkw(c))
@op
def gview(h, c):
    g = h[c['g']]
    return Raw(view_grid(g), src=view_src(g.source_placement))


@op
def gsrc(h, c): return h[c['g']].source_placement


# ---------------------------------------------------------------- views
def view(x):
    if isinstance(x, A.ArrayDesign):
        return view_array(x)
    if isinstance(x, P.ArrayPerturbation):
        return view_pert(x)
    if isinstance(x, C.WeightFunction1D):
        return {'t': 'wf'}
    if isinstance(x, SRC.SourcePlacement):
        return view_src(x)
    if isinstance(x, GR.SearchGrid):
        return view_grid(x)
    k = type(x).__name__
    if k in VIEWS:
        return VIEWS[k](x)
    return {'t': 'other', 'c': k}


# of the values of other modules of the harness
VIEWS, LIGHTS = {}, {}


def light(x):
    k = type(x).__name__
    if k in LIGHTS:
        return LIGHTS[k](x)
    if isinstance(x, A.ArrayDesign):
        return light_array(x)
    if isinstance(x, P.ArrayPerturbation):
        return (pert_ty(x), x.is_known, snap(x.params))
    if isinstance(x, SRC.SourcePlacement):
        return (src_kind(x), x.units, snap(x.locations))
    if isinstance(x, GR.SearchGrid):
        return (grid_kind(x), x.units, x.axis_names, x.shape, snap(x.axes))
    return type(x).__name__


import ops_est  # noqa: E402,F401
import ops_data  # noqa: E402,F401
import ops_perf  # noqa: E402,F401
import ops_ml  # noqa: E402,F401
import ops_sparse
import ops_utils
import ops_plot  # noqa: E402,F401
