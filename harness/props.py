"""What is checked for each property: design models and history generators."""
import gens
import gens_src as gs
import gens_est as ge
import gens_data as gd
import gens_perf as gp
import gens_ml as gm
import gens_sparse as gz
import gens_utils as gu
import gens_plot as gl
import gens_big as gb
import gens_more as gx
import gens_deep as gq
import gens_reuse as gr
from models import MODELS

PROPS = {
    'P01': dict(models=MODELS.get('P01', []), gens=[gens.gen_p01, gb.big_p01, gx.more_p01, gq.deep_p01], spec='Arrays.tla',
                note='Every design size within bounds plus seeded random parameters; positions compared at 1e-12 relative.'),
    'P02': dict(models=MODELS.get('P02', []), gens=[gens.gen_p02, gx.more_p02, gq.deep_p02], spec='Arrays.tla',
                note='Histories of copies, perturbations, rejected calls and writes to returned matrices over a heap of arrays; frame condition on every step.'),
    'P03': dict(models=MODELS.get('P03', []), gens=[gens.gen_p03, gb.big_p03, gx.more_p03], spec='Coarray.tla',
                note='Random and exhaustive small index sets; integer-exact oracle, selection matrix at 1e-12.'),
    'P04': dict(models=MODELS.get('P04', []), gens=[gs.gen_p04, gb.big_p04, gx.more_p04, gq.deep_p04, gr.reuse_p04], spec='Steering.tla',
                note='Random arrays, perturbations, elements and placements; phases evaluated with 240-bit arithmetic, compared at 1e-10.'),
    'P05': dict(models=MODELS.get('P05', []), gens=[gs.gen_p05, gb.big_p05, gx.more_p05, gq.deep_p05, gr.reuse_p05], spec='Steering.tla',
                note='Derivatives compared with central differences of the specification at step 2^-60 in 240-bit arithmetic.'),
    'P06': dict(models=MODELS.get('P06', []), gens=[gs.gen_p06, gb.big_p06, gx.more_p06, gr.reuse_p06], spec='Sources.tla',
                note='Histories of selections, conversions and writes; range borders to one ulp; directions compared through sine and cosine.'),
    'P07': dict(models=MODELS.get('P07', []), gens=[gs.gen_p07, gb.big_p07, gx.more_p07, gq.deep_p07], spec='Grids.tla',
                note='Random grids and nested refinements, points compared at 1e-12.'),
    'P08': dict(models=MODELS.get('P08', []), gens=[ge.gen_p08, gb.big_p08, gx.more_p08, gq.deep_p08], spec='Estimators.tla',
                note='Peak rule on exhaustive and random sequences and matrices with ties and plateaus; selection of the k highest on every estimator, grid and custom finder, judged against the returned spectrum.'),
    'P09': dict(models=MODELS.get('P09', []), gens=[ge.gen_p09, gb.big_p09, gx.more_p09, gq.deep_p09, gr.reuse_p09], spec='Estimators.tla',
                note='Random interleavings over estimators sharing arrays and grids, with failed calls, reused covariance buffers and writes to results; every call judged on its own arguments only.'),
    'P10': dict(models=MODELS.get('P10', []), gens=[ge.gen_p10, gb.big_p10, gx.more_p10, gq.deep_p10], spec='Estimators.tla',
                note='Spectra at every grid point against the definition with 240-bit steering vectors; eigenvectors verified before use.'),
    'P11': dict(models=MODELS.get('P11', []), gens=[ge.gen_p11, gb.big_p11, gx.more_p11, gq.deep_p11, gr.reuse_p11], spec='Estimators.tla',
                note='Ideal covariances recomputed by the specification; sampled and arbitrary covariances judged through verified polynomial roots and rotation eigenvalues.'),
    'P12': dict(models=MODELS.get('P12', []), gens=[ge.gen_p12, gb.big_p12, gq.deep_p12], spec='Estimators.tla',
                note='Every refinement step located on the refined grid of the specification and checked to be its best point.'),
    'P13': dict(models=MODELS.get('P13', []), gens=[gd.gen_p13, gb.big_p13, gx.more_p13, gq.deep_p13], spec='Data.tla',
                note='Random 1D grid arrays and matrices without symmetry, exact redundancy averages; ideal covariances also against the covariance on the virtual ULA.'),
    'P14': dict(models=MODELS.get('P14', []), gens=[gd.gen_p14, gb.big_p14, gx.more_p14, gq.deep_p14], spec='Data.tla',
                note='Random real, integer and complex matrices of size 1 to 8, every number of subarrays; l1-SVD against a verified eigendecomposition.'),
    'P15': dict(models=MODELS.get('P15', []), gens=[gd.gen_p15, gb.big_p15, gq.deep_p15], spec='Data.tla',
                note='Criteria evaluated with 240-bit logarithms over scales from 1e-150 to 1e60, with ties and equal gaps.'),
    'P16': dict(models=MODELS.get('P16', []), gens=[gd.gen_p16, gb.big_p16, gx.more_p16, gq.deep_p16], spec='Data.tla',
                note='Snapshots exactly, through recording generators; distributions by sample moments of 40000 (thorough: 400000) snapshots within seven standard deviations.'),
    'P17': dict(models=MODELS.get('P17', []), gens=[gp.gen_p17, gb.big_p17, gx.more_p17], spec='Bounds.tla',
                note='Inverse of the full Fisher information matrix (locations, source covariance or waveforms, noise) built from 240-bit steering derivatives, 1e-6.'),
    'P18': dict(models=MODELS.get('P18', []), gens=[gp.gen_p18, gb.big_p18, gx.more_p18], spec='Bounds.tla',
                note='First-order error propagation of Wishart fluctuations, derived independently of the closed forms of the code, 1e-6.'),
    'P19': dict(models=MODELS.get('P19', []), gens=[gm.gen_p19, gb.big_p19, gx.more_p19, gq.deep_p19], spec='Likelihood.tla',
                note='The optimiser is abstracted by its outcome: range, no worse than the initial guess, and no challenge point downhill all the way; criteria from their definitions with 240-bit steering vectors.'),
    'P20': dict(models=MODELS.get('P20', []), gens=[gz.gen_p20, gb.big_p20, gq.deep_p20], spec='Sparse.tla',
                note='Duality-gap certificates computed by the specification from data and solution; reuse histories with rejected and infeasible calls in between.'),
    'P21': dict(models=MODELS.get('P21', []), gens=[gu.gen_p21, gb.big_p21, gx.more_p21], spec='Utils.tla',
                note='Random shapes (empty included), memory layouts, data types, exact tolerance borders; angles through sine and cosine in 240-bit arithmetic.'),
    'P22': dict(models=MODELS.get('P22', []), gens=[gl.gen_p22, gb.big_p22, gx.more_p22, gq.deep_p22], spec='Plots.tla',
                note='Sequences of drawings on shared figures, judged through the artists on the axes; everything else on the figure must stay.'),
}
