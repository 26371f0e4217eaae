"""Design models: TLC explores them exhaustively, checks their laws, and exports their histories."""


def case(module, what, quick, thorough, invariants, cap=(3000, 40000), **kw):
    return dict(module=module, what=what, quick=quick, thorough=thorough, invariants=invariants, cap=dict(quick=cap[0], thorough=cap[1]), **kw)


MODELS = {
    'P01': [case('MC_Designs', '(every design up to a size)', [dict(N=12, K=6, W=2)], [dict(N=40, K=12, W=4)],
                 ['SizeLaw', 'FromOrigin', 'NoTwins', 'NestedLaw', 'CoprimeLaw', 'CoprimeRejected', 'UcaLaw', 'UraLaw', 'SpacingLaw', 'Rejections'])],
    'P02': [case('MC_Arrays', '(all histories of copies, reads and writes)', [dict(Slots=2, Reads='TRUE')], [dict(Slots=3, Reads='FALSE'), dict(Slots=2, Reads='TRUE')],
                 ['OnePerType', 'NominalShared', 'ActualIsNominalWithoutErrors'], (1500, 12000),
                 properties=['Immutable', 'CopyIsReplacement', 'FreeIsFree', 'RejectionRule'], view='View')],
    'P03': [case('MC_Coarray', '(every placement of elements on a small grid)', [dict(Ap=7, L=3, W=4)], [dict(Ap=10, L=5, W=4), dict(Ap=9, L=4, W=6)],
                 ['Symmetric', 'Total', 'ZeroLag', 'Positions', 'Partition', 'Central', 'Averages', 'Invariant'])],
    'P06': [case('MC_Sources', '(every history of selections, conversions and writes; every slice)', [dict(Steps=2, Wrap=5)], [dict(Steps=3, Wrap=6)],
                 ['AlwaysInRange', 'Kinds', 'SliceLaw'], (1200, 20000), properties=['NoneChanged', 'Selects', 'Converts', 'Refuses'], view='View'),
            case('MC_Reuse', '(placements and arrays used, copied, moved and used again)', [dict(Deriv='FALSE', Full='FALSE')], [dict(Deriv='FALSE', Full='TRUE')],
                 ['Kinds', 'Columns', 'Arrays'], (250, 3000))],
    'P07': [case('MC_Grids', '(every history of refinements of small grids)', [dict(Depth=1, Dmax=3, Smax=3), dict(Depth=2, Dmax=2, Smax=1)], [dict(Depth=1, Dmax=5, Smax=4), dict(Depth=2, Dmax=3, Smax=2)],
                 ['Increasing', 'PointLaw'], (1200, 20000), properties=['RefineLaw', 'Keeps', 'OthersKept', 'RejectLaw'], view='View')],
    'P08': [case('MC_Peaks', '(the peak rule on every short sequence and small matrix)', [dict(L=6, V=2, A=4)], [dict(L=8, V=2, A=6), dict(L=6, V=3, A=4)],
                 ['NeverAnEnd', 'StrictOnes', 'IsTop', 'OnePerPlateau', 'Affine', 'MirrorCount', 'MaximaArePeaks', 'TransposeLaw', 'Selection'], (2500, 30000))],
    'P09': [case('MC_Estimators', '(all histories of estimators sharing arrays, grids and buffers)', [dict(Depth=3, Cfg=i) for i in (1, 2, 3, 4, 5)], [dict(Depth=4, Cfg=i) for i in (1, 2, 3, 4, 5)],
                 [], (700, 7000), properties=['Stateless', 'OnlyNamed', 'SharesNothing']),
            case('MC_ML', '(all short histories of a maximum-likelihood estimator)', [dict(Kind=i, Depth=2) for i in (1, 2, 3)], [dict(Kind=i, Depth=2) for i in (1, 2, 3)],
                 [], (30, 300), properties=['Rejected0', 'OnlyEst', 'Parameters', 'Forever']),
            case('MC_Sparse', '(all short histories of sparse estimators)', [dict(Kind=i, Depth=2) for i in (9, 10, 11)], [dict(Kind=i, Depth=3) for i in (9, 10, 11)],
                 [], (60, 600), properties=['Stateless'])],
    'P12': [case('MC_Refine', '(refinement around every point of small grids)', [dict(Dmax=3, Imax=2)], [dict(Dmax=5, Imax=3)], ['NeverWorse'], (400, 4000))],
    'P13': [case('MC_Acm', '(every coarray of a small grid; unit, asymmetric and ideal covariances)', [dict(Ap=5, L=3, W=3)], [dict(Ap=7, L=4, W=3)],
                 ['Toeplitz', 'Linear', 'HermitianKept', 'Square', 'Selects', 'Full', 'ShiftLaw', 'MirrorLaw', 'VirtualLaw'], (900, 8000))],
    'P14': [case('MC_Smooth', '(every unit matrix up to a size; every small data matrix)', [dict(M=4, R=2, C=2, V=1)], [dict(M=7, R=2, C=3, V=1)],
                 ['Identity', 'LastIsMean', 'Persymmetric', 'Linear', 'HermitianKept', 'Commute', 'Stationary'], (1000, 12000))],
    'P15': [case('MC_SrcNum', '(every ascending sequence of a few eigenvalues)', [dict(L=5, W=2)], [dict(L=7, W=3)],
                 ['InRangeOf', 'RatioLaw', 'AllEqual', 'ScaleLaw', 'Order', 'OneSource', 'Consistent', 'SorteLaw', 'SorteScale'], (600, 6000))],
    'P04': [case('MC_Steer', '(arrays x elements x perturbations x sources)', [dict(Deriv='FALSE', Fine='FALSE')], [dict(Deriv='FALSE', Fine='TRUE')],
                 ['UnitModulus', 'NoneIsNominal', 'KnownLaw', 'ScaleLaw', 'MoveLaw', 'MirrorLaw', 'PlaneLimit', 'BroadsideLaw', 'UnitLaw', 'ColumnLaw', 'Diagonals'], (700, 4000)),
            case('MC_Reuse', '(placements and arrays used, copied, moved and used again)', [dict(Deriv='FALSE', Full='FALSE')], [dict(Deriv='FALSE', Full='TRUE')],
                 ['Kinds', 'Columns', 'Arrays'], (250, 3000))],
    'P05': [case('MC_Steer', '(arrays x perturbations x sources, derivatives)', [dict(Deriv='TRUE', Fine='TRUE')], [dict(Deriv='TRUE', Fine='TRUE')],
                 ['DLaw', 'LinearPhase', 'ChainDeg', 'ChainSin'], (700, 4000)),
            case('MC_Reuse', '(placements and arrays used, copied, moved and used again)', [dict(Deriv='TRUE', Full='FALSE')], [dict(Deriv='TRUE', Full='TRUE')],
                 ['Kinds', 'Columns', 'Arrays'], (120, 3000))],
    'P10': [case('MC_Spectra', '(every few sources on a small grid, seen by several arrays)', [dict(G=8, Kmax=2)], [dict(G=16, Kmax=2), dict(G=10, Kmax=3)],
                 ['Laws'], (130, 1500))],
    'P11': [case('MC_Roots', '(linear arrays with every few sources on a raster of directions)', [dict(Nmax=4, G=7, Kmax=2)], [dict(Nmax=6, G=7, Kmax=3), dict(Nmax=5, G=15, Kmax=2)],
                 ['Geometric', 'Rotates', 'DoubleRoots', 'Reciprocal', 'NullSpectrum', 'Rotation', 'Invert'], (250, 3000))],
    'P19': [case('MC_ML', '(all short histories of an estimator)', [dict(Kind=i, Depth=2) for i in (1, 2, 3)], [dict(Kind=i, Depth=3) for i in (1, 2, 3)],
                 [], (150, 1500), properties=['Rejected0', 'OnlyEst', 'Parameters', 'Forever'])],
    'P17': [case('MC_Bounds', '(arrays x perturbations x sources x powers x noise)', [dict(Music='FALSE', Fine='FALSE')], [dict(Music='FALSE', Fine='TRUE')], ['Laws'], (200, 2000))],
    'P18': [case('MC_Bounds', '(arrays x perturbations x sources x powers x noise)', [dict(Music='TRUE', Fine='FALSE')], [dict(Music='TRUE', Fine='TRUE')], ['Laws'], (200, 2000))],
    'P16': [case('MC_Snap', '(all short histories of snapshots from shared generators)', [dict(Cfg=1, Depth=3), dict(Cfg=2, Depth=3)], [dict(Cfg=1, Depth=4), dict(Cfg=2, Depth=4)],
                 ['Position', 'CovLaw', 'SnapLaw'], (500, 7000), properties=['OnlyNamed'])],
    'P20': [case('MC_Sparse', '(all short histories of problems and estimators)', [dict(Kind=i, Depth=2) for i in range(1, 12)], [dict(Kind=i, Depth=3) for i in range(1, 12)],
                 [], (220, 2500), properties=['Stateless']),
            case('MC_Gap', '(the certificates on every small problem)', [dict(V=1, W=1)], [dict(V=1, W=2)], ['Penalised', 'Constrained1', 'Constrained2', 'NoWay', 'Known', 'Grouped'])],
    'P22': [case('MC_Plots', '(all short histories of drawings on shared figures)', [dict(Kind=i, Depth=3) for i in (1, 2)], [dict(Kind=i, Depth=4) for i in (1, 2)],
                 ['Legends'], (260, 3000), properties=['Renewed', 'NothingElse'])],
    'P21': [case('MC_Utils', '(every small pair of matrices)', [dict(Kind=1, N=2, V=3)], [dict(Kind=1, N=3, V=2)], ['Laws'], (400, 4000)),
            case('MC_Utils', '(every small set of rows)', [dict(Kind=2, N=3, V=2)], [dict(Kind=2, N=4, V=2)], ['Laws'], (400, 4000)),
            case('MC_Utils', '(every few short axes)', [dict(Kind=3, N=3, V=1)], [dict(Kind=3, N=4, V=1)], ['Laws'], (400, 4000)),
            case('MC_Utils', '(rasters of angles and points)', [dict(Kind=4, N=4, V=2)], [dict(Kind=4, N=6, V=3)], ['Laws'], (400, 4000)),
            case('MC_SelfTest', '(the calculator behind the specification against its definitions)', [dict(N=2, W=4)], [dict(N=3, W=6)],
                 ['Numerals', 'Functions0', 'Products', 'Inverses'])],
}
