#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (run by hand; both outputs are committed)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
F = 'source/fortran/'
def two(*n): return [F + '%dd/%s.m4' % (d, x) for d in (2, 3) for x in n]
def prop(id, title, st, q, why, files, mech, note, over=('inputs', 'configurations'), obs=None, level_note=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=list(over), text=q), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **(dict(observe_at=obs) if obs else {})), _note=note))
T = 'runtime monitoring: seeded random workloads on the compiled kernels (plain and ASan/UBSan/bounds-checked builds) judged by an independent reference model'

prop('C01', 'Interpolation, well and average functions are consistent with their derivatives',
 'Every phase interpolation polynomial, double- or single-well potential and two-point average selected by its option letter has its defining value at every argument (0 and 1 at the ends, constant beyond the ends where it clamps), and every derivative the code offers for it is the derivative of that same function. '
 'Averages are symmetric in their arguments and ratios of interpolation functions stay finite at the ends.',
 'for every option letter, every finite argument inside, at the ends of and outside [0,1], and every derivative order offered',
 'the interpolation test samples a few letters at a few points; values off the sampled points, clamped ends, and derivative/function agreement for all letters are not covered',
 [F + 'functions.f'], [('one function per letter plus its hand-written derivative', F + 'functions.f')],
 'all letters are driven over dense and random arguments incl. ends and outside; derivative agreement is judged by complex-free finite differences of the code itself and by closed forms')
prop('C02', 'Three-phase tilting functions and pair weights form a partition of unity',
 'For any three phase fractions on the simplex, each tilting function is 0 where its phase is absent and 1 where it is pure, the three tilting functions obey their published polynomial and its derivatives, and derivatives with respect to each phase agree with the function. '
 'The weights attached to the three phase pairs are non-negative, bounded, symmetric under renaming of the phases and concentrate on the pair that is present.',
 'for every triple of phase fractions, including corners, edges and slightly outside points, and every phase index',
 'two tests evaluate a handful of triples; symmetry and derivative agreement are for-all statements',
 ['source/TiltingFolchPlapp2005.cc', 'source/TiltingMoelans2011.cc', 'source/computeWeights3Pairs.cc', F + 'functions.f'],
 [('tilting polynomial and derivative by phase index', 'source/TiltingFolchPlapp2005.cc'), ('quotient form', 'source/TiltingMoelans2011.cc'), ('pair weights', 'source/computeWeights3Pairs.cc')],
 'values against closed forms, permutation symmetry, finite-difference agreement')
prop('C03', 'Quaternion algebra and crystal symmetry operations are exact',
 'Product, conjugate, norm, rotation matrices and their derivatives, and misorientation distances follow quaternion (or planar angle) algebra. '
 'The crystal symmetry operations form a group, applying an operation never changes the physical orientation, and the symmetry-equivalent representative found is the one nearest to the reference, with the reported operation index being the one that produces it.',
 'for every orientation (scalar, planar, quaternion), every one of the symmetry operations and every reference orientation',
 'no stable test touches the orientation algebra',
 [F + 'quat.f'] + two('quatrotation', 'correctrhsquatforsymmetry'), [('symmetry table, rotation and search', F + 'quat.f'), ('rotation indices on a patch', F + '2d/quatrotation.m4')],
 'all group elements enumerated, random orientations; group closure, distance minimality by exhaustive search, unit length')
prop('C04', 'Discrete gradients and orientation differences are exact and consistent',
 'Cell and side gradients and differences equal the documented finite-difference stencil on every cell or side of the patch: they vanish on constants, reproduce linear fields exactly and respect the mesh spacing of each direction. '
 'With crystal symmetry the orientation differences and gradients are those of the locally equivalent representatives, so that replacing a grain by a symmetry-equivalent orientation changes no gradient modulus.',
 'for every patch box, ghost width, spacing, field, number of components and rotation index field',
 'the tests in the stable set call no gradient kernel',
 two('grad', 'quatgrad', 'quatdiffs', 'laplacian', 'side2cell'), [('stencils', F + '2d and 3d grad*.m4, quatgrad*.m4, quatdiffs.m4')],
 'stencils recomputed by an independent vectorised reference on random boxes, spacings and ghost widths')
prop('C05', 'Diffusive fluxes are antisymmetric, conservative and of the stated order',
 'The diffusive flux through a side equals minus the side diffusivity times the discrete normal gradient for each available scheme (standard, isotropic, fourth order), and adding it to a rate changes the total of a conserved field only through the outer sides of the patch. '
 'A uniform field has no flux.',
 'for every patch, ghost width, spacing, concentration field, number of components and diffusivity field',
 'no stable test evaluates a flux; conservation is a statement about sums over arbitrary patches',
 two('flux', 'concentrationrhs'), [('flux kernels', F + '2d/flux.m4'), ('divergence', F + '2d/concentrationrhs.m4')],
 'flux reference, exact telescoping sum of the divergence on random patches')
prop('C06', 'Phase-field rates are the negative variation of the free energy terms',
 'The rate computed for the phase fields is, term by term, the documented right-hand side: divergence of the (isotropic or anisotropic) interface flux, well derivative, interpolation derivative times the driving force, orientation and coupling terms, multi-order and three-phase couplings. '
 'Each term acts only on its own component, has the sign that lowers the energy, and vanishes when its coefficient is zero.',
 'for every patch, number of order parameters, option letters, anisotropy, coefficients, fluxes and field values',
 'stable tests never run a right-hand side kernel',
 two('quatrhs', 'phase', 'multiorder', 'sintering') , [('right-hand side kernels', F + '2d/quatrhs.m4, ' + F + '2d/multiorder.m4')],
 'term-by-term reference with every letter and component count')
prop('C07', 'Concentration fluxes, diffusivities and anti-trapping conserve solute',
 'Side diffusivities are the documented phase-weighted combinations, including Arrhenius factors, phase-pair interface diffusion and multi-phase forms; composition fluxes (gradient, temperature-gradient, spinodal, phase-flux and anti-trapping parts) are the documented products on every side. '
 'The composition rate is the divergence of exactly those fluxes, so total solute changes only through the patch boundary.',
 'for every patch, ghost width, spacing, number of phases and components, temperature field and option letter',
 'no stable test covers diffusivity or composition kernels',
 two('concentrationdiffusion', 'concentrationrhs', 'concentrations') , [('diffusivity kernels', F + '2d/concentrationdiffusion.m4'), ('composition rate and flux kernels', F + '2d/concentrationrhs.m4')],
 'side-by-side reference for every kernel; telescoping sums')
prop('C08', 'Temperature rates and sources balance heat',
 'The temperature rate equals thermal diffusion divided by heat capacity plus latent heat released by the phase rate plus sources, heat capacity being the documented mixture at the local temperature and composition; the steady-state and driving-force forms use the same latent heat with the same sign. '
 'Initial Gaussian and gradient temperature fields have the documented shape relative to physical coordinates, including periodic images. '
 'A prescribed temperature (uniform with a limit, gradient around a centre that follows a moving frame, moving Gaussian spot, table over positions and times) has its documented value at every time; temperatures and slopes given at the outer sides, constant or tabulated in time, enter the rate as given, also when temperatures are computed in units of the melting temperature.',
 'for every patch, coordinates, temperature, composition, phase rate, heat-capacity parameter set, time, temperature table and kind of boundary',
 'no stable test runs a temperature kernel',
 two('temperature', 'quatrhs'), [('temperature kernels', F + '2d/temperature.m4')],
 'closed-form reference')
prop('C09', 'Reported energies are the integral of the local energy density',
 'Interfacial, orientational, well and bulk energy densities equal their documented expressions in every cell, every reported total grows by the sum of density times cell volume weight, and the total is the sum of its parts. '
 'Totals are additive over any partition of the domain, cells hidden by finer levels (weight zero) contribute nothing, and asking for the per-cell density or not changes no total.',
 'for every patch, number of order parameters, orientation depth, anisotropy, cell weights, option letters and initial totals',
 'no stable test evaluates an energy',
 two('quatenergy'), [('density and totals per patch', F + '2d/quatenergy.m4')],
 'density reference, weighted sums, additivity over cut patches')
prop('C10', 'Orientation evolution keeps unit quaternions and uses one consistent diffusion',
 'Face coefficients, fluxes, residuals, constrained updates and their linearisation for the orientation field are the documented discretisation of one operator, on every side and component, with and without crystal symmetry. '
 'Normalisation and projection return unit orientations, and constrained rates have no component along the orientation itself.',
 'for every patch, ghost width, orientation field, number of components, rotation index field, gradient floor and option letter',
 'no stable test calls an orientation kernel',
 two('quatfacops', 'quatdiffusion', 'quatlevelsolver', 'quatrhs', 'correctrhsquatforsymmetry'), [('face coefficients, fluxes, residual, projection', F + '2d/quatfacops.m4'), ('boundary rows and matrix', F + '2d/quatlevelsolver.m4')],
 'reference for each kernel plus invariants (unit length, tangency)')
prop('C11', 'Implicit-solver kernels discretise one operator consistently',
 'Flux, residual, operator application, matrix rows and smoother of the elliptic solvers are all the same discrete operator: the exact discrete solution has zero residual and is a fixed point of the smoother, and sweeps do not increase the error. '
 'Boundary-condition rows and coarse-fine flux corrections implement the stated condition on exactly the sides of the given boundary box.',
 'for every patch index range (also negative), per-array ghost width, spacing, refinement ratio, boundary location and coefficient field, constant or variable',
 'solver tests need libraries that are absent; none is in the stable set',
 two('ellipticfacops', 'quatlevelsolver', 'quatfacops', 'hyprepoisson'), [('flux, residual, smoother, coarse-fine flux', F + '2d/ellipticfacops.m4'), ('matrix rows', F + '2d/quatlevelsolver.m4')],
 'dense-matrix oracle, sweep monitoring, closed forms for corrections')
prop('C12', 'Coarsening, refining and tagging preserve orientation and phase data',
 'Coarsened orientations are the normalised average of the symmetry-equivalent fine orientations, refined ones interpolate the coarse field and are unit length, constants are preserved and every cell of the target region is set for any refinement ratio and index sign. '
 'Tagging marks exactly the cells whose undivided gradient reaches the threshold and never clears other tags; smoothing changes only cells below the phase threshold.',
 'for every box (also negative indices), refinement ratio, ghost width, orientation depth and field',
 'no stable test runs a transfer operator',
 two('quatcoarsen', 'quatlinrefine', 'quattag', 'smoothquat'), [('coarsen and refine kernels', F + '2d/quatcoarsen.m4, ' + F + '2d/quatlinrefine.m4')],
 'independent index arithmetic and averaging reference')
prop('C13', 'Grain-grain contact forces balance and rigid motion transports fields',
 'The force accumulated for each ordered pair of grains is the cell-weighted integral of its contact density, is stored under that pair, is additive over patches and vanishes where the grains do not touch; a grain exerts no force on itself, and sintering forces of a pair are equal and opposite. '
 'Advection with a grain velocity is minus velocity times the centred gradient and does not change a uniform field.',
 'for every patch, number of grains, field values, weights, spacing and velocities',
 'no stable test computes a force',
 two('forces', 'rbmotion'), [('force kernels', F + '2d/forces.m4')],
 'pairwise sums recomputed; antisymmetry; additivity')
prop('C14', 'Orientation mobility is positive, bounded and consistent with its derivative',
 'The orientation mobility of a cell lies between the stated minimum and maximum for every phase value, follows the selected functional form, and the derivative offered for it is the derivative of that very function, zero where the function is capped or constant.',
 'for every phase value inside and outside [0,1], every functional form, extremes and scale',
 'no stable test evaluates a mobility',
 two('mobility'), [('mobility and derivative kernels', F + '2d/mobility.m4')],
 'closed form and finite differences')
prop('C15', 'Every patch kernel stays inside its arrays and its declared output region',
 'A kernel called with a patch box and correctly sized arrays never reads or writes outside any array, writes only output elements in its output region, never modifies its inputs, sets every output element, and its result does not depend on ghost cells beyond its stencil. '
 'It neither stops the run nor executes undefined behaviour for any valid option and any finite field values.',
 'for every kernel, dimension, box position and size (one cell wide included), ghost widths that meet the minimum, option letters and component counts',
 'the few calls of the tests use one layout; memory errors there need specific ghost widths or boxes',
 [F + '2d', F + '3d', F + 'quat.f', F + 'functions.f'], [('array extents declared from box and ghost widths in each kernel', F + '2d/*.m4, ' + F + '3d/*.m4')],
 'AddressSanitizer + UndefinedBehaviorSanitizer + Fortran bounds checks on exact-size heap arrays; canaries, bit-exact footprint of inputs, NaN poisoning of elements outside the stencil')
prop('C16', 'Results do not depend on how the domain is cut into patches',
 'Running a kernel on a patch, or on the pieces of any decomposition of that patch (each with ghost cells holding its neighbours\' data), gives the same value in every output element, including sides shared by two pieces; accumulated totals over the pieces add up to the total of the whole.',
 'for every kernel, dimension, decomposition of the patch down to single cells, ghost widths and field values',
 'a test runs one patch at a time; differences appear only at patch boundaries for particular decompositions',
 [F + '2d', F + '3d'], [('loops over the patch box with ghost data, no patch-boundary special cases', F + '2d/*.m4, ' + F + '3d/*.m4')],
 'metamorphic monitor: whole versus pieces', over=('inputs', 'configurations', 'schedules'))
import sys
sys.path.insert(0, os.path.join(V, 'tools'))
try:
    import moreprops
    moreprops.add(prop)
except ImportError: pass
def fix(p):
    fs = []
    for f in p['anchors']['files']:
        q = os.path.join('/repo', f)
        if os.path.exists(q): fs.append(f)
        else: print('no file', p['id'], f)
    p['anchors']['files'] = fs
SAY = {
 'C06': ' With the parameters as the input file gives them, the rate the integrator receives is that sum times the phase mobility; for one order parameter it is minus the mobility times the variation of the very energy that is reported.',
 'C07': ' The compositions of the phases add up to the composition with the interpolated phase fractions as weights and have equal slopes of the free energy.',
 'C09': ' The energy density of each phase is its thermodynamic model at the composition of that phase and the local temperature.',
 'C11': ' Applying the preconditioner of the coupled equations to a residual solves the documented block of the linearised equations, whatever the decomposition.',
 'C14': ' The mobility of the phase is the constant given, its Arrhenius form, or the Kim expression of the local compositions, diffusivities and energy curvatures.',
}
for p in P: p['statement'] += SAY.get(p['id'], '')
MORE = {
 'C03': ['tools.cc', 'QuatIntegrator.cc'],
 'C04': ['computeQDiffs.cc', 'SimpleQuatGradStrategy.cc', 'SimpleGradStrategy.cc', 'QuatModel.cc'],
 'C05': ['PhaseFluxStrategyAnisotropy.cc', 'PhaseFluxStrategySimple.cc', 'PhaseFluxStrategyIsotropic.cc', 'PhaseFluxStrategyFactory.h'],
 'C06': ['PhaseRHSStrategyWithQ.cc', 'PhaseFreeEnergyStrategy.cc', 'DeltaTemperatureFreeEnergyStrategy.cc', 'QuadraticFreeEnergyStrategy.cc', 'QuadraticFreeEnergyStrategyMultiOrder.cc', 'CALPHADFreeEnergyStrategyBinary.cc', 'CALPHADFreeEnergyStrategyTernary.cc', 'CALPHADFreeEnergyStrategyBinaryThreePhase.cc', 'KKSdiluteBinary.cc', 'SinteringUWangRHSStrategy.cc', 'QuatIntegrator.cc', 'QuatModelParameters.cc'],
 'C07': ['EBSCompositionRHSStrategy.cc', 'KKSCompositionRHSStrategy.cc', 'CahnHilliardDoubleWell.cc', 'WangSinteringCompositionRHSStrategy.cc', 'CompositionStrategyMobilities.cc', 'CALPHADMobility.cc', 'TbasedCompositionDiffusionStrategy.cc', 'QuatIntegrator.cc', 'QuatModelParameters.cc', 'CompositionRHSStrategyFactory.h', 'CompositionDiffusionStrategyFactory.h'],
 'C08': ['GaussianTemperatureStrategy.cc', 'GradientTemperatureStrategy.cc', 'ScalarTemperatureStrategy.cc', 'TemperatureHistory.cc', 'TemperatureStrategyFactory.cc', 'SimpleTemperatureRHSStrategy.cc', 'NKRHeatCapacityStrategy.cc', 'ConstantHeatCapacityStrategy.cc', 'SteadyStateTemperatureGaussianSource.cc', 'SteadyStateTemperatureCompositionSource.cc', 'TimeLocationIndexRobinBcCoefs.cc', 'QuatRefinePatchStrategy.cc', 'MovingFrameRHS.cc', 'QuatModelParameters.cc'],
 'C09': ['TwoPhasesEnergyEvaluationStrategy.cc', 'MultiOrderPEnergyEvaluationStrategy.cc', 'QuatModel.cc'],
 'C10': ['QuatIntegrator.cc', 'QuatModel.cc', 'QuatFACOps.cc', 'QuatLinearRefine.cc'],
 'C11': ['EllipticFACOps.cc', 'EllipticFACSolver.cc', 'QuatFACOps.cc', 'QuatLevelSolver.cc', 'QuatSysSolver.cc', 'PhaseFACOps.cc', 'TemperatureFACOps.cc', 'ConcFACOps.cc', 'PhaseTemperatureFACOps.cc', 'samrai/CellPoissonHypreSolver.cc', 'QuatIntegrator.cc'],
 'C12': ['QuatWeightedAverage.cc', 'QuatLinearRefine.cc', 'MinIntCoarsen.cc', 'QuatModel.cc', 'Grains.cc'],
 'C13': ['RigidBodyForces.cc', 'PhaseRigidBodyForces.cc', 'WangRigidBodyForces.cc', 'RigidBodyMotionRHS.cc', 'RigidBodyMotionConcRHS.cc'],
 'C14': ['SimpleQuatMobilityStrategy.cc', 'KimMobilityStrategy.cc', 'KimMobilityStrategyFiniteMob.cc', 'KimMobilityStrategyInfMob.cc', 'KimMobilityStrategyFiniteMobAntiTrap.cc', 'KimMobilityStrategyInfMob3Phases.cc', 'MobilityFactory.h'],
}
for p in P:
    p['anchors']['files'] += ['source/' + x for x in MORE.get(p['id'], []) if 'source/' + x not in p['anchors']['files']]
for p in P: fix(p)
with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for p in P: o.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
M = dict(version=1, setup_cmd='python3-vt /verif/tools/setup.py', checks=[], not_applicable=[],
         notes='see DESIGN.md')
for p in P:
    M['checks'].append(dict(property=p['id'], quick_cmd='python3-vt /verif/vrun.py %s' % p['id'],
                            thorough_cmd='python3-vt /verif/vrun.py %s --tier thorough' % p['id'], technique=p.get('_tech', T), level='exploration',
                            level_note='held on the executions explored; ' + p['_note'] + '; trusts gfortran/g++ and the reference model in /verif/specs'))
json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
