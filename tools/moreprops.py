"""properties of the whole program, judged on runs of the real C++ layer"""
TW = ('runtime monitoring: the real C++ layer (QuatModel, integrator, strategies) is compiled against in-process stand-ins for SAMRAI/SUNDIALS/HYPRE/Thermo4PFM '
      'and run on the repository\'s decks with random data; ')
S = 'source/'
def add(prop_):
    def prop(*a, tech, **k):
        prop_(*a, **k)
        import __main__; __main__.P[-1]['_tech'] = TW + tech
    prop('C17', 'Simulation results do not depend on the patch decomposition',
     'A simulation gives the same evolution when the same domain is distributed over any number of patches: every rate of the coupled equations, every energy, and the state after several time steps agree with the single-patch run to rounding, for every model combination the decks can select. '
     'So ghost cells needed by any stage are filled before use, per-level sums count every cell once, and no stage treats a patch boundary as a domain boundary.',
     'for every deck, initial data, mesh size and decomposition of the level into patches (also of different sizes and in any order)',
     'a test runs one decomposition, and no stable test runs a simulation; a missing ghost fill shows only at inner patch boundaries with data that differ across them',
     [S + x for x in ('QuatModel.cc', 'QuatIntegrator.cc', 'QuatRefinePatchStrategy.cc', 'PhaseFluxStrategySimple.cc', 'GradStrategy.h', 'FieldsInitializer.cc')],
     [('ghost fills and per-patch loops of the integrator', S + 'QuatIntegrator.cc'), ('per-step updates of the model', S + 'QuatModel.cc')],
     'whole runs on one patch and on random decompositions, compared field by field; trusts the stand-ins for the absent libraries',
     over=('inputs', 'configurations', 'schedules'), tech='metamorphic comparison of the recorded fields, energies and rates of two decompositions')
    prop('C18', 'Solute, heat and phase fractions are conserved by the coupled equations',
     'In a closed domain (periodic, or zero slopes on every side) the total amount of each solute does not change: the rates the coupled equations give for every concentration sum to zero, and so does the change of content over time steps, for every composition model '
     '(quadratic, dilute, KKS, antitrapping, moving grains, Cahn-Hilliard). The heat content changes by exactly what the prescribed slopes let through the sides plus the latent heat of the phase change, and the rates of the phase fractions of a multi-phase model sum to zero in every cell.',
     'for every deck and legal choice of its options, initial data, mesh size, patch decomposition and number of time steps',
     'conservation is a sum over the whole domain that no stable test forms, and a flux used with one sign or value on one side of a face and another on the other side shows only there',
     [S + x for x in ('EBSCompositionRHSStrategy.cc', 'KKSCompositionRHSStrategy.cc', 'BeckermannCompositionRHSStrategy.cc', 'CahnHilliardDoubleWell.cc', 'WangSinteringCompositionDiffusionStrategy.cc', 'SimpleTemperatureRHSStrategy.cc', 'QuatIntegrator.cc')],
     [('composition and heat right-hand sides', S + 'QuatIntegrator.cc'), ('fluxes of the composition model', S + 'EBSCompositionRHSStrategy.cc')],
     'balances of the recorded rates and states; decks whose phase compositions come from an iteration are judged at its tolerance; solute is not judged with a sloping temperature at the sides',
     over=('inputs', 'configurations', 'histories'), tech='conservation monitors over the recorded rates and fields')
    prop('C19', 'The equations have the symmetries of the problem',
     'Simulations are covariant: shifting the initial data along a periodic direction, mirroring the problem (data, boundary conditions, temperature gradient and body forces) along any axis, exchanging the axes, numbering the grains of one phase in another order, '
     'or turning the reference frame of the orientations gives the correspondingly transformed rates and states, and the same energies.',
     'for every deck and legal choice of its options, initial data, mesh size, number of steps and transformation',
     'a stable test would need two whole simulations; a wrong index, sign or coefficient in one direction or for one grain shows only in the comparison',
     [S + x for x in ('QuatIntegrator.cc', 'QuatModel.cc', 'MultiOrderRHSStrategy.cc', 'RigidBodyMotionRHS.cc', 'PhaseFluxStrategyAnisotropy.cc', 'GradientTemperatureStrategy.cc', 'fortran/2d/quatrhs.m4', 'fortran/3d/quatrhs.m4')],
     [('assembly of the right-hand sides', S + 'QuatIntegrator.cc'), ('grains and their forces', S + 'RigidBodyMotionRHS.cc')],
     'whole runs on a problem and on its image compared to 1e-9; crystal axes along the mesh for mirrored anisotropic problems; Gaussian heat spots are not shifted, moving frames are mirrored only across their direction',
     over=('inputs', 'configurations', 'histories'), tech='metamorphic comparison of the recorded fields, energies and rates of a problem and its image')
    prop('C20', 'Boundary conditions given in the input hold at the outer sides of the domain',
     'At every outer side that is not periodic, each field the input gives a boundary condition for (phase, composition, orientation, temperature) satisfies it whenever a rate is computed: all the ghost layers of the field continue it so that a*u + b*du/dn = g with the coefficients given for that side '
     '(a value, a slope, or both coefficients), whichever the side, the stage and the patch. So an insulated domain behaves exactly as half of a periodic one that is the domain and its mirror image, for every field and rate.',
     'for every deck and legal choice of its options, boundary condition of each side, initial data, mesh size, patch decomposition and number of steps',
     'no stable test runs a simulation with physical boundaries; a side treated as another, or ghost layers left stale at one stage, show only in cells next to that side',
     [S + x for x in ('QuatRefinePatchStrategy.cc', 'CartesianRobinBcHelperWithDepth.cc', 'TimeLocationIndexRobinBcCoefs.cc', 'QuatIntegrator.cc', 'QuatFACOps.cc')],
     [('filling of the ghost layers at the sides', S + 'QuatRefinePatchStrategy.cc'), ('boundary coefficients of the input', S + 'TimeLocationIndexRobinBcCoefs.cc')],
     'ghost layers recorded at the evaluations of whole runs, and runs compared with their mirrored periodic twins to 1e-9; freely moving grains are left out of the twins (a grain and its image are one body or two)',
     over=('inputs', 'configurations', 'histories'), tech='oracle over the recorded ghost layers; metamorphic comparison with the mirrored periodic problem')
    prop('C21', 'Reported diagnostics and grains equal what the fields say',
         'Every number a simulation reports about its state is the one its fields have: total energies are the sums of the energy densities over the cells, the contents, volume fractions, interface measure, extrema and averages, excess solute and thermal energy are those of the recorded fields, restricted to the diagnostics '
         'subdomain where one is asked for. The grains it counts are the connected regions (also through periodic sides) where the phase exceeds the threshold, with their volumes and the mean and variance of each composition in them, and orientations are extended from each grain to the cells nearest to it.',
         'for every deck, state of the fields, threshold, mesh size and patch decomposition',
         'a diagnostic is printed, not used: a wrong weight, subdomain or component changes no field, and grains across patches or periodic sides need fields no stable test has',
         [S + x for x in ('QuatModel.cc', 'Grains.cc', 'tools.cc', 'PFModel.cc')],
         [('scalar diagnostics', S + 'QuatModel.cc'), ('identification of grains', S + 'Grains.cc')],
         'values computed again from the recorded fields; trusts the stand-ins for the absent libraries; one mesh level',
         over=('inputs', 'configurations'), tech='oracle recomputing the reported values from the recorded fields; flood fill as oracle of the grains')
    prop('C22', 'A run follows its schedule, and restarts continue it',
         'A simulation ends at the end time or the number of cycles its input gives, and does each periodic thing (restart file, Visit dump, scalar and grain diagnostics, progress line) exactly when the input asks for it: at the start if the first step is included, after every step whose number is a multiple of a step interval or '
         'that passes a multiple of a time interval, and at the end if the last step is included, never twice at the same time and never when the interval is zero or negative; each is labelled with its cycle and time. A run restarted from any restart file starts from exactly the recorded cycle, time and fields '
         '(prescribed temperatures are the ones of that time) and goes on as the run that was not stopped, except for the orientation symmetry rotations a restart sets anew.',
         'for every schedule (interval kinds, values, first/last flags, end time, cycle limits), deck, step size, patch decomposition, start time and restart cycle',
         'no stable test runs a simulation; a missed or doubled output, or a state that a restart forgets, needs a particular schedule or restart point to show',
         [S + x for x in ('EventInterval.cc', 'PFModel.cc', 'QuatModel.cc', 'QuatIntegrator.cc', 'ScalarTemperatureStrategy.cc')],
         [('intervals', S + 'EventInterval.cc'), ('the run and its restart files', S + 'PFModel.cc')],
         'event logs of whole runs against an independent interval model, restarts compared with the uninterrupted run to 1e-10; constant step sizes (explicit steps of the stand-in integrator); one mesh level',
         over=('inputs', 'configurations', 'histories'), tech='offline checker of the recorded event log against a schedule model; comparison of restarted with uninterrupted runs')
    prop('C23', 'Initial data are what was asked for: generated, read, written, read again',
         'A simulation starts from exactly the fields its initial data name: the arrays of its NetCDF file (every order parameter, eta, temperature, orientation component and composition at its own cell, in single or double precision, on any patch decomposition) or the uniform values of its input, temperature in the units the run uses. '
         'The file of initial conditions a run writes holds the fields it ended with, under the names and units a run reads, so that a run started from it has the same fields. The tools in utils that make initial data (nuclei, spheres, a sphere, bilayers, four corners, grains on a boundary) write the geometry, '
         'widths, compositions, temperatures and orientations their options ask for: every cell inside a requested body is of that phase and cells outside are not, solute contents reach the requested nominal composition, orientations are unit and the same in all cells of a grain, dimensions are those asked for; quat.py does quaternion algebra; '
         'substituteInputParameter.py changes only the named parameter; volfracvstime.py pairs each fraction with the time it was printed at.',
         'for every deck, field content, precision, uniform value, decomposition; for every admissible set of tool options and every input deck and log text',
         'the stable tests write and read one small array; a shifted, swapped or dropped field only shows when the whole field is compared with what was asked for, for many options',
         [S + x for x in ('FieldsInitializer.cc', 'FieldsWriter.cc', 'QuatModel.cc')] + ['utils/' + x for x in ('make_nuclei.py', 'make_multi_spheres.py', 'make_bilayer.py', 'make_sphere.py', 'make4corners.py', 'make_initial_grains_on_boundary.py', 'quat.py', 'substituteInputParameter.py', 'volfracvstime.py')],
         [('reading initial data', S + 'FieldsInitializer.cc'), ('writing them', S + 'FieldsWriter.cc'), ('making them', 'utils/make_nuclei.py')],
         'generated options and fields; whole fields against an independent description of the request; tolerances of single precision; scripts for Python 2 only are left out; files written from one mesh level',
         over=('inputs', 'configurations'), tech='offline checker of the fields read, written and generated against the request')
