"""decks that the repository does not have: options of the program that none of its decks use, put into one of them (base, changes)"""
M = 'ModelParameters/'
C = M + 'ConcentrationModel/'
T = M + 'Temperature/'
# Beckermann's composition equation, with the linear phase diagram and a double well biased by the undercooling
BECK = {M + 'epsilon_phi': '0.2', M + 'PhaseMobility': {'value': ['2.']}, M + 'phi_well_scale': '0.3', T + 'meltingT': '933.',
        M + 'BoundaryConditions/PartitionCoeff': {'boundary_%d' % k: ['"slope"', '"0"'] for k in range(6)}, M + 'Interface': None, M + 'epsilon_anisotropy': None,
        M + 'ConcentrationModel': dict(model=['"linear"'], rhs_form=['"beckermann"'], molar_volume=['1.095e-5'], liquidus_slope=['-640.'], average_concentration=['0.02'],
                                       alpha=['0.6'], D_liquid=['3.e3'], D_solid=['3.e1'], D_solid_A=['3.e1'], partition_coeff=['"uniform"'], keq=['0.14'])}
UTRC = dict(BECK); UTRC[M + 'ConcentrationModel'] = dict(BECK[M + 'ConcentrationModel'], gamma=['10.'])
LINEAR = {M + 'Integrator': None}
VAR = {
    'AlCu/2d+beckermann': BECK,
    'AlCu/2d+utrc': UTRC,
    'AlCu/2d+partition': {C + 'phase_concentration_model': '"partition"', C + 'partition_coeff': '"uniform"'},
    'AlCu/2d+aziz': {C + 'phase_concentration_model': '"partition"', C + 'partition_coeff': '"Aziz"', C + 'vd': '200.'},
    'SingleGrainGrowthAuNi/2d+aziz': {C + 'phase_concentration_model': '"partition"', C + 'partition_coeff': '"Aziz"', C + 'vd': '200.', T + 'dtemperaturedt': None, T + 'target_temperature': None},
    'Dendrite/2d+bias': {M + 'FreeEnergyModel': None, M + 'bias_well_alpha': '0.9', M + 'bias_well_gamma': '10.'},
    'Dendrite/2d+temperature': {M + 'FreeEnergyModel': {'type': ['"scalar"'], 'free_energy_liquid': ['0.'], 'free_energy_solid': ['0.1'], 'free_energy_solid_A': ['0.1']}},
    '2Ph1Sl/2d+multi': {M + 'norderp': '3', M + 'PhaseMobility': {'value': ['1.985']}},
    '3Ph2Sl/2d+multi': {M + 'three_phases': None, M + 'norderp': '4', M + 'norderp_A': '2'},
    'ThreePhasesCALPHAD/2d+multi': {M + 'three_phases': None, M + 'norderp': '4', M + 'norderp_A': '2'},
}
def names(nd): return [k.replace('/2d', '/%dd' % nd) for k in VAR if 'aziz' not in k]
def base(name): return name.split('+')[0]
def load(name, nd, raw):
    b, v = name.split('+')
    d = raw(b)
    for k, x in VAR[b.replace('/3d', '/2d') + '+' + v].items():
        import copy
        d.put(k, copy.deepcopy(x) if isinstance(x, dict) or x is None else [x])
    return d
