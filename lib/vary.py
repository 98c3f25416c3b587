"""random legal changes of a deck: options that the program offers besides those the repository's decks use"""
import numpy as np

def opt(rng, *v): return v[int(rng.integers(len(v)))]

def vary(d, rng, nd, strength=.5, conserve=False):
    """edits the deck in place; returns the list of changes"""
    M = 'ModelParameters/'
    log = []
    def put(k, v):
        log.append('%s=%s' % (k, v)); d.put(k, v if isinstance(v, (list, dict)) or v is None else [v])
    def on(): return rng.random() < strength
    mp = d.get_path('ModelParameters') or {}
    three = d.one(M + 'three_phases') == 'TRUE'
    multi = (d.num(M + 'norderp', 1) or 1) > 1
    cm = d.get_path(M + 'ConcentrationModel')
    model = d.one(M + 'ConcentrationModel/model')
    plain = model not in ('cahn_hilliard', 'wang_sintering')
    orient = any(k in mp for k in ('H_parameter', 'epsilon_q', 'epsilon_orient', 'quat_mobility', 'orient_mobility'))
    phase = 'epsilon_phi' in mp or 'phi_well_scale' in mp or 'phi_mobility' in mp
    if plain and phase:
        if on(): put(M + 'avg_func_type', opt(rng, '"arithmetic"', '"harmonic"'))
        if on(): put(M + 'phi_interp_func_type', opt(rng, '"pbg"', '"hbsm"', '"linear"' if d.one(M + 'PhaseMobility/type') != 'kim' else '"pbg"'))
        if on() and cm: put(M + 'conc_interp_func_type', opt(rng, '"pbg"', '"hbsm"', '"linear"'))
        if on() and not three: put(M + 'phi_well_func_type', opt(rng, '"double"', '"single"'))
        if on() and not three: put(M + 'stencil_type', opt(rng, '"normal"', '"isotropic"' if nd == 2 or not orient else '"normal"'))
        if on() and d.num(M + 'phi_mobility'): put(M + 'phi_mobility', d.num(M + 'phi_mobility') * float(rng.uniform(.5, 2)))
        if on() and d.num(M + 'epsilon_phi'): put(M + 'epsilon_phi', d.num(M + 'epsilon_phi') * float(rng.uniform(.5, 2)))
        if on() and d.num(M + 'phi_well_scale'): put(M + 'phi_well_scale', d.num(M + 'phi_well_scale') * float(rng.uniform(.5, 2)))
    if plain and cm:
        if on(): put(M + 'diffusion_interp_func_type', opt(rng, '"linear"', '"pbg"'))
        if on(): put(M + 'ConcentrationModel/avg_func_type', opt(rng, '"arithmetic"', '"harmonic"'))
        if on() and d.one(M + 'ConcentrationModel/rhs_form') == 'ebs': put(M + 'ConcentrationModel/ebs_stencil', opt(rng, '"regular"', '"isotropic"', '"order4"'))
        if on() and d.one(M + 'ConcentrationModel/rhs_form') == 'ebs' and not three and not multi:
            put(M + 'ConcentrationModel/antitrapping', opt(rng, 'TRUE', 'FALSE'))
        if on() and d.one(M + 'ConcentrationModel/diffusion_type') == 'temperature_dependent':
            for k in ('D_liquid', 'D_solid', 'D_solid_A', 'D_solid_B'):
                v = d.num(M + 'ConcentrationModel/' + k)
                if v is not None: put(M + 'ConcentrationModel/' + k, v * float(rng.uniform(.3, 3)))
            for k in ('Q0_liquid', 'Q0_solid_A'): put(M + 'ConcentrationModel/' + k, float(rng.uniform(0., 5e3)))
            if not three:
                if rng.random() < .5: put(M + 'ConcentrationModel/D0_LA', (d.num(M + 'ConcentrationModel/D_liquid') or 1.) * float(rng.uniform(.1, 2)))
                if rng.random() < .5: put(M + 'ConcentrationModel/D0_AA', (d.num(M + 'ConcentrationModel/D_liquid') or 1.) * float(rng.uniform(.1, 2)))
            else:
                for k in ('D0_LA', 'D0_AB', 'D0_LB', 'D0_BB', 'D0_AA'):
                    if rng.random() < .5: put(M + 'ConcentrationModel/' + k, (d.num(M + 'ConcentrationModel/D_liquid') or 1.) * float(rng.uniform(.1, 2)))
    if cm and on(): put(M + 'ConcentrationModel/mobility', float(rng.uniform(.5, 2.)))
    if d.one(M + 'PhaseMobility/type') in ('"kim"', 'kim') and on():
        k = opt(rng, *('zz' if three else 'izzbn'))
        for x in ('kinetics_coefficient', 'interface_mobility', 'zeta') + (() if three else ('Tref', 'zetaLA', 'zetaLB')): put(M + 'PhaseMobility/' + x, None)
        z = [float(10 ** rng.uniform(1, 3)), float(rng.uniform(-.02, .02)), float(rng.uniform(0, 1e-4))]
        if k == 'i': put(M + 'PhaseMobility/interface_mobility', float(10 ** rng.uniform(-1, 1)))
        if k == 'z':
            T0 = d.num(M + 'Temperature/temperature', d.num(M + 'Temperature/T_ref', 1000.))
            put(M + 'PhaseMobility/Tref', T0 + float(rng.uniform(-5, 5)))
            if three:
                put(M + 'PhaseMobility/zetaLA', z); put(M + 'PhaseMobility/zetaLB', [x * 1.7 for x in z])
            else: put(M + 'PhaseMobility/' + opt(rng, 'zeta', 'zetaLA'), z)
            if not three and rng.random() < .4: put(M + 'PhaseMobility/interface_mobility', float(10 ** rng.uniform(-1, 1)))
        if k == 'b' and d.num(M + 'ConcentrationModel/keq') and (d.num(M + 'ConcentrationModel/liquidus_slope') or 0) < 0: put(M + 'PhaseMobility/kinetics_coefficient', float(10 ** rng.uniform(-6, -3)))
    if orient and d.num(M + 'H_parameter', 1.) > 0:
        if on(): put(M + 'orient_interp_func_type1', opt(rng, '"q"', '"w"', '"p"', '"l"', '"3"', '"c"', '"s"'))
        if on(): put(M + 'orient_interp_func_type2', opt(rng, '"q"', '"w"', '"p"', '"l"', '"3"', '"c"'))
        if on(): put(M + 'orient_mobility_func_type', opt(rng, '"pbg"', '"inverse"', '"exp"')); put(M + 'exp_scale_orient_mobility', float(rng.uniform(1., 8.)))
        if on(): put(M + 'orient_grad_floor_type', opt(rng, '"max"', '"tanh"', '"sqrt"'))
        if on(): put(M + 'quat_grad_modulus_type', opt(rng, '"cells"', '"sides"'))
        if on(): put(M + 'diffq_avg_func_type', opt(rng, '"arithmetic"', '"harmonic"'))
        if on(): put('Symmetry/enabled', opt(rng, 'TRUE', 'FALSE'))
        if on() and nd == 2: put(M + 'use_diffs_to_compute_flux', opt(rng, 'TRUE', 'FALSE'))
        if on(): put('Integrator/lag_quat_sidegrad', opt(rng, 'TRUE', 'FALSE'))
    if on() and phase and not three and not multi and plain: put(M + 'epsilon_anisotropy', float(rng.uniform(.01, .06)))
    if on(): put('Geometry/periodic_dimension', [str(int(rng.integers(2))) for _ in range(nd)])
    per = [int(x) for x in d.get_path('Geometry/periodic_dimension') or [1] * nd]
    if not all(per):
        for q in ('Phase', 'Conc', 'Temperature', 'Eta', 'Quat'):
            if d.get_path(M + 'BoundaryConditions/' + q) is None: d.put(M + 'BoundaryConditions/' + q, {'boundary_%d' % k: ['"slope"', '"0"'] for k in range(2 * nd)})
    if on() and d.get_path(M + 'MovingFrame') is not None: put(M + 'MovingFrame/upwind', opt(rng, 'TRUE', 'FALSE'))
    return log

def closed(d, nd):
    """no flux through the outer sides: zero slopes, no moving frame"""
    d.put('ModelParameters/MovingFrame', None)
    if d.get_path('ModelParameters/RigidBody') is not None: d.put('Geometry/periodic_dimension', ['1'] * nd)     # bodies may leave through a side
    for q in ('Phase', 'Conc', 'Temperature', 'Eta', 'Quat'):
        if d.get_path('ModelParameters/BoundaryConditions/' + q) is not None or not all(int(x) for x in d.get_path('Geometry/periodic_dimension') or [1] * nd):
            if (d.get_path('ModelParameters/BoundaryConditions/' + q) is not None):
                d.put('ModelParameters/BoundaryConditions/' + q, {'boundary_%d' % k: ['"slope"', '"0"'] for k in range(2 * nd)})
