"""Facts about the analysed program's object graph used to seed the symbolic heap."""
import json
import os

TYPES = {('Vehicle', 'planetObj'): 'Planet', ('Orbiter', 'vehicle'): 'Vehicle', ('PropulsiveOrbiter', 'approach'): 'Approach',
         ('Approach', 'planetObj'): 'Planet', ('LanderToPlanet', 'planetObj'): 'Planet', ('LanderToOrbiter', 'planetObj'): 'Planet',
         ('OrbiterToPlanet', 'planetObj'): 'Planet', ('PropulsiveOrbiter', 'planetObj'): 'Planet',
         ('Orbiter', 'planetObj'): 'Planet'}
SHAPES = {('Approach', n): 3 for n in (
    'v_inf_vec_icrf_kms', 'v_inf_vec_bi_kms', 'v_inf_vec_bi', 'v_inf_vec_bi_unit', 'rp_vec_bi_unit', 'rp_vec_bi', 'e_vec_bi',
    'e_vec_bi_unit', 'h_vec_bi', 'h_vec_bi_unit', 'N_vec_bi', 'N_vec_bi_unit', 'r_vec_entry_bi', 'r_vec_entry_bi_unit',
    'v_vec_entry_bi', 'v_vec_entry_bi_unit', 'v_vec_entry_atm', 'v_vec_entry_atm_unit', 'r_vec_rp_bi', 'v_vec_rp_bi',
    'S_vec_bi', 'S_vec_bi_unit', 'T_vec_bi', 'T_vec_bi_unit', 'R_vec_bi', 'R_vec_bi_unit', 'B_vec_bi', 'B_vec_bi_unit')}
SHAPES.update({('Orbiter', n): 3 for n in (
    'terminal_r_vec', 'terminal_r_hat_vec', 'terminal_v_vec', 'terminal_v_ie_vec', 'v_apoapsis_vec_coast', 'v_apoapsis_vec_orbit',
    'r_vec_bi_probe_entry', 'r_vec_bi_probe_entry_unit', 'v_bi_vec_probe_entry', 'v_bi_vec_probe_entry_unit', 'r_apoapsis_vec')})
ARRAYS = ()
# representative values that order the altitude limits; a tuple: one value per third of the valuations (users may set them apart)
PARAMS = {'h_trap': 10000, 'h_low': 50000, 'h_skip': 120000, 'h_thres': (120000, 113000, 131000)}
_u = os.path.join(os.path.dirname(__file__), '..', 'spec', 'universe.json')
UNIVERSE = {k: set(v) for k, v in json.load(open(_u)).items()} if os.path.exists(_u) else {}
IGNORE = {'CD1', 'CD_vec', 'vehicleCopy'}      # scratch state, not part of any stated guarantee
# documented attributes that users set directly (tests, notebooks)
SETTABLE = {'h_skip', 'h_trap', 'h_low', 'h_thres', 'RN', 'CD', 'LD', 'A', 'mass', 'beta'}
