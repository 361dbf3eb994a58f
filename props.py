"""The properties: text (for properties.jsonl) and the obligations that decide each."""
import fnmatch

COMMON_ASSUMPTIONS = [
    'real arithmetic: rounding, overflow and the accuracy of numpy/scipy routines are outside the analysis',
    'numpy/scipy/astropy functions behave as documented and are pure',
    'array arguments do not alias each other; attributes keep the kinds documented for them',
]

PROPS = []
BY_ID = {}


def prop(id, title, statement, quant, tests, files, mech, obs, observe, over=('inputs',), state=(), **kw):
    p = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=quant), why_tests_cant=tests,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                          observe_at=list(observe), hook_needed=None), obs=obs)
    p.update(kw)
    assert len(title) <= 80, title
    assert id not in BY_ID
    PROPS.append(p)
    BY_ID[id] = p


def base(name):
    a, _, b = name.rpartition(':')
    return a if b == 'defaults' or b.startswith('omit') else name


def select(p, table):
    out = []
    for n in table:
        b = base(n)
        if any(fnmatch.fnmatchcase(b, x) for x in p['obs']) and not any(fnmatch.fnmatchcase(b, x) for x in p.get('skip', ())):
            out.append(n)
    return out


PL, VE = 'AMAT/planet.py', 'AMAT/vehicle.py'
A, E, G = 'vehicle_aero:Vehicle.', 'vehicle_entry:Vehicle.', 'vehicle_guided:Vehicle.'
FORCES = [A + x for x in ('L', 'D', 'Lbar', 'Dbar', 'a_s', 'a_n', 'a_w', 'a_sbar', 'a_nbar', 'a_wbar')]
EOM = FORCES + [A + x for x in ('cf*bar', 'co*bar', 'g?bar', 'gthetabar', 'gphibar', 'avoid_singularity', 'EOM', 'EOM2')]
LOADS = [A + x for x in ('Lvectorized', 'Dvectorized', 'a_?vectorized', 'computeAcceleration*', 'computeDynPres', 'computeStag*',
                         'computeMach*', 'convertTo*')]
HEAT = [A + x for x in ('qStag*', 'computeHeatingForMultipleRN')]
ATM = ['planet:Planet.' + x for x in ('loadAtmosphereModel', 'density', 'tempvectorized', 'presvectorized', 'densityvectorized',
                                      'avectorized', 'rho', 'rhovectorized', 'pressurevectorized', 'temperaturevectorized',
                                      'sonicvectorized', 'rho2', 'rhobar', 'scaleHeight')]
DISP = ['planet:Planet.' + x for x in ('loadMonteCarloDensityFile*', '?SigmaFunc', 'loadAtmosphereModel5', 'loadAtmosphereModel6')]
UNITS = ['planet:Planet.' + x for x in ('rbar', 'computeR', 'computeH', 'nonDimState', 'dimensionalize')] + [A + 'convertTo*']
SOLVE = [A + x for x in ('setInitialState', 'setSolverParams', 'solveTrajectory*', 'hit_EFPA_90')]
TRUNC = [A + x for x in ('classifyTrajectory', 'truncateTrajectory')]
PROP = [E + 'propogateEntry', E + 'propogateEntry2']
ORB = [E + x for x in ('computeEnergy*', 'computeSemiMajorAxisScalar', 'computeAngMomScalar', 'computeEccScalar',
                       'compute_*AltitudeKm', 'compute_*_raise_DV', 'setTargetOrbitParams')]
TARGET = [E + x for x in ('isCaptured', 'hitsTargetApoapsis*', 'propogateEntry_util*', 'dummyVehicle')]
PRED = [E + x for x in ('predictApoapsis*', 'dummyVehicle', 'compute_ApoapsisAltitudeKm', 'createDensityMeasuredFunction')]

prop('P01', 'Equations of motion of the atmospheric flight',
     'For every vehicle, planet and flight state, the time derivative used to propagate a trajectory is the three-degree-of-freedom motion of a '
     'point mass over a rotating planet with J2/J3 gravity, lift and drag: each of the seven state rates equals the textbook expression, bank '
     'angle and sign conventions included. Outside the special handling of a vertical flight path nothing else enters the rates.',
     'all states, bank angles, planets, mass and aerodynamic parameters, and atmosphere models',
     'tests integrate a few trajectories and compare loosely or only check shapes; a term that vanishes for those states (cross-range, J3, '
     'centrifugal, Coriolis, sin of the bank angle) can be wrong unnoticed',
     [VE, PL], [('state rates', 'Vehicle.EOM / EOM2'), ('force and gravity components', 'Vehicle.a_*bar, g*bar, cf*bar, co*bar')],
     EOM + ['planet:Planet.r*bar', 'planet:Planet.rho*', 'planet:Planet.density', 'planet:Planet.computeH', 'planet:Planet.computeR'],
     ['Vehicle.EOM(y, t, delta)', 'Vehicle.EOM2(y, t, delta)'])

prop('P02', 'Trajectory integration starts, steps and stops as requested',
     'For every stored initial state and requested duration, step and bank angle, the trajectory is the solution of the equations of motion from '
     'exactly that state over exactly that time span at the requested sampling, with the tolerances the user set. The second solver differs only '
     'in stopping when the flight path becomes vertical.',
     'all initial states, durations, steps, tolerances and bank angles',
     'tests use one initial state and one solver setting',
     [VE], [('initial value problem', 'Vehicle.solveTrajectory / solveTrajectory2'), ('initial state', 'Vehicle.setInitialState')],
     SOLVE + [A + '__init__', 'planet:Planet.nonDimState', 'planet:Planet.dimensionalize'],
     ['Vehicle.solveTrajectory(...)', 'Vehicle.setInitialState(...)'])

prop('P03', 'Units and scaling are consistent everywhere',
     'Scaling a state by the planet reference quantities and back returns the same state, radius and altitude conversions are mutual inverses, and '
     'everything reported for plotting is the flown trajectory in minutes, kilometres, kilometres per second and degrees. Pressures and heat '
     'loads are converted to kPa/atm and per square centimetre with the exact factors.',
     'all trajectories and all planets',
     'the factors are compared at single points, if at all',
     [PL, VE], [('scaling', 'Planet.nonDimState, dimensionalize'), ('plot units', 'Vehicle.convertToPlotUnits')],
     UNITS + ['planet:Planet.__init__'], ['Planet.nonDimState', 'Planet.dimensionalize', 'Vehicle.convertToPlotUnits'])

prop('P04', 'Planet objects carry the right constants or are refused',
     'Creating a planet from a supported name gives that body\'s radius, rotation, gravity parameter, harmonics, pole, reference density, '
     'interface altitudes and heat-capacity ratio, with the reference speed and time derived from them; any other name is rejected with an error '
     'instead of returning a half-initialised planet.',
     'all planet names, supported or not',
     'tests construct a few planets and look at one or two attributes',
     [PL], [('constant table and validation', 'Planet.__init__')], ['planet:Planet.__init__'], ['Planet(planetID)'])

prop('P05', 'Atmosphere lookup follows the loaded table and its bounds',
     'After loading an atmosphere table, temperature, pressure, density and sound speed at any altitude inside the model are the interpolated table '
     'columns (in SI units, columns as the user numbered them); a scalar density query below the surface returns the surface value and above the '
     'atmosphere returns zero. The scale height and the non-dimensional density are derived from the same profile.',
     'all tables, column assignments, altitudes and intercept flags',
     'tests query a handful of altitudes of one table',
     [PL], [('table loading', 'Planet.loadAtmosphereModel'), ('lookup', 'Planet.density, rho, *vectorized')], ATM + ['planet:Planet.computeH',
                                                                                                                    'planet:Planet.computeR'],
     ['Planet.loadAtmosphereModel(...)', 'Planet.density(h)', 'Planet.densityvectorized(h)'])

prop('P06', 'Stagnation-point heating follows the planet-specific correlations',
     'For every planet and flight condition the convective and radiative stagnation-point heat rates are the published correlation of that planet '
     '(speed ranges included), their sum is the total, and planets without a radiative correlation get zero radiative heating. Heating for several '
     'nose radii uses the same correlations with only the radius changed, and leaves the vehicle with its own nose radius.',
     'all planets, densities, speeds, nose radii',
     'tests check one trajectory of one planet; correlations of other planets and speed ranges are never compared',
     [VE], [('correlations', 'Vehicle.qStagConvective, qStagRadiative'), ('sum', 'Vehicle.qStagTotal')],
     HEAT + ['planet:Planet.rhovectorized', 'planet:Planet.densityvectorized'], ['Vehicle.qStagTotal(r, v)'])

prop('P07', 'Loads, pressures, Mach number and stagnation temperature',
     'Along any trajectory the reported deceleration load, drag deceleration, dynamic pressure, stagnation pressure, Mach number and stagnation '
     'temperature are the defining formulas evaluated with the local density, sound speed, temperature and the vehicle\'s aerodynamics (Mach-dependent '
     'drag when the user supplied it), and scalar and array versions agree.',
     'all trajectories, vehicles, planets, aerodynamic models',
     'tests look at maxima of one flight; out-of-plane terms and other planets are not exercised',
     [VE], [('forces', 'Vehicle.L, D, a_s, a_n, a_w and array versions'), ('loads', 'Vehicle.computeAccelerationLoad ... computeStagTemp')],
     FORCES + LOADS + [A + 'setCDMachFunction', A + '__init__', 'planet:Planet.*vectorized'], ['Vehicle.computeAccelerationLoad(...)', 'Vehicle.computeMach(...)'])

prop('P08', 'Trajectories are classified and cut at the right event',
     'Every propagated trajectory is classified as skip-out, trapped or unresolved by whether it leaves the skip altitude or falls below the trap '
     'altitude, and is cut at the first sample of that event; the cut removes only later samples and treats all state histories alike.',
     'all trajectories and planets', 'only the class of a few trajectories is tested',
     [VE], [('event detection', 'Vehicle.classifyTrajectory'), ('cut', 'Vehicle.truncateTrajectory')], TRUNC, ['Vehicle.classifyTrajectory(r)'])

prop('P09', 'A propagated entry stores a complete, consistent record',
     'After propagating an entry the stored histories (time, position, speed, angles, range, loads, pressures, heating, heat load, energy) all '
     'belong to the same truncated trajectory from the stored initial state, in the documented units, and the heat load accumulates from its '
     'initial value.',
     'all initial states, vehicles, planets, bank angles and durations', 'tests check one entry and mostly maxima',
     [VE], [('record', 'Vehicle.propogateEntry, propogateEntry2')],
     PROP + TRUNC + SOLVE + LOADS + HEAT + [A + 'EOM*', E + 'computeEnergy*', 'planet:Planet.dimensionalize', 'planet:Planet.nonDimState'],
     ['Vehicle.propogateEntry(t, dt, delta)'], over=('inputs', 'histories'))

prop('P10', 'Lift-modulation corridor bounds bracket the target',
     'Over- and undershoot limits are found by bisection on entry flight-path angle with full-lift-up respectively full-lift-down flight, moving the '
     'bracket to the side that the captured/target-apoapsis test selects, until the tolerance is met; the theoretical corridor width is their '
     'difference. The search does not change the vehicle\'s own initial entry state.',
     'all vehicles, entry states, brackets, tolerances and targets', 'one corridor per planet is compared with a tolerance of degrees',
     [VE], [('bisection', 'Vehicle.findOverShootLimit/2, findUnderShootLimit/2'), ('width', 'Vehicle.computeTCW/2')],
     [E + x for x in ('findOverShootLimit', 'findOverShootLimit2', 'findUnderShootLimit', 'findUnderShootLimit2', 'computeTCW', 'computeTCW2',
                      'propogateEntry_util', 'propogateEntry_util2')] + TARGET, ['Vehicle.findOverShootLimit(...)', 'Vehicle.computeTCW(...)'])

prop('P11', 'Drag-modulation corridor bounds bracket the target',
     'Entry limits for drag modulation are found by bisection flying without lift at the ballistic coefficient of the limit (low for overshoot, '
     'high for undershoot), moving the bracket by the target-apoapsis test until the tolerance is met; the corridor width is the difference of the '
     'two limits. A limit search leaves entry flight-path angle, lift-to-drag ratio and lift coefficient of the vehicle as they were.',
     'all vehicles, ballistic coefficients, brackets and targets', 'not tested beyond one case',
     [VE], [('bisection', 'Vehicle.findEFPALimitD/2, findOverShootLimitD/2, findUnderShootLimitD/2'), ('width', 'Vehicle.computeTCWD/2')],
     [E + x for x in ('find*LimitD', 'find*LimitD2', 'computeTCWD', 'computeTCWD2')] + TARGET, ['Vehicle.computeTCWD(...)'])

prop('P12', 'Onboard predictions do not disturb the flown vehicle',
     'Predicting the apoapsis from the current state flies a separate copy with the sensed density model and full lift-up (or the post-jettison '
     'ballistic coefficient) from exactly that state, and returns its exit apoapsis altitude; the flown vehicle, its planet model and its '
     'recorded histories are unchanged.',
     'all states, vehicles, density models', 'predictions are only exercised inside one guided flight',
     [VE], [('copy and prediction', 'Vehicle.predictApoapsisAltitudeKm_*'), ('sensed density', 'Vehicle.createDensityMeasuredFunction')],
     PRED + ORB, ['Vehicle.predictApoapsisAltitudeKm_withLiftUp(...)'], over=('inputs', 'histories'))

prop('P13', 'Exit orbit and orbit-correction maneuvers',
     'From any atmospheric exit state the reported energy, angular momentum, semi-major axis, eccentricity, apoapsis and periapsis altitudes are those '
     'of the conic through the inertial exit state, and the periapsis- and apoapsis-raise maneuvers are the vis-viva speed differences at the '
     'apses towards the target orbit.',
     'all exit states, planets and targets', 'single numbers of one trajectory are compared',
     [VE], [('orbit', 'Vehicle.compute*Scalar, compute_*AltitudeKm'), ('maneuvers', 'Vehicle.compute_*_raise_DV')],
     ORB + [E + 'isCaptured', E + 'hitsTarget*'], ['Vehicle.compute_ApoapsisAltitudeKm(...)', 'Vehicle.compute_periapsis_raise_DV(...)'])

prop('P14', 'Lift-modulation guidance flies the commanded profile',
     'During a lift-modulation entry each guidance cycle commands the equilibrium-glide bank angle with altitude-rate and dynamic-pressure feedback, '
     'saturated and rate limited, flies it from the end of the previous cycle, and switches to full lift-up when speed, altitude, or the '
     'predicted apoapsis says so; the stored histories are the concatenation of all cycles with continuous time and heat load, and the '
     'documented records of the entry phase (bank, altitude rate and acceleration, reference and actual dynamic pressure, load, drag, sensed density) '
     'have exactly one entry per cycle.',
     'all vehicles, targets, gains, rates, cycle times', 'one guided entry is run for completion only',
     [VE], [('entry phase', 'Vehicle.propogateEquilibriumGlide/2'), ('exit phase', 'Vehicle.propogateExitPhase/2'), ('rate limit', 'Vehicle.psuedoController')],
     [G + x for x in ('propogateEquilibriumGlide*', 'propogateExitPhase', 'propogateExitPhase2', 'propogateGuidedEntry', 'propogateGuidedEntry2')] +
     [E + x for x in ('setMaxRollRate', 'psuedoController', 'setEquilibriumGlideParams', 'setTargetOrbitParams')] + PRED,
     ['Vehicle.propogateGuidedEntry(...)'], over=('inputs', 'histories'))

prop('P15', 'Drag-modulation guidance flies the commanded profile',
     'During a drag-modulation entry the vehicle flies without lift at the initial ballistic coefficient until the predicted post-jettison apoapsis '
     '(or speed, altitude) says so, then at the increased one until atmospheric exit; the stored histories are the concatenation of all cycles with '
     'continuous time and heat load, and the documented records of the entry phase have exactly one entry per cycle.',
     'all vehicles, targets, ballistic coefficients, cycle times', 'one guided entry is run for completion only',
     [VE], [('entry phase', 'Vehicle.propogateEntryPhaseD/2'), ('exit phase', 'Vehicle.propogateExitPhaseD/2')],
     [G + x for x in ('propogateEntryPhaseD*', 'propogateExitPhaseD*', 'propogateGuidedEntryD*')] +
     [E + x for x in ('setDragEntryPhaseParams', 'setDragModulationVehicleParams', 'setTargetOrbitParams')] + PRED,
     ['Vehicle.propogateGuidedEntryD(...)'], over=('inputs', 'histories'))

prop('P18', 'Dispersed atmosphere profiles',
     'A dispersed density profile drawn from a perturbation file is the mean density plus the scaled low/high deviation plus the perturbation of the '
     'selected profile, interpolated in altitude and zero outside the table, for the file columns and units the user gives.',
     'all files, column assignments, profile numbers and dispersion levels', 'one profile of one file is loaded',
     [PL], [('file loading', 'Planet.loadMonteCarloDensityFile2/3'), ('profile', 'Planet.loadAtmosphereModel5/6')], DISP,
     ['Planet.loadAtmosphereModel5(...)'])

MC = 'vehicle_mc:Vehicle.'
AP, MA, OR, TE, VI, LA, IN = ('AMAT/approach.py', 'AMAT/maneuver.py', 'AMAT/orbiter.py', 'AMAT/telecom.py', 'AMAT/visibility.py',
                              'AMAT/launcher.py', 'AMAT/interplanetary.py')
MOTION = ['approach:Approach.' + x for x in ('r_mag_bi', 'pos_vec_bi', 'vel_vec_bi')]
CONIC = ['orbiter:PropulsiveOrbiter.' + x for x in ('r_mag_bi', 'pos_vec_bi', 'vel_vec_bi', 'compute_orbit_trajectory')]

prop('P16', 'Monte Carlo campaigns with lift modulation',
     'Every run of a lift-modulation campaign draws atmosphere, aerodynamics, entry state and density knowledge from the stated distributions around '
     'the nominal vehicle, flies the guided entry with exactly that draw and appends its exit and load results at the same index of every result '
     'list; the saved files contain those lists and nothing from earlier runs leaks into a draw.',
     'all numbers of runs, dispersions, seeds, vehicles and atmosphere files',
     'the campaign is run for a couple of samples and only the existence of files is checked; which distribution fed which quantity is never compared',
     [VE, PL], [('campaign set-up', 'Vehicle.setupMonteCarloSimulation'), ('runs', 'Vehicle.runMonteCarlo, runMonteCarlo2'),
                ('guided flight', 'Vehicle.propogateGuidedEntry/2')],
     [MC + x for x in ('setupMonteCarloSimulation', 'runMonteCarlo', 'runMonteCarlo2', 'propogateGuidedEntry', 'propogateGuidedEntry2')] + DISP,
     ['files written by Vehicle.runMonteCarlo(N, ...)'], over=('inputs', 'histories'))

prop('P17', 'Monte Carlo campaigns with drag modulation',
     'Every run of a drag-modulation campaign draws atmosphere, ballistic coefficient, entry state and density knowledge from the stated '
     'distributions around the nominal vehicle, flies the jettison-guided entry with exactly that draw and appends its results at the same index '
     'of every result list, for the planetary and the Earth variant alike.',
     'all numbers of runs, dispersions, seeds, vehicles and atmosphere files',
     'the campaign is run for a couple of samples and only the existence of files is checked',
     [VE, PL], [('campaign set-up', 'Vehicle.setupMonteCarloSimulationD, setupMonteCarloSimulationD_Earth'),
                ('runs', 'Vehicle.runMonteCarloD, runMonteCarloD2, runMonteCarloD_Earth')],
     [MC + x for x in ('setupMonteCarloSimulationD*', 'runMonteCarloD*', 'propogateGuidedEntryD*', 'setDragModulationVehicleParams')] + DISP,
     ['files written by Vehicle.runMonteCarloD(N, ...)'], over=('inputs', 'histories'))

prop('P19', 'Approach hyperbola: elements and B-plane',
     'An approach built from a planet, arrival excess velocity, periapsis radius and B-plane angle is the hyperbola with that asymptote: its '
     'semi-major axis, eccentricity, angular momentum, plane, node, argument of periapsis, periapsis vector and B-plane vectors are the ones '
     'determined by those inputs in the planet\'s inertial frame.',
     'all arrival velocities in ICRF, periapsis radii, B-plane angles and planets',
     'tests use one or two arrival vectors; quadrant choices (node, periapsis, asymptote angles) need other directions',
     [AP], [('hyperbola', 'Approach.__init__'), ('frames', 'Approach.R1, R2, R3, ICRF_to_BI, BI_to_BI_dprime')],
     ['approach:Approach.' + x for x in ('R1', 'R2', 'R3', 'ICRF_to_BI', 'BI_to_BI_dprime', '__init__')] + ['planet:Planet.__init__'],
     ['attributes of Approach(...)'])

prop('P20', 'Position, velocity and entry state on approach',
     'Position and velocity on the approach hyperbola at any true anomaly, before and after periapsis, are those of the conic; the atmospheric entry '
     'state is the inbound crossing of the interface radius, with latitude, longitude, flight-path angle and speed relative to the rotating planet.',
     'all true anomalies on the hyperbola and all interface altitudes',
     'tests evaluate one point of one arrival',
     [AP], [('motion', 'Approach.r_mag_bi, pos_vec_bi, vel_vec_bi'), ('entry state', 'Approach.__init__, vel_vec_entry_atm')],
     MOTION + ['approach:Approach.' + x for x in ('pos_vec_bi_dprime', 'BI_to_BI_dprime', 'vel_vec_entry_atm', '__init__', 'entry_heading')],
     ['Approach.pos_vec_bi(theta)', 'Approach.vel_vec_bi(theta)', 'entry attributes of Approach(...)'])

prop('P21', 'Deflection manoeuvres reach both targets',
     'A probe-orbiter, probe-probe or orbiter-orbiter deflection starts at the point where the first vehicle passes the given radius inbound, the '
     'post-manoeuvre velocity takes the second vehicle from that point to its own periapsis, the impulse is the difference of the two velocities, '
     'and the times of flight are those from the manoeuvre to the stated end points.',
     'all arrival velocities, aim points and manoeuvre radii',
     'tests compare the delta-v of one case per class with the value the code itself once produced',
     [MA, AP], [('transfers', 'ProbeOrbiterDeflection, ProbeProbeDeflection, OrbiterOrbiterDeflection')],
     ['maneuver:*'] + MOTION, ['dv_maneuver_vec, TOF_* of the deflection objects'])

prop('P22', 'Orbit after aerocapture',
     'From the end of a captured entry the inertial exit state, coast orbit elements and the exit true anomaly are those of the orbit through the '
     'exit point with planet rotation added; the coast ends at its apoapsis, where the periapsis-raise manoeuvre is the velocity change to the orbit '
     'with the requested periapsis, and the plotted orbits are the conics in planet radii.',
     'all captured entries and target periapsis altitudes',
     'tests fly one entry and compare a few numbers',
     [OR], [('exit state', 'Orbiter.compute_exit_state_*'), ('coast', 'Orbiter.compute_coast_*'), ('periapsis raise', 'Orbiter.compute_PRM_dv')],
     ['orbiter:Orbiter.' + x for x in ('__init__', 'compute_exit_state_*', 'exit_heading_inertial', 'compute_coast_*', 'compute_theta_star_exit',
                                       'r_mag_bi', 'pos_vec_bi', 'vel_vec_bi', 'compute_post_PRM_orbital_elements', 'compute_PRM_dv',
                                       'compute_orbit_trajectory')] +
     [E + x for x in ('computeEnergyScalar', 'computeAngMomScalar', 'computeSemiMajorAxisScalar', 'computeEccScalar')],
     ['attributes of Orbiter(vehicle, peri_alt_km)'])

prop('P23', 'Probe release and orbiter deflection from orbit',
     'A targeting impulse along the velocity at the chosen true anomaly gives the probe the orbit through that point with the new velocity; its entry '
     'state is the inbound interface crossing of that orbit, relative to the rotating atmosphere. The orbiter deflection is the corresponding '
     'orbit change from the probe orbit.',
     'all true anomalies, impulses and orbits whose periapsis lies in the atmosphere',
     'tests use one release point and pin a few numbers',
     [OR], [('probe', 'Orbiter.compute_probe_targeting_trajectory'), ('deflection', 'Orbiter.compute_orbiter_deflection_trajectory')],
     ['orbiter:Orbiter.' + x for x in ('compute_probe_targeting_trajectory', 'probe_entry_*', 'pos_vec_bi_probe', 'vel_vec_bi_probe',
                                       'vel_vec_probe_entry_atm', 'compute_orbiter_deflection_trajectory', 'pos_vec_bi_orbiter_defl',
                                       'vel_vec_bi', 'pos_vec_bi', 'r_mag_bi')] +
     [E + x for x in ('computeEnergyScalar', 'computeAngMomScalar', 'computeSemiMajorAxisScalar', 'computeEccScalar')],
     ['Orbiter.compute_probe_targeting_trajectory(...)', 'Orbiter.compute_orbiter_deflection_trajectory(...)'])

prop('P24', 'Propulsive insertion and timed motion in orbit',
     'Propulsive insertion at the approach periapsis gives the orbit with that periapsis, the requested apoapsis and the approach plane and apse line; '
     'the insertion impulse is the velocity difference there. The timed trajectory follows Kepler\'s equation: mean anomaly proportional to time, '
     'eccentric and true anomaly from it, sampled uniformly from periapsis.',
     'all approaches, apoapsis altitudes, durations and sample counts',
     'tests compare one insertion',
     [OR, AP], [('insertion', 'PropulsiveOrbiter.__init__'), ('timed motion', 'PropulsiveOrbiter.compute_timed_orbit_trajectory, compute_E, compute_theta_star')],
     ['orbiter:PropulsiveOrbiter.*', 'approach:Approach.vel_vec_bi', 'approach:Approach.__init__'], ['attributes of PropulsiveOrbiter(...)'])

prop('P25', 'Link budget',
     'For any transmitter, receiver, range and data rate the received energy per bit to noise density is the sum of the link equation in decibels, the '
     'margin is its excess over the requirement, an antenna given by diameter and efficiency has the gain of that aperture, and one given by gain '
     '(0 dBi included) uses that gain.',
     'all frequencies, powers, antennas, losses, ranges and rates',
     'tests use antennas given by both diameters; mixed and gain-only cases are barely exercised',
     [TE], [('link equation', 'Link.__init__'), ('gain and loss', 'Link.compute_antenna_gain, compute_free_space_loss_dB')],
     ['telecom:Link.__init__', 'telecom:Link.compute_dB', 'telecom:Link.compute_antenna_gain', 'telecom:Link.compute_free_space_loss_dB'],
     ['attributes of Link(...)'])

prop('P26', 'Transmit schedule and relayed data volume',
     'The transmit indicator is on exactly within the scheduled windows, and the data volume is the running time integral of the rate over the instants '
     'that are both visible and scheduled, starting at zero, on the visibility time grid.',
     'all schedules, visibilities, rates and durations',
     'tests compare one relay case',
     [TE], [('schedule', 'Schedule.__init__'), ('volume', 'Link.compute_data_volume')],
     ['telecom:Schedule.__init__', 'telecom:Link.compute_data_volume'], ['Link.data_volume_array', 'Schedule.transmit_array'])

prop('P27', 'Surface visibility of planets and orbiters',
     'Seen from a lander, elevation and visibility of a target planet over one full rotation, and of an orbiter over the requested time, follow from '
     'the site rotating with the planet (in its own sense), the inertial direction or position of the target, and the local zenith; below the horizon '
     'the elevation is zero and the target is not visible.',
     'all sites, dates, planets (retrograde rotators included), orbits and sample counts',
     'the tests need an ephemeris file and compare one geometry each',
     [VI], [('lander to planet', 'LanderToPlanet.__init__'), ('lander to orbiter', 'LanderToOrbiter.__init__'), ('frames', 'Visibility.ICRF_to_BI')],
     ['visibility:Visibility.*', 'visibility:LanderTo*', 'orbiter:PropulsiveOrbiter.compute_timed_orbit_trajectory'],
     ['attributes of LanderToPlanet(...)', 'attributes of LanderToOrbiter(...)'])

prop('P28', 'Occultation of the target seen from orbit',
     'Seen from an orbiter, a target planet is hidden exactly while the line of sight passes through the planet disk on the target\'s side, for the '
     'orbit propagated in time and the ephemeris direction at the given date.',
     'all orbits, dates, target planets and sample counts',
     'the test needs an ephemeris file and compares one geometry',
     [VI], [('occultation', 'OrbiterToPlanet.__init__')],
     ['visibility:OrbiterToPlanet.*', 'visibility:Visibility.*', 'orbiter:PropulsiveOrbiter.compute_timed_orbit_trajectory',
      'orbiter:PropulsiveOrbiter.pos_vec_bi'], ['attributes of OrbiterToPlanet(...)'])

prop('P29', 'Launch capability follows the performance table',
     'The deliverable mass at any launch energy is the interpolation of the launcher\'s table and zero outside it; an interplanetary trajectory table '
     'is read column by column from the named sheet, and its launch capability is the launcher\'s mass at each of its launch energies.',
     'all performance tables, interpolation kinds, energies and trajectory tables',
     'tests query a few energies of shipped tables',
     [LA, IN], [('table', 'Launcher.__init__, launchMass'), ('trajectories', 'Interplanetary.__init__, compute_launch_capability')],
     ['launcher:*'], ['Launcher.launchMass(C3)', 'Interplanetary.compute_launch_capability(...)'], skip=('launcher:*.plot_*',))

prop('P30', 'Plots and printed reports show the computed data',
     'Every plotting function draws, in the panel labelled for it, the stored results against the stated quantity in the units of the axis label '
     '(colour bars likewise), saves the figure with that content under the name of the dataset (and launcher) before showing it, in a figure of its '
     'own, and leaves the data it shows unchanged; the printed link budget lists every term of the link equation with its value. '
     '(Styling, axis limits, ticks and sizes are free.)',
     'all records, loaded atmosphere tables, trajectory tables, launchers and link budgets',
     'no test looks at what a figure contains or at the console; a swapped series, a wrong unit or a figure saved after it was closed passes',
     [IN, VE, PL, TE], [('trajectory plots', 'Interplanetary.plot_*'), ('entry plots', 'Vehicle.makeBasicEntryPlots, createQPlot'),
                        ('atmosphere profiles', 'Planet.checkAtmProfiles'), ('link budget', 'Link.print_link_budget')],
     ['launcher:*.plot_*', 'launcher:Interplanetary.compute_launch_capability', 'launcher:Launcher.launchMass', E + 'makeBasicEntryPlots',
      E + 'createQPlot', 'planet:Planet.checkAtmProfiles', 'planet:Planet.*vectorized', 'telecom:Link.print_link_budget'],
     ['figures made and files saved by Interplanetary.plot_*(...)', 'console output of Link.print_link_budget()'])

NOT_APPLICABLE = []


def na(id, title, statement, quant, tests, files, mech, reason, observe):
    NOT_APPLICABLE.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=['inputs'], text=quant), why_tests_cant=tests,
                               anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[], observe_at=list(observe),
                                            hook_needed=None), reason=reason))


na('N01', 'Propagated trajectories are accurate to the requested tolerance',
   'The computed trajectory stays within the accuracy implied by the solver tolerance of the exact solution; in vacuum, energy and angular momentum are conserved.',
   'all initial states, tolerances and durations', 'tests compare a few trajectories with tolerances of per cent', [VE],
   [('integration', 'Vehicle.solveTrajectory, solveTrajectory2')],
   'the error of an adaptive numerical integrator is a runtime quantity of compiled library code; no static argument over AMAT\'s source bounds it '
   '(that the right problem is handed over with the right tolerance is P02)', ['Vehicle.propogateEntry(...)'])
na('N02', 'Corridor limits are the true boundary of the capture set',
   'The flight-path angle returned by a limit search separates captured from escaping trajectories to within the tolerance.',
   'all vehicles, atmospheres, brackets and tolerances', 'one corridor per planet is compared loosely', [VE],
   [('bisection', 'Vehicle.findOverShootLimit/2, findUnderShootLimit/2, findEFPALimitD/2')],
   'needs that capture is monotone in the entry angle over the bracket, a property of the flown dynamics, not of the source '
   '(that the bisection is carried out as specified is P10/P11)', ['Vehicle.computeTCW(...)'])
na('N03', 'Campaign statistics converge to those of the stated distributions',
   'Means, spreads and percentiles over a Monte Carlo campaign converge to those of the dispersed system as the number of runs grows.',
   'all distributions and sample sizes', 'no test runs a campaign', [VE], [('campaigns', 'Vehicle.runMonteCarlo*')],
   'a statement about the random generator and the law of large numbers; only the draws and their use are visible in the source (P16/P17)',
   ['Vehicle.runMonteCarlo(...)'])
na('N04', 'Kepler\'s equation is solved for every eccentricity and time',
   'The eccentric anomaly found for any mean anomaly satisfies Kepler\'s equation to the solver tolerance.',
   'all eccentricities below one and all times', 'one orbit is sampled', ['AMAT/orbiter.py'], [('root finding', 'PropulsiveOrbiter.compute_E')],
   'convergence of Newton\'s method from the chosen start value depends on runtime numbers (it is known to fail for some high eccentricities); '
   'that the equation, start value and solver are the specified ones is P24', ['PropulsiveOrbiter.compute_timed_orbit_trajectory(...)'])
na('N05', 'Published mission results are reproduced',
   'With the published inputs the computed corridors, loads and heating agree with the published values.',
   'all published cases of the documentation', 'the tests cover some cases with per-cent tolerances', [VE, PL],
   [('validation', 'tests/test_craig2005.py, test_girija2020.py, test_werner2019.py; docs')],
   'needs numbers: running the program on the case, or bounding a numerical integration', ['Vehicle.propogateEntry(...)'])
