import sys; sys.path.insert(0,'/tmp')
from em import mcase
O='orbiter.py'
pre='''
def _unit(v):
    return v/np.linalg.norm(v)

def _sph_basis(lon, lat):
    cl, sl, cp, sp = np.cos(lon), np.sin(lon), np.cos(lat), np.sin(lat)
    rhat = np.array([cp*cl, cp*sl, sp])
    east = np.array([-sl, cl, 0.0])
    north = np.array([-sp*cl, -sp*sl, cp])
    return rhat, east, north

def _quadrant(cosine, upper):
    angle = np.arccos(cosine)
    return angle if upper else 2*np.pi - angle

def _orbit_from_state(vehicle, r_vec, v_vec, r, v, fpa):
    GM = vehicle.planetObj.GM
    out = {}
    out['E'] = vehicle.computeEnergyScalar(r, v)
    out['h0'] = vehicle.computeAngMomScalar(r, v, fpa)
    out['a'] = vehicle.computeSemiMajorAxisScalar(out['E'])
    out['e'] = vehicle.computeEccScalar(out['h0'], out['E'])
    out['h'] = np.sqrt(out['a']*GM*(1 - out['e']**2))
    out['h_vec'] = np.cross(r_vec, v_vec)
    out['h_unit'] = _unit(out['h_vec'])
    out['i'] = np.arccos(out['h_unit'][2])
    out['N_vec'] = np.cross(np.array([0, 0, 1]), out['h_vec'])
    out['N_unit'] = _unit(out['N_vec'])
    out['OMEGA'] = _quadrant(out['N_unit'][0], out['N_unit'][1] >= 0)
    out['e_vec'] = ((v**2 - GM/r)*r_vec - np.dot(r_vec, v_vec)*v_vec)/GM
    out['e_unit'] = _unit(out['e_vec'])
    out['omega'] = _quadrant(np.dot(out['N_unit'], out['e_unit']), out['e_unit'][2] >= 0)
    return out
'''
EXIT='''
def compute_exit_state_inertial(self):
    r, v, g, psi = self.terminal_r, self.terminal_v, self.terminal_g, self.terminal_psi
    rhat, east, north = _sph_basis(self.terminal_theta, self.terminal_phi)
    self.terminal_r_vec = r*rhat
    self.terminal_r_hat_vec = _unit(self.terminal_r_vec)
    v_vec = v*(np.sin(g)*rhat + np.cos(g)*(np.cos(psi)*east + np.sin(psi)*north))
    self.v_pr_x, self.v_pr_y, self.v_pr_z = v_vec
    self.terminal_v_vec = v_vec
    self.terminal_v_hat_vec = _unit(v_vec)
    spin = r*self.vehicle.planetObj.OMEGA*np.cos(self.terminal_phi)
    v_ie = v_vec + spin*east
    self.v_ie_x, self.v_ie_y, self.v_ie_z = v_ie
    self.v_ie_mag = np.linalg.norm(v_ie)
    self.terminal_v_ie_vec = v_ie
    self.terminal_v_ie_hat_vec = v_ie/self.v_ie_mag
    self.terminal_fpa_ie_deg = 90.0 - np.degrees(np.arccos(np.dot(self.terminal_r_hat_vec, self.terminal_v_ie_hat_vec)))
    self.terminal_fpa_ie_rad = np.radians(self.terminal_fpa_ie_deg)
    for new, old in (('r', 'r'), ('theta', 'theta'), ('phi', 'phi'), ('psi', 'psi')):
        setattr(self, f'terminal_{new}_bi', getattr(self, f'terminal_{old}'))
    self.terminal_v_bi = self.v_ie_mag
    self.terminal_g_bi = self.terminal_fpa_ie_rad
'''
mcase('exit-basis',O,'Orbiter',{'compute_exit_state_inertial':EXIT},['orbiter:Orbiter'],pre=pre)
mcase('exit-basis-bad',O,'Orbiter',{'compute_exit_state_inertial':EXIT.replace('np.cos(psi)*east + np.sin(psi)*north','np.sin(psi)*east + np.cos(psi)*north')},['orbiter:Orbiter'],'violation',pre=pre)
COAST='''
def compute_coast_orbital_elements(self):
    o = _orbit_from_state(self.vehicle, self.terminal_r_vec, self.terminal_v_ie_vec, self.terminal_r, self.v_ie_mag, self.terminal_fpa_ie_rad)
    self.terminal_E, self.terminal_h = o['E'], o['h0']
    self.a, self.e, self.h, self.i = (o[k] for k in ('a', 'e', 'h', 'i'))
    self.OMEGA = o['OMEGA']
    self.omega = o['omega']
    names = {'h_vec_bi': 'h_vec', 'h_vec_bi_unit': 'h_unit', 'N_vec_bi': 'N_vec', 'N_vec_bi_unit': 'N_unit', 'e_vec_bi': 'e_vec', 'e_vec_bi_unit': 'e_unit'}
    for attr, key in names.items():
        setattr(self, attr, o[key])
'''
PT='''
def compute_probe_targeting_trajectory(self, theta_star, dV, num_points=301):
    self.theta_star_probe_targeting, self.dV_mag_probe_targeting = theta_star, dV
    r_vec = self.pos_vec_bi(theta_star)
    v_before = self.vel_vec_bi(theta_star)
    self.dV_vec_probe_targeting = dV*_unit(v_before)
    v_vec = v_before + self.dV_vec_probe_targeting
    r, v = np.linalg.norm(r_vec), np.linalg.norm(v_vec)
    fpa = np.radians(90.0 - np.degrees(np.arccos(np.dot(r_vec, v_vec)/(r*v))))
    o = _orbit_from_state(self.vehicle, r_vec, v_vec, r, v, fpa)
    self.E_post_maneuver = o['E']; self.h_post_maneuver = o['h0']; del o['E'], o['h0']
    rename = {'h_vec': 'h_vec_bi', 'h_unit': 'h_vec_bi_unit', 'N_vec': 'N_vec_bi', 'N_unit': 'N_vec_bi_unit', 'e_vec': 'e_vec_bi', 'e_unit': 'e_vec_bi_unit'}
    for key, value in o.items():
        setattr(self, rename.get(key, key) + '_probe_orbit', value)
    planet = self.vehicle.planetObj
    self.r_periapsis_probe, self.r_apoapsis_probe = [self.a_probe_orbit*(1 + s*self.e_probe_orbit) for s in (-1, 1)]
    self.h_periapsis_probe = self.r_periapsis_probe - planet.RP
    if self.h_periapsis_probe >= planet.h_skip:
        print("Probe orbit periapsis outside atmospheric skip altitude.")
    else:
        self._probe_entry(planet)
    arc = np.linspace(theta_star, self.theta_star_probe_entry, num_points)
    x, y, z = self.pos_vec_bi_probe(arc)/planet.RP
    self.x_probe_orbit_arr, self.y_probe_orbit_arr, self.z_probe_orbit_arr = x, y, z
'''
PTX='''
def _probe_entry(self, planet):
    self.h_EI = planet.h_skip
    self.r_EI = planet.RP + self.h_EI
    ratio = (self.h_probe_orbit**2/(planet.GM*self.r_EI) - 1)/self.e_probe_orbit
    self.theta_star_probe_entry = 2*np.pi - np.arccos(ratio)
    pos = self.pos_vec_bi_probe(self.theta_star_probe_entry)
    vel = self.vel_vec_bi_probe(self.theta_star_probe_entry)
    self.r_vec_bi_probe_entry = pos
    self.r_vec_bi_probe_entry_mag = np.linalg.norm(pos)
    self.r_vec_bi_probe_entry_unit = rhat = pos/self.r_vec_bi_probe_entry_mag
    self.v_bi_vec_probe_entry = vel
    self.v_bi_mag_probe_entry = np.linalg.norm(vel)
    self.v_bi_vec_probe_entry_unit = vel/self.v_bi_mag_probe_entry
    self.gamma_inertial_probe_entry = -np.arccos(self.h_probe_orbit/(self.r_EI*self.v_bi_mag_probe_entry))
    self.latitude_probe_entry_bi = np.arcsin(rhat[2])
    self.longitude_probe_entry_bi = lon = np.arctan2(rhat[1], rhat[0])
    self.v_vec_probe_entry_atm = self.vel_vec_probe_entry_atm()
    self.v_mag_probe_entry_atm = np.linalg.norm(self.v_vec_probe_entry_atm)
    vhat = self.v_vec_probe_entry_atm/self.v_mag_probe_entry_atm
    self.v_vec_probe_entry_atm_unit = vhat
    self.gamma_atm_probe_entry = np.pi/2 - np.arccos(rhat @ self.v_bi_vec_probe_entry_unit)
    self.v_atm_probe_entry_unit_proj = vhat - (vhat @ rhat)*rhat
    _, east, _ = _sph_basis(lon, self.latitude_probe_entry_bi)
    self.atm_probe_entry_local_latitude_parallel_vec_unit = east
    self.heading_atm_probe_entry = np.arccos(self.v_atm_probe_entry_unit_proj @ east)
'''
VV='''
def vel_vec_probe_entry_atm(self):
    _, east, _ = _sph_basis(self.longitude_probe_entry_bi, self.latitude_probe_entry_bi)
    speed = self.r_vec_bi_probe_entry_mag*self.vehicle.planetObj.OMEGA*np.cos(self.latitude_probe_entry_bi)
    return self.v_bi_vec_probe_entry - speed*east
'''
mcase('coast-shared',O,'Orbiter',{'compute_coast_orbital_elements':COAST,'compute_probe_targeting_trajectory':PT,'+':PTX,'vel_vec_probe_entry_atm':VV},['orbiter:'],pre=pre)
mcase('coast-shared-bad',O,'Orbiter',{'compute_coast_orbital_elements':COAST,'compute_probe_targeting_trajectory':PT,'+':PTX,'vel_vec_probe_entry_atm':VV.replace(' - speed*',' + speed*')},['orbiter:'],'violation',pre=pre)
mcase('coast-shared-bad2',O,'Orbiter',{'compute_coast_orbital_elements':COAST,'compute_probe_targeting_trajectory':PT,'+':PTX,'vel_vec_probe_entry_atm':VV},['orbiter:'],'violation',pre=pre.replace("out['e_unit'][2] >= 0","out['e_unit'][2] > 0"))
CT='''
def compute_coast_trajectory(self, num_points=301):
    RP = self.vehicle.planetObj.RP
    theta_star_arr = np.linspace(self.theta_star_exit, np.pi, num_points)
    coast = self.pos_vec_bi(theta_star_arr)/RP
    for axis, values in zip('xyz', coast):
        setattr(self, axis + '_coast_arr', values)
    self.r_apoapsis_vec = coast[:, -1]
    self.r_apoapsis_mag = np.linalg.norm(self.r_apoapsis_vec)*RP
    self.v_apoapsis_vec_coast = self.vel_vec_bi(np.pi)
    self.v_apoapsis_mag_coast = np.sqrt(np.sum(self.v_apoapsis_vec_coast**2))
'''
mcase('coast-zip',O,'Orbiter',{'compute_coast_trajectory':CT},['orbiter:Orbiter'])
mcase('coast-zip-bad',O,'Orbiter',{'compute_coast_trajectory':CT.replace('[:, -1]','[:, 0]')},['orbiter:Orbiter'],'violation')
TM='''
def compute_timed_orbit_trajectory(self, t_seconds, num_points=101):
    self.P = 2*np.pi*np.sqrt(self.a**3/self.approach.planetObj.GM)
    self.t_array = np.linspace(0, t_seconds, num_points)
    self.M_array = 2*np.pi*(self.t_array/self.P)
    E_values, theta_values = [], []
    for M in self.M_array:
        E_values.append(self.compute_E(M))
        theta_values.append(self.compute_theta_star(E_values[-1]))
    self.E_array, self.theta_star_array = np.array(E_values), np.array(theta_values)
    x, y, z = (c/self.approach.planetObj.RP for c in self.pos_vec_bi(self.theta_star_array))
    self.x_timed_orbit_arr, self.y_timed_orbit_arr, self.z_timed_orbit_arr = x, y, z
'''
mcase('timed-list',O,'PropulsiveOrbiter',{'compute_timed_orbit_trajectory':TM},['orbiter:Prop'])
TM2=TM.replace('''    E_values, theta_values = [], []
    for M in self.M_array:
        E_values.append(self.compute_E(M))
        theta_values.append(self.compute_theta_star(E_values[-1]))
    self.E_array, self.theta_star_array = np.array(E_values), np.array(theta_values)
''','''    self.E_array = np.array([self.compute_E(M) for M in self.M_array])
    self.theta_star_array = self.compute_theta_star(self.E_array)
''')
mcase('timed-vec',O,'PropulsiveOrbiter',{'compute_timed_orbit_trajectory':TM2},['orbiter:Prop'])
TM3=TM.replace('''    E_values, theta_values = [], []
    for M in self.M_array:
        E_values.append(self.compute_E(M))
        theta_values.append(self.compute_theta_star(E_values[-1]))
    self.E_array, self.theta_star_array = np.array(E_values), np.array(theta_values)
''','''    self.E_array = np.zeros(num_points)
    self.theta_star_array = np.zeros(num_points)
    for j, M in enumerate(self.M_array):
        self.E_array[j] = self.compute_E(M)
        self.theta_star_array[j] = self.compute_theta_star(self.E_array[j])
''')
mcase('timed-pre',O,'PropulsiveOrbiter',{'compute_timed_orbit_trajectory':TM3},['orbiter:Prop'])
mcase('timed-fprime',O,'PropulsiveOrbiter',{'compute_E':'''
def compute_E(self, M, rtol=1e-6):
    def kepler(E):
        return E - self.e*np.sin(E) - M
    return optimize.newton(kepler, M)
''','compute_theta_star':'''
def compute_theta_star(self, E):
    half = np.arctan(np.sqrt((1 + self.e)/(1 - self.e))*np.tan(0.5*E))
    return half + half
'''},['orbiter:Prop'])
PV='''
def pos_vec_bi(self, theta_star):
    cO, sO = np.cos(self.OMEGA), np.sin(self.OMEGA)
    ci, si = np.cos(self.i), np.sin(self.i)
    u = theta_star + self.omega
    node = np.array([cO, sO, 0.0])
    normal_to_node = np.array([-sO*ci, cO*ci, si])
    r = self.r_mag_bi(theta_star)
    return np.array([r*(n*np.cos(u) + m*np.sin(u)) for n, m in zip(node, normal_to_node)])
'''
mcase('pos-basis',O,'PropulsiveOrbiter',{'pos_vec_bi':PV},['orbiter:Prop'])
mcase('pos-stack',O,'PropulsiveOrbiter',{'pos_vec_bi':PV.replace("return np.array([","return np.stack([").replace("normal_to_node)])","normal_to_node)], axis=0)")},['orbiter:Prop'])
mcase('pos-outer',O,'PropulsiveOrbiter',{'pos_vec_bi':PV.replace("return np.array([r*(n*np.cos(u) + m*np.sin(u)) for n, m in zip(node, normal_to_node)])","return r*(np.multiply.outer(node, np.cos(u)) + np.multiply.outer(normal_to_node, np.sin(u)))")},['orbiter:Prop'])
RM='''
def pos_vec_bi(self, theta_star):
    R3 = lambda a: np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
    R1 = lambda a: np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]])
    u = theta_star + self.omega
    r = self.r_mag_bi(theta_star)
    return R3(self.OMEGA) @ R1(self.i) @ np.array([r*np.cos(u), r*np.sin(u), 0*u])
'''
mcase('pos-rot',O,'PropulsiveOrbiter',{'pos_vec_bi':RM},['orbiter:Prop'])
