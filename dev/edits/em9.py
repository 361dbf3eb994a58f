import sys; sys.path.insert(0,'/tmp')
from em import mcase
M='maneuver.py'
OO='''
def __init__(self, arrivalPlanet, v_inf_vec_icrf_kms,
        rp_space1, psi_space1, rp_space2, psi_space2, r_dv_rp):
    self.planetObj = Planet(arrivalPlanet)
    mu = self.planetObj.GM
    targets = ((rp_space1, psi_space1), (rp_space2, psi_space2))
    for k, (rp, psi) in enumerate(targets, start=1):
        setattr(self, 'space%d' % k, Approach(arrivalPlanet, v_inf_vec_icrf_kms, rp, psi))
    self.r_dv_rp = r_dv_rp
    self.r_dv = r_dv_rp*self.planetObj.RP
    first = self.space1
    self.theta_star_dv_space1 = -np.arccos((first.h**2/(mu*self.r_dv) - 1)/first.e)
    self.r_vec_dv = first.pos_vec_bi(self.theta_star_dv_space1)
    self.r_vec_dv_unit = self.r_vec_dv/LA.norm(self.r_vec_dv)
    for k in (1, 2):
        self._lambert(k)
    self.dv_maneuver_vec = self.v_vec_dv_space2 - self.v_vec_dv_space1
    self.dv_maneuver_mag = np.sqrt(np.dot(self.dv_maneuver_vec, self.dv_maneuver_vec))
'''
OX='''
def _lambert(self, k):
    mu, r = self.planetObj.GM, self.r_dv
    space = getattr(self, f'space{k}')
    rp, a = space.rp, abs(space.a)
    sweep = np.arccos(space.rp_vec_bi_unit @ self.r_vec_dv_unit)
    C = np.sqrt(rp**2 + r**2 - 2*rp*r*np.cos(sweep))
    S = (rp + r + C)/2
    alpha = 2*np.arcsinh(np.sqrt(S/(2*a)))
    beta = 2*np.arcsinh(np.sqrt((S - C)/(2*a)))
    front = 4*a*(S - rp)*(S - r)/C**2
    back = np.sinh((alpha + beta)/2)
    P = front*back**2
    f = 1 - rp/P*(1 - np.cos(sweep))
    g = r*rp/np.sqrt(mu*P)*np.sin(sweep)
    rate = np.sqrt(a**3/mu)
    swept = np.sinh(alpha) - alpha - (np.sinh(beta) - beta)
    out = {'delta_theta_star_space': sweep, 'C': C, 'S': S, 'alpha_prime': alpha, 'beta_prime': beta, 'P_space': P,
           'f_space': f, 'g_space': g, 'v_vec_dv_space': (space.rp_vec_bi - f*self.r_vec_dv)/g, 'TOF_space': rate*swept/86400}
    for name, value in out.items():
        setattr(self, f'{name}{k}', value)
    first = 2*k - 1
    for name, pair in (('P', (front, back)), ('U', (rate, swept))):
        for j, value in enumerate(pair):
            setattr(self, name + str(first + j), value)
'''
mcase('oo',M,'OrbiterOrbiterDeflection',{'__init__':OO,'+':OX},['OrbiterOrbiterDeflection'])
mcase('oo-bad',M,'OrbiterOrbiterDeflection',{'__init__':OO,'+':OX.replace('(S - rp)*(S - r)','(S - rp)*(S - C)')},['OrbiterOrbiterDeflection'],'violation')
mcase('oo-bad2',M,'OrbiterOrbiterDeflection',{'__init__':OO.replace('self.v_vec_dv_space2 - self.v_vec_dv_space1','self.v_vec_dv_space1 - self.v_vec_dv_space2'),'+':OX},['OrbiterOrbiterDeflection'],'violation')
mcase('oo-vars',M,'OrbiterOrbiterDeflection',{'__init__':OO,'+':OX.replace("""    for name, value in out.items():
        setattr(self, f'{name}{k}', value)
""","""    self.__dict__.update({f'{name}{k}': value for name, value in out.items()})
""")},['OrbiterOrbiterDeflection'])
mcase('oo-vars2',M,'OrbiterOrbiterDeflection',{'__init__':OO,'+':OX.replace("""    for name, value in out.items():
        setattr(self, f'{name}{k}', value)
""","""    vars(self).update((name + str(k), value) for name, value in out.items())
""")},['OrbiterOrbiterDeflection'])
A='approach.py'
R2='''
def R2(self, theta):
    rot = np.eye(3)
    rot[0, 0] = rot[2, 2] = np.cos(theta)
    rot[2, 0] = np.sin(theta)
    rot[0, 2] = -rot[2, 0]
    return rot
'''
mcase('r2-eye',A,'Approach',{'R2':R2},['Approach'])
mcase('r2-bad',A,'Approach',{'R2':R2.replace('rot[0, 2] = -rot[2, 0]','rot[0, 2] = rot[2, 0]')},['Approach'],'violation')
mcase('r-gen',A,'Approach',{'R1':"def R1(self, theta):\n    return _rotation(0, theta)",'R2':"def R2(self, theta):\n    return _rotation(1, theta)",'R3':"def R3(self, theta):\n    return _rotation(2, theta)"},['Approach'],pre='''
def _rotation(axis, theta):
    i, j = (axis + 1) % 3, (axis + 2) % 3
    c, s = np.cos(theta), np.sin(theta)
    m = np.zeros((3, 3))
    m[axis, axis] = 1
    m[i, i] = m[j, j] = c
    m[i, j] = s
    m[j, i] = -s
    return m
''')
mcase('icrf',A,'Approach',{'ICRF_to_BI':"def ICRF_to_BI(self, X_ICRF):\n    Q = np.linalg.multi_dot([self.R1(np.pi/2 - self.d0), self.R3(self.a0 + np.pi/2)])\n    return Q.dot(X_ICRF)"},['Approach','LanderToPlanet','OrbiterToPlanet'])
mcase('icrf2',A,'Approach',{'ICRF_to_BI':"def ICRF_to_BI(self, X_ICRF):\n    return np.einsum('ij,jk,k->i', self.R1(np.pi/2 - self.d0), self.R3(np.pi/2 + self.a0), X_ICRF)"},['Approach'])
mcase('icrf3',A,'Approach',{'ICRF_to_BI':"def ICRF_to_BI(self, X_ICRF):\n    return functools.reduce(lambda v, m: m @ v, (self.R3(np.pi/2 + self.a0), self.R1(np.pi/2 - self.d0)), X_ICRF)"},['Approach'],pre='import functools')
mcase('icrf-bad',A,'Approach',{'ICRF_to_BI':"def ICRF_to_BI(self, X_ICRF):\n    return X_ICRF @ (self.R1(np.pi/2 - self.d0) @ self.R3(np.pi/2 + self.a0))"},['Approach'],'violation')
PV='''
def pos_vec_bi(self, theta_star):
    r = (self.h**2/self.planetObj.GM)/(1 + self.e*np.cos(theta_star))
    node = np.array([np.cos(self.OMEGA), np.sin(self.OMEGA), 0.0])
    up = np.array([-np.sin(self.OMEGA)*np.cos(self.i), np.cos(self.OMEGA)*np.cos(self.i), np.sin(self.i)])
    u = theta_star + self.omega
    return r*(np.cos(u)*node + np.sin(u)*up)
'''
mcase('pv',A,'Approach',{'pos_vec_bi':PV},['Approach'])
mcase('pv-bad',A,'Approach',{'pos_vec_bi':PV.replace('-np.sin(self.OMEGA)*np.cos(self.i)','-np.sin(self.OMEGA)*np.sin(self.i)')},['Approach'],'violation')
VV='''
def vel_vec_bi(self, theta_star):
    r = self.r_mag_bi(theta_star)
    speed = np.sqrt(self.v_inf_mag**2 + 2*self.planetObj.GM/r)
    gamma = np.arctan2(self.e*np.sin(theta_star), 1 + self.e*np.cos(theta_star))
    c, s = np.cos(theta_star + self.omega), np.sin(theta_star + self.omega)
    cO, sO, ci, si = np.cos(self.OMEGA), np.sin(self.OMEGA), np.cos(self.i), np.sin(self.i)
    radial = np.array([c*cO - s*ci*sO, c*sO + s*ci*cO, s*si])
    transverse = np.array([-s*cO - c*ci*sO, c*ci*cO - s*sO, c*si])
    return speed*np.sin(gamma)*radial + speed*np.cos(gamma)*transverse
'''
mcase('vv',A,'Approach',{'vel_vec_bi':VV},['Approach'])
VV2='''
def vel_vec_bi(self, theta_star):
    speed = np.sqrt(self.v_inf_mag**2 + 2*self.planetObj.GM/self.r_mag_bi(theta_star))
    gamma = np.arctan2(self.e*np.sin(theta_star), 1 + self.e*np.cos(theta_star))
    local = np.array([speed*np.sin(gamma), speed*np.cos(gamma), 0])
    Q = self.R3(theta_star + self.omega) @ self.R1(self.i) @ self.R3(self.OMEGA)
    return Q.T @ local
'''
mcase('vv2',A,'Approach',{'vel_vec_bi':VV2},['Approach'])
mcase('vv-bad',A,'Approach',{'vel_vec_bi':VV2.replace('Q.T @ local','Q @ local')},['Approach'],'violation')
VA='''
def vel_vec_entry_atm(self):
    lat, lon = self.latitude_entry_bi, self.longitude_entry_bi
    wind = self.r_vec_entry_bi_mag*self.planetObj.OMEGA*np.cos(lat)*np.array([-np.sin(lon), np.cos(lon), 0.0])
    return self.v_vec_entry_bi - wind
'''
mcase('va',A,'Approach',{'vel_vec_entry_atm':VA},['Approach'])
mcase('va-omega',A,'Approach',{'vel_vec_entry_atm':VA.replace("    return self.v_vec_entry_bi - wind","    vx, vy, vz = self.v_vec_entry_bi\n    return np.array([vx - wind[0], vy - wind[1], vz])")},['Approach'])
mcase('va-inplace',A,'Approach',{'vel_vec_entry_atm':VA.replace("    return self.v_vec_entry_bi - wind","    v = self.v_vec_entry_bi.copy()\n    v -= wind\n    return v")},['Approach'])
mcase('va-alias',A,'Approach',{'vel_vec_entry_atm':VA.replace("    return self.v_vec_entry_bi - wind","    v = self.v_vec_entry_bi\n    v -= wind\n    return v")},['Approach'],'violation')
BD='''
def BI_to_BI_dprime(self, X_ICRF):
    return self.R2(self.phi_2).dot(self.R3(self.phi_1).dot(X_ICRF))
'''
PD='''
def pos_vec_bi_dprime(self, theta_star):
    return self.BI_to_BI_dprime(self.pos_vec_bi(theta_star))
'''
mcase('bd',A,'Approach',{'BI_to_BI_dprime':BD,'pos_vec_bi_dprime':PD},['Approach'])
