import sys,ast; sys.path.insert(0,'/tmp')
from em import mcase
M='maneuver.py'
DT=''' v_inf_vec_icrf_kms,'''
PP='''
def __init__(self, arrivalPlanet, v_inf_vec_icrf_kms, rp_probe1, psi_probe1, h_EI_probe1, rp_probe2, psi_probe2, h_EI_probe2, r_dv_rp):
    self.planetObj = Planet(arrivalPlanet)
    self.r_dv_rp = r_dv_rp
    self.r_dv = r_dv_rp*self.planetObj.RP
    targets = {1: (rp_probe1, psi_probe1, h_EI_probe1), 2: (rp_probe2, psi_probe2, h_EI_probe2)}
    for n, (rp, psi, h_EI) in targets.items():
        probe = Approach(arrivalPlanet, v_inf_vec_icrf_kms, rp, psi, is_entrySystem=True, h_EI=h_EI)
        setattr(self, f'probe{n}', probe)
        theta = -np.arccos((probe.h**2/(self.planetObj.GM*self.r_dv) - 1)/probe.e)
        setattr(self, 'theta_star_dv_probe%d' % n, theta)
        setattr(self, 'delta_theta_star_probe%d' % n, abs(theta))
    self.r_vec_dv = self.probe1.pos_vec_bi(self.theta_star_dv_probe1)
    self.r_vec_dv_unit = self.r_vec_dv/LA.norm(self.r_vec_dv)
    for n in (1, 2):
        self._transfer(n)
    self.dv_maneuver_vec = self.v_vec_dv_probe2 - self.v_vec_dv_probe1
    self.dv_maneuver_mag = LA.norm(self.dv_maneuver_vec)
'''
PPX='''
def _transfer(self, n):
    probe = getattr(self, f'probe{n}')
    dth = getattr(self, f'delta_theta_star_probe{n}')
    GM = self.planetObj.GM
    P = probe.a*(1 - probe.e**2)
    f = 1 - probe.rp/P*(1 - np.cos(dth))
    g = self.r_dv*probe.rp/np.sqrt(GM*P)*np.sin(dth)
    H = np.sqrt((probe.e - 1)/(probe.e + 1))*np.tan(dth/2)
    F = 2*np.arctanh(H)
    a, b = np.sqrt(abs(probe.a)**3/GM), abs(probe.e*np.sinh(F) - F)
    values = {f'P_probe{n}': P, f'f_probe{n}': f, f'g_probe{n}': g, f'H{n}': H, f'H_dv_probe{n}': F,
              'T%d' % (2*n - 1): a, 'T%d' % (2*n): b, f'TOF_probe{n}': a*b/86400,
              f'v_vec_dv_probe{n}': (probe.rp_vec_bi - f*self.r_vec_dv)/g}
    for name, value in values.items():
        setattr(self, name, value)
'''
mcase('pp-loop',M,'ProbeProbeDeflection',{'__init__':PP,'+':PPX},['ProbeProbeDef'])
mcase('pp-loop-bad',M,'ProbeProbeDeflection',{'__init__':PP,'+':PPX.replace("np.tan(dth/2)","np.tan(self.delta_theta_star_probe1/2)")},['ProbeProbeDef'],'violation')
mcase('pp-dict-update',M,'ProbeProbeDeflection',{'__init__':PP,'+':PPX.replace("for name, value in values.items():\n        setattr(self, name, value)","vars(self).update(values)")},['ProbeProbeDef'])
# module-level helpers returning namedtuple
pre='''
from collections import namedtuple
Leg = namedtuple('Leg', 'P f g v')
def _leg(GM, r_vec, r, target, P, dth):
    f = 1 - (target.rp/P)*(1 - np.cos(dth))
    g = (r*target.rp)/np.sqrt(GM*P)*np.sin(dth)
    return Leg(P, f, g, (target.rp_vec_bi - f*r_vec)/g)
def _kepler_time(obj, GM, dth):
    H = np.sqrt((obj.e - 1)/(obj.e + 1))*np.tan(0.5*dth)
    F = 2*np.arctanh(H)
    return H, F, np.sqrt(abs(obj.a)**3/GM), abs(obj.e*np.sinh(F) - F)
'''
PO='''
def __init__(self, arrivalPlanet, v_inf_vec_icrf_kms, rp_probe, psi_probe, h_EI_probe, rp_space, psi_space, r_dv_rp):
    self.planetObj = planet = Planet(arrivalPlanet)
    GM = planet.GM
    self.probe = probe = Approach(arrivalPlanet, v_inf_vec_icrf_kms, rp_probe, psi_probe, is_entrySystem=True, h_EI=h_EI_probe)
    self.space = space = Approach(arrivalPlanet, v_inf_vec_icrf_kms, rp_space, psi_space)
    self.r_dv_rp = r_dv_rp
    self.r_dv = r = r_dv_rp*planet.RP
    cos_theta = (probe.h**2/(GM*r) - 1)/probe.e
    self.delta_theta_star_probe = np.arccos(cos_theta)
    self.theta_star_dv_probe = -self.delta_theta_star_probe
    self.r_vec_dv = probe.pos_vec_bi(self.theta_star_dv_probe)
    self.r_vec_dv_unit = self.r_vec_dv/LA.norm(self.r_vec_dv)
    self.delta_theta_star_space = np.arccos(np.dot(space.rp_vec_bi_unit, self.r_vec_dv_unit))
    self.P_probe, self.f_probe, self.g_probe, self.v_vec_dv_probe = _leg(GM, self.r_vec_dv, r, probe, probe.a*(1 - probe.e**2), self.delta_theta_star_probe)
    c2 = space.rp**2 + r**2 - 2*space.rp*r*np.cos(self.delta_theta_star_space)
    self.C = np.sqrt(c2)
    self.S = (space.rp + r + self.C)/2
    twice_a = 2*abs(space.a)
    self.alpha_prime, self.beta_prime = [2*np.arcsinh(np.sqrt(s/twice_a)) for s in (self.S, self.S - self.C)]
    self.P1 = 2*twice_a*(self.S - space.rp)*(self.S - r)/c2
    self.P2 = np.sinh((self.alpha_prime + self.beta_prime)/2)
    leg = _leg(GM, self.r_vec_dv, r, space, self.P1*self.P2**2, self.delta_theta_star_space)
    self.P_space = leg.P
    self.f_space = leg.f
    self.g_space = leg.g
    self.v_vec_dv_space = leg.v
    self.dv_maneuver_vec = leg.v - self.v_vec_dv_probe
    self.dv_maneuver_mag = LA.norm(self.dv_maneuver_vec)
    self.H1, self.H_dv_probe, self.T1, self.T2 = _kepler_time(probe, GM, self.delta_theta_star_probe)
    self.TOF_probe = self.T1*self.T2/86400
    self.U1 = np.sqrt(abs(space.a)**3/GM)
    self.U2 = np.sinh(self.alpha_prime) - self.alpha_prime - np.sinh(self.beta_prime) + self.beta_prime
    self.TOF_space = self.U1*self.U2/86400
'''
mcase('po-named',M,'ProbeOrbiterDeflection',{'__init__':PO},['ProbeOrbiterDef'],pre=pre)
mcase('po-named-bad',M,'ProbeOrbiterDeflection',{'__init__':PO.replace("- 2*space.rp*r","- 2*probe.rp*r")},['ProbeOrbiterDef'],'violation',pre=pre)
pre2=pre.replace("from collections import namedtuple\nLeg = namedtuple('Leg', 'P f g v')","from dataclasses import dataclass\n@dataclass\nclass Leg:\n    P: float\n    f: float\n    g: float\n    v: object\n").replace('    ','\t')
mcase('po-dc',M,'ProbeOrbiterDeflection',{'__init__':PO.replace("self.P_probe, self.f_probe, self.g_probe, self.v_vec_dv_probe = _leg(","first = _leg(").replace("    c2 = ","    self.P_probe, self.f_probe = first.P, first.f\n    self.g_probe, self.v_vec_dv_probe = first.g, first.v\n    c2 = ")},['ProbeOrbiterDef'],pre=pre2)
T='telecom.py'
L='''
def __init__(self, freq, Pt, Ts, range_km, L_other_dB, rate_kbps, Eb_N0_req, Dt=None, eta_t=None, Gt_dBi=None,
             Dr=None, eta_r=None, Gr_dBi=None, Lt_dB=1.0, L_sc_dB=0.2, La_dB=0.35, L_DSN_dB=1.0):
    self.freq = freq*1E9
    self.wavelength = 3E8/self.freq
    self.Pt, self.Ts, self.R, self.range = Pt, Ts, rate_kbps*1000, range_km*1000
    self.Ka = 1.38E-23
    for name, value in [('Pt_dB', Pt), ('Ts_dBK', Ts), ('Ka_dB', self.Ka), ('R_dBHz', self.R)]:
        setattr(self, name, self.compute_dB(value))
    self.Lt_dB = Lt_dB; self.L_sc_dB = L_sc_dB
    self._antenna('t', Dt, eta_t, Gt_dBi)
    self._antenna('r', Dr, eta_r, Gr_dBi)
    self.Ls_dB = self.compute_free_space_loss_dB(self.range, self.wavelength)
    self.La_dB, self.L_other_dB, self.L_DSN_dB = La_dB, L_other_dB, L_DSN_dB
    self.EB_N0_req = Eb_N0_req
    gains = (self.Pt_dB, self.Gt_dBi, self.Gr_dBi)
    losses = (self.Lt_dB, self.L_sc_dB, self.Ts_dBK, self.Ls_dB, self.La_dB, self.L_other_dB, self.L_DSN_dB, self.R_dBHz, self.Ka_dB)
    self.EB_N0 = sum(gains) - sum(losses)
    self.EB_N0_margin = self.EB_N0 - Eb_N0_req
'''
LX='''
def _antenna(self, side, D, eta, gain_dBi):
    if D and eta:
        gain = self.compute_antenna_gain(eta, D, self.wavelength)
        fields = {'D': D, 'A': np.pi*D**2/4, 'eta_': eta, 'G': gain}
        gain_dBi = self.compute_dB(gain)
    elif gain_dBi is not None:
        fields = {'D': None, 'A': None, 'eta_': None}
    else:
        return
    for name, value in fields.items():
        setattr(self, name + side, value)
    setattr(self, f'G{side}_dBi', gain_dBi)
'''
mcase('link',T,'Link',{'__init__':L,'+':LX},['telecom:Link'])
mcase('link-bad',T,'Link',{'__init__':L,'+':LX.replace("if D and eta:","if D is not None and eta:")},['telecom:Link'],'violation')
mcase('link-cumsum',T,'Link',{'compute_data_volume':'''
def compute_data_volume(self, visibility, schedule):
    self.visibility, self.schedule = visibility, schedule
    self.t_array = visibility.t_array
    rate = np.where(np.logical_and(visibility.visible_array, schedule.transmit_array), self.R, 0.0)
    self.data_volume_array = cumulative_trapezoid(rate, self.t_array, initial=0)
'''},['compute_data_volume'])
mcase('link-cumsum2',T,'Link',{'compute_data_volume':'''
def compute_data_volume(self, visibility, schedule):
    self.visibility, self.schedule = visibility, schedule
    self.t_array = t = visibility.t_array
    rate = self.R*(visibility.visible_array*schedule.transmit_array)
    steps = 0.5*(rate[1:] + rate[:-1])*np.diff(t)
    self.data_volume_array = np.concatenate(([0], np.cumsum(steps)))
'''},['compute_data_volume'])
mcase('print-join',T,'Link',{'print_link_budget':None} if 0 else {'compute_dB':'''
def compute_dB(self, X):
    ans = np.log10(X)
    ans *= 10.0
    return ans
'''},['telecom:Link'])
mcase('print-log',T,'Link',{'compute_dB':'''
def compute_dB(self, X):
    return 10*np.log(X)/np.log(10)
'''},['telecom:Link'])
mcase('fsl',T,'Link',{'compute_free_space_loss_dB':'''
def compute_free_space_loss_dB(self, range, wavelength):
    return self.compute_dB((4*np.pi*range/wavelength)**2)
'''},['telecom:Link'])
mcase('fsl2',T,'Link',{'compute_free_space_loss_dB':'''
def compute_free_space_loss_dB(self, range, wavelength):
    return 20*(np.log10(4*np.pi) + np.log10(range) - np.log10(wavelength))
'''},['telecom:Link'])
LA_='launcher.py'
mcase('la-unpack',LA_,'Launcher',{'__init__':'''
def __init__(self, launcherID, datafile, kind='linear'):
    self.ID = launcherID
    self.XY = np.loadtxt(datafile, delimiter=',')
    C3, mass = self.XY.T[:2]
    options = dict(kind=kind, fill_value=0, bounds_error=False)
    self.f = interp1d(C3, mass, **options)
'''},['launcher'])
mcase('la-unpack2',LA_,'Launcher',{'__init__':'''
def __init__(self, launcherID, datafile, kind='linear'):
    self.ID = launcherID
    table = np.genfromtxt(datafile, delimiter=',')
    self.XY = table
    self.f = interp1d(x=table[:, 0], y=table[:, 1], kind=kind, bounds_error=False, fill_value=(0, 0))
''','launchMass':'''
def launchMass(self, C3):
    return self.f(C3)
'''},['launcher'])
