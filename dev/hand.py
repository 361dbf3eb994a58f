"""hand-written refactorings; each must stay ok"""
import sys; sys.path.insert(0,'/tmp')
from var import variant
import ast
src=open('/repo/AMAT/planet.py').read()
t=ast.parse(src)
cls=[c for c in t.body if isinstance(c,ast.ClassDef)][0]
init=[m for m in cls.body if getattr(m,'name','')=='__init__'][0]
# table driven constructor
tab={}
node=[s for s in init.body if isinstance(s,ast.If)][0]
rest=[s for s in init.body if s is not node and not (isinstance(s,ast.Expr))]
while True:
    key=node.test.comparators[0].value
    tab[key]=[(a.targets[0].attr,ast.unparse(a.value)) for a in node.body if isinstance(a,ast.Assign)]
    if len(node.orelse)==1 and isinstance(node.orelse[0],ast.If): node=node.orelse[0]
    else: break
els=node.orelse
def table(): return '{'+', '.join("'%s': {%s}"%(k,', '.join("'%s': %s"%x for x in v)) for k,v in tab.items())+'}'
body='''
def __init__(self, planetID):
    TAB = %s
    if planetID in TAB:
        for k, v in TAB[planetID].items():
            setattr(self, k, v)
    else:
        %s
%s
'''%(table(),'\n        '.join(ast.unparse(s) for s in els), '\n'.join('    '+l for s in rest for l in ast.unparse(s).split('\n')))
CASES={}
def case(f):
    CASES[f.__name__]=f
@case
def table_ctor(): variant('planet.py','Planet','__init__',body,['planet:Planet.__init__'])
@case
def table_get():
    b=body.replace("if planetID in TAB:\n        for k, v in TAB[planetID].items():\n            setattr(self, k, v)","row = TAB.get(planetID)\n    if row is not None:\n        self.__dict__.update(row)")
    assert b!=body
    variant('planet.py','Planet','__init__',b,['planet:Planet.__init__'])
@case
def table_try():
    b='''
def __init__(self, planetID):
    TAB = %s
    try:
        row = TAB[planetID]
    except KeyError:
        row = None
    if row is None:
        %s
    else:
        for k in row:
            setattr(self, k, row[k])
%s
'''%(table(),'\n        '.join(ast.unparse(s) for s in els), '\n'.join('    '+l for s in rest for l in ast.unparse(s).split('\n')))
    variant('planet.py','Planet','__init__',b,['planet:Planet.__init__'])
@case
def density_clip():
    variant('planet.py','Planet','density','''
def density(self, h):
    if h < 0:
        return self.rho0
    return float(self.density_int(h)) if h <= self.h_thres else 0
''',['Planet.density'])
@case
def setinit():
    variant('vehicle.py','Vehicle','setInitialState','''
def setInitialState(self, h0_km, theta0_deg, phi0_deg, v0_kms, psi0_deg, gamma0_deg, drange0_km, heatLoad0):
    names = ('h0_km', 'theta0_deg', 'phi0_deg', 'v0_kms', 'psi0_deg', 'gamma0_deg', 'drange0_km', 'heatLoad0')
    values = (h0_km, theta0_deg, phi0_deg, v0_kms, psi0_deg, gamma0_deg, drange0_km, heatLoad0)
    for name, value in zip(names, values):
        setattr(self, name, value)
        setattr(self, name + '_ref', copy.deepcopy(value))
''',['Vehicle.setInitialState'])
@case
def setinit2():
    variant('vehicle.py','Vehicle','setInitialState','''
def setInitialState(self, h0_km, theta0_deg, phi0_deg, v0_kms, psi0_deg, gamma0_deg, drange0_km, heatLoad0):
    state = dict(h0_km=h0_km, theta0_deg=theta0_deg, phi0_deg=phi0_deg, v0_kms=v0_kms, psi0_deg=psi0_deg,
        gamma0_deg=gamma0_deg, drange0_km=drange0_km, heatLoad0=heatLoad0)
    for name in state:
        self.__dict__[name] = state[name]
        self.__dict__[f'{name}_ref'] = state[name]
''',['Vehicle.setInitialState'])
@case
def qconv_table():
    variant('vehicle.py','Vehicle','qStagConvective','''
def qStagConvective(self, r, v):
    coeff = {'VENUS': 1.8960E-8, 'EARTH': 1.7623E-8, 'MARS': 1.8980E-8, 'JUPITER': 0.6556E-8, 'SATURN': 0.6356E-8, 'TITAN': 1.7407E-8}
    ID = self.planetObj.ID
    if ID in coeff:
        rho_vec = self.planetObj.rhovectorized(r)
        return coeff[ID]*np.sqrt(rho_vec/self.RN)*v**3
    if ID in ('URANUS', 'NEPTUNE'):
        rho_vec = self.planetObj.rhovectorized(r)
        return 2.24008E-7 * rho_vec**0.452130 * v**2.691800 * np.sqrt(0.291/self.RN)
    print(" >>> ERR : Invalid planet identifier provided.")
''',['qStag'])
@case
def qrad_where():
    variant('vehicle.py','Vehicle','qStagRadiative','''
def qStagRadiative(self, r, v):
    ID = self.planetObj.ID
    if ID not in ('VENUS', 'EARTH', 'MARS', 'JUPITER', 'SATURN', 'TITAN', 'URANUS', 'NEPTUNE'):
        print(" >>> ERR : Invalid planet identifier provided.")
        return None
    rho_vec = self.planetObj.rhovectorized(r)
    if ID == 'VENUS':
        return np.where(v < 8000.0, 3.33E-34*v**10.0, np.where(v < 10000.0, 1.22E-16*v**5.5, 3.07E-48*v**13.4))*rho_vec**1.2*self.RN**0.49
    if ID == 'EARTH':
        xx = np.array([9000.0, 10000.0, 11000.0, 12000.0, 13000.0, 14000.0, 15000.0, 16000.0])
        yy = np.array([1.5, 35, 151, 359, 660, 1065, 1550, 2040])
        fV = interp1d(xx, yy, kind='linear', fill_value=(0.0, 2040), bounds_error=False)
        return 4.736E4*self.RN**0.6*rho_vec**1.22*fV(v)
    if ID in ('JUPITER', 'SATURN'):
        return (9.7632379E-40*(2*self.RN)**(-0.17905)*rho_vec**1.763827469*v**10.993852)*1E3/1E4
    if ID in ('URANUS', 'NEPTUNE'):
        return 8.125812E-3*rho_vec**0.498140*(v/10000)**15.113*(self.RN/0.291)
    return np.zeros(len(r))
''',['qStag'])
@case
def qrad_select():
    variant('vehicle.py','Vehicle','qStagRadiative','''
def qStagRadiative(self, r, v):
    ID = self.planetObj.ID
    if ID not in ('VENUS', 'EARTH', 'MARS', 'JUPITER', 'SATURN', 'TITAN', 'URANUS', 'NEPTUNE'):
        print(" >>> ERR : Invalid planet identifier provided.")
        return None
    rho_vec = self.planetObj.rhovectorized(r)
    ans = np.zeros_like(r)
    if ID == 'VENUS':
        slow = v < 8000.0
        mid = (v >= 8000.0) & (v < 10000.0)
        fast = v >= 10000.0
        k = rho_vec**1.2*self.RN**0.49
        ans[slow] = (3.33E-34*v**10.0*k)[slow]
        ans[mid] = (1.22E-16*v**5.5*k)[mid]
        ans[fast] = (3.07E-48*v**13.4*k)[fast]
    elif ID == 'EARTH':
        xx = np.array([9000.0, 10000.0, 11000.0, 12000.0, 13000.0, 14000.0, 15000.0, 16000.0])
        yy = np.array([1.5, 35, 151, 359, 660, 1065, 1550, 2040])
        fV = interp1d(xx, yy, kind='linear', fill_value=(0.0, 2040), bounds_error=False)
        ans = np.array([4.736E4*self.RN**0.6*rho**1.22*float(fV(s)) for rho, s in zip(rho_vec, v)])
    elif ID in ('JUPITER', 'SATURN'):
        ans = (9.7632379E-40*(2*self.RN)**(-0.17905)*rho_vec**1.763827469*v**10.993852)*1E3/1E4
    elif ID in ('URANUS', 'NEPTUNE'):
        ans = 8.125812E-3*rho_vec**0.498140*(v/10000)**15.113*(self.RN/0.291)
    return ans
''',['qStag'])
@case
def multiRN():
    variant('vehicle.py','Vehicle','computeHeatingForMultipleRN','''
def computeHeatingForMultipleRN(self, tc, rc, vc, rn_array):
    original = self.RN
    peaks, loads = [], []
    for self.RN in rn_array:
        q = self.qStagTotal(rc, vc)
        peaks.append(np.max(q))
        loads.append(cumulative_trapezoid(q, tc, initial=0)[-1])
    self.RN = original
    return np.array(peaks), np.array(loads)
''',['computeHeatingForMultipleRN'])
@case
def multiRN2():
    variant('vehicle.py','Vehicle','computeHeatingForMultipleRN','''
def computeHeatingForMultipleRN(self, tc, rc, vc, rn_array):
    n = len(rn_array)
    q_stag_max, heatload = np.zeros(n), np.zeros(n)
    saved = self.RN
    try:
        for i, RN in enumerate(rn_array):
            self.RN = RN
            q = self.qStagTotal(rc, vc)
            q_stag_max[i] = q.max()
            heatload[i] = cumulative_trapezoid(q, tc, initial=0)[-1]
    finally:
        self.RN = saved
    return q_stag_max, heatload
''',['computeHeatingForMultipleRN'])
@case
def schedule():
    variant('telecom.py','Schedule','__init__','''
def __init__(self, t_seconds, num_points, t_transmit_times_list):
    self.t_array = np.linspace(0, t_seconds, num_points)
    self.transmit_array = np.array([any(w[0] <= t <= w[1] for w in t_transmit_times_list) for t in self.t_array], dtype=bool)
''',['Schedule'])
@case
def schedule2():
    variant('telecom.py','Schedule','__init__','''
def __init__(self, t_seconds, num_points, t_transmit_times_list):
    self.t_array = np.linspace(0, t_seconds, num_points)
    self.transmit_array = np.zeros(num_points, dtype=bool)
    for start, end in t_transmit_times_list:
        self.transmit_array |= (self.t_array >= start) & (self.t_array <= end)
''',['Schedule'])
@case
def scaleH():
    variant('planet.py','Planet','scaleHeight','''
def scaleHeight(self, h, density_int):
    i = int(h/1000.0)
    h_array = np.linspace(0, self.h_skip, int(self.h_skip/1000.0))[i:]
    integ = cumulative_trapezoid(self.densityvectorized(h_array), h_array, initial=0)[-1]
    return integ / (self.density(h) - self.density(self.h_skip))
''',['scaleHeight'])
@case
def mc5():
    variant('planet.py','Planet','loadAtmosphereModel5','''
def loadAtmosphereModel5(self, ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, ATM_density_pert, sigmaValue, NPOS, i):
    sl = slice(int((i-1)*NPOS), int(i*NPOS))
    avg = ATM_density_avg[sl]
    spread = ATM_density_high[sl] - avg if sigmaValue >= 0 else avg - ATM_density_low[sl]
    d_array = avg + spread*sigmaValue + ATM_density_pert[sl]
    return interp1d(ATM_height[sl], d_array, kind='linear', fill_value=0.0, bounds_error=False)
''',['loadAtmosphereModel5'])
if __name__=='__main__':
    for n,f in CASES.items():
        if len(sys.argv)<2 or n in sys.argv[1:]:
            print('##',n); f()
