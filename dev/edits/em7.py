import sys; sys.path.insert(0,'/tmp')
from em import mcase
V='vehicle.py'
APO='''
def compute_ApoapsisAltitudeKm(self, terminal_r, terminal_v, terminal_g, terminal_theta, terminal_phi, terminal_psi):
    _, v_ie, fpa = self._inertial(terminal_r, terminal_v, terminal_g, terminal_theta, terminal_phi, terminal_psi)
    a, e = self._shape(terminal_r, v_ie, fpa)
    return (a*(1 + e) - self.planetObj.RP)/1E3
'''
PERI=APO.replace('Apoapsis','Periapsis').replace('(1 + e)','(1 - e)')
HITS2='''
def hitsTargetApoapsis2(self, t_sec, dt, delta_deg, targetApopasisAltitude_km):
    self.propogateEntry2(t_sec, dt, delta_deg)
    last = self.index - 1
    state = [getattr(self, n)[last] for n in ('rc', 'vc', 'gammac', 'thetac', 'phic', 'psic')]
    r = state[0]
    _, v_ie, fpa = self._inertial(*state)
    a, e = self._shape(r, v_ie, fpa)
    apoapsis_km = (a*(1.0 + e) - self.planetObj.RP)/1000.0
    if r - self.planetObj.RP < self.planetObj.h_low:
        return 1.0
    return -1.0 if (a < 0 or apoapsis_km >= targetApopasisAltitude_km) else 1.0
'''
X='''
def _inertial(self, r, v, g, theta, phi, psi):
    up = np.array([np.cos(phi)*np.cos(theta), np.cos(phi)*np.sin(theta), np.sin(phi)])
    east = np.array([-np.sin(theta), np.cos(theta), 0])
    north = np.cross(up, east)
    rel = v*np.sin(g)*up + v*np.cos(g)*(np.cos(psi)*east + np.sin(psi)*north)
    vec = rel + np.cross([0, 0, self.planetObj.OMEGA], r*up)
    speed = np.linalg.norm(vec)
    fpa = np.pi/2 - np.arccos(np.dot(up, vec)/speed)
    return vec, speed, fpa

def _shape(self, r, v, fpa):
    E = self.computeEnergyScalar(r, v)
    h = self.computeAngMomScalar(r, v, fpa)
    return self.computeSemiMajorAxisScalar(E), self.computeEccScalar(h, E)
'''
A={'compute_ApoapsisAltitudeKm':APO,'compute_PeriapsisAltitudeKm':PERI,'hitsTargetApoapsis2':HITS2,'+':X}
mcase('apo',V,'Vehicle',A,['vehicle'])
for n,a,b in [('apo-bad','self.planetObj.OMEGA], r*up','self.planetObj.OMEGA], up'),('apo-bad3','self.planetObj.RP < self','self.planetObj.RP <= self')]:
    mcase(n,V,'Vehicle',{k:v.replace(a,b) for k,v in A.items()},['compute_Apo','hitsTarget'],'violation')
def us(n2):
    return '''
def findUnderShootLimit%s(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km):
    flies = lambda efpa: self._fliesOut(efpa, self.hitsTargetApoapsis%s, t_sec, dt, 0.0, targetApopasisAltitude_km)
    return self._bisectCorridor(flies, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, 'Undershoot limit is outside user specified bounds.')
''' % (n2,n2)
BX='''
def _fliesOut(self, efpa, hits, t_sec, dt, delta_deg, target):
    self.gamma0_deg = efpa
    return hits(t_sec, dt, delta_deg, target)

def _bisectCorridor(self, flies, low, high, tol, message):
    saved = self.gamma0_deg
    limit, flag = 0.0, 0.0
    if flies(low)*flies(high) < 0:
        while abs(high - low) > tol:
            mid = (low + high)/2.0
            at_low, at_mid, at_high = flies(low), flies(mid), flies(high)
            if at_low*at_mid < 0:
                high = mid
            elif at_mid*at_high < 0:
                low = mid
            limit, flag = high, 1.0
    else:
        print(message)
    self.gamma0_deg = saved
    return limit, flag
'''
mcase('us',V,'Vehicle',{'findUnderShootLimit':us(''),'findUnderShootLimit2':us('2'),'+':BX},['findUnderShootLimit','findUnderShootLimit2','computeTCW'])
mcase('us-try',V,'Vehicle',{'findUnderShootLimit':us(''),'findUnderShootLimit2':us('2'),'+':BX.replace("    limit, flag = 0.0, 0.0\n    if flies","    limit, flag = 0.0, 0.0\n    try:\n      if flies").replace("        while","          while").replace("            mid","              mid").replace("            at_low,","              at_low,").replace("            if at_low*at_mid < 0:\n                high = mid\n            elif at_mid*at_high < 0:\n                low = mid\n            limit","              if at_low*at_mid < 0:\n                high = mid\n              elif at_mid*at_high < 0:\n                low = mid\n              limit").replace("    else:\n        print(message)\n    self.gamma0_deg","      else:\n          print(message)\n    finally:\n      self.gamma0_deg").replace('      ','\t\t').replace('        ','\t\t')} ,['findUnderShootLimit','findUnderShootLimit2','computeTCW']) if 0 else None
mcase('us-bad',V,'Vehicle',{'findUnderShootLimit':us(''),'findUnderShootLimit2':us('2'),'+':BX.replace("self.gamma0_deg = saved\n","pass\n")},['findUnderShootLimit'],'violation')
mcase('us-bad2',V,'Vehicle',{'findUnderShootLimit':us(''),'findUnderShootLimit2':us(''),'+':BX} if 0 else {'findUnderShootLimit':us(''),'findUnderShootLimit2':us('2').replace('hitsTargetApoapsis2','hitsTargetApoapsis'),'+':BX},['findUnderShootLimit'],'violation')
mcase('us-bad3',V,'Vehicle',{'findUnderShootLimit':us(''),'findUnderShootLimit2':us('2'),'+':BX.replace("limit, flag = high, 1.0","limit, flag = mid, 1.0")},['findUnderShootLimit'],'violation')
TC='''
def computeTCW(self, t_sec, dt, gamma0_deg_guess_low_os, gamma0_deg_guess_high_os, gamma0_deg_guess_low_us, gamma0_deg_guess_high_us, gamma_deg_tol_os, gamma_deg_tol_us, targetApopasisAltitude_km):
    limits = {}
    for name, find, low, high, tol in (
            ('Overshoot', self.findOverShootLimit, gamma0_deg_guess_low_os, gamma0_deg_guess_high_os, gamma_deg_tol_os),
            ('Undershoot', self.findUnderShootLimit, gamma0_deg_guess_low_us, gamma0_deg_guess_high_us, gamma_deg_tol_us)):
        limits[name], _ = find(t_sec, dt, low, high, tol, targetApopasisAltitude_km)
    for name, angle in limits.items():
        print(f'{name + " Limit":<17}: {angle} deg.')
    TCW = limits['Overshoot'] - limits['Undershoot']
    print(f'Corridor Width   : {TCW} deg.')
    return TCW
'''
mcase('tcw',V,'Vehicle',{'computeTCW':TC},['computeTCW'])
mcase('tcw-bad',V,'Vehicle',{'computeTCW':TC.replace('gamma0_deg_guess_high_us, gamma_deg_tol_us)','gamma0_deg_guess_high_us, gamma_deg_tol_os)')},['computeTCW'],'violation')
DM='''
def createDensityMeasuredFunction(self, h_step_array, density_mes_array, lowAlt_km, numPoints_lowAlt):
    h = 1000.0*h_step_array[1:]
    rho = density_mes_array[1:]
    measured = self._decreasing(h, rho)
    bottom = h[np.argmin(h)]
    H = self.planetObj.scaleHeight(bottom, measured)
    below = np.linspace(bottom - 1000.0, lowAlt_km*1000.0, numPoints_lowAlt)
    extended = measured(bottom)*np.exp(-(below - bottom)/H)
    return self._decreasing(np.append(h, below), np.append(rho, extended)), bottom
'''
DX='''
@staticmethod
def _decreasing(h, rho):
    return interp1d(h, rho, kind='linear', bounds_error=False, fill_value=(np.max(rho), np.min(rho)))
'''
mcase('dens',V,'Vehicle',{'createDensityMeasuredFunction':DM,'+':DX},['createDensity'])
mcase('dens-min',V,'Vehicle',{'createDensityMeasuredFunction':DM.replace('h[np.argmin(h)]','np.min(h)'),'+':DX},['createDensity'])
mcase('dens-bad',V,'Vehicle',{'createDensityMeasuredFunction':DM.replace('h[np.argmin(h)]','np.max(h)'),'+':DX},['createDensity'],'violation')
PRE='''
def predictApoapsisAltitudeKm_withLiftUp(self, h0_km, theta0_deg, phi0_deg, v0_kms, gamma0_deg, psi0_deg, drange0_km, heatLoad0, t_sec, dt, delta_deg, density_mes_int):
    flight = self.propogateEntry_util(h0_km, theta0_deg, phi0_deg, v0_kms, gamma0_deg, psi0_deg, drange0_km, heatLoad0, t_sec, dt, delta_deg, density_mes_int)
    return self._finalApoapsis(flight)
'''
PX='''
def _finalApoapsis(self, flight):
    _, h, v, phi, psi, theta, gamma, *_rest = (column[-1] if np.ndim(column) else column for column in flight)
    angles = np.deg2rad([gamma, theta, phi, psi])
    return self.compute_ApoapsisAltitudeKm(self.planetObj.RP + 1000.0*h, 1000.0*v, *angles)
'''
mcase('pred',V,'Vehicle',{'predictApoapsisAltitudeKm_withLiftUp':PRE,'+':PX},['predictApo'])
PX2='''
def _finalApoapsis(self, flight):
    h, v, phi, psi, theta, gamma = [column[-1] for column in flight[1:7]]
    angles = np.deg2rad([gamma, theta, phi, psi])
    return self.compute_ApoapsisAltitudeKm(self.planetObj.RP + 1000.0*h, 1000.0*v, *angles)
'''
mcase('pred2',V,'Vehicle',{'predictApoapsisAltitudeKm_withLiftUp':PRE,'+':PX2},['predictApo'])
mcase('pred2-bad',V,'Vehicle',{'predictApoapsisAltitudeKm_withLiftUp':PRE,'+':PX2.replace('[gamma, theta, phi, psi]','[gamma, phi, theta, psi]')},['predictApo'],'violation')
DV='''
def compute_periapsis_raise_DV(self, current_peri_km, current_apo_km, target_peri_km):
    GM, RP = self.planetObj.GM, self.planetObj.RP
    r_apo = RP + 1000*current_apo_km
    def apoapsis_speed(peri_km):
        a = (r_apo + RP + 1000*peri_km)/2
        return np.sqrt(GM*(2/r_apo - 1/a))
    return apoapsis_speed(target_peri_km) - apoapsis_speed(current_peri_km)
'''
mcase('dv',V,'Vehicle',{'compute_periapsis_raise_DV':DV},['raise_DV'])
EF='''
def findEFPALimitD(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km):
    saved = {name: getattr(self, name) for name in ('gamma0_deg', 'LD', 'CL')}
    self.LD = self.CL = 0.0
    flies = functools.partial(self._fliesOut, hits=self.hitsTargetApoapsis, t_sec=t_sec, dt=dt, delta_deg=0.0, target=targetApopasisAltitude_km)
    result = self._bisectCorridor(flies, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, 'EFPA limit is outside user specified bounds.')
    for name, value in saved.items():
        setattr(self, name, value)
    return result
'''
mcase('efpa',V,'Vehicle',{'findEFPALimitD':EF,'+':BX},['findEFPALimitD','findUnderShootLimitD','computeTCWD'],pre='\nimport functools\n')
mcase('efpa-bad',V,'Vehicle',{'findEFPALimitD':EF.replace("'gamma0_deg', 'LD', 'CL')","'gamma0_deg', 'CL')"),'+':BX},['findEFPALimitD'],'violation',pre='\nimport functools\n')
