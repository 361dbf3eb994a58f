import sys; sys.path.insert(0,'/tmp')
from em import mcase
V='vehicle.py'
F={'Lvectorized':'''
def Lvectorized(self, r, theta, phi, v):
    return self._dynamicPressure(r, v)*(self.A*self.CL)
''','Dvectorized':'''
def Dvectorized(self, r, theta, phi, v):
    if self.userDefinedCDMach is True:
        self.CD_vec = self.CDMach(self.computeMach(r, v))
    else:
        self.CD_vec = np.full(len(v), self.CD)
    return self._dynamicPressure(r, v)*self.A*self.CD_vec
''','a_s':'''
def a_s(self, r, theta, phi, v, delta):
    return -self.D(r, theta, phi, v)/self.mass
''','a_svectorized':'''
def a_svectorized(self, r, theta, phi, v, delta):
    return np.negative(self.Dvectorized(r, theta, phi, v))/self.mass
''','a_wvectorized':'''
def a_wvectorized(self, r, theta, phi, v, delta):
    side_force = self.Lvectorized(r, theta, phi, v)*np.sin(delta)
    return side_force/self.mass
''','grbar':'''
def grbar(self, rbar, phi):
    s = np.sin(phi)
    J2, J3 = self.planetObj.J2, self.planetObj.J3
    series = -1.0 + 1.5*J2/rbar**2*(3*s**2 - 1) + 2*J3/rbar**3*(5*s**3 - 3*s)
    return series/rbar**2
''','gthetabar':'''
def gthetabar(self, rbar, phi):
    return 0
''','avoid_singularity':'''
def avoid_singularity(self, x):
    south_pole = -0.5*np.pi
    near_pole = -0.002 < x - south_pole < 0.002
    return south_pole + 0.004 if near_pole else x
''','computeMach':'''
def computeMach(self, rc, vc):
    return vc/self.planetObj.sonicvectorized(rc)
''','computeStagTemp':'''
def computeStagTemp(self, rc, vc):
    M = self.computeMach(rc, vc)
    ratio = 1 + (self.planetObj.CPCV - 1)/2*M*M
    return ratio*self.planetObj.temperaturevectorized(rc)
''','hit_EFPA_90':'''
def hit_EFPA_90(self, t, y, delta):
    gamma = y[5]
    return gamma - np.radians(-88)
''','dummyVehicle':'''
def dummyVehicle(self, density_mes_int):
    clone = copy.deepcopy(self)
    clone.planetObj = copy.deepcopy(self.planetObj)
    clone.planetObj.density_int = density_mes_int
    return clone
''','+':'''
def _dynamicPressure(self, r, v):
    return 0.5*self.planetObj.rhovectorized(r)*np.square(v)
'''}
mcase('forces',V,'Vehicle',F,['vehicle_aero','vehicle_eom','vehicle_gravity','vehicle'])
for nm,a,b in [('forces-bad1','- 3*s)','- 3)*s'),('forces-bad2','near_pole = -0.002 < x','near_pole = 0.002 < x'),('forces-bad3','0.5*self.planetObj.rho','self.planetObj.rho')]:
    mcase(nm,V,'Vehicle',{k:v.replace(a,b) for k,v in F.items()},['vehicle_aero','vehicle_dyn','vehicle_force','Lvec','grbar','avoid_sing'],'violation' if nm!='x' else 'ok')
U='''
def propogateEntry_util(self, h0_km, theta0_deg, phi0_deg, v0_kms, gamma0_deg, psi0_deg, drange0_km, heatLoad0, t_sec, dt, delta_deg, density_mes_int):
    clone = self.dummyVehicle(density_mes_int)
    return clone._summarise(clone.solveTrajectory, (h0_km, theta0_deg, phi0_deg, v0_kms, psi0_deg, gamma0_deg, drange0_km), heatLoad0, t_sec, dt, delta_deg)
'''
U2=U.replace('propogateEntry_util(','propogateEntry_util2(').replace('clone.solveTrajectory','clone.solveTrajectory2')
UX='''
def _summarise(self, solver, start, heatLoad0, t_sec, dt, delta_deg):
    h, theta, phi, v, psi, gamma, drange = start
    delta, theta, phi, psi, gamma = np.radians([delta_deg, theta, phi, psi, gamma])
    state0 = self.planetObj.nonDimState(self.planetObj.computeR(h*1000.0), theta, phi, v*1000.0, psi, gamma, drange*1000.0)
    states = self.planetObj.dimensionalize(*solver(*state0, t_sec, dt, delta))
    t, r, theta, phi, v, psi, gamma, drange = states
    plotUnits = self.convertToPlotUnits(t, r, v, phi, psi, theta, gamma, drange)
    index, exitflag = self.classifyTrajectory(r)
    tc, rc, thetac, phic, vc = self.truncateTrajectory(*states, index)[:5]
    where = (tc, rc, thetac, phic, vc, index, delta)
    acc_net_g, acc_drag_g = self.computeAccelerationLoad(*where), self.computeAccelerationDrag(*where)
    dyn_pres_atm, stag_pres_atm = (f(rc, vc)/101325.0 for f in (self.computeDynPres, self.computeStagPres))
    q = self.qStagConvective(rc, vc) + self.qStagRadiative(rc, vc)
    heatload = heatLoad0 + cumulative_trapezoid(q, x=tc, initial=0)
    return (*self.truncateTrajectory(*plotUnits, index), exitflag, acc_net_g, dyn_pres_atm, stag_pres_atm, q, heatload, acc_drag_g)
'''
mcase('util',V,'Vehicle',{'propogateEntry_util':U,'propogateEntry_util2':U2,'+':UX},['vehicle'])
mcase('util-bad',V,'Vehicle',{'propogateEntry_util':U,'propogateEntry_util2':U2,'+':UX.replace("heatLoad0 + cumul","cumul")},['_util'],'violation')
mcase('util-bad2',V,'Vehicle',{'propogateEntry_util':U,'propogateEntry_util2':U2.replace('solveTrajectory2','solveTrajectory'),'+':UX},['_util'],'violation')
# no deepcopy of planet twice: shared planet mutated
mcase('dummy-bad',V,'Vehicle',{'dummyVehicle':F['dummyVehicle'].replace('copy.deepcopy(self)','copy.copy(self)').replace('clone.planetObj = copy.deepcopy(self.planetObj)\n','pass\n')},['vehicle'],'violation')
mcase('dummy-copy',V,'Vehicle',{'dummyVehicle':F['dummyVehicle'].replace('copy.deepcopy(self)','copy.copy(self)').replace('copy.deepcopy(self.planetObj)','copy.copy(self.planetObj)')},['dummyVehicle'])
