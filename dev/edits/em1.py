import sys; sys.path.insert(0,'/tmp')
from em import mcase
V=('vehicle.py','Vehicle')
mcase('eom-array',*V,{'EOM':'''
def EOM(self, y, t, delta):
    rbar, theta, phi, vbar, psi, gamma, _ = y
    cg, sg = np.cos(gamma), np.sin(gamma)
    dydt = np.empty(7)
    dydt[0] = vbar*sg
    dydt[1] = vbar*cg*np.cos(psi)/(rbar*np.cos(phi))
    dydt[2] = vbar*cg*np.sin(psi)/rbar
    dydt[3] = self.a_sbar(rbar, theta, phi, vbar, delta)
    dydt[3] += self.gsbar(rbar, phi, gamma, psi)
    dydt[3] += self.cfvbar(rbar, phi, vbar, psi, gamma)
    lateral = self.a_wbar(rbar, theta, phi, vbar, delta) + self.gwbar(rbar, phi, gamma, psi)
    dydt[4] = (lateral/(vbar*(cg + 0.01))
        - (vbar/rbar)*cg*np.cos(psi)*np.tan(phi)
        + self.cfpsibar(rbar, phi, vbar, psi, gamma) + self.copsibar(rbar, phi, vbar, psi, gamma))
    dydt[5] = ((self.a_nbar(rbar, theta, phi, vbar, delta) + self.gnbar(rbar, phi, gamma, psi))/vbar
        + (vbar/rbar)*cg
        + self.cfgammabar(rbar, phi, vbar, psi, gamma) + self.cogammabar(rbar, phi, vbar, psi, gamma))
    dydt[6] = vbar*cg
    return dydt
'''},['Vehicle.EOM','solveTraj','propogateEntry'])
mcase('solve-ivp-partial',*V,{'solveTrajectory':'''
def solveTrajectory(self, rbar0, theta0, phi0, vbar0, psi0, gamma0, drangebar0, t_sec, dt, delta):
    tau = self.planetObj.tau
    tbar = np.arange(0, (t_sec + dt)/tau, dt/tau)
    xbar = odeint(lambda y, t: self.EOM(y, t, delta), [rbar0, theta0, phi0, vbar0, psi0, gamma0, drangebar0], tbar, rtol=self.tol, atol=self.tol)
    return (tbar,) + tuple(xbar.T)
'''},['solveTraj','propogateEntry'])
mcase('solve-partial',*V,{'solveTrajectory':'''
def solveTrajectory(self, rbar0, theta0, phi0, vbar0, psi0, gamma0, drangebar0, t_sec, dt, delta):
    from functools import partial
    tau = self.planetObj.tau
    tbar = np.arange(0, (t_sec + dt)/tau, dt/tau)
    rhs = partial(self.EOM, delta=delta)
    xbar = odeint(rhs, np.array([rbar0, theta0, phi0, vbar0, psi0, gamma0, drangebar0]), tbar, rtol=self.tol, atol=self.tol)
    rbar, theta, phi, vbar, psi, gamma, drangebar = np.transpose(xbar)
    return tbar, rbar, theta, phi, vbar, psi, gamma, drangebar
'''},['solveTraj','propogateEntry'])
mcase('solve-cols',*V,{'solveTrajectory':'''
def solveTrajectory(self, *args):
    *state, t_sec, dt, delta = args
    tau = self.planetObj.tau
    tbar = np.arange(0, (t_sec + dt)/tau, dt/tau)
    xbar = odeint(self.EOM, state, tbar, args=(delta,), **{'rtol': self.tol, 'atol': self.tol})
    return tuple([tbar] + [xbar[:, k] for k in range(7)])
'''},['solveTraj','propogateEntry'])
body='''
def propogateEntry(self, t_sec, dt, delta_deg):
    self._propagate(t_sec, dt, delta_deg, self.solveTrajectory)

def propogateEntry2(self, t_sec, dt, delta_deg):
    self._propagate(t_sec, dt, delta_deg, self.solveTrajectory2)

def _propagate(self, t_sec, dt, delta_deg, solver):
    deg = np.pi/180.0
    r0 = self.planetObj.computeR(self.h0_km*1e3)
    delta = delta_deg*deg
    state0 = (r0, self.theta0_deg*deg, self.phi0_deg*deg, self.v0_kms*1e3, self.psi0_deg*deg, self.gamma0_deg*deg, self.drange0_km*1e3)
    sol = solver(*self.planetObj.nonDimState(*state0), t_sec, dt, delta)
    t, r, theta, phi, v, psi, gamma, drange = self.planetObj.dimensionalize(*sol)
    plot_units = self.convertToPlotUnits(t, r, v, phi, psi, theta, gamma, drange)
    self.index, self.exitflag = self.classifyTrajectory(r)
    names = ('tc', 'rc', 'thetac', 'phic', 'vc', 'psic', 'gammac', 'drangec')
    for name, x in zip(names, self.truncateTrajectory(t, r, theta, phi, v, psi, gamma, drange, self.index)):
        setattr(self, name, x)
    t_min, h_km, v_kms, phi_deg, psi_deg, theta_deg, gamma_deg, drange_km = plot_units
    names = ('t_minc', 'h_kmc', 'v_kmsc', 'phi_degc', 'psi_degc', 'theta_degc', 'gamma_degc', 'drange_kmc')
    self.__dict__.update(zip(names, self.truncateTrajectory(t_min, h_km, v_kms, phi_deg, psi_deg, theta_deg, gamma_deg, drange_km, self.index)))
    args = (self.tc, self.rc, self.thetac, self.phic, self.vc, self.index, delta)
    self.acc_net_g, self.acc_drag_g = self.computeAccelerationLoad(*args), self.computeAccelerationDrag(*args)
    ATM = 101325.0
    self.dyn_pres_atm = self.computeDynPres(self.rc, self.vc)/ATM
    self.stag_pres_atm = self.computeStagPres(self.rc, self.vc)/ATM
    self.q_stag_con = self.qStagConvective(self.rc, self.vc)
    self.q_stag_rad = self.qStagRadiative(self.rc, self.vc)
    self.q_stag_total = self.q_stag_con + self.q_stag_rad
    self.heatload = self.heatLoad0 + cumulative_trapezoid(y=self.q_stag_total, x=self.tc, initial=0)
'''
mcase('propagate-merged',*V,{'propogateEntry':body,'propogateEntry2':'''
def _unused_(self):
    pass
'''},['propogateEntry','isCaptured'])
mcase('propagate-dict',*V,{'propogateEntry':body.replace("self.__dict__.update(zip(names,","for n_, x_ in dict(zip(names,").replace('drange_km, self.index)))','drange_km, self.index))).items():\n        setattr(self, n_, x_)'),'propogateEntry2':'''
def _unused_(self):
    pass
'''},['propogateEntry','isCaptured'])
mcase('classify-where',*V,{'classifyTrajectory':'''
def classifyTrajectory(self, r):
    h = self.planetObj.computeH(r)
    planet = self.planetObj
    lowest, highest = np.min(h), np.max(h)
    if lowest >= 0 and highest > planet.h_skip:
        return np.argmax(h > planet.h_skip), 1.0
    if planet.h_trap <= lowest and highest < planet.h_skip:
        return len(h), 0.0
    if lowest <= planet.h_trap:
        return np.argmax(planet.h_trap > h), -1.0
    return len(h), 0.0
'''},['classifyTraj'])
mcase('classify-flat',*V,{'classifyTrajectory':'''
def classifyTrajectory(self, r):
    h = self.planetObj.computeH(r)
    skips = max(h) > self.planetObj.h_skip
    h_min = h.min()
    index, exitflag = h.size, 0.0
    if h_min >= 0 and skips:
        index, exitflag = np.nonzero(h > self.planetObj.h_skip)[0][0], 1.0
    elif not (h_min >= self.planetObj.h_trap and h.max() < self.planetObj.h_skip) and h_min <= self.planetObj.h_trap:
        index, exitflag = (h < self.planetObj.h_trap).argmax(), -1.0
    return index, exitflag
'''},['classifyTraj'])
mcase('captured',*V,{'isCaptured':'''
def isCaptured(self, t_sec, dt, delta_deg):
    self.propogateEntry(t_sec, dt, delta_deg)
    final = self.index - 1
    return -1.0 if self.computeEnergy(self.rc, self.vc)[final] < 0 else 1.0
'''},['isCaptured'])
mcase('captured-scalar',*V,{'isCaptured':'''
def isCaptured(self, t_sec, dt, delta_deg):
    self.propogateEntry(t_sec, dt, delta_deg)
    final = self.index - 1
    return 1.0 if self.computeEnergyScalar(self.rc[final], self.vc[final]) >= 0 else -1.0
'''},['isCaptured'])
mcase('hits',*V,{'hitsTargetApoapsis':'''
def hitsTargetApoapsis(self, t_sec, dt, delta_deg, targetApopasisAltitude_km):
    self.propogateEntry(t_sec, dt, delta_deg)
    last = self.index - 1
    self.terminal_r, self.terminal_v, self.terminal_g = (x[last] for x in (self.rc, self.vc, self.gammac))
    self.terminal_E = self.computeEnergyScalar(self.terminal_r, self.terminal_v)
    self.terminal_h = self.computeAngMomScalar(self.terminal_r, self.terminal_v, self.terminal_g)
    self.terminal_a = self.computeSemiMajorAxisScalar(self.terminal_E)
    self.terminal_e = self.computeEccScalar(self.terminal_h, self.terminal_E)
    self.rp = self.terminal_a*(1.0 + self.terminal_e)
    self.hp = self.rp - self.planetObj.RP
    self.hp_km = self.hp/1000.0
    if self.terminal_r - self.planetObj.RP < self.planetObj.h_low:
        return 1.0
    escaped = self.terminal_a < 0
    return -1.0 if escaped or self.hp_km >= targetApopasisAltitude_km else 1.0
'''},['hitsTarget'])
