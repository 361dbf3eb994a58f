"""Reference model: vehicle definition, aerodynamic forces, stagnation heating, equations of motion."""
import numpy as np
import copy
from scipy.interpolate import interp1d
from scipy.integrate import odeint, solve_ivp, cumulative_trapezoid

PLANETS = ('VENUS', 'EARTH', 'MARS', 'JUPITER', 'SATURN', 'TITAN', 'URANUS', 'NEPTUNE')
# convective: coefficient, density exponent, velocity exponent, reference nose radius (q ~ (Rref/RN)^0.5)
CONV = [('VENUS', 1.896e-8, 0.5, 3.0, 1.0), ('EARTH', 1.7623e-8, 0.5, 3.0, 1.0), ('MARS', 1.898e-8, 0.5, 3.0, 1.0),
        ('JUPITER', 0.6556e-8, 0.5, 3.0, 1.0), ('SATURN', 0.6356e-8, 0.5, 3.0, 1.0), ('TITAN', 1.7407e-8, 0.5, 3.0, 1.0),
        ('URANUS', 2.24008e-7, 0.45213, 2.6918, 0.291), ('NEPTUNE', 2.24008e-7, 0.45213, 2.6918, 0.291)]
NONES = ['h0_km', 'theta0_deg', 'phi0_deg', 'v0_kms', 'psi0_deg', 'gamma0_deg', 'drange0_km', 'heatLoad0',
         'h0_km_ref', 'theta0_deg_ref', 'phi0_deg_ref', 'v0_kms_ref', 'psi0_deg_ref', 'gamma0_deg_ref', 'drange0_km_ref',
         'heatLoad0_ref']


def rho_at(self, r):
    return self.planetObj.density_int(r - self.planetObj.RP)


def rho_s(self, r):
    """density used by the dynamics: tabulated inside the atmosphere, none above it, surface value below ground"""
    h = r - self.planetObj.RP
    if h > self.planetObj.h_thres:
        return 0
    if h < 0:
        return self.planetObj.rho0
    return self.planetObj.density_int(h)


def mach(self, r, v):
    return v / self.planetObj.sonic_int(r - self.planetObj.RP)


def cd(self, r, v):
    if self.userDefinedCDMach is True:
        return self.CDMach(mach(self, r, v))
    return self.CD


def conv(self, r, v):
    assume(self.planetObj.ID in PLANETS)
    rho = rho_at(self, r)
    q = 0
    for (name, c, m, n, rref) in CONV:
        if self.planetObj.ID == name:
            q = c * rho ** m * v ** n * (rref / self.RN) ** 0.5
    return q


def rad(self, r, v):
    assume(self.planetObj.ID in PLANETS)
    ID = self.planetObj.ID
    rho = rho_at(self, r)
    RN = self.RN
    if ID == 'VENUS':
        q = np.where(v < 8000.0, 3.33e-34 * v ** 10.0, np.where(v < 10000.0, 1.22e-16 * v ** 5.5, 3.07e-48 * v ** 13.4)) * rho ** 1.2 * RN ** 0.49
    elif ID == 'EARTH':
        f = interp1d(np.array([9000.0, 10000.0, 11000.0, 12000.0, 13000.0, 14000.0, 15000.0, 16000.0]),
                     np.array([1.5, 35, 151, 359, 660, 1065, 1550, 2040]), kind='linear', fill_value=(0.0, 2040), bounds_error=False)
        q = 4.736e4 * RN ** 0.6 * rho ** 1.22 * f(v)
    elif ID == 'JUPITER' or ID == 'SATURN':
        q = 9.7632379e-41 * (2 * RN) ** (-0.17905) * rho ** 1.763827469 * v ** 10.993852
    elif ID == 'URANUS' or ID == 'NEPTUNE':
        q = 8.125812e-3 * rho ** 0.49814 * (v / 10000) ** 15.113 * (RN / 0.291)
    else:
        q = np.zeros(len(r))
    return q


def gvec(self, rbar, phi):
    """radial and northward gravity of the oblate planet (J2, J3), scaled by GM/RP^2"""
    s = np.sin(phi)
    c = np.cos(phi)
    J2 = self.planetObj.J2
    J3 = self.planetObj.J3
    g_r = -1 / rbar ** 2 + 1.5 * J2 * (3 * s ** 2 - 1) / rbar ** 4 + 2 * J3 * (5 * s ** 3 - 3 * s) / rbar ** 5
    g_p = -3 * J2 * s * c / rbar ** 4 + 1.5 * J3 * c * (1 - 5 * s ** 2) / rbar ** 5
    return g_r, g_p


def dynamics(self, y, delta):
    """3-DoF point mass over a rotating oblate planet, non-dimensional"""
    rbar, theta, phi, vbar, psi, gamma, drangebar = y
    W = self.planetObj.OMEGAbar
    sg = np.sin(gamma)
    cg = np.cos(gamma)
    sp = np.sin(psi)
    cp = np.cos(psi)
    sf = np.sin(phi)
    cf = np.cos(phi)
    r = rbar * self.planetObj.RP
    q = 0.5 * rho_s(self, r) / self.planetObj.rho0 * vbar ** 2 * self.Abar
    drag = q * cd(self, r, vbar * self.planetObj.Vref) / self.mbar
    lift = q * self.CL / self.mbar
    g_r, g_p = gvec(self, rbar, phi)
    hv = vbar * (cg + 1e-2)
    return [vbar * sg,
            vbar * cg * cp / (rbar * cf),
            vbar * cg * sp / rbar,
            -drag + sg * g_r + cg * sp * g_p + W ** 2 * rbar * cf * (sg * cf - cg * sf * sp),
            (lift * np.sin(delta) + cp * g_p) / hv - vbar / rbar * cg * cp * sf / cf
            - W ** 2 * rbar / hv * sf * cf * cp + 2 * W * (sg / (cg + 1e-2) * cf * sp - sf),
            (lift * np.cos(delta) + cg * g_r - sg * sp * g_p) / vbar + vbar / rbar * cg
            + W ** 2 * rbar / vbar * cf * (cg * cf + sg * sf * sp) + 2 * W * cf * cp,
            vbar * cg]


class Vehicle:
    @ob(types={'planetObj': 'Planet'})
    def __init__(self, vehicleID, mass, beta, LD, A, alpha, RN, planetObj, userDefinedCDMach=False):
        self.vehicleID = vehicleID
        self.mass = mass
        self.beta = beta
        self.A = A
        self.LD = LD
        self.alpha = alpha
        self.RN = RN
        self.planetObj = planetObj
        self.userDefinedCDMach = userDefinedCDMach
        self.Abar = A * planetObj.rho0 * planetObj.RP / mass
        self.mbar = 1
        self.CD = mass / (beta * A)
        self.CL = LD * mass / (beta * A)
        for n in NONES:
            setattr(self, n, None)

    def setCDMachFunction(self, func):
        self.CDMach = func

    def setInitialState(self, h0_km, theta0_deg, phi0_deg, v0_kms, psi0_deg, gamma0_deg, drange0_km, heatLoad0):
        self.h0_km = h0_km
        self.theta0_deg = theta0_deg
        self.phi0_deg = phi0_deg
        self.v0_kms = v0_kms
        self.psi0_deg = psi0_deg
        self.gamma0_deg = gamma0_deg
        self.drange0_km = drange0_km
        self.heatLoad0 = heatLoad0
        self.h0_km_ref = h0_km
        self.theta0_deg_ref = theta0_deg
        self.phi0_deg_ref = phi0_deg
        self.v0_kms_ref = v0_kms
        self.psi0_deg_ref = psi0_deg
        self.gamma0_deg_ref = gamma0_deg
        self.drange0_km_ref = drange0_km
        self.heatLoad0_ref = heatLoad0

    def setSolverParams(self, tol):
        self.tol = tol

    @ob(ranks={'r': 1, 'v': 1})
    def qStagConvective(self, r, v):
        return conv(self, r, v)

    @ob(ranks={'r': 1, 'v': 1})
    def qStagRadiative(self, r, v):
        return rad(self, r, v)

    @ob(ranks={'r': 1, 'v': 1})
    def qStagTotal(self, r, v):
        return conv(self, r, v) + rad(self, r, v)

    def L(self, r, theta, phi, v):
        return 0.5 * rho_s(self, r) * v ** 2 * self.A * self.CL

    @ob(ranks={'r': 1, 'theta': 1, 'phi': 1, 'v': 1})
    def Lvectorized(self, r, theta, phi, v):
        return 0.5 * rho_at(self, r) * v ** 2 * self.A * self.CL

    def D(self, r, theta, phi, v):
        return 0.5 * rho_s(self, r) * v ** 2 * self.A * cd(self, r, v)

    @ob(ranks={'r': 1, 'theta': 1, 'phi': 1, 'v': 1})
    def Dvectorized(self, r, theta, phi, v):
        return 0.5 * rho_at(self, r) * v ** 2 * self.A * cd(self, r, v)

    def Lbar(self, rbar, theta, phi, vbar):
        return 0.5 * rho_s(self, rbar * self.planetObj.RP) / self.planetObj.rho0 * vbar ** 2 * self.Abar * self.CL

    def Dbar(self, rbar, theta, phi, vbar):
        r = rbar * self.planetObj.RP
        return 0.5 * rho_s(self, r) / self.planetObj.rho0 * vbar ** 2 * self.Abar * cd(self, r, vbar * self.planetObj.Vref)

    def a_s(self, r, theta, phi, v, delta):
        return -0.5 * rho_s(self, r) * v ** 2 * self.A * cd(self, r, v) / self.mass

    @ob(ranks={'r': 1, 'theta': 1, 'phi': 1, 'v': 1})
    def a_svectorized(self, r, theta, phi, v, delta):
        return -0.5 * rho_at(self, r) * v ** 2 * self.A * cd(self, r, v) / self.mass

    def a_n(self, r, theta, phi, v, delta):
        return 0.5 * rho_s(self, r) * v ** 2 * self.A * self.CL * np.cos(delta) / self.mass

    @ob(ranks={'r': 1, 'theta': 1, 'phi': 1, 'v': 1})
    def a_nvectorized(self, r, theta, phi, v, delta):
        return 0.5 * rho_at(self, r) * v ** 2 * self.A * self.CL * np.cos(delta) / self.mass

    def a_w(self, r, theta, phi, v, delta):
        return 0.5 * rho_s(self, r) * v ** 2 * self.A * self.CL * np.sin(delta) / self.mass

    @ob(ranks={'r': 1, 'theta': 1, 'phi': 1, 'v': 1})
    def a_wvectorized(self, r, theta, phi, v, delta):
        return 0.5 * rho_at(self, r) * v ** 2 * self.A * self.CL * np.sin(delta) / self.mass

    def a_sbar(self, rbar, theta, phi, vbar, delta):
        r = rbar * self.planetObj.RP
        return -0.5 * rho_s(self, r) / self.planetObj.rho0 * vbar ** 2 * self.Abar * cd(self, r, vbar * self.planetObj.Vref) / self.mbar

    def a_nbar(self, rbar, theta, phi, vbar, delta):
        return 0.5 * rho_s(self, rbar * self.planetObj.RP) / self.planetObj.rho0 * vbar ** 2 * self.Abar * self.CL * np.cos(delta) / self.mbar

    def a_wbar(self, rbar, theta, phi, vbar, delta):
        return 0.5 * rho_s(self, rbar * self.planetObj.RP) / self.planetObj.rho0 * vbar ** 2 * self.Abar * self.CL * np.sin(delta) / self.mbar

    def cfvbar(self, rbar, phi, vbar, psi, gamma):
        return self.planetObj.OMEGAbar ** 2 * rbar * np.cos(phi) * (np.sin(gamma) * np.cos(phi) - np.cos(gamma) * np.sin(phi) * np.sin(psi))

    def cfpsibar(self, rbar, phi, vbar, psi, gamma):
        return -self.planetObj.OMEGAbar ** 2 * rbar / (vbar * (np.cos(gamma) + 1e-2)) * np.sin(phi) * np.cos(phi) * np.cos(psi)

    def cfgammabar(self, rbar, phi, vbar, psi, gamma):
        return self.planetObj.OMEGAbar ** 2 * rbar / vbar * np.cos(phi) * (np.cos(gamma) * np.cos(phi) + np.sin(gamma) * np.sin(phi) * np.sin(psi))

    def copsibar(self, rbar, phi, vbar, psi, gamma):
        return 2 * self.planetObj.OMEGAbar * (np.sin(gamma) / (np.cos(gamma) + 1e-2) * np.cos(phi) * np.sin(psi) - np.sin(phi))

    def cogammabar(self, rbar, phi, vbar, psi, gamma):
        return 2 * self.planetObj.OMEGAbar * np.cos(phi) * np.cos(psi)

    def grbar(self, rbar, phi):
        return gvec(self, rbar, phi)[0]

    def gthetabar(self, rbar, phi):
        return 0

    def gphibar(self, rbar, phi):
        return gvec(self, rbar, phi)[1]

    def gnbar(self, rbar, phi, gamma, psi):
        g_r, g_p = gvec(self, rbar, phi)
        return np.cos(gamma) * g_r - np.sin(gamma) * np.sin(psi) * g_p

    def gsbar(self, rbar, phi, gamma, psi):
        g_r, g_p = gvec(self, rbar, phi)
        return np.sin(gamma) * g_r + np.cos(gamma) * np.sin(psi) * g_p

    def gwbar(self, rbar, phi, gamma, psi):
        return np.cos(psi) * gvec(self, rbar, phi)[1]

    def avoid_singularity(self, x):
        if np.abs(x + np.pi / 2) < 2e-3:
            return 4e-3 - np.pi / 2
        return x

    @ob(ranks={'y': 'list7'})
    def EOM(self, y, t, delta):
        return dynamics(self, y, delta)

    @ob(ranks={'y': 'list7'})
    def EOM2(self, t, y, delta):
        return dynamics(self, y, delta)

    def solveTrajectory(self, rbar0, theta0, phi0, vbar0, psi0, gamma0, drangebar0, t_sec, dt, delta):
        tau = self.planetObj.tau
        tbar = np.arange(0, (t_sec + dt) / tau, dt / tau)
        x = odeint(self.EOM, [rbar0, theta0, phi0, vbar0, psi0, gamma0, drangebar0], tbar, rtol=self.tol, atol=self.tol, args=(delta,))
        return tbar, x[:, 0], x[:, 1], x[:, 2], x[:, 3], x[:, 4], x[:, 5], x[:, 6]

    @ob(ranks={'y': 'list7'})
    def hit_EFPA_90(self, t, y, delta):
        return y[5] + 88 * np.pi / 180

    def solveTrajectory2(self, rbar0, theta0, phi0, vbar0, psi0, gamma0, drangebar0, t_sec, dt, delta):
        tau = self.planetObj.tau
        tbar = np.arange(0, (t_sec + dt) / tau, dt / tau)
        s = solve_ivp(self.EOM2, (0, tbar[-1]), [rbar0, theta0, phi0, vbar0, psi0, gamma0, drangebar0], t_eval=tbar, rtol=self.tol,
                      atol=self.tol, events=self.hit_EFPA_90, args=(delta,))
        y = s.y
        return s.t, y[0, :], y[1, :], y[2, :], y[3, :], y[4, :], y[5, :], y[6, :]

    @ob(ranks={'t': 1, 'r': 1, 'v': 1, 'phi': 1, 'psi': 1, 'theta': 1, 'gamma': 1, 'drange': 1})
    def convertToPlotUnits(self, t, r, v, phi, psi, theta, gamma, drange):
        d = 180 / np.pi
        return t / 60, (r - self.planetObj.RP) / 1000, v / 1000, phi * d, psi * d, theta * d, gamma * d, drange / 1000

    def convertToKPa(self, pres):
        return pres / 1000

    def convertToPerCm2(self, heatrate):
        return heatrate / 10000

    @ob(ranks={'r': 1})
    def classifyTrajectory(self, r):
        h = r - self.planetObj.RP
        top = np.max(h)
        low = np.min(h)
        skip = self.planetObj.h_skip
        trap = self.planetObj.h_trap
        if low >= 0 and top > skip:
            return np.argmax(h > skip), 1.0
        if low >= trap and top < skip:
            return len(r), 0.0
        if low <= trap:
            return np.argmax(h < trap), -1.0
        return len(r), 0.0

    @ob(ranks={'t': 1, 'r': 1, 'v': 1, 'phi': 1, 'psi': 1, 'theta': 1, 'gamma': 1, 'drange': 1})
    def truncateTrajectory(self, t, r, theta, phi, v, psi, gamma, drange, index):
        return t[:index], r[:index], theta[:index], phi[:index], v[:index], psi[:index], gamma[:index], drange[:index]

    @ob(ranks={'tc': 1, 'rc': 1, 'thetac': 1, 'phic': 1, 'vc': 1})
    def computeAccelerationLoad(self, tc, rc, thetac, phic, vc, index, delta):
        a_s = self.a_svectorized(rc, thetac, phic, vc, delta)
        a_n = self.a_nvectorized(rc, thetac, phic, vc, delta)
        a_w = self.a_wvectorized(rc, thetac, phic, vc, delta)
        return np.sqrt(a_s ** 2 + a_n ** 2 + a_w ** 2) / self.planetObj.EARTHG

    @ob(ranks={'tc': 1, 'rc': 1, 'thetac': 1, 'phic': 1, 'vc': 1})
    def computeAccelerationDrag(self, tc, rc, thetac, phic, vc, index, delta):
        return np.abs(self.a_svectorized(rc, thetac, phic, vc, delta)) / self.planetObj.EARTHG

    @ob(ranks={'r': 1, 'v': 1})
    def computeDynPres(self, r, v):
        return 0.5 * rho_at(self, r) * v ** 2

    @ob(ranks={'rc': 1, 'vc': 1})
    def computeStagPres(self, rc, vc):
        return self.planetObj.pressure_int(rc - self.planetObj.RP) + 0.5 * rho_at(self, rc) * vc ** 2

    @ob(ranks={'rc': 1, 'vc': 1})
    def computeMach(self, rc, vc):
        return mach(self, rc, vc)

    def computeMachScalar(self, r, v):
        return mach(self, r, v)

    @ob(ranks={'rc': 1, 'vc': 1})
    def computeStagTemp(self, rc, vc):
        return self.planetObj.temp_int(rc - self.planetObj.RP) * (1 + (self.planetObj.CPCV - 1) / 2 * mach(self, rc, vc) ** 2)

    @ob(ranks={'tc': 1, 'rc': 1, 'vc': 1, 'rn_array': 1}, whole=('rn_array',))
    def computeHeatingForMultipleRN(self, tc, rc, vc, rn_array):
        keep = self.RN
        peak = np.zeros(len(rn_array))
        load = np.zeros(len(rn_array))
        i = 0
        for R in rn_array:
            self.RN = R
            q = conv(self, rc, vc) + rad(self, rc, vc)
            peak[i] = np.max(q)
            load[i] = cumulative_trapezoid(q, tc, initial=0)[-1]
            i += 1
        self.RN = keep
        return peak, load
