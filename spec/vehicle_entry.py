"""Reference model: trajectory propagation products, capture tests, corridor searches, predictions, post-exit orbit."""
import numpy as np
import matplotlib.pyplot as plt
import copy
from scipy.interpolate import interp1d
from scipy.integrate import cumulative_trapezoid

ATM = 101325.0
RAD = np.pi / 180


def energy(self, r, v):
    return v ** 2 / 2 - self.planetObj.GM / r


def flight(veh, h0_km, theta0_deg, phi0_deg, v0_kms, psi0_deg, gamma0_deg, drange0_km, heat0, t_sec, dt, delta_deg, second):
    """fly `veh` from the given state; everything a propagation reports, truncated at the terminal sample"""
    P = veh.planetObj
    delta = delta_deg * RAD
    s = P.nonDimState(P.computeR(h0_km * 1000), theta0_deg * RAD, phi0_deg * RAD, v0_kms * 1000, psi0_deg * RAD,
                      gamma0_deg * RAD, drange0_km * 1000)
    if second:
        x = veh.solveTrajectory2(s[0], s[1], s[2], s[3], s[4], s[5], s[6], t_sec, dt, delta)
    else:
        x = veh.solveTrajectory(s[0], s[1], s[2], s[3], s[4], s[5], s[6], t_sec, dt, delta)
    t, r, theta, phi, v, psi, gamma, drange = P.dimensionalize(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7])
    n, flag = veh.classifyTrajectory(r)
    t = t[:n]
    r = r[:n]
    theta = theta[:n]
    phi = phi[:n]
    v = v[:n]
    psi = psi[:n]
    gamma = gamma[:n]
    drange = drange[:n]
    load = veh.computeAccelerationLoad(t, r, theta, phi, v, n, delta)
    drag = veh.computeAccelerationDrag(t, r, theta, phi, v, n, delta)
    dyn = veh.computeDynPres(r, v) / ATM
    stag = veh.computeStagPres(r, v) / ATM
    qc = veh.qStagConvective(r, v)
    qr = veh.qStagRadiative(r, v)
    heat = heat0 + cumulative_trapezoid(qc + qr, t, initial=0)
    return n, flag, t, r, theta, phi, v, psi, gamma, drange, load, drag, dyn, stag, qc, qr, heat


def fly_self(self, t_sec, dt, delta_deg, second):
    n, flag, t, r, theta, phi, v, psi, gamma, drange, load, drag, dyn, stag, qc, qr, heat = flight(
        self, self.h0_km, self.theta0_deg, self.phi0_deg, self.v0_kms, self.psi0_deg, self.gamma0_deg, self.drange0_km,
        self.heatLoad0, t_sec, dt, delta_deg, second)
    self.index = n
    self.exitflag = flag
    self.tc = t
    self.rc = r
    self.thetac = theta
    self.phic = phi
    self.vc = v
    self.psic = psi
    self.gammac = gamma
    self.drangec = drange
    self.t_minc = t / 60
    self.h_kmc = (r - self.planetObj.RP) / 1000
    self.v_kmsc = v / 1000
    self.phi_degc = phi / RAD
    self.psi_degc = psi / RAD
    self.theta_degc = theta / RAD
    self.gamma_degc = gamma / RAD
    self.drange_kmc = drange / 1000
    self.acc_net_g = load
    self.acc_drag_g = drag
    self.dyn_pres_atm = dyn
    self.stag_pres_atm = stag
    self.q_stag_con = qc
    self.q_stag_rad = qr
    self.q_stag_total = qc + qr
    self.heatload = heat


def stand_in(self, density):
    """independent copy of the vehicle and its planet in which only the density profile is replaced"""
    planet = copy.deepcopy(self.planetObj)
    planet.density_int = density
    veh = copy.deepcopy(self)
    veh.planetObj = planet
    return veh


def report(veh, h0_km, theta0_deg, phi0_deg, v0_kms, gamma0_deg, psi0_deg, drange0_km, heat0, t_sec, dt, delta_deg, second):
    n, flag, t, r, theta, phi, v, psi, gamma, drange, load, drag, dyn, stag, qc, qr, heat = flight(
        veh, h0_km, theta0_deg, phi0_deg, v0_kms, psi0_deg, gamma0_deg, drange0_km, heat0, t_sec, dt, delta_deg, second)
    return (t / 60, (r - veh.planetObj.RP) / 1000, v / 1000, phi / RAD, psi / RAD, theta / RAD, gamma / RAD, drange / 1000,
            flag, load, dyn, stag, qc + qr, heat, drag)


def jettisoned(self, density):
    veh = stand_in(self, density)
    veh.beta = self.beta1 * self.betaRatio
    veh.CD = self.mass / (veh.beta * self.A)
    return veh


def apses(self, r, v, g, theta, phi, psi):
    """inertial apoapsis and periapsis radius from a planet-relative state (longitude, latitude, heading from east)"""
    ct = np.cos(theta)
    st = np.sin(theta)
    cp = np.cos(phi)
    sp = np.sin(phi)
    up = v * np.sin(g)
    east = v * np.cos(g) * np.cos(psi) + r * self.planetObj.OMEGA * cp
    north = v * np.cos(g) * np.sin(psi)
    vx = up * cp * ct - east * st - north * sp * ct
    vy = up * cp * st + east * ct - north * sp * st
    vz = up * sp + north * cp
    V = np.sqrt(vx ** 2 + vy ** 2 + vz ** 2)
    rvec = r * np.array([cp * ct, cp * st, sp])
    vvec = np.array([vx, vy, vz])
    zenith = np.arccos(np.dot(rvec / np.linalg.norm(rvec), vvec / np.linalg.norm(vvec)))
    E = energy(self, r, V)
    h = r * V * np.cos((90 - zenith / RAD) * RAD)
    a = -self.planetObj.GM / (2 * E)
    e = np.sqrt(1 + 2 * E * h ** 2 / self.planetObj.GM ** 2)
    return a, a * (1 + e), a * (1 - e)


def predicted(self, out):
    return self.compute_ApoapsisAltitudeKm(self.planetObj.RP + out[1][-1] * 1000, out[2][-1] * 1000, out[6][-1] * RAD,
                                           out[5][-1] * RAD, out[3][-1] * RAD, out[4][-1] * RAD)


def probe1(self, gamma, t_sec, dt, delta, target):
    self.gamma0_deg = gamma
    return self.hitsTargetApoapsis(t_sec, dt, delta, target)


def probe2(self, gamma, t_sec, dt, delta, target):
    self.gamma0_deg = gamma
    return self.hitsTargetApoapsis2(t_sec, dt, delta, target)


def search(self, probe, t_sec, dt, lo, hi, tol, delta, target):
    """bisection for the entry angle at which the capture test changes sign; the vehicle's own entry angle is kept"""
    scratch()
    saved = self.gamma0_deg
    a = probe(self, lo, t_sec, dt, delta, target)
    b = probe(self, hi, t_sec, dt, delta, target)
    if a * b < 0:
        while np.abs(hi - lo) > tol:
            mid = 0.5 * (lo + hi)
            a = probe(self, lo, t_sec, dt, delta, target)
            b = probe(self, mid, t_sec, dt, delta, target)
            c = probe(self, hi, t_sec, dt, delta, target)
            if a * b < 0:
                hi = mid
            elif b * c < 0:
                lo = mid
            limit = hi
            flag = 1.0
    else:
        limit = 0.0
        flag = 0.0
    self.gamma0_deg = saved
    return limit, flag


def unlifted(self, probe, t_sec, dt, lo, hi, tol, target):
    LD = self.LD
    CL = self.CL
    self.LD = 0.0
    self.CL = 0.0
    out = search(self, probe, t_sec, dt, lo, hi, tol, 0.0, target)
    self.LD = LD
    self.CL = CL
    return out


def ballistic(self, beta):
    self.beta = beta
    self.CD = self.mass / (beta * self.A)


def scratch():
    """the trajectory of the last trial left behind by a search is not a result"""
    ignore('index', 'exitflag', 'tc', 'rc', 'thetac', 'phic', 'vc', 'psic', 'gammac', 'drangec', 't_minc', 'h_kmc', 'v_kmsc', 'phi_degc',
           'psi_degc', 'theta_degc', 'gamma_degc', 'drange_kmc', 'acc_net_g', 'acc_drag_g', 'dyn_pres_atm', 'stag_pres_atm', 'q_stag_con',
           'q_stag_rad', 'q_stag_total', 'heatload', 'terminal_r', 'terminal_v', 'terminal_g', 'terminal_E', 'terminal_h', 'terminal_a',
           'terminal_e', 'rp', 'hp', 'hp_km')


class Vehicle:
    @ob(ranks={'rc': 1, 'vc': 1})
    def computeEnergy(self, rc, vc):
        return energy(self, rc, vc)

    def computeEnergyScalar(self, r, v):
        return energy(self, r, v)

    def computeSemiMajorAxisScalar(self, E):
        return -self.planetObj.GM / (2 * E)

    def computeAngMomScalar(self, terminal_r, terminal_v, terminal_g):
        return terminal_r * terminal_v * np.cos(terminal_g)

    def computeEccScalar(self, h, E):
        return np.sqrt(1 + 2 * E * h ** 2 / self.planetObj.GM ** 2)

    def propogateEntry(self, t_sec, dt, delta_deg):
        fly_self(self, t_sec, dt, delta_deg, False)

    def propogateEntry2(self, t_sec, dt, delta_deg):
        fly_self(self, t_sec, dt, delta_deg, True)

    def dummyVehicle(self, density_mes_int):
        return stand_in(self, density_mes_int)

    def propogateEntry_util(self, h0_km, theta0_deg, phi0_deg, v0_kms, gamma0_deg, psi0_deg, drange0_km, heatLoad0, t_sec, dt, delta_deg,
                            density_mes_int):
        return report(stand_in(self, density_mes_int), h0_km, theta0_deg, phi0_deg, v0_kms, gamma0_deg, psi0_deg, drange0_km, heatLoad0,
                      t_sec, dt, delta_deg, False)

    def propogateEntry_util2(self, h0_km, theta0_deg, phi0_deg, v0_kms, gamma0_deg, psi0_deg, drange0_km, heatLoad0, t_sec, dt, delta_deg,
                             density_mes_int):
        return report(stand_in(self, density_mes_int), h0_km, theta0_deg, phi0_deg, v0_kms, gamma0_deg, psi0_deg, drange0_km, heatLoad0,
                      t_sec, dt, delta_deg, True)

    def propogateEntry_utilD(self, h0_km, theta0_deg, phi0_deg, v0_kms, gamma0_deg, psi0_deg, drange0_km, heatLoad0, t_sec, dt, delta_deg,
                             density_mes_int):
        return report(jettisoned(self, density_mes_int), h0_km, theta0_deg, phi0_deg, v0_kms, gamma0_deg, psi0_deg, drange0_km, heatLoad0,
                      t_sec, dt, delta_deg, False)

    def propogateEntry_utilD2(self, h0_km, theta0_deg, phi0_deg, v0_kms, gamma0_deg, psi0_deg, drange0_km, heatLoad0, t_sec, dt, delta_deg,
                              density_mes_int):
        return report(jettisoned(self, density_mes_int), h0_km, theta0_deg, phi0_deg, v0_kms, gamma0_deg, psi0_deg, drange0_km, heatLoad0,
                      t_sec, dt, delta_deg, True)

    @ob(calls=['propogateEntry'])
    def isCaptured(self, t_sec, dt, delta_deg):
        self.propogateEntry(t_sec, dt, delta_deg)
        if energy(self, self.rc[self.index - 1], self.vc[self.index - 1]) < 0:
            return -1.0
        return 1.0

    @ob(calls=['propogateEntry'])
    def hitsTargetApoapsis(self, t_sec, dt, delta_deg, targetApopasisAltitude_km):
        self.propogateEntry(t_sec, dt, delta_deg)
        k = self.index - 1
        GM = self.planetObj.GM
        self.terminal_r = self.rc[k]
        self.terminal_v = self.vc[k]
        self.terminal_g = self.gammac[k]
        self.terminal_E = energy(self, self.rc[k], self.vc[k])
        self.terminal_h = self.rc[k] * self.vc[k] * np.cos(self.gammac[k])
        self.terminal_a = -GM / (2 * self.terminal_E)
        self.terminal_e = np.sqrt(1 + 2 * self.terminal_E * self.terminal_h ** 2 / GM ** 2)
        self.rp = self.terminal_a * (1 + self.terminal_e)
        self.hp = self.rp - self.planetObj.RP
        self.hp_km = self.hp / 1000
        if self.terminal_r - self.planetObj.RP < self.planetObj.h_low:
            return 1.0
        if self.hp_km >= targetApopasisAltitude_km or self.terminal_a < 0:
            return -1.0
        return 1.0

    @ob(calls=['propogateEntry2'])
    def hitsTargetApoapsis2(self, t_sec, dt, delta_deg, targetApopasisAltitude_km):
        self.propogateEntry2(t_sec, dt, delta_deg)
        k = self.index - 1
        a, ra, rp = apses(self, self.rc[k], self.vc[k], self.gammac[k], self.thetac[k], self.phic[k], self.psic[k])
        if self.rc[k] - self.planetObj.RP < self.planetObj.h_low:
            return 1.0
        if (ra - self.planetObj.RP) / 1000 >= targetApopasisAltitude_km or a < 0:
            return -1.0
        return 1.0

    @ob(calls=['hitsTargetApoapsis'])
    def findOverShootLimit(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km):
        return search(self, probe1, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, 180.0, targetApopasisAltitude_km)

    @ob(calls=['hitsTargetApoapsis2'])
    def findOverShootLimit2(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km):
        return search(self, probe2, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, 180.0, targetApopasisAltitude_km)

    @ob(calls=['hitsTargetApoapsis'])
    def findUnderShootLimit(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km):
        return search(self, probe1, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, 0.0, targetApopasisAltitude_km)

    @ob(calls=['hitsTargetApoapsis2'])
    def findUnderShootLimit2(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km):
        return search(self, probe2, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, 0.0, targetApopasisAltitude_km)

    @ob(calls=['findOverShootLimit', 'findUnderShootLimit'])
    def computeTCW(self, t_sec, dt, gamma0_deg_guess_low_os, gamma0_deg_guess_high_os, gamma0_deg_guess_low_us, gamma0_deg_guess_high_us,
                   gamma_deg_tol_os, gamma_deg_tol_us, targetApopasisAltitude_km):
        scratch()
        over = self.findOverShootLimit(t_sec, dt, gamma0_deg_guess_low_os, gamma0_deg_guess_high_os, gamma_deg_tol_os, targetApopasisAltitude_km)
        under = self.findUnderShootLimit(t_sec, dt, gamma0_deg_guess_low_us, gamma0_deg_guess_high_us, gamma_deg_tol_us, targetApopasisAltitude_km)
        return over[0] - under[0]

    @ob(calls=['findOverShootLimit2', 'findUnderShootLimit2'])
    def computeTCW2(self, t_sec, dt, gamma0_deg_guess_low_os, gamma0_deg_guess_high_os, gamma0_deg_guess_low_us, gamma0_deg_guess_high_us,
                    gamma_deg_tol_os, gamma_deg_tol_us, targetApopasisAltitude_km):
        scratch()
        over = self.findOverShootLimit2(t_sec, dt, gamma0_deg_guess_low_os, gamma0_deg_guess_high_os, gamma_deg_tol_os, targetApopasisAltitude_km)
        under = self.findUnderShootLimit2(t_sec, dt, gamma0_deg_guess_low_us, gamma0_deg_guess_high_us, gamma_deg_tol_us, targetApopasisAltitude_km)
        return over[0] - under[0]

    @ob(calls=['hitsTargetApoapsis'])
    def findEFPALimitD(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km):
        return unlifted(self, probe1, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km)

    @ob(calls=['hitsTargetApoapsis2'])
    def findEFPALimitD2(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km):
        return unlifted(self, probe2, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km)

    @ob(calls=['findEFPALimitD'])
    def findUnderShootLimitD(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km):
        scratch()
        ballistic(self, self.beta1 * self.betaRatio)
        return self.findEFPALimitD(t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km)

    @ob(calls=['findEFPALimitD2'])
    def findUnderShootLimitD2(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km):
        scratch()
        ballistic(self, self.beta1 * self.betaRatio)
        return self.findEFPALimitD2(t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km)

    @ob(calls=['findEFPALimitD'])
    def findOverShootLimitD(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km):
        scratch()
        ballistic(self, self.beta1)
        return self.findEFPALimitD(t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km)

    @ob(calls=['findEFPALimitD2'])
    def findOverShootLimitD2(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km):
        scratch()
        ballistic(self, self.beta1)
        return self.findEFPALimitD2(t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km)

    @ob(calls=['findUnderShootLimitD', 'findOverShootLimitD'])
    def computeTCWD(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km):
        scratch()
        under = self.findUnderShootLimitD(t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km)
        over = self.findOverShootLimitD(t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km)
        return over[0] - under[0]

    @ob(calls=['findUnderShootLimitD2', 'findOverShootLimitD2'])
    def computeTCWD2(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km):
        scratch()
        under = self.findUnderShootLimitD2(t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km)
        over = self.findOverShootLimitD2(t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km)
        return over[0] - under[0]

    def compute_ApoapsisAltitudeKm(self, terminal_r, terminal_v, terminal_g, terminal_theta, terminal_phi, terminal_psi):
        a, ra, rp = apses(self, terminal_r, terminal_v, terminal_g, terminal_theta, terminal_phi, terminal_psi)
        return (ra - self.planetObj.RP) / 1000

    def compute_PeriapsisAltitudeKm(self, terminal_r, terminal_v, terminal_g, terminal_theta, terminal_phi, terminal_psi):
        a, ra, rp = apses(self, terminal_r, terminal_v, terminal_g, terminal_theta, terminal_phi, terminal_psi)
        return (rp - self.planetObj.RP) / 1000

    @ob(ranks={'h_step_array': 1, 'density_mes_array': 1})
    def createDensityMeasuredFunction(self, h_step_array, density_mes_array, lowAlt_km, numPoints_lowAlt):
        h = np.delete(h_step_array, 0) * 1000
        d = np.delete(density_mes_array, 0)
        low = h[np.argmin(np.delete(h_step_array, 0))]
        upper = interp1d(h, d, kind='linear', fill_value=(np.max(d), np.min(d)), bounds_error=False)
        H = self.planetObj.scaleHeight(low, upper)
        hl = np.linspace(low - 1000.0, lowAlt_km * 1000, numPoints_lowAlt)
        dl = upper(low) * np.exp((low - hl) / H)
        hh = np.concatenate((h, hl), axis=0)
        dd = np.concatenate((d, dl), axis=0)
        return interp1d(hh, dd, kind='linear', fill_value=(np.max(dd), np.min(dd)), bounds_error=False), low

    def setMaxRollRate(self, maxRollRate):
        self.maxRollRate = maxRollRate

    def psuedoController(self, DeltaCMD_deg_command, Delta_deg_ini, timestep):
        move = DeltaCMD_deg_command - Delta_deg_ini
        limit = self.maxRollRate * timestep
        # facts of arithmetic the valuations do not know; at the limit itself both readings give the same angle
        assume(limit > 0 and move != limit and move != -limit)
        assume(move > 0 or move < limit)
        assume(move < 0 or move > -limit)
        signed(move)
        if np.abs(move) > self.maxRollRate * timestep:
            new = Delta_deg_ini + np.sign(move) * self.maxRollRate * timestep
        else:
            new = Delta_deg_ini + np.sign(move) * np.abs(move)
        return new, new

    def predictApoapsisAltitudeKm_withLiftUp(self, h0_km, theta0_deg, phi0_deg, v0_kms, gamma0_deg, psi0_deg, drange0_km, heatLoad0, t_sec,
                                             dt, delta_deg, density_mes_int):
        return predicted(self, self.propogateEntry_util(h0_km, theta0_deg, phi0_deg, v0_kms, gamma0_deg, psi0_deg, drange0_km, heatLoad0,
                                                        t_sec, dt, delta_deg, density_mes_int))

    def predictApoapsisAltitudeKm_withLiftUp2(self, h0_km, theta0_deg, phi0_deg, v0_kms, gamma0_deg, psi0_deg, drange0_km, heatLoad0, t_sec,
                                              dt, delta_deg, density_mes_int):
        return predicted(self, self.propogateEntry_util2(h0_km, theta0_deg, phi0_deg, v0_kms, gamma0_deg, psi0_deg, drange0_km, heatLoad0,
                                                         t_sec, dt, delta_deg, density_mes_int))

    def predictApoapsisAltitudeKm_afterJettision(self, h0_km, theta0_deg, phi0_deg, v0_kms, gamma0_deg, psi0_deg, drange0_km, heatLoad0,
                                                 t_sec, dt, delta_deg, density_mes_int):
        return predicted(self, self.propogateEntry_utilD(h0_km, theta0_deg, phi0_deg, v0_kms, gamma0_deg, psi0_deg, drange0_km, heatLoad0,
                                                         t_sec, dt, delta_deg, density_mes_int))

    def predictApoapsisAltitudeKm_afterJettision2(self, h0_km, theta0_deg, phi0_deg, v0_kms, gamma0_deg, psi0_deg, drange0_km, heatLoad0,
                                                  t_sec, dt, delta_deg, density_mes_int):
        return predicted(self, self.propogateEntry_utilD2(h0_km, theta0_deg, phi0_deg, v0_kms, gamma0_deg, psi0_deg, drange0_km, heatLoad0,
                                                          t_sec, dt, delta_deg, density_mes_int))

    def setTargetOrbitParams(self, target_peri_km, target_apo_km, target_apo_km_tol):
        self.target_peri_km = target_peri_km
        self.target_apo_km = target_apo_km
        self.target_apo_km_tol = target_apo_km_tol

    def compute_periapsis_raise_DV(self, current_peri_km, current_apo_km, target_peri_km):
        GM = self.planetObj.GM
        ra = self.planetObj.RP + current_apo_km * 1000
        rp1 = self.planetObj.RP + current_peri_km * 1000
        rp2 = self.planetObj.RP + target_peri_km * 1000
        return np.sqrt(2 * GM / ra - 2 * GM / (ra + rp2)) - np.sqrt(2 * GM / ra - 2 * GM / (ra + rp1))

    def compute_apoapsis_raise_DV(self, peri_km_current, apo_km_current, apo_km_target):
        GM = self.planetObj.GM
        rp = self.planetObj.RP + peri_km_current * 1000
        ra1 = self.planetObj.RP + apo_km_current * 1000
        ra2 = self.planetObj.RP + apo_km_target * 1000
        return np.sqrt(2 * GM / rp - 2 * GM / (rp + ra2)) - np.sqrt(2 * GM / rp - 2 * GM / (rp + ra1))

    def setEquilibriumGlideParams(self, Ghdot, Gq, v_switch_kms, lowAlt_km, numPoints_lowAlt, hdot_threshold):
        self.Ghdot = Ghdot
        self.Gq = Gq
        self.v_switch_kms = v_switch_kms
        self.lowAlt_km = lowAlt_km
        self.numPoints_lowAlt = numPoints_lowAlt
        self.hdot_threshold = hdot_threshold

    def setDragEntryPhaseParams(self, v_switch_kms, lowAlt_km, numPoints_lowAlt, hdot_threshold):
        self.v_switch_kms = v_switch_kms
        self.lowAlt_km = lowAlt_km
        self.numPoints_lowAlt = numPoints_lowAlt
        self.hdot_threshold = hdot_threshold

    def makeBasicEntryPlots(self):
        plt.figure()
        panels = [('Altitude, km', self.h_kmc), ('Velocity (km/s)', self.v_kmsc), ('Deceleration (Earth g)', self.acc_net_g),
                  ('Stag. point heat-rate (W/cm2)', self.q_stag_total)]
        for i, (label, y) in enumerate(panels):
            ax = plt.subplot(2, 2, i + 1)
            ax.plot(self.t_minc, y)
            ax.set_xlabel('Time, min')
            ax.set_ylabel(label)
        plt.show()

    @ob(calls=['propogateEntry'])
    def createQPlot(self, t_sec, dt, delta_deg):
        self.propogateEntry(t_sec, dt, delta_deg)
        fig, ax = plt.subplots()
        ax.plot(1e3 * self.h_kmc, 101325 * self.dyn_pres_atm)
        ax.set_xlabel('Altitude, m')
        ax.set_ylabel('Dynamic pressure, Pa ')
        plt.show()
