"""Reference model: guided entry phases (lift and drag modulation) and Monte Carlo campaigns."""
import numpy as np
import copy
import os
import random as rd
from scipy.integrate import cumulative_trapezoid

RAD = np.pi / 180


def diag():
    """scratch values of a cycle left on the object"""
    ignore('h_current_km', 'v_current_kms', 'hddoti', 'hdotref_array')


def curvature(self):
    """altitude acceleration over the cycle, by backward difference, m/s2"""
    rate, t = self.hdot_array, self.t_step_array
    return (rate[-1] - rate[-2]) / (t[-1] * 60 - t[-2] * 60)


def fly(self, second, t_sec, dt, delta):
    if second:
        self.propogateEntry2(t_sec, dt, delta)
    else:
        self.propogateEntry(t_sec, dt, delta)


def qref(self, r, v):
    """dynamic pressure at which three quarters of the lift holds the glide, Pa"""
    P = self.planetObj
    g0 = P.GM / P.RP ** 2
    return -self.mass * g0 / (0.75 * self.CL * self.A) * (1 - v ** 2 / (g0 * r))


def bank_command(self, h, v, gamma):
    """equilibrium glide plus altitude-rate and dynamic-pressure feedback, saturated to [0, 180] deg"""
    P = self.planetObj
    g0 = P.GM / P.RP ** 2
    r = h + P.RP
    q = 0.5 * P.density(h) * v ** 2
    rate = v * np.sin(gamma)
    excess = 1 - v ** 2 / (g0 * r)
    c = self.mass * g0 / (self.CL * q * self.A) * excess - self.Ghdot * rate / q + self.Gq * (q - qref(self, r, v)) / q
    if c > 1.0:
        cmd = 0.0
    elif c < -1.0:
        cmd = np.pi
    else:
        cmd = np.arccos(c)
    return cmd * 180 / np.pi


def predict(self, drag, second, h, theta, phi, v, gamma, psi, drange, heat, horizon, dt):
    if drag:
        if second:
            return self.predictApoapsisAltitudeKm_afterJettision2(h, theta, phi, v, gamma, psi, drange, heat, horizon, dt, 0.0, self.density_mes_int)
        return self.predictApoapsisAltitudeKm_afterJettision(h, theta, phi, v, gamma, psi, drange, heat, horizon, dt, 0.0, self.density_mes_int)
    if second:
        return self.predictApoapsisAltitudeKm_withLiftUp2(h, theta, phi, v, gamma, psi, drange, heat, horizon, dt, 0.0, self.density_mes_int)
    return self.predictApoapsisAltitudeKm_withLiftUp(h, theta, phi, v, gamma, psi, drange, heat, horizon, dt, 0.0, self.density_mes_int)


def entry_phase(self, timeStep, dt, horizon, drag, second):
    diag()
    if drag:
        self.beta = self.beta1
        self.CD = self.mass / (self.beta * self.A)
    self.t_step_array = np.array([0.0])
    self.delta_deg_array = np.array([0.0])
    self.hdot_array = np.array([0.0])
    self.h_step_array = np.array([0.0])
    self.density_mes_array = np.array([0.0])
    self.hddot_array = np.array([0.0])
    self.qref_array = np.array([0.0])
    self.q_array = np.array([0.0])
    self.acc_step_array = np.array([0.0])
    self.acc_drag_array = np.array([0.0])
    fly(self, second, 1.0, dt, 0.0)
    t, h, v, theta, phi, psi, gamma, drange = (self.t_minc, self.h_kmc, self.v_kmsc, self.theta_degc, self.phi_degc, self.psi_degc,
                                               self.gamma_degc, self.drange_kmc)
    load, drg, dyn, stag, q, heat = self.acc_net_g, self.acc_drag_g, self.dyn_pres_atm, self.stag_pres_atm, self.q_stag_total, self.heatload
    current = v[-1]
    known = False
    bank = 0.0
    if drag:
        margin = 1.0
    else:
        margin = 2.0
    while current > self.v_switch_kms:
        h0 = h[-1]
        v0 = v[-1] * 1000
        g0 = gamma[-1] * RAD
        rate = v0 * np.sin(g0)
        if drag:
            cmd = 0.0
        else:
            cmd, bank = self.psuedoController(bank_command(self, h0 * 1000, v0, g0), bank, timeStep)
        self.setInitialState(h0, theta[-1], phi[-1], v[-1], psi[-1], gamma[-1], drange[-1], self.heatload[-1])
        fly(self, second, timeStep, dt, cmd)
        self.t_step_array = np.append(self.t_step_array, t[-1])
        self.delta_deg_array = np.append(self.delta_deg_array, cmd)
        self.hdot_array = np.append(self.hdot_array, rate)
        self.h_step_array = np.append(self.h_step_array, h0)
        self.q_array = np.append(self.q_array, 0.5 * self.planetObj.density(h0 * 1000) * v0 ** 2)
        if not drag:
            self.qref_array = np.append(self.qref_array, qref(self, h0 * 1000 + self.planetObj.RP, v0))
        self.hddot_array = np.append(self.hddot_array, curvature(self))
        self.acc_step_array = np.append(self.acc_step_array, self.acc_net_g[-1])
        self.acc_drag_array = np.append(self.acc_drag_array, self.acc_drag_g[-1])
        t = np.concatenate((t, self.t_minc + t[-1]), axis=0)
        h = np.concatenate((h, self.h_kmc), axis=0)
        v = np.concatenate((v, self.v_kmsc), axis=0)
        theta = np.concatenate((theta, self.theta_degc), axis=0)
        phi = np.concatenate((phi, self.phi_degc), axis=0)
        psi = np.concatenate((psi, self.psi_degc), axis=0)
        gamma = np.concatenate((gamma, self.gamma_degc), axis=0)
        drange = np.concatenate((drange, self.drange_kmc), axis=0)
        load = np.concatenate((load, self.acc_net_g), axis=0)
        drg = np.concatenate((drg, self.acc_drag_g), axis=0)
        dyn = np.concatenate((dyn, self.dyn_pres_atm), axis=0)
        stag = np.concatenate((stag, self.stag_pres_atm), axis=0)
        q = np.concatenate((q, self.q_stag_total), axis=0)
        heat = np.concatenate((heat, self.heatload), axis=0)
        sensed = 2 * self.mass * drg[-1] * self.planetObj.EARTHG / (self.CD * self.A * (0.5 * (v0 + v[-1] * 1000)) ** 2)
        self.density_mes_array = np.append(self.density_mes_array, sensed)
        apo = 0.0
        if rate > self.hdot_threshold:
            if not known:
                self.density_mes_int, self.minAlt = self.createDensityMeasuredFunction(self.h_step_array, self.density_mes_array,
                                                                                       self.lowAlt_km, self.numPoints_lowAlt)
                known = True
            apo = predict(self, drag, second, h[-1], theta[-1], phi[-1], v[-1], gamma[-1], psi[-1], drange[-1], heat[-1], horizon, dt)
        current = v[-1]
        if apo > 0 and apo < self.target_apo_km:
            break
        if np.abs(apo - self.target_apo_km) < self.target_apo_km_tol:
            break
        if h[-1] > self.planetObj.h_skip / 1000 - margin:
            break
    return t, h, v, theta, phi, psi, gamma, drange, load, dyn, stag, q, heat


def keep_eg(self, x):
    (self.t_min_eg, self.h_km_eg, self.v_kms_eg, self.theta_deg_eg, self.phi_deg_eg, self.psi_deg_eg, self.gamma_deg_eg, self.drange_km_eg,
     self.acc_net_g_eg, self.dyn_pres_atm_eg, self.stag_pres_atm_eg, self.q_stag_total_eg, self.heatload_eg) = x


def keep_en(self, x):
    (self.t_min_en, self.h_km_en, self.v_kms_en, self.theta_deg_en, self.phi_deg_en, self.psi_deg_en, self.gamma_deg_en, self.drange_km_en,
     self.acc_net_g_en, self.dyn_pres_atm_en, self.stag_pres_atm_en, self.q_stag_total_en, self.heatload_en) = x


def exit_phase(self, x, timeStep, dt, drag, second):
    diag()
    if drag:
        self.beta = self.beta1 * self.betaRatio
        self.CD = self.mass / (self.beta * self.A)
    t, h, v, theta, phi, psi, gamma, drange, load, dyn, stag, q, heat = x
    self.t_switch = t[-1]
    self.h_switch = h[-1]
    self.v_switch = v[-1]
    self.p_switch = self.delta_deg_array[-1]
    bank = self.delta_deg_array[-1]
    skip = self.planetObj.h_skip
    alt = h[-1]
    while alt < skip / 1000:
        h0 = h[-1]
        rate = v[-1] * 1000 * np.sin(gamma[-1] * RAD)
        if drag:
            cmd = 0.0
        else:
            cmd, bank = self.psuedoController(0.0, bank, timeStep)
        self.setInitialState(h0, theta[-1], phi[-1], v[-1], psi[-1], gamma[-1], drange[-1], heat[-1])
        fly(self, second, timeStep, dt, cmd)
        self.t_step_array = np.append(self.t_step_array, t[-1])
        self.delta_deg_array = np.append(self.delta_deg_array, cmd)
        self.hdot_array = np.append(self.hdot_array, rate)
        self.hddot_array = np.append(self.hddot_array, curvature(self))
        t = np.concatenate((t, self.t_minc + t[-1]), axis=0)
        h = np.concatenate((h, self.h_kmc), axis=0)
        v = np.concatenate((v, self.v_kmsc), axis=0)
        theta = np.concatenate((theta, self.theta_degc), axis=0)
        phi = np.concatenate((phi, self.phi_degc), axis=0)
        psi = np.concatenate((psi, self.psi_degc), axis=0)
        gamma = np.concatenate((gamma, self.gamma_degc), axis=0)
        drange = np.concatenate((drange, self.drange_kmc), axis=0)
        load = np.concatenate((load, self.acc_net_g), axis=0)
        dyn = np.concatenate((dyn, self.dyn_pres_atm), axis=0)
        stag = np.concatenate((stag, self.stag_pres_atm), axis=0)
        q = np.concatenate((q, self.q_stag_total), axis=0)
        heat = np.concatenate((heat, self.heatload), axis=0)
        if drag:
            if h0 * 1000 > skip - 1000:
                break
            if h0 * 1000 < 20000:
                break
        else:
            if h0 * 1000 > skip - 10000:
                break
        alt = h[-1]
    (self.t_min_full, self.h_km_full, self.v_kms_full, self.theta_deg_full, self.phi_deg_full, self.psi_deg_full, self.gamma_deg_full,
     self.drange_km_full, self.acc_net_g_full, self.dyn_pres_atm_full, self.stag_pres_atm_full, self.q_stag_total_full,
     self.heatload_full) = t, h, v, theta, phi, psi, gamma, drange, load, dyn, stag, q, heat
    r = self.planetObj.RP + h[-1] * 1000
    self.terminal_apoapsis = self.compute_ApoapsisAltitudeKm(r, v[-1] * 1000, gamma[-1] * RAD, theta[-1] * RAD, phi[-1] * RAD, psi[-1] * RAD)
    self.terminal_periapsis = self.compute_PeriapsisAltitudeKm(r, v[-1] * 1000, gamma[-1] * RAD, theta[-1] * RAD, phi[-1] * RAD, psi[-1] * RAD)
    self.apoapsis_perc_error = (self.terminal_apoapsis - self.target_apo_km) / self.target_apo_km * 100
    self.periapsis_raise_DV = self.compute_periapsis_raise_DV(self.terminal_periapsis, self.terminal_apoapsis, self.target_peri_km)
    self.apoapsis_raise_DV = self.compute_apoapsis_raise_DV(self.target_peri_km, self.terminal_apoapsis, self.target_apo_km)


def from_eg(self):
    return (self.t_min_eg, self.h_km_eg, self.v_kms_eg, self.theta_deg_eg, self.phi_deg_eg, self.psi_deg_eg, self.gamma_deg_eg, self.drange_km_eg,
            self.acc_net_g_eg, self.dyn_pres_atm_eg, self.stag_pres_atm_eg, self.q_stag_total_eg, self.heatload_eg)


def from_en(self):
    return (self.t_min_en, self.h_km_en, self.v_kms_en, self.theta_deg_en, self.phi_deg_en, self.psi_deg_en, self.gamma_deg_en, self.drange_km_en,
            self.acc_net_g_en, self.dyn_pres_atm_en, self.stag_pres_atm_en, self.q_stag_total_en, self.heatload_en)


class Vehicle:
    def propogateEquilibriumGlide(self, timeStep, dt, maxTimeSecs):
        keep_eg(self, entry_phase(self, timeStep, dt, maxTimeSecs, False, False))

    def propogateEquilibriumGlide2(self, timeStep, dt, maxTimeSecs):
        keep_eg(self, entry_phase(self, timeStep, dt, maxTimeSecs, False, True))

    @ob(calls=['propogateEntry', 'predictApoapsisAltitudeKm_withLiftUp'])
    def propogateExitPhase(self, timeStep, dt, maxTimeSecs):
        exit_phase(self, from_eg(self), timeStep, dt, False, False)

    @ob(calls=['propogateEntry2', 'predictApoapsisAltitudeKm_withLiftUp2'])
    def propogateExitPhase2(self, timeStep, dt, maxTimeSecs):
        exit_phase(self, from_eg(self), timeStep, dt, False, True)

    def propogateEntryPhaseD(self, timeStep, dt, maxTimeSecs):
        keep_en(self, entry_phase(self, timeStep, dt, maxTimeSecs, True, False))

    def propogateEntryPhaseD2(self, timeStep, dt, maxTimeSecs):
        keep_en(self, entry_phase(self, timeStep, dt, maxTimeSecs, True, True))

    @ob(calls=['propogateEntry', 'predictApoapsisAltitudeKm_afterJettision'])
    def propogateExitPhaseD(self, timeStep, dt, maxTimeSecs):
        exit_phase(self, from_en(self), timeStep, dt, True, False)

    @ob(calls=['propogateEntry2', 'predictApoapsisAltitudeKm_afterJettision2'])
    def propogateExitPhaseD2(self, timeStep, dt, maxTimeSecs):
        exit_phase(self, from_en(self), timeStep, dt, True, True)
