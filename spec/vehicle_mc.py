"""Reference model: complete guided entries and Monte Carlo campaigns."""
import numpy as np
import copy
import os
import random as rd
from scipy.integrate import cumulative_trapezoid


def common_setup(self, NPOS, NMONTE, atmfiles, heightCol, heightInKmFlag, nominalEFPA, EFPA_1sigma_value, dt, maxTimeSecs):
    self.NPOS = NPOS
    self.NMONTE = NMONTE
    self.atmfiles = atmfiles
    self.heightCol = heightCol
    self.heightInKmFlag = heightInKmFlag
    self.nominalEFPA = nominalEFPA
    self.EFPA_1sigma_value = EFPA_1sigma_value
    self.dt = dt
    self.maxTimeSecs = maxTimeSecs


def density_columns(self, low, avg, high, total):
    self.densLowCol = low
    self.densAvgCol = avg
    self.densHighCol = high
    self.densTotalCol = total


def campaign(self, N, folder, drag, second, earth):
    """N dispersed entries from the stored reference state; one folder per run, statistics rewritten after each run"""
    start = self.vehicleCopy
    apo = np.zeros(N)
    peri = np.zeros(N)
    dv_peri = np.zeros(N)
    dv_apo = np.zeros(N)
    load = np.zeros(N)
    flux = np.zeros(N)
    heat = np.zeros(N)
    for i in range(N):
        atmfile = rd.choice(self.atmfiles)
        profile = rd.randint(1, self.NMONTE)
        efpa = np.random.normal(self.nominalEFPA, self.EFPA_1sigma_value)
        if drag:
            sigma = np.random.normal(0, 1)
            self.beta1 = np.random.normal(self.nominalbeta1, self.beta1_1sigma_value)
            LD = 0.0
        else:
            sigma = np.random.normal(0, self.atmSigmaFactor)
            LD = np.random.normal(self.nominalLD, self.LD_1sigma_value)
            self.LD = LD
            self.CL = LD * self.CD
        P = self.planetObj
        if earth:
            h, low, avg, high, pert = P.loadMonteCarloDensityFile3(atmfile, self.heightCol, self.densAvgCol, self.densSD_percCol,
                                                                   self.densTotalCol, self.heightInKmFlag)
        else:
            h, low, avg, high, pert = P.loadMonteCarloDensityFile2(atmfile, self.heightCol, self.densLowCol, self.densAvgCol, self.densHighCol,
                                                                   self.densTotalCol, self.heightInKmFlag)
        P.density_int = P.loadAtmosphereModel5(h, low, avg, high, pert, sigma, self.NPOS, profile)
        self.setInitialState(start.h0_km_ref, start.theta0_deg_ref, start.phi0_deg_ref, start.v0_kms_ref, start.psi0_deg_ref, efpa,
                             start.drange0_km_ref, start.heatLoad0_ref)
        if drag and second:
            self.propogateGuidedEntryD2(self.timeStepEntry, self.timeStepExit, self.dt, self.maxTimeSecs)
        elif drag:
            self.propogateGuidedEntryD(self.timeStepEntry, self.timeStepExit, self.dt, self.maxTimeSecs)
        elif second:
            self.propogateGuidedEntry2(self.timeStep, self.dt, self.maxTimeSecs)
        else:
            self.propogateGuidedEntry(self.timeStep, self.dt, self.maxTimeSecs)
        apo[i] = self.terminal_apoapsis
        peri[i] = self.terminal_periapsis
        dv_peri[i] = self.periapsis_raise_DV
        dv_apo[i] = self.apoapsis_raise_DV
        load[i] = max(self.acc_net_g_full)
        flux[i] = max(self.q_stag_total_full)
        if second:
            heat[i] = max(cumulative_trapezoid(self.q_stag_total_full, self.t_min_full * 60, initial=0)) / 1e3
        else:
            heat[i] = max(self.heatload_full)
        run = folder + '/' + '#' + str(i + 1) + '/'
        np.savetxt(run + 'atmfile.txt', np.array([atmfile]), fmt='%s')
        np.savetxt(run + 'profile.txt', np.array([profile]))
        np.savetxt(run + 'efpa.txt', np.array([efpa]))
        np.savetxt(run + 'atmSigma.txt', np.array([sigma]))
        np.savetxt(run + 'LD.txt', np.array([LD]))
        np.savetxt(run + 'terminal_apoapsis.txt', np.array([self.terminal_apoapsis]))
        np.savetxt(run + 'apoapsis_error.txt', np.array([self.apoapsis_perc_error]))
        np.savetxt(run + 'terminal_periapsis.txt', np.array([self.terminal_periapsis]))
        np.savetxt(run + 'periapsis_raise_DV.txt', np.array([self.periapsis_raise_DV]))
        np.savetxt(run + 'apoapsis_raise_DV.txt', np.array([self.apoapsis_raise_DV]))
        np.savetxt(folder + '/' + 'terminal_apoapsis_arr.txt', apo)
        np.savetxt(folder + '/' + 'terminal_periapsis_arr.txt', peri)
        np.savetxt(folder + '/' + 'periapsis_raise_DV_arr.txt', dv_peri)
        np.savetxt(folder + '/' + 'apoapsis_raise_DV_arr.txt', dv_apo)
        np.savetxt(folder + '/' + 'acc_net_g_max_arr.txt', load)
        np.savetxt(folder + '/' + 'q_stag_max_arr.txt', flux)
        np.savetxt(folder + '/' + 'heatload_max_arr.txt', heat)


class Vehicle:
    def setDragModulationVehicleParams(self, beta1, betaRatio):
        self.beta1 = beta1
        self.betaRatio = betaRatio

    @ob(calls=['propogateEquilibriumGlide', 'propogateExitPhase'])
    def propogateGuidedEntry(self, timeStep, dt, maxTimeSecs):
        self.propogateEquilibriumGlide(timeStep, dt, maxTimeSecs)
        self.propogateExitPhase(timeStep, dt, maxTimeSecs)

    @ob(calls=['propogateEquilibriumGlide2', 'propogateExitPhase2'])
    def propogateGuidedEntry2(self, timeStep, dt, maxTimeSecs):
        self.propogateEquilibriumGlide2(timeStep, dt, maxTimeSecs)
        self.propogateExitPhase2(timeStep, dt, maxTimeSecs)

    @ob(calls=['propogateEntryPhaseD', 'propogateExitPhaseD'])
    def propogateGuidedEntryD(self, timeStepEntry, timeStepExit, dt, maxTimeSecs):
        self.propogateEntryPhaseD(timeStepEntry, dt, maxTimeSecs)
        self.propogateExitPhaseD(timeStepExit, dt, maxTimeSecs)

    @ob(calls=['propogateEntryPhaseD2', 'propogateExitPhaseD2'])
    def propogateGuidedEntryD2(self, timeStepEntry, timeStepExit, dt, maxTimeSecs):
        self.propogateEntryPhaseD2(timeStepEntry, dt, maxTimeSecs)
        self.propogateExitPhaseD2(timeStepExit, dt, maxTimeSecs)

    def setupMonteCarloSimulation(self, NPOS, NMONTE, atmfiles, heightCol, densLowCol, densAvgCol, densHighCol, densTotalCol, heightInKmFlag,
                                  nominalEFPA, EFPA_1sigma_value, nominalLD, LD_1sigma_value, timeStep, dt, maxTimeSecs, atmSigmaFactor=1):
        common_setup(self, NPOS, NMONTE, atmfiles, heightCol, heightInKmFlag, nominalEFPA, EFPA_1sigma_value, dt, maxTimeSecs)
        density_columns(self, densLowCol, densAvgCol, densHighCol, densTotalCol)
        self.nominalLD = nominalLD
        self.LD_1sigma_value = LD_1sigma_value
        self.timeStep = timeStep
        self.atmSigmaFactor = atmSigmaFactor
        self.vehicleCopy = copy.deepcopy(self)

    def setupMonteCarloSimulationD(self, NPOS, NMONTE, atmfiles, heightCol, densLowCol, densAvgCol, densHighCol, densTotalCol, heightInKmFlag,
                                   nominalEFPA, EFPA_1sigma_value, nominalbeta1, beta1_1sigma_value, timeStepEntry, timeStepExit, dt, maxTimeSecs):
        common_setup(self, NPOS, NMONTE, atmfiles, heightCol, heightInKmFlag, nominalEFPA, EFPA_1sigma_value, dt, maxTimeSecs)
        density_columns(self, densLowCol, densAvgCol, densHighCol, densTotalCol)
        self.nominalbeta1 = nominalbeta1
        self.beta1_1sigma_value = beta1_1sigma_value
        self.timeStepEntry = timeStepEntry
        self.timeStepExit = timeStepExit
        self.vehicleCopy = copy.deepcopy(self)

    def setupMonteCarloSimulationD_Earth(self, NPOS, NMONTE, atmfiles, heightCol, densAvgCol, densSD_percCol, densTotalCol, heightInKmFlag,
                                         nominalEFPA, EFPA_1sigma_value, nominalbeta1, beta1_1sigma_value, timeStepEntry, timeStepExit, dt,
                                         maxTimeSecs):
        common_setup(self, NPOS, NMONTE, atmfiles, heightCol, heightInKmFlag, nominalEFPA, EFPA_1sigma_value, dt, maxTimeSecs)
        self.densAvgCol = densAvgCol
        self.densSD_percCol = densSD_percCol
        self.densTotalCol = densTotalCol
        self.nominalbeta1 = nominalbeta1
        self.beta1_1sigma_value = beta1_1sigma_value
        self.timeStepEntry = timeStepEntry
        self.timeStepExit = timeStepExit
        self.vehicleCopy = copy.deepcopy(self)

    @ob(calls=['propogateGuidedEntry'], types={'self.vehicleCopy': 'Vehicle'}, modular_only=True)
    def runMonteCarlo(self, N, mainFolder):
        campaign(self, N, mainFolder, False, False, False)

    @ob(calls=['propogateGuidedEntry2'], types={'self.vehicleCopy': 'Vehicle'}, modular_only=True)
    def runMonteCarlo2(self, N, mainFolder):
        campaign(self, N, mainFolder, False, True, False)

    @ob(calls=['propogateGuidedEntryD'], types={'self.vehicleCopy': 'Vehicle'}, modular_only=True)
    def runMonteCarloD(self, N, mainFolder):
        campaign(self, N, mainFolder, True, False, False)

    @ob(calls=['propogateGuidedEntryD2'], types={'self.vehicleCopy': 'Vehicle'}, modular_only=True)
    def runMonteCarloD2(self, N, mainFolder):
        campaign(self, N, mainFolder, True, True, False)

    @ob(calls=['propogateGuidedEntryD'], types={'self.vehicleCopy': 'Vehicle'}, modular_only=True)
    def runMonteCarloD_Earth(self, N, mainFolder):
        campaign(self, N, mainFolder, True, False, True)
