"""Reference model: planetary constants, atmosphere lookup, scaling, dispersed atmospheres.

Read by the analysis, never executed."""
import numpy as np
import matplotlib.pyplot as plt
from scipy.interpolate import interp1d
from scipy.integrate import cumulative_trapezoid

# ID: RP, OMEGA, GM, rho0, CPCV, J2, J3, a0 deg, d0 deg, h_thres, h_skip, h_trap, h_low
TABLE = [
    ('VENUS', 6051.8e3, -2.99237e-7, 3.248599e14, 64.79, 1.289, 4.458e-6, 0, 272.76, 67.16, 180e3, 180e3, 10e3, 60e3),
    ('EARTH', 6371e3, 7.272205e-5, 3.986004e14, 1.225, 1.4, 1082.6e-6, -2.532e-6, 0, 90, 120e3, 120e3, 10e3, 50e3),
    ('MARS', 3389.5e3, 7.088253e-5, 4.282837e13, 0.02, 1.289, 1960.45e-6, 31.5e-6, 317.68143, 52.8865, 120e3, 120e3, 10e3, 50e3),
    ('JUPITER', 69911e3, 1.758518e-4, 1.26686534e17, 0.16288, 1.4348, 14736e-6, 0, 268.056595, 64.495303, 1000e3, 1000e3, 50e3, None),
    ('SATURN', 58232e3, 1.6379e-4, 3.7931187e16, 0.19847, 1.4348, 16298e-6, 0, 40.589, 83.537, 1000e3, 1000e3, 50e3, None),
    ('TITAN', 2575e3, 4.545128e-6, 8.978e12, 5.435, 1.4, 31.808e-6, -1.88e-6, 39.4827, 83.4279, 1000e3, 1000e3, 30e3, 300e3),
    ('URANUS', 25559e3, -1.01237e-4, 5.793939e15, 0.3788, 1.45, 3343.3e-6, 0, 257.311, -15.175, 1500e3, 1500e3, 10e3, 10e3),
    ('NEPTUNE', 24622e3, 1.083385e-4, 6.8365299e15, 0.44021, 1.45, 3411e-6, 0, 299.36, 43.36, 1000e3, 1000e3, 10e3, 100e3),
]


def deg(x):
    return x * np.pi / 180.0


def piece(a, NPOS, i):
    return a[int((i - 1) * NPOS):int(i * NPOS)]


def lin(h, d):
    return interp1d(h, d, kind='linear', fill_value=0.0, bounds_error=False)


class Planet:
    def __init__(self, planetID):
        known = False
        for (name, RP, OM, GM, rho0, cpcv, J2, J3, a0, d0, hthr, hskip, htrap, hlow) in TABLE:
            if planetID == name:
                known = True
                self.ID = name
                self.RP = RP
                self.OMEGA = OM
                self.GM = GM
                self.rho0 = rho0
                self.CPCV = cpcv
                self.J2 = J2
                self.J3 = J3
                self.a0 = deg(a0)
                self.d0 = deg(d0)
                self.h_thres = hthr
                self.h_skip = hskip
                self.h_trap = htrap
                if hlow is not None:
                    self.h_low = hlow
        if not known:
            raise ValueError
        self.Vref = (self.GM / self.RP) ** 0.5
        self.tau = self.RP / self.Vref
        self.OMEGAbar = self.OMEGA * self.tau
        self.EARTHG = 9.80665
        self.ATM = None
        self.ATM_height = None
        self.ATM_temp = None
        self.ATM_pressure = None
        self.ATM_density = None
        self.ATM_sonic = None
        self.temp_int = None
        self.pressure_int = None
        self.density_int = None
        self.sonic_int = None

    @staticmethod
    def _prof(h, y, kind, fill):
        return interp1d(h, y, kind=kind, fill_value=fill, bounds_error=False)

    def loadAtmosphereModel(self, datfile, heightCol, tempCol, presCol, densCol, intType='cubic', heightInKmFlag=False):
        data = np.loadtxt(datfile)
        h = data[:, heightCol]
        if heightInKmFlag is True:
            h = h * 1000.0
        p = data[:, presCol]
        d = data[:, densCol]
        self.ATM = data
        self.ATM_height = h
        self.ATM_temp = data[:, tempCol]
        self.ATM_pressure = p
        self.ATM_density = d
        self.ATM_sonic = (self.CPCV * p / d) ** 0.5
        self.temp_int = interp1d(h, self.ATM_temp, kind=intType, fill_value=0.0, bounds_error=False)
        self.pressure_int = interp1d(h, p, kind=intType, fill_value=0.0, bounds_error=False)
        self.density_int = interp1d(h, d, kind=intType, fill_value=0.0, bounds_error=False)
        self.sonic_int = interp1d(h, self.ATM_sonic, kind=intType, fill_value=1e20, bounds_error=False)

    def density(self, h):
        if h < 0:
            return self.rho0
        if h > self.h_thres:
            return 0
        return self.density_int(h)

    @ob(ranks={'h': 1})
    def tempvectorized(self, h):
        return self.temp_int(h)

    @ob(ranks={'h': 1})
    def presvectorized(self, h):
        return self.pressure_int(h)

    @ob(ranks={'h': 1})
    def densityvectorized(self, h):
        return self.density_int(h)

    @ob(ranks={'h': 1})
    def avectorized(self, h):
        return self.sonic_int(h)

    def rho(self, r, theta, phi):
        return self.density(r - self.RP)

    @ob(ranks={'r': 1})
    def rhovectorized(self, r):
        return self.density_int(r - self.RP)

    @ob(ranks={'r': 1})
    def pressurevectorized(self, r):
        return self.pressure_int(r - self.RP)

    @ob(ranks={'r': 1})
    def temperaturevectorized(self, r):
        return self.temp_int(r - self.RP)

    @ob(ranks={'r': 1})
    def sonicvectorized(self, r):
        return self.sonic_int(r - self.RP)

    def rbar(self, r):
        return r / self.RP

    def rho2(self, rbar, theta, phi):
        return self.density(rbar * self.RP - self.RP)

    def rhobar(self, rbar, theta, phi):
        return self.density(rbar * self.RP - self.RP) / self.rho0

    def computeR(self, h):
        return self.RP + h

    def computeH(self, r):
        return r - self.RP

    def nonDimState(self, r, theta, phi, v, psi, gamma, drange):
        return r / self.RP, theta, phi, v / self.Vref, psi, gamma, drange / self.RP

    @ob(ranks={'tbar': 1, 'rbar': 1, 'theta': 1, 'phi': 1, 'vbar': 1, 'psi': 1, 'gamma': 1, 'drangebar': 1})
    def dimensionalize(self, tbar, rbar, theta, phi, vbar, psi, gamma, drangebar):
        return tbar * self.tau, rbar * self.RP, theta, phi, vbar * self.Vref, psi, gamma, drangebar * self.RP

    def scaleHeight(self, h, density_int):
        hs = np.linspace(0, self.h_skip, int(self.h_skip / 1000.0))
        ds = self.density_int(hs)
        k = int(h / 1000.0)
        column = cumulative_trapezoid(ds[k:], hs[k:], initial=0)[-1]
        return column / (self.density(h) - self.density(self.h_skip))

    def loadMonteCarloDensityFile2(self, atmfile, heightCol, densLowCol, densAvgCol, densHighCol, densTotalCol,
                                   heightInKmFlag=False):
        data = np.loadtxt(atmfile)
        scale = 1.0
        if heightInKmFlag is True:
            scale = 1000.0
        avg = data[:, densAvgCol]
        return data[:, heightCol] * scale, data[:, densLowCol], avg, data[:, densHighCol], data[:, densTotalCol] - avg

    def loadMonteCarloDensityFile3(self, atmfile, heightCol, densAvgCol, densSD_percCol, densTotalCol, heightInKmFlag=False):
        data = np.loadtxt(atmfile)
        scale = 1.0
        if heightInKmFlag is True:
            scale = 1000.0
        avg = data[:, densAvgCol]
        sd = avg * data[:, densSD_percCol] / 100.0
        return data[:, heightCol] * scale, avg - sd, avg, avg + sd, data[:, densTotalCol] - avg

    def pSigmaFunc(self, x):
        return 1.0 if x >= 0 else 0.0

    def nSigmaFunc(self, x):
        return 0.0 if x >= 0 else 1.0

    @ob(ranks={'ATM_height': 1, 'ATM_density_low': 1, 'ATM_density_avg': 1, 'ATM_density_high': 1, 'ATM_density_pert': 1})
    def loadAtmosphereModel5(self, ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, ATM_density_pert, sigmaValue, NPOS, i):
        lo = piece(ATM_density_low, NPOS, i)
        av = piece(ATM_density_avg, NPOS, i)
        hi = piece(ATM_density_high, NPOS, i)
        if sigmaValue >= 0:
            d = av + sigmaValue * (hi - av)
        else:
            d = av + sigmaValue * (av - lo)
        return lin(piece(ATM_height, NPOS, i), d + piece(ATM_density_pert, NPOS, i))

    @ob(ranks={'ATM_height': 1, 'ATM_density_low': 1, 'ATM_density_avg': 1, 'ATM_density_high': 1})
    def loadAtmosphereModel6(self, ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, sigmaValue, NPOS, i):
        lo = piece(ATM_density_low, NPOS, i)
        av = piece(ATM_density_avg, NPOS, i)
        hi = piece(ATM_density_high, NPOS, i)
        if sigmaValue >= 0:
            d = av + sigmaValue * (hi - av)
        else:
            d = av + sigmaValue * (av - lo)
        return lin(piece(ATM_height, NPOS, i), d)

    def checkAtmProfiles(self, h0=0.0, dh=1000.0):
        h = np.linspace(h0, self.h_thres, int(self.h_thres / dh))
        fig, ((a, b), (c, d)) = plt.subplots(2, 2)
        a.plot(self.temp_int(h), h / 1000)
        a.set_xlabel('Temperature, K')
        b.plot(self.pressure_int(h) / 1000, h / 1000)
        b.set_xlabel('Pressure, kPa')
        b.set_xscale('log')
        c.plot(self.density_int(h), h / 1000)
        c.set_xlabel('Density, kg/m3')
        c.set_xscale('log')
        d.plot(self.sonic_int(h), h / 1000)
        d.set_xlabel('Speed of Sound, m/s')
        for ax in (a, b, c, d):
            ax.set_ylabel('Altitude, km')
        plt.show()
