import sys; sys.path.insert(0,'/tmp')
from em import mcase
P='planet.py'
LOAD='''
def loadAtmosphereModel(self, datfile, heightCol, tempCol, presCol, densCol, intType='cubic', heightInKmFlag=False):
    self.ATM = table = np.loadtxt(datfile)
    scale = 1E3 if heightInKmFlag is True else 1.0
    self.ATM_height = scale*table[:, heightCol]
    self.ATM_temp, self.ATM_pressure, self.ATM_density = (table[:, c] for c in (tempCol, presCol, densCol))
    self.ATM_sonic = (self.CPCV*self.ATM_pressure/self.ATM_density)**0.5
    self.temp_int = self._profile(self.ATM_temp, intType)
    self.pressure_int = self._profile(self.ATM_pressure, intType)
    self.density_int = self._profile(self.ATM_density, intType)
    self.sonic_int = self._profile(self.ATM_sonic, intType, outside=1E20)
'''
LX='''
def _profile(self, values, kind, outside=0.0):
    return interp1d(self.ATM_height, values, kind=kind, fill_value=outside, bounds_error=False)
'''
mcase('load',P,'Planet',{'loadAtmosphereModel':LOAD,'+':LX},['planet:'])
mcase('load-bad',P,'Planet',{'loadAtmosphereModel':LOAD.replace(', outside=1E20',''),'+':LX},['planet:'],'violation')
mcase('load-loop',P,'Planet',{'loadAtmosphereModel':'''
def loadAtmosphereModel(self, datfile, heightCol, tempCol, presCol, densCol, intType='cubic', heightInKmFlag=False):
    self.ATM = np.loadtxt(datfile)
    columns = {'height': heightCol, 'temp': tempCol, 'pressure': presCol, 'density': densCol}
    for name, col in columns.items():
        setattr(self, 'ATM_' + name, self.ATM[:, col])
    if heightInKmFlag is True:
        self.ATM_height = self.ATM_height*1000.0
    self.ATM_sonic = np.sqrt(self.CPCV*self.ATM_pressure/self.ATM_density)
    for name in ('temp', 'pressure', 'density', 'sonic'):
        outside = 1.0E20 if name == 'sonic' else 0.0
        setattr(self, name + '_int', interp1d(self.ATM_height, getattr(self, 'ATM_' + name), kind=intType, bounds_error=False, fill_value=outside))
'''},['planet:'])
mcase('load-unpack',P,'Planet',{'loadAtmosphereModel':'''
def loadAtmosphereModel(self, datfile, heightCol, tempCol, presCol, densCol, intType='cubic', heightInKmFlag=False):
    self.ATM = np.loadtxt(datfile)
    h, T, p, d = self.ATM[:, [heightCol, tempCol, presCol, densCol]].T
    self.ATM_height = h*1000.0 if heightInKmFlag is True else h
    self.ATM_temp, self.ATM_pressure, self.ATM_density = T, p, d
    self.ATM_sonic = np.sqrt(self.CPCV*p/d)
    options = {'kind': intType, 'bounds_error': False}
    self.temp_int = interp1d(self.ATM_height, T, fill_value=0.0, **options)
    self.pressure_int = interp1d(self.ATM_height, p, fill_value=0.0, **options)
    self.density_int = interp1d(self.ATM_height, d, fill_value=0.0, **options)
    self.sonic_int = interp1d(self.ATM_height, self.ATM_sonic, fill_value=1.0E20, **options)
'''},['planet:'])
V={'tempvectorized':'''
def tempvectorized(self, h):
    return np.asarray(self.temp_int(h), dtype=float)
''','presvectorized':'''
def presvectorized(self, h):
    return self._evaluate(self.pressure_int, h)
''','avectorized':'''
def avectorized(self, h):
    return self._evaluate(self.sonic_int, np.asarray(h))
''','pressurevectorized':'''
def pressurevectorized(self, r):
    return self._evaluate(self.pressure_int, r - self.RP)
''','sonicvectorized':'''
def sonicvectorized(self, r):
    h = np.subtract(r, self.RP)
    return np.array([self.sonic_int(x) for x in h])
''','+':'''
@staticmethod
def _evaluate(profile, h):
    out = np.empty_like(h, dtype=float)
    out[...] = profile(h)
    return out
'''}
mcase('vec',P,'Planet',V,['planet:'])
V2=dict(V); V2['pressurevectorized']=V['pressurevectorized'].replace('self.pressure_int, r','self.temp_int, r')
mcase('vec-bad',P,'Planet',V2,['planet:'],'violation')
MC={'loadMonteCarloDensityFile2':'''
def loadMonteCarloDensityFile2(self, atmfile, heightCol, densLowCol, densAvgCol, densHighCol, densTotalCol, heightInKmFlag=False):
    table = np.loadtxt(atmfile)
    height = self._height(table, heightCol, heightInKmFlag)
    low, avg, high, total = [table[:, c] for c in (densLowCol, densAvgCol, densHighCol, densTotalCol)]
    return height, low, avg, high, total - avg
''','loadMonteCarloDensityFile3':'''
def loadMonteCarloDensityFile3(self, atmfile, heightCol, densAvgCol, densSD_percCol, densTotalCol, heightInKmFlag=False):
    table = np.loadtxt(atmfile)
    avg = table[:, densAvgCol]
    sd = 0.01*table[:, densSD_percCol]
    low, high = avg*(1 - sd), avg*(1 + sd)
    return self._height(table, heightCol, heightInKmFlag), low, avg, high, table[:, densTotalCol] - avg
''','pSigmaFunc':'''
def pSigmaFunc(self, x):
    return float(x >= 0)
''','nSigmaFunc':'''
def nSigmaFunc(self, x):
    return 1.0 - self.pSigmaFunc(x)
''','loadAtmosphereModel6':'''
def loadAtmosphereModel6(self, ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, sigmaValue, NPOS, i):
    block = slice(int((i - 1)*NPOS), int(i*NPOS))
    avg = ATM_density_avg[block]
    if sigmaValue >= 0:
        sigma = ATM_density_high[block] - avg
    else:
        sigma = avg - ATM_density_low[block]
    return interp1d(ATM_height[block], avg + sigmaValue*sigma, fill_value=0.0, bounds_error=False)
''','+':'''
def _height(self, table, col, in_km):
    h = table[:, col]
    return h*1000.0 if in_km is True else h
'''}
mcase('mc',P,'Planet',MC,['planet:'])
M2=dict(MC); M2['loadAtmosphereModel6']=MC['loadAtmosphereModel6'].replace("avg - ATM_density_low[block]","ATM_density_low[block] - avg")
mcase('mc-bad',P,'Planet',M2,['planet:'],'violation')
mcase('mc-nan',P,'Planet',{'nSigmaFunc':'''
def nSigmaFunc(self, x):
    return np.where(x < 0, 1.0, 0.0)
''','pSigmaFunc':'''
def pSigmaFunc(self, x):
    return np.heaviside(x, 1.0)
'''},['planet:'])
CK='''
def checkAtmProfiles(self, h0=0.0, dh=1000.0):
    altitude = np.linspace(h0, self.h_thres, int(self.h_thres/dh))
    km = altitude/1000
    panels = [
        (self.tempvectorized(altitude), 'Temperature, K', False),
        (self.presvectorized(altitude)/1000, 'Pressure, kPa', True),
        (self.densityvectorized(altitude), 'Density, kg/m3', True),
        (self.avectorized(altitude), 'Speed of Sound, m/s', False),
    ]
    rcParams['font.family'] = 'sans-serif'
    rcParams['font.sans-serif'] = ['DejaVu Sans']
    fig, axes = plt.subplots(2, 2, figsize=(6.5, 6.5))
    for ax, (data, label, logscale) in zip(axes.flat, panels):
        ax.plot(data, km, 'r-', linewidth=2.0)
        ax.set_xlabel(label, fontsize=12)
        ax.set_ylabel('Altitude, km', fontsize=12)
        if logscale:
            ax.set_xscale('log')
        ax.tick_params(labelsize=12)
        ax.grid('on', linestyle='-', linewidth=0.2)
    fig.tight_layout()
    plt.show()
'''
mcase('ck',P,'Planet',{'checkAtmProfiles':CK},['planet:Planet.checkAtm'])
mcase('ck-bad',P,'Planet',{'checkAtmProfiles':CK.replace("self.presvectorized(altitude)/1000","self.presvectorized(altitude)")},['planet:Planet.checkAtm'],'violation')
CK2=CK.replace("zip(axes.flat, panels)","zip([a for row in axes for a in row], panels)")
mcase('ck2',P,'Planet',{'checkAtmProfiles':CK2},['planet:Planet.checkAtm'])
CK3=CK.replace("    fig, axes = plt.subplots(2, 2, figsize=(6.5, 6.5))\n    for ax, (data","    fig = plt.figure(figsize=(6.5, 6.5))\n    for n, (data").replace("zip(axes.flat, panels):\n","enumerate(panels, start=1):\n        ax = fig.add_subplot(2, 2, n)\n")
mcase('ck3',P,'Planet',{'checkAtmProfiles':CK3},['planet:Planet.checkAtm'])
