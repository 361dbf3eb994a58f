import sys; sys.path.insert(0,'/tmp')
from em import mcase
V='vehicle.py'
MC='''
def runMonteCarlo(self, N, mainFolder):
    self._campaign(N, mainFolder, self.propogateGuidedEntry, lambda: max(self.heatload_full))
'''
MC2='''
def runMonteCarlo2(self, N, mainFolder):
    def load():
        total = cumulative_trapezoid(self.q_stag_total_full, self.t_min_full*60, initial=0)
        return max(total)/1e3
    self._campaign(N, mainFolder, self.propogateGuidedEntry2, load)
'''
MX='''
def _draw(self):
    atmfile = rd.choice(self.atmfiles)
    profile = rd.randint(1, self.NMONTE)
    efpa = np.random.normal(self.nominalEFPA, self.EFPA_1sigma_value)
    sigma = np.random.normal(0, self.atmSigmaFactor)
    LD = np.random.normal(self.nominalLD, self.LD_1sigma_value)
    return dict(atmfile=atmfile, profile=profile, efpa=efpa, atmSigma=sigma, LD=LD)

def _campaign(self, N, mainFolder, fly, heatload):
    ref = self.vehicleCopy
    start = [getattr(ref, n + '_ref') for n in ('h0_km', 'theta0_deg', 'phi0_deg', 'v0_kms', 'psi0_deg')]
    names = ('terminal_apoapsis', 'terminal_periapsis', 'periapsis_raise_DV', 'apoapsis_raise_DV')
    peaks = {'acc_net_g_max': lambda: max(self.acc_net_g_full), 'q_stag_max': lambda: max(self.q_stag_total_full),
        'heatload_max': heatload}
    results = {name: np.zeros(N) for name in (*names, *peaks)}
    drange0_km, heatLoad0 = ref.drange0_km_ref, ref.heatLoad0_ref
    os.makedirs(mainFolder)
    for i in range(N):
        sample = self._draw()
        self.LD = sample['LD']
        self.CL = self.LD*self.CD
        height, low, avg, high, pert = self.planetObj.loadMonteCarloDensityFile2(sample['atmfile'], self.heightCol,
            self.densLowCol, self.densAvgCol, self.densHighCol, self.densTotalCol, self.heightInKmFlag)
        self.planetObj.density_int = self.planetObj.loadAtmosphereModel5(height, low, avg, high, pert,
            sample['atmSigma'], self.NPOS, sample['profile'])
        self.setInitialState(*start, sample['efpa'], drange0_km, heatLoad0)
        fly(self.timeStep, self.dt, self.maxTimeSecs)
        for name in names:
            results[name][i] = getattr(self, name)
        for name, peak in peaks.items():
            results[name][i] = peak()
        folder = f'{mainFolder}/#{i + 1}'
        os.makedirs(folder)
        np.savetxt(folder + '/atmfile.txt', np.array([sample['atmfile']]), fmt='%s')
        for name in ('profile', 'efpa', 'atmSigma', 'LD'):
            np.savetxt(f'{folder}/{name}.txt', np.array([sample[name]]))
        for name, attr in (('terminal_apoapsis',)*2, ('apoapsis_error', 'apoapsis_perc_error'), ('terminal_periapsis',)*2,
                ('periapsis_raise_DV',)*2, ('apoapsis_raise_DV',)*2):
            np.savetxt(os.path.join(folder, name + '.txt'), np.array([getattr(self, attr)]))
        for name, values in results.items():
            np.savetxt(f'{mainFolder}/{name}_arr.txt', values)
'''
B={'runMonteCarlo':MC,'runMonteCarlo2':MC2,'+':MX}
P=['Vehicle.runMonteCarlo']
def b(x,y,k='+'):
    assert x in B[k],x
    return dict(B,**{k:B[k].replace(x,y)})
mcase('mc',V,'Vehicle',B,P)
mcase('mc-bad',V,'Vehicle',b("high, pert,\n","high, high,\n"),P,'violation')
mcase('mc-bad2',V,'Vehicle',b("self.CL = self.LD*self.CD","self.CL = self.LD"),P,'violation')
mcase('mc-bad3',V,'Vehicle',b("rd.randint(1, self.NMONTE)","rd.randint(0, self.NMONTE)"),P,'violation')
mcase('mc-bad4',V,'Vehicle',b("('apoapsis_error', 'apoapsis_perc_error')","('apoapsis_error', 'terminal_apoapsis')"),P,'violation')
mcase('mc-bad5',V,'Vehicle',b("sample['atmSigma'], self.NPOS, sample['profile']","sample['atmSigma'], sample['profile'], self.NPOS"),P,'violation')
mcase('mc-list',V,'Vehicle',b("{name: np.zeros(N) for name in (*names, *peaks)}","{name: [0.0]*N for name in (*names, *peaks)}"),P)
mcase('mc-app',V,'Vehicle',dict(B,**{'+':MX.replace("{name: np.zeros(N) for name in (*names, *peaks)}","np.zeros((N, 7))").replace('''        for name in names:
            results[name][i] = getattr(self, name)
        for name, peak in peaks.items():
            results[name][i] = peak()
''','''        results[i] = [getattr(self, name) for name in names] + [peak() for peak in peaks.values()]
''').replace("for name, values in results.items()","for name, values in zip((*names, *peaks), results.T)")}),P)
ORB='''
def compute_ApoapsisAltitudeKm(self, terminal_r, terminal_v, terminal_g, terminal_theta, terminal_phi, terminal_psi):
    return self._exitOrbit(terminal_r, terminal_v, terminal_g, terminal_theta, terminal_phi, terminal_psi)[1]
'''
ORB2=ORB.replace('ApoapsisA','PeriapsisA').replace('[1]','[0]')
OX='''
def _exitOrbit(self, r, v, gamma, theta, phi, psi):
    up = np.array([np.cos(phi)*np.cos(theta), np.cos(phi)*np.sin(theta), np.sin(phi)])
    east = np.array([-np.sin(theta), np.cos(theta), 0])
    north = np.cross(up, east)
    wind = self.planetObj.OMEGA*r*np.cos(phi)
    v_ie = v*np.sin(gamma)*up + (v*np.cos(gamma)*np.cos(psi) + wind)*east + v*np.cos(gamma)*np.sin(psi)*north
    speed = np.linalg.norm(v_ie)
    fpa = np.pi/2 - np.arccos(np.dot(up, v_ie)/speed)
    E = self.computeEnergyScalar(r, speed)
    h = self.computeAngMomScalar(r, speed, fpa)
    a, e = self.computeSemiMajorAxisScalar(E), self.computeEccScalar(h, E)
    return [(a*(1 + s*e) - self.planetObj.RP)/1.0E3 for s in (-1, 1)]
'''
OB={'compute_ApoapsisAltitudeKm':ORB,'compute_PeriapsisAltitudeKm':ORB2,'+':OX}
PO=['compute_ApoapsisAltitudeKm','compute_PeriapsisAltitudeKm']
mcase('orb',V,'Vehicle',OB,PO)
mcase('orb-arcsin',V,'Vehicle',dict(OB,**{'+':OX.replace('np.pi/2 - np.arccos(np.dot(up, v_ie)/speed)','np.arcsin(np.dot(up, v_ie)/speed)')}),PO)
mcase('orb-bad',V,'Vehicle',dict(OB,**{'+':OX.replace('+ wind','- wind')}),PO,'violation')
mcase('orb-bad2',V,'Vehicle',dict(OB,**{'+':OX.replace('(-1, 1)','(1, -1)')}),PO,'violation')
