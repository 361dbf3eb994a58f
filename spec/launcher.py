"""Reference model: launch vehicle performance and interplanetary trajectory tables."""
import numpy as np
import matplotlib.pyplot as plt
import pandas as pd
from scipy.interpolate import interp1d


class Launcher:
    def __init__(self, launcherID, datafile, kind='linear'):
        self.ID = launcherID
        self.XY = np.loadtxt(datafile, delimiter=',')
        self.f = interp1d(self.XY[:, 0], self.XY[:, 1], kind=kind, fill_value=0, bounds_error=False)

    def launchMass(self, C3):
        return self.f(C3)


class Interplanetary:
    def __init__(self, ID, datafile, sheet_name, Lcdate_format):
        self.ID = ID
        self.datafile = datafile
        self.sheet_name = sheet_name
        self.df = pd.read_excel(datafile, sheet_name=sheet_name)
        self.Lcdate = pd.to_datetime(list(map(str, self.df['Lcdate'].values)), format=Lcdate_format)
        self.C3 = self.df['LC3']
        self.TOF = self.df['TOF']
        self.Avinf = self.df['Avinf']

    @ob(types={'launcherObj': 'Launcher'})
    def compute_launch_capability(self, launcherObj):
        return launcherObj.f(self.C3)

    @ob(types={'launcherObj': 'Launcher'})
    def plot_launch_mass_vs_launch_date(self, launcherObj):
        m = launcherObj.f(self.C3)
        plt.figure()
        plt.plot(self.Lcdate, m)
        plt.title(self.ID + ' : ' + launcherObj.ID)
        plt.xlabel('Launch Year')
        plt.ylabel('Launch capability, kg')
        _save(self.ID + '_' + launcherObj.ID + '_launch_mass_vs_launch_date')

    def plot_TOF_vs_launch_date(self):
        plt.figure()
        plt.plot(self.Lcdate, self.TOF)
        plt.title(self.ID)
        plt.xlabel('Launch Year')
        plt.ylabel('TOF, years')
        _save(self.ID + '_TOF_vs_launch_date')

    def plot_Avinf_vs_launch_date(self):
        plt.figure()
        plt.plot(self.Lcdate, self.Avinf)
        plt.title(self.ID)
        plt.xlabel('Launch Year')
        plt.ylabel(r'Arrival $V_{\infty}$, km/s')
        _save(self.ID + '_Avinf_vs_launch_date')

    @ob(types={'launcherObj': 'Launcher'})
    def plot_Avinf_vs_launch_date_with_launch_mass_colorbar(self, launcherObj, scale=20):
        plt.figure()
        plt.scatter(self.Lcdate, self.Avinf, c=launcherObj.f(self.C3))
        bar = plt.colorbar()
        bar.set_label('Launch capability, kg')
        plt.title(self.ID)
        plt.xlabel('Launch Year')
        plt.ylabel(r'Arrival $V_{\infty}$, km/s')
        _save(self.ID + '_Avinf_vs_launch_date_launch_mass_colorbar')

    @ob(types={'launcherObj': 'Launcher'})
    def plot_launch_mass_vs_TOF(self, launcherObj):
        plt.figure()
        plt.plot(self.TOF, launcherObj.f(self.C3))
        plt.title(self.ID + ' : ' + launcherObj.ID)
        plt.xlabel('TOF, years')
        plt.ylabel('Launch capability, kg')
        _save(self.ID + '_' + launcherObj.ID + '_launch_mass_vs_TOF')

    @ob(types={'launcherObj': 'Launcher'})
    def plot_launch_mass_vs_TOF_with_vinf_colorbar(self, launcherObj, scale=20):
        plt.figure()
        plt.scatter(self.TOF, launcherObj.f(self.C3), c=self.Avinf)
        bar = plt.colorbar()
        bar.set_label(r'$V_{\infty}$, km/s')
        plt.title(self.ID + ' : ' + launcherObj.ID)
        plt.xlabel('TOF, years')
        plt.ylabel('Launch capability, kg')
        _save(self.ID + '_launch_mass_vs_TOF_Avinf_colorbar')


def _save(name):
    for ext in ('.png', '.pdf', '.eps'):
        plt.savefig('../plots/' + name + ext)
    plt.show()
