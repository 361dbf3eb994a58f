import sys; sys.path.insert(0,'/tmp')
from em import mcase
I=('interplanetary.py','Interplanetary')
V=('vehicle.py','Vehicle')
HELP='''
def _frame(self, ax):
    for side, axis in (('x', ax.xaxis), ('y', ax.yaxis)):
        axis.set_ticks_position('both')
        axis.set_tick_params(direction='in', which='both')
        axis.set_tick_params(width=2, length=8)
        axis.set_tick_params(width=1, length=6, which='minor')
        axis.grid(which='major', color='k', linestyle='dotted', linewidth=0.5)
    for spine in ax.spines.values():
        spine.set_linewidth(2)

def _save(self, stem):
    base = os.path.join('..', 'plots', '_'.join([self.ID, stem]))
    for ext in ('png', 'pdf', 'eps'):
        plt.savefig('%s.%s' % (base, ext), dpi=300, bbox_inches='tight')
'''
HELP2=HELP.replace("os.path.join('..', 'plots', '_'.join([self.ID, stem]))","'../plots/{}_{}'.format(self.ID, stem)")
tof='''
def plot_TOF_vs_launch_date(self):
    fig, ax = plt.subplots(figsize=(8, 6))
    ax.plot(self.Lcdate, self.TOF, 'go')
    ax.set(title=self.ID, xlabel=r'Launch Year', ylabel="TOF, years")
    ax.tick_params(labelsize=14)
    ax.legend(loc='upper right', fontsize=12, framealpha=0.8)
    self._frame(ax)
    self._save('TOF_vs_launch_date')
    plt.show()
'''
mcase('ip-helper',*I,{'+':HELP2,'plot_TOF_vs_launch_date':tof},['plot_TOF'])
mcase('ip-helper-os',*I,{'+':HELP.replace("os.path","__import__('os').path"),'plot_TOF_vs_launch_date':tof},['plot_TOF'])
mcase('ip-bad',*I,{'+':HELP2,'plot_TOF_vs_launch_date':tof.replace('self.TOF,','self.Avinf,')},['plot_TOF'],want='violation')
mcase('ip-color',*I,{'+':HELP2,'plot_launch_mass_vs_TOF_with_vinf_colorbar':'''
def plot_launch_mass_vs_TOF_with_vinf_colorbar(self, launcherObj, scale=20):
    mass = self.compute_launch_capability(launcherObj)
    fig, ax = plt.subplots(figsize=(8, 6))
    sc = ax.scatter(self.TOF, mass, s=scale, c=self.Avinf, cmap='jet', vmin=self.Avinf.min(), vmax=self.Avinf.max(), marker='o')
    cbar = fig.colorbar(sc)
    cbar.ax.tick_params(labelsize=14)
    cbar.set_label(r'$V_{\\infty}$, km/s', labelpad=-20, y=1.05, rotation=0, fontsize=14)
    ax.set_title("%s : %s" % (self.ID, launcherObj.ID), fontsize=14)
    ax.set_xlabel('TOF, years', fontsize=14)
    ax.set_ylabel("Launch capability, kg", fontsize=14)
    levels = sorted(set(mass))
    ax.set_ylim(max(0, levels[1]) - 100, max(mass) + 100)
    ax.legend(loc='upper right', fontsize=12, framealpha=0.8)
    self._frame(ax)
    self._save("launch_mass_vs_TOF_Avinf_colorbar")
    plt.show()
'''},['plot_launch_mass_vs_TOF_with'])
mcase('basic-loop',*V,{'makeBasicEntryPlots':'''
def makeBasicEntryPlots(self):
    panels = [
        (self.h_kmc, 'r-', "Altitude, km"),
        (self.v_kmsc, 'g-', "Velocity (km/s)"),
        (self.acc_net_g, 'b-', "Deceleration (Earth g)"),
        (self.q_stag_total, 'm-', "Stag. point heat-rate (W/cm2)"),
    ]
    fig, axes = plt.subplots(2, 2, figsize=(6.5, 6.5))
    for ax, (y, style, label) in zip(axes.flat, panels):
        ax.plot(self.t_minc, y, style, linewidth=2.0)
        ax.set_xlabel("Time, min", fontsize=10)
        ax.set_ylabel(label, fontsize=10)
        ax.tick_params(direction='in', labelsize=10)
        ax.yaxis.set_ticks_position('both')
        ax.xaxis.set_ticks_position('both')
    plt.show()
'''},['makeBasic'])
q=open('/repo/AMAT/vehicle.py').read().replace('\r','')
a=q.index('	def createQPlot'); b=q.index('	def compute_ApoapsisAltitudeKm')
mcase('qplot',*V,{'createQPlot':'''
def createQPlot(self, t_sec, dt, delta_deg):
    self.propogateEntry(t_sec, dt, delta_deg)
    fig, ax = plt.subplots(figsize=(3.25, 3.25))
    ax.plot(self.h_kmc*1E3, self.dyn_pres_atm*1.01325E5, 'r-', linewidth=3.0)
    ax.set_xlim(100.0E3, 700.0E3)
    ax.set_ylim(0.0, 12500.0)
    ax.set_xlabel("Altitude, m", fontsize=10)
    ax.set_ylabel("Dynamic pressure, Pa ", fontsize=10)
    ax.set_xticks([200.0E3, 400.00E3, 600.0E3])
    ax.yaxis.set_ticks_position('both')
    ax.xaxis.set_ticks_position('both')
    ax.annotate(r'$\\bar{q} = -0.1686h + 50778$',
        xy=(248586, 9103.4) ,
        xytext=(331181, 9103.4),
        arrowprops=dict(arrowstyle="<-"),  va="center", ha="left", fontsize=9)
    plt.show()
'''},['createQPlot'])
