import sys,ast; sys.path.insert(0,'/tmp')
from em import mcase
V=('vehicle.py','Vehicle')
t=ast.parse(open('/repo/AMAT/vehicle.py').read())
M={m.name:m for c in t.body if isinstance(c,ast.ClassDef) for m in c.body if isinstance(m,ast.FunctionDef)}
def text(n):
    m=M[n]
    if isinstance(m.body[0],ast.Expr) and isinstance(m.body[0].value,ast.Constant): m.body=m.body[1:]
    return ast.unparse(m)
keys=['t_min','h_km','v_kms','phi_deg','psi_deg','theta_deg','gamma_deg','drange_km','acc_net_g','dyn_pres_atm','stag_pres_atm','q_stag_total','heatload','acc_drag_g']
def attr(k): return k+'c' if k in keys[:8] else k
def dicted(n):
    s=text(n); L=s.split('\n'); out=[]
    import re
    done=set()
    for l in L:
        st=l.strip()
        m=re.match(r'(\w+) = self\.(\w+)$',st)
        if m and m.group(1) in keys and attr(m.group(1))==m.group(2):
            if 'init' not in done:
                out.append("    hist = {k: getattr(self, a) for k, a in COLS.items()}"); done.add('init')
            continue
        m=re.match(r'(\w+)_c = self\.(\w+)$',st)
        if m and m.group(1) in keys:
            if 'step' not in done:
                out.append("        step = {k: getattr(self, a) for k, a in COLS.items()}"); done.add('step')
            continue
        if st=='t_min_c = t_min_c + t_min[-1]':
            out.append("        step['t_min'] = step['t_min'] + hist['t_min'][-1]"); continue
        m=re.match(r'(\w+) = np.concatenate\(\((\w+), (\w+)_c\), axis=0\)',st)
        if m and m.group(1) in keys:
            if 'cat' not in done:
                out.append("        hist = {k: np.concatenate((hist[k], step[k])) for k in hist}"); done.add('cat')
            continue
        for k in keys:
            l=re.sub(r'(?<![\w.])%s(?=\[-1\]|$)'%k,"hist['%s']"%k,l)
        out.append(l)
    return '\n'.join(out)
pre='\nCOLS = {'+', '.join("'%s': '%s'"%(k,attr(k)) for k in keys)+'}\n'
for n in ('propogateEntryPhaseD','propogateEquilibriumGlide','propogateExitPhase','propogateExitPhaseD'):
    x=dicted(n)
    mcase('dict-'+n,*V,{n:x},[n],pre=pre)
# bisection helper
find='''
def findOverShootLimit(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km):
    limit = self._bisect(self.hitsTargetApoapsis, t_sec, dt, 180.0, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km)
    if limit is None:
        print("Overshoot limit is outside user specified bounds.")
        return 0.0, 0.0
    return limit, 1.0

def _bisect(self, hits, t_sec, dt, delta_deg, low, high, tol, target):
    saved = self.gamma0_deg

    def f(gamma0_deg):
        self.gamma0_deg = gamma0_deg
        return hits(t_sec, dt, delta_deg, target)

    limit = None
    a, b = f(low), f(high)
    if a*b < 0:
        while abs(high - low) > tol:
            mid = 0.5*(low + high)
            fl, fm, fh = f(low), f(mid), f(high)
            if fl*fm < 0:
                high = mid
            elif fm*fh < 0:
                low = mid
            limit = high
    self.gamma0_deg = saved
    return limit
'''
mcase('bisect-helper',*V,{'findOverShootLimit':find},['findOverShootLimit'])
find2='''
def findOverShootLimit(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km):
    saved = self.gamma0_deg
    low, high = gamma0_deg_guess_low, gamma0_deg_guess_high

    def sign(gamma0_deg):
        self.gamma0_deg = gamma0_deg
        return self.hitsTargetApoapsis(t_sec, dt, 180.0, targetApopasisAltitude_km)

    if sign(low)*sign(high) >= 0:
        print("Overshoot limit is outside user specified bounds.")
        self.gamma0_deg = saved
        return 0.0, 0.0

    while abs(high - low) > gamma_deg_tol:
        mid = 0.5*(low + high)
        s_low, s_mid, s_high = [sign(g) for g in (low, mid, high)]
        if s_low*s_mid < 0:
            high = mid
        elif s_mid*s_high < 0:
            low = mid
        overShootLimit = high
    self.gamma0_deg = saved
    return overShootLimit, 1.0
'''
mcase('bisect-early',*V,{'findOverShootLimit':find2},['findOverShootLimit'])
mc=text('runMonteCarlo')
i=mc.index("        os.makedirs(mainFolder + '/' + '#'")
j=mc.index("    terminal_apoapsis_arr = np.zeros(N)"); k=mc.index("    h0_km = self.vehicleCopy.h0_km_ref")
head=mc[:j]
new=head+'''    columns = ('terminal_apoapsis', 'terminal_periapsis', 'periapsis_raise_DV', 'apoapsis_raise_DV', 'acc_net_g_max', 'q_stag_max', 'heatload_max')
    results = {c: np.zeros(N) for c in columns}
'''+mc[k:i]
import re
new=re.sub(r"        (\w+)_arr\[i\] = ", r"        results['\1'][i] = ", new)
new+='''        folder = f'{mainFolder}/#{i + 1}'
        os.makedirs(folder)
        np.savetxt(f'{folder}/atmfile.txt', np.array([selected_atmfile]), fmt='%s')
        for name, value in (('profile', selected_profile), ('efpa', selected_efpa), ('atmSigma', selected_atmSigma), ('LD', selected_LD),
                            ('terminal_apoapsis', terminal_apoapsis), ('apoapsis_error', apoapsis_error), ('terminal_periapsis', terminal_periapsis),
                            ('periapsis_raise_DV', periapsis_raise_DV), ('apoapsis_raise_DV', apoapsis_raise_DV)):
            np.savetxt(os.path.join(folder, name + '.txt'), np.array([value]))
        for name, values in results.items():
            np.savetxt('{}/{}_arr.txt'.format(mainFolder, name), values)
'''
mcase('mc-dict',*V,{'runMonteCarlo':new},['runMonteCarlo'])
mcase('controller',*V,{'psuedoController':'''
def psuedoController(self, DeltaCMD_deg_command, Delta_deg_ini, timestep):
    step = DeltaCMD_deg_command - Delta_deg_ini
    limit = self.maxRollRate*timestep
    if np.abs(step) > limit:
        new = Delta_deg_ini + np.sign(step)*limit
    else:
        new = Delta_deg_ini + np.sign(step)*(np.abs(step)/timestep)*timestep
    return new, new
'''},['psuedoController'])
mcase('controller-clip',*V,{'psuedoController':'''
def psuedoController(self, DeltaCMD_deg_command, Delta_deg_ini, timestep):
    limit = self.maxRollRate*timestep
    new = Delta_deg_ini + np.clip(DeltaCMD_deg_command - Delta_deg_ini, -limit, limit)
    return new, new
'''},['psuedoController'])
mcase('controller-min',*V,{'psuedoController':'''
def psuedoController(self, DeltaCMD_deg_command, Delta_deg_ini, timestep):
    step = DeltaCMD_deg_command - Delta_deg_ini
    new = Delta_deg_ini + np.sign(step)*min(abs(step), self.maxRollRate*timestep)
    return new, new
'''},['psuedoController'])
