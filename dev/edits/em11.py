import sys; sys.path.insert(0,'/tmp')
from em import mcase
V=('vehicle.py','Vehicle')
mcase('ctl-cases',*V,{'psuedoController':'''
def psuedoController(self, DeltaCMD_deg_command, Delta_deg_ini, timestep):
    limit = self.maxRollRate*timestep
    err = DeltaCMD_deg_command - Delta_deg_ini
    if err > limit:
        new = Delta_deg_ini + limit
    elif err < -limit:
        new = Delta_deg_ini - limit
    else:
        new = DeltaCMD_deg_command
    return new, new
'''},['psuedoController'])
mcase('ctl-clip2',*V,{'psuedoController':'''
def psuedoController(self, DeltaCMD_deg_command, Delta_deg_ini, timestep):
    limit = self.maxRollRate*timestep
    new = np.clip(DeltaCMD_deg_command, Delta_deg_ini - limit, Delta_deg_ini + limit)
    return new, new
'''},['psuedoController'])
mcase('ctl-clip3',*V,{'psuedoController':'''
def psuedoController(self, DeltaCMD_deg_command, Delta_deg_ini, timestep):
    limit = self.maxRollRate*timestep
    new = Delta_deg_ini + max(-limit, min(limit, DeltaCMD_deg_command - Delta_deg_ini))
    return new, new
'''},['psuedoController'])
mcase('ctl-copysign',*V,{'psuedoController':'''
def psuedoController(self, DeltaCMD_deg_command, Delta_deg_ini, timestep):
    limit = self.maxRollRate*timestep
    err = DeltaCMD_deg_command - Delta_deg_ini
    if abs(err) <= limit:
        return DeltaCMD_deg_command, DeltaCMD_deg_command
    new = Delta_deg_ini + (limit if err > 0 else -limit)
    return new, new
'''},['psuedoController'])
mcase('ctl-bad',*V,{'psuedoController':'''
def psuedoController(self, DeltaCMD_deg_command, Delta_deg_ini, timestep):
    limit = self.maxRollRate*timestep
    new = Delta_deg_ini + max(0, min(limit, DeltaCMD_deg_command - Delta_deg_ini))
    return new, new
'''},['psuedoController'],want='violation')
