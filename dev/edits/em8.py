import sys; sys.path.insert(0,'/tmp')
from em import mcase
V='visibility.py'
GEO='''
def __init__(self, target_planet, observer_planet, latitude, date, num_points=101, ephem_file='spice-data/de432s.bsp'):
    self.planetObj = Planet(observer_planet)
    self.target_planet = target_planet
    self.observer_planet = 'SATURN' if observer_planet == 'TITAN' else observer_planet
    self.a0, self.d0 = self.planetObj.a0, self.planetObj.d0
    self.arrival_date = Time(date, scale='tdb')
    with solar_system_ephemeris.set(ephem_file):
        self.observer_planet_eph, self.target_planet_eph = [get_body_barycentric_posvel(body, self.arrival_date)
            for body in (self.observer_planet, target_planet)]
    self.obs_planet_pos = self._xyz(self.observer_planet_eph)
    self.tar_planet_pos = self._xyz(self.target_planet_eph)
    separation = self.tar_planet_pos - self.obs_planet_pos
    distance = np.linalg.norm(separation)
    self.obs_tar_pos_vec_icrf = separation
    self.obs_tar_pos_vec_icrf_unit = separation/distance
    self.range = 1000.0*distance
    self.obs_tar_pos_vec_bi_unit = self.ICRF_to_BI(self.obs_tar_pos_vec_icrf_unit)
    omega = self.planetObj.OMEGA
    self.longitude_array = np.linspace(0, 360*np.sign(omega), num_points)
    self.t_array = np.linspace(0, 2*np.pi/abs(omega), num_points)
    betas, elevations, visible = [], [], []
    for longitude in self.longitude_array:
        self._place(latitude, longitude)
        beta = np.degrees(np.arccos(np.dot(self.lander_pos_vec_bi_unit, self.obs_tar_pos_vec_bi_unit)))
        elevation = max(0, 90 - beta)
        betas.append(beta)
        elevations.append(elevation)
        visible.append(elevation > 0)
    self.beta_array = np.array(betas)
    self.elevation_array = np.array(elevations)
    self.visible_array = np.array(visible, dtype=bool)
'''
GX='''
@staticmethod
def _xyz(eph):
    position = eph[0]
    return np.array([position.x.value, position.y.value, position.z.value])

def _place(self, latitude, longitude):
    lat, lon = np.radians(latitude), np.radians(longitude)
    R = self.planetObj.RP
    self.lander_pos_x_bi = R*np.cos(lat)*np.cos(lon)
    self.lander_pos_y_bi = R*np.cos(lat)*np.sin(lon)
    self.lander_pos_z_bi = R*np.sin(lat)
    self.lander_pos_vec_bi = np.array([self.lander_pos_x_bi, self.lander_pos_y_bi, self.lander_pos_z_bi])
    self.lander_pos_vec_bi_unit = self.lander_pos_vec_bi/np.linalg.norm(self.lander_pos_vec_bi)
'''
A={'__init__':GEO,'+':GX}
mcase('lp',V,'LanderToPlanet',A,['LanderToPlanet'])
mcase('lp-where',V,'LanderToPlanet',{'__init__':GEO.replace('elevation = max(0, 90 - beta)','elevation = 90 - beta if beta < 90 else 0'),'+':GX},['LanderToPlanet'])
mcase('lp-vis',V,'LanderToPlanet',{'__init__':GEO.replace('visible.append(elevation > 0)','visible.append(beta < 90)'),'+':GX},['LanderToPlanet'])
mcase('lp-arr',V,'LanderToPlanet',{'__init__':GEO.replace("np.array(elevations)\n    self.visible_array = np.array(visible, dtype=bool)","np.asarray(elevations)\n    self.visible_array = self.elevation_array > 0"),'+':GX},['LanderToPlanet'])
mcase('lp-bad',V,'LanderToPlanet',{'__init__':GEO.replace('elevation > 0','elevation >= 0'),'+':GX},['LanderToPlanet'],'violation')
mcase('lp-bad2',V,'LanderToPlanet',{'__init__':GEO.replace('2*np.pi/abs(omega)','2*np.pi/omega'),'+':GX},['LanderToPlanet'],'violation')
LO='''
def __init__(self, planet, latitude, orbiter, t_seconds, num_points=1600):
    self.planetObj = Planet(planet)
    self.orbiterObj = orbiter
    orbiter.compute_timed_orbit_trajectory(t_seconds, num_points=num_points)
    self.t_array = np.linspace(0, t_seconds, num_points)
    self.longitude_rate = 360*self.planetObj.OMEGA/(2*np.pi)
    self.max_longitude = self.longitude_rate*t_seconds
    self.longitude_array = np.linspace(0, self.max_longitude, num_points)
    lat = latitude*np.pi/180
    R = self.planetObj.RP
    xs, ys, zs = [], [], []
    for longitude in self.longitude_array:
        lon = longitude*np.pi/180
        self.lander_pos_x_bi = R*np.cos(lat)*np.cos(lon)
        self.lander_pos_y_bi = R*np.cos(lat)*np.sin(lon)
        self.lander_pos_z_bi = R*np.sin(lat)
        xs.append(self.lander_pos_x_bi)
        ys.append(self.lander_pos_y_bi)
        zs.append(self.lander_pos_z_bi)
    self.lander_pos_x_bi_arr, self.lander_pos_y_bi_arr, self.lander_pos_z_bi_arr = np.array(xs), np.array(ys), np.array(zs)
    for axis in 'xyz':
        setattr(self, f'orbiter_pos_{axis}_bi_arr', R*getattr(orbiter, f'{axis}_timed_orbit_arr'))
    sight = [self._sight(i) for i in range(num_points)]
    self.range_array = np.array([s[0] for s in sight])
    self.beta_array = np.array([s[1] for s in sight])
    self.elevation_array = np.array([s[2] for s in sight])
    self.visible_array = np.array([s[2] > 0 for s in sight], dtype=bool)
'''
LX='''
def _sight(self, i):
    lander = np.array([self.lander_pos_x_bi_arr[i], self.lander_pos_y_bi_arr[i], self.lander_pos_z_bi_arr[i]])
    orb = np.array([self.orbiter_pos_x_bi_arr[i], self.orbiter_pos_y_bi_arr[i], self.orbiter_pos_z_bi_arr[i]])
    line = orb - lander
    distance = np.linalg.norm(line)
    beta = np.degrees(np.arccos(np.dot(lander/np.linalg.norm(lander), line/distance)))
    return distance, beta, max(0, 90 - beta)
'''
mcase('lo',V,'LanderToOrbiter',{'__init__':LO,'+':LX},['LanderToOrbiter'])
mcase('lo-zip',V,'LanderToOrbiter',{'__init__':LO.replace('''    self.range_array = np.array([s[0] for s in sight])
    self.beta_array = np.array([s[1] for s in sight])
    self.elevation_array = np.array([s[2] for s in sight])
    self.visible_array = np.array([s[2] > 0 for s in sight], dtype=bool)
''','''    distance, beta, elevation = zip(*sight)
    self.range_array = np.array(distance)
    self.beta_array = np.array(beta)
    self.elevation_array = np.array(elevation)
    self.visible_array = self.elevation_array > 0
'''),'+':LX},['LanderToOrbiter'])
mcase('lo-vec',V,'LanderToOrbiter',{'__init__':LO.split('    sight =')[0]+'''
    lander = np.array([self.lander_pos_x_bi_arr, self.lander_pos_y_bi_arr, self.lander_pos_z_bi_arr])
    line = np.array([self.orbiter_pos_x_bi_arr, self.orbiter_pos_y_bi_arr, self.orbiter_pos_z_bi_arr]) - lander
    self.range_array = np.linalg.norm(line, axis=0)
    cosine = np.sum(lander*line, axis=0)/(np.linalg.norm(lander, axis=0)*self.range_array)
    self.beta_array = np.rad2deg(np.arccos(cosine))
    self.elevation_array = np.maximum(0, 90 - self.beta_array)
    self.visible_array = self.elevation_array > 0
'''},['LanderToOrbiter'])
mcase('lo-bad',V,'LanderToOrbiter',{'__init__':LO,'+':LX.replace('line = orb - lander','line = lander - orb')},['LanderToOrbiter'],'violation')
OP='''
def __init__(self, target_planet, observer_planet, orbiter, date, t_seconds, num_points=1600, ephem_file='spice-data/de432s.bsp'):
    self.planetObj = Planet(observer_planet)
    self.orbiterObj = orbiter
    self.target_planet = target_planet
    self.observer_planet = {'TITAN': 'SATURN'}.get(observer_planet, observer_planet)
    self.a0 = self.planetObj.a0
    self.d0 = self.planetObj.d0
    self.t_array = np.linspace(0, t_seconds, num_points)
    orbiter.compute_timed_orbit_trajectory(t_seconds, num_points=num_points)
    self._ephemeris(date, ephem_file)
    self.obs_tar_pos_vec_icrf = self.tar_planet_pos - self.obs_planet_pos
    r = np.sqrt(np.sum(self.obs_tar_pos_vec_icrf**2))
    self.obs_tar_pos_vec_icrf_unit = self.obs_tar_pos_vec_icrf/r
    self.range = r*1000.0
    self.obs_tar_pos_vec_bi_unit = self.ICRF_to_BI(self.obs_tar_pos_vec_icrf_unit)
    self.orbiter_pos_x_bi_arr = orbiter.x_timed_orbit_arr
    self.orbiter_pos_y_bi_arr = orbiter.y_timed_orbit_arr
    self.orbiter_pos_z_bi_arr = orbiter.z_timed_orbit_arr
    n = self.obs_tar_pos_vec_bi_unit
    miss, seen = [], []
    for x, y, z in zip(self.orbiter_pos_x_bi_arr, self.orbiter_pos_y_bi_arr, self.orbiter_pos_z_bi_arr):
        a = np.array([x, y, z])
        d = np.linalg.norm(np.cross(n, a))
        behind = np.dot(n, a) < 0
        miss.append(d)
        seen.append(not (behind and d < 1.0))
    self.d_array = np.array(miss)
    self.visible_array = np.array(seen, dtype=bool)
'''
OX='''
def _ephemeris(self, date, ephem_file):
    self.arrival_date = Time(date, scale='tdb')
    with solar_system_ephemeris.set(ephem_file):
        self.observer_planet_eph = get_body_barycentric_posvel(self.observer_planet, self.arrival_date)
        self.target_planet_eph = get_body_barycentric_posvel(self.target_planet, self.arrival_date)
    for name in ('observer', 'target'):
        p, _ = getattr(self, name + '_planet_eph')
        setattr(self, name[:3] + '_planet_pos', np.array([p.x.value, p.y.value, p.z.value]))
'''
mcase('op',V,'OrbiterToPlanet',{'__init__':OP,'+':OX},['OrbiterToPlanet'])
mcase('op-idx',V,'OrbiterToPlanet',{'__init__':OP.replace('''    for x, y, z in zip(self.orbiter_pos_x_bi_arr, self.orbiter_pos_y_bi_arr, self.orbiter_pos_z_bi_arr):
        a = np.array([x, y, z])
''','''    track = np.column_stack((self.orbiter_pos_x_bi_arr, self.orbiter_pos_y_bi_arr, self.orbiter_pos_z_bi_arr))
    for i in range(num_points):
        a = track[i]
'''),'+':OX},['OrbiterToPlanet'])
mcase('op-vec',V,'OrbiterToPlanet',{'__init__':OP.split('    miss,')[0]+'''
    track = np.column_stack((self.orbiter_pos_x_bi_arr, self.orbiter_pos_y_bi_arr, self.orbiter_pos_z_bi_arr))
    self.d_array = np.linalg.norm(np.cross(-track, n), axis=1)
    self.visible_array = ~((self.d_array < 1.0) & (track @ n < 0))
''','+':OX},['OrbiterToPlanet'])
mcase('op-bad',V,'OrbiterToPlanet',{'__init__':OP.replace('not (behind and d < 1.0)','not (behind or d < 1.0)'),'+':OX},['OrbiterToPlanet'],'violation')
mcase('op-bad2',V,'OrbiterToPlanet',{'__init__':OP.replace('np.dot(n, a) < 0','np.dot(n, a) > 0'),'+':OX},['OrbiterToPlanet'],'violation')
