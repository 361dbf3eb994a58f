"""Reference model: who sees whom — planet rotation, ephemeris directions, elevation and occultation."""
import numpy as np
from astropy.coordinates import get_body_barycentric_posvel, solar_system_ephemeris
from astropy.time import Time

from AMAT.planet import Planet


def unit(x):
    return x / np.linalg.norm(x)


def position(body, when):
    p = get_body_barycentric_posvel(body, when)[0]
    return np.array([p.x.value, p.y.value, p.z.value])


def site(R, lat, lon):
    la = np.radians(lat)
    lo = np.radians(lon)
    return np.array([R * np.cos(la) * np.cos(lo), R * np.cos(la) * np.sin(lo), R * np.sin(la)])


def zenith_angle(site_vec, direction):
    return np.degrees(np.arccos(np.dot(unit(site_vec), direction)))


class Visibility:
    def R1(self, theta):
        c, s = np.cos(theta), np.sin(theta)
        return np.array([[1, 0, 0], [0, c, s], [0, -s, c]])

    def R2(self, theta):
        c, s = np.cos(theta), np.sin(theta)
        return np.array([[c, 0, -s], [0, 1, 0], [s, 0, c]])

    def R3(self, theta):
        c, s = np.cos(theta), np.sin(theta)
        return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])

    @ob(ranks={'X_ICRF': 'vec3'}, cls='LanderToPlanet')
    def ICRF_to_BI(self, X_ICRF):
        # third axis: the pole (right ascension a0, declination d0); first axis: ascending node of the equator
        a, d = self.a0, self.d0
        ex = [-np.sin(a), np.cos(a), 0]
        ez = [np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)]
        ey = np.cross(ez, ex)
        return np.array([np.dot(ex, X_ICRF), np.dot(ey, X_ICRF), np.dot(ez, X_ICRF)])


class LanderToPlanet:
    def __init__(self, target_planet, observer_planet, latitude, date, num_points=101, ephem_file='spice-data/de432s.bsp'):
        ignore('lander_pos_x_bi', 'lander_pos_y_bi', 'lander_pos_z_bi', 'lander_pos_vec_bi', 'lander_pos_vec_bi_unit')
        self.planetObj = Planet(observer_planet)
        self.a0 = self.planetObj.a0
        self.d0 = self.planetObj.d0
        # the small-body ephemeris has no Titan: its primary stands in
        self.observer_planet = 'SATURN' if observer_planet == 'TITAN' else observer_planet
        self.target_planet = target_planet
        when = Time(date, scale='tdb')
        with solar_system_ephemeris.set(ephem_file):
            self.obs_planet_pos = position(self.observer_planet, when)
            self.tar_planet_pos = position(target_planet, when)
        los = self.tar_planet_pos - self.obs_planet_pos
        self.obs_tar_pos_vec_icrf = los
        self.obs_tar_pos_vec_icrf_unit = unit(los)
        self.range = 1000 * np.linalg.norm(los)
        self.obs_tar_pos_vec_bi_unit = self.ICRF_to_BI(unit(los))
        # one full rotation, in the direction the planet turns
        W = self.planetObj.OMEGA
        self.longitude_array = np.linspace(0, 360 * np.sign(W), num_points)
        self.t_array = np.linspace(0, 2 * np.pi / abs(W), num_points)
        z = [zenith_angle(site(self.planetObj.RP, latitude, lon), self.obs_tar_pos_vec_bi_unit) for lon in self.longitude_array]
        self.beta_array = np.array(z)
        self.elevation_array = np.array([max(0, 90 - b) for b in z])
        self.visible_array = np.array([90 - b > 0 for b in z])


class LanderToOrbiter:
    @ob(types={'orbiter': 'PropulsiveOrbiter'})
    def __init__(self, planet, latitude, orbiter, t_seconds, num_points=1600):
        ignore('lander_pos_x_bi', 'lander_pos_y_bi', 'lander_pos_z_bi')
        self.planetObj = Planet(planet)
        self.orbiterObj = orbiter
        orbiter.compute_timed_orbit_trajectory(t_seconds, num_points=num_points)
        R = self.planetObj.RP
        self.t_array = np.linspace(0, t_seconds, num_points)
        self.longitude_rate = np.degrees(self.planetObj.OMEGA)
        self.max_longitude = self.longitude_rate * t_seconds
        self.longitude_array = np.linspace(0, self.max_longitude, num_points)
        la = np.radians(latitude)
        lo = np.radians(self.longitude_array)
        x = R * np.cos(la) * np.cos(lo)
        y = R * np.cos(la) * np.sin(lo)
        z = [R * np.sin(la) for l in self.longitude_array]
        self.lander_pos_x_bi_arr = x
        self.lander_pos_y_bi_arr = y
        self.lander_pos_z_bi_arr = np.array(z)
        ox = R * orbiter.x_timed_orbit_arr
        oy = R * orbiter.y_timed_orbit_arr
        oz = R * orbiter.z_timed_orbit_arr
        self.orbiter_pos_x_bi_arr = ox
        self.orbiter_pos_y_bi_arr = oy
        self.orbiter_pos_z_bi_arr = oz
        dx, dy, dz = ox - x, oy - y, oz - self.lander_pos_z_bi_arr
        rng = np.sqrt(dx ** 2 + dy ** 2 + dz ** 2)
        beta = np.degrees(np.arccos((x * dx + y * dy + self.lander_pos_z_bi_arr * dz) /
                                    (rng * np.sqrt(x ** 2 + y ** 2 + self.lander_pos_z_bi_arr ** 2))))
        self.range_array = rng
        self.beta_array = beta
        self.elevation_array = np.array([max(0, 90 - b) for b in beta])
        self.visible_array = np.array([90 - b > 0 for b in beta])


class OrbiterToPlanet:
    @ob(types={'orbiter': 'PropulsiveOrbiter'})
    def __init__(self, target_planet, observer_planet, orbiter, date, t_seconds, num_points=1600, ephem_file='spice-data/de432s.bsp'):
        self.planetObj = Planet(observer_planet)
        self.a0 = self.planetObj.a0
        self.d0 = self.planetObj.d0
        self.observer_planet = 'SATURN' if observer_planet == 'TITAN' else observer_planet
        self.target_planet = target_planet
        self.orbiterObj = orbiter
        orbiter.compute_timed_orbit_trajectory(t_seconds, num_points=num_points)
        self.t_array = np.linspace(0, t_seconds, num_points)
        when = Time(date, scale='tdb')
        with solar_system_ephemeris.set(ephem_file):
            self.obs_planet_pos = position(self.observer_planet, when)
            self.tar_planet_pos = position(target_planet, when)
        los = self.tar_planet_pos - self.obs_planet_pos
        self.obs_tar_pos_vec_icrf = los
        self.obs_tar_pos_vec_icrf_unit = unit(los)
        self.range = 1000 * np.linalg.norm(los)
        n = self.ICRF_to_BI(unit(los))
        self.obs_tar_pos_vec_bi_unit = n
        self.orbiter_pos_x_bi_arr = orbiter.x_timed_orbit_arr
        self.orbiter_pos_y_bi_arr = orbiter.y_timed_orbit_arr
        self.orbiter_pos_z_bi_arr = orbiter.z_timed_orbit_arr
        d = []
        vis = []
        for i in range(num_points):
            a = np.array([self.orbiter_pos_x_bi_arr[i], self.orbiter_pos_y_bi_arr[i], self.orbiter_pos_z_bi_arr[i]])
            miss = np.linalg.norm(np.cross(a, n))      # distance of the line of sight from the planet centre, planet radii
            ahead = np.dot(a, n) < 0                   # the planet is on the target's side
            d.append(miss)
            vis.append(not (miss < 1 and ahead))
        self.d_array = np.array(d)
        self.visible_array = np.array(vis)
