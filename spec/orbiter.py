"""Reference model: orbits after capture — exit state, coast, periapsis raise, probe targeting, deflection, propulsive insertion."""
import numpy as np
from scipy import optimize


def unit(x):
    return x / np.linalg.norm(x)


def node_angle(n):
    if n[1] >= 0:
        return np.arccos(n[0])
    return 2 * np.pi - np.arccos(n[0])


def periapsis_angle(n, e):
    if e[2] >= 0:
        return np.arccos(np.dot(n, e))
    return 2 * np.pi - np.arccos(np.dot(n, e))


def radial(OMEGA, i, u):
    """unit position vector at argument of latitude u"""
    node = np.array([np.cos(OMEGA), np.sin(OMEGA), 0])
    ahead = np.array([-np.cos(i) * np.sin(OMEGA), np.cos(i) * np.cos(OMEGA), np.sin(i)])
    return np.cos(u) * node + np.sin(u) * ahead


def transverse(OMEGA, i, u):
    node = np.array([np.cos(OMEGA), np.sin(OMEGA), 0])
    ahead = np.array([-np.cos(i) * np.sin(OMEGA), np.cos(i) * np.cos(OMEGA), np.sin(i)])
    return np.cos(u) * ahead - np.sin(u) * node


def conic(h, e, G, nu):
    return h ** 2 / (G * (1 + e * np.cos(nu)))


def velocity(r, a, h, G, OMEGA, i, omega, nu):
    """inertial velocity at true anomaly nu; the angle is kept off the apsides by one part in 10^7"""
    v = np.sqrt(G * (2 / r - 1 / a))
    fpa = np.sign(np.sin(nu)) * np.arccos(h / (r * v * 1.0000001))
    u = nu + omega
    return v * (np.sin(fpa) * radial(OMEGA, i, u) + np.cos(fpa) * transverse(OMEGA, i, u))


def elements(veh, r, v, rmag, vmag, fpa):
    """a, e, h, orientation of the orbit through (r, v)"""
    G = veh.planetObj.GM
    E = veh.computeEnergyScalar(rmag, vmag)
    h = veh.computeAngMomScalar(rmag, vmag, fpa)
    a = veh.computeSemiMajorAxisScalar(E)
    e = veh.computeEccScalar(h, E)
    hv = np.cross(r, v)
    n = np.array([-hv[1], hv[0], 0])
    ev = ((vmag ** 2 - G / rmag) * r - np.dot(r, v) * v) / G
    return E, h, a, e, np.sqrt(a * G * (1 - e ** 2)), hv, n, ev


def climb_deg(r, v):
    return 90 - np.degrees(np.arccos(np.dot(unit(r), unit(v))))


def trace(self, p):
    R = self.vehicle.planetObj.RP
    return p[0] / R, p[1] / R, p[2] / R


def target_probe(self, theta_star, dV, num_points):
    P = self.vehicle.planetObj
    self.theta_star_probe_targeting = theta_star
    self.dV_mag_probe_targeting = dV
    r = self.pos_vec_bi(theta_star)
    v1 = self.vel_vec_bi(theta_star)
    self.dV_vec_probe_targeting = dV * unit(v1)
    v = v1 + dV * unit(v1)              # along the velocity
    R, V = np.linalg.norm(r), np.linalg.norm(v)
    E, h, a, e, hh, hv, n, ev = elements(self.vehicle, r, v, R, V, np.radians(climb_deg(r, v)))
    self.E_post_maneuver = E
    self.h_post_maneuver = h
    self.a_probe_orbit = a
    self.e_probe_orbit = e
    self.h_probe_orbit = hh
    self.h_vec_bi_probe_orbit = hv
    self.h_vec_bi_unit_probe_orbit = unit(hv)
    self.i_probe_orbit = np.arccos(unit(hv)[2])
    self.N_vec_bi_probe_orbit = n
    self.N_vec_bi_unit_probe_orbit = unit(n)
    self.OMEGA_probe_orbit = node_angle(unit(n))
    self.e_vec_bi_probe_orbit = ev
    self.e_vec_bi_unit_probe_orbit = unit(ev)
    self.omega_probe_orbit = periapsis_angle(unit(n), unit(ev))
    self.r_periapsis_probe = a * (1 - e)
    self.r_apoapsis_probe = a * (1 + e)
    self.h_periapsis_probe = self.r_periapsis_probe - P.RP
    if not self.h_periapsis_probe < P.h_skip:
        unspecified()                   # never enters the atmosphere
    self.h_EI = P.h_skip
    self.r_EI = P.RP + P.h_skip
    # inbound crossing, 0..2 pi
    self.theta_star_probe_entry = 2 * np.pi - np.arccos((hh ** 2 / (P.GM * self.r_EI) - 1) / e)
    x = self.pos_vec_bi_probe(self.theta_star_probe_entry)
    self.r_vec_bi_probe_entry = x
    self.r_vec_bi_probe_entry_unit = unit(x)
    self.r_vec_bi_probe_entry_mag = np.linalg.norm(x)
    y = self.vel_vec_bi_probe(self.theta_star_probe_entry)
    self.v_bi_vec_probe_entry = y
    self.v_bi_mag_probe_entry = np.linalg.norm(y)
    self.v_bi_vec_probe_entry_unit = unit(y)
    self.gamma_inertial_probe_entry = -np.arccos(hh / (self.r_EI * np.linalg.norm(y)))
    self.latitude_probe_entry_bi = np.arcsin(unit(x)[2])
    self.longitude_probe_entry_bi = np.arctan2(unit(x)[1], unit(x)[0])
    z = self.vel_vec_probe_entry_atm()
    self.v_vec_probe_entry_atm = z
    self.v_mag_probe_entry_atm = np.linalg.norm(z)
    self.v_vec_probe_entry_atm_unit = unit(z)
    self.v_atm_probe_entry_unit_proj = unit(z) - np.dot(unit(z), unit(x)) * unit(x)
    lon = self.longitude_probe_entry_bi
    self.atm_probe_entry_local_latitude_parallel_vec_unit = np.array([-np.sin(lon), np.cos(lon), 0])
    p = self.pos_vec_bi_probe(np.linspace(theta_star, self.theta_star_probe_entry, num_points))
    self.x_probe_orbit_arr, self.y_probe_orbit_arr, self.z_probe_orbit_arr = trace(self, p)


class Orbiter:
    @ob(types={'vehicle': 'Vehicle'}, calls=['compute_exit_state_atm_relative', 'compute_exit_state_inertial', 'compute_coast_orbital_elements',
                                             'compute_theta_star_exit', 'compute_coast_trajectory', 'compute_post_PRM_orbital_elements',
                                             'compute_PRM_dv', 'compute_orbit_trajectory'])
    def __init__(self, vehicle, peri_alt_km):
        self.vehicle = vehicle
        self.peri_alt_km = peri_alt_km
        self.r_periapsis_mag = vehicle.planetObj.RP + 1000 * peri_alt_km
        self.compute_exit_state_atm_relative()
        self.compute_exit_state_inertial()
        self.compute_coast_orbital_elements()
        self.compute_theta_star_exit()
        self.compute_coast_trajectory()
        self.compute_post_PRM_orbital_elements()
        self.compute_PRM_dv()
        self.compute_orbit_trajectory()

    def compute_exit_state_atm_relative(self):
        w = self.vehicle
        k = w.index - 1
        self.terminal_r = w.rc[k]
        self.terminal_theta = w.thetac[k]
        self.terminal_phi = w.phic[k]
        self.terminal_v = w.vc[k]
        self.terminal_g = w.gammac[k]
        self.terminal_psi = w.psic[k]

    def compute_exit_state_inertial(self):
        ignore('terminal_psi_bi')
        lon, lat, V, g, psi = self.terminal_theta, self.terminal_phi, self.terminal_v, self.terminal_g, self.terminal_psi
        up = np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])
        east = np.array([-np.sin(lon), np.cos(lon), 0])
        north = np.array([-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)])
        r = self.terminal_r * up
        # heading is measured from the local parallel (east) towards north
        v = V * (np.sin(g) * up + np.cos(g) * (np.cos(psi) * east + np.sin(psi) * north))
        self.terminal_r_vec = r
        self.terminal_r_hat_vec = unit(r)
        self.v_pr_x, self.v_pr_y, self.v_pr_z = v[0], v[1], v[2]
        self.terminal_v_vec = v
        self.terminal_v_hat_vec = unit(v)
        w = v + self.terminal_r * self.vehicle.planetObj.OMEGA * np.cos(lat) * east
        self.v_ie_x, self.v_ie_y, self.v_ie_z = w[0], w[1], w[2]
        self.v_ie_mag = np.linalg.norm(w)
        self.terminal_v_ie_vec = w
        self.terminal_v_ie_hat_vec = unit(w)
        self.terminal_fpa_ie_deg = climb_deg(r, w)
        self.terminal_fpa_ie_rad = np.radians(self.terminal_fpa_ie_deg)
        self.terminal_r_bi = self.terminal_r
        self.terminal_theta_bi = lon
        self.terminal_phi_bi = lat
        self.terminal_v_bi = self.v_ie_mag
        self.terminal_g_bi = self.terminal_fpa_ie_rad

    @ob(impl='compute_exit_state_inertial', only=['terminal_psi_bi'])
    def exit_heading_inertial(self):
        """heading of the inertial velocity"""
        lat, V, g, psi = self.terminal_phi, self.terminal_v, self.terminal_g, self.terminal_psi
        e = V * np.cos(g) * np.cos(psi) + self.terminal_r * self.vehicle.planetObj.OMEGA * np.cos(lat)
        n = V * np.cos(g) * np.sin(psi)
        self.terminal_psi_bi = np.arctan2(n, e)

    @ob(impl='compute_exit_state_inertial', only=['terminal_psi_bi'], deviation=True)
    def exit_heading_relative(self):
        self.terminal_psi_bi = self.terminal_psi

    @ob(attrs={'terminal_r_vec': 'vec3', 'terminal_v_ie_vec': 'vec3'})
    def compute_coast_orbital_elements(self):
        E, h, a, e, hh, hv, n, ev = elements(self.vehicle, self.terminal_r_vec, self.terminal_v_ie_vec, self.terminal_r, self.v_ie_mag,
                                             self.terminal_fpa_ie_rad)
        self.terminal_E = E
        self.terminal_h = h
        self.a = a
        self.e = e
        self.h = hh
        self.h_vec_bi = hv
        self.h_vec_bi_unit = unit(hv)
        self.i = np.arccos(unit(hv)[2])
        self.N_vec_bi = n
        self.N_vec_bi_unit = unit(n)
        self.OMEGA = node_angle(unit(n))
        self.e_vec_bi = ev
        self.e_vec_bi_unit = unit(ev)
        self.omega = periapsis_angle(unit(n), unit(ev))

    def compute_theta_star_exit(self):
        # outbound crossing
        self.theta_star_exit = np.arccos((self.h ** 2 / (self.vehicle.planetObj.GM * self.terminal_r) - 1) / self.e)

    def r_mag_bi(self, theta_star):
        return conic(self.h, self.e, self.vehicle.planetObj.GM, theta_star)

    def pos_vec_bi(self, theta_star):
        return conic(self.h, self.e, self.vehicle.planetObj.GM, theta_star) * radial(self.OMEGA, self.i, theta_star + self.omega)

    def pos_vec_bi_probe(self, theta_star):
        """position on the probe's own orbit"""
        return conic(self.h_probe_orbit, self.e_probe_orbit, self.vehicle.planetObj.GM, theta_star) * \
            radial(self.OMEGA_probe_orbit, self.i_probe_orbit, theta_star + self.omega_probe_orbit)

    @ob(impl='pos_vec_bi_probe', deviation=True)
    def pos_vec_bi_probe_as_built(self, theta_star):
        """as built: argument of periapsis, and the inclination in two of the three components, of the orbit before the manoeuvre"""
        u = theta_star + self.omega
        p = radial(self.OMEGA_probe_orbit, self.i, u)
        q = radial(self.OMEGA_probe_orbit, self.i_probe_orbit, u)
        return conic(self.h_probe_orbit, self.e_probe_orbit, self.vehicle.planetObj.GM, theta_star) * np.array([p[0], p[1], q[2]])

    def pos_vec_bi_orbiter_defl(self, theta_star):
        return conic(self.h_orbiter_defl, self.e_orbiter_defl, self.vehicle.planetObj.GM, theta_star) * \
            radial(self.OMEGA_orbiter_defl, self.i_orbiter_defl, theta_star + self.omega_orbiter_defl)

    def vel_vec_bi(self, theta_star):
        return velocity(self.r_mag_bi(theta_star), self.a, self.h, self.vehicle.planetObj.GM, self.OMEGA, self.i, self.omega, theta_star)

    def vel_vec_bi_probe(self, theta_star):
        return velocity(np.linalg.norm(self.pos_vec_bi_probe(theta_star)), self.a_probe_orbit, self.h_probe_orbit, self.vehicle.planetObj.GM,
                        self.OMEGA_probe_orbit, self.i_probe_orbit, self.omega_probe_orbit, theta_star)

    def compute_coast_trajectory(self, num_points=301):
        p = self.pos_vec_bi(np.linspace(self.theta_star_exit, np.pi, num_points))
        self.x_coast_arr, self.y_coast_arr, self.z_coast_arr = trace(self, p)
        self.r_apoapsis_vec = np.array([self.x_coast_arr[-1], self.y_coast_arr[-1], self.z_coast_arr[-1]])
        self.r_apoapsis_mag = np.linalg.norm(self.r_apoapsis_vec) * self.vehicle.planetObj.RP
        self.v_apoapsis_vec_coast = self.vel_vec_bi(np.pi)
        self.v_apoapsis_mag_coast = np.linalg.norm(self.v_apoapsis_vec_coast)

    def compute_post_PRM_orbital_elements(self):
        ra, rp = self.r_apoapsis_mag, self.r_periapsis_mag
        self.e = (ra - rp) / (ra + rp)
        self.a = (ra + rp) / 2
        self.h = np.sqrt(self.a * self.vehicle.planetObj.GM * (1 - self.e ** 2))

    @ob(attrs={'v_apoapsis_vec_coast': 'vec3'})
    def compute_PRM_dv(self):
        v = self.vel_vec_bi(np.pi)
        self.v_apoapsis_vec_orbit = v
        self.v_apoapsis_mag_orbit = np.linalg.norm(v)
        self.PRM_dv_vec = v - self.v_apoapsis_vec_coast
        self.PRM_dv_mag = np.linalg.norm(self.PRM_dv_vec)

    def compute_orbit_trajectory(self, num_points=601):
        # one revolution starting at apoapsis
        self.x_orbit_arr, self.y_orbit_arr, self.z_orbit_arr = trace(self, self.pos_vec_bi(np.linspace(np.pi, 3 * np.pi, num_points)))

    @ob(attrs={'v_bi_vec_probe_entry': 'vec3'})
    def vel_vec_probe_entry_atm(self):
        u = self.r_vec_bi_probe_entry_mag * self.vehicle.planetObj.OMEGA * np.cos(self.latitude_probe_entry_bi)
        lon = self.longitude_probe_entry_bi
        return self.v_bi_vec_probe_entry - np.array([-u * np.sin(lon), u * np.cos(lon), 0])

    @ob(calls=['pos_vec_bi', 'vel_vec_bi'])
    def compute_probe_targeting_trajectory(self, theta_star, dV, num_points=301):
        ignore('gamma_atm_probe_entry', 'heading_atm_probe_entry')
        target_probe(self, theta_star, dV, num_points)

    @ob(impl='compute_probe_targeting_trajectory', calls=['pos_vec_bi', 'vel_vec_bi'], only=['gamma_atm_probe_entry'])
    def probe_entry_angle(self, theta_star, dV, num_points):
        """flight-path angle of the velocity relative to the rotating atmosphere"""
        target_probe(self, theta_star, dV, num_points)
        self.gamma_atm_probe_entry = np.pi / 2 - np.arccos(np.dot(self.r_vec_bi_probe_entry_unit, self.v_vec_probe_entry_atm_unit))

    @ob(impl='compute_probe_targeting_trajectory', calls=['pos_vec_bi', 'vel_vec_bi'], only=['gamma_atm_probe_entry'], deviation=True)
    def probe_entry_angle_as_built(self, theta_star, dV, num_points):
        """as built: that of the inertial velocity"""
        target_probe(self, theta_star, dV, num_points)
        self.gamma_atm_probe_entry = np.pi / 2 - np.arccos(np.dot(self.r_vec_bi_probe_entry_unit, self.v_bi_vec_probe_entry_unit))

    @ob(impl='compute_probe_targeting_trajectory', calls=['pos_vec_bi', 'vel_vec_bi'], only=['heading_atm_probe_entry'])
    def probe_entry_heading(self, theta_star, dV, num_points):
        """direction of the horizontal velocity, from the local parallel towards north"""
        target_probe(self, theta_star, dV, num_points)
        lat, lon, v = self.latitude_probe_entry_bi, self.longitude_probe_entry_bi, self.v_vec_probe_entry_atm_unit
        east = np.array([-np.sin(lon), np.cos(lon), 0])
        north = np.array([-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)])
        self.heading_atm_probe_entry = np.arctan2(np.dot(v, north), np.dot(v, east))

    @ob(impl='compute_probe_targeting_trajectory', calls=['pos_vec_bi', 'vel_vec_bi'], only=['heading_atm_probe_entry'], deviation=True)
    def probe_entry_heading_as_built(self, theta_star, dV, num_points):
        """as built: arc cosine of the east component of the projection, which is not a unit vector, sign lost"""
        target_probe(self, theta_star, dV, num_points)
        self.heading_atm_probe_entry = np.arccos(np.dot(self.v_atm_probe_entry_unit_proj, self.atm_probe_entry_local_latitude_parallel_vec_unit))

    @ob(calls=['pos_vec_bi_probe', 'vel_vec_bi_probe', 'pos_vec_bi_orbiter_defl'])
    def compute_orbiter_deflection_trajectory(self, theta_star, dV, num_points=601):
        self.theta_star_orbiter_defl = theta_star
        self.dV_mag_orbiter_deflection = dV
        r = self.pos_vec_bi_probe(theta_star)
        v1 = self.vel_vec_bi_probe(theta_star)
        self.dV_vec_orbiter_deflection = dV * unit(v1)
        v = v1 + dV * unit(v1)
        R, V = np.linalg.norm(r), np.linalg.norm(v)
        E, h, a, e, hh, hv, n, ev = elements(self.vehicle, r, v, R, V, np.radians(climb_deg(r, v)))
        self.E_orbiter_defl = E
        self.a_orbiter_defl = a
        self.e_orbiter_defl = e
        self.h_orbiter_defl = hh
        self.h_vec_bi_orbiter_defl = hv
        self.h_vec_bi_unit_orbiter_defl = unit(hv)
        self.i_orbiter_defl = np.arccos(unit(hv)[2])
        self.N_vec_bi_orbiter_defl = n
        self.N_vec_bi_unit_orbiter_defl = unit(n)
        self.OMEGA_orbiter_defl = node_angle(unit(n))
        self.e_vec_bi_orbiter_defl = ev
        self.e_vec_bi_unit_orbiter_defl = unit(ev)
        self.omega_orbiter_defl = periapsis_angle(unit(n), unit(ev))
        self.r_periapsis_orbiter_defl = a * (1 - e)
        self.r_apoapsis_orbiter_defl = a * (1 + e)
        self.h_periapsis_orbiter_defl = self.r_periapsis_orbiter_defl - self.vehicle.planetObj.RP
        p = self.pos_vec_bi_orbiter_defl(np.linspace(0, 2 * np.pi, num_points))
        self.x_orbiter_defl_arr, self.y_orbiter_defl_arr, self.z_orbiter_defl_arr = trace(self, p)


class PropulsiveOrbiter:
    @ob(types={'approach': 'Approach'}, calls=['vel_vec_bi', 'compute_orbit_trajectory'])
    def __init__(self, approach, apoapsis_alt_km):
        G = approach.planetObj.GM
        self.approach = approach
        self.apoapsis_alt_km = apoapsis_alt_km
        self.approach_terminal_r = approach.r_vec_rp_bi
        self.approach_terminal_v = approach.v_vec_rp_bi
        self.rp = approach.rp
        self.ra = approach.planetObj.RP + 1000 * apoapsis_alt_km
        self.a = (self.ra + self.rp) / 2
        self.e = (self.ra - self.rp) / (self.ra + self.rp)
        self.h = np.sqrt(self.a * G * (1 - self.e ** 2))
        # insertion at periapsis, in the plane and along the apse line of the approach hyperbola
        self.i = approach.i
        self.OMEGA = approach.OMEGA
        self.omega = approach.omega
        self.vp_vec = self.vel_vec_bi(0)
        self.vp = np.linalg.norm(self.vp_vec)
        self.DV_OI_vec = approach.v_vec_rp_bi - self.vp_vec
        self.DV_OI_mag = np.linalg.norm(self.DV_OI_vec)
        self.vp_check = np.sqrt(G * (2 / self.rp - 1 / self.a))
        self.DV_OI_mag_check = np.linalg.norm(approach.v_vec_rp_bi) - self.vp_check
        self.compute_orbit_trajectory()

    def r_mag_bi(self, theta_star):
        return conic(self.h, self.e, self.approach.planetObj.GM, theta_star)

    def pos_vec_bi(self, theta_star):
        return conic(self.h, self.e, self.approach.planetObj.GM, theta_star) * radial(self.OMEGA, self.i, theta_star + self.omega)

    def vel_vec_bi(self, theta_star):
        return velocity(self.r_mag_bi(theta_star), self.a, self.h, self.approach.planetObj.GM, self.OMEGA, self.i, self.omega, theta_star)

    def compute_orbit_trajectory(self, num_points=601):
        p = self.pos_vec_bi(np.linspace(0, 2 * np.pi, num_points)) / self.approach.planetObj.RP
        self.x_orbit_arr, self.y_orbit_arr, self.z_orbit_arr = p[0], p[1], p[2]

    def compute_timed_orbit_trajectory(self, t_seconds, num_points=101):
        self.P = 2 * np.pi * np.sqrt(self.a ** 3 / self.approach.planetObj.GM)
        self.t_array = np.linspace(0, t_seconds, num_points)
        self.M_array = 2 * np.pi * self.t_array / self.P
        self.E_array = np.array([self.compute_E(M) for M in self.M_array])
        self.theta_star_array = np.array([self.compute_theta_star(E) for E in self.E_array])
        p = self.pos_vec_bi(self.theta_star_array) / self.approach.planetObj.RP
        self.x_timed_orbit_arr, self.y_timed_orbit_arr, self.z_timed_orbit_arr = p[0], p[1], p[2]

    def compute_E(self, M, rtol=1e-6):
        """root of Kepler's equation"""
        return optimize.newton(lambda E: E - self.e * np.sin(E) - M, x0=M)

    def compute_theta_star(self, E):
        return 2 * np.arctan(np.sqrt((1 + self.e) / (1 - self.e)) * np.tan(E / 2))
