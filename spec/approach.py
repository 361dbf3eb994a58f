"""Reference model: hyperbolic approach — B-plane geometry, orbital elements, state along the hyperbola, entry state."""
import numpy as np

from AMAT.planet import Planet


def unit(x):
    return x / np.linalg.norm(x)


def node_angle(n):
    """right ascension of the ascending node, 0..2 pi, from the unit node vector"""
    if n[1] >= 0:
        return np.arccos(n[0])
    return 2 * np.pi - np.arccos(n[0])


def periapsis_angle(n, e):
    """argument of periapsis, 0..2 pi, from the unit node and eccentricity vectors"""
    if e[2] >= 0:
        return np.arccos(np.dot(n, e))
    return 2 * np.pi - np.arccos(np.dot(n, e))


def radial(OMEGA, i, u):
    """unit position vector at argument of latitude u"""
    node = np.array([np.cos(OMEGA), np.sin(OMEGA), 0])
    ahead = np.array([-np.cos(i) * np.sin(OMEGA), np.cos(i) * np.cos(OMEGA), np.sin(i)])
    return np.cos(u) * node + np.sin(u) * ahead


def transverse(OMEGA, i, u):
    """unit vector in the orbit plane 90 degrees ahead of the position"""
    node = np.array([np.cos(OMEGA), np.sin(OMEGA), 0])
    ahead = np.array([-np.cos(i) * np.sin(OMEGA), np.cos(i) * np.cos(OMEGA), np.sin(i)])
    return np.cos(u) * ahead - np.sin(u) * node


def corotating(r, lat, lon, W):
    """velocity of the rotating atmosphere at the given place"""
    u = r * W * np.cos(lat)
    return np.array([-u * np.sin(lon), u * np.cos(lon), 0])


def entry_state(self, h_EI):
    G = self.planetObj.GM
    self.h_EI = h_EI
    self.r_EI = self.planetObj.RP + h_EI
    # inbound crossing of the interface radius
    self.theta_star_entry = -np.arccos((self.h ** 2 / (G * self.r_EI) - 1) / self.e)
    r = self.pos_vec_bi(self.theta_star_entry)
    v = self.vel_vec_bi(self.theta_star_entry)
    up = unit(r)
    self.r_vec_entry_bi = r
    self.r_vec_entry_bi_unit = up
    self.r_vec_entry_bi_mag = np.linalg.norm(r)
    self.v_vec_entry_bi = v
    self.v_vec_entry_bi_unit = unit(v)
    self.v_entry_inertial_mag = np.sqrt(self.v_inf_mag ** 2 + 2 * G / self.r_EI)
    self.gamma_entry_inertial = -np.arccos(self.h / (self.r_EI * self.v_entry_inertial_mag))
    self.gamma_entry_inertial_check = np.pi / 2 - np.arccos(np.dot(up, unit(v)))
    self.latitude_entry_bi = np.arcsin(up[2])
    self.longitude_entry_bi = np.arctan2(up[1], up[0])
    self.xi_1 = self.longitude_entry_bi
    ca, sa = np.cos(self.xi_1), np.sin(self.xi_1)
    self.latitude_entry_bi_analytic = np.arctan(up[2] / (ca * up[0] + sa * up[1]))
    w = self.vel_vec_entry_atm()
    self.v_vec_entry_atm = w
    self.v_entry_atm_mag = np.linalg.norm(w)
    wu = unit(w)
    self.v_vec_entry_atm_unit = wu
    self.gamma_entry_atm = np.pi / 2 - np.arccos(np.dot(up, wu))
    self.v_vec_entry_atm_unit_proj = wu - np.dot(wu, up) * up
    self.local_latitude_parallel_vec_unit = np.array([-np.sin(self.longitude_entry_bi), np.cos(self.longitude_entry_bi), 0])


def approach(self, arrivalPlanet, v_inf, rp, psi):
    self.planetObj = Planet(arrivalPlanet)
    G = self.planetObj.GM
    self.a0 = self.planetObj.a0
    self.d0 = self.planetObj.d0
    self.v_inf_vec_icrf_kms = v_inf
    self.rp = rp
    self.psi = psi
    self.v_inf_mag_kms = np.linalg.norm(v_inf)
    self.v_inf_mag = 1000 * self.v_inf_mag_kms
    # hyperbola: semi-major axis from the energy, eccentricity from the periapsis radius
    self.a = -G / self.v_inf_mag ** 2
    self.e = 1 - rp / self.a
    self.beta = np.arccos(1 / self.e)
    S = self.ICRF_to_BI(v_inf)
    self.v_inf_vec_bi_kms = S
    self.v_inf_vec_bi = 1000 * S
    self.v_inf_vec_bi_mag_kms = np.linalg.norm(S)
    self.v_inf_vec_bi_unit = unit(S)
    S = self.v_inf_vec_bi
    # angles turning the inertial z axis onto the asymptote
    self.phi_1 = np.arctan2(S[1], S[0])
    c1, s1 = np.cos(self.phi_1), np.sin(self.phi_1)
    self.v_inf_vec_bi_prime = np.array([c1 * S[0] + s1 * S[1], c1 * S[1] - s1 * S[0], S[2]])
    self.phi_2 = np.arctan2(c1 * S[0] + s1 * S[1], S[2])
    self.phi_2_analytic = self.phi_2
    c2, s2 = np.cos(self.phi_2), np.sin(self.phi_2)
    X = np.array([c2 * c1, c2 * s1, -s2])
    Y = np.array([-s1, c1, 0])
    Z = np.array([s2 * c1, s2 * s1, c2])
    # periapsis lies beta away from the asymptote, turned by psi about it
    p = np.sin(self.beta) * (np.cos(psi) * X + np.sin(psi) * Y) + np.cos(self.beta) * Z
    self.rp_vec_bi_x_unit = p[0]
    self.rp_vec_bi_y_unit = p[1]
    self.rp_vec_bi_z_unit = p[2]
    self.rp_vec_bi_unit = p
    self.rp_vec_bi = rp * p
    self.rp_vec_bi_dprime = np.array([rp * np.dot(X, p), rp * np.dot(Y, p), rp * np.dot(Z, p)])
    self.rp_vec_bi_dprime_analytic = rp * np.array([np.sin(self.beta) * np.cos(psi), np.sin(self.beta) * np.sin(psi), np.cos(self.beta)])
    self.e_vec_bi = self.e * p
    self.e_vec_bi_unit = unit(self.e * p)
    self.h = np.sqrt(self.a * G * (1 - self.e ** 2))
    hv = np.cross(rp * p, S)
    self.h_vec_bi = hv
    self.h_vec_bi_unit = unit(hv)
    self.i = np.arccos(unit(hv)[2])
    n = np.array([-hv[1], hv[0], 0])
    self.N_vec_bi = n
    self.N_vec_bi_unit = unit(n)
    self.OMEGA = node_angle(unit(n))
    self.omega = periapsis_angle(unit(n), self.e_vec_bi_unit)
    # B-plane
    self.N_ref_bi = np.array([0, 0, 1])
    self.S_vec_bi = S
    self.S_vec_bi_unit = self.v_inf_vec_bi_unit
    T = np.array([S[1], -S[0], 0])
    self.T_vec_bi = T
    self.T_vec_bi_unit = unit(T)
    self.T_vec_bi_unit_dprime = np.array([np.dot(X, unit(T)), np.dot(Y, unit(T)), np.dot(Z, unit(T))])
    R = np.cross(S, T)
    self.R_vec_bi = R
    self.R_vec_bi_unit = unit(R)
    self.R_vec_bi_unit_dprime = np.array([np.dot(X, unit(R)), np.dot(Y, unit(R)), np.dot(Z, unit(R))])
    self.b_mag = abs(self.a) * np.sqrt(self.e ** 2 - 1)
    self.b_plane_angle_theta = psi + np.pi / 2
    self.B_vec_bi = np.cross(S, hv)
    self.B_vec_bi_unit = unit(np.cross(S, hv))


class Approach:
    def R1(self, theta):
        c, s = np.cos(theta), np.sin(theta)
        return np.array([[1, 0, 0], [0, c, s], [0, -s, c]])

    def R2(self, theta):
        c, s = np.cos(theta), np.sin(theta)
        return np.array([[c, 0, -s], [0, 1, 0], [s, 0, c]])

    def R3(self, theta):
        c, s = np.cos(theta), np.sin(theta)
        return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])

    @ob(ranks={'X_ICRF': 'vec3'})
    def ICRF_to_BI(self, X_ICRF):
        a, d = self.a0, self.d0
        ex = [-np.sin(a), np.cos(a), 0]
        ez = [np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)]
        ey = np.cross(ez, ex)
        return np.array([np.dot(ex, X_ICRF), np.dot(ey, X_ICRF), np.dot(ez, X_ICRF)])

    @ob(ranks={'X_ICRF': 'vec3'})
    def BI_to_BI_dprime(self, X_ICRF):
        c1, s1, c2, s2 = np.cos(self.phi_1), np.sin(self.phi_1), np.cos(self.phi_2), np.sin(self.phi_2)
        X = np.array([c2 * c1, c2 * s1, -s2])
        Y = np.array([-s1, c1, 0])
        Z = np.array([s2 * c1, s2 * s1, c2])
        return np.array([np.dot(X, X_ICRF), np.dot(Y, X_ICRF), np.dot(Z, X_ICRF)])

    def r_mag_bi(self, theta_star):
        return self.h ** 2 / (self.planetObj.GM * (1 + self.e * np.cos(theta_star)))

    def pos_vec_bi(self, theta_star):
        u = theta_star + self.omega
        return self.r_mag_bi(theta_star) * radial(self.OMEGA, self.i, u)

    def pos_vec_bi_dprime(self, theta_star):
        return self.BI_to_BI_dprime(self.pos_vec_bi(theta_star))

    def vel_vec_bi(self, theta_star):
        u = theta_star + self.omega
        speed = np.sqrt(self.v_inf_mag ** 2 + 2 * self.planetObj.GM / self.r_mag_bi(theta_star))
        # flight path angle: climbing after periapsis, descending before it
        fpa = np.arctan2(self.e * np.sin(theta_star), 1 + self.e * np.cos(theta_star))
        return speed * (np.sin(fpa) * radial(self.OMEGA, self.i, u) + np.cos(fpa) * transverse(self.OMEGA, self.i, u))

    @ob(attrs={'v_vec_entry_bi': 'vec3'})
    def vel_vec_entry_atm(self):
        return self.v_vec_entry_bi - corotating(self.r_vec_entry_bi_mag, self.latitude_entry_bi, self.longitude_entry_bi, self.planetObj.OMEGA)

    @ob(ranks={'v_inf_vec_icrf_kms': 'vec3', 'is_entrySystem': 'bool'}, calls=['Planet'], omit=[['h_EI'], ['is_entrySystem', 'h_EI']])
    def __init__(self, arrivalPlanet, v_inf_vec_icrf_kms, rp, psi, is_entrySystem=False, h_EI=None):
        ignore('heading_entry_atm')
        approach(self, arrivalPlanet, v_inf_vec_icrf_kms, rp, psi)
        if is_entrySystem:
            entry_state(self, h_EI)
        else:
            self.theta_star_periapsis = 0
            self.r_vec_rp_bi = self.rp_vec_bi
            self.v_vec_rp_bi = self.vel_vec_bi(0)

    @ob(impl='__init__', ranks={'v_inf_vec_icrf_kms': 'vec3', 'is_entrySystem': 'bool'}, calls=['Planet'], only=['heading_entry_atm'])
    def entry_heading(self, arrivalPlanet, v_inf_vec_icrf_kms, rp, psi, is_entrySystem, h_EI):
        """direction of the horizontal velocity, from the local parallel towards north"""
        assume(is_entrySystem == True)
        approach(self, arrivalPlanet, v_inf_vec_icrf_kms, rp, psi)
        entry_state(self, h_EI)
        lat, lon, v = self.latitude_entry_bi, self.longitude_entry_bi, self.v_vec_entry_atm_unit
        east = np.array([-np.sin(lon), np.cos(lon), 0])
        north = np.array([-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)])
        self.heading_entry_atm = np.arctan2(np.dot(v, north), np.dot(v, east))

    @ob(impl='__init__', ranks={'v_inf_vec_icrf_kms': 'vec3', 'is_entrySystem': 'bool'}, calls=['Planet'], only=['heading_entry_atm'], deviation=True)
    def entry_heading_as_built(self, arrivalPlanet, v_inf_vec_icrf_kms, rp, psi, is_entrySystem, h_EI):
        """as built: arc cosine of the east component of the projection, which is not a unit vector, sign lost"""
        assume(is_entrySystem == True)
        approach(self, arrivalPlanet, v_inf_vec_icrf_kms, rp, psi)
        entry_state(self, h_EI)
        self.heading_entry_atm = np.arccos(np.dot(self.v_vec_entry_atm_unit_proj, self.local_latitude_parallel_vec_unit))
