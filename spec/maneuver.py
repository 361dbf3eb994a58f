"""Reference model: deflection manoeuvres on approach — transfer velocities, delta-v and times of flight."""
import numpy as np

from AMAT.planet import Planet
from AMAT.approach import Approach

DAY = 86400


def unit(x):
    return x / np.linalg.norm(x)


def inbound_anomaly(x, r, G):
    """true anomaly at which the approach hyperbola x passes radius r on the way in"""
    return -np.arccos((x.h ** 2 / (G * r) - 1) / x.e)


def separation(r, x):
    """angle at the planet from the position r to the periapsis of x"""
    return np.arccos(np.dot(x.rp_vec_bi_unit, unit(r)))


def lagrange_velocity(r, R, target, rt, dnu, p, G):
    """velocity at r (magnitude R) on the conic of parameter p that reaches target (magnitude rt) after the angle dnu"""
    f = 1 - rt / p * (1 - np.cos(dnu))
    g = R * rt * np.sin(dnu) / np.sqrt(G * p)
    return (target - f * r) / g


def own_velocity(x, r, R, dnu, G):
    return lagrange_velocity(r, R, x.rp_vec_bi, x.rp, dnu, x.a * (1 - x.e ** 2), G)


def lambert(x, r, R, dnu, G):
    """transfer with the energy of x from r to the periapsis of x: velocity at r and time of flight in days (Prussing, hyperbolic)"""
    a = abs(x.a)
    c = np.sqrt(x.rp ** 2 + R ** 2 - 2 * x.rp * R * np.cos(dnu))
    s = (x.rp + R + c) / 2
    al = 2 * np.arcsinh(np.sqrt(s / (2 * a)))
    be = 2 * np.arcsinh(np.sqrt((s - c) / (2 * a)))
    p = 4 * a * (s - x.rp) * (s - R) / c ** 2 * np.sinh((al + be) / 2) ** 2
    v = lagrange_velocity(r, R, x.rp_vec_bi, x.rp, dnu, p, G)
    t = np.sqrt(a ** 3 / G) * ((np.sinh(al) - al) - (np.sinh(be) - be))
    return v, t / DAY


def hyperbolic_anomaly(x, nu):
    return 2 * np.arctanh(np.sqrt((x.e - 1) / (x.e + 1)) * np.tan(nu / 2))


def time_from_periapsis(x, nu, G):
    """days between periapsis and the (positive) true anomaly nu"""
    H = hyperbolic_anomaly(x, nu)
    return np.sqrt(abs(x.a) ** 3 / G) * abs(x.e * np.sinh(H) - H) / DAY


def time_to_interface(x, nu, G):
    return time_from_periapsis(x, nu, G) - time_from_periapsis(x, abs(x.theta_star_entry), G)


def impulse(self, before, after):
    self.dv_maneuver_vec = after - before
    self.dv_maneuver_mag = np.linalg.norm(after - before)


def place(self, arrivalPlanet, r_dv_rp):
    self.planetObj = Planet(arrivalPlanet)
    self.r_dv_rp = r_dv_rp
    self.r_dv = r_dv_rp * self.planetObj.RP


def probe(planet, v, rp, psi, h):
    return Approach(planet, v, rp, psi, is_entrySystem=True, h_EI=h)


class ProbeOrbiterDeflection:
    @ob(calls=['Planet', 'Approach', 'pos_vec_bi'])
    def __init__(self, arrivalPlanet, v_inf_vec_icrf_kms, rp_probe, psi_probe, h_EI_probe, rp_space, psi_space, r_dv_rp):
        ignore('TOF_probe', 'P_probe', 'f_probe', 'g_probe', 'C', 'S', 'alpha_prime', 'beta_prime', 'P1', 'P2', 'P_space', 'f_space', 'g_space',
               'H1', 'H_dv_probe', 'T1', 'T2', 'U1', 'U2')
        place(self, arrivalPlanet, r_dv_rp)
        G, R = self.planetObj.GM, self.r_dv
        self.probe = probe(arrivalPlanet, v_inf_vec_icrf_kms, rp_probe, psi_probe, h_EI_probe)
        self.space = Approach(arrivalPlanet, v_inf_vec_icrf_kms, rp_space, psi_space)
        nu = inbound_anomaly(self.probe, R, G)
        r = self.probe.pos_vec_bi(nu)
        self.theta_star_dv_probe = nu
        self.r_vec_dv = r
        self.r_vec_dv_unit = unit(r)
        self.delta_theta_star_probe = abs(nu)
        self.delta_theta_star_space = separation(r, self.space)
        self.v_vec_dv_probe = own_velocity(self.probe, r, R, abs(nu), G)
        self.v_vec_dv_space, self.TOF_space = lambert(self.space, r, R, self.delta_theta_star_space, G)
        impulse(self, self.v_vec_dv_probe, self.v_vec_dv_space)

    @ob(impl='__init__', calls=['Planet', 'Approach', 'pos_vec_bi'], only=['TOF_probe'])
    def tof_to_entry(self, arrivalPlanet, v_inf_vec_icrf_kms, rp_probe, psi_probe, h_EI_probe, rp_space, psi_space, r_dv_rp):
        place(self, arrivalPlanet, r_dv_rp)
        G = self.planetObj.GM
        x = probe(arrivalPlanet, v_inf_vec_icrf_kms, rp_probe, psi_probe, h_EI_probe)
        self.TOF_probe = time_to_interface(x, abs(inbound_anomaly(x, self.r_dv, G)), G)

    @ob(impl='__init__', calls=['Planet', 'Approach', 'pos_vec_bi'], only=['TOF_probe'], deviation=True)
    def tof_to_periapsis(self, arrivalPlanet, v_inf_vec_icrf_kms, rp_probe, psi_probe, h_EI_probe, rp_space, psi_space, r_dv_rp):
        place(self, arrivalPlanet, r_dv_rp)
        G = self.planetObj.GM
        x = probe(arrivalPlanet, v_inf_vec_icrf_kms, rp_probe, psi_probe, h_EI_probe)
        self.TOF_probe = time_from_periapsis(x, abs(inbound_anomaly(x, self.r_dv, G)), G)


def two_probes(self, arrivalPlanet, v, rp1, psi1, h1, rp2, psi2, h2, r_dv_rp):
    place(self, arrivalPlanet, r_dv_rp)
    G, R = self.planetObj.GM, self.r_dv
    self.probe1 = probe(arrivalPlanet, v, rp1, psi1, h1)
    self.probe2 = probe(arrivalPlanet, v, rp2, psi2, h2)
    nu = inbound_anomaly(self.probe1, R, G)
    r = self.probe1.pos_vec_bi(nu)
    self.theta_star_dv_probe1 = nu
    self.theta_star_dv_probe2 = inbound_anomaly(self.probe2, R, G)
    self.r_vec_dv = r
    self.r_vec_dv_unit = unit(r)
    self.delta_theta_star_probe1 = abs(nu)
    self.v_vec_dv_probe1 = own_velocity(self.probe1, r, R, abs(nu), G)


class ProbeProbeDeflection:
    @ob(calls=['Planet', 'Approach', 'pos_vec_bi'])
    def __init__(self, arrivalPlanet, v_inf_vec_icrf_kms, rp_probe1, psi_probe1, h_EI_probe1, rp_probe2, psi_probe2, h_EI_probe2, r_dv_rp):
        ignore('TOF_probe1', 'TOF_probe2', 'delta_theta_star_probe2', 'v_vec_dv_probe2', 'dv_maneuver_vec', 'dv_maneuver_mag',
               'P_probe1', 'f_probe1', 'g_probe1', 'P_probe2', 'f_probe2', 'g_probe2', 'H1', 'H_dv_probe1', 'T1', 'T2',
               'H2', 'H_dv_probe2', 'T3', 'T4')
        two_probes(self, arrivalPlanet, v_inf_vec_icrf_kms, rp_probe1, psi_probe1, h_EI_probe1, rp_probe2, psi_probe2, h_EI_probe2, r_dv_rp)

    @ob(impl='__init__', calls=['Planet', 'Approach', 'pos_vec_bi'],
        only=['delta_theta_star_probe2', 'v_vec_dv_probe2', 'dv_maneuver_vec', 'dv_maneuver_mag'])
    def second_probe(self, arrivalPlanet, v_inf_vec_icrf_kms, rp_probe1, psi_probe1, h_EI_probe1, rp_probe2, psi_probe2, h_EI_probe2, r_dv_rp):
        """the diverted probe must fly from the manoeuvre point, on the first probe's path, to its own periapsis"""
        two_probes(self, arrivalPlanet, v_inf_vec_icrf_kms, rp_probe1, psi_probe1, h_EI_probe1, rp_probe2, psi_probe2, h_EI_probe2, r_dv_rp)
        self.delta_theta_star_probe2 = separation(self.r_vec_dv, self.probe2)
        self.v_vec_dv_probe2, t = lambert(self.probe2, self.r_vec_dv, self.r_dv, self.delta_theta_star_probe2, self.planetObj.GM)
        impulse(self, self.v_vec_dv_probe1, self.v_vec_dv_probe2)

    @ob(impl='__init__', calls=['Planet', 'Approach', 'pos_vec_bi'], deviation=True,
        only=['delta_theta_star_probe2', 'v_vec_dv_probe2', 'dv_maneuver_vec', 'dv_maneuver_mag'])
    def second_probe_own_anomaly(self, arrivalPlanet, v_inf_vec_icrf_kms, rp_probe1, psi_probe1, h_EI_probe1, rp_probe2, psi_probe2,
                                 h_EI_probe2, r_dv_rp):
        """as built: the angle is the anomaly the second probe would have on its own approach path at the same radius"""
        two_probes(self, arrivalPlanet, v_inf_vec_icrf_kms, rp_probe1, psi_probe1, h_EI_probe1, rp_probe2, psi_probe2, h_EI_probe2, r_dv_rp)
        self.delta_theta_star_probe2 = abs(self.theta_star_dv_probe2)
        self.v_vec_dv_probe2 = own_velocity(self.probe2, self.r_vec_dv, self.r_dv, self.delta_theta_star_probe2, self.planetObj.GM)
        impulse(self, self.v_vec_dv_probe1, self.v_vec_dv_probe2)

    @ob(impl='__init__', calls=['Planet', 'Approach', 'pos_vec_bi'], only=['TOF_probe1', 'TOF_probe2'])
    def tof_to_entry(self, arrivalPlanet, v_inf_vec_icrf_kms, rp_probe1, psi_probe1, h_EI_probe1, rp_probe2, psi_probe2, h_EI_probe2, r_dv_rp):
        two_probes(self, arrivalPlanet, v_inf_vec_icrf_kms, rp_probe1, psi_probe1, h_EI_probe1, rp_probe2, psi_probe2, h_EI_probe2, r_dv_rp)
        G = self.planetObj.GM
        self.TOF_probe1 = time_to_interface(self.probe1, self.delta_theta_star_probe1, G)
        self.TOF_probe2 = time_to_interface(self.probe2, abs(self.theta_star_dv_probe2), G)

    @ob(impl='__init__', calls=['Planet', 'Approach', 'pos_vec_bi'], only=['TOF_probe1', 'TOF_probe2'], deviation=True)
    def tof_to_periapsis(self, arrivalPlanet, v_inf_vec_icrf_kms, rp_probe1, psi_probe1, h_EI_probe1, rp_probe2, psi_probe2, h_EI_probe2, r_dv_rp):
        two_probes(self, arrivalPlanet, v_inf_vec_icrf_kms, rp_probe1, psi_probe1, h_EI_probe1, rp_probe2, psi_probe2, h_EI_probe2, r_dv_rp)
        G = self.planetObj.GM
        self.TOF_probe1 = time_from_periapsis(self.probe1, self.delta_theta_star_probe1, G)
        self.TOF_probe2 = time_from_periapsis(self.probe2, abs(self.theta_star_dv_probe2), G)


class OrbiterOrbiterDeflection:
    @ob(calls=['Planet', 'Approach', 'pos_vec_bi'])
    def __init__(self, arrivalPlanet, v_inf_vec_icrf_kms, rp_space1, psi_space1, rp_space2, psi_space2, r_dv_rp):
        ignore('C1', 'S1', 'alpha_prime1', 'beta_prime1', 'P1', 'P2', 'P_space1', 'f_space1', 'g_space1',
               'C2', 'S2', 'alpha_prime2', 'beta_prime2', 'P3', 'P4', 'P_space2', 'f_space2', 'g_space2', 'U1', 'U2', 'U3', 'U4')
        place(self, arrivalPlanet, r_dv_rp)
        G, R = self.planetObj.GM, self.r_dv
        self.space1 = Approach(arrivalPlanet, v_inf_vec_icrf_kms, rp_space1, psi_space1)
        self.space2 = Approach(arrivalPlanet, v_inf_vec_icrf_kms, rp_space2, psi_space2)
        nu = inbound_anomaly(self.space1, R, G)
        r = self.space1.pos_vec_bi(nu)
        self.theta_star_dv_space1 = nu
        self.r_vec_dv = r
        self.r_vec_dv_unit = unit(r)
        self.delta_theta_star_space1 = separation(r, self.space1)
        self.delta_theta_star_space2 = separation(r, self.space2)
        self.v_vec_dv_space1, self.TOF_space1 = lambert(self.space1, r, R, self.delta_theta_star_space1, G)
        self.v_vec_dv_space2, self.TOF_space2 = lambert(self.space2, r, R, self.delta_theta_star_space2, G)
        impulse(self, self.v_vec_dv_space1, self.v_vec_dv_space2)
