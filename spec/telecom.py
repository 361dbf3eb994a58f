"""Reference model: link budget, transmit schedule, data volume."""
import numpy as np
from scipy.integrate import cumulative_trapezoid


def dB(x):
    return 10 * np.log10(x)


def gain(eta, D, wavelength):
    return eta * (np.pi * D / wavelength) ** 2


class Link:
    @ob(omit=[['Dt', 'eta_t', 'Dr', 'eta_r', 'Lt_dB', 'L_sc_dB', 'La_dB', 'L_DSN_dB'],
              ['Gt_dBi', 'Gr_dBi', 'Lt_dB', 'L_sc_dB', 'La_dB', 'L_DSN_dB']])
    def __init__(self, freq, Pt, Ts, range_km, L_other_dB, rate_kbps, Eb_N0_req, Dt=None, eta_t=None, Gt_dBi=None,
                 Dr=None, eta_r=None, Gr_dBi=None, Lt_dB=1.0, L_sc_dB=0.2, La_dB=0.35, L_DSN_dB=1.0):
        lam = 3e8 / (freq * 1e9)
        self.freq = freq * 1e9
        self.wavelength = lam
        self.Pt = Pt
        self.Pt_dB = dB(Pt)
        self.Lt_dB = Lt_dB
        self.L_sc_dB = L_sc_dB
        # an antenna is given by its diameter and efficiency, or by its gain
        if Dt and eta_t:
            self.Dt = Dt
            self.At = np.pi * Dt ** 2 / 4
            self.eta_t = eta_t
            self.Gt = gain(eta_t, Dt, lam)
            self.Gt_dBi = dB(self.Gt)
        elif Gt_dBi is not None:
            self.Dt = None
            self.At = None
            self.eta_t = None
            self.Gt_dBi = Gt_dBi
        else:
            unspecified()
        if Dr and eta_r:
            self.Dr = Dr
            self.Ar = np.pi * Dr ** 2 / 4
            self.eta_r = eta_r
            self.Gr = gain(eta_r, Dr, lam)
            self.Gr_dBi = dB(self.Gr)
        elif Gr_dBi is not None:
            self.Dr = None
            self.Ar = None
            self.eta_r = None
            self.Gr_dBi = Gr_dBi
        else:
            unspecified()
        self.Ts = Ts
        self.Ts_dBK = dB(Ts)
        self.range = 1e3 * range_km
        self.Ls_dB = 20 * np.log10(4 * np.pi * self.range / lam)
        self.La_dB = La_dB
        self.L_other_dB = L_other_dB
        self.L_DSN_dB = L_DSN_dB
        self.Ka = 1.38e-23
        self.Ka_dB = dB(self.Ka)
        self.R = 1e3 * rate_kbps
        self.R_dBHz = dB(self.R)
        self.EB_N0_req = Eb_N0_req
        losses = Lt_dB + L_sc_dB + self.Ls_dB + La_dB + L_other_dB + L_DSN_dB
        self.EB_N0 = self.Pt_dB + self.Gt_dBi + self.Gr_dBi - losses - self.Ts_dBK - self.R_dBHz - self.Ka_dB
        self.EB_N0_margin = self.EB_N0 - Eb_N0_req

    def compute_dB(self, X):
        return dB(X)

    def compute_antenna_gain(self, eta, D, wavelength):
        return gain(eta, D, wavelength)

    def compute_free_space_loss_dB(self, range, wavelength):
        return 20 * np.log10(4 * np.pi * range / wavelength)

    @ob(types={'visibility': 'LanderToOrbiter', 'schedule': 'Schedule'},)
    def compute_data_volume(self, visibility, schedule):
        self.visibility = visibility
        self.schedule = schedule
        self.t_array = visibility.t_array
        rate = self.R * visibility.visible_array * schedule.transmit_array
        self.data_volume_array = cumulative_trapezoid(rate, visibility.t_array, initial=0)

    @ob(console=True)
    def print_link_budget(self):
        rule = '-------------------------------------------'
        text = '\n'
        text += '\n' + rule
        text += '\nFrequency, GHz:          ' + str(self.freq / 1e9)
        text += '\nTransmitter Power, W:    ' + str(self.Pt)
        text += '\nTransmitter Power, dB:   ' + str(round(self.Pt_dB, 2))
        text += '\nTransmitter Loss, dB:   -' + str(round(self.Lt_dB, 2))
        text += '\nS/C Circuit Loss, dB:   -' + str(round(self.L_sc_dB, 2))
        text += '\nTransmit antenna D., m:  ' + str(self.Dt)
        text += '\nTransmit antenna eff:    ' + str(self.eta_t)
        text += '\nTransmitter Gain, dBi:   ' + str(round(self.Gt_dBi, 2))
        text += '\nReceive antenna D., m:   ' + str(self.Dr)
        text += '\nReceive antenna eff:     ' + str(self.eta_r)
        text += '\nReceiver Gain, dBi:      ' + str(round(self.Gr_dBi, 2))
        text += '\nSystem Noise Temp, K:    ' + str(self.Ts)
        text += '\nSystem Noise Temp, dBK: -' + str(round(self.Ts_dBK, 2))
        text += '\nLink Distance, km:       ' + str(self.range / 1e3)
        text += '\nFree Space Loss, dB:    -' + str(round(self.Ls_dB, 2))
        text += '\nAtmospheric Loss, dB:   -' + str(self.La_dB)
        text += '\nOther Losses, dB:       -' + str(self.L_other_dB)
        text += '\nDSN Losses, dB:         -' + str(self.L_DSN_dB)
        text += '\nBoltzmann\'s const, dB:  +' + str(round(-self.Ka_dB, 2))
        text += '\nData rate, kbps:         ' + str(self.R / 1e3)
        text += '\nData rate, dBhz:        -' + str(round(self.R_dBHz, 2))
        text += '\n' + rule
        text += '\nAvailable Eb/N0:         ' + str(round(self.EB_N0, 2))
        text += '\nRequired Eb/N0:          ' + str(self.EB_N0_req)
        text += '\nEb/N0 Margin:            ' + str(round(self.EB_N0_margin, 2))
        text += '\n' + rule
        print(text)


class Schedule:
    def __init__(self, t_seconds, num_points, t_transmit_times_list):
        self.t_array = np.linspace(0, t_seconds, num_points)
        self.transmit_array = np.array([any(w[0] <= t <= w[1] for w in t_transmit_times_list) for t in self.t_array])
