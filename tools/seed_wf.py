"""Synthetic eccentric waveform used by the demonstrations."""
import os
import sys
sys.path.insert(0, os.getcwd())
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMPI_MCA_ess_singleton_isolated", "1")
import numpy as np


def waveform(ecc=0.1, t0=-12000., t1=200., dt=0.5, tshift=0., zeroecc=True,
             prec=False, l0=0.3):
    t = np.arange(t0, t1, dt)

    def orbit(t, ecc):
        tau = np.sqrt(t**2 + 60.**2)
        w = 0.5 * 0.04 * (tau / 6000.)**(-3. / 8)
        phi = np.concatenate([[0], np.cumsum(0.5 * (w[1:] + w[:-1])
                                             * np.diff(t))])
        e = ecc * (tau / 12000.)**(19. / 48)
        ell = 0.97 * phi + l0
        omega = w * (1 + 2 * e * np.cos(ell) + 2.5 * e**2 * np.cos(2 * ell))
        phase = 2 * np.concatenate([[0], np.cumsum(
            0.5 * (omega[1:] + omega[:-1]) * np.diff(t))])
        amp = 0.3 * (tau / 60.)**(-0.25) * (1 + 1.2 * e * np.cos(ell))
        return amp, phase
    amp, phase = orbit(t, ecc)
    d = {"t": t + tshift, "hlm": {(2, 2): amp * np.exp(-1j * phase)}}
    if prec:
        d["hlm"][(2, -2)] = amp * np.exp(1j * phase)
    if zeroecc:
        tz = np.arange(t0 - 500., t1, dt)
        amp, phase = orbit(tz, 0.)
        d["t_zeroecc"] = tz
        d["hlm_zeroecc"] = {(2, 2): amp * np.exp(-1j * phase)}
        if prec:
            d["hlm_zeroecc"][(2, -2)] = amp * np.exp(1j * phase)
    return d
