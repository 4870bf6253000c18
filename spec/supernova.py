"""Reference formulas for core collapse and natal kicks (only analysed).

Masses in Msun, separations in Rsun, velocities in km/s.
"""
import copy

import numpy as np
import pandas as pd
import scipy as sp

import posydon.utils.constants as const
from posydon.binary_evol.flow_chart import STAR_STATES_CC
from posydon.binary_evol.SN.profile_collapse import do_core_collapse_BH
from posydon.utils.limits_thresholds import THRESHOLD_CENTRAL_ABUNDANCE
from posydon.utils.common_functions import (CO_radius,
                                            calculate_Patton20_values_at_He_depl,
                                            is_number,
                                            orbital_period_from_separation, rotate,
                                            separation_evol_wind_loss)


def _pre(star):
    """Mass, CO core and He core of the star that collapses."""
    if star.state in STAR_STATES_CC:
        return star.mass, star.co_core_mass, star.he_core_mass
    if star.state_history[-1] in STAR_STATES_CC:
        return (star.mass_history[-1], star.co_core_mass_history[-1],
                star.he_core_mass_history[-1])
    raise ValueError


def _wd_mass(m_core, m_He_core, m_star):
    if m_core > 0:
        return m_core
    if m_He_core > 0:
        return m_He_core
    if m_star < 0.5:
        return m_star
    raise ValueError


def sn_type(self, m_core, m_He_core, m_star):
    """Tauris+15: 1.37 <= M_CO <= 1.43 ; Podsiadlowski+04: 1.4 <= M_He <= 2.5."""
    if self.ECSN == "Tauris+15":
        if m_core < 1.37:
            return _wd_mass(m_core, m_He_core, m_star), 1.0, "WD", "WD"
        if m_core <= 1.43:
            return None, None, None, "ECSN"
        return None, None, None, "CCSN"
    if self.ECSN == "Podsiadlowski+04":
        if m_He_core < 1.4:
            return _wd_mass(m_core, m_He_core, m_star), 1.0, "WD", "WD"
        if m_He_core <= 2.5:
            return None, None, None, "ECSN"
        return None, None, None, "CCSN"
    if self.ECSN is None:
        if m_core < 1.37:
            return _wd_mass(m_core, m_He_core, m_star), 1.0, "WD", "WD"
        return None, None, None, "CCSN"
    raise ValueError


def _ecsn(self, m_core):
    if self.ECSN == "Podsiadlowski+04":
        return 1.38
    return m_core


def rapid(m_core, m):
    """Fryer+12 eqs 15-16 with a proto-NS of 1.1 Msun -> (m_rem, f_fb)."""
    p = 1.1
    if m_core < 2.5:
        return p + 0.2, 0.2 / (m - p)
    if m_core < 6:
        fb = 0.286 * m_core - 0.514
        return p + fb, fb / (m - p)
    if m_core < 7:
        return m, 1.0
    if m_core < 11:
        a = 0.25 - 1.275 / (m - p)
        f = a * m_core + (1 - 11 * a)
        return p + f * (m - p), f
    return m, 1.0


def delayed(m_core, m):
    """Fryer+12 eqs 18-19."""
    if m_core < 3.5:
        p = 1.2
    elif m_core < 6:
        p = 1.3
    elif m_core < 11:
        p = 1.4
    else:
        p = 1.6
    if m_core < 2.5:
        return p + 0.2, 0.2 / (m - p)
    if m_core < 3.5:
        fb = 0.5 * m_core - 1.05
        return p + fb, fb / (m - p)
    if m_core < 11:
        a = 0.133 - 0.093 / (m - p)
        f = a * m_core + (1 - 11 * a)
        return p + f * (m - p), f
    return m, 1.0


def _cap(star, m_rembar, m_PISN):
    if m_PISN is None:
        return m_rembar
    if pd.isna(m_PISN):
        return m_PISN
    if m_rembar > m_PISN:
        return m_PISN
    return m_rembar


def _sntype(star, t, m_rembar, m_PISN):
    if t == "WD" or m_PISN is None:
        return t
    if pd.isna(m_PISN):
        return "PISN"
    if m_rembar > m_PISN:
        return "PPISN"
    return t


def remnant(self, star, m_PISN):
    """(m_rembar, f_fb, state, SN_type) before neutrino losses."""
    m_star, m_core, m_He = _pre(star)
    if m_core is None or pd.isna(m_core):
        raise ValueError
    m = m_star if self.conserve_hydrogen_envelope else m_He
    m_wd, f_wd, st_wd, t = sn_type(self, m_core, m_He, m_star)
    if t == "WD":
        return m_wd, f_wd, st_wd, t
    mech = self.mechanism
    if mech == "direct":
        r, f, state = m, 1.0, None
    elif t == "ECSN":
        r, f = _ecsn(self, m_core), 0.0
        if mech == "Fryer+12-rapid" or mech == "Fryer+12-delayed":
            state = None
        else:
            state = "NS"
    elif mech == "Fryer+12-rapid":
        r, f = rapid(m_core, m)
        state = None
    elif mech == "Fryer+12-delayed":
        r, f = delayed(m_core, m)
        state = None
    elif mech == "Sukhbold+16-engine":
        r, f, state = self.Sukhbold_corecollapse_engine(
            star, self.conserve_hydrogen_envelope)
    elif mech == "Couch+20-engine":
        r, f, state = self.Couch_corecollapse_engine(
            star, self.conserve_hydrogen_envelope)
    elif mech == "Patton&Sukhbold20-engine":
        r, f, state = self.Patton20_corecollapse(
            star, self.engine, self.conserve_hydrogen_envelope)
    elif mech == "Maltsev+25-engine":
        r, f, state = self.Maltsev25_corecollapse(
            star, self.engine, self.conserve_hydrogen_envelope)
    else:
        raise ValueError
    return _cap(star, r, m_PISN), f, state, _sntype(star, t, r, m_PISN)


def pisn_marchant(self, star):
    """Marchant+19 fit: PPISN for 31.99-61.10 Msun He cores, PISN up to 124.12."""
    x = star.he_core_mass
    if 31.99 <= x <= 61.10:
        return (-629429.263 + x * (115957.797 + x * (-9283.32577 + x * (
            421.856189 + x * (-11.9019565 + x * (0.213499267 + x * (
                -0.00237814255 + x * (1.50408118e-05 - x * 4.13587235e-08))))))))
    if 61.10 < x < 124.12:
        return np.nan
    if self.conserve_hydrogen_envelope:
        return star.mass
    return x


def pisn_hendriks_loss(self, star):
    """Hendriks+23 eq. 6: mass lost in pulsations (0 outside the window)."""
    shift = self.PISN_CO_shift if self.PISN_CO_shift is not None else 0
    extra = self.PPI_extra_mass_loss if self.PPI_extra_mass_loss is not None else 0
    x = star.co_core_mass - shift
    if star.co_core_mass >= 38 + shift and star.co_core_mass <= 114 + shift:
        Z = star.metallicity
        if Z < 1e-4:
            Z = 1e-4
        return ((0.0006 * np.log10(Z * const.Zsun) + 0.0054) * (x - 34.8)**3
                - 0.0013 * (x - 34.8)**2 + extra)
    return 0.0


def pisn_hendriks_premass(self, star):
    """Mass collapsing after pulsations; NaN when nothing is left."""
    d = pisn_hendriks_loss(self, star)
    if d <= 0:
        if self.conserve_hydrogen_envelope:
            return star.mass
        return star.he_core_mass
    if self.conserve_hydrogen_PPI:
        return star.mass - d
    return star.he_core_mass - d


# ---------------------------------------------------------------- engines

ERTL16 = {"N20": (0.194, 0.0580), "S19.8": (0.274, 0.0470), "W15": (0.225, 0.0495),
          "W20": (0.284, 0.0393), "W18": (0.283, 0.0430), "Ertl2020": (0.182, 0.0608)}


def patton20(self, star, engine, conserve):
    k1, k2 = ERTL16[engine]
    m_CO, X_C = self.get_CO_core_params(star, self.approx_at_he_depletion)
    M4, mu4, Xi, sc = self.get_M4_mu4_Patton20(m_CO, X_C)
    M4, mu4 = M4[0], mu4[0]
    if m_CO <= 2.5:
        return 1.25, 0.0, "NS"
    if m_CO >= 10 or k1 * mu4 * M4 + k2 < mu4:
        return (star.mass if conserve else star.he_core_mass), 1.0, "BH"
    return M4, 0.0, "NS"


def explodes(xi, sc, mu4M4, mu4, k1, k2):
    """Maltsev+25: True when the supernova succeeds."""
    fails = xi > 0.544 or sc > 1.169
    succeeds = xi < 0.314 or sc < 0.988
    if fails and not succeeds:
        return False
    if succeeds and not fails:
        return True
    if mu4M4 > 0.421:
        return False
    if mu4M4 < 0.247:
        return True
    return not k1 + k2 * mu4M4 > mu4


def ns_or_fallback(self, xi, m_CO, M4, mu4M4):
    if xi <= 0.04 or (xi < 1.75 * mu4M4 - 0.044 and xi <= 0.4) or M4 / m_CO > 0.6:
        return "NS"
    if self.RNG.uniform(0, 1) <= 0.15:
        return "fallback_BH"
    return "NS"


def maltsev25(self, star, engine, conserve):
    m_CO, X_C = self.get_CO_core_params(star, self.approx_at_he_depletion)
    M4, mu4, xi, sc = self.get_M4_mu4_Patton20(m_CO, X_C)
    M4, mu4, xi, sc = M4[0], mu4[0], xi[0], sc[0]
    m = star.mass if conserve else star.he_core_mass
    if m_CO <= 2.5:
        return 1.25, 0.0, "NS"
    if m_CO >= 10:
        return m, 1.0, "BH"
    if not explodes(xi, sc, mu4 * M4, mu4, 0.005, 0.420):
        return m, 1.0, "BH"
    if ns_or_fallback(self, xi, m_CO, M4, mu4 * M4) == "NS":
        return M4, 0.0, "NS"
    return m, 0.99, "BH"


def interpolated(self, m_CO, X_C):
    x = [[X_C, m_CO]]
    return (self.M4_interpolator.predict(x), self.mu4_interpolator.predict(x),
            self.Xi_interpolator.predict(x), self.sc_interpolator.predict(x))


def co_core(self, star, approximation):
    """C/O core mass and its carbon fraction at helium depletion."""
    if approximation:
        m = star.co_core_mass
        if "H-rich" in star.state or "H-rich" in star.state_history[-1]:
            return m, c_frac_H(self, m)
        if "stripped_He" in star.state or "stripped_He" in star.state_history[-1]:
            return m, c_frac_He(self, m)
        raise ValueError
    if (star.avg_c_in_c_core_at_He_depletion is None
            or star.co_core_mass_at_He_depletion is None):
        calculate_Patton20_values_at_He_depl(star)
        if (star.avg_c_in_c_core_at_He_depletion is None
                or star.co_core_mass_at_He_depletion is None):
            raise ValueError
    return star.co_core_mass_at_He_depletion, star.avg_c_in_c_core_at_He_depletion


def c_frac_H(self, m):
    return 0.20 / m + 0.15


def c_frac_He(self, m):
    return -0.084 * np.log(m) + 0.4


def couch20(self, star, conserve):
    m_star, m_core, m_He = _pre(star)
    k = int(self.stellar_type_classifier.predict([[m_He]])[0])
    if k == 14:
        return float(m_star if conserve else m_He), 1.0, "BH"
    if k == 13:
        return float(1.4), 0.0, "NS"
    raise ValueError


def sukhbold16(self, star, conserve):
    m_star, m_core, m_He = _pre(star)
    k = int(self.stellar_type_classifier.predict([[m_He]])[0])
    if k == 14:
        return (float(self.extrapolate_BH(m_star if conserve else m_He,
                                          self.mass_BH_interpolator)), 1.0, "BH")
    if k == 13:
        return float(self.extrapolate_NS(m_He, self.mass_NS_interpolator)), 0.0, "NS"
    raise ValueError


# ---------------------------------------------------------- after the collapse

def gravitational_mass(self, m):
    """Zevin+20: 20/3 (sqrt(1 + 0.3 m) - 1), loss capped by max_neutrino_mass_loss."""
    g = 20 / 3 * (np.sqrt(1 + 0.3 * m) - 1)
    if m - g > self.max_neutrino_mass_loss:
        g = m - self.max_neutrino_mass_loss
    return g


def black_hole_spin(star, m):
    """J c / (G M^2), at most 1."""
    spin = (10**star.log_total_angular_momentum * const.clight
            / (const.standard_cgrav * (m * const.Msun)**2))
    if spin > 1:
        spin = 1.
    return spin


def from_cores(self, star, m_rembar):
    """use_core_masses: (mass, state, spin, disk accreted, disk radiated)."""
    g = gravitational_mass(self, m_rembar)
    if g >= self.max_NS_mass:
        return g, "BH", black_hole_spin(star, g), 0., 0.
    return g, "NS", 0., 0., 0.


def without_spin(self, star, m_rembar):
    g = gravitational_mass(self, m_rembar)
    if g >= self.max_NS_mass:
        return g, "BH", None, 0., 0.
    return g, "NS", None, 0., 0.


def from_profile(self, star, m_rembar):
    """use_profiles: the layers above max_NS_mass fall onto the central object."""
    g = gravitational_mass(self, m_rembar)
    if g >= self.max_NS_mass:
        loss = m_rembar - g
        if loss > self.max_neutrino_mass_loss:
            loss = self.max_neutrino_mass_loss
        bh = do_core_collapse_BH(star=star, mass_collapsing=m_rembar,
                                 mass_central_BH=self.max_NS_mass + loss,
                                 neutrino_mass_loss=loss,
                                 max_neutrino_mass_loss=self.max_neutrino_mass_loss,
                                 verbose=self.verbose)
        return (bh["M_BH_total"], "BH", bh["a_BH_total"], bh["m_disk_accreted"],
                bh["m_disk_radiated"])
    return g, "NS", 0., 0., 0.


def white_dwarf(self, star, m_rembar):
    """(mass, state, spin, He core, C/O core)"""
    if star.center_he4 < THRESHOLD_CENTRAL_ABUNDANCE:
        return m_rembar, "WD", 0., m_rembar, m_rembar
    return m_rembar, "WD", 0., m_rembar, 0.


def hendriks23(self, star):
    """Hendriks+23 pulsational pair instability mass loss (eq. 6)."""
    shift = self.PISN_CO_shift if self.PISN_CO_shift is not None else 0.
    extra = self.PPI_extra_mass_loss if self.PPI_extra_mass_loss is not None else 0.
    m = star.co_core_mass
    loss = 0.
    if 38 + shift <= m and m <= 114 + shift:
        Z = star.metallicity
        if Z < 1e-4:
            Z = 1e-4
        x = m - shift - 34.8
        loss = ((0.0006 * np.log10(Z * const.Zsun) + 0.0054) * x**3
                - 0.0013 * x**2 + extra)
    if loss <= 0:
        return star.mass if self.conserve_hydrogen_envelope else star.he_core_mass
    left = (star.mass if self.conserve_hydrogen_PPI else star.he_core_mass) - loss
    if left < 0:
        return np.nan
    s = copy.deepcopy(star)
    s.mass = left
    if s.he_core_mass > left:
        s.he_core_mass = left
    if s.co_core_mass > left:
        s.co_core_mass = left
    m_rem, _, _ = self.compute_m_rembar(s, left)
    if m_rem < 10:
        return np.nan
    return m_rem


# ------------------------------------------------------------------- kicks

def kick_velocity(self, star, sigma, mean):
    k = self.kick_prescription
    if k == "maxwellian":
        if sigma is None:
            sigma = 265.
        return sp.stats.maxwell.rvs(loc=0., scale=sigma, size=1,
                                    random_state=self.RNG)[0]
    if k == "log_normal":
        if sigma is None:
            sigma = 0.68
        if mean is None:
            mean = np.exp(5.60)
        return sp.stats.lognorm.rvs(s=sigma, scale=mean, size=1,
                                    random_state=self.RNG)[0]
    m = star.mass
    if k == "asym_ej":
        # Janka 2017 eq. 10, baryonic mass by inverting Zevin+20
        m_bar = ((3 * m / 20 + 1)**2 - 1) / 0.3
        m_ej = abs(star.mass_history[-1] - m_bar)
        return 211 * np.sqrt(0.1 * 0.1 * 1) * (0.01 / 0.1) * (m_ej / 0.1) * 1.5 / m
    if k == "linear":
        # Richards+22
        return 115 * (star.co_core_mass_history[-1] - m) / m + 15
    raise ValueError


def kick_norm(self, star):
    k = self.kick_normalisation
    if k == "one_minus_fallback":
        return 1 - star.f_fb
    if k == "one_over_mass":
        if star.state == "BH":
            return 1.4 / star.mass
        return 1.
    if k == "NS_one_minus_fallback_BH_one":
        if star.state == "BH":
            return 1.
        return 1 - star.f_fb
    if k == "one":
        return 1.
    if k == "zero":
        return 0.
    raise ValueError


def kick(self, star, sigma, mean):
    if sigma is None:
        return 0.
    return kick_norm(self, star) * kick_velocity(self, star, sigma, mean)


def combined_tilt(self, tilt_1, tilt_2, ta_1, ta_2):
    z = rotate((1, 0, 0), tilt_1).dot((0, 0, 1))
    x = rotate(z, ta_2 - ta_1).dot((1, 0, 0))
    return np.arccos(np.dot((0, 0, 1), rotate(x, tilt_2).dot(z)))


def sn_orbit(m_pre, m_rem, m_comp, a, e, vk, phi, cos_theta, M):
    """Kalogera 1996 / Wong+2012: orbit after an instantaneous explosion.

    Returns (bound?, separation, eccentricity, systemic velocity, tilt,
    true anomaly)."""
    E = sp.optimize.brentq(lambda x: M - x + e * np.sin(x), 0, 2 * np.pi)
    nu = 2 * np.arctan(np.sqrt((1 + e) / (1 - e)) * np.tan(E / 2))
    G = const.standard_cgrav
    m0, m1, m2 = m_pre * const.Msun, m_rem * const.Msun, m_comp * const.Msun
    A = a * const.Rsun
    r = a * (1 - e * np.cos(E)) * const.Rsun
    v = vk * const.km2cm
    sin_theta = np.sqrt(1 - cos_theta**2)
    Vr = np.sqrt(G * (m0 + m2) * (2 / r - 1 / A))
    sin_psi = np.round(np.sqrt(G * (m0 + m2) * (1 - e**2) * A) / (r * Vr), 5)
    cos_psi = np.sqrt(1 - sin_psi**2)
    if E > np.pi:
        cos_psi = -cos_psi
    A2 = 1 / (2 / r - (v**2 + Vr**2 + 2 * v * cos_theta * Vr) / (G * (m1 + m2)))
    vx = v * (sin_theta * np.sin(phi) * sin_psi + cos_theta * cos_psi)
    vy = v * (cos_theta * sin_psi - sin_theta * np.sin(phi) * cos_psi)
    vz = v * sin_theta * np.cos(phi)
    h2 = (vz**2 + (vy + Vr * sin_psi)**2) * r**2
    x = h2 / (G * (m1 + m2) * A2)
    if 1 - x < 0:
        e2 = np.nan
    else:
        e2 = np.sqrt(1 - x)
    vs = (m1 * (vx + Vr * cos_psi) / (m1 + m2) - m0 * Vr * cos_psi / (m0 + m2),
          m1 * (vy + Vr * sin_psi) / (m1 + m2) - m0 * Vr * sin_psi / (m0 + m2),
          m1 * vz / (m1 + m2))
    tilt = np.arccos((vy + Vr * sin_psi) / np.sqrt(vz**2 + (vy + Vr * sin_psi)**2))
    if vz < 0:
        tilt = -tilt
    err = const.SNcheck_ERR
    c1 = (1 - e2 - r / A2) <= err and r / A2 - (1 + e2) <= err
    f = Vr**2 * r / (G * (m0 + m2)) * (m0 + m2) / (m1 + m2)
    c2 = (r / A2 - (2 - f * (v / Vr - 1)**2) < err
          and (2 - f * (v / Vr + 1)**2) - r / A2 < err)
    bound = c1 and c2 and not (e2 >= 1 or pd.isna(e2))
    return (bound, A2 / const.Rsun, e2,
            (vs[0] / const.km2cm, vs[1] / const.km2cm, vs[2] / const.km2cm),
            tilt, nu)


def orbit_after(self, binary, sn, comp):
    """State of the binary after the supernova of `sn` next to `comp`."""
    binary.time = binary.time_history[-1]
    if sn.SN_type == "WD":
        # slow mass loss, no kick
        a = separation_evol_wind_loss(sn.mass, sn.mass_history[-1], comp.mass,
                                      binary.separation)
        binary.orbital_period = orbital_period_from_separation(
            a, sn.mass, comp.mass)
        binary.separation = a
        binary.eccentricity = binary.eccentricity_history[-1]
        if (binary.state != "disrupted" and binary.state != "initially_single_star"
                and binary.state != "merged"):
            binary.state = "detached"
        return
    if sn.state_history[-1] not in STAR_STATES_CC:
        raise ValueError
    m_pre = sn.mass_history[-1]
    if sn.natal_kick_velocity is None:
        if sn.SN_type == "ECSN":
            s, m = self.sigma_kick_ECSN, self.mean_kick_ECSN
        elif sn.state == "NS":
            s, m = self.sigma_kick_CCSN_NS, self.mean_kick_CCSN_NS
        elif sn.state == "BH":
            s, m = self.sigma_kick_CCSN_BH, self.mean_kick_CCSN_BH
        else:
            s, m = None, None
        sn.natal_kick_velocity = self.generate_kick(star=sn, sigma=s, mean=m)
    if sn.natal_kick_azimuthal_angle is None:
        sn.natal_kick_azimuthal_angle = self.RNG.uniform(0, 2 * np.pi)
    if sn.natal_kick_polar_angle is None:
        ct = self.RNG.uniform(-1, 1)
        sn.natal_kick_polar_angle = np.arccos(ct)
    else:
        ct = np.cos(sn.natal_kick_polar_angle)
    if sn.natal_kick_mean_anomaly is None:
        sn.natal_kick_mean_anomaly = self.RNG.uniform(0, 2 * np.pi)
    elif not isinstance(sn.natal_kick_mean_anomaly, float):
        raise ValueError
    if (binary.state == "disrupted" or binary.state == "initially_single_star"
            or binary.state == "merged"):
        _no_orbit(binary)
        binary.first_SN_already_occurred = True
        return
    if sn.state == "massless_remnant" or comp.state == "massless_remnant":
        _disrupt(binary, sn, comp)
        return
    bound, a, e, v, tilt, nu = sn_orbit(
        m_pre, sn.mass, comp.mass, binary.separation, binary.eccentricity,
        sn.natal_kick_velocity, sn.natal_kick_azimuthal_angle, ct,
        sn.natal_kick_mean_anomaly)
    if not bound:
        _disrupt(binary, sn, comp)
        return
    if not binary.first_SN_already_occurred:
        sn.spin_orbit_tilt_first_SN = tilt
        comp.spin_orbit_tilt_first_SN = tilt
        binary.true_anomaly_first_SN = nu
        binary.first_SN_already_occurred = True
    else:
        sn.spin_orbit_tilt_second_SN = tilt
        comp.spin_orbit_tilt_second_SN = self.get_combined_tilt(
            tilt_1=comp.spin_orbit_tilt_first_SN, tilt_2=tilt,
            true_anomaly_1=binary.true_anomaly_first_SN, true_anomaly_2=nu)
        binary.true_anomaly_second_SN = nu
    binary.state = "detached"
    binary.separation = a
    binary.eccentricity = e
    binary.V_sys = np.array([v[0], v[1], v[2]])
    binary.orbital_period = orbital_period_from_separation(a, sn.mass, comp.mass)


def _no_orbit(binary):
    binary.separation = np.nan
    binary.eccentricity = np.nan
    binary.orbital_period = np.nan
    binary.V_sys = np.array([0, 0, 0])


def _disrupt(binary, sn, comp):
    _no_orbit(binary)
    binary.state = "disrupted"
    if not binary.first_SN_already_occurred:
        sn.spin_orbit_tilt_first_SN = np.nan
        comp.spin_orbit_tilt_first_SN = np.nan
        binary.first_SN_already_occurred = True
    else:
        sn.spin_orbit_tilt_second_SN = np.nan
        comp.spin_orbit_tilt_second_SN = np.nan


def is_na(m):
    return pd.isna(m)


def no_profile(star):
    return star.profile is None
